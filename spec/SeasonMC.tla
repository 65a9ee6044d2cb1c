------------------------------ MODULE SeasonMC -----------------------------
EXTENDS Season
=============================================================================
