INIT Init
NEXT Next
CONSTANT MaxLen = 7
INVARIANTS DatesValid Increasing HoursComplete RunsMaximal FrameCovers DoyAdvances
CHECK_DEADLOCK FALSE
