INIT Init
NEXT Next
CONSTANT MaxLen = 5
INVARIANTS DatesValid Increasing HoursComplete RunsMaximal FrameCovers DoyAdvances
CHECK_DEADLOCK FALSE
