SPECIFICATION ModelSpec
PROPERTIES OwnOnly FailedSafe Places Listed Usable
CHECK_DEADLOCK FALSE
