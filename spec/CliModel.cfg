SPECIFICATION ModelSpec
PROPERTIES SourcesSafe FormatOnly NothingLost ReadOnly FailedFormatSafe OutputsOnly NoBytecode
CHECK_DEADLOCK FALSE
