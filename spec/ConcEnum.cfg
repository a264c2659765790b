SPECIFICATION EnumSpec
CONSTANT Sets <- SetsC
INVARIANTS AsAlone LoadedOnce NeverPartial NoDeadlock EnumReport
PROPERTY Ends
CHECK_DEADLOCK FALSE
