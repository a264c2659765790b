SPECIFICATION TraceSpec
CONSTANT Sets <- SetsC
INVARIANTS AsAlone LoadedOnce NeverPartial TraceReport
CHECK_DEADLOCK FALSE
