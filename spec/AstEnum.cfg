SPECIFICATION EnumSpec
INVARIANTS OnceEach ByWhom InOrder Paired Report
CHECK_DEADLOCK FALSE
