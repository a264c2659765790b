SPECIFICATION EnumSpec
INVARIANTS NeverStuck OpaqueInside BlankOutside SizeExact Report
PROPERTY Additive
CHECK_DEADLOCK FALSE
