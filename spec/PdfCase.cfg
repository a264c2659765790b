SPECIFICATION CaseSpec
INVARIANTS NeverStuck LastGood Told Report
PROPERTIES OnlyItsFile KeepsDrawings
CHECK_DEADLOCK FALSE
