SPECIFICATION CaseSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
