SPECIFICATION Spec
CONSTANT Table <- TableC
INVARIANTS NeverStuck KnownResolve CharactersThemselves ElseRefused ReadsTheName Report
CHECK_DEADLOCK FALSE
