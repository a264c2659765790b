SPECIFICATION CaseSpec
CONSTANTS Sym <- SymC
          FSets <- FSetsC
          Fonts <- FontsC
          Owner <- OwnerC
INVARIANTS Transparent StaleOnlyModed RightGlyph Proportional Consistent Report
CHECK_DEADLOCK FALSE
