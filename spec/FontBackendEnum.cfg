SPECIFICATION EnumSpec
CONSTANTS Sym <- SymC
          FSets <- FSetsC
          Fonts <- FontsC
          Owner <- OwnerC
INVARIANTS Transparent Faithful OwnDrawing StaleOnlyModed RightGlyph Proportional Consistent Report
CHECK_DEADLOCK FALSE
