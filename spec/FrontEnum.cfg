SPECIFICATION EnumSpec
CONSTANTS Arity <- ArityC
          Bom <- BomC
INVARIANTS Tiling Lossless SkippedIsIgnorable PositionsExact NestingExact ArityExact ModeExact Progress Report
CHECK_DEADLOCK FALSE
