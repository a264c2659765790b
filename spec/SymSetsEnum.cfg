SPECIFICATION EnumSpec
CONSTANTS Fixed <- FixedC
          Spaced <- SpacedC
          Universe <- UniverseC
INVARIANTS NeverStuck OnlyOwnChanges FixedStay ListingsSorted UnionExact Report
CHECK_DEADLOCK FALSE
