SPECIFICATION CaseSpec
CONSTANTS U <- UC
          Den <- DenC
          Glyphs <- GlyphsC
          Kerns <- KernsC
          Thick <- ThickC
INVARIANTS NeverStuck WellFormed Filled Invertible DrawsAll SlotsTile Rigid Report
CHECK_DEADLOCK FALSE
