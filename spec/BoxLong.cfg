SPECIFICATION CaseSpec
CONSTANTS U <- UC
          Den <- DenC
          Glyphs <- GlyphsC
          Kerns <- KernsC
          Thick <- ThickC
INVARIANTS Report
CHECK_DEADLOCK FALSE
