SPECIFICATION CaseSpec
CONSTANTS U <- UC
          Den <- DenC
          Glyphs <- GlyphsC
          Kerns <- KernsC
          Thick <- ThickC
          Arity <- ArityC
          Bom <- BomC
          Binary <- BinaryC
          Spaced <- SpacedC
          Punct <- PunctC
          LeftDelim <- LeftDelimC
          Functions <- FunctionsC
          Symbols <- SymbolsC
          Spaces <- SpacesC
INVARIANTS NeverStuck WellFormed Filled Styles DrawsReading Report
CHECK_DEADLOCK FALSE
