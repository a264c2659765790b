SPECIFICATION CaseSpec
CONSTANTS Arity <- ArityC
          Bom <- BomC
INVARIANTS Report
VIEW WithoutSource
CHECK_DEADLOCK FALSE
