SPECIFICATION TraceSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANTS ShownRenders UpToDate Prompt TraceReport
CHECK_DEADLOCK FALSE
