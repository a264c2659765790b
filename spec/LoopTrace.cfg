SPECIFICATION TraceSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANTS ShownRenders Prompt AskedDrawn Ended Fresh TraceReport

CHECK_DEADLOCK FALSE
