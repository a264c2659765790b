SPECIFICATION TraceSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANT TraceReport
PROPERTIES Submissions OneAtATime
CHECK_DEADLOCK FALSE
