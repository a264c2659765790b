SPECIFICATION EnumSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANTS ShownRenders UpToDate Prompt EnumReport
PROPERTIES OnlyFramesShow OneWindowAtATime
CHECK_DEADLOCK FALSE
