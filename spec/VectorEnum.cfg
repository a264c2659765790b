SPECIFICATION EnumSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANT EnumReport
PROPERTIES Submissions OneAtATime
CHECK_DEADLOCK FALSE
