SPECIFICATION EnumSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANTS ShownRenders Prompt AskedDrawn Ended Fresh EnumReport
PROPERTIES OnlyDrawn OnlyAsked ShotsAsked EndsOnce
CHECK_DEADLOCK FALSE
