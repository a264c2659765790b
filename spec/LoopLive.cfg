SPECIFICATION LiveSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANTS ShownRenders Prompt AskedDrawn Ended Fresh
PROPERTIES OnlyDrawn OnlyAsked ShotsAsked EndsOnce Taken KeyObeyed
CHECK_DEADLOCK FALSE
