SPECIFICATION LiveSpec
CONSTANTS Texts <- TextsC
          Renderable <- RenderableC
INVARIANTS ShownRenders UpToDate Prompt
PROPERTIES Obeyed
CHECK_DEADLOCK FALSE
