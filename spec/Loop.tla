-------------------------------- MODULE Loop --------------------------------
(* The event loop of the window of mtex-render -gui: requests for frames,     *)
(* keys, screenshots and the end.  The window itself is Gui (window 1).       *)
(*                                                                            *)
(* Keys are [n: "return" | "shot" | "escape" | "other", ctrl, down].          *)
EXTENDS Gui
VARIABLES open,        \* does the loop run?
          wanted,      \* a screenshot has been asked for
          redraw,      \* a frame has been asked for by a key
          file,        \* what the file of screenshots shows: the expression
                       \* shown when it was taken; -1: no file
          writable,    \* can the file of screenshots be written?
          result       \* how the loop ended: "", "ok" or the error
loopvars == <<open, wanted, redraw, file, writable, result>>

LStart(t, w) == /\ Start(<<t>>) /\ writable = w /\ open = TRUE /\ wanted = FALSE /\ redraw = FALSE /\ file = -1 /\ result = ""

Edit(t) == open /\ Type(1, t) /\ UNCHANGED loopvars
Push == open /\ Press(1) /\ UNCHANGED loopvars

Submits(k) == k.n = "return" /\ k.ctrl /\ k.down
Shoots(k) == k.n = "shot" /\ k.down
Escapes(k) == k.n = "escape" /\ k.down
Key(k) ==
  /\ open
  /\ submitted' = [submitted EXCEPT ![1] = IF Submits(k) THEN text[1] ELSE @]
  /\ wanted' = (wanted \/ Shoots(k))
  /\ redraw' = (redraw \/ Submits(k) \/ Shoots(k))
  /\ open' = ~Escapes(k) /\ result' = (IF Escapes(k) THEN "ok" ELSE "")
  /\ UNCHANGED <<text, presses, shown, file, writable>>
\* a frame is drawn; the screenshot shows it
Draw == /\ open /\ Frame(1)
        /\ file' = IF wanted /\ writable THEN shown'[1] ELSE file
        /\ wanted' = FALSE /\ redraw' = FALSE /\ UNCHANGED <<open, writable, result>>
Destroy(err) == /\ open /\ open' = FALSE /\ result' = err
                /\ UNCHANGED <<vars, wanted, redraw, file, writable>>
\* somebody makes the file writable or not
Place == open /\ writable' = ~writable /\ UNCHANGED <<vars, open, wanted, redraw, file, result>>
\* does this frame write the file?
Writes == wanted /\ writable

-----------------------------------------------------------------------------
(* C28 *)
lvars == <<vars, loopvars>>
\* a text is submitted by the button or by a key with Ctrl, not otherwise
OnlyAsked == [][submitted'[1] # submitted[1] => (presses[1] # <<>> \/ redraw')]_lvars
\* only a frame changes what is shown, and only when it was asked for
OnlyDrawn == [][shown'[1] # shown[1] => (presses[1] # <<>> \/ redraw \/ shown[1] = 0)]_lvars
\* a key that asks for something asks for a frame, too
AskedDrawn == wanted => redraw
\* the file changes with a frame only, when asked for, and shows that frame
ShotsAsked == [][file' # file => wanted /\ ~wanted' /\ file' = shown'[1]]_lvars
\* the end is the end
EndsOnce == [][open]_lvars
Ended == (result # "") = ~open
\* what was submitted by key is shown by the next frame, if it has a picture
Fresh == (~redraw /\ presses[1] = <<>> /\ shown[1] # 0 /\ submitted[1] \in Renderable) => shown[1] = submitted[1]
=============================================================================
