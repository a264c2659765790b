--------------------------------- MODULE Gui ---------------------------------
(* Windows of mtex-render -gui: an editor, a button, and the picture of the   *)
(* expression submitted last.                                                 *)
(*                                                                            *)
(* The button is seen by the frame after it was pressed or, when the toolkit  *)
(* delivers the press together with that frame, by the one after.  Texts are  *)
(* numbers; Renderable: those that have a picture.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Texts, Renderable

VARIABLES text,      \* window -> what its editor holds
          presses,   \* window -> presses not obeyed yet, oldest first: [age: frames since,
                     \*           cand: texts the editor held since]
          submitted, \* window -> the expression submitted last
          shown      \* window -> the expression whose picture is shown (0: none yet)
vars == <<text, presses, submitted, shown>>
W == DOMAIN text

Start(ts) == /\ text = ts /\ submitted = ts
             /\ presses = [w \in DOMAIN ts |-> <<>>] /\ shown = [w \in DOMAIN ts |-> 0]

Type(w, t) == /\ text' = [text EXCEPT ![w] = t]
              /\ presses' = [presses EXCEPT ![w] = [j \in DOMAIN @ |-> [@[j] EXCEPT !.cand = @ \cup {t}]]]
              /\ UNCHANGED <<submitted, shown>>
Press(w) == /\ presses' = [presses EXCEPT ![w] = Append(@, [age |-> 0, cand |-> {text[w]}])]
            /\ UNCHANGED <<text, submitted, shown>>
\* a frame obeys the first k presses, at least all that an earlier frame left
Frame(w) == \E k \in 0..Len(presses[w]) :
  /\ \A j \in k + 1..Len(presses[w]) : presses[w][j].age = 0
  /\ \E t \in (IF k = 0 THEN {submitted[w]} ELSE presses[w][k].cand) :
       /\ submitted' = [submitted EXCEPT ![w] = t]
       /\ shown' = [shown EXCEPT ![w] = IF t \in Renderable THEN t ELSE @]
  /\ presses' = [presses EXCEPT ![w] = [j \in 1..Len(@) - k |-> [@[k + j] EXCEPT !.age = 1]]]
  /\ UNCHANGED text
Next == \E w \in W : (\E t \in Texts : Type(w, t)) \/ Press(w) \/ Frame(w)

-----------------------------------------------------------------------------
(* C26 *)
\* only a frame changes what is shown, and only after a press
OnlyFramesShow == [][\A w \in W : shown'[w] # shown[w] => (presses[w] # <<>> \/ shown[w] = 0)]_vars
OneWindowAtATime == [][\A v, w \in W : (shown'[v] # shown[v] /\ shown'[w] # shown[w]) => v = w]_vars
\* what is shown can be shown
ShownRenders == \A w \in W : shown[w] # 0 => shown[w] \in Renderable
\* with nothing to obey, the picture is that of the submission if it has one
UpToDate == \A w \in W : (presses[w] = <<>> /\ shown[w] # 0 /\ submitted[w] \in Renderable) => shown[w] = submitted[w]
\* no press waits for more than two frames
Prompt == \A w \in W : \A j \in DOMAIN presses[w] : presses[w][j].age <= 1
\* every press is obeyed
Obeyed == []<>(\A w \in W : presses[w] = <<>>)
=============================================================================
