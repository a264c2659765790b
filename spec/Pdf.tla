--------------------------------- MODULE Pdf ---------------------------------
(* Writing drawings as PDF documents, one after the other.                    *)
(*                                                                            *)
(* A write is [f: file, w, h: size in hundredths of a point, c: drawing,      *)
(* n: marks added to that drawing before].  Places: file -> what can be done  *)
(* with it: "fine", "absent" (no folder for it), "folder", "full" (no room).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES Writes, Places,  \* (fixed by the initial state)
          k,               \* number of the write
          step,            \* "next", "open", "marks", "close"
          marks,           \* drawing -> number of its marks
          left,            \* marks of the drawing not taken yet
          doc,             \* pages of the document: <<w, h>>
          disk,            \* file -> pages it holds; <<>>: none, <<<<0, 0>>>>: what was there before
          told             \* outcome of each write
vars == <<Writes, Places, k, step, marks, left, doc, disk, told>>
Now == Writes[k]

Start(ws, ps, ds, old) == /\ Writes = ws /\ Places = ps /\ k = 1 /\ step = "next"
                          /\ marks = [c \in ds |-> 0] /\ left = 0 /\ doc = <<>> /\ told = <<>>
                          /\ disk = [f \in DOMAIN ps |-> IF f \in old THEN <<<<0, 0>>>> ELSE <<>>]
Draw == /\ step = "next" /\ k <= Len(Writes)
        /\ marks' = [marks EXCEPT ![Now.c] = @ + Now.n] /\ step' = "open"
        /\ UNCHANGED <<Writes, Places, k, left, doc, disk, told>>
Open == /\ step = "open" /\ doc' = <<<<Now.w, Now.h>>>> /\ left' = marks[Now.c] /\ step' = "marks"
        /\ UNCHANGED <<Writes, Places, k, marks, disk, told>>
Mark == /\ step = "marks" /\ left > 0 /\ left' = left - 1
        /\ UNCHANGED <<Writes, Places, k, step, marks, doc, disk, told>>
Close == /\ step = "marks" /\ left = 0
         /\ disk' = IF Places[Now.f] = "fine" THEN [disk EXCEPT ![Now.f] = doc] ELSE disk
         /\ told' = Append(told, Places[Now.f] = "fine")
         /\ k' = k + 1 /\ step' = "next" /\ doc' = <<>>
         /\ UNCHANGED <<Writes, Places, marks, left>>
Next == Draw \/ Open \/ Mark \/ Close
Over == step = "next" /\ k > Len(Writes)

-----------------------------------------------------------------------------
(* C27 *)
NeverStuck == Over \/ ENABLED Next
\* a file holds one page of the size of the last good write to it
LastGood == step = "next" => \A f \in DOMAIN disk :
  LET js == {j \in 1..k - 1 : Writes[j].f = f /\ told[j]}
  IN js # {} => disk[f] = <<<<Writes[CHOOSE j \in js : \A i \in js : i <= j].w, Writes[CHOOSE j \in js : \A i \in js : i <= j].h>>>>
\* a failure is told, and only a failure
Told == \A j \in 1..Len(told) : told[j] = (Places[Writes[j].f] = "fine")
\* a write touches nothing but its file, and no drawing
OnlyItsFile == [][\A f \in DOMAIN disk : disk'[f] # disk[f] => f = Now.f]_vars
KeepsDrawings == [][marks' # marks => step = "next"]_vars
=============================================================================
