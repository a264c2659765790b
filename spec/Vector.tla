------------------------------- MODULE Vector -------------------------------
(* The vector drawing below the picture in a window of mtex-render -gui.      *)
(*                                                                            *)
(* Pictures and drawings are sequences of marks <<x, y, ink>>: cells of 4 x 4 *)
(* pixels (1/64 inch) that are not blank, with the darkness of their pixels   *)
(* (255 for each black one).  Of single pixels there are dark ones (3/4) and  *)
(* grey ones (2/5 and more), by number (Pixel).  A picture is [w, h: pixels,  *)
(* left, top: of the first marks, marks, dark, grey].  Windows hold           *)
(* texts (numbers); Renderable: those that have a picture.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Texts, Renderable

VARIABLES text,       \* window -> what its editor holds
          submitted   \* window -> the expression submitted last
vars == <<text, submitted>>
W == DOMAIN text

Start(ts) == text = ts /\ submitted = ts
Edit(w, t) == text' = [text EXCEPT ![w] = t] /\ UNCHANGED submitted
\* typed, submitted and drawn
Submit(w, t) == text' = [text EXCEPT ![w] = t] /\ submitted' = [submitted EXCEPT ![w] = t]
Frame(w) == UNCHANGED vars
\* what the window has to draw (0: whatever)
Draws(w) == IF submitted[w] \in Renderable THEN submitted[w] ELSE 0

-----------------------------------------------------------------------------
(* the same drawing: up to a shift of the whole, every mark of one has a mark *)
(* of the other beside it, and there is as much ink                           *)
Cell == 4
Full == 255 * Cell * Cell
Code(x, y) == (y + 1000) * 10000 + x + 1000     \* of a cell
Codes(s) == {Code(s[j][1], s[j][2]) : j \in 1..Len(s)}
Strong(s) == {Code(s[j][1], s[j][2]) : j \in {i \in 1..Len(s) : s[i][3] * 2 > Full}}
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SumTo(s, n - 1) + s[n]
Ink(s, P(_, _)) == SumTo([j \in 1..Len(s) |-> IF P(s[j][1], s[j][2]) THEN s[j][3] ELSE 0], Len(s))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Beside == {Code(i, j) - Code(0, 0) : i \in -1..1, j \in -1..1}

\* what sticks out of the picture is cut off there
Cells(n) == (n + Cell - 1) \div Cell
Inside(p, x, y) == x \in 0..Cells(p.w) - 1 /\ y \in 0..Cells(p.h) - 1
Within(p, x, y) == x \in 1..Cells(p.w) - 2 /\ y \in 1..Cells(p.h) - 2

SameAt(p, d, dx, dy, pc, ps, dc, ds) ==
  LET off == Code(dx, dy) - Code(0, 0)
      within(c) == Within(p, (c % 10000) - 1000, (c \div 10000) - 1000)
  IN /\ \A c \in ps : within(c) => \E b \in Beside : c + off + b \in dc
     /\ \A c \in ds : within(c - off) => \E b \in Beside : c - off + b \in pc
     /\ LET any(x, y) == TRUE
            in(x, y) == Within(p, x, y)
            din(x, y) == Within(p, x - dx, y - dy)
            dany(x, y) == Inside(p, x - dx, y - dy) \/ Inside(p, x - dx - 1, y - dy) \/ Inside(p, x - dx + 1, y - dy)
                            \/ Inside(p, x - dx, y - dy - 1) \/ Inside(p, x - dx, y - dy + 1)
        IN /\ Ink(p.marks, in) * 100 <= Ink(d, dany) * 106 + 300 * Full
           /\ Ink(d, din) * 100 <= Ink(p.marks, any) * 106 + 300 * Full
Same(p, d) ==
  IF p.marks = <<>> THEN d = <<>> \/ Strong(d) = {}
  ELSE /\ d # <<>>
       /\ LET pc == Codes(p.marks) ps == Strong(p.marks) dc == Codes(d) ds == Strong(d)
              left(s) == Min({s[j][1] : j \in 1..Len(s)})
              top(s) == Min({s[j][2] : j \in 1..Len(s)})
          IN \E dx \in -2..10, dy \in -2..6 :
               SameAt(p, d, left(d) - left(p.marks) + dx, top(d) - top(p.marks) + dy, pc, ps, dc, ds)

\* shapes: up to a shift by pixels nearly every dark pixel of one has a grey
\* one of the other at most two away
Pixel(x, y) == (y + 100) * 4000 + x + 100
Px(n) == (n % 4000) - 100
Py(n) == (n \div 4000) - 100
Set(s) == {s[j] : j \in 1..Len(s)}
Two == {Pixel(i, j) - Pixel(0, 0) : i \in -2..2, j \in -2..2}
Alone(S, off, T) == {c \in S : \A b \in Two : c + off + b \notin T}
Seen(p, S, off) == {c \in S : /\ Px(c + off) \in 4..p.w - 5 /\ Py(c + off) \in 4..p.h - 5}
FewOf(n, all, share) == n * 1000 <= all * share
Lined(off, p, pd, pg, dd, dg, share) ==
  LET P == Seen(p, pd, 0)
  IN /\ FewOf(Cardinality(Alone(P, off, dg)), Cardinality(P), share)
     /\ LET D == Seen(p, dd, -off)
        IN FewOf(Cardinality(Alone(D, -off, pg)), Cardinality(D), share)
Shapes(p, d) ==
  p.dark = <<>> \/
  LET pd == Set(p.dark) pg == Set(p.grey) dd == Set(d.dark) dg == Set(d.grey)
      few(S) == {c \in S : (c * 31) % 11 = 0}
      pf == few(pd) df == few(dd)
      off(dx, dy) == Pixel(d.left - p.left + dx, d.top - p.top + dy) - Pixel(0, 0)
  IN \E dx \in -4..40, dy \in -4..24 :
       /\ Lined(off(dx, dy), p, pf, pg, df, dg, 40)
       /\ Lined(off(dx, dy), p, pd, pg, dd, dg, 5)

-----------------------------------------------------------------------------
(* C29 *)
\* the drawing is that of a submission, never of a text that is being edited
Submissions == [][\A w \in W : Draws(w)' # Draws(w) => submitted'[w] = text'[w]]_vars
OneAtATime == [][\A v, w \in W : (submitted'[v] # submitted[v] /\ submitted'[w] # submitted[w]) => v = w]_vars
=============================================================================
