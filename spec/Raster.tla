------------------------------- MODULE Raster -------------------------------
(* Painting a drawing as an image: one operation at a time, over a           *)
(* transparent page.                                                         *)
(*                                                                           *)
(* A request is [wn, wd, hn, hd: width wn/wd and height hn/hd in inches,     *)
(* dpi: twice the resolution, g: units per point, ops, fail: does the writer *)
(* fail].  Operations: [k "r", x1, y1, x2, y2] in units, or [k "g", x, y, w, *)
(* h, m]: a glyph, which covers w by h pixels from pixel (x, y), the share m *)
(* of each (row by row, in 1/10000): the shape of glyphs is given.           *)
EXTENDS Naturals, Integers, Sequences, TLC

VARIABLES req, i,   \* the request, the next operation
          see,      \* how much shows through each pixel, in 1/10000
          done      \* "": not yet; "image" "error"

vars == <<req, i, see, done>>

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Ceil(a, b) == -((-a) \div b)
RECURSIVE MD(_, _, _)
MD(a, num, den) == IF a < 10 THEN <<(a * num) \div den, (a * num) % den>>
                   ELSE LET m == MD(a \div 10, num, den)
                            r == m[2] * 10 + (a % 10) * num
                        IN <<m[1] * 10 + r \div den, r % den>>

W == Ceil(req.wn * req.dpi, req.wd * 2)
H == Ceil(req.hn * req.dpi, req.hd * 2)
\* a pixel is P by P
P == 144 * req.g
At(x) == x * req.dpi
Opaque == 10000
Col(k) == (k - 1) % W
Row(k) == (k - 1) \div W

\* how much of [q, q + P) is in [a, b), in thousandths
Part(q, a, b) == LET o == Min(q + P, b) - Max(q, a)
                 IN IF o <= 0 THEN 0 ELSE IF o = P THEN 1000 ELSE (o * 1000) \div P
Left(o) == At(Min(o.x1, o.x2))
Right(o) == At(Max(o.x1, o.x2))
Top(o) == At(Min(o.y1, o.y2))
Bottom(o) == At(Max(o.y1, o.y2))
RectShare(o, k) ==
  (Part(Col(k) * P, Left(o), Right(o)) * Part(Row(k) * P, Top(o), Bottom(o))) \div 100
GlyphShare(o, k) ==
  LET x == Col(k) - o.x
      y == Row(k) - o.y
  IN IF x < 0 \/ y < 0 \/ x >= o.w \/ y >= o.h THEN 0 ELSE o.m[y * o.w + x + 1]
Share(o, k) == IF o.k = "r" THEN RectShare(o, k) ELSE GlyphShare(o, k)

Paint ==
  /\ done = "" /\ i <= Len(req.ops)
  /\ see' = [k \in 1..Len(see) |-> IF see[k] = 0 THEN 0 ELSE (see[k] * (Opaque - Share(req.ops[i], k))) \div Opaque]
  /\ i' = i + 1 /\ UNCHANGED <<req, done>>
\* there is no image without pixels
Write == /\ done = "" /\ i > Len(req.ops)
         /\ done' = IF req.fail \/ W <= 0 \/ H <= 0 THEN "error" ELSE "image"
         /\ UNCHANGED <<req, i, see>>
Next == Paint \/ Write
Start(r) == /\ req = r /\ i = 1 /\ done = ""
            /\ see = [k \in 1..(Ceil(r.wn * r.dpi, r.wd * 2) * Ceil(r.hn * r.dpi, r.hd * 2)) |-> Opaque]
Over == done # ""

-----------------------------------------------------------------------------
(* Properties (C22), on pixels and extents *)
Painted == {j \in 1..Len(req.ops) : j < i}
Inside(o, k) == /\ o.k = "r" /\ Left(o) <= Col(k) * P /\ Right(o) >= (Col(k) + 1) * P
                /\ Top(o) <= Row(k) * P /\ Bottom(o) >= (Row(k) + 1) * P
Apart(o, k) ==
  IF o.k = "r" THEN \/ Left(o) >= (Col(k) + 1) * P \/ Right(o) <= Col(k) * P
                    \/ Top(o) >= (Row(k) + 1) * P \/ Bottom(o) <= Row(k) * P
               ELSE Col(k) < o.x \/ Col(k) >= o.x + o.w \/ Row(k) < o.y \/ Row(k) >= o.y + o.h
OpaqueInside == Over => \A k \in 1..Len(see) : (\E j \in Painted : Inside(req.ops[j], k)) => see[k] = 0
BlankOutside == Over => \A k \in 1..Len(see) : (\A j \in Painted : Apart(req.ops[j], k)) => see[k] = Opaque
\* what is painted is never wiped out
Additive == [][\A k \in 1..Len(see) : see'[k] <= see[k]]_vars
SizeExact == /\ 2 * W * req.wd >= req.wn * req.dpi /\ 2 * (W - 1) * req.wd < req.wn * req.dpi
             /\ 2 * H * req.hd >= req.hn * req.dpi /\ 2 * (H - 1) * req.hd < req.hn * req.dpi
=============================================================================
