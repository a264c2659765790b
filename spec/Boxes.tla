-------------------------------- MODULE Boxes --------------------------------
(* The TeX box model: construction, packing, kerning, scaling and output of  *)
(* box trees, as a machine that runs a program of operations over a heap of  *)
(* nodes.  Output is a machine of its own, with an explicit stack of the     *)
(* lists being output.                                                       *)
(*                                                                           *)
(* Lengths are integers: U units make one point.  The font is linear: the    *)
(* metrics of a glyph are its coefficients (Den of them make the font size). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS U,        \* units per point
          Den,      \* coefficients that make one font size
          Glyphs,   \* name -> [a, w, h, i, x0, x1, y0, y1] coefficients,
                    \* and sp: is it a space
          Kerns,    \* name of first -> (name of second -> coefficient)
          Thick     \* coefficient of the rule thickness

VARIABLES heap,     \* sequence of nodes
          prog, pc, \* the program and its next operation
          obs,      \* what each operation made observable
          sh        \* the output in progress

vars == <<heap, prog, pc, obs, sh>>

(* Operations refer to the result of an operation by its number, or, when    *)
(* not positive, to nodes relative to the newest one.                        *)
Op == prog[pc]
Ref(r) == IF r > 0 THEN obs[r].m ELSE Len(heap) + r
Kids == [j \in 1..Len(Op.k) |-> Ref(Op.k[j])]
N == Ref(Op.n)

Inf == 2000000000
Max(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* a * num \div den, for den > 0, where the product may not fit
RECURSIVE MD(_, _, _)
MD(a, num, den) == IF a < 10 THEN <<(a * num) \div den, (a * num) % den>>
                   ELSE LET m == MD(a \div 10, num, den)
                            r == m[2] * 10 + (a % 10) * num
                        IN <<m[1] * 10 + r \div den, r % den>>
MulDiv(a, num, den) == LET v == MD(Abs(a), Abs(num), den)[1] IN IF (a < 0) = (num < 0) THEN v ELSE -v
\* a coefficient at font size z
At(co, z) == IF Den = 8 THEN (co * z) \div 8 ELSE MulDiv(z, co, Den)

-----------------------------------------------------------------------------
(* Nodes.  t: "char" "acc" "box" "rule" "glue" "kern" "h" "v".               *)
(* z: font size; n: net number of times grown.                               *)
(* Lists: k: children; s: shift; gs, go, gn/gd: sign, order, setting of glue *)
(* (gn in units, per unit of stretch).                                       *)
Node0 == [t |-> "", c |-> "", z |-> 0, w |-> 0, h |-> 0, d |-> 0, n |-> 0,
          st |-> 0, so |-> 0, sr |-> 0, sq |-> 0,
          k |-> <<>>, s |-> 0, gs |-> 0, go |-> 0, gn |-> 0, gd |-> 1]

CharNode(c, z) ==
  LET g == Glyphs[c] IN
  [Node0 EXCEPT !.t = "char", !.c = c, !.z = z,
     !.w = At(IF g.sp THEN g.a ELSE g.w, z), !.h = At(g.i, z), !.d = At(g.h - g.i, z)]
AccNode(c, z) ==
  LET g == Glyphs[c] IN
  [Node0 EXCEPT !.t = "acc", !.c = c, !.z = z, !.w = At(g.x1 - g.x0, z), !.h = At(g.y1 - g.y0, z)]
BoxNode(w, h, d)  == [Node0 EXCEPT !.t = "box", !.w = w, !.h = h, !.d = d]
RuleNode(w, h, d) == [Node0 EXCEPT !.t = "rule", !.w = w, !.h = h, !.d = d]
KernNode(w)       == [Node0 EXCEPT !.t = "kern", !.w = w]
GlueNode(typ) ==
  LET g(a, b, c, d) == [Node0 EXCEPT !.t = "glue", !.st = a, !.so = b, !.sr = c, !.sq = d] IN
  CASE typ = "fil"       -> g(1, 1, 0, 0)
    [] typ = "fill"      -> g(1, 2, 0, 0)
    [] typ = "filll"     -> g(1, 3, 0, 0)
    [] typ = "neg_fil"   -> g(0, 0, 1, 1)
    [] typ = "neg_fill"  -> g(0, 0, 1, 2)
    [] typ = "neg_filll" -> g(0, 0, 1, 3)
    [] typ = "empty"     -> g(0, 0, 0, 0)
    [] typ = "ss"        -> g(1, 1, -1, 1)
ListNode(t, kids) == [Node0 EXCEPT !.t = t, !.k = kids]

IsList(x) == x.t \in {"h", "v"}

-----------------------------------------------------------------------------
(* Kerning *)
KernOf(c1, c2) == IF c1 \in DOMAIN Kerns /\ c2 \in DOMAIN Kerns[c1] THEN Kerns[c1][c2] ELSE 0
\* amount after node a when node b (or nothing: 0) directly follows
KernAmount(H, a, b) ==
  IF H[a].t \notin {"char", "acc"} THEN 0
  ELSE At(Glyphs[H[a].c].a, H[a].z) - H[a].w
       + (IF b # 0 /\ H[b].t \in {"char", "acc"}
          THEN At(KernOf(H[a].c, H[b].c), H[a].z) ELSE 0)

\* the kerns to insert after each of the elements is, as amounts
Amounts(H, is) == [j \in 1..Len(is) |-> KernAmount(H, is[j], IF j < Len(is) THEN is[j+1] ELSE 0)]
RECURSIVE WithKerns(_, _, _)
\* the children once kerns are in; new kern nodes are numbered from nx on
WithKerns(is, am, nx) ==
  IF is = <<>> THEN <<>>
  ELSE IF am[1] = 0 THEN <<is[1]>> \o WithKerns(Tail(is), Tail(am), nx)
  ELSE <<is[1], nx>> \o WithKerns(Tail(is), Tail(am), nx + 1)
NewKerns(am) == LET nz == SelectSeq(am, LAMBDA x : x # 0)
                IN [j \in 1..Len(nz) |-> KernNode(nz[j])]

-----------------------------------------------------------------------------
(* Packing *)
RECURSIVE SumW(_, _), MaxH(_, _), MaxD(_, _), Stretch(_, _, _), Shrunk(_, _, _)
SumW(H, k) == IF k = <<>> THEN 0 ELSE H[k[1]].w + SumW(H, Tail(k))
Running(x) == x.h = Inf \/ x.d = Inf
Measured(x) == x.t \in {"char", "acc", "box", "rule", "h", "v"} /\ ~Running(x)
MaxH(H, k) == IF k = <<>> THEN 0
              ELSE LET x == H[k[1]]
                   IN IF Measured(x) THEN Max(x.h - x.s, MaxH(H, Tail(k))) ELSE MaxH(H, Tail(k))
MaxD(H, k) == IF k = <<>> THEN 0
              ELSE LET x == H[k[1]]
                   IN IF Measured(x) THEN Max(x.d + x.s, MaxD(H, Tail(k))) ELSE MaxD(H, Tail(k))
Stretch(H, k, o) == IF k = <<>> THEN 0
                    ELSE (IF H[k[1]].t = "glue" /\ H[k[1]].so = o THEN H[k[1]].st ELSE 0) + Stretch(H, Tail(k), o)
Shrunk(H, k, o) == IF k = <<>> THEN 0
                   ELSE (IF H[k[1]].t = "glue" /\ H[k[1]].sq = o THEN H[k[1]].sr ELSE 0) + Shrunk(H, Tail(k), o)

\* vertical: what is stacked above the last baseline, and the last depth
RECURSIVE VSize(_, _, _, _), MaxW(_, _)
VSize(H, k, x, d) ==
  IF k = <<>> THEN <<x, d>>
  ELSE LET y == H[k[1]] IN
       IF y.t \in {"kern", "glue"} THEN VSize(H, Tail(k), x + d + y.w, 0)
       ELSE VSize(H, Tail(k), x + d + y.h, y.d)
MaxW(H, k) == IF k = <<>> THEN 0
              ELSE LET x == H[k[1]]
                   IN IF x.t \in {"box", "rule", "h", "v"} /\ x.w # Inf
                      THEN Max(x.w, MaxW(H, Tail(k))) ELSE MaxW(H, Tail(k))

\* the highest order with a non-zero total
Order(tot) == IF \E o \in 0..3 : tot[o] # 0
              THEN CHOOSE o \in 0..3 : tot[o] # 0 /\ \A p \in o+1..3 : tot[p] = 0
              ELSE 0
\* list node x set to differ by diff from its natural size
SetGlue(H, x, diff) ==
  LET tot == [o \in 0..3 |-> IF diff > 0 THEN Stretch(H, x.k, o) ELSE Shrunk(H, x.k, o)]
      o == Order(tot)
  IN IF diff = 0 \/ tot[o] = 0 THEN [x EXCEPT !.gs = 0, !.go = 0, !.gn = 0, !.gd = 1]
     ELSE [x EXCEPT !.gs = IF diff > 0 THEN 1 ELSE -1, !.go = o, !.gn = diff, !.gd = tot[o]]

HPacked(H, x, w, add) ==
  LET nat == SumW(H, x.k)
      wid == IF add THEN nat + w ELSE w
  IN SetGlue(H, [x EXCEPT !.w = wid, !.h = MaxH(H, x.k), !.d = MaxD(H, x.k)], wid - nat)
VPacked(H, x, ht, add, lim) ==
  LET v == VSize(H, x.k, 0, 0)
      dep == IF v[2] > lim THEN lim ELSE v[2]
      nat == v[1] + (v[2] - dep)
      hei == IF add THEN nat + ht ELSE ht
  IN SetGlue(H, [x EXCEPT !.w = MaxW(H, x.k), !.h = hei, !.d = dep], hei - nat)

-----------------------------------------------------------------------------
(* Scaling by 7/10 or 10/7 *)
Sc(x, g) == IF x = Inf THEN Inf
            ELSE IF g THEN (x \div 7) * 10 + ((x % 7) * 10) \div 7
            ELSE (x \div 10) * 7 + ((x % 10) * 7) \div 10
ScaledNode(x, g) ==
  LET y == [x EXCEPT !.n = IF g THEN @ + 1 ELSE @ - 1,
               !.z = Sc(@, g), !.w = Sc(@, g), !.h = Sc(@, g), !.d = Sc(@, g), !.s = Sc(@, g), !.gn = Sc(@, g)]
  IN CASE x.t = "char" -> [y EXCEPT !.w = Sc(x.w, g)]
       [] OTHER -> y
RECURSIVE Subtree(_, _)
Subtree(H, i) == {i} \cup UNION {Subtree(H, H[i].k[j]) : j \in 1..Len(H[i].k)}
Scaled(H, i, g) == LET s == Subtree(H, i)
                   IN [j \in 1..Len(H) |-> IF j \in s THEN ScaledNode(H[j], g) ELSE H[j]]

-----------------------------------------------------------------------------
(* Output *)
NoShip == [on |-> FALSE, stk |-> <<>>, h |-> 0, v |-> 0, ox |-> 0, oy |-> 0, dr |-> <<>>, tie |-> FALSE, wid |-> {}]
ShFrame(l, dir, h, v, rh, rv) ==
  [l |-> l, dir |-> dir, i |-> 1, cg |-> 0, cs |-> 0, h0 |-> h, v0 |-> v, rh |-> rh, rv |-> rv]

\* num/den rounded to the nearest integer, halves away from zero
RoundDiv(num, den) ==
  LET a == Abs(num) b == Abs(den)
      q == (2 * a + b) \div (2 * b)
  IN IF (num < 0) = (den < 0) THEN q ELSE -q
\* (almost) half way between two integers
IsTie(num, den) == Abs(((2 * Abs(num)) % (2 * Abs(den))) - Abs(den)) <= Abs(den) \div 1000

SF == sh.stk[Len(sh.stk)]
L  == heap[SF.l]               \* the list being output
X  == heap[L.k[SF.i]]          \* the item of it
ShNext(s) == [s EXCEPT !.stk[Len(s.stk)].i = @ + 1]
Draw(s, x) == [s EXCEPT !.dr = Append(@, x)]

\* the observable part of nodes
Sight(x) == [w |-> x.w, h |-> x.h, d |-> x.d, k |-> x.k, gs |-> x.gs, go |-> x.go, gn |-> x.gn, gd |-> x.gd]
RECURSIVE Shown(_, _)
Shown(H, s) == IF s = {} THEN <<>>
               ELSE LET m == CHOOSE i \in s : \A j \in s : i <= j
                    IN <<<<m, H[m].t, Sight(H[m])>>>> \o Shown(H, s \ {m})
ShipDone ==                    \* the outermost list is done
  /\ sh.on /\ Len(sh.stk) = 0
  /\ sh' = NoShip /\ pc' = pc + 1
  /\ obs' = Append(obs, [ch |-> Shown(heap, sh.wid), dr |-> sh.dr, tie |-> sh.tie, n |-> Ref(Op.n), m |-> Len(heap)])
  /\ UNCHANGED <<heap, prog>>
ShipReturn ==                  \* a list is done: back to the enclosing one
  /\ sh.on /\ Len(sh.stk) > 0 /\ SF.i > Len(L.k)
  /\ sh' = [sh EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.h = SF.rh, !.v = SF.rv]
  /\ UNCHANGED <<heap, prog, pc, obs>>

Item(t) == sh.on /\ Len(sh.stk) > 0 /\ SF.i <= Len(L.k) /\ X.t \in t
OnlySh == UNCHANGED <<heap, prog, pc, obs>>

ShipGlyph ==
  /\ Item({"char", "acc"}) /\ SF.dir = "h"
  /\ LET dx == IF X.t = "acc" THEN -At(Glyphs[X.c].x0, X.z) ELSE 0
         dy == IF X.t = "acc" THEN At(Glyphs[X.c].y0, X.z) ELSE 0
     IN sh' = ShNext(Draw([sh EXCEPT !.h = @ + X.w], <<"g", X.c, X.z, sh.h + sh.ox + dx, sh.v + sh.oy + dy, L.k[SF.i]>>))
  /\ OnlySh
ShipKern ==
  /\ Item({"kern"})
  /\ sh' = ShNext(IF SF.dir = "h" THEN [sh EXCEPT !.h = @ + X.w] ELSE [sh EXCEPT !.v = @ + X.w])
  /\ OnlySh
ShipGlue == \* accumulated shares of the participating glue, in whole points
  /\ Item({"glue"})
  /\ LET part == L.gs # 0 /\ (IF L.gs = 1 THEN X.so = L.go ELSE X.sq = L.go)
         cs == SF.cs + (IF ~part THEN 0 ELSE IF L.gs = 1 THEN X.st ELSE X.sr)
         cg == IF part THEN RoundDiv(L.gn * cs, L.gd * U) ELSE SF.cg
         t  == part /\ IsTie(L.gn * cs, L.gd * U)
         \* (halves may be rounded either way: such outputs are marked)
         dx == X.w + (cg - SF.cg) * U
         s  == [sh EXCEPT !.stk[Len(sh.stk)].cs = cs, !.stk[Len(sh.stk)].cg = cg, !.tie = @ \/ t]
     IN sh' = ShNext(IF SF.dir = "h" THEN [s EXCEPT !.h = @ + dx] ELSE [s EXCEPT !.v = @ + dx])
  /\ OnlySh
ShipSolid == \* boxes leave space; rules are also painted
  /\ Item({"box", "rule"})
  /\ IF SF.dir = "h"
     THEN LET rh == IF X.h = Inf THEN L.h ELSE X.h
              rd == IF X.d = Inf THEN L.d ELSE X.d
              s  == [sh EXCEPT !.h = @ + X.w]
              x1 == sh.h + sh.ox
              y1 == SF.v0 - rh + sh.oy
          IN sh' = ShNext(IF X.t = "rule" /\ rh + rd > 0 /\ X.w > 0
                          THEN Draw(s, <<"r", "h", x1, y1, x1 + X.w, y1 + rh + rd, L.k[SF.i]>>) ELSE s)
     ELSE LET rw == IF X.w = Inf THEN L.w ELSE X.w
              th == X.h + X.d
              s  == [sh EXCEPT !.v = @ + th]
              x1 == sh.h + sh.ox
              y1 == sh.v + sh.oy
          IN sh' = ShNext(IF X.t = "rule" /\ th > 0 /\ rw > 0
                          THEN Draw(s, <<"r", "v", x1, y1, x1 + rw, y1 + th, L.k[SF.i]>>) ELSE s)
  /\ OnlySh
\* a list within a list.  Where to go on afterwards is settled on entering it.
ShipList ==
  /\ Item({"h", "v"})
  /\ LET i == L.k[SF.i] IN
     IF X.k = <<>>
     THEN /\ sh' = ShNext(IF SF.dir = "h" THEN [sh EXCEPT !.h = @ + X.w] ELSE [sh EXCEPT !.v = @ + X.h + X.d])
          /\ OnlySh
     ELSE LET h == IF SF.dir = "h" THEN sh.h ELSE SF.h0 + X.s
              v == IF SF.dir = "h" THEN SF.v0 + X.s ELSE sh.v + X.h
              rh == IF SF.dir = "h" THEN sh.h + X.w ELSE SF.h0
              rv == IF SF.dir = "h" THEN SF.v0 ELSE sh.v + X.h + X.d
              top == IF X.t = "v" THEN v - X.h ELSE v
              s == ShNext([sh EXCEPT !.h = h, !.v = top,
                             !.wid = IF SF.dir = "v" THEN @ \cup {i} ELSE @])
          IN /\ sh' = [s EXCEPT !.stk = Append(@, ShFrame(i, X.t, h, v, rh, rv))]
             \* a list stacked in a vertical list is as wide as that list
             /\ heap' = IF SF.dir = "v" THEN [heap EXCEPT ![i].w = L.w] ELSE heap
             /\ UNCHANGED <<prog, pc, obs>>

ShipStep == ShipDone \/ ShipReturn \/ ShipGlyph \/ ShipKern \/ ShipGlue \/ ShipSolid \/ ShipList

-----------------------------------------------------------------------------
(* Programs *)
Ready(o) == ~sh.on /\ pc <= Len(prog) /\ Op.o = o

ChangedTo(H) == Shown(H, {i \in 1..Len(H) : i > Len(heap) \/ Sight(H[i]) # Sight(heap[i])})
To(H) == /\ heap' = H /\ pc' = pc + 1 /\ UNCHANGED <<prog, sh>>
         /\ obs' = Append(obs, [ch |-> ChangedTo(H), dr |-> <<>>, tie |-> FALSE, n |-> 0, m |-> Len(H)])
Add(x) == To(Append(heap, x))

Make == \/ Ready("char") /\ Add(CharNode(Op.c, Op.z))
        \/ Ready("acc")  /\ Add(AccNode(Op.c, Op.z))
        \/ Ready("box")  /\ Add(BoxNode(Op.w, Op.h, Op.d))
        \/ Ready("rule") /\ Add(RuleNode(Op.w, Op.h, Op.d))
        \/ Ready("hrule") /\ LET t == IF Op.w < 0 THEN At(Thick, Op.z) ELSE Op.w
                             IN Add(RuleNode(Inf, t \div 2, t \div 2))
        \/ Ready("vrule") /\ Add(RuleNode(At(Thick, Op.z), Inf, Inf))
        \/ Ready("kern") /\ Add(KernNode(Op.w))
        \/ Ready("glue") /\ Add(GlueNode(Op.c))
\* children, new nodes before the list, and the list
HListFrom(H, kids) == Append(H, HPacked(H, ListNode("h", kids), 0, TRUE))
VListFrom(H, kids) == Append(H, VPacked(H, ListNode("v", kids), 0, TRUE, Inf))
\* a list with kerns between its elements
Kerned(H, kids) == LET am == Amounts(H, kids)
                   IN HListFrom(H \o NewKerns(am), WithKerns(kids, am, Len(H) + 1))
HCentered(H, kids) == HListFrom(H \o <<GlueNode("ss"), GlueNode("ss")>>,
                                <<Len(H) + 1>> \o kids \o <<Len(H) + 2>>)
VCentered(H, kids) == VListFrom(H \o <<GlueNode("ss"), GlueNode("ss")>>,
                                <<Len(H) + 1>> \o kids \o <<Len(H) + 2>>)
\* a character scaled by fn/fd, or to a height plus depth (fn = 0), in a list
\* that lowers it to the depth
Auto(H, c, z, h, d, fn, fd) ==
  LET c0 == CharNode(c, z)
      num == IF fn = 0 THEN h + d ELSE fn
      den == IF fn = 0 THEN c0.h + c0.d ELSE fd
      ch == CharNode(c, MulDiv(z, num, den))
      J == Kerned(Append(H, ch), <<Len(H) + 1>>)
  IN [J EXCEPT ![Len(J)].s = d - ch.d]
Build == \/ Ready("hlist") /\
              To(IF Op.kern THEN Kerned(heap, Kids) ELSE HListFrom(heap, Kids))
         \/ Ready("vlist") /\ To(VListFrom(heap, Kids))
         \/ Ready("hcenter") /\ To(HCentered(heap, Kids))
         \/ Ready("vcenter") /\ To(VCentered(heap, Kids))
         \/ Ready("auto") /\ To(Auto(heap, Op.c, Op.z, Op.h, Op.d, Op.fn, Op.fd))
Pack == \/ Ready("pack") /\ To([heap EXCEPT ![N] = IF @.t = "h" THEN HPacked(heap, @, Op.w, Op.add)
                                                 ELSE VPacked(heap, @, Op.w, Op.add, Op.lim)])
        \/ Ready("shift") /\ To([heap EXCEPT ![N].s = Op.w])
Scale == \/ Ready("shrink") /\ To(Scaled(heap, N, FALSE))
         \/ Ready("grow") /\ To(Scaled(heap, N, TRUE))
StartShip ==
  /\ Ready("ship")
  /\ sh' = [NoShip EXCEPT !.on = TRUE, !.stk = <<ShFrame(N, "h", 0, 0, 0, 0)>>,
              !.ox = Op.x, !.oy = Op.y + heap[N].h]
  /\ UNCHANGED <<heap, prog, pc, obs>>

Next == Make \/ Build \/ Pack \/ Scale \/ StartShip \/ ShipStep
StartProgram(q) == heap = <<>> /\ prog = q /\ pc = 1 /\ obs = <<>> /\ sh = NoShip
Finished == pc > Len(prog) /\ ~sh.on

-----------------------------------------------------------------------------
(* Properties, stated on nodes and drawings without reference to the above   *)

Lists == {i \in 1..Len(heap) : IsList(heap[i])}
\* C10/C07: kids of a list exist and precede it
WellFormed == \A i \in Lists : \A j \in 1..Len(heap[i].k) : heap[i].k[j] < i

\* C09: when glue is set, only glue of the order chosen takes part and the
\* shares add up to the difference from the natural size
Natural(x) == IF x.t = "h" THEN SumW(heap, x.k)
              ELSE LET v == VSize(heap, x.k, 0, 0) IN v[1] + v[2] - x.d
Fresh(x) == \A j \in 1..Len(x.k) : heap[x.k[j]].n = x.n    \* not scaled apart since
Filled ==
  ~sh.on => \A i \in Lists :
   LET x == heap[i]
       tot(o) == IF x.gs = 1 THEN Stretch(heap, x.k, o) ELSE Shrunk(heap, x.k, o)
   IN x.gs # 0 => /\ tot(x.go) = x.gd /\ \A p \in x.go+1..3 : tot(p) = 0
                  /\ (x.gs = 1) = (x.gn > 0)

\* C11: scaling up undoes scaling down, and scaling is proportional
Unscaled(x) == ScaledNode(ScaledNode(x, FALSE), TRUE) = x
Invertible == Finished => \A i \in 1..Len(heap) :
  (heap[i].w % 70 = 0 \/ heap[i].w = Inf) /\ (heap[i].h % 70 = 0 \/ heap[i].h = Inf)
  /\ (heap[i].d % 70 = 0 \/ heap[i].d = Inf) /\ heap[i].z % 70 = 0 /\ heap[i].s % 70 = 0 /\ heap[i].gn % 70 = 0
  => Unscaled(heap[i])

\* C12: an output draws the glyphs of the tree, each once, in tree order
RECURSIVE GlyphsIn(_), Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
GlyphsIn(i) == CASE heap[i].t \in {"char", "acc"} -> <<heap[i].c>>
                 [] IsList(heap[i]) -> Flat([j \in 1..Len(heap[i].k) |-> GlyphsIn(heap[i].k[j])])
                 [] OTHER -> <<>>
DrawnGlyphs(dr) == [j \in 1..Len(SelectSeq(dr, LAMBDA x : x[1] = "g")) |->
                      SelectSeq(dr, LAMBDA x : x[1] = "g")[j][2]]
DrawsAll == \A p \in 1..Len(obs) :
  prog[p].o = "ship" => DrawnGlyphs(obs[p].dr) = GlyphsIn(obs[p].n)

\* C12: within a finished horizontal list the cursor advanced by exactly the
\* widths of the items plus the glue set, to within half a point of its width
SlotsTile ==
  (sh.on /\ Len(sh.stk) > 0 /\ SF.i > Len(L.k) /\ SF.dir = "h" /\ L.gs # 0) =>
    \/ 2 * Abs((sh.h - SF.h0) - L.w) <= U
    \/ \E j \in 1..Len(L.k) : IsList(heap[L.k[j]])                  \* may have been repacked
    \/ Len(sh.stk) > 1 /\ sh.stk[Len(sh.stk) - 1].dir = "v"          \* widened
\* C13: outputs of the same list at different offsets differ by the offset
Moved(d, dx, dy) == CASE d[1] = "g" -> <<"g", d[2], d[3], d[4] + dx, d[5] + dy, d[6]>>
                      [] d[1] = "r" -> <<"r", d[2], d[3] + dx, d[4] + dy, d[5] + dx, d[6] + dy, d[7]>>
Rigid == \A p, q \in 1..Len(obs) :
  (p < q /\ prog[p].o = "ship" /\ prog[q].o = "ship" /\ obs[p].n = obs[q].n
   /\ \A r \in p+1..q-1 : prog[r].o = "ship") =>
     obs[q].dr = [j \in 1..Len(obs[p].dr) |-> Moved(obs[p].dr[j], prog[q].x - prog[p].x, prog[q].y - prog[p].y)]
=============================================================================
