-------------------------------- MODULE Mtex --------------------------------
(* Typesetting of LaTeX text and formulas: source text -> tree (LatexFront)  *)
(* -> boxes -> drawing (Boxes), as one machine.                              *)
(*                                                                           *)
(* The tree is turned into boxes node by node, with an explicit stack of the *)
(* constructs being typeset: the style in force (italic or upright, formula  *)
(* or text) belongs to the frame.  Glyphs are named by symbol, style and     *)
(* mode: "x|it|m", "x|rm|t".                                                 *)
(*                                                                           *)
(* A source is a sequence of characters [c, n, l: see LatexFront, o: byte    *)
(* offset].                                                                  *)
EXTENDS Boxes

CONSTANTS Arity, Bom,
          Binary,    \* binary operators
          Spaced,    \* binary operators, relations and arrows
          Punct,     \* punctuation
          LeftDelim, \* left delimiters
          Functions, \* macros that stand for their own name
          Symbols,   \* other symbols
          Spaces     \* space macro -> width in 1/100000 em

VARIABLES src, p, off, fstk, st, toks,   \* the front end
          z,      \* font size, in units
          ph,     \* phase: "parse" "lay" "ship" "err"
          lay,    \* stack of the constructs being typeset
          own     \* glyph node -> number of the construct it belongs to

F == INSTANCE LatexFront WITH stk <- fstk

frontvars == <<src, p, off, fstk, st, toks>>
allvars == <<vars, frontvars, z, ph, lay, own>>

-----------------------------------------------------------------------------
Key(c, ty, m) == c \o "|" \o ty \o (IF m THEN "|m" ELSE "|t")
\* the name of a character within a macro name
Bare(t) == SubSeq(t, 2, Len(t))

(* Frames.  todo: tree nodes to come; out: nodes made; ty, m: style, mode;   *)
(* mac: the macro whose arguments are typeset; n: number of the construct    *)
LFrame(k, todo, ty, m, n) == [k |-> k, todo |-> todo, out |-> <<>>, ty |-> ty, m |-> m, mac |-> <<>>, n |-> n]

LF == lay.stk[Len(lay.stk)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
\* the top frame without its first node, given the made nodes is
Done(s, is) == [s EXCEPT ![Len(s)].todo = Tail(@), ![Len(s)].out = @ \o is]

Init0 == [stk |-> <<>>, n |-> 0]

\* source characters at the byte offsets [a, b)
Within(a, b) == SelectSeq(src, LAMBDA x : x.o >= a /\ x.o < b)

\* the last character before offset a that is not a blank ("" if none)
PrevChar(a) == LET q == SelectSeq(src, LAMBDA x : x.o < a /\ x.c # " ")
               IN IF q = <<>> THEN "" ELSE q[Len(q)].c
CharAt(o) == LET q == Within(o, o + 1) IN IF q = <<>> THEN "" ELSE q[1].c
DigitAt(o) == CharAt(o) \in F!Digits

-----------------------------------------------------------------------------
(* Spacing *)
EmOf == At(Glyphs["m|it|m"].a, z)
Em(hundredthousandths) == MulDiv(EmOf, hundredthousandths, 100000)
Fifth == 20000

BinaryUnspaced(a) == PrevChar(a) \in {"", "{"} \cup LeftDelim
\* what a symbol at offset a brings: <<space before, space after>>
Spacing(t, a) ==
  IF t \in Spaced THEN (IF t \in Binary /\ BinaryUnspaced(a) THEN <<0, 0>> ELSE <<Fifth, Fifth>>)
  ELSE IF t = "." THEN (IF DigitAt(a - 1) /\ DigitAt(a + 1) THEN <<0, 0>> ELSE <<0, Fifth>>)
  ELSE <<0, 0>>
\* symbols that are not supported
Refused(t, ty, m) == (t \in Punct /\ t # ".") \/ Key(t, ty, m) \notin DOMAIN Glyphs

\* the heap with symbol t added, its node being the last
WithSymbol(H, t, a, ty, m) ==
  LET sp == Spacing(t, a)
      c == CharNode(Key(t, ty, m), z)
      n == Len(H)
  IN IF sp = <<0, 0>> THEN Append(H, c)
     ELSE IF sp[1] # 0 THEN Kerned(H \o <<KernNode(Em(sp[1])), c, KernNode(Em(sp[2]))>>, <<n + 1, n + 2, n + 3>>)
     ELSE Kerned(H \o <<c, KernNode(Em(sp[2]))>>, <<n + 1, n + 2>>)

\* numbers of the glyph nodes of H after the first n
NewGlyphs(H, n) == SelectSeq([j \in 1..Len(H) - n |-> n + j], LAMBDA i : H[i].t = "char")
Owned(H) == own \o [j \in 1..Len(NewGlyphs(H, Len(heap))) |-> <<NewGlyphs(H, Len(heap))[j], LF.n>>]

-----------------------------------------------------------------------------
(* Constructs.  Each yields a heap whose last node is the result. *)
T == At(Thick, z)
\* the middle of the equal sign
Axis == (At(Glyphs["=|it|m"].y1, z) + At(Glyphs["=|it|m"].y0, z)) \div 2

\* lists num and den, one over the other around a rule
Stacked(H0, num, den, display, rule) ==
  LET H1 == IF display THEN H0 ELSE Scaled(Scaled(H0, num, FALSE), den, FALSE)
      wid == Max(H1[num].w, H1[den].w)
      H2 == HCentered(H1, <<num>>)
      cnum == Len(H2)
      H3 == HCentered(H2, <<den>>)
      cden == Len(H3)
      H4 == [H3 EXCEPT ![cnum] = HPacked(H3, @, wid, FALSE), ![cden] = HPacked(H3, @, wid, FALSE)]
      H5 == H4 \o <<BoxNode(0, 0, 2 * T), RuleNode(Inf, rule \div 2, rule \div 2), BoxNode(0, 0, 2 * T)>>
      H6 == VListFrom(H5, <<cnum, cden + 1, cden + 2, cden + 3, cden>>)
      v == Len(H6)
      \* the bar is at the height of the middle of the equal sign
      H7 == [H6 EXCEPT ![v].s = H6[cden].h - (Axis - 3 * T)]
      H8 == Append(H7, BoxNode(2 * T, 0, 0))
  IN Kerned(H8, <<v, v + 1>>)

Between(H, mid, ty) == \* node mid between parentheses as tall as it
  LET h == Max(0, H[mid].h)
      d == Max(0, H[mid].d)
      H1 == Auto(H, Key("(", ty, TRUE), z, h, d, 0, 1)
      H2 == Auto(H1, Key(")", ty, TRUE), z, h, d, 0, 1)
  IN Kerned(H2, <<Len(H1), mid, Len(H2)>>)

\* a line over body, which may be extended upwards by ext
Lined(H, body, inner, height, depth) ==
  LET n == Len(H)
      H1 == H \o <<RuleNode(Inf, T \div 2, T \div 2), GlueNode("fill")>>
      H2 == IF inner THEN Kerned(H1, <<body>>) ELSE H1
      b == IF inner THEN Len(H2) ELSE body
      H3 == VListFrom(H2, <<n + 1, n + 2, b>>)
  IN [H3 EXCEPT ![Len(H3)] = VPacked(H3, @, height + MulDiv(z, 3, 50), FALSE, depth)]

Overlined(H, body) ==
  LET H1 == Lined(H, body, TRUE, H[body].h - H[body].s + 3 * T, H[body].d + H[body].s)
  IN Kerned(H1, <<Len(H1)>>)

\* root = 0: none
Radical(H, root, body, ty) ==
  LET H1 == Auto(H, Key("\\__sqrt__", ty, TRUE), z, H[body].h - H[body].s + 5 * T, H[body].d + H[body].s, 0, 1)
      check == Len(H1)
      height == H1[check].h - H1[check].s
      depth == H1[check].d + H1[check].s
      H2 == Kerned(H1 \o <<BoxNode(2 * T, 0, 0), BoxNode(2 * T, 0, 0)>>, <<check + 1, body, check + 2>>)
      H3 == Lined(H2, Len(H2), FALSE, height, depth)
      rhs == Len(H3)
      H4 == IF root = 0 THEN Append(H3, BoxNode(H3[check].w \div 2, 0, 0))
            ELSE Scaled(Scaled(H3, root, FALSE), root, FALSE)
      r == IF root = 0 THEN Len(H4) ELSE root
      H5 == Kerned(H4, <<r>>)
      H6 == VListFrom(H5, <<Len(H5)>>)
      vl == Len(H6)
      H7 == [H6 EXCEPT ![vl].s = -((height \div 10) * 6 + ((height % 10) * 6) \div 10)]
      H8 == Append(H7, KernNode(-(H7[check].w \div 2)))
  IN Kerned(H8, <<vl, Len(H8), check, rhs>>)

\* the letters of a function name
RECURSIVE WithLetters(_, _, _)
WithLetters(H, t, m) == IF Len(t) = 0 THEN H
                        ELSE WithLetters(Append(H, CharNode(Key(SubSeq(t, 1, 1), "rm", m), z)), SubSeq(t, 2, Len(t)), m)

Fractions == {"\\frac", "\\tfrac", "\\dfrac", "\\binom"}
Built(H, t, as, ty, m) == \* macro t with its typeset arguments as
  CASE t \in {"\\frac", "\\tfrac"} -> Stacked(H, as[1], as[2], FALSE, T)
    [] t = "\\dfrac" -> Stacked(H, as[1], as[2], TRUE, T)
    [] t = "\\binom" -> LET H1 == Stacked(H, as[1], as[2], FALSE, 0) IN Between(H1, Len(H1), ty)
    [] t = "\\sqrt" -> IF Len(as) = 1 THEN Radical(H, 0, as[1], ty) ELSE Radical(H, as[1], as[2], ty)
    [] t = "\\overline" -> Overlined(H, as[1])
    [] t \in Functions ->
         LET n == Len(H)
             H1 == WithLetters(H, Bare(t), m)
         IN Kerned(H1, [j \in 1..Len(H1) - n |-> n + j] \o as)
Constructs == Fractions \cup {"\\sqrt", "\\overline"} \cup Functions

\* \hspace: a decimal number of ems
Value(cs) == \* <<numerator, denominator>> of the number with the characters cs
  LET RECURSIVE V(_, _, _, _)
      V(i, num, den, frac) ==
        IF i > Len(cs) THEN <<num, den>>
        ELSE IF cs[i].c = "." THEN V(i + 1, num, den, TRUE)
        ELSE LET d == CHOOSE k \in 0..9 : ToString(k) = cs[i].c
             IN V(i + 1, 10 * num + d, IF frac THEN 10 * den ELSE den, frac)
  IN V(1, 0, 1, FALSE)

-----------------------------------------------------------------------------
Parse == /\ ph = "parse" /\ st = "run" /\ F!Next
         /\ UNCHANGED <<vars, z, ph, lay, own>>
Parsed == /\ ph = "parse" /\ st # "run"
          /\ ph' = IF st = "ok" THEN "lay" ELSE "err"
          /\ lay' = [stk |-> <<LFrame("top", F!Tree, "rm", FALSE, 1)>>, n |-> 1]
          /\ toks' = <<>> /\ fstk' = <<>>
          /\ UNCHANGED <<vars, src, p, off, st, z, own>>

Laying == ph = "lay"
Node == Head(LF.todo)
HasNode(k) == Laying /\ LF.todo # <<>> /\ LF.k # "mac" /\ Node.k \in k
Refuse == ph' = "err" /\ UNCHANGED <<vars, frontvars, z, lay, own>>
\* the heap becomes H, whose last node is the result
Put(H) == /\ heap' = H /\ own' = Owned(H)
          /\ lay' = [lay EXCEPT !.stk = Done(@, <<Len(H)>>)]
          /\ UNCHANGED <<prog, pc, obs, sh, frontvars, z, ph>>

PutWord == \* letters, kerned
  /\ HasNode({"word"})
  /\ LET cs == Within(Node.p, Node.e)
         ks == [j \in 1..Len(cs) |-> Key(cs[j].c, LF.ty, LF.m)]
         n == Len(heap)
     IN IF \E j \in 1..Len(ks) : ks[j] \notin DOMAIN Glyphs THEN Refuse
        ELSE Put(Kerned(heap \o [j \in 1..Len(ks) |-> CharNode(ks[j], z)], [j \in 1..Len(ks) |-> n + j]))
RECURSIVE PutDigits(_, _, _, _)
PutDigits(H, is, cs, a) == \* the characters of a number, each on its own
  IF cs = <<>> THEN <<H, is>>
  ELSE LET H1 == WithSymbol(H, cs[1].c, cs[1].o, LF.ty, LF.m)
       IN PutDigits(H1, Append(is, Len(H1)), Tail(cs), a)
PutNumber ==
  /\ HasNode({"lit"})
  /\ LET r == PutDigits(heap, <<>>, Within(Node.p, Node.e), Node.p) IN
     /\ heap' = r[1] /\ own' = Owned(r[1])
     /\ lay' = [lay EXCEPT !.stk = Done(@, r[2])]
     /\ UNCHANGED <<prog, pc, obs, sh, frontvars, z, ph>>
PutSymbol ==
  /\ HasNode({"sym"})
  /\ IF LF.m
     THEN IF Refused(Node.t, LF.ty, LF.m) \/ Node.t \notin Symbols \cup Spaced THEN Refuse
          ELSE Put(WithSymbol(heap, Node.t, Node.p, LF.ty, LF.m))
     ELSE IF Key(Node.t, LF.ty, LF.m) \notin DOMAIN Glyphs THEN Refuse
          ELSE Put(Append(heap, CharNode(Key(Node.t, LF.ty, LF.m), z)))
PutSymbolMacro ==
  /\ HasNode({"mac"}) /\ Node.t \notin Constructs \cup {"\\hspace"}
  /\ IF Node.t \in DOMAIN Spaces THEN Put(Append(heap, KernNode(Em(Spaces[Node.t]))))
     ELSE IF Node.l # <<>> \/ Node.t \notin Symbols \cup Spaced \/ Refused(Node.t, LF.ty, LF.m) THEN Refuse
     ELSE Put(WithSymbol(heap, Node.t, Node.p, LF.ty, LF.m))
PutCustomSpace ==
  /\ HasNode({"mac"}) /\ Node.t = "\\hspace"
  /\ LET as == Node.l[1].l IN
     IF as = <<>> \/ as[1].k # "lit" \/ as[1].t = "." THEN Refuse
     ELSE LET v == Value(Within(as[1].p, as[1].e))
          IN Put(Append(heap, KernNode(MulDiv(EmOf, v[1], v[2]))))
Splice == \* a group has no box of its own
  /\ HasNode({"list"})
  /\ lay' = [lay EXCEPT !.stk[Len(lay.stk)].todo = Node.l \o Tail(@)]
  /\ UNCHANGED <<vars, frontvars, z, ph, own>>
EnterFormula ==
  /\ HasNode({"math"})
  /\ lay' = [lay EXCEPT !.stk = Append(Done(@, <<>>), LFrame("math", Node.l, "it", TRUE, LF.n))]
  /\ UNCHANGED <<vars, frontvars, z, ph, own>>
LeaveFormula ==
  /\ Laying /\ LF.k = "math" /\ LF.todo = <<>>
  /\ lay' = [lay EXCEPT !.stk = LET s == Pop(@) IN [s EXCEPT ![Len(s)].out = @ \o LF.out]]
  /\ UNCHANGED <<vars, frontvars, z, ph, own>>
EnterMacro ==
  /\ HasNode({"mac"}) /\ Node.t \in Constructs
  /\ lay' = [lay EXCEPT !.stk = Append(Done(@, <<>>), [LFrame("mac", Node.l, LF.ty, LF.m, LF.n) EXCEPT !.mac = <<Node.t>>])]
  /\ UNCHANGED <<vars, frontvars, z, ph, own>>
EnterArg ==
  /\ Laying /\ LF.k = "mac" /\ LF.todo # <<>>
  /\ lay' = [stk |-> Append(Done(lay.stk, <<>>), LFrame("arg", Node.l, LF.ty, LF.m, lay.n + 1)), n |-> lay.n + 1]
  /\ UNCHANGED <<vars, frontvars, z, ph, own>>
LeaveArg ==
  /\ Laying /\ LF.k = "arg" /\ LF.todo = <<>>
  /\ LET H == Kerned(heap, LF.out) IN
     /\ heap' = H
     /\ lay' = [lay EXCEPT !.stk = LET s == Pop(@) IN [s EXCEPT ![Len(s)].out = Append(@, Len(H))]]
  /\ UNCHANGED <<prog, pc, obs, sh, frontvars, z, ph, own>>
LeaveMacro ==
  /\ Laying /\ LF.k = "mac" /\ LF.todo = <<>>
  /\ IF ~(\A k \in {Key("(", LF.ty, TRUE), Key(")", LF.ty, TRUE), Key("\\__sqrt__", LF.ty, TRUE)} : k \in DOMAIN Glyphs) THEN Refuse
     ELSE LET H == Built(heap, LF.mac[1], LF.out, LF.ty, LF.m) IN
     /\ heap' = H /\ own' = Owned(H)
     /\ lay' = [lay EXCEPT !.stk = LET s == Pop(@) IN [s EXCEPT ![Len(s)].out = Append(@, Len(H))]]
     /\ UNCHANGED <<prog, pc, obs, sh, frontvars, z, ph>>
Unsupported == \* scripts are not typeset
  /\ HasNode({"sup", "sub"}) /\ Refuse
Finish ==
  /\ Laying /\ LF.k = "top" /\ LF.todo = <<>>
  /\ heap' = Kerned(heap, LF.out) /\ ph' = "ship"
  /\ prog' = <<[o |-> "ship", n |-> 0, x |-> 0, y |-> 0]>>
  /\ UNCHANGED <<pc, obs, sh, frontvars, z, lay, own>>
ShipOut == ph = "ship" /\ (StartShip \/ ShipStep) /\ UNCHANGED <<frontvars, z, ph, lay, own>>

MNext == Parse \/ Parsed \/ PutWord \/ PutNumber \/ PutSymbol \/ PutSymbolMacro \/ PutCustomSpace \/ Splice
         \/ EnterFormula \/ LeaveFormula \/ EnterMacro \/ EnterArg \/ LeaveArg \/ LeaveMacro
         \/ Unsupported \/ Finish \/ ShipOut
MStart(s, size) ==
  /\ F!Start(s) /\ z = size /\ ph = "parse" /\ lay = Init0 /\ own = <<>>
  /\ heap = <<>> /\ prog = <<>> /\ pc = 1 /\ obs = <<>> /\ sh = NoShip
MDone == ph = "err" \/ (ph = "ship" /\ pc > 1)

-----------------------------------------------------------------------------
(* Properties *)
\* C17: the style of a frame follows from the formulas it is in
Styles == Laying => \A j \in 1..Len(lay.stk) :
   LET f == lay.stk[j]
       in == \E k \in 1..j : lay.stk[k].k = "math"
   IN f.m = in /\ f.ty = (IF in THEN "it" ELSE "rm")
\* C14: what is drawn, read off the tree
RECURSIVE Reading(_, _)
ReadingAll(ns, m) == F!Cat([j \in 1..Len(ns) |-> Reading(ns[j], m)])
Letters(t, ty, m) == [j \in 1..Len(t) |-> Key(SubSeq(t, j, j), ty, m)]
Ty(m) == IF m THEN "it" ELSE "rm"
Reading(n, m) ==
  CASE n.k \in {"word", "lit"} -> LET cs == Within(n.p, n.e) IN [j \in 1..Len(cs) |-> Key(cs[j].c, Ty(m), m)]
    [] n.k = "sym" -> <<Key(n.t, Ty(m), m)>>
    [] n.k \in {"list", "arg", "opt"} -> ReadingAll(n.l, m)
    [] n.k = "math" -> ReadingAll(n.l, TRUE)
    [] n.k = "mac" ->
       CASE n.t \in DOMAIN Spaces \cup {"\\hspace"} -> <<>>
         [] n.t \in Functions -> Letters(Bare(n.t), "rm", m) \o ReadingAll(n.l, m)
         [] n.t = "\\sqrt" -> (IF Len(n.l) = 2 THEN Reading(n.l[1], m) ELSE <<>>)
                              \o <<Key("\\__sqrt__", Ty(m), TRUE)>> \o Reading(n.l[Len(n.l)], m)
         [] n.t = "\\binom" -> <<Key("(", Ty(m), TRUE)>> \o ReadingAll(n.l, m) \o <<Key(")", Ty(m), TRUE)>>
         [] n.t \in Constructs -> ReadingAll(n.l, m)
         [] OTHER -> <<Key(n.t, Ty(m), m)>>
    [] OTHER -> <<>>
=============================================================================
