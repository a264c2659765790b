---------------------------- MODULE FontBackend ----------------------------
(* Font backends: what they answer about glyphs, what they draw, and what   *)
(* they remember.                                                           *)
(*                                                                          *)
(* Data (constants):                                                        *)
(*   Sym:   symbol -> [cp: code point in formulas, cpt: in text,            *)
(*                     L, Lt: whether that is a letter]                     *)
(*   FSets: set -> [style -> name of a font]                                *)
(*   Fonts: font -> [upem: units per em, xh: x-height in units,             *)
(*                   gl: code point -> [g: glyph, a: advance in units,      *)
(*                       x0, x1, y0, y1: bounds in 64ths at 12 per em],     *)
(*                   kern: pair of glyphs -> units]                         *)
(*   Owner: sequence of the sets the backends are over                      *)
(* Font sizes are in hundredths of a point, resolutions in halves.          *)
(* A quantity is a fraction of products, <<factors, factors>>.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sym, FSets, Fonts, Owner

(* ---- the answers: functions of the query and the set alone ---- *)
CodePoint(s, math) == IF math THEN Sym[s].cp ELSE Sym[s].cpt
IsLetter(s, math) == IF math THEN Sym[s].L ELSE Sym[s].Lt
\* letters of an italic request are italic, everything else of it is upright
Style(s, ty, math) ==
  IF ty = "it" /\ CodePoint(s, math) < 65536 /\ ~IsLetter(s, math) THEN "rm" ELSE ty
FontOf(set, s, ty, math) == FSets[set][Style(s, ty, math)]
GlyphIn(f, cp) == Fonts[f].gl["u" \o ToString(cp)]

Bound(v, f) == <<<<v, f.z>>, <<64, 12, 100>>>>
Info(set, s, f, math) ==
  LET cp == CodePoint(s, math)
      ft == FontOf(set, s, f.t, math)
      gl == GlyphIn(ft, cp)
  IN [font |-> ft, cp |-> cp, g |-> gl.g,
      sl |-> Style(s, f.t, math) = "it" \/ s \in {"\\int", "\\oint"},
      adv |-> <<<<gl.a, f.z>>, <<Fonts[ft].upem, 100>>>>,
      w |-> Bound(gl.x1 - gl.x0, f), h |-> Bound(gl.y1 - gl.y0, f), ice |-> Bound(gl.y1, f),
      x0 |-> Bound(gl.x0, f), x1 |-> Bound(gl.x1, f), y0 |-> Bound(gl.y0, f), y1 |-> Bound(gl.y1, f)]

Zero == <<<<0>>, <<1>>>>
Lookup(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
PairKern(i1, i2, f1, f2) ==
  IF f1.n # f2.n \/ f1.z # f2.z \/ i1.font # i2.font THEN Zero
  ELSE <<<<Lookup(Fonts[i1.font].kern, "k" \o ToString(i1.g) \o "x" \o ToString(i2.g), 0), f1.z>>,
         <<Fonts[i1.font].upem, 100>>>>
XHeight(set, f, dpi) == LET ft == FSets[set][f.t] IN <<<<Fonts[ft].xh, f.z, dpi>>, <<Fonts[ft].upem, 100, 144>>>>
\* three quarters of a point at size 12
Thickness(f, dpi) == <<<<3, f.z, dpi>>, <<4, 12, 100, 144>>>>

(* the pure answer of a query; a drawing is answered by what it draws *)
Answer(set, q) ==
  CASE q.op = "metrics" -> [k |-> "i", i |-> Info(set, q.s, q.f, q.m)]
    [] q.op = "draw" -> [k |-> "g", i |-> Info(set, q.s, q.f, TRUE), x |-> q.x, y |-> q.y, z |-> q.f.z]
    [] q.op = "rect" -> [k |-> "r", x |-> q.x, y |-> q.y, x2 |-> q.x2, y2 |-> q.y2]
    [] q.op = "kern" -> [k |-> "v", v |-> PairKern(Info(set, q.s, q.f, TRUE), Info(set, q.s2, q.f2, TRUE), q.f, q.f2)]
    [] q.op = "xheight" -> [k |-> "v", v |-> XHeight(set, q.f, q.dpi)]
    [] q.op = "thick" -> [k |-> "v", v |-> Thickness(q.f, q.dpi)]

(* ---- backends with a memory ---- *)
VARIABLES past,    \* the queries so far: <<backend, query>>
          memo,    \* backend -> what it remembers, by symbol, font, resolution and mode
          old,     \* the same, by symbol, font and resolution only: what the code does
          last,    \* the last answer, given from memo
          lastOld, \* ... given from old
          canvas   \* backend -> what it has drawn
vars == <<past, memo, old, last, lastOld, canvas>>

None == [k |-> "none"]
Start == /\ past = <<>> /\ memo = [b \in 1..Len(Owner) |-> <<>>] /\ old = [b \in 1..Len(Owner) |-> <<>>]
         /\ last = None /\ lastOld = None /\ canvas = [b \in 1..Len(Owner) |-> <<>>]

\* the glyphs a query is about, in the order they are looked up
Needs(q) == CASE q.op = "metrics" -> << <<q.s, q.f, q.dpi, q.m>> >>
              [] q.op = "draw" -> << <<q.s, q.f, q.dpi, TRUE>> >>
              [] q.op = "kern" -> IF q.f.n = q.f2.n /\ q.f.z = q.f2.z
                                  THEN << <<q.s, q.f, q.dpi, TRUE>>, <<q.s2, q.f2, q.dpi, TRUE>> >> ELSE << >>
              [] OTHER -> << >>
Full(n) == n
Short(n) == <<n[1], n[2], n[3]>>
RECURSIVE Learn(_, _, _, _)
Learn(m, Key(_), set, ns) ==
  IF ns = <<>> THEN m
  ELSE LET n == ns[1]
           m2 == IF Key(n) \in DOMAIN m THEN m ELSE (Key(n) :> Info(set, n[1], n[2], n[4])) @@ m
       IN Learn(m2, Key, set, Tail(ns))
\* the answer from what is remembered (everything needed has been learnt)
From(m, Key(_), set, q) ==
  LET ns == Needs(q) IN
  CASE q.op = "metrics" -> [k |-> "i", i |-> m[Key(ns[1])]]
    [] q.op = "draw" -> [k |-> "g", i |-> m[Key(ns[1])], x |-> q.x, y |-> q.y, z |-> q.f.z]
    [] q.op = "kern" /\ ns # <<>> -> [k |-> "v", v |-> PairKern(m[Key(ns[1])], m[Key(ns[2])], q.f, q.f2)]
    [] OTHER -> Answer(set, q)

Ask(b, q) ==
  LET set == Owner[b]
      m2 == Learn(memo[b], Full, set, Needs(q))
      o2 == Learn(old[b], Short, set, Needs(q))
  IN /\ past' = Append(past, <<b, q>>)
     /\ memo' = [memo EXCEPT ![b] = m2]
     /\ old' = [old EXCEPT ![b] = o2]
     /\ last' = From(m2, Full, set, q)
     /\ lastOld' = From(o2, Short, set, q)
     /\ canvas' = IF q.op \in {"draw", "rect"} THEN [canvas EXCEPT ![b] = Append(@, last')] ELSE canvas

-----------------------------------------------------------------------------
(* C19: what a backend remembers never changes what it answers *)
Transparent == past # <<>> => LET p == past[Len(past)] IN last = Answer(Owner[p[1]], p[2])
\* every memory of every backend is a true one
Faithful == \A b \in 1..Len(Owner) : \A n \in DOMAIN memo[b] : memo[b][n] = Info(Owner[b], n[1], n[2], n[4])
\* a backend has drawn exactly what it was asked to, and nothing else
RECURSIVE Drawn(_, _)
Drawn(b, h) == IF h = <<>> THEN <<>>
               ELSE LET p == h[1] IN
                 (IF p[1] = b /\ p[2].op \in {"draw", "rect"} THEN <<Answer(Owner[b], p[2])>> ELSE <<>>) \o Drawn(b, Tail(h))
OwnDrawing == \A b \in 1..Len(Owner) : canvas[b] = Drawn(b, past)
(* the memory without the mode is wrong about symbols that depend on it, and
   about nothing else (listed finding) *)
Symbols(q) == {q.s} \cup (IF q.op = "kern" THEN {q.s2} ELSE {})
Moded(s) == Sym[s].cp # Sym[s].cpt
StaleOnlyModed == past # <<>> =>
  LET p == past[Len(past)] IN
  lastOld = last \/ (p[2].op \in {"metrics", "draw", "kern"} /\ \E s \in Symbols(p[2]) : Moded(s))

(* C20 *)
\* one glyph, whether measured, kerned or drawn: the one of its code point in
\* the font of its style
RightGlyph ==
  past # <<>> /\ last.k \in {"i", "g"} =>
    LET p == past[Len(past)]
        i == last.i
        m == IF p[2].op = "metrics" THEN p[2].m ELSE TRUE
    IN /\ i.cp = CodePoint(p[2].s, m)
       /\ i.font \in {FSets[Owner[p[1]]][st] : st \in {p[2].f.t, "rm"}}
       /\ (p[2].f.t # "it" \/ IsLetter(p[2].s, m)) => i.font = FSets[Owner[p[1]]][p[2].f.t]
       /\ (p[2].f.t = "it" /\ i.cp < 65536 /\ ~IsLetter(p[2].s, m)) => i.font = FSets[Owner[p[1]]].rm
       /\ i.g = GlyphIn(i.font, i.cp).g
\* every quantity is the size times something that does not depend on it
Sized(v, z) == v = Zero \/ v[1][2] = z
Proportional ==
  past # <<>> =>
    LET q == past[Len(past)][2] IN
    CASE last.k = "v" -> Sized(last.v, q.f.z)
      [] last.k \in {"i", "g"} -> \A fld \in {"adv", "w", "h", "ice", "x0", "x1", "y0", "y1"} : Sized(last.i[fld], q.f.z)
      [] OTHER -> TRUE
\* the extents, the width, the height and the height above the baseline agree
Consistent == past # <<>> /\ last.k \in {"i", "g"} =>
  LET i == last.i IN /\ i.w[1][1] = i.x1[1][1] - i.x0[1][1]
                     /\ i.h[1][1] = i.y1[1][1] - i.y0[1][1]
                     /\ i.ice = i.y1
=============================================================================
