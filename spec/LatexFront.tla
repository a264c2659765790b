----------------------------- MODULE LatexFront -----------------------------
(* The LaTeX front end: source text -> tokens -> tree, as an explicit state  *)
(* machine.  One action per token; the constructs that are open (formulas,   *)
(* groups, macro arguments, scripts, macros awaiting arguments) live on an   *)
(* explicit stack, and the mode (text or formula) is a function of it.       *)
(*                                                                           *)
(* A source is a sequence of characters [c: the character, n: its length in  *)
(* bytes, l: is it a letter (Unicode)].                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Arity,    \* macro name (with backslash) -> sequence of "a"/"o"
          Bom       \* the byte-order mark, ignorable as first character

VARIABLES src,      \* the source text
          p,        \* index in src of the next character
          off,      \* byte offset of that character
          stk,      \* stack of open constructs (innermost last)
          st,       \* "run" | "ok" | "err"
          toks      \* log of consumed pieces: [cls, p, e]; cls says what for

vars == <<src, p, off, stk, st, toks>>

-----------------------------------------------------------------------------
(* Lexical classes *)

Skippable == {"\t", "\n", "\r"}                 \* never significant
Digits    == {"0","1","2","3","4","5","6","7","8","9"}
Symbols   == {"=", "<", ">", "/", "*", "-", "+", "!", "?", "'", ":", ",", ";",
              ".", "(", ")", "[", "]"}          \* besides $ ^ _ { } % \ space

C(i) == IF i <= Len(src) THEN src[i].c ELSE "EOF"
IsLetterAt(i) == i <= Len(src) /\ src[i].l
IsDigitAt(i)  == i <= Len(src) /\ src[i].c \in Digits

\* index of the first character, from i on, that does not satisfy the run
RECURSIVE LettersEnd(_), DigitsEnd(_), SkipEnd(_), LineEnd(_)
LettersEnd(i) == IF IsLetterAt(i) THEN LettersEnd(i + 1) ELSE i
DigitsEnd(i)  == IF IsDigitAt(i) THEN DigitsEnd(i + 1) ELSE i
SkipEnd(i)    == IF C(i) \in Skippable THEN SkipEnd(i + 1) ELSE i
LineEnd(i)    == IF i > Len(src) THEN i
                 ELSE IF src[i].c = "\n" THEN i + 1 ELSE LineEnd(i + 1)

\* a number: digits, with at most one dot
NumberEnd(i) == IF C(i) = "." THEN DigitsEnd(i + 1)
                ELSE LET j == DigitsEnd(i)
                     IN  IF C(j) = "." THEN DigitsEnd(j + 1) ELSE j
StartsNumber(i) == IsDigitAt(i) \/ (C(i) = "." /\ IsDigitAt(i + 1))

\* text of src[i .. j-1], and its length in bytes
RECURSIVE Text(_, _), Bytes(_, _)
Text(i, j)  == IF i >= j THEN "" ELSE src[i].c \o Text(i + 1, j)
Bytes(i, j) == IF i >= j THEN 0 ELSE src[i].n + Bytes(i + 1, j)

\* the name of a macro starting with the backslash at i
MacroEnd(i) == IF IsLetterAt(i + 1) THEN LettersEnd(i + 1)
               ELSE IF i + 1 <= Len(src) THEN i + 2 ELSE i + 1

-----------------------------------------------------------------------------
(* Tree nodes.  p is the byte offset of the first character of the node;     *)
(* e, for the nodes that have one, that of the first character after it;     *)
(* -1 stands for the end of a construct that the end of input cut short.     *)

Leaf(k, t, a, b)  == [k |-> k, t |-> t, p |-> a, e |-> b]
MacroNode(f)      == [k |-> "mac", t |-> f.t, p |-> f.p, e |-> f.e, l |-> f.kids]
Delimited(k, f, e)== [k |-> k, p |-> f.p, e |-> e, l |-> f.kids]
Script(k, f, n)   == [k |-> k, p |-> f.p, n |-> n]
ListNode(kids)    == [k |-> "list", l |-> kids]

(* Stack frames.  want: the arguments a macro still expects. *)
Frame(k, a)       == [k |-> k, p |-> a, e |-> 0, t |-> "", kids |-> <<>>, want |-> <<>>]
MacroFrame(t, a, b, w) == [k |-> "mac", p |-> a, e |-> b, t |-> t, kids |-> <<>>, want |-> w]

Top == stk[Len(stk)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
InMath(s) == \E i \in 1..Len(s) : s[i].k = "math"

\* give a finished node to the innermost open construct of stack s; a script
\* without braces is completed by the first node it is given
RECURSIVE Give(_, _)
Give(s, n) ==
  LET f == s[Len(s)] IN
  IF f.k \in {"sup1", "sub1"}
  THEN Give(Pop(s), Script(IF f.k = "sup1" THEN "sup" ELSE "sub", f, n))
  ELSE [s EXCEPT ![Len(s)].kids = Append(@, n)]

\* close the innermost construct; e: offset after its closing delimiter
Close(s, e) ==
  LET f == s[Len(s)] IN
  CASE f.k = "math" -> Give(Pop(s), Delimited("math", f, e))
    [] f.k = "arg"  -> Give(Pop(s), Delimited("arg", f, e))
    [] f.k = "opt"  -> Give(Pop(s), Delimited("opt", f, e))
    [] f.k = "grp"  -> Give(Pop(s), ListNode(f.kids))
    [] f.k = "supb" -> Give(Pop(s), Script("sup", f, ListNode(f.kids)))
    [] f.k = "subb" -> Give(Pop(s), Script("sub", f, ListNode(f.kids)))

Braced == {"arg", "grp", "supb", "subb"}   \* constructs a right brace closes

-----------------------------------------------------------------------------
Log(cls, j) == toks' = Append(toks, [cls |-> cls, p |-> off, e |-> off + Bytes(p, j)])
\* consume src[p .. j-1]
Take(cls, j) == /\ p' = j /\ off' = off + Bytes(p, j) /\ Log(cls, j)
                /\ UNCHANGED src
Fail == st' = "err" /\ UNCHANGED <<src, p, off, stk, toks>>

\* is the machine between tokens of ordinary content?  (a macro that still
\* has arguments to come has the floor first)
Content == st = "run" /\ Top.k # "mac"

Skip == \* white space that is never significant
  /\ st = "run" /\ C(p) \in Skippable
  /\ ~(Top.k = "mac" /\ (Top.want = <<>> \/ Head(Top.want) = "o"))
  /\ Take("skip", SkipEnd(p)) /\ UNCHANGED <<stk, st>>

Comment ==
  /\ Content /\ C(p) = "%"
  /\ Take("skip", LineEnd(p)) /\ UNCHANGED <<stk, st>>

Blank == \* a plain space: a symbol in text, nothing in a formula
  /\ Content /\ C(p) = " "
  /\ IF InMath(stk)
     THEN Take("skip", p + 1) /\ UNCHANGED <<stk, st>>
     ELSE /\ Take("leaf", p + 1) /\ UNCHANGED st
          /\ stk' = Give(stk, Leaf("sym", " ", off, off + 1))

LeafToken(k, j) ==
  /\ Take("leaf", j) /\ UNCHANGED st
  /\ stk' = Give(stk, Leaf(k, Text(p, j), off, off + Bytes(p, j)))

Word   == Content /\ IsLetterAt(p) /\ LeafToken("word", LettersEnd(p))
Number == Content /\ StartsNumber(p) /\ LeafToken("lit", NumberEnd(p))
Symbol ==
  /\ Content /\ C(p) \in Symbols /\ ~StartsNumber(p)
  /\ ~(C(p) = "]" /\ Top.k = "opt")
  /\ LeafToken("sym", p + 1)

Macro ==
  /\ Content /\ C(p) = "\\"
  /\ LET j == MacroEnd(p)
         t == Text(p, j)
     IN IF t \in DOMAIN Arity
        THEN /\ Take("leaf", j) /\ UNCHANGED st
             /\ stk' = Append(stk, MacroFrame(t, off, off + Bytes(p, j), Arity[t]))
        ELSE Fail

\* a macro has all its arguments
MacroDone ==
  /\ st = "run" /\ Top.k = "mac" /\ Top.want = <<>>
  /\ stk' = Give(Pop(stk), MacroNode(Top))
  /\ UNCHANGED <<src, p, off, st, toks>>

\* an optional argument is there only if its bracket directly follows
OptArg ==
  /\ st = "run" /\ Top.k = "mac" /\ Top.want # <<>> /\ Head(Top.want) = "o"
  /\ LET s == [stk EXCEPT ![Len(stk)].want = Tail(@)] IN
     IF C(p) = "["
     THEN Take("open", p + 1) /\ stk' = Append(s, Frame("opt", off)) /\ UNCHANGED st
     ELSE stk' = s /\ UNCHANGED <<src, p, off, st, toks>>

\* a mandatory argument must be in braces
Arg ==
  /\ st = "run" /\ Top.k = "mac" /\ Top.want # <<>> /\ Head(Top.want) = "a"
  /\ C(p) \notin Skippable
  /\ IF C(p) = "{"
     THEN /\ Take("open", p + 1) /\ UNCHANGED st
          /\ stk' = Append([stk EXCEPT ![Len(stk)].want = Tail(@)], Frame("arg", off))
     ELSE Fail

OpenGroup ==
  /\ Content /\ C(p) = "{"
  /\ IF InMath(stk)
     THEN Take("open", p + 1) /\ stk' = Append(stk, Frame("grp", off)) /\ UNCHANGED st
     ELSE Fail

CloseBrace ==
  /\ Content /\ C(p) = "}"
  /\ IF Top.k \in Braced
     THEN Take("close", p + 1) /\ stk' = Close(stk, off + 1) /\ UNCHANGED st
     ELSE Fail

CloseBracket ==
  /\ Content /\ C(p) = "]" /\ Top.k = "opt"
  /\ Take("close", p + 1) /\ stk' = Close(stk, off + 1) /\ UNCHANGED st

Dollar == \* closes the innermost construct if it is a formula, else opens one
  /\ Content /\ C(p) = "$"
  /\ IF Top.k = "math"
     THEN Take("close", p + 1) /\ stk' = Close(stk, off + 1) /\ UNCHANGED st
     ELSE Take("open", p + 1) /\ stk' = Append(stk, Frame("math", off)) /\ UNCHANGED st

ScriptTok ==
  /\ Content /\ C(p) \in {"^", "_"}
  /\ LET sup == C(p) = "^" IN
     IF C(p + 1) = "{"
     THEN /\ Take("open", p + 2) /\ UNCHANGED st
          /\ stk' = Append(stk, Frame(IF sup THEN "supb" ELSE "subb", off))
     ELSE /\ Take("open", p + 1) /\ UNCHANGED st
          /\ stk' = Append(stk, Frame(IF sup THEN "sup1" ELSE "sub1", off))

UnsupportedAt(i) == \* any other character
  /\ i <= Len(src)
  /\ C(i) \notin (Symbols \cup Digits \cup Skippable \cup
                  {" ", "%", "\\", "{", "}", "$", "^", "_"})
  /\ ~IsLetterAt(i)
Unsupported == Content /\ UnsupportedAt(p) /\ Fail

End == \* the end of input closes what is open, except an empty script
  /\ Content /\ p > Len(src)
  /\ CASE Top.k \in {"sup1", "sub1"} -> Fail
       [] Len(stk) > 1 -> stk' = Close(stk, -1) /\ UNCHANGED <<src, p, off, st, toks>>
       [] OTHER -> st' = "ok" /\ UNCHANGED <<src, p, off, stk, toks>>

Next == Skip \/ Comment \/ Blank \/ Word \/ Number \/ Symbol \/ Macro \/ MacroDone
        \/ OptArg \/ Arg \/ OpenGroup \/ CloseBrace \/ CloseBracket \/ Dollar
        \/ ScriptTok \/ Unsupported \/ End

Start(s) == \* the machine about to read source s
  LET b == IF Len(s) > 0 /\ s[1].c = Bom THEN 1 ELSE 0 IN
  /\ src = s /\ st = "run" /\ stk = <<Frame("top", 0)>>
  /\ p = 1 + b
  /\ off = (IF b = 1 THEN s[1].n ELSE 0)
  /\ toks = IF b = 1 THEN <<[cls |-> "skip", p |-> 0, e |-> s[1].n]>> ELSE <<>>

Done == st # "run"
Tree == stk[1].kids          \* the result, when st = "ok"

-----------------------------------------------------------------------------
(* Properties of the machine *)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* the text-bearing pieces of a node, in reading order
RECURSIVE LeavesOf(_)
LeavesOfAll(ns) == Cat([i \in 1..Len(ns) |-> LeavesOf(ns[i])])
LeavesOf(n) ==
  CASE n.k \in {"word", "lit", "sym"} -> <<n>>
    [] n.k = "mac" -> <<Leaf("name", n.t, n.p, n.e)>> \o LeavesOfAll(n.l)
    [] n.k \in {"math", "arg", "opt", "list"} -> LeavesOfAll(n.l)
    [] n.k \in {"sup", "sub"} -> LeavesOf(n.n)

\* delimiter ranges of a node: openers and closers, as sets of offsets
RECURSIVE DelimsOf(_)
DelimsOfAll(ns) == UNION {DelimsOf(ns[i]) : i \in 1..Len(ns)}
DelimsOf(n) ==
  CASE n.k \in {"word", "lit", "sym"} -> {}
    [] n.k = "mac" -> DelimsOfAll(n.l)
    [] n.k \in {"math", "arg", "opt"} ->
         {<<"open", n.p>>} \cup (IF n.e >= 0 THEN {<<"close", n.e - 1>>} ELSE {})
         \cup DelimsOfAll(n.l)
    [] n.k = "list" -> DelimsOfAll(n.l)
    [] n.k \in {"sup", "sub"} -> {<<"open", n.p>>} \cup DelimsOf(n.n)

TotalBytes == Bytes(1, Len(src) + 1)
Sel(cls) == SelectSeq(toks, LAMBDA t : t.cls = cls)

\* C02: the pieces consumed so far tile the source; at the end the leaves of
\* the tree are exactly the leaf pieces, in order, with the source's text
Tiling ==
  /\ \A i \in 1..Len(toks) :
        toks[i].p = (IF i = 1 THEN 0 ELSE toks[i-1].e) /\ toks[i].e > toks[i].p
  /\ off = (IF toks = <<>> THEN 0 ELSE toks[Len(toks)].e)
Lossless ==
  st = "ok" =>
    LET ls == LeavesOfAll(Tree) IN
    /\ off = TotalBytes
    /\ [i \in 1..Len(ls) |-> <<ls[i].p, ls[i].e>>]
         = [i \in 1..Len(Sel("leaf")) |-> <<Sel("leaf")[i].p, Sel("leaf")[i].e>>]

\* C02: only white space, blanks of formulas and comments are skipped
IdxAt(o) == CHOOSE i \in 1..Len(src) : Bytes(1, i) = o
SkippedIsIgnorable ==
  \A i \in 1..Len(Sel("skip")) :
     LET c == C(IdxAt(Sel("skip")[i].p)) IN c \in Skippable \cup {"%", " ", Bom}

\* C04: a leaf's range is its own text, leaves are ordered and disjoint
PositionsExact ==
  st = "ok" =>
    LET ls == LeavesOfAll(Tree) IN
    /\ \A i \in 1..Len(ls) : ls[i].t = Text(IdxAt(ls[i].p), IdxAt(ls[i].p) +
          Cardinality({j \in 1..Len(src) : Bytes(1, j) >= ls[i].p /\ Bytes(1, j) < ls[i].e}))
    /\ \A i \in 1..Len(ls)-1 : ls[i].e <= ls[i+1].p
    /\ \A d \in DelimsOfAll(Tree) :
          C(IdxAt(d[2])) \in (IF d[1] = "open" THEN {"{", "[", "$", "^", "_"}
                              ELSE {"}", "]", "$"})

\* C03/C04: nesting.  Everything in a construct lies between its delimiters.
RECURSIVE Ends(_)
Ends(n) == CASE n.k \in {"word", "lit", "sym", "arg", "opt", "math"} -> n.e
             [] n.k = "mac" -> IF n.l = <<>> THEN n.e ELSE Ends(n.l[Len(n.l)])
             [] n.k = "list" -> IF n.l = <<>> THEN -1 ELSE Ends(n.l[Len(n.l)])
             [] n.k \in {"sup", "sub"} -> Ends(n.n)
RECURSIVE StartOf(_)
StartOf(n) == IF n.k = "list" THEN (IF n.l = <<>> THEN -1 ELSE StartOf(n.l[1])) ELSE n.p
RECURSIVE Nested(_)
NestedSeq(ns, lo, hi) ==
  /\ \A i \in 1..Len(ns) : Nested(ns[i])
  /\ \A i \in 1..Len(ns) :
       /\ StartOf(ns[i]) >= 0 => StartOf(ns[i]) >= lo
       /\ (hi >= 0 /\ Ends(ns[i]) >= 0) => Ends(ns[i]) <= hi
  /\ \A i, j \in 1..Len(ns) :
       (i < j /\ Ends(ns[i]) >= 0 /\ StartOf(ns[j]) >= 0) => Ends(ns[i]) <= StartOf(ns[j])
Nested(n) ==
  CASE n.k \in {"word", "lit", "sym"} -> n.e > n.p
    [] n.k = "mac" -> NestedSeq(n.l, n.e, -1)
    [] n.k \in {"arg", "opt", "math"} ->
         NestedSeq(n.l, n.p + 1, IF n.e >= 0 THEN n.e - 1 ELSE -1)
    [] n.k = "list" -> NestedSeq(n.l, 0, -1)
    [] n.k \in {"sup", "sub"} -> Nested(n.n)
NestingExact == st = "ok" => NestedSeq(Tree, 0, -1)

\* C03: a macro node has the arguments its definition calls for
RECURSIVE MacrosOK(_)
MacrosOKAll(ns) == \A i \in 1..Len(ns) : MacrosOK(ns[i])
MacrosOK(n) ==
  CASE n.k \in {"word", "lit", "sym"} -> TRUE
    [] n.k = "mac" ->
         /\ n.t \in DOMAIN Arity
         /\ LET as == [i \in 1..Len(n.l) |-> n.l[i].k]
                w  == Arity[n.t]
                mand == SelectSeq(w, LAMBDA x : x = "a")
            IN /\ Len(SelectSeq(as, LAMBDA x : x = "arg")) = Len(mand)
               /\ Len(as) <= Len(w)
               /\ Len(as) > Len(mand) => as[1] = "opt"
         /\ MacrosOKAll(n.l)
    [] n.k \in {"sup", "sub"} -> MacrosOK(n.n)
    [] OTHER -> MacrosOKAll(n.l)
ArityExact == st = "ok" => MacrosOKAll(Tree)

\* C03: blanks and brace groups only where the mode allows them
RECURSIVE ModeOK(_, _)
ModeOKAll(ns, m) == \A i \in 1..Len(ns) : ModeOK(ns[i], m)
ModeOK(n, m) ==
  CASE n.k = "sym" -> ~(n.t = " " /\ m)
    [] n.k \in {"word", "lit"} -> TRUE
    [] n.k = "math" -> ModeOKAll(n.l, TRUE)
    [] n.k = "list" -> m /\ ModeOKAll(n.l, m)
    [] n.k \in {"sup", "sub"} ->
         IF n.n.k = "list" THEN ModeOKAll(n.n.l, m) ELSE ModeOK(n.n, m)
    [] OTHER -> ModeOKAll(n.l, m)
ModeExact == st = "ok" => ModeOKAll(Tree, FALSE)

\* C01: the machine never gets stuck
Progress == st = "run" => ENABLED Next
Deterministic == TRUE
=============================================================================
