------------------------------- MODULE AstTree -------------------------------
(* Traversal (ast.Walk, ast.Inspect) and printing (ast.Print) of trees.      *)
(*                                                                           *)
(* A tree is given by two sequences over its nodes in preorder: kind and     *)
(* par (the index of the parent, 0 for the root).  "nil" is an absent child. *)
(* The name of a macro is its first child, of kind "ident", or absent.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES kind, par,   \* the tree
          pol,         \* what visiting node i returns: "stop" | "keep" | "new"
          stk,         \* frames of the traversal: [n, v, i]
          log,         \* calls made: <<visitor, node>>, node 0 for nil
          st           \* "start" | "run" | "done"

vars == <<kind, par, pol, stk, log, st>>

N == Len(kind)
Kids(i) == SelectSeq([j \in 1..N |-> j], LAMBDA j : par[j] = i)

\* Visitors are numbered: 0 is the caller's, i the one made at node i.
ResultOf(v, n) == CASE pol[n] = "stop" -> -1
                    [] pol[n] = "keep" -> v
                    [] pol[n] = "new"  -> n

\* call visitor v on node n, on stack s: descend unless it declines
Enter(s, v, n) ==
  /\ log' = Append(log, <<v, n>>)
  /\ stk' = IF ResultOf(v, n) = -1 THEN s
            ELSE Append(s, [n |-> n, v |-> ResultOf(v, n), i |-> 1])

Begin == st = "start" /\ st' = "run" /\ Enter(<<>>, 0, 1) /\ UNCHANGED <<kind, par, pol>>

Child ==
  /\ st = "run" /\ stk # <<>>
  /\ LET f == stk[Len(stk)]
         ks == Kids(f.n)
         s == [stk EXCEPT ![Len(stk)].i = @ + 1]
     IN /\ f.i <= Len(ks)
        /\ IF kind[ks[f.i]] = "nil" THEN stk' = s /\ UNCHANGED log
           ELSE Enter(s, f.v, ks[f.i])
  /\ UNCHANGED <<kind, par, pol, st>>

Leave ==
  /\ st = "run" /\ stk # <<>>
  /\ LET f == stk[Len(stk)] IN
     /\ f.i > Len(Kids(f.n))
     /\ log' = Append(log, <<f.v, 0>>)
     /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
  /\ UNCHANGED <<kind, par, pol, st>>

Finish == st = "run" /\ stk = <<>> /\ st' = "done" /\ UNCHANGED <<kind, par, pol, stk, log>>

Next == Begin \/ Child \/ Leave \/ Finish

StartOn(k, q, l) == kind = k /\ par = q /\ pol = l /\ stk = <<>> /\ log = <<>> /\ st = "start"

-----------------------------------------------------------------------------
(* What a traversal has to be, stated on the tree and the log of calls only  *)

RECURSIVE Anc(_)
Anc(n) == IF par[n] = 0 THEN {} ELSE {par[n]} \cup Anc(par[n])
Reached(n) == kind[n] # "nil" /\ \A a \in Anc(n) : pol[a] # "stop" /\ kind[a] # "nil"
RECURSIVE VisitorOf(_)       \* who has to visit n
VisitorOf(n) == IF par[n] = 0 THEN 0 ELSE ResultOf(VisitorOf(par[n]), par[n])
Calls(n) == {c \in 1..Len(log) : log[c][2] = n}
CallOf(n) == CHOOSE c \in Calls(n) : TRUE

OnceEach == st = "done" => \A n \in 1..N : Cardinality(Calls(n)) = (IF Reached(n) THEN 1 ELSE 0)
ByWhom   == \A c \in 1..Len(log) : log[c][2] # 0 => log[c][1] = VisitorOf(log[c][2])
InOrder  == \A c, d \in 1..Len(log) : (c < d /\ log[c][2] # 0 /\ log[d][2] # 0) => log[c][2] < log[d][2]
Descends(n) == Reached(n) /\ pol[n] # "stop"
InSubtree(m, n) == m = n \/ n \in Anc(m)
\* after all of n's subtree, before anything else, there is exactly one nil
\* call by the visitor n's visit returned; there are no other nil calls
LastIn(n) == LET s == {c \in 1..Len(log) : log[c][2] # 0 /\ InSubtree(log[c][2], n)}
             IN CHOOSE c \in s : \A d \in s : d <= c
\* the nil call for n: after the last call of the subtree come the nil calls
\* of those of its ancestors-or-self (innermost first) whose subtree ends there
Paired ==
  st = "done" =>
   /\ Cardinality(Calls(0)) = Cardinality({n \in 1..N : Descends(n)})
   /\ \A n \in 1..N : Descends(n) =>
        LET last == LastIn(n)
            m == log[last][2]
            inner == {a \in (Anc(m) \cup {m}) : InSubtree(a, n) /\ Descends(a) /\ LastIn(a) = last}
            c == last + Cardinality(inner)
        IN c <= Len(log) /\ log[c] = <<ResultOf(VisitorOf(n), n), 0>>

-----------------------------------------------------------------------------
(* Printing: the pieces of the printed form of node i of the tree (k, q);    *)
(* <<"q", i>> stands for the quoted text of node i.                          *)
KidsIn(q, i) == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : q[j] = i)
S(x) == <<"s", x>>
Plain == [arg |-> <<"{", "}">>, opt |-> <<"[", "]">>, list |-> <<"ast.List{", "}">>,
          sup |-> <<"ast.Sup{", "}">>, sub |-> <<"ast.Sub{", "}">>]
Text  == [ident |-> "ast.Ident{", word |-> "ast.Word{", lit |-> "ast.Lit{", sym |-> "ast.Symbol{"]
RECURSIVE Printed(_, _, _), Sep(_, _, _)
Sep(k, q, is) == IF is = <<>> THEN <<>>
                 ELSE IF Len(is) = 1 THEN Printed(k, q, is[1])
                 ELSE Printed(k, q, is[1]) \o <<S(", ")>> \o Sep(k, q, Tail(is))
Printed(k, q, i) ==
  LET ks == KidsIn(q, i) IN
  CASE k[i] = "nil" -> <<S("<nil>")>>
    [] k[i] \in DOMAIN Text  -> <<S(Text[k[i]]), <<"q", i>>, S("}")>>
    [] k[i] \in DOMAIN Plain -> <<S(Plain[k[i]][1])>> \o Sep(k, q, ks) \o <<S(Plain[k[i]][2])>>
    [] k[i] = "math" -> <<S("ast.MathExpr{")>>
                        \o (IF ks = <<>> THEN <<>> ELSE <<S("List:")>> \o Sep(k, q, ks)) \o <<S("}")>>
    [] k[i] = "mac"  -> \* the first child is the name
         <<S("ast.Macro{")>>
         \o (IF k[ks[1]] = "nil" THEN <<S("<nil>")>> ELSE <<<<"q", ks[1]>>>>)
         \o (IF Len(ks) = 1 THEN <<>> ELSE <<S(", Args:")>> \o Sep(k, q, Tail(ks)))
         \o <<S("}")>>

\* the printed form as one string, all texts being the same
RECURSIVE Glued(_)
Glued(ps) == IF ps = <<>> THEN ""
             ELSE (IF ps[1][1] = "s" THEN ps[1][2] ELSE "\"t\"") \o Glued(Tail(ps))
\* printing never maps two trees of a set to the same string
InjectiveOn(T) == Cardinality({Glued(Printed(t[1], t[2], 1)) : t \in T}) = Cardinality(T)
=============================================================================
