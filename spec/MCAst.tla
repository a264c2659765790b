------------------------------- MODULE MCAst ---------------------------------
EXTENDS AstTree, Json, IOUtils

Conf == JsonDeserialize(IOEnv.AST_IN)
Cases == JsonDeserialize(IOEnv.AST_IN_CASES)   \* [cases: seq of [k, q, l], n, policies]
VARIABLE id

CaseInit == \E i \in 1..Len(Cases) :
              LET c == Cases[i] IN id = i /\ StartOn(c.k, c.q, c.l)

Leaves == {"word", "lit", "sym", "ident", "nil"}
\* par is a preorder numbering: each node's parent is on the path to the last
RECURSIVE OnPath(_, _, _)
OnPath(q, i, a) == a = i \/ (q[i] # 0 /\ OnPath(q, q[i], a))
Preorder(q) == /\ q[1] = 0
               /\ \A i \in 2..Len(q) : q[i] \in 1..i-1 /\ OnPath(q, i-1, q[i])
Shapes(n) == {q \in [1..n -> 0..n-1] : Preorder(q)}
KidsOf(q, i) == {j \in 1..Len(q) : q[j] = i}
Fits(k, q) == \A i \in 1..Len(q) :
   /\ k[i] \in Leaves => KidsOf(q, i) = {}
   /\ k[i] \in {"sup", "sub"} => Cardinality(KidsOf(q, i)) = 1
   /\ k[i] = "mac" => KidsOf(q, i) # {} /\ k[i+1] \in {"ident", "nil"}
   /\ k[i] = "ident" => i > 1 /\ q[i] = i-1 /\ k[i-1] = "mac"
   /\ k[i] = "nil" => i > 1
KindSet == {Conf.kinds[x] : x \in 1..Len(Conf.kinds)}
Trees(n) == UNION {{t \in [1..m -> KindSet] \X Shapes(m) : Fits(t[1], t[2])} : m \in 1..n}
EnumInit ==
  \E t \in Trees(Conf.n) :
    \E l \in [1..Len(t[1]) -> {Conf.policies[x] : x \in 1..Len(Conf.policies)}] :
      /\ \A i \in 1..Len(t[1]) : t[1][i] = "nil" => l[i] = "keep"
      /\ id = <<t[1], t[2], l>> /\ StartOn(t[1], t[2], l)

MCNext == Next /\ UNCHANGED id

Report == st = "done" => PrintT("RES " \o ToJson(
            [i |-> id, log |-> log, p |-> IF Conf.print THEN Printed(kind, par, 1) ELSE <<>>]))

CaseSpec == CaseInit /\ [][MCNext]_<<vars, id>>
EnumSpec == EnumInit /\ [][MCNext]_<<vars, id>>

\* printing is injective on all trees of at most Conf.inj nodes
ASSUME Conf.inj = 0 \/ InjectiveOn(Trees(Conf.inj))
=============================================================================
