------------------------------- MODULE MCFront -------------------------------
(* Exhaustive and case-driven instances of LatexFront.                       *)
EXTENDS LatexFront, Json, IOUtils

Conf == JsonDeserialize(IOEnv.FRONT_IN)
Cases == JsonDeserialize(IOEnv.FRONT_IN_CASES)
ArityC == Conf.arity
BomC   == Conf.bom

VARIABLE id          \* which case this behaviour runs

\* ---- given cases: id ranges over the list in the configuration file
CaseInit == \E i \in 1..Len(Cases) : id = i /\ Start(Cases[i])

\* ---- all strings of lexemes up to a length; id is the lexeme sequence
RECURSIVE Flat(_)
Flat(is) == IF is = <<>> THEN <<>> ELSE Conf.lexemes[Head(is)] \o Flat(Tail(is))
EnumInit == \E m \in 0..Conf.maxlen : \E f \in [1..m -> 1..Len(Conf.lexemes)] :
              id = f /\ Start(Conf.prefix \o Flat(f))

MCNext == \/ Next /\ UNCHANGED id

\* report each result once, when it is reached
\* (a rejected source: the leaves read before the point of failure, and that
\* point, with whether an unsupported character is to blame)
Report == Done => PrintT("RES " \o ToJson(
  IF st = "ok" THEN [i |-> id, s |-> st, t |-> Tree]
  ELSE [i |-> id, s |-> st, t |-> [j \in 1..Len(Sel("leaf")) |-> <<Sel("leaf")[j].p, Sel("leaf")[j].e>>],
        o |-> off, u |-> UnsupportedAt(p)]))

\* (the source of a case does not change)
WithoutSource == <<id, p, off, stk, st, toks>>

CaseSpec == CaseInit /\ [][MCNext]_<<vars, id>>
EnumSpec == EnumInit /\ [][MCNext]_<<vars, id>>
=============================================================================
