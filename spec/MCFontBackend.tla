--------------------------- MODULE MCFontBackend ---------------------------
EXTENDS FontBackend, Json, IOUtils

Conf == JsonDeserialize(IOEnv.FONT_IN)
Cases == JsonDeserialize(IOEnv.FONT_IN_CASES)
SymC == Conf.sym
FSetsC == Conf.sets
FontsC == Conf.fonts
OwnerC == Conf.owner

VARIABLES id, given
\* given histories: a case is a sequence of [b, q]
CaseInit == \E j \in 1..Len(Cases) : id = <<j>> /\ given = Cases[j] /\ Start
CaseNext == /\ given # <<>> /\ Ask(given[1].b, given[1].q)
            /\ given' = Tail(given) /\ UNCHANGED id
\* all histories of at most Conf.maxlen queries of the pool
EnumInit == id = <<>> /\ given = <<>> /\ Start
EnumNext == /\ Len(id) < Conf.maxlen
            /\ \E j \in 1..Len(Conf.pool) : Ask(Conf.pool[j].b, Conf.pool[j].q) /\ id' = Append(id, j)
            /\ UNCHANGED given
\* (the answer, and the one of a memory without the mode if it differs)
Report == past # <<>> => PrintT("RES " \o ToJson([i |-> id, n |-> Len(past), a |-> last, o |-> IF lastOld = last THEN None ELSE lastOld]))
CaseSpec == CaseInit /\ [][CaseNext]_<<vars, id, given>>
EnumSpec == EnumInit /\ [][EnumNext]_<<vars, id, given>>
=============================================================================
