----------------------------- MODULE MCSymSets -----------------------------
EXTENDS SymSets, Json, IOUtils
Conf == JsonDeserialize(IOEnv.SETS_IN)
Cases == JsonDeserialize(IOEnv.SETS_IN_CASES)
FixedC == [j \in 1..Len(Conf.fixed) |-> {Conf.fixed[j][k] : k \in 1..Len(Conf.fixed[j])}]
SpacedC == Conf.spaced
UniverseC == 1..Conf.n
VARIABLES id, given
CaseInit == \E j \in 1..Len(Cases) : id = <<j>> /\ given = Cases[j] /\ Start
CaseNext == given # <<>> /\ Sensible(given[1]) /\ Do(given[1]) /\ given' = Tail(given) /\ UNCHANGED id
EnumInit == id = <<>> /\ given = <<>> /\ Start
EnumNext == /\ Len(log) < Conf.maxlen
            /\ \E j \in 1..Len(Conf.pool) : Sensible(Conf.pool[j]) /\ Do(Conf.pool[j]) /\ id' = Append(id, j)
            /\ UNCHANGED given
Ended == IF Conf.enum THEN Len(log) = Conf.maxlen ELSE given = <<>>
New_ == [j \in 1..Len(heap) - Len(Fixed) |-> Sorted(heap[j + Len(Fixed)])]
Report == Ended => PrintT("RES " \o ToJson([i |-> id, a |-> [j \in 1..Len(log) |-> log[j].a], h |-> New_, s |-> slices]))
CaseSpec == CaseInit /\ [][CaseNext]_<<vars, id, given>>
EnumSpec == EnumInit /\ [][EnumNext]_<<vars, id, given>>
NeverStuck == Conf.enum \/ given = <<>> \/ Sensible(given[1])
=============================================================================
