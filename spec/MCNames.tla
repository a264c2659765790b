------------------------------ MODULE MCNames ------------------------------
EXTENDS Names, Json, IOUtils
Conf == JsonDeserialize(IOEnv.NAMES_IN)
Cases == JsonDeserialize(IOEnv.NAMES_IN_CASES)
TableC == Conf.names
\* given names, and all sequences of at most Conf.maxlen of Conf.pool
Pooled == UNION {[1..m -> {Conf.pool[j] : j \in 1..Len(Conf.pool)}] : m \in 0..Conf.maxlen}
Given == {Cases[j] : j \in 1..Len(Cases)}
Init == \E w \in (IF Conf.enum THEN Pooled ELSE Given) : \E m \in BOOLEAN : Begin(w, m)
Report == Over => PrintT("RES " \o ToJson([v |-> v, m |-> math, r |-> result, h |-> Has]))
Spec == Init /\ [][Next]_vars
NeverStuck == Over \/ ENABLED Next
=============================================================================
