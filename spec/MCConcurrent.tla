--------------------------- MODULE MCConcurrent ---------------------------
EXTENDS Concurrent, Json, IOUtils
Conf == JsonDeserialize(IOEnv.CONC_IN)
Cases == JsonDeserialize(IOEnv.CONC_IN_CASES)
SetsC == {"lm", "lib"}
VARIABLES id, trace
(* all schedules of given programs *)
EnumInit == \E j \in 1..Len(Cases) : id = j /\ trace = <<>> /\ Start(Cases[j].prog)
EnumSpec == EnumInit /\ [][Next /\ UNCHANGED <<id, trace>>]_<<vars, id, trace>> /\ WF_vars(Next)
EnumReport == Over => PrintT("RES " \o ToJson([i |-> id, h |-> hist]))
(* recorded traces: beginnings and ends with their results; is there a
   behaviour of the specification that shows them? *)
Observed(e) == IF e.k = 0 THEN Begin(e.g) /\ Call(e.g).c = e.c
               ELSE End(e.g) /\ Call(e.g).r = e.r
TraceInit == \E j \in 1..Len(Cases) : id = j /\ trace = Cases[j].trace /\ Start(Cases[j].prog)
TraceNext == /\ UNCHANGED id
             /\ \/ trace # <<>> /\ Observed(trace[1]) /\ trace' = Tail(trace)
                \/ UNCHANGED trace /\ \E g \in G : Load(g)
                \/ UNCHANGED trace /\ \E s \in Sets : Loaded(s)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, id, trace>>
TraceReport == (trace = <<>>) => PrintT("RES " \o ToJson([i |-> id]))
=============================================================================
