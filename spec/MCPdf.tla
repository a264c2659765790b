------------------------------- MODULE MCPdf -------------------------------
EXTENDS Pdf, Json, IOUtils
Conf == JsonDeserialize(IOEnv.PDF_IN)
Cases == JsonDeserialize(IOEnv.PDF_IN_CASES)
Set(s) == {s[j] : j \in 1..Len(s)}
VARIABLE id
CaseInit == \E i \in 1..Len(Cases) : id = i /\ Start(Cases[i], Conf.places, Set(Conf.drawings), Set(Conf.old))
\* all sessions of at most Conf.maxlen of the given writes
EnumInit == \E m \in 0..Conf.maxlen : \E s \in [1..m -> 1..Len(Conf.pool)] :
  id = s /\ Start([j \in 1..m |-> Conf.pool[s[j]]], Conf.places, Set(Conf.drawings), Set(Conf.old))
Report == Over => PrintT("RES " \o ToJson([i |-> id, told |-> told, disk |-> disk]))
CaseSpec == CaseInit /\ [][Next /\ UNCHANGED id]_<<vars, id>>
EnumSpec == EnumInit /\ [][Next /\ UNCHANGED id]_<<vars, id>>
=============================================================================
