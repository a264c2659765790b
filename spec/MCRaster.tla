------------------------------ MODULE MCRaster ------------------------------
EXTENDS Raster, Json, IOUtils
Conf == JsonDeserialize(IOEnv.RASTER_IN)
Cases == JsonDeserialize(IOEnv.RASTER_IN_CASES)
VARIABLE id
CaseInit == \E j \in 1..Len(Cases) : id = j /\ Start(Cases[j])
\* all drawings of at most Conf.maxlen of the given operations
EnumInit == \E m \in 0..Conf.maxlen : \E f \in [1..m -> 1..Len(Conf.pool)] :
  id = f /\ Start([Conf.page EXCEPT !.ops = [j \in 1..m |-> Conf.pool[f[j]]]])
Report == Over => PrintT("RES " \o ToJson([i |-> id, w |-> W, h |-> H, r |-> done, see |-> see]))
CaseSpec == CaseInit /\ [][Next /\ UNCHANGED id]_<<vars, id>>
EnumSpec == EnumInit /\ [][Next /\ UNCHANGED id]_<<vars, id>>
NeverStuck == Over \/ ENABLED Next
=============================================================================
