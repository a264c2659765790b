------------------------------ MODULE MCRender ------------------------------
EXTENDS Render, Json, IOUtils

Conf == JsonDeserialize(IOEnv.RENDER_IN)
Cases == JsonDeserialize(IOEnv.RENDER_IN_CASES)
UC == Conf.u
DenC == Conf.den
GlyphsC == Conf.glyphs
KernsC == Conf.kerns
ThickC == Conf.thick
ArityC == Conf.arity
BomC == Conf.bom
Set(s) == {s[j] : j \in 1..Len(s)}
BinaryC == Set(Conf.binary)
SpacedC == Set(Conf.spaced)
PunctC == Set(Conf.punct)
LeftDelimC == Set(Conf.left)
FunctionsC == Set(Conf.functions)
SymbolsC == Set(Conf.symbols)
SpacesC == Conf.spaces

VARIABLE id

\* given sessions
CaseInit == \E i \in 1..Len(Cases) : id = i /\ RStart(Cases[i].reqs)
\* all sessions of at most Conf.maxlen of the given requests
EnumInit == \E m \in 1..Conf.maxlen : \E f \in [1..m -> 1..Len(Conf.pool)] :
  id = f /\ RStart([j \in 1..m |-> Conf.pool[f[j]]])

Report == ROver => PrintT("RES " \o ToJson([i |-> id, outs |-> outs]))
CaseSpec == CaseInit /\ [][RNext /\ UNCHANGED id]_<<allvars, sessvars, id>>
EnumSpec == EnumInit /\ [][RNext /\ UNCHANGED id]_<<allvars, sessvars, id>>
NeverStuck == ROver \/ ENABLED RNext
=============================================================================
