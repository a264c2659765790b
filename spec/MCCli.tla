------------------------------ MODULE MCCli ------------------------------
EXTENDS Cli, Json, IOUtils

Conf == JsonDeserialize(IOEnv.CLI_IN)
Cases == JsonDeserialize(IOEnv.CLI_IN_CASES)
UC == Conf.u
DenC == Conf.den
GlyphsC == Conf.glyphs
KernsC == Conf.kerns
ThickC == Conf.thick
ArityC == Conf.arity
BomC == Conf.bom
Set(s) == {s[j] : j \in 1..Len(s)}
BinaryC == Set(Conf.binary)
SpacedC == Set(Conf.spaced)
PunctC == Set(Conf.punct)
LeftDelimC == Set(Conf.left)
FunctionsC == Set(Conf.functions)
SymbolsC == Set(Conf.symbols)
SpacesC == Conf.spaces

VARIABLE id

\* given invocations
CaseInit == \E i \in 1..Len(Cases) : id = i /\ CStart(Cases[i])
\* all invocations with at most Conf.maxlen of the given arguments
EnumInit == \E m \in 0..Conf.maxlen : \E f \in [1..m -> 1..Len(Conf.pool)] :
  id = f /\ CStart([args |-> [j \in 1..m |-> Conf.pool[f[j]]], files |-> Conf.files])

Report == COver => PrintT("RES " \o ToJson([i |-> id, exit |-> exit, wrote |-> wrote]))
CaseSpec == CaseInit /\ [][CNext /\ UNCHANGED id]_<<allvars, sessvars, clivars, id>>
EnumSpec == EnumInit /\ [][CNext /\ UNCHANGED id]_<<allvars, sessvars, clivars, id>>
NeverStuck == COver \/ ENABLED CNext
=============================================================================
