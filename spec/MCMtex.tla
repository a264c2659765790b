------------------------------- MODULE MCMtex -------------------------------
EXTENDS Mtex, Json, IOUtils

Conf == JsonDeserialize(IOEnv.MTEX_IN)
Cases == JsonDeserialize(IOEnv.MTEX_IN_CASES)
UC == Conf.u
DenC == Conf.den
GlyphsC == Conf.glyphs
KernsC == Conf.kerns
ThickC == Conf.thick
ArityC == Conf.arity
BomC == Conf.bom
Set(s) == {s[j] : j \in 1..Len(s)}
BinaryC == Set(Conf.binary)
SpacedC == Set(Conf.spaced)
PunctC == Set(Conf.punct)
LeftDelimC == Set(Conf.left)
FunctionsC == Set(Conf.functions)
SymbolsC == Set(Conf.symbols)
SpacesC == Conf.spaces

VARIABLES id, reading  \* the case; what it should draw, read off the tree

\* ---- given cases
CaseInit == \E i \in 1..Len(Cases) : id = i /\ reading = <<>> /\ MStart(Cases[i].s, Cases[i].z)

\* ---- all strings of at most Conf.maxlen pieces
RECURSIVE Strung(_, _)
Strung(is, o) == IF is = <<>> THEN <<>>
               ELSE LET l == Conf.lexemes[Head(is)]
                    IN [j \in 1..Len(l) |-> [l[j] EXCEPT !.o = @ + o]] \o Strung(Tail(is), o + Conf.bytes[Head(is)])
EnumInit == \E m \in 0..Conf.maxlen : \E f \in [1..m -> 1..Conf.nlex] :
  id = f /\ reading = <<>> /\ MStart(Strung(Conf.pre \o f \o Conf.post, 0), Conf.z)

MCNext == /\ MNext /\ UNCHANGED id
          /\ reading' = IF ph = "parse" /\ ph' = "lay" THEN ReadingAll(lay'.stk[1].todo, FALSE) ELSE reading
Out == heap[Len(heap)]
\* C14: the drawing has exactly the glyphs the tree calls for, in order
DrawsReading == (ph = "ship" /\ pc > 1) => DrawnGlyphs(obs[1].dr) = reading
Report == MDone => PrintT("RES " \o ToJson(
  IF ph = "err" THEN [i |-> id, s |-> "err"]
  ELSE [i |-> id, s |-> "ok", w |-> Out.w, h |-> Out.h, d |-> Out.d, dr |-> obs[1].dr, tie |-> obs[1].tie, own |-> own]))

CaseSpec == CaseInit /\ [][MCNext]_<<allvars, id, reading>>
EnumSpec == EnumInit /\ [][MCNext]_<<allvars, id, reading>>
NeverStuck == MDone \/ ENABLED MNext
=============================================================================
