------------------------------- MODULE MCBoxes -------------------------------
EXTENDS Boxes, Json, IOUtils

Conf == JsonDeserialize(IOEnv.BOX_IN)
Cases == JsonDeserialize(IOEnv.BOX_IN_CASES)
UC == Conf.u
DenC == Conf.den
GlyphsC == Conf.glyphs
KernsC == Conf.kerns
ThickC == Conf.thick
VARIABLE id

CaseInit == \E i \in 1..Len(Cases) : id = i /\ StartProgram(Cases[i])

\* all lists of at most Conf.maxlen items of the palette (each item a small
\* program whose last node is the item), in both directions, put between two
\* characters, with every given sequence of operations before (on the list, the
\* newest node) and after (the enclosing list is then the newest node)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Last(f, j) == LET RECURSIVE Sum(_)
                  Sum(i) == IF i = 0 THEN 0 ELSE Len(Conf.palette[f[i]].p) + Sum(i - 1)
              IN Sum(j)
Items(f) == Cat([j \in 1..Len(f) |-> Conf.palette[f[j]].p])
Listing(dir, kids) == IF dir = "h" THEN [o |-> "hlist", k |-> kids, kern |-> Conf.kern]
                      ELSE [o |-> "vlist", k |-> kids]
Wrapped == <<[o |-> "char", c |-> "a", z |-> Conf.z], [o |-> "char", c |-> "b", z |-> Conf.z],
             [o |-> "hlist", k |-> <<-1, -2, 0>>, kern |-> FALSE]>>
ProgramOf(f, dir, pk) ==
  Items(f) \o <<Listing(dir, [j \in 1..Len(f) |-> Last(f, j)])>>
  \o pk.pre \o Wrapped \o pk.post
Allowed(dir, f) == \A j \in 1..Len(f) : dir = "v" => Conf.palette[f[j]].v
EnumInit ==
  \E m \in 0..Conf.maxlen : \E f \in [1..m -> 1..Len(Conf.palette)] :
   \E dir \in {Conf.dirs[j] : j \in 1..Len(Conf.dirs)} : \E q \in 1..Len(Conf.packs) :
     /\ Allowed(dir, f)
     /\ id = <<f, dir, q>> /\ StartProgram(ProgramOf(f, dir, Conf.packs[q]))

MCNext == Next /\ UNCHANGED id
Report == Finished => PrintT("RES " \o ToJson([i |-> id, obs |-> obs, prog |-> IF Conf.echo THEN prog ELSE <<>>]))

CaseSpec == CaseInit /\ [][MCNext]_<<vars, id>>
EnumSpec == EnumInit /\ [][MCNext]_<<vars, id>>
NeverStuck == Finished \/ ENABLED Next
=============================================================================
