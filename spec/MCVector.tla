------------------------------ MODULE MCVector ------------------------------
EXTENDS Vector, Json, IOUtils
Conf == JsonDeserialize(IOEnv.VEC_IN)
Cases == JsonDeserialize(IOEnv.VEC_IN_CASES)
TextsC == Set(Conf.texts)
RenderableC == Set(Conf.renderable)
VARIABLES id, trace
mcvars == <<vars, id, trace>>

(* all histories of at most Conf.len events; t: submitted, -t: typed, 0: frame *)
EnumInit == id = 0 /\ trace = <<>> /\ Start(<<Conf.first>>)
Do(h) == Len(trace) < Conf.len /\ trace' = Append(trace, h) /\ UNCHANGED id
EnumNext == \/ \E t \in Texts : (Submit(1, t) /\ Do(t)) \/ (Edit(1, t) /\ Do(-t))
            \/ Frame(1) /\ Do(0)
EnumSpec == EnumInit /\ [][EnumNext]_mcvars
EnumReport == PrintT("RES " \o ToJson([h |-> trace, d |-> Draws(1)]))

(* recorded traces *)
TraceInit == \E j \in 1..Len(Cases) : id = j /\ trace = Cases[j].trace /\ Start(Cases[j].first)
Observed(e) ==
  CASE e.k = "submit" -> Submit(e.w, e.t)
    [] e.k = "edit" -> Edit(e.w, e.t)
    [] OTHER -> /\ Frame(e.w)
                /\ (Draws(e.w) # 0 => Same(Conf.pics[Draws(e.w)], e.marks) /\ Shapes(Conf.pics[Draws(e.w)], e)) = TRUE
TraceNext == trace # <<>> /\ Observed(trace[1]) /\ trace' = Tail(trace) /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_mcvars
TraceReport == PrintT("RES " \o ToJson([i |-> id, left |-> Len(trace), d |-> [w \in W |-> Draws(w)]]))
=============================================================================
