------------------------------- MODULE MCGui -------------------------------
EXTENDS Gui, Json, IOUtils
Conf == JsonDeserialize(IOEnv.GUI_IN)
Cases == JsonDeserialize(IOEnv.GUI_IN_CASES)
Set(s) == {s[j] : j \in 1..Len(s)}
TextsC == Set(Conf.texts)
RenderableC == Set(Conf.renderable)
VARIABLES id, trace

(* all histories of Conf.len events in one window *)
Do(h) == /\ Len(trace) < Conf.len /\ trace' = Append(trace, h) /\ UNCHANGED id
EnumInit == id = 0 /\ trace = <<>> /\ Start(<<Conf.first>>)
EnumNext == \/ \E t \in Texts : Type(1, t) /\ Do(t)
            \/ Press(1) /\ Do(-1)
            \/ Frame(1) /\ Do(0)
EnumSpec == EnumInit /\ [][EnumNext]_<<vars, id, trace>>
EnumReport == Len(trace) = Conf.len => PrintT("RES " \o ToJson(trace))

(* progress: one window, as long as frames are drawn; pressing stops *)
LiveNext == \/ \E t \in Texts : Type(1, t) /\ UNCHANGED <<id, trace>>
            \/ Press(1) /\ Len(trace) < Conf.len /\ trace' = Append(trace, -1) /\ UNCHANGED id
            \/ Frame(1) /\ UNCHANGED <<id, trace>>
LiveSpec == EnumInit /\ [][LiveNext]_<<vars, id, trace>> /\ WF_vars(Frame(1))

(* recorded traces: is there a behaviour that shows them? *)
Pic(t) == IF t = 0 THEN 0 ELSE Conf.pics[t]
TraceInit == \E j \in 1..Len(Cases) : id = j /\ trace = Cases[j].trace /\ Start(Cases[j].first)
Observed(e) == CASE e.k = "type" -> Type(e.w, e.t)
                 [] e.k = "press" -> Press(e.w)
                 [] OTHER -> Frame(e.w) /\ (shown'[e.w] = 0 \/ Pic(shown'[e.w]) = e.p)
TraceNext == trace # <<>> /\ Observed(trace[1]) /\ trace' = Tail(trace) /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, id, trace>>
\* how far each trace got
TraceReport == PrintT("RES " \o ToJson([i |-> id, left |-> Len(trace)]))
=============================================================================
