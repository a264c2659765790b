------------------------------- MODULE MCLoop -------------------------------
EXTENDS Loop, Json, IOUtils
Conf == JsonDeserialize(IOEnv.LOOP_IN)
Cases == JsonDeserialize(IOEnv.LOOP_IN_CASES)
Set(s) == {s[j] : j \in 1..Len(s)}
TextsC == Set(Conf.texts)
RenderableC == Set(Conf.renderable)
KeysC == Conf.keys
VARIABLES id, trace
mcvars == <<lvars, id, trace>>

(* all histories of at most Conf.len events; 0: a frame, -1: a press, 100 + j: *)
(* key j, 200: closed, 201: closed for an error, 300: the file becomes writable *)
(* or not, t: typed                                                           *)
Do(h) == /\ Len(trace) < Conf.len /\ trace' = Append(trace, h) /\ UNCHANGED id
EnumInit == id = 0 /\ trace = <<>> /\ LStart(Conf.first, Conf.writable)
EnumNext == \/ \E t \in Texts : Edit(t) /\ Do(t)
            \/ Push /\ Do(-1)
            \/ Draw /\ Do(0)
            \/ Place /\ Do(300)
            \/ \E j \in 1..Len(KeysC) : Key(KeysC[j]) /\ Do(100 + j)
            \/ Destroy("ok") /\ Do(200)
            \/ Destroy("broken") /\ Do(201)
EnumSpec == EnumInit /\ [][EnumNext]_mcvars
EnumReport == (Len(trace) = Conf.len \/ ~open) => PrintT("RES " \o ToJson(trace))

(* progress: keys and edits for a while, frames for ever *)
LiveNext == \/ Len(trace) < Conf.len /\ EnumNext
            \/ Draw /\ UNCHANGED <<id, trace>>
LiveSpec == EnumInit /\ [][LiveNext]_mcvars /\ WF_mcvars(Draw /\ UNCHANGED <<id, trace>>)
Taken == wanted ~> (~wanted \/ ~open)
KeyObeyed == redraw ~> (~redraw \/ ~open)

(* recorded traces: is there a behaviour that shows them? *)
Pic(t) == IF t = 0 THEN 0 ELSE Conf.pics[t]
TraceInit == \E j \in 1..Len(Cases) : id = j /\ trace = Cases[j].trace /\ LStart(Cases[j].first, Conf.writable)
Observed(e) ==
  CASE e.k = "type" -> Edit(e.t)
    [] e.k = "press" -> Push
    [] e.k = "frame" -> /\ Draw /\ (shown'[1] = 0 \/ Pic(shown'[1]) = e.p)
                        /\ e.n = 1 /\ e.s = (IF Writes THEN "shot" ELSE "none")
    [] e.k = "key" -> /\ Key([n |-> e.n, ctrl |-> e.ctrl, down |-> e.down])
                      /\ (Submits(e) \/ Shoots(e)) => e.r
    [] e.k = "place" -> IF Conf.shots THEN Place ELSE UNCHANGED lvars
    [] OTHER -> Destroy(e.err)
TraceNext == /\ trace # <<>> /\ Observed(trace[1])
             /\ open' = trace[1].o /\ result' = trace[1].res
             /\ trace' = Tail(trace) /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_mcvars
TraceReport == PrintT("RES " \o ToJson([i |-> id, left |-> Len(trace)]))
=============================================================================
