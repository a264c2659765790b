------------------------------- MODULE Render -------------------------------
(* Rendering: a session of requests, each of which typesets a source (Mtex)  *)
(* and hands the drawing to a renderer, which may fail.                      *)
(*                                                                           *)
(* A request is [s: source, z: font size in units, dpi: twice the resolution,*)
(* fail: does the renderer fail].                                            *)
EXTENDS Mtex

VARIABLES reqs, rq,  \* the requests of the session and the current one
          stage,     \* "typeset" "page" "answer"
          calls,     \* calls of the renderer by the current request
          outs       \* outcomes of the requests so far

sessvars == <<reqs, rq, stage, calls, outs>>
Req == reqs[rq]

Ceil(a, b) == -((-a) \div b)

\* one source after another
Begin(s, size) ==
  LET b == IF Len(s) > 0 /\ s[1].c = Bom THEN 1 ELSE 0 IN
  /\ src' = s /\ z' = size
  /\ p' = 1 + b /\ off' = (IF b = 1 THEN s[1].n ELSE 0)
  /\ toks' = (IF b = 1 THEN <<[cls |-> "skip", p |-> 0, e |-> s[1].n]>> ELSE <<>>)
  /\ fstk' = <<F!Frame("top", 0)>> /\ st' = "run"
  /\ ph' = "parse" /\ lay' = Init0 /\ own' = <<>>
  /\ heap' = <<>> /\ prog' = <<>> /\ pc' = 1 /\ obs' = <<>> /\ sh' = NoShip

Typeset == /\ stage = "typeset" /\ ~MDone /\ MNext /\ UNCHANGED sessvars
Refused_ == /\ stage = "typeset" /\ ph = "err"     \* the renderer is not called
            /\ stage' = "answer"
            /\ UNCHANGED <<allvars, reqs, rq, calls, outs>>
Result == heap[Len(heap)]
CallRenderer ==
  /\ stage = "typeset" /\ ph = "ship" /\ pc > 1
  /\ calls' = Append(calls, [w |-> Result.w,                                   \* width, in units
                             h |-> Ceil(Result.h + Max(Result.d, 0), U),       \* height, in points
                             x |-> (Result.h + Max(Result.d, 0)) % U,
                             dpi |-> Req.dpi, dr |-> obs[1].dr, tie |-> obs[1].tie])
  /\ stage' = "answer"
  /\ UNCHANGED <<allvars, reqs, rq, outs>>
Answered == Append(outs, [r |-> IF calls = <<>> THEN "invalid" ELSE IF Req.fail THEN "failed" ELSE "ok",
                          calls |-> calls])
NextRequest ==
  /\ stage = "answer" /\ rq < Len(reqs)
  /\ outs' = Answered /\ rq' = rq + 1 /\ calls' = <<>> /\ stage' = "typeset"
  /\ Begin(reqs[rq + 1].s, reqs[rq + 1].z)
  /\ UNCHANGED reqs
LastRequest ==
  /\ stage = "answer" /\ rq = Len(reqs)
  /\ outs' = Answered /\ stage' = "over"
  /\ UNCHANGED <<allvars, reqs, rq, calls>>
RNext == Typeset \/ Refused_ \/ CallRenderer \/ NextRequest \/ LastRequest
RStart(rs) == /\ reqs = rs /\ rq = 1 /\ stage = "typeset" /\ calls = <<>> /\ outs = <<>>
              /\ MStart(rs[1].s, rs[1].z)
ROver == stage = "over"

-----------------------------------------------------------------------------
(* Properties (C18) *)
CalledOnce == \A i \in 1..Len(outs) : Len(outs[i].calls) = (IF outs[i].r = "invalid" THEN 0 ELSE 1)
FailureTold == \A i \in 1..Len(outs) : outs[i].calls # <<>> => ((outs[i].r = "failed") = reqs[i].fail)
\* the page holds the drawing's height, and not a point more
PageHeight == \A i \in 1..Len(outs) : \A j \in 1..Len(outs[i].calls) :
   LET q == outs[i].calls[j] IN q.dpi = reqs[i].dpi /\ (q.x # 0 => q.x < U)
\* neither the resolution nor what came before matters
SameDrawing == \A i, j \in 1..Len(outs) :
  (reqs[i].s = reqs[j].s /\ reqs[i].z = reqs[j].z /\ outs[i].calls # <<>>) =>
    /\ outs[j].calls # <<>>
    /\ outs[i].calls[1].dr = outs[j].calls[1].dr
    /\ outs[i].calls[1].w = outs[j].calls[1].w /\ outs[i].calls[1].h = outs[j].calls[1].h
=============================================================================
