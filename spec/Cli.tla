--------------------------------- MODULE Cli ---------------------------------
(* The command-line tool: arguments, the output file, rendering (Render), the *)
(* image, the exit status.                                                    *)
(*                                                                            *)
(* An invocation is [args, files: name -> what can be done with that file].   *)
(* Arguments are given in units: [k "dpi", v: hundredths], [k "size", v: in   *)
(* units], [k "out", v: name], [k "bad"]: an option that is unknown or has    *)
(* an unusable value, [k "end"]: "--", [k "arg"]: neither.  n: how many words *)
(* the argument is written with; s: the source it is when taken as one.       *)
EXTENDS Render

VARIABLES inv, step, at, opts, operands, exit, wrote

clivars == <<inv, step, at, opts, operands, exit, wrote>>
Untouched == UNCHANGED <<allvars, sessvars>>
Arg == inv.args[at]

Defaults == [dpi |-> 7200, size |-> 12 * U, out |-> "out.png"]
Quit(code) == exit' = code /\ step' = "gone"

Option == /\ step = "options" /\ at <= Len(inv.args) /\ Arg.k \in {"dpi", "size", "out"}
          /\ opts' = [opts EXCEPT ![Arg.k] = Arg.v] /\ at' = at + 1
          /\ UNCHANGED <<inv, step, operands, exit, wrote>> /\ Untouched
BadOption == /\ step = "options" /\ at <= Len(inv.args) /\ Arg.k = "bad" /\ Quit(1)
             /\ UNCHANGED <<inv, at, opts, operands, wrote>> /\ Untouched
EndOfOptions == /\ step = "options" /\ (IF at > Len(inv.args) THEN TRUE ELSE Arg.k \in {"arg", "end"})
                /\ step' = "operands"
                /\ at' = IF at <= Len(inv.args) /\ Arg.k = "end" THEN at + 1 ELSE at
                /\ UNCHANGED <<inv, opts, operands, exit, wrote>> /\ Untouched
\* options after the first operand are operands too
Operands == /\ step = "operands"
            /\ operands' = SubSeq(inv.args, at, Len(inv.args))
            /\ step' = "create" /\ UNCHANGED <<inv, at, opts, exit, wrote>> /\ Untouched
RECURSIVE Words(_)
Words(as) == IF as = <<>> THEN 0 ELSE as[1].n + Words(Tail(as))
Create == /\ step = "create"
          /\ IF Words(operands) # 1 \/ inv.files[opts.out] \in {"absent", "folder"}
             THEN Quit(1) /\ Untouched
             ELSE /\ step' = "render" /\ UNCHANGED exit
                  /\ reqs' = <<[s |-> operands[1].s, z |-> opts.size, dpi |-> opts.dpi, fail |-> FALSE]>>
                  /\ rq' = 1 /\ stage' = "typeset" /\ calls' = <<>> /\ outs' = <<>>
                  /\ Begin(operands[1].s, opts.size)
          /\ UNCHANGED <<inv, at, opts, operands, wrote>>
Rendering == /\ step = "render" /\ ~ROver /\ RNext /\ UNCHANGED clivars
Call == outs[1].calls[1]
PixelsW == IF Call.w <= 0 THEN 0
           ELSE LET m == MD(Call.w, Call.dpi, 7200) IN Ceil(IF m[2] = 0 THEN m[1] ELSE m[1] + 1, U)
PixelsH == Ceil(Call.h * Call.dpi, 7200)
NoImage == outs[1].r = "invalid" \/ PixelsW = 0 \/ PixelsH <= 0
Finish_ == /\ step = "render" /\ ROver
           /\ IF NoImage \/ inv.files[opts.out] = "full"
              THEN Quit(1) /\ UNCHANGED wrote
              ELSE Quit(0) /\ wrote' = <<[name |-> opts.out, w |-> PixelsW, h |-> PixelsH, pw |-> Call.w, size |-> opts.size, dpi |-> opts.dpi]>>
           /\ UNCHANGED <<inv, at, opts, operands>> /\ Untouched
CNext == Option \/ BadOption \/ EndOfOptions \/ Operands \/ Create \/ Rendering \/ Finish_
CStart(v) == /\ inv = v /\ step = "options" /\ at = 1 /\ opts = Defaults /\ operands = <<>> /\ exit = -1 /\ wrote = <<>>
             /\ RStart(<<[s |-> <<>>, z |-> U, dpi |-> 7200, fail |-> FALSE]>>)
COver == step = "gone"

-----------------------------------------------------------------------------
(* Properties (C25) *)
\* a picture if and only if success
PictureIffSuccess == COver => ((exit = 0) = (wrote # <<>>))
\* success needs one expression, a valid one, and a file that takes the picture
SuccessDeserved == (COver /\ exit = 0) =>
   /\ Len(operands) = 1 /\ outs[1].r = "ok"
   /\ inv.files[wrote[1].name] = "fine"
\* the last option of a kind counts
LastCounts == COver /\ exit = 0 =>
  \A kd \in {"dpi", "size", "out"} :
    LET js == {j \in 1..at - 1 : inv.args[j].k = kd}
    IN opts[kd] = (IF js = {} THEN Defaults[kd] ELSE inv.args[CHOOSE j \in js : \A i \in js : i <= j].v)
=============================================================================
