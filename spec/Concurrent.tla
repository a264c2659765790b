---------------------------- MODULE Concurrent ----------------------------
(* Goroutines that call the library at the same time.                       *)
(*                                                                          *)
(* Prog: goroutine -> sequence of calls [r: what the call gives alone,      *)
(* set: the font set it obtains, or "" if it uses none that is loaded on    *)
(* demand].  A call begins, may have to load its font set or wait until     *)
(* another call has loaded it, and ends.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sets

VARIABLES Prog,    \* (fixed by the initial state)
          pc,      \* goroutine -> number of its current or next call
          busy,    \* goroutine -> whether it is inside that call
          fonts,   \* set -> "no", the goroutine that is loading it, or "yes"
          loads,   \* set -> how often loading began
          got,     \* goroutine -> results so far
          hist     \* beginnings (0) and ends (1): <<goroutine, 0 or 1>>
vars == <<Prog, pc, busy, fonts, loads, got, hist>>

G == DOMAIN Prog
Call(g) == Prog[g][pc[g]]
Start(p) == /\ Prog = p /\ pc = [g \in DOMAIN p |-> 1] /\ busy = [g \in DOMAIN p |-> FALSE]
            /\ fonts = [s \in Sets |-> "no"] /\ loads = [s \in Sets |-> 0]
            /\ got = [g \in DOMAIN p |-> <<>>] /\ hist = <<>>

Begin(g) == /\ ~busy[g] /\ pc[g] <= Len(Prog[g])
            /\ busy' = [busy EXCEPT ![g] = TRUE] /\ hist' = Append(hist, <<g, 0>>)
            /\ UNCHANGED <<Prog, pc, fonts, loads, got>>
Needs(g) == IF busy[g] THEN Call(g).set ELSE ""
\* the first that needs a set loads it; the others wait
Load(g) == /\ Needs(g) # "" /\ fonts[Needs(g)] = "no"
           /\ fonts' = [fonts EXCEPT ![Needs(g)] = "loading"] /\ loads' = [loads EXCEPT ![Needs(g)] = @ + 1]
           /\ UNCHANGED <<Prog, pc, busy, got, hist>>
Loaded(s) == /\ fonts[s] = "loading" /\ fonts' = [fonts EXCEPT ![s] = "yes"]
             /\ UNCHANGED <<Prog, pc, busy, loads, got, hist>>
End(g) == /\ busy[g] /\ (Needs(g) # "" => fonts[Needs(g)] = "yes")
          /\ got' = [got EXCEPT ![g] = Append(@, Call(g).r)]
          /\ busy' = [busy EXCEPT ![g] = FALSE] /\ pc' = [pc EXCEPT ![g] = @ + 1]
          /\ hist' = Append(hist, <<g, 1>>) /\ UNCHANGED <<Prog, fonts, loads>>
Step(g) == Begin(g) \/ Load(g) \/ End(g)
Next == (\E g \in G : Step(g)) \/ (\E s \in Sets : Loaded(s))
Over == \A g \in G : ~busy[g] /\ pc[g] > Len(Prog[g])

-----------------------------------------------------------------------------
(* C23 *)
\* what a goroutine gets is what it would get alone
AsAlone == \A g \in G : \A k \in 1..Len(got[g]) : got[g][k] = Prog[g][k].r
LoadedOnce == \A s \in Sets : loads[s] <= 1
\* a call that uses a set ends only after the set is complete
NeverPartial == \A g \in G : \A k \in 1..Len(got[g]) : Prog[g][k].set # "" => fonts[Prog[g][k].set] = "yes"
\* nobody waits for ever
NoDeadlock == Over \/ ENABLED Next
Ends == <>Over
Fairness == WF_vars(Next)
=============================================================================
