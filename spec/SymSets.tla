------------------------------ MODULE SymSets ------------------------------
(* Sets of symbols and those who use them: sets are built from slices the   *)
(* caller keeps, united, listed and changed, in any order.  Symbols are     *)
(* numbers in the order of their names.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fixed,   \* the contents of the sets that are there from the start
          Spaced,  \* which of them are those of spaced symbols (indices)
          Universe

VARIABLES heap,    \* the contents of all sets
          slices,  \* the slices callers hold: inputs and listings
          log      \* what has been done: <<operation, answer>>
vars == <<heap, slices, log>>
Start == heap = Fixed /\ slices = <<>> /\ log = <<>>

ToSet(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
\* a union of sets, by index
Union(ids) == UNION {heap[ids[j]] : j \in 1..Len(ids)}
Done(op, a) == log' = Append(log, [op |-> op, a |-> a])
NoAnswer == <<>>

New(op) == heap' = Append(heap, ToSet(op.l)) /\ slices' = Append(slices, op.l) /\ Done(op, NoAnswer)
Unite(op) == heap' = Append(heap, Union(op.l)) /\ UNCHANGED slices /\ Done(op, NoAnswer)
List(op) == /\ slices' = Append(slices, Sorted(heap[op.i])) /\ UNCHANGED heap /\ Done(op, Sorted(heap[op.i]))
Ask(op) == UNCHANGED <<heap, slices>> /\ Done(op, IF op.e \in heap[op.i] THEN <<1>> ELSE <<0>>)
Put(op) == heap' = [heap EXCEPT ![op.i] = @ \cup {op.e}] /\ UNCHANGED slices /\ Done(op, NoAnswer)
Drop(op) == heap' = [heap EXCEPT ![op.i] = @ \ {op.e}] /\ UNCHANGED slices /\ Done(op, NoAnswer)
\* the holder of a slice writes over it
Scribble(op) == slices' = [slices EXCEPT ![op.i] = [j \in 1..Len(@) |-> op.e]] /\ UNCHANGED heap /\ Done(op, NoAnswer)
AskSpaced(op) == UNCHANGED <<heap, slices>> /\
  Done(op, IF \E j \in 1..Len(Spaced) : op.e \in Fixed[Spaced[j]] THEN <<1>> ELSE <<0>>)

\* an operation makes sense: what it refers to exists, and the sets of the
\* package are not changed
Sensible(op) ==
  CASE op.op = "new" -> TRUE
    [] op.op = "union" -> \A j \in 1..Len(op.l) : op.l[j] <= Len(heap)
    [] op.op \in {"keys", "has"} -> op.i <= Len(heap)
    [] op.op \in {"put", "drop"} -> op.i > Len(Fixed) /\ op.i <= Len(heap)
    [] op.op = "scribble" -> op.i <= Len(slices)
    [] OTHER -> TRUE
Do(op) == CASE op.op = "new" -> New(op) [] op.op = "union" -> Unite(op) [] op.op = "keys" -> List(op)
            [] op.op = "has" -> Ask(op) [] op.op = "put" -> Put(op) [] op.op = "drop" -> Drop(op)
            [] op.op = "scribble" -> Scribble(op) [] op.op = "spaced" -> AskSpaced(op)

-----------------------------------------------------------------------------
(* C24 *)
\* a set is what it was made of, as changed by its own changes only
RECURSIVE Made(_, _)
\* contents of all sets, replayed from the log
Made(h, l) ==
  IF l = <<>> THEN h
  ELSE LET o == l[1].op IN
       Made(CASE o.op = "new" -> Append(h, ToSet(o.l))
              [] o.op = "union" -> Append(h, UNION {h[o.l[j]] : j \in 1..Len(o.l)})
              [] o.op = "put" -> [h EXCEPT ![o.i] = @ \cup {o.e}]
              [] o.op = "drop" -> [h EXCEPT ![o.i] = @ \ {o.e}]
              [] OTHER -> h, Tail(l))
OnlyOwnChanges == heap = Made(Fixed, log)
FixedStay == \A j \in 1..Len(Fixed) : heap[j] = Fixed[j]
ListingsSorted == \A k \in 1..Len(log) : log[k].op.op = "keys" =>
  LET a == log[k].a IN \A j \in 1..Len(a) - 1 : a[j] < a[j + 1]
UnionExact == log # <<>> /\ log[Len(log)].op.op = "union" =>
  LET o == log[Len(log)].op IN
  \A e \in Universe : e \in heap[Len(heap)] <=> \E j \in 1..Len(o.l) : e \in heap[o.l[j]]
=============================================================================
