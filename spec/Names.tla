------------------------------- MODULE Names -------------------------------
(* Resolving the name of a symbol to its code point.                        *)
(*                                                                          *)
(* A name is a sequence of code points; numbers from NotChar up stand for   *)
(* bytes that are not part of any character.  Table: the keys of the known  *)
(* names (without backslash) and their code points; the key of a name       *)
(* consists of its numbers, each after a dot.                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Table

RECURSIVE Key(_)
Key(n) == IF n = <<>> THEN "" ELSE Key(SubSeq(n, 1, Len(n) - 1)) \o "." \o ToString(n[Len(n)])
Known(n) == Key(n) \in DOMAIN Table
NotChar == 1114112
Backslash == 92
Hyphen == 45
Minus == 8722
Replacement == 65533      \* the mark of undecodable text: nothing is said about it
Refused == -1

VARIABLES v, math, phase, read, rest, result
vars == <<v, math, phase, read, rest, result>>

Begin(w, m) == v = w /\ math = m /\ phase = "new" /\ read = "" /\ rest = w /\ result = Refused
Answer(r) == result' = r /\ phase' = "done" /\ UNCHANGED <<v, math, read, rest>>

Empty == phase = "new" /\ rest = <<>> /\ Answer(Refused)
Single == /\ phase = "new" /\ Len(rest) = 1
          /\ Answer(IF rest[1] >= NotChar THEN Refused
                    ELSE IF math /\ rest[1] = Hyphen THEN Minus ELSE rest[1])
\* one backslash may be in front of a name, and only there
Strip == /\ phase = "new" /\ Len(rest) > 1
         /\ rest' = (IF rest[1] = Backslash THEN Tail(rest) ELSE rest)
         /\ phase' = "name" /\ UNCHANGED <<v, math, read, result>>
Read == /\ phase = "name" /\ rest # <<>>
        /\ read' = read \o "." \o ToString(rest[1]) /\ rest' = Tail(rest)
        /\ UNCHANGED <<v, math, phase, result>>
Lookup == /\ phase = "name" /\ rest = <<>>
          /\ Answer(IF read \in DOMAIN Table THEN Table[read] ELSE Refused)
Next == Empty \/ Single \/ Strip \/ Read \/ Lookup
Over == phase = "done"
\* membership is of the name itself, without backslash
Has == Known(v)

-----------------------------------------------------------------------------
(* C21 *)
KnownResolve == Over =>
  /\ (Len(v) > 1 /\ Known(v)) => result = Table[Key(v)]
  /\ (Len(v) > 1 /\ v[1] = Backslash /\ Known(Tail(v))) => result = Table[Key(Tail(v))]
CharactersThemselves == Over /\ Len(v) = 1 /\ v[1] < NotChar =>
  result = IF math /\ v[1] = Hyphen THEN Minus ELSE v[1]
ElseRefused == Over /\ result # Refused =>
  \/ Len(v) = 1 /\ v[1] < NotChar
  \/ Known(v)
  \/ Len(v) > 1 /\ v[1] = Backslash /\ Known(Tail(v))
\* what has been read is the name without the backslash in front
ReadsTheName == (phase = "name" /\ rest = <<>>) =>
  read = Key(IF v[1] = Backslash THEN Tail(v) ELSE v)
=============================================================================
