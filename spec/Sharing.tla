------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* Codecs shared between fields.  One Go type (such as []int32) can be     *)
(* declared with several wire encodings 1..NE.  A message type is the      *)
(* sequence of encodings its fields of that Go type declare.  Analysing a  *)
(* field takes the codec filed under its key, or makes one and files it.   *)
(*   Key = "declared"  the key tells encodings apart                       *)
(*   Key = "gotype"    the key is the Go type alone (what the library did  *)
(*                     before it was repaired; TLC finds the wrong codec)  *)
(* A history is a sequence of first uses of types in one process.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NE, MaxUses, Key, Emit

VARIABLES cache,    \* key -> encoding of the codec filed there (0: none)
          hist,     \* the types used
          wrote     \* for every use, the encodings its fields were written in

vars == <<cache, hist, wrote>>

Asc  == [i \in 1..NE |-> i]
Desc == [i \in 1..NE |-> NE + 1 - i]
Types == [i \in 1..NE |-> <<i>>] \o (IF NE > 1 THEN <<Asc, Desc>> ELSE <<>>)

KeyOf(e) == IF Key = "gotype" THEN 1 ELSE e

RECURSIVE Analyse(_, _)      \* <<cache, encodings>> after the fields of q
Analyse(c, q) ==
  IF q = <<>> THEN <<c, <<>>>>
  ELSE LET e == Head(q)
           w == IF c[KeyOf(e)] = 0 THEN e ELSE c[KeyOf(e)]
           r == Analyse([c EXCEPT ![KeyOf(e)] = w], Tail(q))
       IN <<r[1], <<w>> \o r[2]>>

Init == cache = [k \in 1..NE |-> 0] /\ hist = <<>> /\ wrote = <<>>
Next == /\ Len(hist) < MaxUses
        /\ \E t \in 1..Len(Types) :
             /\ \A i \in 1..Len(hist) : hist[i] # t
             /\ LET r == Analyse(cache, Types[t]) IN
                cache' = r[1] /\ hist' = Append(hist, t) /\ wrote' = Append(wrote, r[2])
Spec == Init /\ [][Next]_vars

\* The encoding of a field is the declared one, whatever came before.
AsDeclared == \A i \in 1..Len(hist) : wrote[i] = Types[hist[i]]

Printed == (Emit /\ Len(hist) > 0 /\ (Len(hist) = MaxUses \/ Len(hist) = Len(Types))) =>
             PrintT("HIST " \o ToJson([ne |-> NE, hist |-> hist]))
=============================================================================
