------------------------------- MODULE Oneof -------------------------------
(***************************************************************************)
(* A oneof of an emitted message, as its client sees it: the message holds *)
(* at most one member; the client replaces it, removes it, drops the       *)
(* message or makes a new one, and reads through the accessors only.       *)
(* Accessors exist for the oneof (GetO) and for each member (GetX).        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS Members, Depth, Emit

VARIABLES st,     \* [live, which, val]
          hist
vars == <<st, hist>>

New   == [live |-> TRUE, which |-> 0, val |-> <<>>]
NoMsg == [live |-> FALSE, which |-> 0, val |-> <<>>]

After(s, o, i, v) ==
  CASE o = "set"  -> [s EXCEPT !.which = i, !.val = << v >>]
    [] o = "drop" -> NoMsg
    [] OTHER      -> New              \* clear, make

\* What the accessors say: which member there is, and each member's value.
GetOneof(s)        == s.which
Get(s, i, default) == IF s.which = i THEN s.val[1] ELSE default

Do(o, i, v) == st' = After(st, o, i, v) /\ hist' = Append(hist, [op |-> o, m |-> i, v |-> v])
Set(i, v) == st.live /\ Do("set", i, v)
Clear     == st.live /\ st.which # 0 /\ Do("clear", 0, "")
Drop      == st.live /\ Do("drop", 0, "")
Make      == ~st.live /\ Do("make", 0, "")

Init == st = New /\ hist = <<>>
Next == Len(hist) < Depth /\ (Clear \/ Drop \/ Make \/ \E i \in 1..Members, v \in {"zero", "some"} : Set(i, v))
Spec == Init /\ [][Next]_vars

OnlyOne == Cardinality({i \in 1..Members : Get(st, i, "default") # "default"}) <= 1
Told    == \A i \in 1..Members : Get(st, i, "default") # "default" <=> GetOneof(st) = i
Nil     == ~st.live => GetOneof(st) = 0

Printed == (Emit /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson(hist))
=============================================================================
