----------------------------- MODULE TraceCost -----------------------------
(***************************************************************************)
(* Measured calls of Size and Marshal, and first and second uses of types, *)
(* judged with the bounds of EncodeCost.                                   *)
(*                                                                         *)
(* An event says what was called (op), for which family of values (shape)  *)
(* and which member of it (reps: elements, levels, messages or layers of   *)
(* types; always doubling within a family), how deep the value is, how     *)
(* long its encoding is, how many elements the encoding decodes to         *)
(* (count), what Size said, what was allocated (KB), how long it took and  *)
(* how many statements of the library were executed (0: not counted).      *)
(* Values that EncodeCost printed come with the visits it needed (work).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)

VARIABLES l, bad, unit

\* EncodeCost!AllocBound(out) in KB, with what the levels below one another need
KBBound(e) ==
  IF e.op \in {"first", "again"} THEN 64 + 8 * e.out \* out: the fields that are declared
  ELSE 64 + e.out \div 256 + (e.depth * e.depth) \div 2
MSBound(e) == 1000 + e.out \div 100 + e.depth * e.depth

\* EncodeCost!Work in units of what a value of one message takes (two visits)
Visits(e) == e.work > 0 => (e.reps = 1 \/ 2 * e.steps <= 3 * e.work * unit[<<e.op, e.shape>>])

Ok(e) ==
  /\ e.err = ""
  /\ e.count = e.reps
  /\ e.op = "marshal" => e.size = e.out
  /\ e.kb <= KBBound(e)
  /\ e.ms <= MSBound(e)
  /\ e.reps = 1 /\ e.depth = 1 => e.steps <= 5000 + 50 * e.out

\* twice as many of what is beside each other takes twice the steps; twice
\* as many levels take at most four times as many, since sizes are computed
\* at every level
Doubles(d, e) ==
  (d.op = e.op /\ d.shape = e.shape /\ e.reps = 2 * d.reps) =>
    /\ e.kb <= (IF e.depth > 1 THEN 5 ELSE 3) * d.kb + 64
    /\ 2 * e.steps <= (IF e.depth > 1 THEN 9 ELSE 5) * d.steps + 1000

\* a call takes what it takes, whatever other types are known
Same(e) == e.op = "same" /\ <<e.op, e.shape>> \in DOMAIN unit => 2 * e.steps <= 3 * unit[<<e.op, e.shape>>] + 200

\* the last event of the same operation on the same family
Before(e, i) == LET S == {j \in 1..4 : i > j /\ Trace[i-j].op = e.op /\ Trace[i-j].shape = e.shape}
                IN IF S = {} THEN e ELSE Trace[i - (CHOOSE j \in S : \A k \in S : j <= k)]

Init == l = 0 /\ bad = {} /\ unit = <<>>
Next == /\ l < N
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN
           /\ unit' = IF <<e.op, e.shape>> \in DOMAIN unit THEN unit
                      ELSE [x \in DOMAIN unit \cup {<<e.op, e.shape>>} |->
                              IF x \in DOMAIN unit THEN unit[x] ELSE e.steps]
           /\ bad' = (IF Ok(e) THEN {} ELSE {"cost"}) \cup
                     (IF Doubles(Before(e, l+1), e) THEN {} ELSE {"growth"}) \cup
                     (IF Visits(e) THEN {} ELSE {"visits"}) \cup
                     (IF Same(e) THEN {} ELSE {"same"})
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"BAD", ToString(bad'), "line", l+1, "session", l+1>>)
Spec == Init /\ [][Next]_<<l, bad, unit>>
=============================================================================
