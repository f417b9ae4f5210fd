----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* Cost of decoding.  The trace is a list of measured decodes of inputs    *)
(* that grow: the same shape of input with 1, 2, 4, ... repetitions.  An   *)
(* event says how many repetitions, how many input bytes, how the call     *)
(* ended, how many elements the message then had, how many KB the call     *)
(* allocated in total, how long it took (the smallest of a few runs) and   *)
(* how many statements of the library it executed (0: not counted).        *)
(*                                                                         *)
(* Specified: the call succeeds, the elements are there, allocation is at  *)
(* most proportional to the input (a fixed part, and PerByte KB per 1000   *)
(* bytes), and so is time (a generous constant that no linear decoder      *)
(* needs and that no quadratic one can keep for the largest inputs).       *)
(* For inputs that claim lengths they do not have, the call must fail and  *)
(* keep the same bounds.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)

VARIABLES l, bad

FixedKB == 64
\* KB allocated per 1000 bytes of input.  One byte of input can ask for at
\* most an element of half the struct of its type (two bytes: tag, length
\* 0), a map entry likewise, plus growing the slice or map that holds it.
PerByte == 200

KBBound(e) == FixedKB + (e.bytes \div 1000 + 1) * PerByte
MSBound(e) == 1000 + e.bytes \div 100

Ok(e) ==
  /\ e.err \notin {"panic", "crash", "hang"}
  /\ (e.want = "accept") => (e.err = "" /\ e.count = e.reps)
  /\ (e.want = "reject") => (e.err \notin {""})
  /\ e.kb <= KBBound(e)
  /\ e.ms <= MSBound(e)

\* Doubling the input at most triples what is allocated (growing a slice
\* by doubling copies at most everything once more).
\* At most twice as many statements are executed for it, and some.
Doubles(d, e) ==
  (d.shape = e.shape /\ e.reps = 2 * d.reps) =>
    /\ e.kb > 1024 => e.kb <= 3 * d.kb + FixedKB
    /\ 2 * e.steps <= 5 * d.steps + 1000

Init == l = 0 /\ bad = {}
Next == /\ l < N
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN
           bad' = (IF Ok(e) THEN {} ELSE {"cost"}) \cup
                  (IF l > 0 /\ ~Doubles(Trace[l], e) THEN {"growth"} ELSE {})
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"BAD", ToString(bad'), "line", l+1, "session", l+1>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
