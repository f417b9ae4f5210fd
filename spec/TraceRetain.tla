---------------------------- MODULE TraceRetain ----------------------------
(***************************************************************************)
(* Validates what was seen of memory after histories of Retain.tla.  An    *)
(* event of a history:                                                     *)
(*   hist   its steps                                                      *)
(*   seen   for each of its collections: the generations of which some     *)
(*          allocation was still there, in order                           *)
(*   loose  for each: how many allocations were there that nothing the     *)
(*          client holds leads to                                          *)
(*   err    "panic" if a call panicked                                     *)
(* and of calls that differ in whatever calls can differ in, and whose     *)
(* results are dropped:                                                    *)
(*   shape  what they are      rounds  how many there were                 *)
(*   kb     live memory after some rounds, and after each of the others    *)
(*   go     goroutines then                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)

VARIABLES l, bad

R == INSTANCE Retain WITH Depth <- 0, Keep <- "nothing", Emit <- FALSE, st <- 0, hist <- <<>>

\* the states of the client after each collection
RECURSIVE Run(_, _, _)
Run(s, h, out) ==
  IF h = <<>> THEN out
  ELSE LET s2 == R!After(s, Head(h)) IN Run(s2, Tail(h), IF Head(h).op = "gc" THEN Append(out, s2) ELSE out)

\* memory may move between size classes, and the runtime has its own
Slack == 48

Ok(c, e) ==
  IF e.op = "heap"
  THEN CASE c = "steady" -> \A i \in 1..Len(e.kb) : e.kb[i] <= e.kb[1] + Slack
         [] c = "idle"   -> \A i \in 1..Len(e.go) : e.go[i] <= e.go[1]
         [] c = "panic"  -> e.err = ""
         [] OTHER -> TRUE
  ELSE LET ss == Run(R!Start, e.hist, <<>>) IN
       CASE c = "panic" -> e.err = ""
         [] c = "freed" -> Len(e.seen) = Len(ss) /\ \A i \in 1..Len(ss) :
                             \A j \in 1..Len(e.seen[i]) : e.seen[i][j] \in R!Held(ss[i])
         [] c = "loose" -> \A i \in 1..Len(e.loose) : e.loose[i] = 0
         [] OTHER -> TRUE

Clauses == {"panic", "freed", "loose", "steady", "idle"}

Init == l = 0 /\ bad = {}
Next == /\ l < N
        /\ l' = l + 1
        /\ LET e == Trace[l+1] IN
           bad' = {c \in Clauses : ~Ok(c, e)}
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"BAD", ToString(bad'), "line", l+1, "session", l+1>>)
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
