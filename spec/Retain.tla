------------------------------- MODULE Retain -------------------------------
(***************************************************************************)
(* Who keeps memory alive.  A client holds two messages, two byte slices   *)
(* and the last error, each of them made of generations: what one step     *)
(* allocated.  A step may make a thing, add to it or let go of it.  When   *)
(* memory is collected, what the client still holds is left and nothing    *)
(* else: the library holds no message, no input, no output and no error,   *)
(* and none of them leads to another.                                      *)
(*                                                                         *)
(* Keep says what the library holds on to:                                 *)
(*   "nothing"   the design                                                *)
(*   "message"   the message it saw last                                   *)
(*   "input"     messages point into the inputs they came from             *)
(*   "output"    outputs share memory with the output before               *)
(*   "cause"     errors refer to the message that was being decoded        *)
(* TLC must find fault with each of the others.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Keep, Emit

VARIABLES st,     \* what the client holds and what is in memory
          hist
vars == <<st, hist>>

Handles == {"m1", "m2", "b1", "b2", "e"}
M(o) == IF o = 1 THEN "m1" ELSE "m2"
B(b) == IF b = 1 THEN "b1" ELSE "b2"

Op(name, o, b) == [op |-> name, o |-> o, b |-> b]
\* the client begins with a message and an input, made by steps 1 and 2
Start == [held |-> [h \in Handles |-> CASE h = "m1" -> {1} [] h = "b1" -> {2} [] OTHER -> {}],
          bad  |-> [b \in {"b1", "b2"} |-> FALSE],
          n    |-> 2]

\* what the client holds after a step; n counts the steps
After(s, e) ==
  LET m == M(e.o) b == B(e.b) k == s.n + 1
      on(h, x) == [s.held EXCEPT ![h] = x]
      next(held, bad) == [held |-> held, bad |-> bad, n |-> k] IN
  CASE e.op = "new"    -> next(on(m, {k}), s.bad)
    [] e.op = "input"  -> next(on(b, {k}), [s.bad EXCEPT ![b] = FALSE])
    [] e.op = "broken" -> next(on(b, {k}), [s.bad EXCEPT ![b] = TRUE])
    [] e.op = "decode" -> next([on(m, s.held[m] \cup {k}) EXCEPT !["e"] = IF s.bad[b] THEN {k} ELSE {}], s.bad)
    [] e.op = "encode" -> next(on(b, {k}), [s.bad EXCEPT ![b] = FALSE])
    [] e.op = "refuse" -> next(on("e", {k}), s.bad)
    [] e.op = "size"   -> next(s.held, s.bad)
    [] e.op = "drop"   -> next(on(m, {}), s.bad)
    [] e.op = "free"   -> next(on(b, {}), s.bad)
    [] e.op = "forget" -> next(on("e", {}), s.bad)
    [] e.op = "gc"     -> next(s.held, s.bad)
Held(s) == UNION {s.held[h] : h \in Handles}

\* steps that mean something
Can(s, e) ==
  LET m == M(e.o) b == B(e.b) IN
  CASE e.op \in {"new", "input", "broken"} -> TRUE
    [] e.op = "decode" -> s.held[m] # {} /\ s.held[b] # {}
    [] e.op = "encode" -> s.held[m] # {}
    [] e.op = "refuse" -> s.held[m] # {} /\ s.held[b] # {}
    [] e.op = "size"   -> s.held[m] # {}
    [] e.op = "drop"   -> s.held[m] # {}
    [] e.op = "free"   -> s.held[b] # {}
    [] e.op = "forget" -> s.held["e"] # {}
    [] OTHER -> TRUE

Ops ==
  {Op(n, o, 0) : n \in {"new", "size", "drop"}, o \in 1..2}
  \cup {Op(n, 0, b) : n \in {"input", "broken", "free"}, b \in 1..2}
  \cup {Op(n, o, b) : n \in {"decode", "encode"}, o \in 1..2, b \in 1..2}
  \cup {Op("refuse", 1, 1), Op("forget", 0, 0), Op("gc", 0, 0)}

(* ------------------------------- memory ------------------------------- *)
\* st.mem: generations in memory; st.lib: what the library holds;
\* st.ref: <<a, b>> where memory of a refers to b
RECURSIVE Reach(_, _)
Reach(S, R) == LET T == S \cup {r[2] : r \in {q \in R : q[1] \in S}} IN IF T = S THEN S ELSE Reach(T, R)

Calls == {"decode", "encode", "refuse", "size"}
Memory(s, e, s2) ==
  LET k == s2.n m == M(e.o) b == B(e.b)
      lib == IF Keep = "message" /\ e.op \in Calls THEN s2.held[m] ELSE s.lib
      ref == s.ref \cup
        (IF Keep = "input" /\ e.op = "decode" THEN {<<k, g>> : g \in s2.held[b]} ELSE {}) \cup
        (IF Keep = "cause" /\ e.op = "decode" THEN {<<g, h>> : g \in s2.held["e"], h \in s2.held[m]} ELSE {}) \cup
        (IF Keep = "output" /\ e.op = "encode" /\ s.out # 0 THEN {<<k, s.out>>, <<s.out, k>>} ELSE {})
      mem == s.mem \cup {k}
  IN [lib |-> lib, ref |-> ref, out |-> IF e.op = "encode" THEN k ELSE s.out,
      mem |-> IF e.op = "gc" THEN mem \cap Reach(Held(s2) \cup lib, ref) ELSE mem]
Fresh == [lib |-> {}, ref |-> {}, out |-> 0, mem |-> {1, 2}]

Both(a, b) == [held |-> a.held, bad |-> a.bad, n |-> a.n, lib |-> b.lib, ref |-> b.ref, out |-> b.out, mem |-> b.mem]

Init == st = Both(Start, Fresh) /\ hist = <<>>
Last == hist[Len(hist)].op
Next ==
  /\ IF Len(hist) < Depth THEN TRUE ELSE Len(hist) = Depth /\ Last # "gc"
  /\ \E e \in (IF Len(hist) < Depth THEN Ops ELSE {Op("gc", 0, 0)}) :
       /\ Can(st, e)
       /\ e.op = "gc" => hist # <<>> /\ Last # "gc"
       /\ hist' = Append(hist, e)
       /\ LET s2 == After(st, e) IN st' = Both(s2, Memory(st, e, s2))
Spec == Init /\ [][Next]_vars

\* after a collection, memory is what the client holds
Freed == (hist # <<>> /\ Last = "gc") => st.mem \subseteq Held(st)
\* and all of it
Safe  == Held(st) \subseteq st.mem
Idle  == st.lib = {}

Printed == (Emit /\ hist # <<>> /\ Last = "gc" /\ Len(hist) >= Depth) => PrintT("CASE " \o ToJson(hist))
=============================================================================
