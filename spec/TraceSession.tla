---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Validates executions recorded from the real library against the         *)
(* specification.  A trace is many sessions; each starts with an empty     *)
(* client state: messages (obj) and byte slices (buf) the client holds.    *)
(* Every event logs the operation, its outcome, and every message and      *)
(* slice whose projection changed (co, cb), so the whole state after each  *)
(* call is known and nothing is guessed.                                   *)
(*                                                                         *)
(* A clause names one thing the specification demands of an event; Focus   *)
(* picks the clauses that together state one property.  bad is the set of  *)
(* clauses of Focus the event that led to this state violates: a trace is  *)
(* accepted iff Conforms holds in every state.                             *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
Cat   == ndJsonDeserialize(IOEnv.CATALOG)
N     == Len(Trace)

VARIABLES l,      \* line of the last event
          s,      \* line where the session started
          bad
vars == <<l, s, obj, buf, bad>>

X == [types |-> Cat[Trace[s].x].types, bl |-> Trace[s].bl]
TypeOf(t) == X.types[t]

Find(c, i) == LET S == {j \in 1..Len(c) : c[j][1] = i}
              IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

(* -------- the state after the event, as logged, with ghosts -------- *)
ObjAfter(e, i) ==
  LET j == Find(e.co, i)
      v == IF j = 0 THEN obj[i].v ELSE e.co[j][2]
  IN IF e.op = "new" /\ i = e.o
     THEN [t |-> e.t, v |-> v, fed |-> IF v = ZeroMsg(TypeOf(e.t)) THEN << <<>> >> ELSE <<>>]
     ELSE IF e.op = "hide" /\ i = e.f[1]
     THEN [t |-> obj[e.o].t, v |-> v, fed |-> <<>>]
     ELSE IF e.op = "unmarshal" /\ i = e.o
     THEN [t |-> obj[i].t, v |-> v,
           fed |-> IF e.err = "" THEN Fed(obj[i].fed, buf[e.b].r) ELSE <<>>]
     ELSE IF j = 0 THEN obj[i]
     ELSE [t |-> obj[i].t, v |-> v, fed |-> <<>>]

BufAfter(e, i) ==
  LET j == Find(e.cb, i)
      r == IF j = 0 THEN buf[i].r ELSE e.cb[j][2]
  IN IF e.op = "marshal" /\ i = e.b
     THEN [r |-> r, of |-> IF e.err = "" THEN <<obj[e.o].t, obj[e.o].v>> ELSE <<>>]
     ELSE IF j = 0 /\ ~(e.op \in {"buf", "cat"} /\ i = e.b) THEN buf[i]
     ELSE [r |-> r, of |-> <<>>]

(* ---------------------------- the clauses ---------------------------- *)
Crashes == {"panic", "crash", "hang"}

Allowed(e) ==                      \* what an operation may change
  CASE e.op \in {"new", "pokeobj", "trunc"} -> [o |-> {e.o}, b |-> {}]
    [] e.op \in {"buf", "cat", "pokebuf", "append"}   -> [o |-> {}, b |-> {e.b}]
    [] e.op = "hide"                        -> [o |-> {e.o, e.f[1]}, b |-> {}]
    [] e.op = "marshal"                     -> [o |-> {}, b |-> {e.b}]
    [] e.op = "unmarshal"                   -> [o |-> {e.o}, b |-> {}]
    [] OTHER                                -> [o |-> {}, b |-> {}]

OutOf(e) == LET j == Find(e.cb, e.b) IN IF j = 0 THEN buf[e.b].r ELSE e.cb[j][2]

\* What the bytes of a call mean by the wire rules (r below): what is fed to
\* Unmarshal, on top of what the message holds; what Marshal returned.
ReadAs(e) ==
  CASE e.op = "unmarshal" -> Decode(X, TypeOf(obj[e.o].t), buf[e.b].r, obj[e.o].v)
    [] e.op = "marshal"   -> Decode(X, TypeOf(obj[e.o].t), OutOf(e), ZeroMsg(TypeOf(obj[e.o].t)))
    [] OTHER              -> <<>>

MarshalOk(c, e, r) ==
  LET T   == TypeOf(obj[e.o].t)
      v   == obj[e.o].v
      out == OutOf(e)
  IN CASE c \in {"panic", "mpanic"} -> e.err \notin Crashes
       [] c = "merr"     -> e.err = ""
       [] e.err # ""     -> TRUE
       [] c = "size"     -> e.size = RopeLen(X, out) /\ e.size2 = e.size
       [] c = "sizespec" -> e.size = SizeMsg(X, T, v)
       [] c = "enc"      -> EncodingAs(X, T, v, out, r)
       [] c = "encparse" -> ParsesAs(X, T, v, r)
       [] c = "encpres"  -> PresentAs(X, T, v, r)
       [] OTHER          -> TRUE

UnmarshalOk(c, e, r) ==
  LET t    == obj[e.o].t
      T    == TypeOf(t)
      old  == obj[e.o].v
      j    == Find(e.co, e.o)
      new  == IF j = 0 THEN old ELSE e.co[j][2]
      b    == buf[e.b].r
      fed  == Fed(obj[e.o].fed, b)
  IN CASE c = "panic"  -> e.err \notin Crashes
       [] c = "alloc"  -> e.kb <= 512 + e.n
       [] c = "roundtrip" ->
            (buf[e.b].of # <<>> /\ buf[e.b].of[1] = t /\ old = ZeroMsg(T))
            => (e.err = "" /\ SameMsg(X, T, new, buf[e.b].of[2]))
       [] c = "concat" ->   \* same bytes fed, in any number of pieces: same message
            (e.err = "" /\ fed # <<>>)
            => \A i \in DOMAIN obj : (i # e.o /\ obj[i].t = t /\ obj[i].fed = fed)
                                     => SameMsg(X, T, new, obj[i].v)
       [] c = "concatok" -> \* accepted in pieces: accepted as a whole
            (fed # <<>> /\ \E i \in DOMAIN obj : i # e.o /\ obj[i].t = t /\ obj[i].fed = fed)
            => e.err = ""
       [] r.e = "split" -> TRUE
       [] c = "accept" -> r.e = "" => e.err = ""
       [] c = "reject" -> r.e # "" => e.err # ""
       [] c = "class"  -> (r.e # "" /\ e.err # "") => e.err = r.e
       [] c = "chain"  -> (r.e # "" /\ e.err # "") => e.ch = r.ch
       [] c = "partial" -> \* a call that fails has applied what came before
            (r.e # "" /\ e.err # "") => SameMsg(X, T, new, r.m)
       [] c = "value"  -> (r.e = "" /\ e.err = "") => SameMsg(X, T, new, r.m)
       [] c = "decpres" -> (r.e = "" /\ e.err = "") => Presence(X, T, new) = Presence(X, T, r.m)
       [] OTHER        -> TRUE

Ok(c, e, r) ==
  CASE c = "frame" -> /\ \A i \in DOMAIN obj : i \in Allowed(e).o \/ Find(e.co, i) = 0
                      /\ \A i \in DOMAIN buf : i \in Allowed(e).b \/ Find(e.cb, i) = 0
                      /\ e.op = "marshal" => e.kept    \* nor moved anything in memory
    [] c = "aux"   -> e.aux
    [] c = "made"  -> e.op = "new" => \* the accessors show what the constructors were given
                        SameMsg(X, TypeOf(e.t), IF Find(e.co, e.o) = 0 THEN <<>> ELSE e.co[Find(e.co, e.o)][2], e.w)
    [] c = "expect" -> e.op = "expect" => SameMsg(X, TypeOf(obj[e.o].t), obj[e.o].v, e.w)
    [] e.op = "bad"       -> c = "rejected" => e.err = "rejected"
    [] e.op = "many"      -> \* many equal calls have one outcome
                             CASE c = "panic" -> e.err \notin Crashes
                               [] c = "steady" -> e.err = "" => e.same
                               [] OTHER -> TRUE
    [] e.op = "marshal"   -> MarshalOk(c, e, r)
    [] e.op = "unmarshal" -> UnmarshalOk(c, e, r)
    [] e.op = "crash"     -> c \notin {"panic", "mpanic"}
    [] OTHER              -> TRUE

(* ------------------------------ behaviour ------------------------------ *)
Init == /\ l \in {i \in 1..N : Trace[i].op = "start"}
        /\ s = l
        /\ obj = [i \in 1..4 |-> NoObj]
        /\ buf = [i \in 1..4 |-> NoBuf]
        /\ bad = {}

Next == /\ l < N
        /\ Trace[l+1].op # "start"
        /\ LET e == Trace[l+1]
               r == ReadAs(e) IN
           /\ obj' = IF e.op = "crash" THEN obj ELSE [i \in 1..4 |-> ObjAfter(e, i)]
           /\ buf' = IF e.op = "crash" THEN buf ELSE [i \in 1..4 |-> BufAfter(e, i)]
           /\ bad' = {c \in Focus : ~Ok(c, e, r)}
           /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"BAD", ToString(bad'), "line", l+1, "session", Trace[s].sid>>)
        /\ l' = l + 1
        /\ UNCHANGED s

Spec == Init /\ [][Next]_vars

Conforms == bad = {}
=============================================================================
