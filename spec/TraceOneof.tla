----------------------------- MODULE TraceOneof -----------------------------
(***************************************************************************)
(* Validates what the accessors of emitted oneofs said. A session starts   *)
(*   [op "start", k, i, p, o, sid]   the oneof o of the message p of file  *)
(*                                   i of set k, in a new message          *)
(* and goes on with the operations of Oneof.tla, each with                 *)
(*   m, v    the member (its place in the oneof) and value that was set    *)
(*   one     what GetO returned: 0 for nil, the member whose wrapper it is *)
(*   same    it is the very wrapper that was set                           *)
(*   gets    what each GetX returned                                       *)
(*   kept    the message looks as before the accessors were called         *)
(*   err     "panic" if one panicked                                       *)
(* Values are those of Wire.tla, a message value is <<>> or <<1>> for the  *)
(* very message that was set.                                              *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
Cat   == ndJsonDeserialize(IOEnv.CATALOG)
N     == Len(Trace)

VARIABLES l, s, st, bad
vars == <<l, s, st, bad>>

W == INSTANCE Words
O == INSTANCE Oneof WITH Members <- 0, Depth <- 0, Emit <- FALSE, hist <- <<>>

Fs == Cat[Trace[s].k]
Message == (CHOOSE x \in MsgSet(Fs[Trace[s].i]) : x.p = Trace[s].p).m
Members == SelectSeq(Message.fields, LAMBDA f : f.oo = Trace[s].o)

EnumOf(f) == (CHOOSE y \in EnumSet(Fs[f.rf]) : y.p = f.rp).e
\* a word for a 32-bit integer, sign extended
IntWord(n) == IF n >= 0 THEN W!NatWord(n) ELSE [i \in 1..8 |-> 255 - W!NatWord(0 - (n + 1))[i]]
Default(f) ==
  CASE f.k = "enum" -> IntWord(EnumOf(f).vals[1].n)
    [] f.k \in {"string", "bytes", "message"} -> <<>>
    [] OTHER -> W!Zero64

\* st is what the client has set, e what the accessors then said
Ok(c, e, now) ==
  CASE c = "panic"  -> e.err # "panic"
    [] e.err # ""   -> TRUE
    [] c = "oneof"  -> e.one = O!GetOneof(now) /\ e.same
    [] c = "member" -> e.gets = [i \in 1..Len(Members) |-> O!Get(now, i, Default(Members[i]))]
    [] c = "kept"   -> e.kept

Init == /\ l \in {i \in 1..N : Trace[i].op = "start"}
        /\ s = l /\ st = O!New /\ bad = {}
Next == /\ l < N
        /\ Trace[l+1].op # "start"
        /\ LET e == Trace[l+1] IN
           /\ st' = O!After(st, e.op, e.m, e.v)
           /\ bad' = {c \in Focus : ~Ok(c, e, st')}
           /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"BAD", ToString(bad'), "line", l+1, "session", Trace[s].sid>>)
        /\ l' = l + 1
        /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
=============================================================================
