-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What the three entry points do with every shape of argument.            *)
(*                                                                         *)
(* A client holds one message of a type of its own,                        *)
(*     struct { A int32 "varint,1"; S string "bytes,2" }                   *)
(* and calls Marshal, Size and Unmarshal with it, with values that contain *)
(* it (the struct itself, a pointer to its pointer, a struct holding its   *)
(* pointer, a slice, a map, an interface pointer) and with values that     *)
(* have nothing to do with it.  The state is the message (a, s) and the    *)
(* calls made so far with their outcomes; TLC enumerates every sequence of *)
(* at most MaxCalls calls and the harness makes them, each sequence with a *)
(* new type, so the first call of a sequence is the first use of the type. *)
(*                                                                         *)
(* Marshal of a pointer to something that is not a struct, and Size of     *)
(* anything that is not a message pointer, are not specified.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxCalls,
          Args,      \* argument shapes used
          Inputs     \* inputs used

VARIABLES a, s,      \* the message: A, and S as a sequence of bytes
          hist

\* Shapes that are a non-nil pointer to a struct, with the message behind it
Messages == {"msg"}
NilMessage == {"nilmsg"}
\* pointers, but not to a struct
BadPointers == {"ptrptr", "ptrint", "nilptrint", "ptrslice", "ptrmap", "ptriface", "ptrfunc", "ptrstring", "ptrarray", "nilptrptr"}
NonPointers == {"nil", "int", "string", "value", "holder", "slice", "map", "func", "chan", "array", "nilslice", "nilmap",
                "nilfunc", "nilchan", "bool", "float", "unsafeptr", "uintptr", "valueptrfield"}
AllArgs == Messages \cup NilMessage \cup BadPointers \cup NonPointers

\* inputs: empty, valid ones, malformed ones
AllInputs == {"nilbytes", "empty", "A5", "S", "unknown", "trunc", "badtag", "wrongwt"}
Valid == {"nilbytes", "empty", "A5", "S", "unknown"}
IsEmpty(i) == i \in {"nilbytes", "empty"}

Varint(n) == <<n>>          \* the values used are below 128
Encoded == (IF a = 0 THEN <<>> ELSE <<8>> \o Varint(a))
           \o (IF s = <<>> THEN <<>> ELSE <<18, Len(s)>> \o s)

Call(entry, arg, inp, o, bytes) ==
  hist' = Append(hist, [entry |-> entry, arg |-> arg, inp |-> inp, o |-> o, bytes |-> bytes, a |-> a', s |-> s'])

Marshal(arg) ==
  /\ UNCHANGED <<a, s>>
  /\ \/ arg \in Messages    /\ Call("marshal", arg, "", "ok", Encoded)
     \/ arg \in NilMessage  /\ Call("marshal", arg, "", "ok", <<>>)
     \/ arg \in NonPointers /\ Call("marshal", arg, "", "error", <<>>)

Size(arg) ==
  /\ UNCHANGED <<a, s>>
  /\ \/ arg \in Messages   /\ Call("size", arg, "", "ok", <<Len(Encoded)>>)
     \/ arg \in NilMessage /\ Call("size", arg, "", "ok", <<0>>)

Unmarshal(arg, i) ==
  \/ /\ IsEmpty(i)
     /\ UNCHANGED <<a, s>>
     /\ Call("unmarshal", arg, i, "ok", <<>>)
  \/ /\ ~IsEmpty(i)
     /\ arg \notin Messages
     /\ UNCHANGED <<a, s>>
     /\ Call("unmarshal", arg, i, "invalid", <<>>)
  \/ /\ ~IsEmpty(i)
     /\ arg \in Messages
     /\ a' = IF i = "A5" THEN 5 ELSE a
     /\ s' = IF i = "S" THEN <<104, 105>> ELSE s
     /\ Call("unmarshal", arg, i, IF i \in Valid THEN "ok" ELSE "error", <<>>)

\* The client changes its message.
Set == /\ a' = 7 /\ s' = <<>>
       /\ Call("set", "msg", "", "ok", <<>>)

Init == a = 0 /\ s = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxCalls
        /\ \/ \E x \in Args : Marshal(x) \/ Size(x)
           \/ \E x \in Args, i \in Inputs : Unmarshal(x, i)
           \/ Set
Spec == Init /\ [][Next]_<<a, s, hist>>

(* ------------------------------ checked ------------------------------ *)
\* Only a valid decode into a message and the client itself change it.
Untouched == \A k \in 1..Len(hist) :
  LET h == hist[k]
      before == IF k = 1 THEN [a |-> 0, s |-> <<>>] ELSE [a |-> hist[k-1].a, s |-> hist[k-1].s]
  IN (h.o # "ok" \/ h.entry \in {"marshal", "size"} \/ h.arg \notin Messages \/ IsEmpty(h.inp))
     => (h.a = before.a /\ h.s = before.s)
\* Size is the length of what Marshal returns.
SizeIsLength == \A k \in 1..Len(hist) - 1 :
  (hist[k].entry = "size" /\ hist[k+1].entry = "marshal" /\ hist[k].arg = hist[k+1].arg)
  => hist[k].bytes = <<Len(hist[k+1].bytes)>>
Printed == Len(hist) = MaxCalls => PrintT("CASE " \o ToJson(hist))
=============================================================================
