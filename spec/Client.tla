------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* A client of the library as a state machine: it holds two messages and   *)
(* two byte slices, and calls Marshal and Unmarshal on them, or does with  *)
(* them what a client may do: overwrite its bytes, append to them, change  *)
(* its messages in place, empty them for reuse, keep the elements of a     *)
(* slice it has emptied.  Every step changes what it is said to change and *)
(* nothing else; TLC explores every history up to Depth and checks the     *)
(* laws that the ghosts carry; the harness runs every history and compares *)
(* all messages and slices at its end.                                     *)
(***************************************************************************)
EXTENDS Session, Json

CONSTANTS Depth, Emit

VARIABLES sch,    \* the schema: index into Schemas
          inp,    \* what the second slice held at first
          hist    \* the operations so far
vars == <<sch, inp, hist, obj, buf>>

F(n, k, c, m, kk) == [n |-> n, k |-> k, c |-> c, m |-> m, kk |-> kk]
P(n, k) == F(n, k, "plain", 0, "")

\* What messages are made of: the schema, a value, and inputs: two good
\* ones, and one that fails after it has begun.
S(types, v, w, x, bad) == [types |-> types, v |-> v, w |-> w, x |-> x, bad |-> bad]
i32(n) == NatWord(n)
Schemas == <<
  S(<< << P(1, "bytes"), F(2, "bytes", "rep", 0, "") >> >>,
    << << <<7, 8>> >>, << << <<1>> >>, << <<2, 3>> >> >> >>,
    <<10, 1, 65, 18, 1, 66>>, <<18, 0, 18, 2, 67, 68>>, <<18, 1, 69, 10, 5, 0>>),
  S(<< << P(1, "string"), F(2, "string", "rep", 0, ""), F(3, "string", "ptr", 0, ""), F(4, "string", "opt", 0, "") >> >>,
    << <<97>>, << <<98>>, <<>> >>, << <<99>> >>, << <<100, 100>> >> >>,
    <<10, 1, 65, 18, 1, 66, 26, 1, 67>>, <<34, 2, 68, 69, 18, 2, 70, 71>>, <<26, 1, 72, 34, 9, 0>>),
  S(<< << F(1, "message", "plain", 2, ""), F(2, "message", "rep", 2, "") >>, << P(1, "bytes"), F(2, "int32", "rep", 0, "") >> >>,
    << << << << <<5>> >>, << i32(3) >> >> >>, << << << <<>>, << i32(1), i32(2) >> >> >> >> >>,
    <<10, 3, 10, 1, 65, 18, 2, 16, 9>>, <<10, 2, 16, 8, 18, 0>>, <<18, 5, 10, 1, 66, 16, 128>>),
  S(<< << F(1, "bytes", "map", 0, "int32") >> >>,
    << << << i32(1), << <<9>> >> >> >> >>,
    <<10, 5, 8, 1, 18, 1, 65>>, <<10, 2, 8, 1>>, <<10, 6, 8, 1, 18, 1, 66, 18>>),
  S(<< << F(1, "message", "map", 2, "string") >>, << P(1, "bytes"), F(2, "string", "ptr", 0, "") >> >>,
    << << << <<107>>, << << << <<9>> >>, << <<98>> >> >> >> >> >> >>,
    <<10, 8, 10, 1, 107, 18, 3, 10, 1, 65>>, <<10, 3, 10, 1, 107>>, <<10, 8, 18, 4, 18, 1, 66, 18, 10, 0>>),
  S(<< << F(1, "int32", "ptr", 0, ""), F(2, "uint32", "opt", 0, ""), F(3, "fixed64", "rep", 0, ""), P(4, "bool") >> >>,
    << << i32(6) >>, << i32(0) >>, << i32(1), i32(2) >>, One64 >>,
    <<8, 5, 25, 1, 2, 3, 4, 5, 6, 7, 8>>, <<16, 0, 32, 0>>, <<8, 9, 25, 1, 2>>),
  S(<< << F(1, "message", "map", 2, "int32"), F(2, "message", "rep", 2, "") >>, << F(1, "bytes", "map", 0, "int32"), F(2, "bytes", "rep", 0, "") >> >>,
    << << << i32(1), << << << << i32(2), << <<4>> >> >> >>, <<>> >> >> >> >>, << << << <<>>, << << <<1>> >> >> >> >> >> >>,
    <<10, 9, 8, 1, 18, 5, 10, 3, 18, 1, 65>>, <<18, 7, 10, 2, 8, 2, 18, 1, 66>>, <<10, 10, 8, 1, 18, 6, 10, 3, 18, 1, 66, 0>>)
>>

Types == Schemas[sch].types
X == [types |-> Types, bl |-> <<>>]
T == Types[1]

(* ------------------- what clients do to their own ------------------- *)
Flip(r) == [i \in 1..Len(r) |-> 255 - r[i]]
FlipWord(w) == [w EXCEPT ![1] = 255 - w[1]]
Ints == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}

RECURSIVE Poke(_, _)
PokeElem(f, y, settable) ==
  CASE f.k = "bytes"   -> IF y = <<>> THEN <<>> ELSE << Flip(y[1]) >>
    [] f.k = "message" -> IF y = <<>> THEN <<>> ELSE << Poke(Types[f.m], y[1]) >>
    [] f.k \in Ints    -> IF settable THEN FlipWord(y) ELSE y
    [] OTHER           -> y
Poke(G, v) ==
  [i \in 1..Len(G) |-> LET f == G[i] x == v[i] IN
     CASE f.c = "plain" -> PokeElem(f, x, TRUE)
       [] f.c = "opt"   -> x
       [] f.c = "ptr"   -> IF x = <<>> THEN x ELSE << PokeElem(f, x[1], TRUE) >>
       [] f.c = "rep"   -> [j \in 1..Len(x) |-> PokeElem(f, x[j], TRUE)]
       [] f.c = "map"   -> [j \in 1..Len(x) |-> << x[j][1], PokeElem(f, x[j][2], FALSE) >>]]

RECURSIVE Trunc(_, _)
Trunc(G, v) ==
  [i \in 1..Len(G) |-> LET f == G[i] x == v[i] IN
     CASE f.c \in {"rep", "map", "opt"} -> <<>>
       [] f.c = "ptr" -> IF x = <<>> THEN x ELSE << IF f.k = "string" THEN <<>> ELSE Zero64 >>
       [] f.k = "message" -> IF x = <<>> THEN x ELSE << Trunc(Types[f.m], x[1]) >>
       [] f.k = "bytes" -> IF x = <<>> THEN x ELSE << <<>> >>
       [] OTHER -> ZeroOf(f)]

Kept(v)   == [i \in 1..Len(T) |-> IF T[i].c = "rep" THEN v[i] ELSE ZeroOf(T[i])]
Hidden(v) == [i \in 1..Len(T) |-> IF T[i].c = "rep" THEN <<>> ELSE v[i]]

\* more than one entry in a map: the encoding is not the only one
RECURSIVE OneEach(_, _)
OneEach(G, v) ==
  \A i \in 1..Len(G) : LET f == G[i] x == v[i] IN
    /\ f.c = "map" => Len(x) <= 1
    /\ f.k = "message" =>
         CASE f.c = "plain" -> x = <<>> \/ OneEach(Types[f.m], x[1])
           [] f.c = "rep"   -> \A j \in 1..Len(x) : x[j] = <<>> \/ OneEach(Types[f.m], x[j][1])
           [] f.c = "map"   -> \A j \in 1..Len(x) : x[j][2] = <<>> \/ OneEach(Types[f.m], x[j][2][1])

(* ------------------------------ the steps ------------------------------ *)
Zero == [t |-> 1, v |-> ZeroMsg(T), fed |-> << <<>> >>]
Mine(v) == [t |-> 1, v |-> v, fed |-> <<>>]
Bytes(r) == [r |-> r, of |-> <<>>]
Op(name, o, b) == [op |-> name, o |-> o, b |-> b]
Did(e) == hist' = Append(hist, e)

NewMsg(o) == /\ obj[o].v # ZeroMsg(T)
             /\ obj' = [obj EXCEPT ![o] = Zero]
             /\ Did(Op("new", o, 0)) /\ UNCHANGED buf
MarshalTo(o, b) ==
  /\ OneEach(T, obj[o].v)
  /\ buf' = [buf EXCEPT ![b] = [r |-> EncMsg(X, T, obj[o].v), of |-> << 1, obj[o].v >>]]
  /\ Did(Op("marshal", o, b)) /\ UNCHANGED obj
\* what a failed call leaves in the message is not specified: it is dropped
UnmarshalFrom(o, b) ==
  LET r == Decode(X, T, buf[b].r, obj[o].v) IN
  /\ obj' = [obj EXCEPT ![o] = IF r.e = "" THEN [t |-> 1, v |-> r.m, fed |-> Fed(obj[o].fed, buf[b].r)] ELSE Zero]
  /\ Did(Op(IF r.e = "" THEN "unmarshal" ELSE "fail", o, b)) /\ UNCHANGED buf
PokeBuf(b) == /\ buf[b].r # <<>>
              /\ buf' = [buf EXCEPT ![b] = Bytes(Flip(buf[b].r))]
              /\ Did(Op("pokebuf", 0, b)) /\ UNCHANGED obj
Appendix == <<200, 1, 7>>
AppendTo(b) == /\ buf' = [buf EXCEPT ![b] = Bytes(buf[b].r \o Appendix)]
               /\ Did(Op("append", 0, b)) /\ UNCHANGED obj
PokeObj(o) == /\ Poke(T, obj[o].v) # obj[o].v
              /\ obj' = [obj EXCEPT ![o] = Mine(Poke(T, obj[o].v))]
              /\ Did(Op("pokeobj", o, 0)) /\ UNCHANGED buf
TruncObj(o) == /\ Trunc(T, obj[o].v) # obj[o].v
               /\ obj' = [obj EXCEPT ![o] = Mine(Trunc(T, obj[o].v))]
               /\ Did(Op("trunc", o, 0)) /\ UNCHANGED buf
HideIn(o) == /\ Hidden(obj[o].v) # obj[o].v
             /\ obj' = [obj EXCEPT ![o] = Mine(Hidden(obj[o].v)), ![3 - o] = Mine(Kept(obj[o].v))]
             /\ Did(Op("hide", o, 0)) /\ UNCHANGED buf

Init ==
  /\ sch \in 1..Len(Schemas)
  /\ obj = << [t |-> 1, v |-> Schemas[sch].v, fed |-> <<>>], Zero >>
  /\ hist = <<>>
  /\ inp \in {Schemas[sch].x, Schemas[sch].bad}
  /\ buf = << Bytes(Schemas[sch].w), Bytes(inp) >>

Next ==
  /\ Len(hist) < Depth
  /\ UNCHANGED <<sch, inp>>
  /\ \E i \in 1..2 :
       \/ NewMsg(i) \/ PokeBuf(i) \/ AppendTo(i) \/ PokeObj(i) \/ TruncObj(i) \/ HideIn(i)
       \/ \E j \in 1..2 : MarshalTo(i, j) \/ UnmarshalFrom(i, j)
Spec == Init /\ [][Next]_vars

(* ------------------------------- the laws ------------------------------- *)
\* a message made of bytes is what these bytes say, in however many calls
FedIsDecoded == \A i \in 1..2 : obj[i].fed # <<>> =>
  LET d == Decode(X, T, obj[i].fed[1], ZeroMsg(T)) IN d.e = "" /\ SameMsg(X, T, d.m, obj[i].v)
\* bytes made of a message are its encoding
OfIsEncoded == \A b \in 1..2 : buf[b].of # <<>> =>
  IsEncoding(X, T, buf[b].of[2], buf[b].r) /\ SizeMsg(X, T, buf[b].of[2]) = Len(buf[b].r)
\* each step touches what it names
OnlyIts == \A i \in 1..2 :
  [][/\ hist'[Len(hist')].op \in {"marshal", "pokebuf", "append"} => obj'[i] = obj[i]
     /\ hist'[Len(hist')].op \notin {"marshal", "pokebuf", "append"} => buf'[i] = buf[i]]_vars

Printed == Emit =>
  /\ hist = <<>> => PrintT("SCHEMA " \o ToJson([s |-> sch, types |-> Types, v |-> Schemas[sch].v, w |-> Schemas[sch].w]))
  /\ PrintT("CASE " \o ToJson([s |-> sch, y |-> inp, hist |-> hist,
        obj |-> [i \in 1..2 |-> obj[i].v], buf |-> [i \in 1..2 |-> buf[i].r]]))
=============================================================================
