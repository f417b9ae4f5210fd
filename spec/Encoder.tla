------------------------------ MODULE Encoder ------------------------------
(***************************************************************************)
(* Encoding, exhaustively over a small world: every field kind in every    *)
(* cardinality (maps: every key kind with every value kind), at field      *)
(* numbers on both sides of every tag-length boundary, with values on both *)
(* sides of every varint-length boundary.  The machine picks a field, then *)
(* a value; TLC checks in every state what the format promises (sizes are  *)
(* exact, decoding inverts encoding, the encoding is the canonical one,    *)
(* presence shows), and prints the state for the harness to replay.        *)
(***************************************************************************)
EXTENDS Wire, Json, SequencesExt

CONSTANTS Emit,
          Parts,        \* which cardinalities: of "plain", "opt", "ptr", "rep", "map"
          Rich          \* all values in map entries, not only a few

VARIABLES f, has,       \* the field; is there a value yet?
          v             \* its value

Sub == << [n |-> 1, k |-> "int32", c |-> "plain", m |-> 0, kk |-> ""],
          [n |-> 2, k |-> "string", c |-> "opt", m |-> 0, kk |-> ""] >>
Types(g) == << <<g>>, Sub >>
X(g) == [types |-> Types(g), bl |-> <<>>]

w(a, b, c, d, e, g, h, i) == <<a, b, c, d, e, g, h, i>>
Ones == w(255,255,255,255,255,255,255,255)
\* non-negative 31-bit values around the varint boundaries
Nat31 == {NatWord(0), NatWord(1), NatWord(127), NatWord(128), NatWord(16383), NatWord(16384),
          NatWord(2097151), NatWord(2097152), NatWord(268435455), NatWord(268435456), NatWord(2147483647)}
\* zigzag boundaries, negative
Neg32 == {Ones, w(192,255,255,255,255,255,255,255), w(191,255,255,255,255,255,255,255), w(0,0,0,128,255,255,255,255)}
Nat32 == {w(0,0,0,128,0,0,0,0), w(255,255,255,255,0,0,0,0)}
Nat63 == {w(0,0,0,0,1,0,0,0), w(255,255,255,255,7,0,0,0), w(0,0,0,0,8,0,0,0), w(255,255,255,255,255,3,0,0), w(0,0,0,0,0,4,0,0),
          w(255,255,255,255,255,255,1,0), w(0,0,0,0,0,0,2,0), w(255,255,255,255,255,255,255,0), w(0,0,0,0,0,0,0,1),
          w(255,255,255,255,255,255,255,127)}
Neg64 == {w(0,0,0,0,0,0,0,128), w(1,0,0,0,0,0,0,128), w(255,255,255,127,255,255,255,255)}
Nat64 == {w(0,0,0,0,0,0,0,128), Ones}

Scalars(k) ==
  CASE k = "bool" -> {Zero64, One64}
    [] k \in {"int32", "sint32", "sfixed32"} -> Nat31 \cup Neg32
    [] k \in {"int64", "sint64", "sfixed64"} -> Nat31 \cup Nat32 \cup Neg32 \cup Nat63 \cup Neg64
    [] k \in {"uint32", "fixed32"} -> Nat31 \cup Nat32
    [] k \in {"uint64", "fixed64"} -> Nat31 \cup Nat32 \cup Nat63 \cup Nat64
    [] k = "float" -> {Zero64, w(0,0,0,128,0,0,0,0), w(0,0,128,63,0,0,0,0), w(1,0,160,127,0,0,0,0), w(1,0,0,0,0,0,0,0)}
    [] k = "double" -> {Zero64, w(0,0,0,0,0,0,0,128), w(0,0,0,0,0,0,240,63), w(1,0,0,0,0,0,244,127), w(1,0,0,0,0,0,0,0)}

Rep(n, x) == [i \in 1..n |-> x]
Ropes == {<<>>, <<0>>, <<65>>, <<195, 164>>, <<255, 254>>} \cup {Rep(n, 97) : n \in {126, 127, 128, 129}}
FewRopes == {<<>>, <<66, 0>>, Rep(125, 98)}

Msgs == {<<Zero64, <<>> >>, <<Zero64, << <<>> >> >>, <<Ones, << <<120>> >> >>, <<One64, <<Rep(123, 97)>> >>, <<One64, <<Rep(124, 97)>> >>}

\* elements (of repeated fields and maps) and plain values
Elem(k) == CASE k = "string" -> Ropes
             [] k = "bytes" -> {<<>>} \cup {<<r>> : r \in Ropes}
             [] k = "message" -> {<<m>> : m \in Msgs}
             [] OTHER -> Scalars(k)
\* a few elements, for pairs
Few(k) == CASE k = "string" -> FewRopes
            [] k = "bytes" -> {<<>>, << <<>> >>, << <<1>> >>}
            [] k = "message" -> {<< <<Zero64, <<>> >> >>, << <<Ones, << <<120>> >> >> >>}
            [] k = "bool" -> {Zero64, One64}
            [] k \in {"float", "double"} -> Scalars(k)
            [] k \in {"int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64"} -> {Zero64, NatWord(64), Ones}
            [] OTHER -> {Zero64, NatWord(128), NatWord(300)}

Values(g) ==
  CASE g.c = "plain" -> Elem(g.k) \cup (IF g.k = "message" THEN {<<>>} ELSE {})
    [] g.c \in {"opt", "ptr"} -> {<<>>} \cup {<<x>> : x \in Elem(g.k)}
    [] g.c = "rep" -> {<<>>} \cup {<<x>> : x \in Elem(g.k)} \cup {<<x, y>> : x \in Few(g.k), y \in Few(g.k)}
                      \cup {Rep(n, x) : n \in {10, 11, 20, 21, 41}, x \in (IF g.k \in {"string", "bytes"} THEN {<<>>} ELSE Few(g.k))}
    [] g.c = "map" -> {<<>>}
         \cup {<< <<x, y>> >> : x \in (IF Rich THEN Elem(g.kk) ELSE Few(g.kk)), y \in Few(g.k)}
         \cup {<< <<x, y>> >> : x \in Few(g.kk), y \in (IF Rich THEN Elem(g.k) ELSE Few(g.k))}
         \cup UNION {{<< <<x, y>>, <<x2, y>> >> : x2 \in Few(g.kk) \ {x}, y \in Few(g.k)} : x \in Few(g.kk)}

Numbers(g) == IF g.c = "map" THEN {1, 16} ELSE {1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911}
KeyKinds == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "string"}

ShapesOf(Part) ==
  CASE Part \in {"plain", "rep"} -> {[n |-> 0, k |-> k, c |-> Part, m |-> IF k = "message" THEN 2 ELSE 0, kk |-> ""] : k \in Kinds}
    [] Part \in {"opt", "ptr"} -> {[n |-> 0, k |-> k, c |-> Part, m |-> 0, kk |-> ""] : k \in Kinds \ {"bytes", "message"}}
    [] Part = "map" -> {[n |-> 0, k |-> k, c |-> "map", m |-> IF k = "message" THEN 2 ELSE 0, kk |-> kk] : k \in Kinds, kk \in KeyKinds}
FieldShapes == UNION {ShapesOf(p) : p \in Parts}

Init == v = <<>> /\ has = FALSE /\ f \in UNION {{[g EXCEPT !.n = n] : n \in Numbers(g)} : g \in FieldShapes}
\* every value at the numbers 1 and 16, a few elsewhere
Choose == /\ ~has /\ has' = TRUE
          /\ v' \in (IF f.n \in {1, 16} THEN Values(f)
                     ELSE CASE f.c = "plain" -> Few(f.k) [] f.c \in {"opt", "ptr", "rep"} -> {<<x>> : x \in Few(f.k)} [] OTHER -> {<<>>})
          /\ UNCHANGED f
Spec == Init /\ [][Choose]_<<f, has, v>>

Msg == <<v>>
T   == <<f>>
Enc == EncMsg(X(f), T, Msg)

SizeExact   == has => SizeMsg(X(f), T, Msg) = Len(Enc)
DecodesBack     == has => ParsesTo(X(f), T, Msg, Enc)
Canonical   == has => IsEncoding(X(f), T, Msg, Enc)
PresenceShows == has => ShowsPresence(X(f), T, Msg, Enc)
\* a field that is not set costs nothing, a set one at least its tag
Unset == has => ((Enc = <<>>) <=> (v = ZeroOf(f)))

Printed == (Emit /\ has) =>
  PrintT("CASE " \o ToJson([f |-> f, v |-> Msg, size |-> Len(Enc), encs |-> {Enc, EncMsg(X(f), T, IF f.c = "map" THEN <<Reverse(v)>> ELSE Msg)}]))
=============================================================================
