---------------------------- MODULE DecoderSets ----------------------------
(* Schemas and token sets for Decoder. *)
EXTENDS Decoder

CONSTANT Set          \* which one

F(n, k, c)    == [n |-> n, k |-> k, c |-> c, m |-> 0, kk |-> ""]
M(n, c, m)    == [n |-> n, k |-> "message", c |-> c, m |-> m, kk |-> ""]
P(n, kk, k, m) == [n |-> n, k |-> k, c |-> "map", m |-> m, kk |-> kk]

Bytes1(S) == {<<x>> : x \in S}

\* kinds of varint at top level, with unknown neighbours
TVarint == << << F(1, "int32", "plain"), F(2, "bool", "opt"), F(3, "sint32", "rep"), F(4, "uint64", "ptr") >> >>
KVarint == Bytes1({8, 16, 24, 32, 40, 0, 1, 2, 127, 128, 255}) \cup {<<255, 255, 255, 255, 15>>, <<128, 128, 128, 128, 128, 128, 128, 128, 128>>}

\* strings, bytes and fixed
TLen == << << F(1, "string", "plain"), F(2, "bytes", "plain"), F(3, "fixed32", "rep"), F(4, "sfixed64", "opt"), F(5, "string", "rep") >> >>
KLen == Bytes1({10, 18, 29, 33, 42, 13, 0, 1, 2, 128, 255}) \cup {<<1, 0, 0>>, <<128, 128, 128, 128, 8>>,
        <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, <<128, 128, 128, 128, 16>>}

\* nested messages: lengths inside lengths
TMsg == << << F(1, "int32", "plain"), M(2, "plain", 2), M(3, "rep", 2) >>,
           << F(1, "sint64", "opt"), M(2, "plain", 3), F(3, "string", "rep") >>,
           << F(1, "bytes", "plain") >> >>
KMsg == Bytes1({8, 10, 18, 26, 0, 1, 2, 3, 4, 128, 37}) \cup {<<18, 2>>, <<10, 1>>}

\* maps
TMap == << << P(1, "int32", "int32", 0), P(2, "string", "message", 2), P(3, "bool", "bytes", 0) >>,
           << F(1, "uint32", "plain") >> >>
KMap == Bytes1({10, 18, 26, 8, 16, 0, 1, 2, 4, 128, 24}) \cup {<<8, 1>>, <<16, 1>>, <<10, 4>>, <<18, 0>>}

\* zigzag and fixed maps
TMapZ == << << P(1, "sint64", "sint32", 0), P(2, "fixed32", "double", 0), P(15, "uint64", "string", 0) >> >>
KMapZ == Bytes1({10, 18, 122, 0, 1, 2, 3, 5}) \cup
         {<<8, 1>>, <<16, 3>>, <<13, 1, 0, 0, 0>>, <<17, 0, 0, 0, 0, 0, 0, 0, 128>>, <<18, 1, 65>>, <<18, 14>>, <<10, 6>>}

\* unknown fields of every wire type at every level; group tags; aliasing numbers
TUnk == << << F(1, "int64", "plain"), M(2, "plain", 2), P(3, "int32", "string", 0) >>, << F(1, "bool", "rep") >> >>
KUnk == Bytes1({8, 18, 26, 0, 1, 3, 5}) \cup
        {<<32, 1>>, <<34, 1>>, <<37, 0, 0, 0, 0>>, <<33, 0, 0, 0, 0, 0, 0, 0, 8>>, <<35>>, <<36>>, <<38>>, <<39>>,
         <<136, 128, 128, 128, 16>>, <<136, 128, 128, 128, 128, 128, 128, 128, 128, 1>>, <<40, 128, 1>>}

\* recursion
TRec == << << F(1, "int32", "plain"), M(2, "plain", 1), M(3, "rep", 1), P(4, "int32", "message", 1) >> >>
KRec == Bytes1({8, 18, 26, 34, 0, 1, 2, 3, 4}) \cup {<<18, 4>>, <<26, 2>>, <<34, 4>>, <<8, 1>>}

ASSUME Emit => PrintT("SCHEMA " \o ToJson(Types))

TypesOf == CASE Set = "varint" -> TVarint [] Set = "len" -> TLen [] Set = "msg" -> TMsg [] Set = "map" -> TMap
             [] Set = "mapz" -> TMapZ [] Set = "unk" -> TUnk [] Set = "rec" -> TRec
TokensOf == CASE Set = "varint" -> KVarint [] Set = "len" -> KLen [] Set = "msg" -> KMsg [] Set = "map" -> KMap
             [] Set = "mapz" -> KMapZ [] Set = "unk" -> KUnk [] Set = "rec" -> KRec
=============================================================================
