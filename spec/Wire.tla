-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The protobuf wire format as this library's users rely on it: schemas,   *)
(* message values, the canonical encoding, sizes, and what a byte string   *)
(* decodes to when it is merged into a message.                            *)
(*                                                                         *)
(* Schema: sequence of message types; a type is a sequence of fields       *)
(*   [n |-> number, k |-> kind, c |-> cardinality, m |-> message type,     *)
(*    kk |-> map key kind]                                                 *)
(* kinds: bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64     *)
(*        sfixed32 sfixed64 float double string bytes message              *)
(*        (an enum is an int32)                                            *)
(* cardinalities: plain opt ptr rep map                                    *)
(*                                                                         *)
(* Value of a message of type T: a sequence parallel to T's fields:        *)
(*   plain scalar   a word (32-bit kinds sign- or zero-extended; floating  *)
(*                  point numbers as their IEEE bits)                      *)
(*   plain string   a rope;   plain bytes  <<>> (nil) or <<rope>>          *)
(*   plain message  <<>> (nil) or <<value>>                                *)
(*   opt, ptr       <<>> (absent) or <<scalar>>                            *)
(*   rep            sequence of elements (as plain)                        *)
(*   map            sequence of <<key, value>> pairs, in any order         *)
(*                                                                         *)
(* Rope: sequence of items; an item >= 0 is a byte, an item -k stands for  *)
(* the k-th blob of the context, bl[k] bytes long and never split.  It     *)
(* lets lengths of megabytes be modelled without enumerating them.         *)
(***************************************************************************)
EXTENDS Words, FiniteSets, SequencesExt, TLC

\* A context: [types |-> schema, bl |-> blob lengths]

ItemLen(X, it) == IF it >= 0 THEN 1 ELSE X.bl[-it]

\* Folds, not recursion, over what may be long: TLC looks names up through
\* all levels of a recursion.
RopeLen(X, r) == IF X.bl = <<>> THEN Len(r)
                 ELSE LET add(a, it) == a + ItemLen(X, it) IN FoldLeft(add, 0, r)

VarintKinds  == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64"}
Fixed32Kinds == {"fixed32", "sfixed32", "float"}
Fixed64Kinds == {"fixed64", "sfixed64", "double"}
ScalarKinds  == VarintKinds \cup Fixed32Kinds \cup Fixed64Kinds
LenKinds     == {"string", "bytes", "message"}
Kinds        == ScalarKinds \cup LenKinds

WT(k) == IF k \in VarintKinds THEN 0
         ELSE IF k \in Fixed64Kinds THEN 1
         ELSE IF k \in Fixed32Kinds THEN 5 ELSE 2
FieldWT(f) == IF f.c = "map" THEN 2 ELSE WT(f.k)

Tag(n, wt) == LET lo == (n % 16) * 8 + wt
              IN IF n < 16 THEN <<lo>> ELSE <<lo + 128>> \o VarintNat(n \div 16)
TagLen(n) == IF n < 16 THEN 1 ELSE 1 + VarintNatLen(n \div 16)

\* The pseudo message type of a map entry.
EntryType(f) == << [n |-> 1, k |-> f.kk, c |-> "plain", m |-> 0,   kk |-> ""],
                   [n |-> 2, k |-> f.k,  c |-> "plain", m |-> f.m, kk |-> ""] >>

ZeroOf(f) == IF f.c = "plain" /\ f.k \in ScalarKinds THEN Zero64 ELSE <<>>
ZeroMsg(F) == [i \in 1..Len(F) |-> ZeroOf(F[i])]

(* ------------------------------ encoding ------------------------------ *)
RECURSIVE EncPayload(_, _, _), EncFields(_, _, _, _), EncRep(_, _, _), EncMap(_, _, _)

EncMsg(X, F, v) == EncFields(X, F, v, 1)
EncFields(X, F, v, i) ==
  IF i > Len(F) THEN <<>>
  ELSE LET f == F[i]
           x == v[i]
           one(y) == Tag(f.n, FieldWT(f)) \o EncPayload(X, f, y)
           e == CASE f.c = "plain" -> IF x = ZeroOf(f) THEN <<>>
                                      ELSE one(IF f.k \in {"bytes", "message"} THEN x[1] ELSE x)
                  [] f.c \in {"opt", "ptr"} -> IF x = <<>> THEN <<>> ELSE one(x[1])
                  [] f.c = "rep" -> EncRep(X, f, x)
                  [] f.c = "map" -> EncMap(X, f, x)
       IN e \o EncFields(X, F, v, i+1)

\* What follows the tag; y is a word, a rope or a message value.
EncPayload(X, f, y) ==
  CASE f.k \in {"sint32", "sint64"} -> VarintOf(ZigZag(y))
    [] f.k \in VarintKinds          -> VarintOf(y)
    [] f.k \in Fixed32Kinds         -> SubSeq(y, 1, 4)
    [] f.k \in Fixed64Kinds         -> y
    [] f.k \in {"string", "bytes"}  -> VarintNat(RopeLen(X, y)) \o y
    [] f.k = "message"              -> LET b == EncMsg(X, X.types[f.m], y)
                                       IN VarintNat(RopeLen(X, b)) \o b

\* A nil element of repeated bytes is an empty one; a nil element of a
\* repeated message has no encoding (the library skips it).
EncRep(X, f, x) ==
  LET next(a, e) ==
        LET y == IF f.k \in {"bytes", "message"} THEN (IF e = <<>> THEN <<>> ELSE e[1]) ELSE e
        IN IF f.k = "message" /\ e = <<>> THEN a
           ELSE a \o Tag(f.n, WT(f.k)) \o EncPayload(X, f, y)
  IN FoldLeft(next, <<>>, x)

\* Keys and values are always written, except a nil message.
EncMap(X, f, x) ==
  LET E == EntryType(f)
      next(a, e) ==
        LET k == Tag(1, WT(f.kk)) \o EncPayload(X, E[1], e[1])
            v == IF f.k = "message" /\ e[2] = <<>> THEN <<>>
                 ELSE LET y == IF f.k = "message" THEN e[2][1]
                               ELSE IF f.k = "bytes" THEN (IF e[2] = <<>> THEN <<>> ELSE e[2][1])
                               ELSE e[2]
                      IN Tag(2, WT(f.k)) \o EncPayload(X, E[2], y)
            b == k \o v
        IN a \o Tag(f.n, 2) \o VarintNat(RopeLen(X, b)) \o b
  IN FoldLeft(next, <<>>, x)

(* -------------------------------- sizes -------------------------------- *)
RECURSIVE SizeMsg(_, _, _), SizePayload(_, _, _)
SumOver(S) == LET add(a, b) == a + b IN FoldLeft(add, 0, S)
SizePayload(X, f, y) ==
  CASE f.k \in {"sint32", "sint64"} -> VarintLen(ZigZag(y))
    [] f.k \in VarintKinds          -> VarintLen(y)
    [] f.k \in Fixed32Kinds         -> 4
    [] f.k \in Fixed64Kinds         -> 8
    [] f.k \in {"string", "bytes"}  -> VarintNatLen(RopeLen(X, y)) + RopeLen(X, y)
    [] f.k = "message"              -> LET n == SizeMsg(X, X.types[f.m], y)
                                       IN VarintNatLen(n) + n
SizeField(X, f, x) ==
  CASE f.c = "plain" -> IF x = ZeroOf(f) THEN 0
                        ELSE TagLen(f.n) + SizePayload(X, f, IF f.k \in {"bytes", "message"} THEN x[1] ELSE x)
    [] f.c \in {"opt", "ptr"} -> IF x = <<>> THEN 0 ELSE TagLen(f.n) + SizePayload(X, f, x[1])
    [] f.c = "rep" -> SumOver([i \in 1..Len(x) |->
                        IF f.k = "message" THEN (IF x[i] = <<>> THEN 0 ELSE TagLen(f.n) + SizePayload(X, f, x[i][1]))
                        ELSE TagLen(f.n) + SizePayload(X, f,
                               IF f.k = "bytes" THEN (IF x[i] = <<>> THEN <<>> ELSE x[i][1]) ELSE x[i])])
    [] f.c = "map" -> SumOver([i \in 1..Len(x) |->
                        LET E == EntryType(f)
                            v == x[i][2]
                            n == 1 + SizePayload(X, E[1], x[i][1])
                                 + (IF f.k = "message" /\ v = <<>> THEN 0
                                    ELSE 1 + SizePayload(X, E[2],
                                             IF f.k \in {"message", "bytes"}
                                             THEN (IF v = <<>> THEN <<>> ELSE v[1]) ELSE v))
                        IN TagLen(f.n) + VarintNatLen(n) + n])
SizeMsg(X, F, v) == SumOver([i \in 1..Len(F) |-> SizeField(X, F[i], v[i])])

(* ------------------------------- decoding ------------------------------ *)
(* Varint at b[i..hi]: e = "" and w, n (bytes used); or e = "eof", "other" *)
(* (more than 64 bits), "split" (runs into a blob, whose bytes the model   *)
(* does not know).                                                         *)
RECURSIVE VarEnd(_, _, _)
VarEnd(b, i, hi) == IF i > hi THEN 0 ELSE IF b[i] < 128 THEN i ELSE VarEnd(b, i+1, hi)
DecVarint(b, i, hi) ==
  IF i <= hi /\ b[i] < 0 THEN [e |-> "split", n |-> 0, w |-> Zero64]
  ELSE IF i <= hi /\ b[i] < 128 THEN [e |-> "", n |-> 1, w |-> <<b[i],0,0,0,0,0,0,0>>]
  ELSE LET j == VarEnd(b, i, hi)
           n == j - i + 1
       IN IF j = 0 THEN [e |-> "eof", n |-> 0, w |-> Zero64]
          ELSE IF b[j] < 0 THEN [e |-> "split", n |-> 0, w |-> Zero64]
          ELSE IF n > 10 \/ (n = 10 /\ b[j] > 1) THEN [e |-> "other", n |-> 0, w |-> Zero64]
          ELSE [e |-> "", n |-> n,
                w |-> WordOfDigits([q \in 1..n |-> b[i+q-1] % 128])]

\* The item at which a run of len bytes starting at item i ends; -1 if the
\* run goes beyond item hi, -2 if it ends inside a blob.
RECURSIVE TakeFrom(_, _, _, _, _)
TakeFrom(X, b, i, hi, len) ==
  IF len = 0 THEN i - 1 ELSE IF len < 0 THEN -2 ELSE IF i > hi THEN -1
  ELSE TakeFrom(X, b, i+1, hi, len - ItemLen(X, b[i]))
Take(X, b, i, hi, len) ==
  IF X.bl = <<>> THEN (IF len > hi - i + 1 THEN -1 ELSE i + len - 1)
  ELSE TakeFrom(X, b, i, hi, len)

\* A numeric value as its kind keeps it.
Coerce(k, w) ==
  CASE k = "bool"   -> IF w = Zero64 THEN Zero64 ELSE One64
    [] k = "int32"  -> Sext32(w)
    [] k = "uint32" -> Zext32(w)
    [] k = "sint32" -> Sext32(UnZigZag(Zext32(w)))
    [] k = "sint64" -> UnZigZag(w)
    [] k = "sfixed32" -> Sext32(w)
    [] k \in {"fixed32", "float"} -> Zext32(w)
    [] OTHER -> w

FieldIndex(F, num) == IF num = -1 THEN 0
                      ELSE LET S == {i \in 1..Len(F) : F[i].n = num}
                           IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* e: "" or error class; ch: (field number word, wire type) of the fields
\* an error passed through, outermost first; m: the message so far.
Res(e, ch, m) == [e |-> e, ch |-> ch, m |-> m]

\* Put <<k, v>> in a map value: the last entry of a key wins.
PutEntry(x, k, v) ==
  LET other(e) == e[1] # k
  IN Append(IF \E i \in 1..Len(x) : x[i][1] = k THEN SelectSeq(x, other) ELSE x, <<k, v>>)

RECURSIVE DecMsg(_, _, _, _, _, _), DecLen(_, _, _, _, _, _)

\* One field at b[i], not beyond hi: a result with i, the item after it.
DecField(X, F, b, i, hi, m) ==
  LET t == DecVarint(b, i, hi) IN
  IF t.e # "" THEN [e |-> t.e, ch |-> <<>>, m |-> m, i |-> i]
  ELSE
  LET numw == Shr(t.w, 3)
      wt   == t.w[1] % 8
      num  == IF Small(numw) THEN ToNat(numw) ELSE -1
      p    == i + t.n                       \* first item after the tag
      fi   == FieldIndex(F, num)
      fail(e) == [e |-> e, ch |-> << <<numw, wt>> >>, m |-> m, i |-> i]
      next(j, x) == [e |-> "", ch |-> <<>>, m |-> x, i |-> j]
      \* extent of the value by its wire type: first and last item of the
      \* payload, or an error
      v    == IF wt \in {0, 2} THEN DecVarint(b, p, hi) ELSE [e |-> "", n |-> 0, w |-> Zero64]
      ext  == CASE wt = 0 -> [e |-> v.e, lo |-> p, hi |-> p + v.n - 1]
                [] wt = 2 -> IF v.e # "" THEN [e |-> v.e, lo |-> 0, hi |-> 0]
                             ELSE LET z == IF Small(v.w) THEN Take(X, b, p + v.n, hi, ToNat(v.w)) ELSE -1
                                  IN IF z < 0 THEN [e |-> IF z = -1 THEN "eof" ELSE "split", lo |-> 0, hi |-> 0]
                                     ELSE [e |-> "", lo |-> p + v.n, hi |-> z]
                [] wt \in {1, 5} -> LET z == Take(X, b, p, hi, IF wt = 1 THEN 8 ELSE 4)
                                    IN IF z < 0 THEN [e |-> IF z = -1 THEN "eof" ELSE "split", lo |-> 0, hi |-> 0]
                                       ELSE [e |-> "", lo |-> p, hi |-> z]
                [] OTHER -> [e |-> "unknownwt", lo |-> 0, hi |-> 0]
  IN
  IF fi = 0 THEN                            \* unknown field: skip its value
    IF ext.e # "" THEN fail(ext.e) ELSE next(ext.hi + 1, m)
  ELSE
  LET f == F[fi] IN
  IF wt # FieldWT(f) THEN fail("other")
  ELSE IF ext.e # "" THEN fail(ext.e)
  ELSE IF wt = 2 THEN
    LET r == DecLen(X, f, b, ext.lo, ext.hi, m[fi])
        m2 == [m EXCEPT ![fi] = r.m]
    IN IF r.e # "" THEN [e |-> r.e, ch |-> << <<numw, wt>> >> \o r.ch, m |-> m2, i |-> i]
       ELSE next(ext.hi + 1, m2)
  ELSE
    LET w == CASE wt = 0 -> v.w
               [] wt = 5 -> << b[p], b[p+1], b[p+2], b[p+3], 0, 0, 0, 0 >>
               [] wt = 1 -> SubSeq(b, p, p+7)
        c == Coerce(f.k, w)
        y == CASE f.c = "plain" -> c
               [] f.c \in {"opt", "ptr"} -> <<c>>
               [] f.c = "rep" -> Append(m[fi], c)
    IN next(ext.hi + 1, [m EXCEPT ![fi] = y])

\* All fields of b[i..hi]; a field takes two items or more.
DecMsg(X, F, b, i, hi, m) ==
  LET step(a, q) == IF a.e # "" \/ a.i > hi THEN a ELSE DecField(X, F, b, a.i, hi, a.m)
      r == FoldLeft(step, [e |-> "", ch |-> <<>>, m |-> m, i |-> i], [q \in 1..(hi - i + 2) \div 2 |-> q])
  IN Res(r.e, r.ch, r.m)

\* The length-delimited payload b[lo..hi] merged into field value x.
DecLen(X, f, b, lo, hi, x) ==
  IF f.c = "map" THEN
    LET E == EntryType(f)
        r == DecMsg(X, E, b, lo, hi, ZeroMsg(E))
    IN IF r.e # "" THEN Res(r.e, r.ch, x)
       ELSE Res("", <<>>, PutEntry(x, r.m[1], r.m[2]))
  ELSE IF f.k = "message" THEN
    LET F == X.types[f.m]
        old == IF f.c = "rep" \/ x = <<>> THEN ZeroMsg(F) ELSE x[1]
        r == DecMsg(X, F, b, lo, hi, old)
    IN IF f.c = "rep" THEN (IF r.e # "" THEN Res(r.e, r.ch, x) ELSE Res("", <<>>, Append(x, <<r.m>>)))
       ELSE Res(r.e, r.ch, <<r.m>>)
  ELSE
    LET s == SubSeq(b, lo, hi)
        y == IF f.k = "bytes" THEN <<s>> ELSE s
    IN Res("", <<>>, CASE f.c = "plain" -> y
                       [] f.c \in {"opt", "ptr"} -> <<y>>
                       [] f.c = "rep" -> Append(x, y))

Decode(X, F, b, m) == DecMsg(X, F, b, 1, Len(b), m)

(* ------------------------- equality of messages ------------------------ *)
(* Maps compare as sets of entries; a nil element of repeated bytes or a   *)
(* nil bytes map value is an empty one once it has been on the wire.       *)
RECURSIVE Norm(_, _, _)
NormElem(X, f, y) == IF f.k = "message" /\ y # <<>> THEN <<Norm(X, X.types[f.m], y[1])>>
                     ELSE IF f.k = "bytes" /\ y = <<>> THEN << <<>> >> ELSE y
Norm(X, F, v) ==
  [i \in 1..Len(F) |->
     LET f == F[i]  x == v[i] IN
     CASE f.c = "map" -> {<<x[j][1], NormElem(X, f, x[j][2])>> : j \in 1..Len(x)}
       [] f.c = "rep" -> [j \in 1..Len(x) |-> NormElem(X, f, x[j])]
       [] f.c = "plain" /\ f.k = "message" -> NormElem(X, f, x)
       [] OTHER -> x]
SameMsg(X, F, a, b) == Norm(X, F, a) = Norm(X, F, b)

\* Exact: only the order of map entries is ignored.
RECURSIVE Exact(_, _, _)
ExactElem(X, f, y) == IF f.k = "message" /\ y # <<>> THEN <<Exact(X, X.types[f.m], y[1])>> ELSE y
Exact(X, F, v) ==
  [i \in 1..Len(F) |->
     LET f == F[i]  x == v[i] IN
     CASE f.c = "map" -> {<<x[j][1], ExactElem(X, f, x[j][2])>> : j \in 1..Len(x)}
       [] f.c = "rep" -> [j \in 1..Len(x) |-> ExactElem(X, f, x[j])]
       [] f.c = "plain" /\ f.k = "message" -> ExactElem(X, f, x)
       [] OTHER -> x]
Identical(X, F, a, b) == Exact(X, F, a) = Exact(X, F, b)

\* out is the canonical encoding of v: fields in declared order, minimal
\* varints, exact lengths; map entries in any order.
EncodingAs(X, F, v, out, d) == d.e = "" /\ SameMsg(X, F, d.m, v) /\ EncMsg(X, F, d.m) = out
IsEncoding(X, F, v, out) == EncodingAs(X, F, v, out, Decode(X, F, out, ZeroMsg(F)))

(* ------------------------------ presence ------------------------------ *)
\* What a user can tell about presence: which fields are set, without values.
RECURSIVE Presence(_, _, _)
PresElem(X, f, y) == IF f.k = "message" THEN (IF y = <<>> THEN <<>> ELSE <<Presence(X, X.types[f.m], y[1])>>)
                     ELSE "set"
Presence(X, T, v) ==
  [i \in 1..Len(T) |->
     LET f == T[i]  x == v[i] IN
     CASE f.c = "map" -> {<<x[j][1], PresElem(X, f, x[j][2])>> : j \in 1..Len(x)}
       [] f.c = "rep" -> [j \in 1..Len(x) |-> PresElem(X, f, x[j])]
       [] x = ZeroOf(f) -> "unset"
       [] f.k = "message" -> PresElem(X, f, x)
       [] OTHER -> "set"]

\* out, read by the wire rules alone, is the message v.
ParsesAs(X, T, v, d) == d.e = "" /\ SameMsg(X, T, d.m, v)
ParsesTo(X, T, v, out) == ParsesAs(X, T, v, Decode(X, T, out, ZeroMsg(T)))

\* out, read by the wire rules alone, has exactly the fields v has.
PresentAs(X, T, v, d) == d.e = "" /\ Presence(X, T, d.m) = Presence(X, T, v)
ShowsPresence(X, T, v, out) == PresentAs(X, T, v, Decode(X, T, out, ZeroMsg(T)))
=============================================================================
