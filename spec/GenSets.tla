------------------------------ MODULE GenSets ------------------------------
(***************************************************************************)
(* Sets of .proto files, grown file by file (Part = "files") or one field  *)
(* at a time (Part = "fields"), or one oneof (Part = "oneofs"). What Gen says about each is checked to be  *)
(* coherent, and the set is printed for the generator to be run on.        *)
(***************************************************************************)
EXTENDS Gen, Json

CONSTANTS Part, MaxFiles, Emit
VARIABLE fs

Kinds == {"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
          "sfixed32", "sfixed64", "float", "double", "string", "bytes"}
KeyKinds == Kinds \ {"float", "double", "bytes"}
Labels(syn) == IF syn = 2 THEN {"opt", "req", "rep"} ELSE {"none", "opt", "rep"}

F(name, n, k, l) == [name |-> name, n |-> n, k |-> k, l |-> l, c |-> "one", kk |-> "", rf |-> 0, rp |-> <<>>, oo |-> 0]
Ref(f, file, path) == [f EXCEPT !.rf = file, !.rp = path]
Map(name, n, kk, k) == [F(name, n, k, "rep") EXCEPT !.c = "map", !.kk = kk]
In(f, o) == [f EXCEPT !.oo = o]
Msg(name, fields) == [name |-> name, enums |-> <<>>, msgs |-> <<>>, fields |-> fields, oneofs |-> <<>>]
Enum(name, vals) == [name |-> name, vals |-> vals]
Ev(name, n) == [name |-> name, n |-> n]
File(dir, base, pkg, syn) == [dir |-> dir, base |-> base, pkg |-> pkg, syn |-> syn, imps |-> <<>>, enums |-> <<>>, msgs |-> <<>>]

(* ------------------------------ one field ------------------------------ *)
A == <<"A">>
EnumB == Enum(<<"B">>, <<Ev(<<"Z">>, 0), Ev(<<"P">>, 2147483647), Ev(<<"N">>, -1)>>)
Typed(f) == CASE f.k = "message" -> Ref(f, 1, A)
              [] f.k = "group"   -> Ref(f, 1, <<"A", ".", "F">>)
              [] f.k = "enum"    -> Ref(f, 1, <<"B">>)
              [] OTHER -> f
OneField(syn, f) ==
  << [File("d", "f", "vg/p", syn) EXCEPT !.enums = << EnumB >>,
       !.msgs = << [Msg(A, << Typed(f) >>) EXCEPT
                     !.msgs = IF f.k = "group" THEN << Msg(<<"F">>, << F(<<"x">>, 1, "int32", "opt") >>) >> ELSE <<>>,
                     !.oneofs = IF f.oo = 1 THEN << [name |-> <<"o">>] >> ELSE <<>>] >>] >>
Numbers == {1, 15, 16, 2047, 2048, 536870911}
FieldSets ==
  {OneField(syn, F(<<"f">>, n, k, l)) : <<syn, n, k, l>> \in
     {<<s, n, k, l>> \in {2, 3} \X Numbers \X (Kinds \cup {"message", "enum", "group"}) \X {"none", "opt", "req", "rep"} :
        l \in Labels(s) /\ (k = "group" => s = 2)}}
  \cup {OneField(syn, Map(<<"f">>, n, kk, k)) : syn \in {2, 3}, n \in {1, 100}, kk \in KeyKinds, k \in Kinds \cup {"message", "enum"}}
  \cup {OneField(syn, In(F(<<"f">>, 7, k, IF syn = 2 THEN "opt" ELSE "none"), 1)) : syn \in {2, 3}, k \in Kinds \cup {"message", "enum"}}

(* ------------------------------ one oneof ------------------------------ *)
\* Members of an enum type: where it is declared, what its first value is, and
\* what other members there are; and the same for members of message type.
Firsts(v) == << Ev(<<"Z">>, v), Ev(<<"Y">>, v + 1), Ev(<<"X">>, 0 - v) >>
Places == {"file", "inside", "package", "foreign", "foreigninside", "passed"}
OneOneof(place, v, mem, before) ==
  LET far  == place \in {"package", "foreign", "foreigninside", "passed"}
      path == IF place = "inside" THEN <<"A", ".", "K">> ELSE IF place = "foreigninside" THEN <<"O", ".", "K">> ELSE <<"K">>
      K    == Enum(<<"K">>, Firsts(v))
      m(f) == In(f, 1)
      the  == m(IF mem = "enum" THEN Ref(F(<<"e">>, 5, "enum", "opt"), IF far THEN 1 ELSE 3, path)
                ELSE Ref(F(<<"e">>, 5, "message", "opt"), IF far THEN 1 ELSE 3, IF far THEN <<"O">> ELSE A))
      oth  == m(F(<<"s">>, 3, "string", "opt"))
  IN << [(IF place = "package" THEN File("d2", "f1", "vg/p", 2) ELSE File("d1", "f1", "vg/q", 2))
           EXCEPT !.enums = IF place \in {"package", "foreign", "passed"} THEN << K >> ELSE <<>>,
                  !.msgs  = << [Msg(<<"O">>, <<>>) EXCEPT !.enums = IF place = "foreigninside" THEN << K >> ELSE <<>>] >>],
        [File("d3", "f2", "vg/r", 2) EXCEPT !.imps = << [to |-> 1, pub |-> TRUE] >>],
        [File("d2", "f3", "vg/p", 2)
           EXCEPT !.imps  = IF place = "passed" THEN << [to |-> 2, pub |-> FALSE] >> ELSE << [to |-> 1, pub |-> FALSE] >>,
                  !.enums = IF place = "file" THEN << K >> ELSE <<>>,
                  !.msgs  = << [Msg(A, IF before THEN << the, oth >> ELSE << oth, the >>)
                                 EXCEPT !.oneofs = << [name |-> <<"o">>] >>,
                                        !.enums = IF place = "inside" THEN << K >> ELSE <<>>] >>] >>
OneofSets == {OneOneof(p, v, "enum", b) : p \in Places, v \in {0, 1, -3, 2147483646}, b \in BOOLEAN}
        \cup {OneOneof(p, 0, "message", b) : p \in {"file", "foreign", "passed"}, b \in BOOLEAN}

(* --------------------------- several files --------------------------- *)
MName(i) == <<"M", ToString(i)>>
EName(i) == <<"E", ToString(i)>>
TheEnum(i) == Enum(EName(i), <<Ev(<<"Z">>, 0), Ev(<<"P", ToString(i)>>, i), Ev(<<"N">>, 0 - i)>>)
Plain(syn) == IF syn = 2 THEN "opt" ELSE "none"

Contents(g, i, shape) ==
  LET syn == g[i].syn
      vis == Visible(g, i)
      see == SetToSortSeq({j \in vis : Len(g[j].msgs) > 0 /\ j # i}, <)
  IN CASE shape = "empty" -> [g[i] EXCEPT !.enums = <<>>]
       [] shape = "enums" -> [g[i] EXCEPT !.enums = << TheEnum(i) >>]
       [] shape = "nest" ->
          [g[i] EXCEPT !.enums = << TheEnum(i) >>,
             !.msgs = << [Msg(MName(i), << Ref(F(<<"a">>, 1, "message", Plain(syn)), i, MName(i) \o <<".", "N">>),
                                           F(<<"b">>, 2, "sint32", "rep"),
                                           Ref(F(<<"c">>, 3, "enum", Plain(syn)), i, MName(i) \o <<".", "N", ".", "K">>) >>)
                          EXCEPT !.msgs = << [Msg(<<"N">>, << Ref(F(<<"d">>, 4, "message", "rep"), i, MName(i)),
                                                               Ref(Map(<<"e">>, 5, "string", "message"), i, MName(i) \o <<".", "N", ".", "O">>) >>)
                                              EXCEPT !.enums = << Enum(<<"K">>, <<Ev(<<"Z">>, 0), Ev(<<"Y">>, 1)>>) >>,
                                                     !.msgs = << [Msg(<<"O">>, << Ref(F(<<"f">>, 1, "enum", Plain(syn)), i, MName(i) \o <<".", "N", ".", "O", ".", "Q", ".", "J">>) >>)
                                                                 EXCEPT !.msgs = << [Msg(<<"Q">>, <<>>)
                                                                   EXCEPT !.enums = << Enum(<<"J">>, <<Ev(<<"Z">>, 0), Ev(<<"X">>, 5)>>) >>] >>] >>] >>] >>]
       [] shape = "refs" ->
          [g[i] EXCEPT !.enums = << TheEnum(i) >>,
             !.msgs = << Msg(MName(i), FlattenSeq([x \in 1..Len(see) |->
                          LET j == see[x] IN
                          << Ref(F(<<"m", ToString(j)>>, 3 * x, "message", Plain(syn)), j, MName(j)),
                             Ref(Map(<<"p", ToString(j)>>, 3 * x + 1, "int64", "message"), j, MName(j)) >>
                          \o IF Len(g[j].enums) > 0
                             THEN << Ref(F(<<"e", ToString(j)>>, 3 * x + 2, "enum", Plain(syn)), j, EName(j)) >> ELSE <<>>])) >>]
       [] shape = "oneof" ->
          [g[i] EXCEPT !.enums = << TheEnum(i) >>,
             !.msgs = << [Msg(MName(i), << F(<<"a">>, 1, "fixed64", Plain(syn)),
                                           In(F(<<"b">>, 2, "string", Plain(syn)), 1),
                                           In(Ref(F(<<"c">>, 3, "enum", Plain(syn)), i, EName(i)), 1),
                                           F(<<"d">>, 4, "bytes", "opt") >>
                               \o [x \in 1..Len(see) |-> In(Ref(F(<<"m", ToString(x)>>, 4 + x, "message", Plain(syn)), see[x], MName(see[x])), 1)]
                               \o [x \in 1..Len(see) |-> In(Ref(F(<<"e", ToString(x)>>, 40 + x, "enum", Plain(syn)), see[x], EName(see[x])), 1)])
                          EXCEPT !.oneofs = << [name |-> <<"w", "h">>] >>] >>]

ShapesOf(i) == CASE i = 1 -> {"nest", "oneof", "refs", "enums"} [] i = 2 -> {"refs", "oneof", "empty"} [] OTHER -> {"refs", "nest"}
PkgName(k) == "vg/" \o <<"p", "q/p", "r", "p/p">>[k]     \* one name more than once
Used(g) == Cardinality({g[i].pkg : i \in 1..Len(g)})

AddFile ==
  /\ Len(fs) < MaxFiles
  /\ LET i == Len(fs) + 1 IN
     \E k \in 1..(Used(fs) + 1), shape \in ShapesOf(i), w \in [1..Len(fs) -> {"no", "import", "public"}] :
       LET js  == SetToSortSeq({j \in DOMAIN w : w[j] # "no"}, <)
           new == [File("d" \o ToString(k), "f" \o ToString(i), PkgName(k), fs[1].syn)
                     EXCEPT !.imps = [x \in 1..Len(js) |-> [to |-> js[x], pub |-> w[js[x]] = "public"]]]
           g   == Append(fs, new)
       IN fs' = [g EXCEPT ![i] = Contents(g, i, shape)]

Init ==
  IF Part = "fields" THEN fs \in FieldSets
  ELSE IF Part = "oneofs" THEN fs \in OneofSets
  ELSE \E syn \in {2, 3}, shape \in ShapesOf(1) :
         LET g == << File("d1", "f1", PkgName(1), syn) >> IN fs = << Contents(g, 1, shape) >>
Next == Part = "files" /\ AddFile
Spec == Init /\ [][Next]_fs

Coherent == Closed(fs) /\ Distinct(fs)
\* what one file is made into does not depend on files it cannot see
Stable == LET n == Len(fs) g == SubSeq(fs, 1, n - 1) IN
  n > 1 => \A i \in 1..n-1 : /\ Structs(fs, fs[i]) = Structs(g, g[i])
                             /\ Imports(fs, i) = Imports(g, i)
                             /\ Declared(fs, i) = Declared(g, i)
\* whatever is mentioned is declared in a package that is imported
Imported == \A i \in 1..Len(fs) : \A x \in MsgSet(fs[i]) : \A j \in 1..Len(x.m.fields) :
  LET f == x.m.fields[j] IN f.k \in {"message", "group", "enum"} => fs[f.rf].pkg \in Imports(fs, i) \cup {fs[i].pkg}
Printed == (Emit /\ (Part \in {"fields", "oneofs"} \/ Len(fs) = MaxFiles) /\ Expressible(fs)) => PrintT("CASE " \o ToJson(fs))
=============================================================================
