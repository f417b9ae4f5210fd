-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* What protoc-gen-golite has to emit for a set of .proto files.           *)
(*                                                                         *)
(* A set is a sequence of file records                                     *)
(*   [dir, base, pkg, syn, imps, enums, msgs]                              *)
(* pkg is the Go import path, syn 2 or 3, imps a sequence of [to, pub]     *)
(* with to the index of a file. Names are sequences of characters.         *)
(*   enum     [name, vals]         vals: sequence of [name, n]             *)
(*   message  [name, enums, msgs, fields, oneofs]                          *)
(*   field    [name, n, k, l, c, kk, rf, rp, oo]                           *)
(*     k  kind: a scalar kind, "string", "bytes", "message", "group",      *)
(*        "enum"; for these three rf and rp are the file and the path      *)
(*        (dotted name) of the type                                        *)
(*     l  "none" (proto3), "opt", "req", "rep"                             *)
(*     c  "one" or "map" (kk: kind of the key; k, rf, rp: the value)       *)
(*     oo 0, or the index of the oneof it belongs to                       *)
(*                                                                         *)
(* The result is compared with what the Go compiler's front end (go/types) *)
(* finds in the emitted files; see TraceGen.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Runtime == "github.com/RomiChan/protobuf/proto"

(* ------------------------------- names ------------------------------- *)
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
           "n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
           "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digit == {"0","1","2","3","4","5","6","7","8","9"}
LowerSet == {Lower[i] : i \in 1..26}
UpperOf == [c \in LowerSet |-> Upper[CHOOSE i \in 1..26 : Lower[i] = c]]
IsLower(c) == c \in LowerSet
ToUpper(c) == IF IsLower(c) THEN UpperOf[c] ELSE c

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))

\* characters i.. of s; w: the previous character was a letter of this word
RECURSIVE CamelFrom(_, _, _)
CamelFrom(s, i, w) ==
  IF i > Len(s) THEN ""
  ELSE LET c    == s[i]
           next == i < Len(s) /\ IsLower(s[i+1])
       IN IF c = "." THEN (IF next THEN "" ELSE "_") \o CamelFrom(s, i + 1, FALSE)
          ELSE IF c = "_"
          THEN IF i = 1 \/ s[i-1] = "." THEN "X" \o CamelFrom(s, i + 1, FALSE)
               ELSE (IF next THEN "" ELSE "_") \o CamelFrom(s, i + 1, FALSE)
          ELSE IF c \in Digit THEN c \o CamelFrom(s, i + 1, FALSE)
          ELSE (IF w /\ IsLower(c) THEN c ELSE ToUpper(c)) \o CamelFrom(s, i + 1, TRUE)
Camel(s) == CamelFrom(s, 1, FALSE)

\* A field or oneof name gets underscores until it and its getter are free.
Reserved == {"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal",
             "ExtensionRangeArray", "ExtensionMap", "Descriptor"}
RECURSIVE Free(_, _, _)
Free(name, getter, used) ==
  IF name \in used \/ (getter /\ ("Get" \o name) \in used)
  THEN Free(name \o "_", getter, used) ELSE name

IsOptional3(syn, f) == syn = 3 /\ f.l = "opt"

\* [f |-> Go names of the fields, o |-> of the oneofs], taken in order
RECURSIVE NamesFrom(_, _, _, _, _)
NamesFrom(syn, m, i, used, acc) ==
  IF i > Len(m.fields) THEN acc
  ELSE LET f  == m.fields[i]
           n  == Free(Camel(f.name), TRUE, used)
           u1 == used \cup {n, "Get" \o n}
           first == f.oo # 0 /\ \A j \in 1..i-1 : m.fields[j].oo # f.oo
           o  == IF first THEN Free(Camel(m.oneofs[f.oo].name), FALSE, u1) ELSE ""
           \* a proto3 optional field sits in a oneof of its own, called _name
           u2 == IF first THEN u1 \cup {o}
                 ELSE IF IsOptional3(syn, f) THEN u1 \cup {Free(Camel(<<"_">> \o f.name), FALSE, u1)}
                 ELSE u1
       IN NamesFrom(syn, m, i + 1, u2,
                    [f |-> Append(acc.f, n), o |-> IF first THEN [acc.o EXCEPT ![f.oo] = o] ELSE acc.o])
Names(syn, m) == NamesFrom(syn, m, 1, Reserved, [f |-> <<>>, o |-> [j \in 1..Len(m.oneofs) |-> ""]])

(* ------------------------------- types ------------------------------- *)
ScalarGo(k) ==
  CASE k = "bool" -> "bool"
    [] k \in {"int32", "sint32", "sfixed32", "enum"} -> "int32"
    [] k \in {"uint32", "fixed32"} -> "uint32"
    [] k \in {"int64", "sint64", "sfixed64"} -> "int64"
    [] k \in {"uint64", "fixed64"} -> "uint64"
    [] k = "float" -> "float32"
    [] k = "double" -> "float64"
    [] k = "string" -> "string"
    [] k = "bytes" -> "[]byte"

Base(fs, f) ==
  IF f.k \in {"message", "group"} THEN "*" \o fs[f.rf].pkg \o "." \o Camel(f.rp) ELSE ScalarGo(f.k)

\* a scalar or string whose presence is part of the message
Optional(syn, f) ==
  /\ f.c = "one" /\ f.k \notin {"message", "group", "bytes"}
  /\ IF syn = 2 THEN f.l \in {"opt", "req"} ELSE f.l = "opt"

GoType(fs, syn, f) ==
  CASE f.c = "map" -> "map[" \o ScalarGo(f.kk) \o "]" \o Base(fs, f)
    [] f.l = "rep" -> "[]" \o Base(fs, f)
    [] Optional(syn, f) /\ f.oo = 0 -> Runtime \o ".Option[" \o Base(fs, f) \o "]"
    [] OTHER -> Base(fs, f)

Wire(k) ==
  CASE k \in {"bool", "enum", "int32", "uint32", "int64", "uint64"} -> "varint"
    [] k = "sint32" -> "zigzag32"
    [] k = "sint64" -> "zigzag64"
    [] k \in {"fixed32", "sfixed32", "float"} -> "fixed32"
    [] k \in {"fixed64", "sfixed64", "double"} -> "fixed64"
    [] k \in {"string", "bytes", "message"} -> "bytes"
    [] k = "group" -> "group"

Label(f) == IF f.c = "map" \/ f.l = "rep" THEN "rep" ELSE IF f.l = "req" THEN "req" ELSE "opt"

NoTag == <<>>
Tag(f)  == IF f.c = "map" THEN <<"bytes", f.n, "rep">> ELSE <<Wire(f.k), f.n, Label(f)>>
Key(f)  == IF f.c = "map" THEN <<Wire(f.kk), 1, "opt">> ELSE NoTag
Val(f)  == IF f.c = "map" THEN <<Wire(f.k), 2, "opt">> ELSE NoTag

GoField(fs, syn, f, name) == [name |-> name, type |-> GoType(fs, syn, f), tag |-> Tag(f), key |-> Key(f), val |-> Val(f), oneof |-> ""]

(* ---------------------------- declarations ---------------------------- *)
\* every message of a file with its dotted path, outer before inner
RECURSIVE Flat(_, _)
Flat(ms, prefix) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms) p == prefix \o m.name
       IN << [p |-> p, m |-> m] >> \o Flat(m.msgs, p \o <<".">>) \o Flat(Tail(ms), prefix)
Msgs(file) == Flat(file.msgs, <<>>)
MsgSet(file) == {Msgs(file)[i] : i \in 1..Len(Msgs(file))}

\* every enum: its path, and what its constants are prefixed with
EnumSet(file) ==
  {[p |-> file.enums[i].name, e |-> file.enums[i], q |-> Camel(file.enums[i].name)] : i \in 1..Len(file.enums)}
  \cup UNION {{[p |-> x.p \o <<".">> \o x.m.enums[i].name, e |-> x.m.enums[i], q |-> Camel(x.p)]
               : i \in 1..Len(x.m.enums)} : x \in MsgSet(file)}

OneofType(x, o) == "is" \o Camel(x.p) \o "_" \o o
\* a wrapper type that would have the name of a nested type gets underscores
RECURSIVE FreeType(_, _)
FreeType(n, used) == IF n \in used THEN FreeType(n \o "_", used) ELSE n
Wrapper(x, name) ==
  FreeType(Camel(x.p) \o "_" \o name,
           {Camel(x.p \o <<".">> \o x.m.msgs[i].name) : i \in 1..Len(x.m.msgs)}
           \cup {Camel(x.p \o <<".">> \o x.m.enums[i].name) : i \in 1..Len(x.m.enums)})

StructFields(fs, file, x) ==
  LET nm == Names(file.syn, x.m)
      one(i) == LET f == x.m.fields[i] IN
        IF f.oo = 0 THEN << GoField(fs, file.syn, f, nm.f[i]) >>
        ELSE IF \E j \in 1..i-1 : x.m.fields[j].oo = f.oo THEN <<>>
        ELSE << [name |-> nm.o[f.oo], type |-> file.pkg \o "." \o OneofType(x, nm.o[f.oo]), tag |-> NoTag,
                 key |-> NoTag, val |-> NoTag, oneof |-> Join(x.m.oneofs[f.oo].name)] >>
  IN FlattenSeq([i \in 1..Len(x.m.fields) |-> one(i)])

\* getters exist for oneofs and their fields only
Getters(fs, file, x) ==
  LET nm == Names(file.syn, x.m) IN
  {<<"Get" \o nm.f[i], GoType(fs, file.syn, x.m.fields[i])>> : i \in {j \in 1..Len(x.m.fields) : x.m.fields[j].oo # 0}}
  \cup {<<"Get" \o nm.o[j], file.pkg \o "." \o OneofType(x, nm.o[j])>> : j \in 1..Len(x.m.oneofs)}

Structs(fs, file) ==
  {[name |-> Camel(x.p), fields |-> StructFields(fs, file, x), methods |-> Getters(fs, file, x)] : x \in MsgSet(file)}

\* each field of a oneof has a struct that holds it and belongs to the oneof
Wrappers(fs, file) ==
  UNION {LET nm == Names(file.syn, x.m) IN
         {[name |-> Wrapper(x, nm.f[i]),
           fields |-> << GoField(fs, file.syn, x.m.fields[i], nm.f[i]) >>,
           methods |-> {<<OneofType(x, nm.o[x.m.fields[i].oo]), "">>}]
          : i \in {j \in 1..Len(x.m.fields) : x.m.fields[j].oo # 0}} : x \in MsgSet(file)}

Oneofs(fs, file) ==
  UNION {LET nm == Names(file.syn, x.m) IN {OneofType(x, nm.o[j]) : j \in 1..Len(x.m.oneofs)} : x \in MsgSet(file)}

Enums(file) == {Camel(y.p) : y \in EnumSet(file)}
Consts(file) == UNION {{<<y.q \o "_" \o Join(y.e.vals[i].name), y.e.vals[i].n>> : i \in 1..Len(y.e.vals)} : y \in EnumSet(file)}

(* --------------------------- documentation --------------------------- *)
\* A declaration may have  doc (the lines before it), trail (the lines after
\* it) and dep (it is deprecated); lines are sequences of words, and so is
\* what is compared: how comments are laid out is nobody's concern.
Has(x, k) == k \in DOMAIN x
Deprecated == <<"Deprecated:", "Do", "not", "use.">>
DepOf(x)   == IF Has(x, "dep") /\ x.dep THEN Deprecated ELSE <<>>
DocOf(x)   == (IF Has(x, "doc") THEN FlattenSeq(x.doc) ELSE <<>>) \o DepOf(x)
\* only a comment of one line can stay behind a declaration
TrailOf(x) == IF Has(x, "trail") /\ Len(x.trail) = 1 THEN x.trail[1] ELSE <<>>
D(what, name, doc, trail) == [what |-> what, name |-> name, doc |-> doc, trail |-> trail]

FieldDocs(fs, file, x) ==
  LET nm == Names(file.syn, x.m)
      T  == Camel(x.p)
      FS == 1..Len(x.m.fields)
      In(j) == SelectSeq([i \in FS |-> i], LAMBDA i : x.m.fields[i].oo = j)
  IN {D("field", T \o "." \o nm.f[i], DocOf(x.m.fields[i]), TrailOf(x.m.fields[i])) : i \in {k \in FS : x.m.fields[k].oo = 0}}
     \cup {D("field", Wrapper(x, nm.f[i]) \o "." \o nm.f[i], DocOf(x.m.fields[i]), TrailOf(x.m.fields[i])) : i \in {k \in FS : x.m.fields[k].oo # 0}}
     \cup {D("func", T \o ".Get" \o nm.f[i], DepOf(x.m.fields[i]), <<>>) : i \in {k \in FS : x.m.fields[k].oo # 0}}
     \cup {D("field", T \o "." \o nm.o[j],
             DocOf(x.m.oneofs[j]) \o <<"Types", "that", "are", "assignable", "to", nm.o[j] \o ":">>
               \o [k \in 1..Len(In(j)) |-> "*" \o Wrapper(x, nm.f[In(j)[k]])], <<>>) : j \in 1..Len(x.m.oneofs)}

Path(file) == (IF file.dir = "" THEN "" ELSE file.dir \o "/") \o file.base \o ".proto"
Header(file) ==
  <<"Code", "generated", "by", "protoc-gen-golite.", "DO", "NOT", "EDIT.">>
  \o (IF Has(file, "dep") /\ file.dep THEN <<Path(file), "is", "a", "deprecated", "file.">> ELSE <<"source:", Path(file)>>)
Docs(fs, file) ==
  {D("file", "", Header(file), <<>>)}
  \cup {D("type", Camel(x.p), DocOf(x.m), <<>>) : x \in MsgSet(file)}
  \cup {D("type", Camel(y.p), DocOf(y.e), <<>>) : y \in EnumSet(file)}
  \cup UNION {{D("const", y.q \o "_" \o Join(y.e.vals[i].name), DocOf(y.e.vals[i]), TrailOf(y.e.vals[i])) : i \in 1..Len(y.e.vals)} : y \in EnumSet(file)}
  \cup UNION {FieldDocs(fs, file, x) : x \in MsgSet(file)}

OwnTypes(fs, file) == {s.name : s \in Structs(fs, file) \cup Wrappers(fs, file)} \cup Enums(file)

\* a public import of another Go package brings its names into this one
PublicOf(fs, i) == {fs[i].imps[j].to : j \in {k \in 1..Len(fs[i].imps) : fs[i].imps[k].pub /\ fs[fs[i].imps[k].to].pkg # fs[i].pkg}}
ForwardTypes(fs, i) == UNION {{<<n, fs[j].pkg \o "." \o n>> : n \in OwnTypes(fs, fs[j])} : j \in PublicOf(fs, i)}
ForwardConsts(fs, i) == UNION {Consts(fs[j]) : j \in PublicOf(fs, i)}

UsesOption(fs, i) ==
  \E x \in MsgSet(fs[i]) : \E j \in 1..Len(x.m.fields) : x.m.fields[j].oo = 0 /\ Optional(fs[i].syn, x.m.fields[j])
Refers(fs, i) ==
  UNION {{fs[x.m.fields[j].rf].pkg : j \in {k \in 1..Len(x.m.fields) : x.m.fields[k].k \in {"message", "group", "enum"}}} : x \in MsgSet(fs[i])}
Imports(fs, i) ==
  (({fs[fs[i].imps[j].to].pkg : j \in 1..Len(fs[i].imps)} \cup Refers(fs, i)) \ {fs[i].pkg})
  \cup (IF UsesOption(fs, i) THEN {Runtime} ELSE {})

(* --------------------- what Go can express at all --------------------- *)
OwnNames(fs, i) == OwnTypes(fs, fs[i]) \cup {c[1] : c \in Consts(fs[i])}
ForwardNames(fs, i) == {t[1] : t \in ForwardTypes(fs, i)} \cup {c[1] : c \in ForwardConsts(fs, i)}
Declared(fs, i) == OwnNames(fs, i) \cup ForwardNames(fs, i)
PkgEdges(fs) == {<<fs[i].pkg, fs[fs[i].imps[j].to].pkg>> : <<i, j>> \in {<<a, b>> \in (1..Len(fs)) \X (1..10) : b <= Len(fs[a].imps)}}
RECURSIVE ReachPkg(_, _)
ReachPkg(E, S) == LET T == S \cup {e[2] : e \in {d \in E : d[1] \in S}} IN IF T = S THEN S ELSE ReachPkg(E, T)
\* all names a file declares, with repetitions
NameSeq(fs, file) ==
  LET ms == Msgs(file) es == SetToSeq(EnumSet(file)) IN
  FlattenSeq([i \in 1..Len(ms) |-> LET x == ms[i] nm == Names(file.syn, x.m) IN
     << Camel(x.p) >>
     \o [j \in 1..Len(nm.o) |-> OneofType(x, nm.o[j])]
     \o [j \in 1..Len(SelectSeq(x.m.fields, LAMBDA f : f.oo # 0)) |->
           LET k == CHOOSE k \in 1..Len(x.m.fields) : x.m.fields[k].oo # 0 /\ Cardinality({h \in 1..k : x.m.fields[h].oo # 0}) = j
           IN Wrapper(x, nm.f[k])]])
  \o FlattenSeq([i \in 1..Len(es) |-> << Camel(es[i].p) >> \o [j \in 1..Len(es[i].e.vals) |-> es[i].q \o "_" \o Join(es[i].e.vals[j].name)]])
Injective(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* a method and a field, or two methods, of one name
MembersClash(fs, file) ==
  \E x \in MsgSet(file) : LET nm == Names(file.syn, x.m) IN
    \/ ~Injective(nm.o \o nm.f)
    \/ ~Injective([j \in 1..Len(nm.o) |-> "Get" \o nm.o[j]] \o [j \in 1..Len(nm.f) |-> "Get" \o nm.f[j]])
    \/ \E i \in 1..Len(nm.f), j \in 1..Len(nm.o) : nm.f[i] = "Get" \o nm.o[j]
    \/ \E i, j \in 1..Len(nm.f) : nm.f[i] = "Get" \o nm.f[j] /\ x.m.fields[j].oo # 0
Expressible(fs) ==
  /\ \A i \in 1..Len(fs) : Injective(NameSeq(fs, fs[i])) /\ ~MembersClash(fs, fs[i])
  /\ \A i \in 1..Len(fs) : Cardinality(Declared(fs, i)) = Cardinality(OwnNames(fs, i)) + Cardinality(ForwardNames(fs, i))
  /\ \A i \in 1..Len(fs) : \A j, k \in PublicOf(fs, i) : j # k => OwnNames(fs, j) \cap OwnNames(fs, k) = {}
  /\ \A i, j \in 1..Len(fs) : (i # j /\ fs[i].pkg = fs[j].pkg) => Declared(fs, i) \cap Declared(fs, j) = {}
  /\ LET E == {e \in PkgEdges(fs) : e[1] # e[2]}
     IN \A e \in E : e[1] \notin ReachPkg(E, {e[2]})

\* files a file may refer to: itself, what it imports, and what that makes public
RECURSIVE PublicClosure(_, _)
PublicClosure(fs, S) ==
  LET T == S \cup UNION {{fs[i].imps[j].to : j \in {k \in 1..Len(fs[i].imps) : fs[i].imps[k].pub}} : i \in S}
  IN IF T = S THEN S ELSE PublicClosure(fs, T)
Visible(fs, i) == {i} \cup PublicClosure(fs, {fs[i].imps[j].to : j \in 1..Len(fs[i].imps)})

\* every message type that a field mentions is declared, once, in the package it is said to be in
Closed(fs) ==
  \A i \in 1..Len(fs) : \A x \in MsgSet(fs[i]) : \A j \in 1..Len(x.m.fields) :
    LET f == x.m.fields[j] IN
      f.k \in {"message", "group"} =>
        /\ f.rf \in Visible(fs, i)
        /\ Cardinality({y \in MsgSet(fs[f.rf]) : Camel(y.p) = Camel(f.rp)}) = 1
Distinct(fs) ==
  \A i \in 1..Len(fs) :
    /\ Cardinality(Structs(fs, fs[i])) = Len(Msgs(fs[i]))
    /\ \A s \in Structs(fs, fs[i]) : \A a, b \in 1..Len(s.fields) : a # b => s.fields[a].name # s.fields[b].name
=============================================================================
