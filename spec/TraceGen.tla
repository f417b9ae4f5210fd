------------------------------ MODULE TraceGen ------------------------------
(***************************************************************************)
(* Judges what protoc-gen-golite emitted. An event is a set of files with  *)
(* what the Go front end found in each emitted file:                       *)
(*   obs[i]  [paths, imports, types, consts, errors, dups]                 *)
(*     paths    [rel, imp]: where the file came out under                  *)
(*              paths=source_relative and by default                       *)
(*     types    sequence of [name, what, to, comparable, fields, methods]  *)
(*              what: "struct", "interface", "alias" or another kind; to:  *)
(*              the type an alias stands for                               *)
(*     consts   sequence of <<name, value, type>>                          *)
(*     docs     sequence of [what, name, doc, trail], comments as words     *)
(*     errors   number of errors of the compiler in its package            *)
(*   same    the output was the same every time, and did not depend on     *)
(*           which other files were asked for                              *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils

CONSTANT Focus

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, bad
vars == <<l, bad>>

ToSet2(s) == {s[i] : i \in 1..Len(s)}
\* as the reader of struct tags sees it: unexported fields do not count
Exported(t) == SelectSeq(t.fields, LAMBDA f : f.exported)
StripF(f) == [name |-> f.name, type |-> f.type, tag |-> f.tag, key |-> f.key, val |-> f.val, oneof |-> f.oneof]
FieldsOf(t) == LET e == Exported(t) IN [i \in 1..Len(e) |-> StripF(e[i])]

Named(o, n) == {t \in ToSet2(o.types) : t.name = n}

FieldsOK(fs, i, o) ==
  \A s \in Structs(fs, fs[i]) : \E t \in Named(o, s.name) : t.what = "struct" /\ FieldsOf(t) = s.fields

OneofsOK(fs, i, o) ==
  /\ \A s \in Structs(fs, fs[i]) : \E t \in Named(o, s.name) : ToSet2(t.methods) = s.methods
  /\ \A w \in Wrappers(fs, fs[i]) : \E t \in Named(o, w.name) :
       t.what = "struct" /\ FieldsOf(t) = w.fields /\ ToSet2(t.methods) = w.methods
  /\ \A n \in Oneofs(fs, fs[i]) : \E t \in Named(o, n) : t.what = "interface"

DocsOK(fs, i, o) == Docs(fs, fs[i]) \subseteq ToSet2(o.docs)

\* nobody can compare messages, or use them as keys
NoneComparable(fs, i, o) ==
  \A s \in Structs(fs, fs[i]) : \A t \in Named(o, s.name) : ~t.comparable

Aliases(fs, i) == ForwardTypes(fs, i) \cup {<<n, "int32">> : n \in Enums(fs[i])}

DeclsOK(fs, i, o) ==
  /\ {t.name : t \in ToSet2(o.types)} = {s.name : s \in Structs(fs, fs[i]) \cup Wrappers(fs, fs[i])} \cup Oneofs(fs, fs[i]) \cup {a[1] : a \in Aliases(fs, i)}
  /\ Len(o.types) = Cardinality({t.name : t \in ToSet2(o.types)})
  /\ \A a \in Aliases(fs, i) : \E t \in Named(o, a[1]) : t.what = "alias" /\ t.to = a[2]

ConstsOK(fs, i, o) ==
  /\ {<<c[1], c[2]>> : c \in ToSet2(o.consts)} = Consts(fs[i]) \cup ForwardConsts(fs, i)
  /\ \A c \in ToSet2(o.consts) : c[3] = "int32"

PathOK(fs, i, o) ==
  /\ o.paths.rel = (IF fs[i].dir = "" THEN "" ELSE fs[i].dir \o "/") \o fs[i].base \o ".pb.go"
  /\ o.paths.imp = fs[i].pkg \o "/" \o fs[i].base \o ".pb.go"

Ok(c, e) ==
  CASE c = "same" -> e.same
    [] c = "ran"  -> e.ran
    [] ~e.ran     -> TRUE
    [] OTHER -> \A i \in 1..Len(e.fs) : LET o == e.obs[i] IN
         CASE c = "fields"  -> FieldsOK(e.fs, i, o)
           [] c = "oneofs"  -> OneofsOK(e.fs, i, o)
           [] c = "comparable" -> NoneComparable(e.fs, i, o)
           [] c = "docs"    -> DocsOK(e.fs, i, o)
           [] c = "decls"   -> DeclsOK(e.fs, i, o)
           [] c = "consts"  -> ConstsOK(e.fs, i, o)
           [] c = "imports" -> ToSet2(o.imports) = Imports(e.fs, i)
           [] c = "compiles" -> o.errors = <<>>
           [] c = "paths"   -> PathOK(e.fs, i, o)
           [] OTHER         -> TRUE

\* names that cannot stand in one Go package are the input's fault
Judge(e) ==
  LET b == {c \in Focus : ~Ok(c, e)} IN
  IF b = {} \/ (e.ran /\ ~Expressible(e.fs)) THEN {} ELSE b

Init == l \in 1..N /\ bad = {"not judged"}
Next == /\ bad = {"not judged"}
        /\ bad' = Judge(Trace[l])
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"BAD", ToString(bad'), "line", l, "session", l>>)
        /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
=============================================================================
