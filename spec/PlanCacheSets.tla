--------------------------- MODULE PlanCacheSets ---------------------------
(* The universes of type declarations PlanCache is explored over. *)
EXTENDS PlanCache

CONSTANTS NT,          \* number of types
          MaxRefs,     \* fields that refer to a type, per type
          WithBad      \* may a type have an unsupported field?

\* Items of one type: a scalar first, then references, and a scalar last,
\* so that a plan cut short anywhere has lost a field.
Refs == UNION {[1..n -> 1..NT] : n \in 0..MaxRefs}
Struct(r) == <<0>> \o r \o <<0>>
Good == [1..NT -> {Struct(r) : r \in Refs}]

\* One unsupported field, in one type, before, between or after the others.
InsertAt(q, i, x) == IF i > Len(q) THEN q ELSE SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Spoilt == {[d EXCEPT ![t] = InsertAt(d[t], i, Bad)] : d \in Good, t \in 1..NT, i \in 0..(MaxRefs + 2)}

\* Renaming types does not matter: keep declarations in which every type is
\* reachable from type 1, or type 1 refers to none.
Connected(d) == ReachFrom(d, {1}) = 1..NT
Names == {p \in [1..NT -> 1..NT] : \A a, b \in 1..NT : a # b => p[a] # p[b]}
Rename(d, p) == [t \in 1..NT |-> LET q == d[CHOOSE s \in 1..NT : p[s] = t]
                                 IN [i \in 1..Len(q) |-> IF q[i] \in 1..NT THEN p[q[i]] ELSE q[i]]]
Weak(d) == LET RECURSIVE grow(_)
               grow(S) == LET n == S \cup {u \in 1..NT : \E t \in S : (\E i \in 1..Len(d[t]) : d[t][i] = u) \/ (\E i \in 1..Len(d[u]) : d[u][i] = t)}
                          IN IF n = S THEN S ELSE grow(n)
           IN grow({1}) = 1..NT
Universe == {d \in (IF WithBad THEN Good \cup Spoilt ELSE Good) : Weak(d)}
=============================================================================
