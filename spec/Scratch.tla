------------------------------ MODULE Scratch ------------------------------
(***************************************************************************)
(* How entries of maps are decoded: into a scratch area, a struct of key   *)
(* and value, which is taken from a pool that all decodes of the map type  *)
(* share, assigned to the map, cleared, and given back - also when the     *)
(* entry turns out to be broken, and while the entry around it, of the     *)
(* same type, still holds its own area.                                    *)
(*                                                                         *)
(* A program of a goroutine is a sequence of decodes, a decode a sequence  *)
(* of entries, an entry a sequence of pieces:                              *)
(*   K  a key      V  a value, or a part of it if it is a message          *)
(*   N  a value that is a message with an entry (sub) in its own map       *)
(*   X  bytes no decoder accepts                                           *)
(* Every piece writes a number of its own, so that nothing can be mistaken *)
(* for something else.  What each decode gives must be what Wire says it   *)
(* gives when nobody else is there.                                        *)
(*                                                                         *)
(* Clear is "always" in the design.  "success" (areas of broken entries    *)
(* come back dirty), "never" and Taken = FALSE (an area stays in the pool  *)
(* while it is used) are wrong, and TLC must find out.                     *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Procs,     \* number of goroutines
          MaxD,      \* decodes per goroutine
          Rich,      \* entries per decode: sequence of bounds, one per decode
          Kinds2,    \* pairs of kinds of keys and values
          Clear, Taken, AnyArea, Emit

VARIABLES kv,    \* the map: <<kind of key, kind of value>>
          prog,  \* what each goroutine decodes
          at,    \* where it is: [d, i]
          cur,   \* the message it is decoding into
          fr,    \* the entries it is in, outermost first
          out,   \* what its decodes gave
          pool, mem
vars == <<kv, prog, at, cur, fr, out, pool, mem>>

(* ------------------------------ programs ------------------------------ *)
FlatOK  == {<<>>, <<"K">>, <<"V">>, <<"K", "V">>, <<"V", "K">>}
FlatBad == {<<"X">>, <<"K", "X">>, <<"V", "X">>, <<"K", "V", "X">>}
E(ps, sub) == [ps |-> ps, sub |-> sub]
EntriesOK(q)  == {E(f, <<>>) : f \in FlatOK}
                 \cup (IF q[2] = "message" THEN {E(n, f) : n \in {<<"N">>, <<"K", "N">>, <<"V", "N">>}, f \in FlatOK} ELSE {})
EntriesBad(q) == {E(f, <<>>) : f \in FlatBad}
                 \cup (IF q[2] = "message" THEN {E(<<"N">>, f) : f \in FlatBad} \cup {E(<<"K", "N">>, f) : f \in FlatBad}
                                                \cup {E(<<"N", "X">>, f) : f \in FlatOK} ELSE {})
Entries(q) == EntriesOK(q) \cup EntriesBad(q)
RECURSIVE Decodes(_, _)
Decodes(q, n) == IF n = 1 THEN {<<e>> : e \in Entries(q)}
                 ELSE Decodes(q, 1) \cup {<<e>> \o r : e \in EntriesOK(q), r \in Decodes(q, n - 1)}
RECURSIVE Progs(_, _)
Progs(q, d) == IF d > MaxD THEN {<<>>} ELSE {<<x>> \o r : x \in Decodes(q, Rich[d]), r \in Progs(q, d + 1)}

F(n, k, c, m, kk) == [n |-> n, k |-> k, c |-> c, m |-> m, kk |-> kk]
TypesOf(q) == << << F(1, "bytes", "plain", 0, ""), F(2, q[2], "map", IF q[2] = "message" THEN 1 ELSE 0, q[1]) >> >>
X == [types |-> TypesOf(kv), bl |-> <<>>]
T == TypesOf(kv)[1]

\* every piece has its number
Num(p, d, i, lv, pos) == pos + 3 * ((lv - 1) + 2 * ((i - 1) + 2 * ((d - 1) + MaxD * (p - 1))))
Key(n) == IF kv[1] = "string" THEN <<n>> ELSE NatWord(n)
Val(v, n) == CASE kv[2] = "message" -> IF v = <<>> THEN << << << <<n>> >>, <<>> >> >> ELSE << << << <<n>> >>, v[1][2] >> >>
               [] kv[2] = "bytes"   -> << <<n>> >>
               [] kv[2] = "string"  -> <<n>>
               [] OTHER             -> NatWord(n)
Nothing == [k |-> IF kv[1] = "string" THEN <<>> ELSE Zero64, v |-> IF kv[2] \in {"message", "bytes", "string"} THEN <<>> ELSE Zero64]
Sub(s) == E(s, <<>>)

RECURSIVE EntryBytes(_, _, _, _, _)
EntryBytes(p, d, i, e, lv) ==
  FoldLeft(LAMBDA a, j :
    LET n == Num(p, d, i, lv, j) IN
    a \o CASE e.ps[j] = "K" -> (IF kv[1] = "string" THEN <<10, 1, n>> ELSE <<8, n>>)
           [] e.ps[j] = "V" -> CASE kv[2] = "message" -> <<18, 3, 10, 1, n>>
                                 [] kv[2] \in {"bytes", "string"} -> <<18, 1, n>>
                                 [] OTHER -> <<16, n>>
           [] e.ps[j] = "X" -> (IF kv[1] = "string" THEN <<10>> ELSE <<8>>)
           [] OTHER -> LET b == EntryBytes(p, d, i, Sub(e.sub), lv + 1) IN <<18, 2 + Len(b), 18, Len(b)>> \o b,
    <<>>, [j \in 1..Len(e.ps) |-> j])
Input(p, d) ==
  FoldLeft(LAMBDA a, i : LET b == EntryBytes(p, d, i, prog[p][d][i], 1) IN a \o <<18, Len(b)>> \o b,
           <<>>, [i \in 1..Len(prog[p][d]) |-> i])

(* ------------------------------- the steps ------------------------------- *)
P == 1..Procs
Held == {fr[p][k].scr : <<p, k>> \in {<<p, k>> \in P \X (1..2) : k <= Len(fr[p])}}
All == 1..(2 * Procs + 1)
New == LET free == All \ (pool \cup Held) IN IF free = {} THEN {} ELSE {CHOOSE s \in free : \A r \in free : s <= r}
Areas == IF pool = {} THEN New
         ELSE IF AnyArea THEN pool \cup New ELSE {CHOOSE s \in pool : \A r \in pool : r <= s}
Frame(e, s, lv) == [e |-> e, pos |-> 1, scr |-> s, lv |-> lv, ph |-> "run", broken |-> FALSE]
Top(p) == fr[p][Len(fr[p])]
SetTop(p, f) == fr' = [fr EXCEPT ![p][Len(fr[p])] = f]

\* an area from the pool, or a new one
Get(s) == /\ pool' = IF Taken THEN pool \ {s} ELSE pool
          /\ mem' = IF s \in pool THEN mem ELSE [mem EXCEPT ![s] = Nothing]
Enter(p) ==
  /\ fr[p] = <<>> /\ at[p].d <= Len(prog[p]) /\ at[p].i <= Len(prog[p][at[p].d])
  /\ \E s \in Areas : Get(s) /\ fr' = [fr EXCEPT ![p] = << Frame(prog[p][at[p].d][at[p].i], s, 1) >>]
  /\ UNCHANGED <<kv, prog, at, cur, out>>
Piece(p) ==
  /\ fr[p] # <<>> /\ Top(p).ph = "run" /\ Top(p).pos <= Len(Top(p).e.ps)
  /\ LET f == Top(p)
         c == f.e.ps[f.pos]
         n == Num(p, at[p].d, at[p].i, f.lv, f.pos)
     IN CASE c = "K" -> /\ mem' = [mem EXCEPT ![f.scr].k = Key(n)]
                        /\ SetTop(p, [f EXCEPT !.pos = @ + 1]) /\ UNCHANGED pool
          [] c = "V" -> /\ mem' = [mem EXCEPT ![f.scr].v = Val(@, n)]
                        /\ SetTop(p, [f EXCEPT !.pos = @ + 1]) /\ UNCHANGED pool
          [] c = "X" -> /\ SetTop(p, [f EXCEPT !.ph = "clear", !.broken = TRUE]) /\ UNCHANGED <<mem, pool>>
          [] OTHER   -> \* the area of the entry inside; the message around it is there by then
               \E s \in Areas :
                 /\ pool' = IF Taken THEN pool \ {s} ELSE pool
                 /\ mem' = LET m == IF s \in pool THEN mem ELSE [mem EXCEPT ![s] = Nothing]
                           IN [m EXCEPT ![f.scr].v = IF @ = <<>> THEN << << <<>>, <<>> >> >> ELSE @]
                 /\ fr' = [fr EXCEPT ![p] = <<[f EXCEPT !.pos = @ + 1], Frame(Sub(f.e.sub), s, 2)>>]
  /\ UNCHANGED <<kv, prog, at, cur, out>>
Assign(p) ==
  /\ fr[p] # <<>> /\ Top(p).ph = "run" /\ Top(p).pos > Len(Top(p).e.ps)
  /\ LET f == Top(p) a == mem[f.scr] IN
     /\ IF f.lv = 1 THEN /\ cur' = [cur EXCEPT ![p][2] = PutEntry(@, a.k, a.v)] /\ UNCHANGED mem
        ELSE /\ mem' = [mem EXCEPT ![fr[p][1].scr].v = << << @[1][1], PutEntry(@[1][2], a.k, a.v) >> >>]
             /\ UNCHANGED cur
     /\ SetTop(p, [f EXCEPT !.ph = "clear"])
  /\ UNCHANGED <<kv, prog, at, out, pool>>
ClearArea(p) ==
  /\ fr[p] # <<>> /\ Top(p).ph = "clear"
  /\ LET f == Top(p) IN
     /\ mem' = IF Clear = "always" \/ (Clear = "success" /\ ~f.broken) THEN [mem EXCEPT ![f.scr] = Nothing] ELSE mem
     /\ SetTop(p, [f EXCEPT !.ph = "put"])
  /\ UNCHANGED <<kv, prog, at, cur, out, pool>>
Finish(p, ok) == /\ out' = [out EXCEPT ![p] = Append(@, [ok |-> ok, m |-> IF ok THEN cur[p] ELSE <<>>])]
                 /\ at' = [at EXCEPT ![p] = [d |-> @.d + 1, i |-> 1]]
                 /\ cur' = [cur EXCEPT ![p] = ZeroMsg(T)]
Put(p) ==
  /\ fr[p] # <<>> /\ Top(p).ph = "put"
  /\ LET f == Top(p) IN
     /\ pool' = pool \cup {f.scr}
     /\ IF f.lv = 2
        THEN /\ fr' = [fr EXCEPT ![p] = <<IF f.broken THEN [fr[p][1] EXCEPT !.ph = "clear", !.broken = TRUE] ELSE fr[p][1]>>]
             /\ UNCHANGED <<at, cur, out>>
        ELSE /\ fr' = [fr EXCEPT ![p] = <<>>]
             /\ IF f.broken THEN Finish(p, FALSE)
                ELSE IF at[p].i = Len(prog[p][at[p].d]) THEN Finish(p, TRUE)
                ELSE at' = [at EXCEPT ![p].i = @ + 1] /\ UNCHANGED <<cur, out>>
  /\ UNCHANGED <<kv, prog, mem>>

Init == /\ kv \in Kinds2
        /\ prog \in [P -> Progs(kv, 1)]
        /\ at = [p \in P |-> [d |-> 1, i |-> 1]]
        /\ cur = [p \in P |-> ZeroMsg(T)]
        /\ fr = [p \in P |-> <<>>]
        /\ out = [p \in P |-> <<>>]
        /\ pool = {}
        /\ mem = [s \in All |-> Nothing]
Next == \E p \in P : Enter(p) \/ Piece(p) \/ Assign(p) \/ ClearArea(p) \/ Put(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- the laws -------------------------------- *)
\* an area is in one hand
Exclusive ==
  /\ \A p, q \in P : \A i \in 1..Len(fr[p]), j \in 1..Len(fr[q]) : (<<p, i>> # <<q, j>>) => fr[p][i].scr # fr[q][j].scr
  /\ Held \cap pool = {}
\* nothing is left in what the pool holds
Clean == \A s \in pool : mem[s] = Nothing
\* every decode gives what its own bytes say
Own == \A p \in P : \A d \in 1..Len(out[p]) :
  LET r == Decode(X, T, Input(p, d), ZeroMsg(T)) IN
  /\ out[p][d].ok = (r.e = "")
  /\ out[p][d].ok => SameMsg(X, T, out[p][d].m, r.m)
Done == \A p \in P : at[p].d > Len(prog[p])
Ends == <>Done

Printed == (Emit /\ Done) =>
  PrintT("CASE " \o ToJson([types |-> TypesOf(kv), in |-> [d \in 1..Len(prog[1]) |-> Input(1, d)], out |-> out[1]]))
=============================================================================
