----------------------------- MODULE PlanCache -----------------------------
(***************************************************************************)
(* How message types are analysed, shared and rejected.                    *)
(*                                                                         *)
(* decl is what the program declares: for every type the items of its      *)
(* struct in order,                                                        *)
(*    0    a scalar                                                        *)
(*    u    a field that refers to type u (message, repeated, map)          *)
(*    Bad  a field of a type that cannot be supported                      *)
(*                                                                         *)
(* A use of a type looks for its plan in the cache of the process.  If     *)
(* there is none, the type is walked, depth first; a plan has one entry    *)
(* for each item walked so far and is complete when all are there.  Plans  *)
(* refer to plans, and a recursive type's plan is referred to before it is *)
(* complete.  An unsupported item aborts the whole walk.                   *)
(*   Publish = "end"    plans enter the cache, one by one, after the walk  *)
(*   Publish = "early"  each plan enters the cache when it is created      *)
(*                      (what the library did before it was repaired: TLC  *)
(*                      finds the lost fields and the resurrected rejected *)
(*                      types)                                             *)
(* Every step may interleave with the steps of other goroutines.           *)
(*                                                                         *)
(* What the client may rely on (Outcome, Independent): every use of a type *)
(* ends as its declaration alone says, with every field, whatever was used *)
(* before and whatever is going on at the same time.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Decls,       \* the declarations to explore
          Procs,       \* goroutines
          MaxUses,     \* uses per goroutine
          Publish,
          Emit

VARIABLES decl,
          cache,       \* type -> plan (0: none)
          plans,       \* all plans ever made: [t, links: sequence of plan or 0]
          stack,       \* goroutine -> the plans being walked, innermost last
          todo,        \* goroutine -> plans still to be published, in order
          root,        \* goroutine -> <<type in use, its plan>> or <<>>
          log          \* goroutine -> what came of its uses: [t, o]

vars == <<decl, cache, plans, stack, todo, root, log>>

Bad   == 99
Types(d) == 1..Len(d)

RECURSIVE ReachFrom(_, _)
ReachFrom(d, S) == LET n == S \cup UNION {{d[t][i] : i \in 1..Len(d[t])} \cap Types(d) : t \in S}
                   IN IF n = S THEN S ELSE ReachFrom(d, n)
Supported(d, t) == \A u \in ReachFrom(d, {t}) : \A i \in 1..Len(d[u]) : d[u][i] # Bad
Expected(d, t)  == IF Supported(d, t) THEN "ok" ELSE "rejected"

(* ------------------------------- plans ------------------------------- *)
Complete(id) == Len(plans[id].links) = Len(decl[plans[id].t])
RECURSIVE PlanReach(_)
PlanReach(S) == LET n == S \cup UNION {{plans[i].links[k] : k \in 1..Len(plans[i].links)} \ {0} : i \in S}
                IN IF n = S THEN S ELSE PlanReach(n)
\* What the client sees of a call that works with this plan.
Works(id) == IF \A i \in PlanReach({id}) : Complete(i) THEN "ok" ELSE "fields lost"

\* The plans goroutine p has made in its present walk.
Mine(p) == {i \in 1..Len(plans) : plans[i].p = p /\ plans[i].w = Len(log[p])}
Local(p, t) == LET S == {i \in Mine(p) : plans[i].t = t}
               IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

NewPlan(p, t) == [t |-> t, p |-> p, w |-> Len(log[p]), links |-> <<>>]
Early(t, id)  == IF Publish = "early" THEN [cache EXCEPT ![t] = id] ELSE cache
AddLink(ps, id, x) == [ps EXCEPT ![id].links = Append(@, x)]

Idle(p)    == root[p] = <<>> /\ Len(log[p]) < MaxUses
Walking(p) == stack[p] # <<>>
Ready(p)   == root[p] # <<>> /\ stack[p] = <<>> /\ todo[p] = <<>>

(* ------------------------------- steps ------------------------------- *)
Begin(p, t) ==
  /\ Idle(p)
  /\ IF cache[t] # 0
     THEN /\ root' = [root EXCEPT ![p] = <<t, cache[t]>>]
          /\ UNCHANGED <<cache, plans, stack>>
     ELSE LET id == Len(plans) + 1 IN
          /\ plans' = Append(plans, NewPlan(p, t))
          /\ stack' = [stack EXCEPT ![p] = <<id>>]
          /\ root'  = [root EXCEPT ![p] = <<t, id>>]
          /\ cache' = Early(t, id)
  /\ UNCHANGED <<decl, todo, log>>

\* The next item of the innermost type.
Walk(p) ==
  /\ Walking(p)
  /\ LET id == stack[p][Len(stack[p])]
         t  == plans[id].t
         i  == Len(plans[id].links) + 1
     IN IF i > Len(decl[t])
        THEN \* this type is done
             /\ LET up == SubSeq(stack[p], 1, Len(stack[p]) - 1) IN
                /\ stack' = [stack EXCEPT ![p] = up]
                /\ plans' = IF up = <<>> THEN plans ELSE AddLink(plans, up[Len(up)], id)
                /\ todo'  = [todo EXCEPT ![p] = IF up = <<>> /\ Publish = "end"
                               THEN CHOOSE q \in [1..Cardinality(Mine(p)) -> Mine(p)] : \A a, b \in DOMAIN q : a < b => q[a] < q[b]
                               ELSE <<>>]
             /\ UNCHANGED <<cache, root, log>>
        ELSE LET u == decl[t][i] IN
        CASE u = 0 -> /\ plans' = AddLink(plans, id, 0)
                      /\ UNCHANGED <<cache, stack, todo, root, log>>
          [] u = Bad -> /\ stack' = [stack EXCEPT ![p] = <<>>]       \* the walk is abandoned
                        /\ root'  = [root EXCEPT ![p] = <<>>]
                        /\ log'   = [log EXCEPT ![p] = Append(@, [t |-> root[p][1], o |-> "rejected"])]
                        /\ UNCHANGED <<cache, plans, todo>>
          [] OTHER ->
               LET known == IF Local(p, u) # 0 THEN Local(p, u) ELSE cache[u]
                   new   == Len(plans) + 1
               IN IF known # 0
                  THEN /\ plans' = AddLink(plans, id, known)
                       /\ UNCHANGED <<cache, stack, todo, root, log>>
                  ELSE /\ plans' = Append(plans, NewPlan(p, u))
                       /\ stack' = [stack EXCEPT ![p] = Append(@, new)]
                       /\ cache' = Early(u, new)
                       /\ UNCHANGED <<todo, root, log>>
  /\ UNCHANGED decl

\* One plan enters the cache, unless another goroutine was faster.
PublishOne(p) ==
  /\ todo[p] # <<>>
  /\ LET id == Head(todo[p])
         t  == plans[id].t
     IN cache' = IF cache[t] = 0 THEN [cache EXCEPT ![t] = id] ELSE cache
  /\ todo' = [todo EXCEPT ![p] = Tail(@)]
  /\ UNCHANGED <<decl, plans, stack, root, log>>

\* The call itself, with the plan found or made.
Use(p) ==
  /\ Ready(p)
  /\ log'  = [log EXCEPT ![p] = Append(@, [t |-> root[p][1], o |-> Works(root[p][2])])]
  /\ root' = [root EXCEPT ![p] = <<>>]
  /\ UNCHANGED <<decl, cache, plans, stack, todo>>

Init == /\ decl \in Decls
        /\ cache = [t \in Types(decl) |-> 0]
        /\ plans = <<>>
        /\ stack = [p \in Procs |-> <<>>]
        /\ todo  = [p \in Procs |-> <<>>]
        /\ root  = [p \in Procs |-> <<>>]
        /\ log   = [p \in Procs |-> <<>>]
Next == \E p \in Procs : (\E t \in Types(decl) : Begin(p, t)) \/ Walk(p) \/ PublishOne(p) \/ Use(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Walk(p) \/ PublishOne(p) \/ Use(p))

(* ------------------------------ checked ------------------------------ *)
\* Every use ends as the declaration alone says.
Outcome == \A p \in Procs : \A k \in 1..Len(log[p]) : log[p][k].o = Expected(decl, log[p][k].t)

\* Only complete plans of supported types are in the cache.
CacheSound == Publish = "end" =>
  \A t \in Types(decl) : cache[t] # 0 =>
     /\ plans[cache[t]].t = t
     /\ Supported(decl, t)
     /\ \A i \in PlanReach({cache[t]}) : Complete(i)

\* No goroutine is ever stuck: one that has begun can go on.
NeverStuck == \A p \in Procs : root[p] # <<>> => (Walking(p) \/ todo[p] # <<>> \/ Ready(p))

\* Every use that has begun comes to an end.
Finishes == \A p \in Procs : (root[p] # <<>>) ~> (root[p] = <<>>)

Printed == (Emit /\ \A p \in Procs : Len(log[p]) = MaxUses) =>
  PrintT("HIST " \o ToJson([decl |-> decl, log |-> log[CHOOSE p \in Procs : TRUE]]))
=============================================================================
