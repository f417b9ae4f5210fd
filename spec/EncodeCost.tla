----------------------------- MODULE EncodeCost -----------------------------
(***************************************************************************)
(* What encoding costs.  A value is a tree of messages (node 1 is the one  *)
(* that is given to Marshal); every message has Own bytes of its own and   *)
(* every message but the first is preceded by Pre bytes (tag, length).    *)
(*                                                                         *)
(* The machine is the encoder, one visit of a message at a time: a stack   *)
(* of messages being sized or written.  It counts the visits (work) and    *)
(* the bytes allocated.  Plan says how the encoder is made:                *)
(*   "once"    a pass that sizes everything, one allocation, a pass that   *)
(*             writes; the length of a submessage is computed when it is   *)
(*             written (and so once per level above it).                   *)
(*   "twice"   the length of a submessage is computed twice wherever it    *)
(*             is needed once: for its length prefix and for itself.       *)
(*   "buffers" every submessage is encoded into a buffer of its own that   *)
(*             is then copied.                                             *)
(*   "grow"    nothing is sized first; what is written grows by doubling.  *)
(*                                                                         *)
(* Demanded of every tree: what is written is as long as the value         *)
(* (Exact), no message is visited more often than there are messages above *)
(* it, twice (Work), and what is allocated is bounded by what is written,  *)
(* however the messages nest (Alloc).  "once" and "grow" keep this; "twice"*)
(* breaks Work, "buffers" breaks Alloc.                                    *)
(*                                                                         *)
(* The trees are printed and run on the real encoder, which is counted     *)
(* (statements executed, bytes allocated); TraceCost judges with the same  *)
(* bounds.                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxNodes, Own, Pre, Plan, Chains

VARIABLES n, parent,  \* the value
          stack,      \* what is being done: [mode, node, todo]
          work,       \* visits
          alloc,      \* bytes allocated
          out         \* bytes written

vars == <<n, parent, stack, work, alloc, out>>

Nodes == 1..n
Kids(i) == {j \in Nodes : j > 1 /\ parent[j] = i}

RECURSIVE Depth(_), LenOf(_, _)
Depth(i) == IF i = 1 THEN 1 ELSE 1 + Depth(parent[i])
LenOf(i, todo) == IF todo = {} THEN Own
                ELSE LET j == CHOOSE x \in todo : TRUE
                     IN  Pre + LenOf(j, Kids(j)) + LenOf(i, todo \ {j})

Length == LenOf(1, Kids(1))
MaxDepth == CHOOSE d \in {Depth(i) : i \in Nodes} : \A i \in Nodes : Depth(i) <= d

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* what the encoder may do, for a value of so many messages, so deep, that is so long
WorkBound(messages, depth) == 2 * messages * (depth + 1)
AllocBound(length) == 4 * length

Parents == IF Chains THEN {[i \in 1..n |-> IF i = 1 THEN 0 ELSE i - 1]}
           ELSE {f \in [1..n -> 0..(n-1)] : f[1] = 0 /\ \A i \in 2..n : f[i] \in 1..(i-1)}

\* sizing message i: how often each submessage is sized
Sized(i) == IF Plan = "twice" THEN [j \in Kids(i) |-> 2] ELSE [j \in Kids(i) |-> 1]
Once(i) == [j \in Kids(i) |-> 1]
Frame(mode, i) == [mode |-> mode, node |-> i, todo |-> IF mode = "size" THEN Sized(i) ELSE Once(i)]

Start == CASE Plan \in {"once", "twice"} -> <<Frame("write", 1), Frame("size", 1)>>
           [] OTHER                      -> <<Frame("write", 1)>>

Init == /\ n \in 1..MaxNodes
        /\ parent \in Parents
        /\ stack = Start
        /\ work = 1 + (IF Plan \in {"once", "twice"} THEN 1 ELSE 0)
        /\ alloc = (IF Plan \in {"once", "twice"} THEN Length ELSE 0)
        /\ out = Own


Step == /\ stack # <<>>
        /\ LET k == Len(stack)
               f == stack[k]
               left == {j \in DOMAIN f.todo : f.todo[j] > 0}
           IN IF left = {}
              THEN /\ stack' = SubSeq(stack, 1, k - 1)
                   /\ alloc' = alloc + (IF f.mode = "write" /\ Plan = "buffers" THEN LenOf(f.node, Kids(f.node)) ELSE 0)
                                     + (IF k = 1 /\ Plan = "grow" THEN 3 * Length ELSE 0)
                   /\ UNCHANGED <<work, out>>
              ELSE LET j == Min(left)
                       g == [f EXCEPT !.todo[j] = @ - 1]
                       below == [stack EXCEPT ![k] = g]
                   IN IF f.mode = "size"
                      THEN /\ stack' = Append(below, Frame("size", j))
                           /\ work' = work + 1
                           /\ UNCHANGED <<alloc, out>>
                      ELSE /\ out' = out + Pre + Own
                           /\ stack' = IF Plan \in {"once", "twice"} THEN below \o <<Frame("write", j), Frame("size", j)>>
                                       ELSE Append(below, Frame("write", j))
                           /\ work' = work + (IF Plan \in {"once", "twice"} THEN 2 ELSE 1)
                           /\ UNCHANGED alloc
        /\ UNCHANGED <<n, parent>>

Done == stack = <<>>
Next == Step \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Exact == Done => out = Length
Work  == work <= WorkBound(n, MaxDepth)
Alloc == alloc <= AllocBound(Length)
Ends  == <>Done

\* the values, for the real encoder
Printed == Done => PrintT("CASE " \o ToJson([n |-> n, parent |-> parent, depth |-> MaxDepth, work |-> work]))
=============================================================================
