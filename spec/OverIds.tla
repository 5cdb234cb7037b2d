---- MODULE OverIds ----
(* How instances get their IDs.  Every thread creates instances one after another; a creation begins,
   takes the next number, and ends.  Taking a number is one indivisible step.

   Atomic = FALSE takes it in two steps (read the counter, write it back), and Wrap > 0 lets the counter
   start again at 0 after Wrap numbers; both are there to see that the properties below notice. *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, PerThread, Atomic, Wrap

VARIABLES next,    \* the counter
          log,     \* per thread, the IDs of the instances it has created, in order
          pc,      \* per thread: "idle", "begun", "read", "taken"
          seen,    \* per thread: the counter as read (non-atomic only)
          floor    \* per thread: one more than the largest ID of any creation that had ended when the current one began
vars == <<next, log, pc, seen, floor>>

Bump(n) == IF Wrap > 0 THEN (n + 1) % Wrap ELSE n + 1

Init == /\ next = 0
        /\ log = [t \in Threads |-> <<>>]
        /\ pc = [t \in Threads |-> "idle"]
        /\ seen = [t \in Threads |-> 0]
        /\ floor = [t \in Threads |-> 0]

\* IDs of the creations that have ended.
Ended == UNION {{log[t][i] : i \in 1..(IF pc[t] = "taken" THEN Len(log[t]) - 1 ELSE Len(log[t]))} : t \in Threads}
Above(S) == IF S = {} THEN 0 ELSE 1 + (CHOOSE x \in S : \A y \in S : y <= x)

Begin(t) == /\ pc[t] = "idle" /\ Len(log[t]) < PerThread
            /\ pc' = [pc EXCEPT ![t] = "begun"]
            /\ floor' = [floor EXCEPT ![t] = Above(Ended)]
            /\ UNCHANGED <<next, log, seen>>
Take(t) == /\ pc[t] = "begun" /\ Atomic
           /\ log' = [log EXCEPT ![t] = Append(@, next)]
           /\ next' = Bump(next)
           /\ pc' = [pc EXCEPT ![t] = "taken"]
           /\ UNCHANGED <<seen, floor>>
Read(t) == /\ pc[t] = "begun" /\ ~Atomic
           /\ seen' = [seen EXCEPT ![t] = next]
           /\ pc' = [pc EXCEPT ![t] = "read"]
           /\ UNCHANGED <<next, log, floor>>
Write(t) == /\ pc[t] = "read"
            /\ log' = [log EXCEPT ![t] = Append(@, seen[t])]
            /\ next' = Bump(seen[t])
            /\ pc' = [pc EXCEPT ![t] = "taken"]
            /\ UNCHANGED <<seen, floor>>
End(t) == /\ pc[t] = "taken"
          /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<next, log, seen, floor>>
Next == \E t \in Threads : Begin(t) \/ Take(t) \/ Read(t) \/ Write(t) \/ End(t)
Spec == Init /\ [][Next]_vars

Made == {<<t, i>> \in Threads \X (1..PerThread) : i <= Len(log[t])}
Id(m) == log[m[1]][m[2]]
\* C14: no two instances have the same ID,
Unique == \A a, b \in Made : Id(a) = Id(b) => a = b
\* the IDs are 0, 1, 2, ... without gaps,
Dense == {Id(m) : m \in Made} = 0..(Cardinality(Made) - 1)
\* a thread's later instances have larger IDs,
Increasing == \A t \in Threads : \A i \in 1..(Len(log[t]) - 1) : log[t][i] < log[t][i + 1]
\* and so has any instance whose creation began after another's had ended, in whatever threads.
InOrder == \A t \in Threads : pc[t] = "taken" => log[t][Len(log[t])] >= floor[t]
Inv == Unique /\ Dense /\ Increasing /\ InOrder
====
