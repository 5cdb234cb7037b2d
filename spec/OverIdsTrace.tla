---- MODULE OverIdsTrace ----
(* Validates the IDs that instances of the real library had.

     threads   per thread and phase the IDs of the instances it made: there must be an order of OverIds
               that explains them (the numbers say which), where nothing of a later phase comes before
               the end of an earlier one
     mixed     per thread its steps: [0, id] one instance made, [1, id...] the instances of a loaded
               document: all different, and increasing from step to step
     big       made, distinct, twice, outside, back, max of a run too long to write down
     far       what came after a great number of instances, relative to that number  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Say(r) == PrintT("@" \o ToJson(r))

VARIABLES job, next, at, phase
vars == <<job, next, at, phase>>
C == Cases[job]

Init == /\ job \in 1..Len(Cases) /\ next = 0 /\ phase = 1
        /\ at = [t \in 1..Len(Cases[job].log) |-> 1]

Threads == 1..Len(C.log)
Log(t) == C.log[t][phase]
\* The step of OverIds that thread t took next.
Take(t) == /\ at[t] <= Len(Log(t)) /\ Log(t)[at[t]] = next
           /\ next' = next + 1
           /\ at' = [at EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<job, phase>>
PhaseOver == \A t \in Threads : at[t] > Len(Log(t))
NextPhase == /\ PhaseOver /\ phase < Len(C.log[1])
             /\ phase' = phase + 1
             /\ at' = [t \in Threads |-> 1]
             /\ UNCHANGED <<job, next>>
Next == C.k = "threads" /\ ((\E t \in Threads : Take(t)) \/ NextPhase)
Spec == Init /\ [][Next]_vars

Range(s) == {s[i] : i \in 1..Len(s)}
Ids(step) == Range(Tail(step))
MixedOk ==
  /\ \A t \in Threads : \A i \in 1..(Len(C.log[t]) - 1) :
       \A x \in Ids(C.log[t][i]), y \in Ids(C.log[t][i + 1]) : x < y
  /\ LET steps == UNION {{<<t, i>> : i \in 1..Len(C.log[t])} : t \in Threads}
         n == [s \in steps |-> Cardinality(Ids(C.log[s[1]][s[2]]))]
         total == UNION {Ids(C.log[s[1]][s[2]]) : s \in steps}
         RECURSIVE Sum(_)
         Sum(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN n[s] + Sum(S \ {s})
     IN Cardinality(total) = Sum(steps)
BigOk == C.made = C.distinct /\ C.twice = 0 /\ C.outside = 0 /\ C.back = 0 /\ C.max = C.made - 1
FarOk == C.off = 0 /\ C.tail = [i \in 1..Len(C.tail) |-> i - 1] /\ Len(C.tail) > 0

Stuck == CASE C.k = "threads" -> ~ENABLED Next
           [] OTHER -> TRUE
Ok == CASE C.k = "threads" -> PhaseOver /\ phase = Len(C.log[1])
        [] C.k = "mixed" -> MixedOk
        [] C.k = "big" -> BigOk
        [] C.k = "far" -> FarOk
Judge == Stuck => /\ Ok \/ Say([t |-> "bad", id |-> C.id, next |-> next, at |-> at, phase |-> phase])
                  /\ Say([t |-> "judged", id |-> C.id])
====
