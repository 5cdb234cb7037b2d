---- MODULE MCApi ----
(* Every history of calls, up to a length, over a set of calls: the laws of the interface hold in all
   of them, and each history of that length is handed out to be replayed on the real library. *)
EXTENDS OverApi, Json, IOUtils, TLC

P == JsonDeserialize(IOEnv.GEN)   \* n: slots, prefix: calls made first, ops: alphabet, max: length

VARIABLES hist, s
vars == <<hist, s>>

RECURSIVE Run(_, _)
Run(st, ops) == IF ops = <<>> THEN st ELSE Run(Apply(st, ops[1]), Tail(ops))
Init == hist = <<>> /\ s = Run(Fresh(P.n), P.prefix)
Next == /\ Len(hist) < P.max
        /\ \E o \in 1..Len(P.ops) : hist' = Append(hist, o) /\ s' = Apply(s, P.ops[o])
Spec == Init /\ [][Next]_vars

Inv == Laws(s)
\* C25: what exists never changes.
Immutable == [][Len(s'.heap) >= Len(s.heap) /\ SubSeq(s'.heap, 1, Len(s.heap)) = s.heap]_vars
\* C14: one ID per instance, in the order of creation.
OneNew == [][Len(s'.heap) <= Len(s.heap) + 1]_vars

RECURSIVE Exps(_, _, _)
Exps(st, h, n) == IF n > Len(h) THEN <<>>
                  ELSE LET t == Apply(st, P.ops[h[n]]) IN <<[res |-> t.res, proj |-> Proj(t)]>> \o Exps(t, h, n + 1)
Emit == Len(hist) = P.max => PrintT("@" \o ToJson([h |-> hist, exp |-> Exps(Run(Fresh(P.n), P.prefix), hist, 1)]))
====
