---- MODULE OverApiTrace ----
(* Validates histories of calls recorded from the real library: each call's result and everything
   that is held after it must be what OverApi says.  Compared components:

     res    results of the calls named in resops
     graph  the content of everything held, with sharing
     refs   the number of references of every instance
     ids    the IDs (relative to the first one)
     known  identity as told by IDs, pointers and ptr_eq agree *)
EXTENDS OverApi, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, i, s
vars == <<k, i, s>>

Init == \E c \in 1..Len(Cases) : k = c /\ i = 1 /\ s = Fresh(Cases[c].n)
Next == /\ i <= Len(Cases[k].ops)
        /\ s' = Apply(s, Cases[k].ops[i])
        /\ i' = i + 1
        /\ k' = k
Spec == Init /\ [][Next]_vars

In(x, seq) == \E n \in 1..Len(seq) : seq[n] = x
Say(r) == PrintT("@" \o ToJson(r))

\* After call i - 1 the state is s; o is what was observed then.
Judge ==
  LET c == Cases[k] IN
  /\ i > 1 =>
       LET o == c.obs[i - 1]
           op == c.ops[i - 1]
           p == Proj(s)
           bad == SelectSeq(<<"res", "graph", "refs", "ids", "same">>, LAMBDA comp :
                    /\ In(comp, c.cmp)
                    /\ CASE comp = "res" -> /\ In(op.o, c.resops)
                                              /\ ~Fits(op, s.res, o.res)
                         [] comp = "graph" -> o.g # p.g
                         [] comp = "refs" -> o.refs # p.refs
                         [] comp = "ids" -> o.ids # p.ids
                         [] comp = "same" -> ~o.same)
       IN bad = <<>> \/ Say([t |-> "bad", id |-> c.id, n |-> i - 1, comps |-> bad, exp |-> [res |-> s.res, proj |-> p]])
  /\ i = Len(c.ops) + 1 => Say([t |-> "judged", id |-> c.id])
Inv == Laws(s)
====
