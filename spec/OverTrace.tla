---- MODULE OverTrace ----
(* Validates what the real library did against the loader's specification.

   Every case is one job: a root text (or file), files, directories, and observations of the real
   code loading exactly that.  The machine of OverDoc runs on the job; when it finishes, every
   observation is compared with it, component by component:

     out    an object, or an error
     graph  the loaded object: fields in order, values, element types, parents and sharing
     tree   the same without sharing
     refs   the number of references of every instance
     kind, args, pos   the error's kind, the characters, names and types involved, its position
     alive  the load ended with an object or an error
     eqm    which fields of the loaded object are equal to which (bit 0), also across two loads (bit 1)

   A mismatch is printed; so is every case judged, so that the caller knows none was left out. *)
EXTENDS OverDoc, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

TraceText(j) == Cases[j].text
TraceRoot(j) == Cases[j].root
TraceFiles(j) == Cases[j].files
TraceDirs(j) == Cases[j].dirs
TraceBase(j) == Cases[j].base

Init == \E k \in 1..Len(Cases) : Start(k)
Spec == Init /\ [][Step]_vars

Say(r) == PrintT("@" \o ToJson(r))

RefsMatch(exp, got) == Len(exp) = Len(got) /\ \A i \in 1..Len(exp) : exp[i] = -1 \/ exp[i] = got[i]

\* A line break as the offending character is reported one line down at column 0 (known finding).
LineBreakQuirk(o) == /\ err.kind \in {"FieldChar", "BadEscape"}
                     /\ err.args = <<<<NL>>>>
                     /\ o.line = err.line + 1 /\ o.col = 0

\* Equality of all pairs of fields.
Pairs == heap[ret.h].pairs
EqMatrix(n) == [k \in 1..(n * n) |->
                  LET a == Pairs[((k - 1) \div n) + 1].v
                      b == Pairs[((k - 1) % n) + 1].v
                  IN IF ValEq(heap, a, b) THEN 3 ELSE 0]

Mismatch(o, cmp, comp) ==
  /\ \E i \in 1..Len(cmp) : cmp[i] = comp
  /\ CASE comp = "alive" -> o.o # "ok" /\ o.o # "err"
       [] comp = "eqm" -> ctrl = "end" /\ o.o = "ok" /\ o.m # EqMatrix(o.mn)
       [] comp = "out" -> (ctrl = "end") # (o.o = "ok") \/ (ctrl = "error") # (o.o = "err")
       [] comp = "graph" -> ctrl = "end" /\ o.o = "ok" /\ (o.g # Graph(heap, ret).out \/ ~o.idok)
       [] comp = "tree" -> ctrl = "end" /\ o.o = "ok" /\ o.t # Tree(heap, ret)
       [] comp = "refs" -> ctrl = "end" /\ o.o = "ok" /\ ~RefsMatch(RefsOf(Graph(heap, ret)), o.r)
       [] comp = "kind" -> ctrl = "error" /\ o.o = "err" /\ o.kind # err.kind
       [] comp = "args" -> ctrl = "error" /\ o.o = "err" /\ o.kind = err.kind /\ o.args # err.args
       [] comp = "pos" -> /\ ctrl = "error" /\ o.o = "err" /\ err.kind # "Io"
                          /\ (o.line # err.line \/ o.col # err.col \/ o.file # err.file)

Components == <<"alive", "eqm", "out", "graph", "tree", "refs", "kind", "args", "pos">>

JudgeObs(c, n) ==
  LET o == c.obs[n]
      bad == SelectSeq(Components, LAMBDA comp : Mismatch(o, c.cmp, comp))
      quirk == bad = <<"pos">> /\ o.file = err.file /\ LineBreakQuirk(o)
  IN bad = <<>> \/ Say([t |-> IF quirk THEN "known" ELSE "bad", id |-> c.id, n |-> n, comps |-> bad, exp |-> Expected])

Judge ==
  Finished =>
    LET c == Cases[job] IN
    /\ \A n \in 1..Len(c.obs) : JudgeObs(c, n)
    /\ Say([t |-> "judged", id |-> c.id, r |-> IF ctrl = "end" THEN "ok" ELSE err.kind])
====
