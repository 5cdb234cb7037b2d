---- MODULE OverApi ----
(* Histories of calls of the programming interface.

   The caller holds handles in numbered slots: scalars, or references to instances.  Every call takes
   its arguments from slots, answers with a result, and may put a value into a slot (dropping what
   was there).  heap holds every instance ever created, in the order of creation: the instance at
   index i has the ID i - 1.

   Apply(s, op) is the meaning of one call: [heap, slots, res].  A result is [r, e, a, d]: r is "ok",
   "none" (nothing found) or "err"; e and a are an error's name and what it names; d is the data that
   was asked for. *)
EXTENDS Integers, Sequences, SequencesExt, OverValues, OverWrite

Empty == [t |-> "none"]
IsRef(v) == v.t = "ref"
Kind(s, v) == IF IsRef(v) THEN s.heap[v.h].k ELSE v.t
Val(s, i) == s.slots[i]
\* Arguments: those of the slots that hold something.
Args(s, is) == SelectSeq(is, LAMBDA k : s.slots[k].t # "none")
Vals(s, is) == LET a == Args(s, is) IN [k \in 1..Len(a) |-> s.slots[a[k]]]
ArgNames(s, is, names) ==
  LET ks == SelectSeq([k \in 1..Len(is) |-> k], LAMBDA k : s.slots[is[k]].t # "none")
  IN [k \in 1..Len(ks) |-> names[ks[k]]]

Bit(b) == IF b THEN 1 ELSE 0
Ok(d) == [r |-> "ok", e |-> "", a |-> <<>>, d |-> d]
None == [r |-> "none", e |-> "", a |-> <<>>, d |-> <<>>]
Err(e, a) == [r |-> "err", e |-> e, a |-> a, d |-> <<>>]

Unchanged(s, res) == [heap |-> s.heap, slots |-> s.slots, res |-> res]
Put(s, to, v, res) == [heap |-> s.heap, slots |-> [s.slots EXCEPT ![to] = v], res |-> res]
New(s, to, inst) == [heap |-> Append(s.heap, inst),
                     slots |-> [s.slots EXCEPT ![to] = VRef(Len(s.heap) + 1)], res |-> Ok(<<>>)]
Tys(s, vs) == [k \in 1..Len(vs) |-> TypeOf(s.heap, vs[k])]

\* Constructors.
MakeArr(s, to, vs) ==
  LET j == JoinAll(s.heap, vs, 1, TAny) IN
  IF j.ok THEN New(s, to, HArr(vs, j.ty))
  ELSE Unchanged(s, Err("ArrTypeMismatch", <<TypeFlat(j.ty), TypeFlat(j.found)>>))
FirstInvalid(names) == LET bad == SelectSeq(names, LAMBDA n : ~ValidName(n)) IN IF bad = <<>> THEN <<0>> ELSE bad[1]
Pairs(names, vs) == [k \in 1..Len(names) |-> Pair(names[k], vs[k])]
MakeObj(s, to, checked, names, vs, parent) ==
  IF checked /\ \E k \in 1..Len(names) : ~ValidName(names[k])
  THEN Unchanged(s, Err("InvalidFieldName", <<FirstInvalid(names)>>))
  ELSE New(s, to, HObj(Pairs(names, vs), parent))
\* The object macro: the value of the (last) field "^" is the parent.
Carets(names) == {k \in 1..Len(names) : names[k] = <<Caret>>}
MacroObj(s, to, names, vs) ==
  LET rest == SelectSeq([k \in 1..Len(names) |-> k], LAMBDA k : names[k] # <<Caret>>)
      ns == [k \in 1..Len(rest) |-> names[rest[k]]]
      ws == [k \in 1..Len(rest) |-> vs[rest[k]]]
  IN IF Carets(names) = {} THEN MakeObj(s, to, TRUE, ns, ws, 0)
     ELSE LET p == vs[CHOOSE k \in Carets(names) : \A l \in Carets(names) : l <= k] IN
          IF Kind(s, p) # "obj" THEN Unchanged(s, Err("TypeMismatch", <<TypeFlat(TObj), TypeFlat(TypeOf(s.heap, p))>>))
          ELSE MakeObj(s, to, TRUE, ns, ws, p.h)

\* Typed getters.
Wanted(ty) == CASE ty = "bool" -> TBool [] ty = "int" -> TInt [] ty = "frac" -> TFrac [] ty = "str" -> TStr
                [] ty = "arr" -> TArr(TAny) [] ty = "tup" -> TTup(<<>>) [] ty = "obj" -> TObj
Typed(s, to, v, ty) ==
  IF Kind(s, v) = ty THEN Put(s, to, v, Ok(<<>>))
  ELSE IF ty = "frac" /\ v.t = "int" THEN Put(s, to, VFrac(FOfInt(v.i)), Ok(<<>>))
  ELSE Unchanged(s, Err("TypeMismatch", <<TypeFlat(Wanted(ty)), TypeFlat(TypeOf(s.heap, v))>>))
FieldOf(s, h, name) == LET src == Source(s.heap, h, name) IN
                       s.heap[src].pairs[Find(s.heap[src].pairs, name)].v

\* Everything that can be asked about a value's own content.
Names(pairs) == FoldLeft(LAMBDA acc, p : acc \o <<Len(p.n)>> \o p.n, <<>>, pairs)
Query(s, v) ==
  TypeFlat(TypeOf(s.heap, v)) \o <<Bit(v.t = "null")>> \o
  (IF ~IsRef(v) THEN <<>>
   ELSE LET o == s.heap[v.h] IN
        IF o.k = "obj" THEN <<Len(o.pairs), Bit(o.pairs = <<>>), Bit(o.parent # 0)>> \o Names(o.pairs)
        ELSE <<Len(o.vals), Bit(o.vals = <<>>)>>)

\* C11, C12: values that a document can hold are written and displayed so that they load again:
\* every object has unique loadable field names, and the nesting stays within the limit.
RECURSIVE Reachable(_, _)
Reachable(heap, hs) ==
  LET more == UNION {LET o == heap[h] IN
                       IF o.k = "obj" THEN {o.pairs[k].v.h : k \in {k \in 1..Len(o.pairs) : o.pairs[k].v.t = "ref"}}
                                           \union (IF o.parent = 0 THEN {} ELSE {o.parent})
                       ELSE {o.vals[k].h : k \in {k \in 1..Len(o.vals) : o.vals[k].t = "ref"}} : h \in hs} \ hs
  IN IF more = {} THEN hs ELSE Reachable(heap, hs \union more)
Loadable(pairs) == \A k \in 1..Len(pairs) :
  /\ ValidName(pairs[k].n) /\ ~IsReserved(pairs[k].n)
  /\ Find(pairs, pairs[k].n) = k
Writable(heap, v) ==
  v.t = "ref" => /\ \A h \in Reachable(heap, {v.h}) : heap[h].k = "obj" => Loadable(heap[h].pairs)
                 /\ \A h \in Reachable(heap, {v.h}) : heap[h].k = "arr" => JoinAll(heap, heap[h].vals, 1, TAny).ty = heap[h].ty
                 /\ Height(heap, v) <= 62

\* Equality of two values; 3 where two empty arrays were given element types that do not fit one
\* another, which may count as equal or not.
Same(s, a, b) == IF ValEq(s.heap, a, b) # TypedEq(s.heap, a, b) THEN 3 ELSE Bit(ValEq(s.heap, a, b))

\* Whether o is the result the call has to have.
Fits(op, res, o) ==
  CASE op.o = "write" -> res.d = <<1>> => o = res
    [] op.o \in {"cmp", "natc"} /\ res.d # <<>> /\ res.d[1] = 3 ->
         o.r = "ok" /\ Len(o.d) = Len(res.d) /\ o.d[1] \in {0, 1} /\ \A k \in 2..Len(o.d) : o.d[k] = res.d[k]
    [] OTHER -> o = res

\* Comparison with a native value of type ty; ty only decides which comparison is called.
Apply(s, op) ==
  CASE op.o \in {"val", "from"} -> Put(s, op.to, op.v, Ok(<<>>))
    [] op.o = "arr" -> MakeArr(s, op.to, Vals(s, op.args))
    [] op.o = "arrU" -> LET vs == Vals(s, op.args)
                            j == JoinAll(s.heap, vs, 1, TAny)
                            n == IF op.keep < 0 \/ op.keep > Len(vs) THEN Len(vs) ELSE op.keep
                        IN \* The caller says what the elements are, of which the array may hold fewer.
                           IF j.ok THEN New(s, op.to, HArr(SubSeq(vs, 1, n), j.ty)) ELSE Unchanged(s, Ok(<<>>))
    [] op.o = "tup" -> New(s, op.to, HTup(Vals(s, op.args), Tys(s, Vals(s, op.args))))
    [] op.o = "obj" ->
       LET names == ArgNames(s, op.args, op.names) IN
       IF op.how = "mac" THEN MacroObj(s, op.to, names, Vals(s, op.args))
       ELSE IF op.parent # 0 /\ Kind(s, Val(s, op.parent)) # "obj" THEN Unchanged(s, Ok(<<>>))
       ELSE MakeObj(s, op.to, op.how = "checked", names, Vals(s, op.args),
                    IF op.parent = 0 THEN 0 ELSE Val(s, op.parent).h)
    [] op.o = "empty" -> New(s, op.to, CASE op.k = "arr" -> HArr(<<>>, TAny) [] op.k = "tup" -> HTup(<<>>, <<>>)
                                         [] op.k = "obj" -> HObj(<<>>, 0))
    [] op.o = "clone" -> Put(s, op.to, Val(s, op.s), Ok(<<>>))
    [] op.o = "drop" -> Put(s, op.s, Empty, Ok(<<>>))
    [] op.o = "get" ->
       IF Kind(s, Val(s, op.s)) # "obj" THEN Unchanged(s, Ok(<<>>))
       ELSE IF Source(s.heap, Val(s, op.s).h, op.name) = 0 THEN Unchanged(s, None)
       ELSE Put(s, op.to, FieldOf(s, Val(s, op.s).h, op.name), Ok(<<>>))
    [] op.o = "src" ->
       IF Kind(s, Val(s, op.s)) # "obj" THEN Unchanged(s, Ok(<<>>))
       ELSE LET src == Source(s.heap, Val(s, op.s).h, op.name) IN
            IF src = 0 THEN Unchanged(s, None)
            ELSE [heap |-> s.heap, res |-> Ok(<<>>),
                  slots |-> [s.slots EXCEPT ![op.to] = FieldOf(s, Val(s, op.s).h, op.name), ![op.to2] = VRef(src)]]
    [] op.o = "parent" ->
       IF Kind(s, Val(s, op.s)) # "obj" THEN Unchanged(s, Ok(<<>>))
       ELSE LET p == s.heap[Val(s, op.s).h].parent IN
            IF p = 0 THEN Unchanged(s, None) ELSE Put(s, op.to, VRef(p), Ok(<<>>))
    [] op.o = "idx" ->
       IF Kind(s, Val(s, op.s)) \notin {"arr", "tup"} THEN Unchanged(s, Ok(<<>>))
       ELSE LET o == s.heap[Val(s, op.s).h] IN
            IF Small(op.i) /\ Native(op.i) < Len(o.vals) THEN Put(s, op.to, o.vals[Native(op.i) + 1], Ok(<<>>))
            ELSE Unchanged(s, Err(IF o.k = "arr" THEN "ArrOutOfBounds" ELSE "TupOutOfBounds", <<op.i>>))
    [] op.o = "as" -> IF Val(s, op.s).t = "none" THEN Unchanged(s, Ok(<<>>)) ELSE Typed(s, op.to, Val(s, op.s), op.ty)
    [] op.o = "asf" ->
       IF Kind(s, Val(s, op.s)) # "obj" THEN Unchanged(s, Ok(<<>>))
       ELSE IF Source(s.heap, Val(s, op.s).h, op.name) = 0 THEN Unchanged(s, Err("FieldNotFound", <<op.name>>))
       ELSE Typed(s, op.to, FieldOf(s, Val(s, op.s).h, op.name), op.ty)
    [] op.o = "q" -> IF Val(s, op.s).t = "none" THEN Unchanged(s, Ok(<<>>)) ELSE Unchanged(s, Ok(Query(s, Val(s, op.s))))
    [] op.o = "has" ->
       IF Kind(s, Val(s, op.s)) # "obj" THEN Unchanged(s, Ok(<<>>))
       ELSE Unchanged(s, Ok(<<Bit(Find(s.heap[Val(s, op.s).h].pairs, op.name) > 0)>>))
    [] op.o = "cmp" ->
       LET a == Val(s, op.s)
           b == Val(s, op.s2)
       IN IF a.t = "none" \/ b.t = "none" THEN Unchanged(s, Ok(<<>>))
          ELSE Unchanged(s, Ok(<<Same(s, a, b),
                                 IF IsRef(a) /\ IsRef(b) /\ Kind(s, a) = Kind(s, b) THEN Bit(a.h = b.h) ELSE 2>>))
    [] op.o = "nat" -> IF Val(s, op.s).t = "none" THEN Unchanged(s, Ok(<<>>))
                       ELSE Unchanged(s, Ok(<<Bit(Val(s, op.s) = op.v)>>))
    [] op.o = "natc" ->    \* with the native container in slot s2
       IF Val(s, op.s).t = "none" \/ ~IsRef(Val(s, op.s2)) THEN Unchanged(s, Ok(<<>>))
       ELSE Unchanged(s, Ok(<<Same(s, Val(s, op.s), Val(s, op.s2))>>))
    [] op.o = "valid" -> Unchanged(s, Ok(<<Bit(ValidName(op.name))>>))
    [] op.o = "write" -> IF Val(s, op.s).t = "none" THEN Unchanged(s, Ok(<<>>))
                         ELSE Unchanged(s, Ok(<<Bit(Writable(s.heap, Val(s, op.s)))>>))

----
\* What the caller can see of everything that is held.
ProjAcc(s) ==
  FoldLeft(LAMBDA acc, v : IF v.t = "none" THEN [acc EXCEPT !.out = Append(@, -1)] ELSE Flat(s.heap, v, acc),
           [out |-> <<>>, seen |-> <<>>, sharing |-> TRUE], s.slots)
SlotRefs(s, h) == Len(SelectSeq(s.slots, LAMBDA v : v.t = "ref" /\ v.h = h))
Proj(s) ==
  LET acc == ProjAcc(s) IN
  [g |-> acc.out,
   refs |-> [k \in 1..Len(acc.seen) |-> Holders(s.heap, acc.seen, acc.seen[k]) + SlotRefs(s, acc.seen[k])],
   ids |-> [k \in 1..Len(acc.seen) |-> acc.seen[k] - 1]]

Fresh(n) == [heap |-> <<>>, slots |-> [k \in 1..n |-> Empty], res |-> Ok(<<>>)]

----
\* Laws of the interface, checked in every state reached.
Held(s) == {s.slots[k] : k \in {k \in 1..Len(s.slots) : s.slots[k].t # "none"}}
\* C15: equality is an equivalence.
EqLaws(s) ==
  /\ \A a \in Held(s) : ValEq(s.heap, a, a)
  /\ \A a, b \in Held(s) : ValEq(s.heap, a, b) = ValEq(s.heap, b, a)
  /\ \A a, b, c \in Held(s) : ValEq(s.heap, a, b) /\ ValEq(s.heap, b, c) => ValEq(s.heap, a, c)
\* C06: every array has the most specific type of its elements, but where a caller gave it another
\* that they conform to.
ArrTyped(s) == \A i \in 1..Len(s.heap) :
  s.heap[i].k = "arr" => LET r == JoinAll(s.heap, s.heap[i].vals, 1, TAny) IN r.ok /\ r.ty = s.heap[i].ty
ArrFits(s) == \A i \in 1..Len(s.heap) :
  s.heap[i].k = "arr" => LET r == JoinAll(s.heap, s.heap[i].vals, 1, s.heap[i].ty) IN r.ok /\ r.ty = s.heap[i].ty
\* Equal values have equal types (up to nothing: types are functions of content).
EqTypes(s) == LET typed == ArrTyped(s) IN
  \A a, b \in Held(s) : TypedEq(s.heap, a, b) =>
    IF typed THEN TypeOf(s.heap, a) = TypeOf(s.heap, b) ELSE TypeEq(TypeOf(s.heap, a), TypeOf(s.heap, b))
\* C08: the source of a field has it and nothing nearer does; own fields win.
SourceLaws(s) ==
  \A h \in {i \in 1..Len(s.heap) : s.heap[i].k = "obj"} :
    \A name \in UNION {{s.heap[i].pairs[k].n : k \in 1..Len(s.heap[i].pairs)} : i \in {j \in 1..Len(s.heap) : s.heap[j].k = "obj"}} :
      LET src == Source(s.heap, h, name) IN
      /\ Find(s.heap[h].pairs, name) > 0 => src = h
      /\ src > 0 => Find(s.heap[src].pairs, name) > 0
      /\ (src # h /\ s.heap[h].parent = 0) => src = 0
      /\ (src # h /\ s.heap[h].parent # 0) => src = Source(s.heap, s.heap[h].parent, name)
\* C13: every instance that can be reached is held at least once; nothing is cyclic.
RefLaws(s) == LET p == Proj(s) IN \A k \in 1..Len(p.refs) : p.refs[k] >= 1
HeapAcyclic(s) ==
  \A i \in 1..Len(s.heap) :
    LET o == s.heap[i]
        vs == IF o.k = "obj" THEN [a \in 1..Len(o.pairs) |-> o.pairs[a].v] ELSE o.vals
    IN /\ \A a \in 1..Len(vs) : vs[a].t = "ref" => vs[a].h < i
       /\ o.k = "obj" => o.parent < i
Laws(s) == EqLaws(s) /\ EqTypes(s) /\ SourceLaws(s) /\ RefLaws(s) /\ HeapAcyclic(s) /\ ArrFits(s)
====
