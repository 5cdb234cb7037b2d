---- MODULE OverValues ----
(* Values of OVER, the heap of container instances, operators on values, and the flat encoding of
   (graphs of) values that is shared with the harness.

   A container value is a reference [t |-> "ref", h |-> i] to the instance heap[i], so that sharing
   is explicit: two references to the same index are the same instance. *)
EXTENDS Integers, Sequences, SequencesExt, Chars, BigNum, OverTypes

VNull == [t |-> "null"]
VBool(b) == [t |-> "bool", b |-> b]
VInt(i) == [t |-> "int", i |-> i]
VFrac(f) == [t |-> "frac", f |-> f]
VStr(s) == [t |-> "str", s |-> s]
VRef(h) == [t |-> "ref", h |-> h]

Pair(n, v) == [n |-> n, v |-> v]
HObj(pairs, parent) == [k |-> "obj", pairs |-> pairs, parent |-> parent]   \* parent = 0: none
HArr(vals, ty) == [k |-> "arr", vals |-> vals, ty |-> ty]
HTup(vals, tys) == [k |-> "tup", vals |-> vals, tys |-> tys]

TypeOf(heap, v) ==
  CASE v.t = "null" -> TNull
    [] v.t = "bool" -> TBool
    [] v.t = "int" -> TInt
    [] v.t = "frac" -> TFrac
    [] v.t = "str" -> TStr
    [] v.t = "ref" -> LET o == heap[v.h] IN
                      CASE o.k = "obj" -> TObj
                        [] o.k = "arr" -> TArr(o.ty)
                        [] o.k = "tup" -> TTup(o.tys)

\* Index of the first pair called name, or 0.
RECURSIVE FindFrom(_, _, _)
FindFrom(pairs, name, i) ==
  IF i > Len(pairs) THEN 0 ELSE IF pairs[i].n = name THEN i ELSE FindFrom(pairs, name, i + 1)
Find(pairs, name) == FindFrom(pairs, name, 1)

\* The fields reachable from object h: its own, then those of its ancestors, nearest first.
RECURSIVE AllPairs(_, _)
AllPairs(heap, h) == IF h = 0 THEN <<>> ELSE heap[h].pairs \o AllPairs(heap, heap[h].parent)

\* The object among h and its ancestors that supplies field name, or 0.
RECURSIVE Source(_, _, _)
Source(heap, h, name) ==
  IF h = 0 THEN 0 ELSE IF Find(heap[h].pairs, name) > 0 THEN h ELSE Source(heap, heap[h].parent, name)

\* Fold of the element types of an array: [ok, ty], or the first element that does not fit.
RECURSIVE JoinAll(_, _, _, _)
JoinAll(heap, vals, i, ty) ==
  IF i > Len(vals) THEN [ok |-> TRUE, ty |-> ty]
  ELSE LET t == TypeOf(heap, vals[i]) IN
       IF TypeEq(ty, t) THEN JoinAll(heap, vals, i + 1, Join(ty, t))
       ELSE [ok |-> FALSE, ty |-> ty, found |-> t]

RECURSIVE ValEq(_, _, _)
SeqEq(heap, a, b) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : ValEq(heap, a[i], b[i])
\* Structural equality of two values.
ValEq(heap, a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "null" -> TRUE
       [] a.t = "bool" -> a.b = b.b
       [] a.t = "int" -> a.i = b.i
       [] a.t = "frac" -> a.f = b.f
       [] a.t = "str" -> a.s = b.s
       [] a.t = "ref" ->
          \/ a.h = b.h
          \/ LET x == heap[a.h]
                 y == heap[b.h] IN
             /\ x.k = y.k
             /\ CASE x.k = "obj" ->
                       /\ (x.parent = 0) = (y.parent = 0)
                       /\ (x.parent # 0 => ValEq(heap, VRef(x.parent), VRef(y.parent)))
                       /\ Len(x.pairs) = Len(y.pairs)
                       /\ \A i \in 1..Len(x.pairs) : /\ x.pairs[i].n = y.pairs[i].n
                                                     /\ ValEq(heap, x.pairs[i].v, y.pairs[i].v)
                  [] OTHER -> SeqEq(heap, x.vals, y.vals)

\* The same, when arrays that were given element types (beyond what their elements show) that do not
\* fit one another count as different.
RECURSIVE TypedEq(_, _, _)
TypedEq(heap, a, b) ==
  IF a.t # "ref" \/ b.t # "ref" THEN ValEq(heap, a, b)
  ELSE \/ a.h = b.h
       \/ LET x == heap[a.h]
              y == heap[b.h] IN
          /\ x.k = y.k
          /\ CASE x.k = "obj" ->
                    /\ (x.parent = 0) = (y.parent = 0)
                    /\ (x.parent # 0 => TypedEq(heap, VRef(x.parent), VRef(y.parent)))
                    /\ Len(x.pairs) = Len(y.pairs)
                    /\ \A i \in 1..Len(x.pairs) : /\ x.pairs[i].n = y.pairs[i].n
                                                  /\ TypedEq(heap, x.pairs[i].v, y.pairs[i].v)
               [] OTHER -> /\ (x.k = "arr" => TypeEq(x.ty, y.ty))
                           /\ Len(x.vals) = Len(y.vals)
                           /\ \A i \in 1..Len(x.vals) : TypedEq(heap, x.vals[i], y.vals[i])

----
\* Operators.  Results: [ok |-> TRUE, v, heap] or [ok |-> FALSE, kind, args].
Good(v, heap) == [ok |-> TRUE, v |-> v, heap |-> heap]
Bad(kind, args) == [ok |-> FALSE, kind |-> kind, args |-> args]

UnOp(heap, op, v) ==
  IF v.t \notin {"int", "frac"} THEN Bad("UnOp", <<<<op>>, TypeStr(TypeOf(heap, v))>>)
  ELSE IF op = Plus THEN Good(v, heap)
  ELSE IF v.t = "int" THEN Good(VInt(INeg(v.i)), heap)
  ELSE Good(VFrac(FNeg(v.f)), heap)

IsArr(heap, v) == v.t = "ref" /\ heap[v.h].k = "arr"

BinOp(heap, op, v1, v2) ==
  LET \* an Int next to a Frac is promoted
      a == IF v1.t = "int" /\ v2.t = "frac" THEN VFrac(FOfInt(v1.i)) ELSE v1
      b == IF v1.t = "frac" /\ v2.t = "int" THEN VFrac(FOfInt(v2.i)) ELSE v2
      bad == Bad("BinOp", <<<<op>>, TypeStr(TypeOf(heap, a)), TypeStr(TypeOf(heap, b))>>)
      ints == a.t = "int" /\ b.t = "int"
      fracs == a.t = "frac" /\ b.t = "frac"
  IN CASE op = Plus ->
            IF ints THEN Good(VInt(IAdd(a.i, b.i)), heap)
            ELSE IF fracs THEN Good(VFrac(FAdd(a.f, b.f)), heap)
            ELSE IF a.t = "str" /\ b.t = "str" THEN Good(VStr(a.s \o b.s), heap)
            ELSE IF IsArr(heap, a) /\ IsArr(heap, b) THEN
                 LET x == heap[a.h]
                     y == heap[b.h] IN
                 IF TypeEq(x.ty, y.ty)
                 THEN Good(VRef(Len(heap) + 1), Append(heap, HArr(x.vals \o y.vals, Join(x.ty, y.ty))))
                 ELSE bad
            ELSE bad
       [] op = Minus ->
            IF ints THEN Good(VInt(ISub(a.i, b.i)), heap)
            ELSE IF fracs THEN Good(VFrac(FSub(a.f, b.f)), heap)
            ELSE bad
       [] op = Star ->
            IF ints THEN Good(VInt(IMul(a.i, b.i)), heap)
            ELSE IF fracs THEN Good(VFrac(FMul(a.f, b.f)), heap)
            ELSE bad
       [] op = Slash ->
            IF ints THEN IF IZero(b.i) THEN Bad("BadNumeric", <<>>)
                         ELSE Good(VFrac(FDiv(FOfInt(a.i), FOfInt(b.i))), heap)
            ELSE IF fracs THEN IF FZero(b.f) THEN Bad("BadNumeric", <<>>)
                               ELSE Good(VFrac(FDiv(a.f, b.f)), heap)
            ELSE bad
       [] op = Percent ->
            IF ints THEN IF IZero(b.i) THEN Bad("BadNumeric", <<>>)
                         ELSE Good(VInt(IRem(a.i, b.i)), heap)
            ELSE bad

----
(* Flat encoding of the graph below a value.  Containers are numbered 1, 2, ... in the order of a
   depth-first walk (an object's parent before its fields); a container seen before is written as
   a back reference, so that equal encodings mean equal values with equal sharing. *)
LOCAL FlatMag(m) == <<Len(m)>> \o m
LOCAL Bit(b) == IF b THEN 1 ELSE 0

\* acc = [out, seen, n]: seen is the sequence of heap indices in numbering order.
RECURSIVE IndexIn(_, _, _)
IndexIn(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexIn(s, x, i + 1)

RECURSIVE Flat(_, _, _)
FlatSeq(heap, vals, acc) ==
  FoldLeft(LAMBDA ac, v : Flat(heap, v, ac), acc, vals)
FlatPairs(heap, pairs, acc) ==
  FoldLeft(LAMBDA ac, p : Flat(heap, p.v, [ac EXCEPT !.out = @ \o <<Len(p.n)>> \o p.n]), acc, pairs)
Flat(heap, v, acc) ==
  CASE v.t = "null" -> [acc EXCEPT !.out = Append(@, 1)]
    [] v.t = "bool" -> [acc EXCEPT !.out = @ \o <<2, Bit(v.b)>>]
    [] v.t = "int" -> [acc EXCEPT !.out = @ \o <<3, Bit(v.i.neg)>> \o FlatMag(v.i.m)]
    [] v.t = "frac" -> [acc EXCEPT !.out = @ \o <<4, Bit(v.f.neg)>> \o FlatMag(v.f.n) \o FlatMag(v.f.d)]
    [] v.t = "str" -> [acc EXCEPT !.out = @ \o <<5, Len(v.s)>> \o v.s]
    [] v.t = "ref" ->
       LET i == IF acc.sharing THEN IndexIn(acc.seen, v.h, 1) ELSE 0
           o == heap[v.h]
           ac == [acc EXCEPT !.seen = IF acc.sharing THEN Append(@, v.h) ELSE @]
       IN IF i > 0 THEN [acc EXCEPT !.out = @ \o <<9, i>>]
          ELSE CASE o.k = "arr" ->
                      FlatSeq(heap, o.vals, [ac EXCEPT !.out = @ \o <<6>> \o TypeFlat(o.ty) \o <<Len(o.vals)>>])
                 [] o.k = "tup" ->
                      FlatSeq(heap, o.vals, [ac EXCEPT !.out = @ \o <<7>> \o TypeFlat(TTup(o.tys)) \o <<Len(o.vals)>>])
                 [] o.k = "obj" ->
                      LET a1 == [ac EXCEPT !.out = @ \o <<8, IF o.parent = 0 THEN 0 ELSE 1>>]
                          a2 == IF o.parent = 0 THEN a1 ELSE Flat(heap, VRef(o.parent), a1)
                      IN FlatPairs(heap, o.pairs, [a2 EXCEPT !.out = Append(@, Len(o.pairs))])

Graph(heap, v) == Flat(heap, v, [out |-> <<>>, seen |-> <<>>, sharing |-> TRUE])
Tree(heap, v) == Flat(heap, v, [out |-> <<>>, seen |-> <<>>, sharing |-> FALSE]).out

\* Number of places inside the instances idxs that hold instance h.
LOCAL Count(s, h) == Len(SelectSeq(s, LAMBDA v : v.t = "ref" /\ v.h = h))
HoldersIn(heap, j, h) ==
  LET o == heap[j] IN
  IF o.k = "obj"
  THEN Count([i \in 1..Len(o.pairs) |-> o.pairs[i].v], h) + (IF o.parent = h THEN 1 ELSE 0)
  ELSE Count(o.vals, h)
Holders(heap, idxs, h) ==
  FoldLeft(LAMBDA n, j : n + HoldersIn(heap, j, h), 0, idxs)
====
