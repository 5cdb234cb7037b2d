---- MODULE OverWrite ----
(* The text an object is written as.  The layout is the library's; what matters is that the loader's
   machine reads it back as the same value (checked by OverGen with RT on). *)
EXTENDS OverValues

Spaces(n) == [i \in 1..n |-> 32]
EscOf(c) == CASE c = Backslash -> <<Backslash, Backslash>>
              [] c = Quote -> <<Backslash, Quote>>
              [] c = 39 -> <<Backslash, 39>>
              [] c = 36 -> <<Backslash, 36>>
              [] c = 10 -> <<Backslash, 110>>
              [] c = 13 -> <<Backslash, 114>>
              [] c = 9 -> <<Backslash, 116>>
              [] OTHER -> <<c>>
WriteStr(s) == <<Quote>> \o FoldLeft(LAMBDA acc, c : acc \o EscOf(c), <<>>, s) \o <<Quote>>
WriteFrac(f) == (IF f.neg THEN <<Minus>> ELSE <<>>) \o MagStr(f.n)
                \o (IF f.d = One THEN <<Dot, 48>> ELSE <<Slash>> \o MagStr(f.d))

RECURSIVE WriteVal(_, _, _)
RECURSIVE WriteFields(_, _, _)
WriteSeq(heap, vals, open, close, ind) ==
  CASE Len(vals) = 0 -> <<open, close>>
    [] Len(vals) = 1 -> <<open>> \o WriteVal(heap, vals[1], ind) \o <<close>>
    [] OTHER -> <<open, NL>>
                \o FoldLeft(LAMBDA acc, v : acc \o Spaces(ind) \o WriteVal(heap, v, ind + 4) \o <<NL>>, <<>>, vals)
                \o Spaces(ind - 4) \o <<close>>
WriteFields(heap, o, ind) ==
  (IF o.parent = 0 THEN <<>> ELSE Spaces(ind) \o <<Caret, Colon, 32>> \o WriteVal(heap, VRef(o.parent), ind + 4) \o <<NL>>)
  \o FoldLeft(LAMBDA acc, p : acc \o Spaces(ind) \o p.n \o <<Colon, 32>> \o WriteVal(heap, p.v, ind + 4) \o <<NL>>, <<>>, o.pairs)
WriteVal(heap, v, ind) ==
  CASE v.t = "null" -> W_null
    [] v.t = "bool" -> IF v.b THEN W_true ELSE W_false
    [] v.t = "int" -> IntStr(v.i)
    [] v.t = "frac" -> WriteFrac(v.f)
    [] v.t = "str" -> WriteStr(v.s)
    [] v.t = "ref" ->
       LET o == heap[v.h] IN
       CASE o.k = "arr" -> WriteSeq(heap, o.vals, LBrack, RBrack, ind)
         [] o.k = "tup" -> WriteSeq(heap, o.vals, LParen, RParen, ind)
         [] o.k = "obj" -> IF o.pairs = <<>> /\ o.parent = 0 THEN <<LBrace, RBrace>>
                           ELSE <<LBrace, NL>> \o WriteFields(heap, o, ind) \o Spaces(ind - 4) \o <<RBrace>>
WriteDoc(heap, v) == WriteFields(heap, heap[v.h], 0)
\* Display form of a value.
Display(heap, v) == WriteVal(heap, v, 4)

\* Number of containers nested in v, itself included.
RECURSIVE Height(_, _)
MaxOf(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, s)
Height(heap, v) ==
  IF v.t # "ref" THEN 0
  ELSE LET o == heap[v.h] IN
       1 + (IF o.k = "obj"
            THEN MaxOf([i \in 1..Len(o.pairs) |-> Height(heap, o.pairs[i].v)]
                       \o <<IF o.parent = 0 THEN 0 ELSE Height(heap, VRef(o.parent))>>)
            ELSE MaxOf([i \in 1..Len(o.vals) |-> Height(heap, o.vals[i])]))
====
