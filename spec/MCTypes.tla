---- MODULE MCTypes ----
(* The laws of the relations between types, over all types of a universe; their definitions in OverTypes
   are recursive, the laws say what they mean. *)
EXTENDS OverTypes, FiniteSets, TLC

CONSTANT Size   \* "three": few types, the laws about three types as well; "deep", "big"

Atoms == {TAny, TInt, TStr}
\* Arrays and tuples of up to n types of a set.
RECURSIVE Tuples(_, _)
Tuples(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == Tuples(S, n - 1) IN T \union {Append(t, x) : t \in T, x \in S}
Grow(S, n) == S \union {TArr(x) : x \in S} \union {TTup(t) : t \in Tuples(S, n)}
U1 == Grow(Atoms, 2)
U2 == Grow(Grow({TAny, TInt}, 2), 2)
U3 == Grow(U1, 2)
U == CASE Size = "three" -> U1 [] Size = "deep" -> U2 [] Size = "big" -> U3

VARIABLES a, b
vars == <<a, b>>
Init == a \in U /\ b \in U
Spec == Init /\ [][FALSE]_vars

Common(x, y) == {c \in U : Refines(c, x) /\ Refines(c, y)}
Laws ==
  \* strictly the same = equal without Any standing for anything = the same structure
  /\ TypeIs(a, b) <=> a = b
  /\ TypeIs(a, b) <=> (Refines(a, b) /\ Refines(b, a))
  \* equal when there is a type both are shapes of
  /\ TypeEq(a, b) <=> Common(a, b) # {}
  /\ TypeEq(a, b) <=> TypeEq(b, a)
  /\ TypeEq(a, a) /\ TypeEq(a, TAny)
  /\ Refines(a, b) => TypeEq(a, b) /\ Join(a, b) = a
  \* the join is the least specific type that is a shape of both, whatever the order
  /\ TypeEq(a, b) => LET j == Join(a, b) IN
       /\ j = Join(b, a) /\ j \in Common(a, b)
       /\ \A c \in Common(a, b) : Refines(c, j)
       /\ HasAny(j) => HasAny(a) /\ HasAny(b)
       /\ Join(a, j) = j /\ Join(j, b) = j
  /\ Join(a, a) = a
  \* a type without Any is equal to no other such type
  /\ (TypeEq(a, b) /\ ~HasAny(a) /\ ~HasAny(b)) => a = b
  /\ HasAny(a) <=> \E c \in U : c # a /\ Refines(c, a)
LawsOfThree == Size = "three" => \A c \in U :
  /\ (Refines(a, b) /\ Refines(b, c)) => Refines(a, c)
  /\ (TypeEq(a, b) /\ TypeEq(Join(a, b), c)) <=> (TypeEq(b, c) /\ TypeEq(a, Join(b, c)))
  /\ (TypeEq(a, b) /\ TypeEq(Join(a, b), c)) => Join(Join(a, b), c) = Join(a, Join(b, c))
====
