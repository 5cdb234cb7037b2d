---- MODULE OverTypes ----
(* The types of OVER and their relations. *)
EXTENDS Naturals, Sequences, Chars

TAny == [k |-> "Any"]
TNull == [k |-> "Null"]
TBool == [k |-> "Bool"]
TInt == [k |-> "Int"]
TFrac == [k |-> "Frac"]
TStr == [k |-> "Str"]
TObj == [k |-> "Obj"]
TArr(t) == [k |-> "Arr", e |-> t]
TTup(ts) == [k |-> "Tup", es |-> ts]

RECURSIVE TypeIs(_, _)
TypeIs(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "Arr" -> TypeIs(a.e, b.e)
       [] a.k = "Tup" -> /\ Len(a.es) = Len(b.es)
                         /\ \A i \in 1..Len(a.es) : TypeIs(a.es[i], b.es[i])
       [] OTHER -> TRUE

RECURSIVE TypeEq(_, _)
TypeEq(a, b) ==
  \/ a.k = "Any"
  \/ b.k = "Any"
  \/ /\ a.k = b.k
     /\ CASE a.k = "Arr" -> TypeEq(a.e, b.e)
          [] a.k = "Tup" -> /\ Len(a.es) = Len(b.es)
                            /\ \A i \in 1..Len(a.es) : TypeEq(a.es[i], b.es[i])
          [] OTHER -> TRUE

RECURSIVE HasAny(_)
HasAny(a) == CASE a.k = "Any" -> TRUE
               [] a.k = "Arr" -> HasAny(a.e)
               [] a.k = "Tup" -> \E i \in 1..Len(a.es) : HasAny(a.es[i])
               [] OTHER -> FALSE

\* The most specific type common to a and b; defined when TypeEq(a, b).
RECURSIVE Join(_, _)
Join(a, b) ==
  IF b.k = "Any" THEN a
  ELSE IF a.k = "Any" THEN b
  ELSE CASE a.k = "Arr" -> TArr(Join(a.e, b.e))
         [] a.k = "Tup" -> TTup([i \in 1..Len(a.es) |-> Join(a.es[i], b.es[i])])
         [] OTHER -> a

\* t is at most as specific as s: s arises from t by replacing occurrences of Any.
RECURSIVE Refines(_, _)
Refines(s, t) ==
  \/ t.k = "Any"
  \/ /\ s.k = t.k
     /\ CASE s.k = "Arr" -> Refines(s.e, t.e)
          [] s.k = "Tup" -> /\ Len(s.es) = Len(t.es)
                            /\ \A i \in 1..Len(s.es) : Refines(s.es[i], t.es[i])
          [] OTHER -> TRUE

RECURSIVE TypeStr(_)
RECURSIVE TypesStr(_, _)
TypesStr(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o TypeStr(ts[i]) \o TypesStr(ts, i + 1)
TypeStr(t) ==
  CASE t.k = "Any" -> W_Any
    [] t.k = "Null" -> W_Null
    [] t.k = "Bool" -> W_Bool
    [] t.k = "Int" -> W_Int
    [] t.k = "Frac" -> W_Frac
    [] t.k = "Str" -> W_Str
    [] t.k = "Obj" -> W_Obj
    [] t.k = "Arr" -> W_Arr \o <<LParen>> \o TypeStr(t.e) \o <<RParen>>
    [] t.k = "Tup" -> W_Tup \o <<LParen>> \o TypesStr(t.es, 1) \o <<RParen>>

\* Flat encoding shared with the harness.
RECURSIVE TypeFlat(_)
RECURSIVE TypesFlat(_, _)
TypesFlat(ts, i) == IF i > Len(ts) THEN <<>> ELSE TypeFlat(ts[i]) \o TypesFlat(ts, i + 1)
TypeFlat(t) ==
  CASE t.k = "Any" -> <<0>>
    [] t.k = "Null" -> <<1>>
    [] t.k = "Bool" -> <<2>>
    [] t.k = "Int" -> <<3>>
    [] t.k = "Frac" -> <<4>>
    [] t.k = "Str" -> <<5>>
    [] t.k = "Arr" -> <<6>> \o TypeFlat(t.e)
    [] t.k = "Tup" -> <<7, Len(t.es)>> \o TypesFlat(t.es, 1)
    [] t.k = "Obj" -> <<8>>
====
