---- MODULE OverTypesTrace ----
(* Validates the relations between types that the real library computes.  A case is a list of rows
   [i, pairs]: type i on its own, and against each of the types js. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, OverTypes

TypeList == JsonDeserialize(IOEnv.TYPES)   \* the types, flat
Cases == ndJsonDeserialize(IOEnv.CASES)
Say(r) == PrintT("@" \o ToJson(r))

\* Reads the type encoded at g[i]: <<type, index behind it>>.
RECURSIVE ReadType(_, _)
RECURSIVE ReadTypes(_, _, _, _)
ReadTypes(g, i, n, acc) == IF n = 0 THEN <<acc, i>>
                           ELSE LET r == ReadType(g, i) IN ReadTypes(g, r[2], n - 1, Append(acc, r[1]))
ReadType(g, i) ==
  CASE g[i] = 0 -> <<TAny, i + 1>>
    [] g[i] = 1 -> <<TNull, i + 1>>
    [] g[i] = 2 -> <<TBool, i + 1>>
    [] g[i] = 3 -> <<TInt, i + 1>>
    [] g[i] = 4 -> <<TFrac, i + 1>>
    [] g[i] = 5 -> <<TStr, i + 1>>
    [] g[i] = 6 -> LET r == ReadType(g, i + 1) IN <<TArr(r[1]), r[2]>>
    [] g[i] = 7 -> LET r == ReadTypes(g, i + 2, g[i + 1], <<>>) IN <<TTup(r[1]), r[2]>>
    [] g[i] = 8 -> <<TObj, i + 1>>

Types == [i \in 1..Len(TypeList) |-> ReadType(TypeList[i], 1)[1]]

VARIABLES job
Init == job \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED job
Spec == Init /\ [][Next]_job

\* m: what most_specific said: <<>>, or <<index, flag>>, or <<0, flag, flat>>.
JoinOk(a, b, m) ==
  IF ~TypeEq(a, b) THEN m = <<>>
  ELSE /\ m # <<>>
       /\ m[2] = (IF HasAny(Join(a, b)) THEN 1 ELSE 0)
       /\ IF m[1] > 0 THEN Types[m[1]] = Join(a, b) ELSE m[3] = TypeFlat(Join(a, b))
Bit(n, k) == (n \div k) % 2 = 1
PairBad(a, b, o) ==
  (IF Bit(o[1], 1) # TypeEq(a, b) \/ Bit(o[1], 2) # TypeEq(a, b) \/ Bit(o[1], 16) = FALSE THEN {"equality"} ELSE {})
  \union (IF Bit(o[1], 4) # TypeIs(a, b) \/ Bit(o[1], 8) # TypeIs(a, b) THEN {"is"} ELSE {})
  \union (IF ~JoinOk(a, b, o[2]) \/ ~JoinOk(a, b, o[3]) THEN {"most_specific"} ELSE {})
OneBad(a, o) ==
  (IF o.any # HasAny(a) THEN {"has_any"} ELSE {})
  \union (IF o.show # TypeStr(a) \/ o.pad # TypeStr(a) THEN {"display"} ELSE {})

Row(id, r) ==
  LET a == Types[r.i + 1] IN
  IF r.panic THEN Say([t |-> "bad", id |-> id, i |-> r.i, j |-> r.i, what |-> {"panic"}])
  ELSE
  /\ OneBad(a, r.one) = {} \/ Say([t |-> "bad", id |-> id, i |-> r.i, j |-> r.i, what |-> OneBad(a, r.one)])
  /\ \A k \in 1..Len(r.pairs) :
       LET b == Types[r.js[k] + 1] IN
       PairBad(a, b, r.pairs[k]) = {} \/ Say([t |-> "bad", id |-> id, i |-> r.i, j |-> r.js[k], what |-> PairBad(a, b, r.pairs[k])])
Judge == /\ \A n \in 1..Len(Cases[job].rows) : Row(Cases[job].id, Cases[job].rows[n])
         /\ Say([t |-> "judged", id |-> Cases[job].id])
====
