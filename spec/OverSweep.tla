---- MODULE OverSweep ----
(* What the library does with each character, compared with the specification for every code point.

   A case is a block of code points: runs [lo, hi, signature].  A signature has one entry per use of the
   character (names, white space, strings, escapes, numbers, comments, columns, writing); see
   harness/src/sweep.rs for the documents.  The specification's entry is computed by the operators of the
   loader's machine. *)
EXTENDS OverDoc, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
Columns == JsonDeserialize(IOEnv.COLUMNS)   \* [cols |-> indices compared, deep |-> evaluate every code point]
Say(r) == PrintT("@" \o ToJson(r))

N(b) == IF b THEN 1 ELSE 0
a1 == 97
Colon1 == <<58>>
\* "w:" is read as a field (or global) of exactly that name.
Field1(w, pre) == LET t == pre \o w \o Colon1
                      r == IF t[1] = Hash \/ IsSpace(t[1]) THEN [ok |-> FALSE] ELSE FieldLex(t, 1)
                  IN r.ok /\ r.p = Len(t) + 1 /\ r.s = pre \o w
\* w is read as a name, up to the space behind it.
NameRead(w) == LET t == w \o <<32>>
                   r == IF t[1] = At THEN LexName(t, 2, <<At>>) ELSE LexName(t, 1, <<>>) IN (IsFieldFirst(t[1]) \/ t[1] = At) /\ r.ok /\ r.s = w /\ r.p = Len(t)
\* c between two constructs is white space (1), a comment to the end of the line (2), or neither (0).
Between(c) == IF SkipWs(<<c, 110>>, 1) = 2 THEN 1 ELSE IF SkipWs(<<c, 110>>, 1) = 3 THEN 2 ELSE 0
\* The string literal s (without its opening quote) is read completely and has the value w.
Reads(s, w) == LET r == LexStr(s, 1, <<>>) IN r.ok /\ r.p = Len(s) + 1 /\ r.s = w
Number(s) == LET t == s \o <<32>>
                 r == NumVal(t, 1) IN
             IF ~r.ok THEN 0
             ELSE IF r.p = Len(t) /\ r.v = VInt(MkInt(FALSE, MagOfDigits(s))) THEN 1
             \* After the number comes an operator without an operand, a bracket, or nothing bad.
             ELSE IF IsOp(t[r.p]) \/ IsEndDelim(t[r.p]) THEN 0 ELSE 2
Place(t, p) == LET lc == LineCol(t, p) IN lc[1] * 100 + lc[2]

ValidOne(c) == ValidName(<<c>>)
ValidTwo(c) == ValidName(<<a1, c>>)
ValidMid(c) == ValidName(<<a1, c, 98>>)

Sig(c) == <<
  N(ValidOne(c)), N(ValidTwo(c)), N(ValidMid(c)),
  N(ValidOne(c)), N(ValidTwo(c)), 0,
  IF c = Hash THEN 2 ELSE N(Field1(<<c>>, <<>>) /\ c # Caret), N(Field1(<<a1, c>>, <<>>)),
  N(Field1(<<c>>, <<At>>)), N(Field1(<<a1, c, 98>>, <<At>>) /\ NameRead(<<At, a1, c, 98>>)),
  N(Field1(<<a1, c>>, <<>>) /\ NameRead(<<a1, c>>)), N(Field1(<<c>>, <<>>) /\ NameRead(<<c>>) /\ c # Caret),
  N(Between(c) = 1), Between(c), N(Between(c) = 1),
  N(Reads(<<c, 34>>, <<c>>)), N(Reads(<<120, c, 121, 34>>, <<120, c, 121>>)),
  N(EscapeChar(c) # 0 /\ Reads(<<92, c, 34>>, <<EscapeChar(c)>>)),
  N(SkipWs(<<Hash, c, 33, c, NL, 114>>, 1) = 6),
  Number(<<49, c>>),
  IF c = Quote THEN 106 ELSE IF c = Backslash THEN 99 ELSE Place(<<113, 58, 32, 34, c, 34, 32, 33>>, 8),
  Place(<<35, c, 10, 32, 33>>, 5),
  1,
  IF ValidMid(c) THEN 1 ELSE 3,
  1, 1 >>

SpaceSig == Sig(160)
AlphaSig == Sig(233)
OtherSig == Sig(161)
Fast(c) == IF c < 128 THEN Sig(c) ELSE IF IsSpace(c) THEN SpaceSig ELSE IF IsAlpha(c) THEN AlphaSig ELSE OtherSig

Same(a, b) == \A i \in 1..Len(Columns.cols) : a[Columns.cols[i]] = b[Columns.cols[i]]

NoText(j) == <<>>
NoRoot(j) == 0
Init == /\ job \in 1..Len(Cases)
        /\ heap = <<>> /\ stk = <<>> /\ pos = 1 /\ file = 0 /\ globals = <<>> /\ cache = <<>>
        /\ ctrl = "sweep" /\ ret = VNull /\ err = 0
Spec == Init /\ [][FALSE]_vars

Judge ==
  LET runs == Cases[job].runs IN
  /\ \A k \in 1..Len(runs) :
       LET bad == {c \in runs[k][1]..runs[k][2] : ~Same(Fast(c), runs[k][3])} IN
       bad = {} \/ LET c == CHOOSE c \in bad : \A d \in bad : c <= d IN
                   Say([t |-> "bad", id |-> Cases[job].id, c |-> c, n |-> Cardinality(bad), exp |-> Fast(c), got |-> runs[k][3]])
  /\ Say([t |-> "judged", id |-> Cases[job].id, n |-> 0])

\* The classes used by Fast are all that matters.
Classes == Columns.deep =>
  \A k \in 1..Len(Cases[job].runs) : \A c \in Cases[job].runs[k][1]..Cases[job].runs[k][2] : Sig(c) = Fast(c)
====
