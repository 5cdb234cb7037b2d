---- MODULE Chars ----
(* Character classes of the OVER language.  Characters are Unicode code points. *)
EXTENDS Naturals, Sequences, AlphaTable

NL == 10
Quote == 34
Hash == 35
Backslash == 92
At == 64
Caret == 94
Dot == 46
Comma == 44
Colon == 58
Under == 95
LBrace == 123   RBrace == 125
LBrack == 91    RBrack == 93
LParen == 40    RParen == 41
Less == 60      Greater == 62
Plus == 43  Minus == 45  Star == 42  Slash == 47  Percent == 37

IsDigit(c) == c >= 48 /\ c <= 57

\* Unicode White_Space.
IsSpace(c) ==
  IF c <= 32 THEN c = 32 \/ (c >= 9 /\ c <= 13)
  ELSE c >= 133 /\ (c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (c >= 8192 /\ c <= 8202))

RECURSIVE AlphaSearch(_, _, _)
AlphaSearch(c, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET mid == (lo + hi) \div 2
           r == AlphaRanges[mid]
       IN IF c < r[1] THEN AlphaSearch(c, lo, mid - 1)
          ELSE IF c > r[2] THEN AlphaSearch(c, mid + 1, hi)
          ELSE TRUE

\* Unicode Alphabetic.
IsAlpha(c) ==
  IF c < 128 THEN (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
  ELSE AlphaSearch(c, 1, Len(AlphaRanges))

IsOp(c) == c \in {Plus, Minus, Star, Slash, Percent}
IsPriority(c) == c \in {Star, Slash, Percent}
IsEndDelim(c) == c \in {RParen, RBrack, RBrace, Greater}
IsWsOrHash(c) == c = Hash \/ IsSpace(c)
IsValueEnd(c) == IsWsOrHash(c) \/ IsEndDelim(c) \/ IsOp(c)
IsNumericChar(c) == IsDigit(c) \/ c = Dot \/ c = Comma

IsFieldFirst(c) == IsAlpha(c) \/ c = Under \/ c = Caret
IsFieldRest(c) == IsAlpha(c) \/ c = Under \/ IsDigit(c)

\* 0 when c is no escape character.
EscapeChar(c) ==
  CASE c = Backslash -> Backslash
    [] c = Quote -> Quote
    [] c = 39 -> 39
    [] c = 36 -> 36
    [] c = 110 -> 10
    [] c = 114 -> 13
    [] c = 116 -> 9
    [] OTHER -> 0

W_null == <<110,117,108,108>>
W_true == <<116,114,117,101>>
W_false == <<102,97,108,115,101>>
W_Obj == <<79,98,106>>
W_Str == <<83,116,114>>
W_Arr == <<65,114,114>>
W_Tup == <<84,117,112>>
W_Any == <<65,110,121>>
W_Null == <<78,117,108,108>>
W_Bool == <<66,111,111,108>>
W_Int == <<73,110,116>>
W_Frac == <<70,114,97,99>>
W_none == <<110,111,110,101>>

IsReserved(w) == w \in {<<At>>, W_null, W_true, W_false, W_Obj, W_Str, W_Arr, W_Tup}

\* A valid field name (for the API and the loader alike).
ValidName(w) ==
  /\ Len(w) > 0
  /\ IsFieldFirst(w[1]) /\ w[1] # Caret
  /\ \A i \in 2..Len(w) : IsFieldRest(w[i])
====
