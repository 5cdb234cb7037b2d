---- MODULE OverDoc ----
(* The loader of OVER documents as a pushdown machine.

   A job is one load: a set of files and a root text.  The machine reads the root text from left to
   right, one construct per step, and ends in control state "end" (ret holds the loaded object) or
   "error" (err describes the first offending construct).  heap holds every array, tuple and object
   created so far, so that sharing is explicit.  stk holds the constructs that are open:

     ExprF  an expression: its operands, pending operators and nesting depth
     UnF    a unary sign waiting for its operand
     ObjF   an object being read (in braces, or the content of a file)
     SeqF   an array or tuple being read (bracketed, or the content of a file)
     IncF   an include being read (stage 1: token or path, stage 2: path)
     FileF  the including file, suspended while an included file is read  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, OverValues

CONSTANTS
  RootText(_),     \* job -> text of the document
  RootFile(_),     \* job -> index of the root file, or 0 when the text is a string
  FilesOf(_),      \* job -> sequence of [dir, name, kind, text, target, to]
  DirsOf(_),       \* job -> sequence of directories (sequences of names), all ancestors included
  BaseOf(_)        \* job -> where the directory <<>> is, from the root on (or <<>>: unknown)

VARIABLES job, heap, stk, pos, file, globals, cache, ctrl, ret, err

vars == <<job, heap, stk, pos, file, globals, cache, ctrl, ret, err>>

MaxDepth == 64

\* The instances that stand for the include tokens; a token used as a plain value yields them.
NSentinels == 4
Sentinels == [i \in 1..NSentinels |-> HObj(<<>>, 0)]
TokenKind == <<"obj", "str", "arr", "tup">>
SentinelOf(w) == CASE w = W_Obj -> 1 [] w = W_Str -> 2 [] w = W_Arr -> 3 [] w = W_Tup -> 4 [] OTHER -> 0

----
\* Text access.  Position Len+1 is the end of the text; char 0 stands for "no character".
FileText(j, f) == IF f = 0 \/ f = RootFile(j) THEN RootText(j) ELSE FilesOf(j)[f].text
Text == FileText(job, file.idx)
Ch(t, p) == IF p <= Len(t) THEN t[p] ELSE 0
AtEnd(t, p) == p > Len(t)

RECURSIVE LineEnd(_, _)
LineEnd(t, p) == IF p > Len(t) THEN p ELSE IF t[p] = NL THEN p + 1 ELSE LineEnd(t, p + 1)
\* First position from p on that is neither white space nor part of a comment.
RECURSIVE SkipWs(_, _)
SkipWs(t, p) ==
  IF p > Len(t) THEN p
  ELSE IF t[p] = Hash THEN SkipWs(t, LineEnd(t, p + 1))
  ELSE IF IsSpace(t[p]) THEN SkipWs(t, p + 1)
  ELSE p

LineCol(t, p) ==
  FoldLeft(LAMBDA lc, c : IF c = NL THEN <<lc[1] + 1, 1>> ELSE <<lc[1], lc[2] + 1>>,
           <<1, 1>>, SubSeq(t, 1, p - 1))

----
\* Lexemes.  A result is [ok |-> TRUE, p, ...] or [ok |-> FALSE, kind, args, p].
LexErr(kind, args, p) == [ok |-> FALSE, kind |-> kind, args |-> args, p |-> p]

\* String literal; p is the position after the opening quote.
RECURSIVE LexStr(_, _, _)
LexStr(t, p, acc) ==
  IF p > Len(t) THEN LexErr("End", <<>>, p)
  ELSE IF t[p] = Quote THEN [ok |-> TRUE, p |-> p + 1, s |-> acc]
  ELSE IF t[p] # Backslash THEN LexStr(t, p + 1, Append(acc, t[p]))
  ELSE IF p + 1 > Len(t) THEN LexErr("End", <<>>, p + 1)
  ELSE LET c == EscapeChar(t[p + 1]) IN
       IF c = 0 THEN LexErr("BadEscape", <<<<t[p + 1]>>>>, p + 1)
       ELSE LexStr(t, p + 2, Append(acc, c))

\* Number literal: digits before and after the point, at most one point, no doubled underscore.
RECURSIVE LexNum(_, _, _, _, _, _)
LexNum(t, p, whole, frac, point, under) ==
  IF p > Len(t) \/ IsValueEnd(Ch(t, p)) THEN [ok |-> TRUE, p |-> p, whole |-> whole, frac |-> frac, point |-> point]
  ELSE LET c == t[p] IN
       IF IsDigit(c) THEN IF point THEN LexNum(t, p + 1, whole, Append(frac, c), point, FALSE)
                          ELSE LexNum(t, p + 1, Append(whole, c), frac, point, FALSE)
       ELSE IF c \in {Dot, Comma} /\ ~point THEN LexNum(t, p + 1, whole, frac, TRUE, FALSE)
       ELSE IF c = Under /\ ~under THEN LexNum(t, p + 1, whole, frac, point, TRUE)
       ELSE LexErr("ValueChar", <<<<c>>>>, p)

NumVal(t, p) ==
  LET r == LexNum(t, p, <<>>, <<>>, FALSE, FALSE) IN
  IF ~r.ok THEN r
  ELSE IF r.whole = <<>> /\ r.frac = <<>> THEN LexErr("BadNumeric", <<>>, p)
  ELSE [ok |-> TRUE, p |-> r.p,
        v |-> IF ~r.point THEN VInt(MkInt(FALSE, MagOfDigits(r.whole)))
              ELSE VFrac(MkFrac(FALSE, MagOfDigits(r.whole \o r.frac), Pow10(Len(r.frac))))]

\* Field name up to and including the colon (or the end of the text).
RECURSIVE LexField(_, _, _, _)
LexField(t, p, acc, first) ==
  IF p > Len(t) THEN [ok |-> TRUE, p |-> p, s |-> acc]
  ELSE IF t[p] = Colon /\ ~first THEN [ok |-> TRUE, p |-> p + 1, s |-> acc]
  ELSE IF (first /\ IsFieldFirst(t[p])) \/ (~first /\ IsFieldRest(t[p])) THEN LexField(t, p + 1, Append(acc, t[p]), FALSE)
  ELSE LexErr("FieldChar", <<<<t[p]>>>>, p)

FieldLex(t, p) ==
  LET r == IF t[p] = At THEN LexField(t, p + 1, <<At>>, TRUE) ELSE LexField(t, p, <<>>, TRUE) IN
  IF ~r.ok THEN r
  ELSE IF IsReserved(r.s) THEN LexErr("FieldName", <<r.s>>, p)
  ELSE IF r.s = <<Caret>> THEN [ok |-> TRUE, p |-> r.p, s |-> r.s, ft |-> "parent"]
  ELSE IF r.s[1] = Caret \/ (r.s[1] = At /\ r.s[2] = Caret) THEN LexErr("FieldName", <<r.s>>, p)
  ELSE [ok |-> TRUE, p |-> r.p, s |-> r.s, ft |-> IF r.s[1] = At THEN "global" ELSE "field"]

\* Name used as a value, up to its end or past a dot that follows it.
RECURSIVE LexName(_, _, _)
LexName(t, p, acc) ==
  IF p > Len(t) THEN [ok |-> TRUE, p |-> p, s |-> acc, dot |-> FALSE]
  ELSE IF t[p] = Dot
       THEN IF p + 1 > Len(t) THEN LexErr("End", <<>>, p + 1)
            ELSE IF t[p + 1] = At \/ IsFieldFirst(t[p + 1]) \/ IsNumericChar(t[p + 1])
                 THEN [ok |-> TRUE, p |-> p + 1, s |-> acc, dot |-> TRUE]
            ELSE LexErr("ValueChar", <<<<t[p + 1]>>>>, p + 1)
  ELSE IF IsValueEnd(t[p]) THEN [ok |-> TRUE, p |-> p, s |-> acc, dot |-> FALSE]
  ELSE IF IsFieldRest(t[p]) THEN LexName(t, p + 1, Append(acc, t[p]))
  ELSE LexErr("ValueChar", <<<<t[p]>>>>, p)

\* Value of the name w in scope: an object's fields, given as a sequence of pairs.
Lookup(h, gl, scope, w, p) ==
  CASE w = W_null -> [ok |-> TRUE, v |-> VNull]
    [] w = W_true -> [ok |-> TRUE, v |-> VBool(TRUE)]
    [] w = W_false -> [ok |-> TRUE, v |-> VBool(FALSE)]
    [] SentinelOf(w) > 0 -> [ok |-> TRUE, v |-> VRef(SentinelOf(w))]
    [] w = <<At>> -> LexErr("BadValue", <<w>>, p)
    [] w # <<>> /\ w[1] = At -> LET i == Find(gl, w) IN
                   IF i > 0 THEN [ok |-> TRUE, v |-> gl[i].v] ELSE LexErr("GlobalNF", <<w>>, p)
    [] OTHER -> LET i == Find(scope, w) IN
                IF i > 0 THEN [ok |-> TRUE, v |-> scope[i].v] ELSE LexErr("VarNF", <<w>>, p)

\* Element of an array or tuple at an index value.
ElemAt(h, c, iv, p) ==
  LET n == Len(h[c].vals) IN
  IF iv.t # "int" THEN LexErr("Expected", <<W_Int, TypeStr(TypeOf(h, iv))>>, p)
  ELSE IF iv.i.neg \/ MagCmp(iv.i.m, MaxUsize) > 0 THEN LexErr("BadIndex", <<IntStr(iv.i)>>, p)
  ELSE IF Small(iv.i.m) /\ Native(iv.i.m) < n THEN [ok |-> TRUE, v |-> h[c].vals[Native(iv.i.m) + 1]]
  ELSE LexErr(IF h[c].k = "arr" THEN "ArrOOB" ELSE "TupOOB", <<MagStr(iv.i.m)>>, p)

(* A name with the dotted accesses behind it.  The element after a dot on an object is looked up
   among the fields that object has or inherits; after a dot on an array or tuple stands an index,
   a number or itself a (dotted) name.  Every dot is one level of nesting. *)
RECURSIVE EvalVar(_, _, _, _, _, _)
EvalVar(h, gl, t, p, scope, depth) ==
  IF depth > MaxDepth THEN LexErr("MaxDepth", <<>>, p)
  ELSE
  LET r == IF Ch(t, p) = At THEN LexName(t, p + 1, <<At>>) ELSE LexName(t, p, <<>>) IN
  IF ~r.ok THEN r
  ELSE
  LET b == Lookup(h, gl, scope, r.s, p) IN
  IF ~b.ok THEN b
  ELSE IF ~r.dot THEN [ok |-> TRUE, v |-> b.v, p |-> r.p]
  ELSE IF b.v.t # "ref" THEN LexErr("BadDot", <<TypeStr(TypeOf(h, b.v))>>, p)
  ELSE IF h[b.v.h].k = "obj"
       THEN IF t[r.p] = At THEN LexErr("ValueChar", <<<<At>>>>, r.p)
            ELSE EvalVar(h, gl, t, r.p, AllPairs(h, b.v.h), depth + 1)
  ELSE IF depth + 1 > MaxDepth THEN LexErr("MaxDepth", <<>>, r.p)
  ELSE LET ix == IF IsNumericChar(t[r.p]) THEN NumVal(t, r.p)
                 ELSE EvalVar(h, gl, t, r.p, scope, depth + 1) IN
       IF ~ix.ok THEN ix
       ELSE LET e == ElemAt(h, b.v.h, ix.v, r.p) IN
            IF e.ok THEN [ok |-> TRUE, v |-> e.v, p |-> ix.p] ELSE e

----
\* Paths.
RECURSIVE Split(_, _, _, _)
Split(s, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE IF s[i] = Slash THEN Split(s, i + 1, <<>>, Append(acc, cur))
  ELSE Split(s, i + 1, Append(cur, s[i]), acc)

(* What a directory holds: texts, files that are no UTF-8 ("binary"), links to files (target), links
   to directories (to), and what is no file at all ("none").  Directories are given from the root of
   the file system on; above BaseOf only the directories on the way there are known. *)
IsDir(j, d) == \E i \in 1..Len(DirsOf(j)) : DirsOf(j)[i] = d
FileIn(j, d, n) == LET S == {i \in 1..Len(FilesOf(j)) : FilesOf(j)[i].dir = d /\ FilesOf(j)[i].name = n}
                   IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Below0(j, a) == Len(a) >= Len(BaseOf(j)) /\ SubSeq(a, 1, Len(BaseOf(j))) = BaseOf(j)
Rel(j, a) == SubSeq(a, Len(BaseOf(j)) + 1, Len(a))
DirExists(j, a) == IF Below0(j, a) THEN IsDir(j, Rel(j, a))
                   ELSE Len(a) < Len(BaseOf(j)) /\ a = SubSeq(BaseOf(j), 1, Len(a))
Entry(j, a, n) == IF Below0(j, a) THEN FileIn(j, Rel(j, a), n) ELSE 0

(* The file a path names from directory a: its index, or 0.  Every component but the last must be an
   existing directory, or a link to one. *)
RECURSIVE Walk(_, _, _, _)
Walk(j, a, cs, i) ==
  IF ~DirExists(j, a) THEN 0
  ELSE IF i < Len(cs)
       THEN IF cs[i] = <<>> \/ cs[i] = <<Dot>> THEN Walk(j, a, cs, i + 1)
            ELSE IF cs[i] = <<Dot, Dot>>
                 THEN IF a = <<>> THEN IF BaseOf(j) = <<>> THEN 0 ELSE Walk(j, a, cs, i + 1)
                      ELSE Walk(j, SubSeq(a, 1, Len(a) - 1), cs, i + 1)
            ELSE LET e == Entry(j, a, cs[i]) IN
                 IF e > 0 /\ FilesOf(j)[e].kind = "dirlink" THEN Walk(j, BaseOf(j) \o FilesOf(j)[e].to, cs, i + 1)
                 ELSE Walk(j, Append(a, cs[i]), cs, i + 1)
       ELSE LET e == Entry(j, a, cs[i]) IN
            IF e > 0 /\ FilesOf(j)[e].kind \in {"text", "binary", "link"} THEN e ELSE 0

\* A name that is not valid UTF-8 is written with this character; no document can spell it.
Unspeakable == 63743
HasChar(s, c) == \E i \in 1..Len(s) : s[i] = c
Resolve(j, d, path) ==
  IF path = <<>> \/ HasChar(path, 0) \/ HasChar(path, Unspeakable) THEN 0
  ELSE IF path[1] = Slash THEN IF BaseOf(j) = <<>> THEN 0 ELSE Walk(j, <<>>, Split(path, 1, <<>>, <<>>), 1)
  ELSE Walk(j, BaseOf(j) \o d, Split(path, 1, <<>>, <<>>), 1)
\* Links lead to regular files.
Canon(j, f) == IF f > 0 /\ FilesOf(j)[f].kind = "link" THEN FilesOf(j)[f].target ELSE f
\* A file whose name, all links followed, is not valid UTF-8 cannot be included.
Odd(j, f) == \/ HasChar(FilesOf(j)[f].name, Unspeakable)
             \/ \E i \in 1..Len(FilesOf(j)[f].dir) : HasChar(FilesOf(j)[f].dir[i], Unspeakable)
DirOfFile(j, f) == IF f = 0 THEN <<>> ELSE FilesOf(j)[f].dir

----
Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
Push(f) == Append(stk, f)
Replace(f) == [stk EXCEPT ![Len(stk)] = f]

ExprF(depth, brace, p) == [f |-> "expr", depth |-> depth, brace |-> brace, vpos |-> p,
                           vals |-> <<>>, ps |-> <<>>, ops |-> <<>>, op |-> 0, opos |-> p]
UnF(op, depth, p) == [f |-> "un", op |-> op, depth |-> depth, p |-> p]
ObjF(depth, brace) == [f |-> "obj", depth |-> depth, brace |-> brace, pairs |-> <<>>, parent |-> 0,
                       fname |-> <<>>, ftype |-> "", fpos |-> 0, vpos |-> 0]
SeqF(k, depth, brace) == [f |-> "seq", k |-> k, depth |-> depth, brace |-> brace, vals |-> <<>>,
                          ty |-> TAny, vpos |-> 0]
IncF(depth) == [f |-> "inc", depth |-> depth, stage |-> 1, kind |-> "obj", vpos |-> 0]
FileF(kind, target) == [f |-> "file", kind |-> kind, target |-> target, file |-> file, pos |-> pos,
                        globals |-> globals]

\* Files being read at this moment, by canonical index.
Reading == {file.canon} \union {stk[i].file.canon : i \in {k \in 1..Len(stk) : stk[k].f = "file"}}

\* Fields a name can refer to here: those of the innermost object of this file.
RECURSIVE ScopeFrom(_)
ScopeFrom(i) == IF i = 0 THEN <<>>
                ELSE IF stk[i].f = "obj" THEN stk[i].pairs
                ELSE IF stk[i].f = "file" THEN <<>>
                ELSE ScopeFrom(i - 1)
Scope == ScopeFrom(Len(stk))

NoErr == [kind |-> "", args |-> <<>>, line |-> 0, col |-> 0, file |-> 0]

Fail(kind, args, p) ==
  LET lc == LineCol(Text, p) IN
  /\ ctrl' = "error"
  /\ err' = [kind |-> kind, args |-> args, line |-> lc[1],
             col |-> IF kind = "End" THEN 0 ELSE lc[2], file |-> file.canon]
  /\ pos' = p
  /\ UNCHANGED <<job, heap, stk, file, globals, cache, ret>>
FailLex(r) == Fail(r.kind, r.args, r.p)
FailEnd == Fail("End", <<>>, Len(Text) + 1)

\* Continue at p in control state c with stack s.
Go(c, s, p) ==
  /\ ctrl' = c /\ stk' = s /\ pos' = p
  /\ UNCHANGED <<job, heap, file, globals, cache, ret, err>>
\* Hand value v (and heap hp) to the construct on top of stack s.
Give(c, s, p, v, hp) ==
  /\ ctrl' = c /\ stk' = s /\ pos' = p /\ ret' = v /\ heap' = hp
  /\ UNCHANGED <<job, file, globals, cache, err>>

\* Start reading an expression: its frame is pushed and its first operand read next.
StartExpr(s, p, depth, brace) == Go("operand", Append(s, ExprF(depth, brace, p)), p)

----
\* Start of the content of an object file.
DocStart ==
  /\ ctrl = "docstart"
  /\ LET p == SkipWs(Text, pos) IN
     Go(IF AtEnd(Text, p) THEN "objend" ELSE "field", stk, p)

\* An object is complete: the root, an included file, or braces.
ObjEnd ==
  /\ ctrl = "objend"
  /\ LET o == HObj(Top.pairs, Top.parent)
         v == VRef(Len(heap) + 1)
     IN Give(IF Top.brace # 0 THEN "got" ELSE IF Len(stk) = 1 THEN "end" ELSE "fileend",
             Below, pos, v, Append(heap, o))

----
\* Fields.
CloseObj ==
  /\ ctrl = "field" /\ Top.brace # 0 /\ Ch(Text, pos) = RBrace
  /\ Go("objend", stk, pos + 1)

BadClose ==
  /\ ctrl = "field" /\ IsEndDelim(Ch(Text, pos)) /\ ~(Top.brace # 0 /\ Ch(Text, pos) = RBrace)
  /\ Fail("Bracket", <<IF Top.brace = 0 THEN W_none ELSE <<Top.brace>>, <<Ch(Text, pos)>>>>, pos)

Field ==
  /\ ctrl = "field" /\ ~IsEndDelim(Ch(Text, pos))
  /\ LET r == FieldLex(Text, pos) IN
     IF ~r.ok THEN FailLex(r)
     ELSE IF r.ft = "global" /\ Find(globals, r.s) > 0 THEN Fail("DupGlobal", <<r.s>>, pos)
     ELSE IF r.ft = "parent" /\ Top.parent # 0 THEN Fail("DupField", <<r.s>>, pos)
     ELSE IF r.ft = "field" /\ Find(Top.pairs, r.s) > 0 THEN Fail("DupField", <<r.s>>, pos)
     ELSE LET p == SkipWs(Text, r.p) IN
          IF AtEnd(Text, p) THEN FailEnd
          ELSE StartExpr(Replace([Top EXCEPT !.fname = r.s, !.ftype = r.ft, !.fpos = pos, !.vpos = p]), p,
                         Top.depth, Top.brace)

\* The value of a field has been read.
FieldValue ==
  /\ ctrl = "done" /\ Top.f = "obj"
  /\ LET p == SkipWs(Text, pos)
         bad == Top.ftype = "parent" /\ ~(ret.t = "ref" /\ heap[ret.h].k = "obj")
         frame == CASE Top.ftype = "global" -> Top
                    [] Top.ftype = "parent" -> [Top EXCEPT !.parent = ret.h]
                    [] OTHER -> [Top EXCEPT !.pairs = Append(@, Pair(Top.fname, ret))]
     IN IF bad THEN Fail("TypeMismatch", <<W_Obj, TypeStr(TypeOf(heap, ret))>>, Top.vpos)
        ELSE IF Top.ftype = "global" /\ Find(globals, Top.fname) > 0   \* its own value defined it
        THEN Fail("DupGlobal", <<Top.fname>>, Top.fpos)
        ELSE IF AtEnd(Text, p) /\ Top.brace # 0 THEN FailEnd
        ELSE /\ ctrl' = IF AtEnd(Text, p) THEN "objend" ELSE "field"
             /\ stk' = Replace(frame)
             /\ pos' = p
             /\ globals' = IF Top.ftype = "global" THEN Append(globals, Pair(Top.fname, ret)) ELSE globals
             /\ UNCHANGED <<job, heap, file, cache, ret, err>>

----
\* Elements of arrays and tuples.
SeqVal(f) == IF f.k = "arr" THEN HArr(f.vals, f.ty) ELSE HTup(f.vals, [i \in 1..Len(f.vals) |-> TypeOf(heap, f.vals[i])])

Elem ==
  /\ ctrl = "elem"
  /\ LET p == SkipWs(Text, pos)
         c == Ch(Text, p)
     IN IF AtEnd(Text, p)
        THEN IF Top.brace # 0 THEN FailEnd
             ELSE Give("fileend", Below, p, VRef(Len(heap) + 1), Append(heap, SeqVal(Top)))
        ELSE IF Top.brace # 0 /\ c = Top.brace
             THEN Give("got", Below, p + 1, VRef(Len(heap) + 1), Append(heap, SeqVal(Top)))
        ELSE IF Top.brace # 0 /\ IsEndDelim(c) THEN Fail("Bracket", <<<<Top.brace>>, <<c>>>>, p)
        ELSE StartExpr(Replace([Top EXCEPT !.vpos = p]), p, Top.depth, Top.brace)

ElemValue ==
  /\ ctrl = "done" /\ Top.f = "seq"
  /\ LET t == TypeOf(heap, ret) IN
     IF Top.k = "arr" /\ ~TypeEq(Top.ty, t)
     THEN Fail("Expected", <<TypeStr(Top.ty), TypeStr(t)>>, Top.vpos)
     ELSE Go("elem", Replace([Top EXCEPT !.vals = Append(@, ret),
                                         !.ty = IF Top.k = "arr" THEN Join(@, t) ELSE @]), pos)

----
\* Operands.
OperandChar == Ch(Text, pos)
Shallow == Top.depth <= MaxDepth

TooDeep == /\ ctrl = "operand" /\ ~Shallow
           /\ Fail("MaxDepth", <<>>, pos)

Operand(c) == ctrl = "operand" /\ Shallow /\ OperandChar = c

StrLit ==
  /\ Operand(Quote)
  /\ LET r == LexStr(Text, pos + 1, <<>>) IN
     IF ~r.ok THEN FailLex(r) ELSE Give("got", stk, r.p, VStr(r.s), heap)

OpenObj ==
  /\ Operand(LBrace)
  /\ IF Top.depth + 1 > MaxDepth THEN Fail("MaxDepth", <<>>, pos)
     ELSE LET p == SkipWs(Text, pos + 1) IN
          IF AtEnd(Text, p) THEN FailEnd ELSE Go("field", Push(ObjF(Top.depth + 1, RBrace)), p)

OpenSeq(open, k, close) ==
  /\ Operand(open)
  /\ IF Top.depth + 1 > MaxDepth THEN Fail("MaxDepth", <<>>, pos)
     ELSE Go("elem", Push(SeqF(k, Top.depth + 1, close)), pos + 1)
OpenArr == OpenSeq(LBrack, "arr", RBrack)
OpenTup == OpenSeq(LParen, "tup", RParen)

OpenInclude ==
  /\ Operand(Less)
  /\ IF Top.depth + 1 > MaxDepth THEN Fail("MaxDepth", <<>>, pos)
     ELSE LET p == SkipWs(Text, pos + 1) IN
          IF AtEnd(Text, p) THEN FailEnd
          ELSE StartExpr(Push([IncF(Top.depth + 1) EXCEPT !.vpos = p]), p, Top.depth + 1, Greater)

Sign ==
  /\ Operand(Plus) \/ Operand(Minus)
  /\ IF AtEnd(Text, pos + 1) THEN FailEnd
     ELSE Go("operand", Push(UnF(OperandChar, Top.depth + 1, pos + 1)), pos + 1)

NumLit ==
  /\ ctrl = "operand" /\ Shallow /\ IsNumericChar(OperandChar)
  /\ LET r == NumVal(Text, pos) IN
     IF ~r.ok THEN FailLex(r) ELSE Give("got", stk, r.p, r.v, heap)

Name ==
  /\ ctrl = "operand" /\ Shallow /\ (IsFieldFirst(OperandChar) \/ OperandChar = At)
  /\ LET r == EvalVar(heap, globals, Text, pos, Scope, Top.depth) IN
     IF ~r.ok THEN FailLex(r) ELSE Give("got", stk, r.p, r.v, heap)

BadOperand ==
  /\ ctrl = "operand" /\ Shallow
  /\ LET c == OperandChar IN
     /\ c \notin {Quote, LBrace, LBrack, LParen, Less, Plus, Minus, At}
     /\ ~IsNumericChar(c) /\ ~IsFieldFirst(c)
     /\ Fail("ValueChar", <<<<c>>>>, pos)

----
\* Operators.
GotSigned ==
  /\ ctrl = "got" /\ Top.f = "un"
  /\ LET r == UnOp(heap, Top.op, ret) IN
     IF ~r.ok THEN Fail(r.kind, r.args, Top.p) ELSE Give("got", Below, pos, r.v, heap)

\* Apply the pending + and - from left to right.
RECURSIVE FoldOps(_, _, _, _, _, _)
FoldOps(h, v, vals, ps, ops, i) ==
  IF i > Len(ops) THEN [ok |-> TRUE, v |-> v, heap |-> h]
  ELSE LET r == BinOp(h, ops[i], v, vals[i + 1]) IN
       IF ~r.ok THEN [ok |-> FALSE, kind |-> r.kind, args |-> r.args, p |-> ps[i + 1]]
       ELSE FoldOps(r.heap, r.v, vals, ps, ops, i + 1)

\* An operand of an expression has been read: * / % apply at once, + and - wait.
GotOperand ==
  /\ ctrl = "got" /\ Top.f = "expr"
  /\ LET n == Len(Top.vals)
         r == IF IsPriority(Top.op) THEN BinOp(heap, Top.op, Top.vals[n], ret) ELSE Good(ret, heap)
     IN IF ~r.ok THEN Fail(r.kind, r.args, Top.opos)
        ELSE /\ ctrl' = "operator"
             /\ heap' = r.heap
             /\ stk' = Replace(IF IsPriority(Top.op) THEN [Top EXCEPT !.vals[n] = r.v, !.op = 0]
                               ELSE [Top EXCEPT !.vals = Append(@, r.v), !.ps = Append(@, Top.opos),
                                                !.ops = IF Top.op = 0 THEN @ ELSE Append(@, Top.op),
                                                !.op = 0])
             /\ UNCHANGED <<job, pos, file, globals, cache, ret, err>>

Operator ==
  /\ ctrl = "operator" /\ IsOp(Ch(Text, pos))
  /\ IF AtEnd(Text, pos + 1) THEN FailEnd
     ELSE Go("operand", Replace([Top EXCEPT !.op = Ch(Text, pos), !.opos = pos + 1]), pos + 1)

ExprEnd ==
  /\ ctrl = "operator" /\ ~IsOp(Ch(Text, pos))
  /\ LET c == Ch(Text, pos) IN
     IF ~AtEnd(Text, pos) /\ ~IsValueEnd(c) THEN Fail("ValueChar", <<<<c>>>>, pos)
     ELSE IF ~AtEnd(Text, pos) /\ IsEndDelim(c) /\ c # Top.brace
          THEN Fail("Bracket", <<IF Top.brace = 0 THEN W_none ELSE <<Top.brace>>, <<c>>>>, pos)
     ELSE LET r == FoldOps(heap, Top.vals[1], Top.vals, Top.ps, Top.ops, 1) IN
          IF ~r.ok THEN Fail(r.kind, r.args, r.p) ELSE Give("done", Below, pos, r.v, r.heap)

----
\* Includes.
IncToken ==
  /\ ctrl = "done" /\ Top.f = "inc" /\ Top.stage = 1 /\ ret.t # "str"
  /\ IF ret.t = "ref" /\ ret.h <= NSentinels
     THEN LET p == SkipWs(Text, pos) IN
          IF AtEnd(Text, p) THEN FailEnd
          ELSE StartExpr(Replace([Top EXCEPT !.stage = 2, !.kind = TokenKind[ret.h], !.vpos = p]),
                         p, Top.depth, Greater)
     ELSE Fail("BadInclude", <<TypeStr(TypeOf(heap, ret))>>, Top.vpos)

\* What an included text is read as, once the file is open.
EnterFile(f, p) ==
  LET fl == FilesOf(job)[Canon(job, f)]
      key == <<Top.kind, Canon(job, f)>>
  IN IF fl.kind = "binary"
     THEN /\ ctrl' = "error" /\ err' = [NoErr EXCEPT !.kind = "Io"]
          /\ pos' = p
          /\ UNCHANGED <<job, heap, stk, file, globals, cache, ret>>
     ELSE IF Top.kind = "str"
     THEN /\ ctrl' = "got" /\ ret' = VStr(FileText(job, Canon(job, f)))
          /\ cache' = Append(cache, Pair(key, VStr(FileText(job, Canon(job, f)))))
          /\ stk' = Below /\ pos' = p
          /\ UNCHANGED <<job, heap, file, globals, err>>
     ELSE /\ ctrl' = IF Top.kind = "obj" THEN "docstart" ELSE "elem"
          /\ stk' = Append(Append(Below, [FileF(Top.kind, Canon(job, f)) EXCEPT !.pos = p]),
                           IF Top.kind = "obj" THEN ObjF(Top.depth, 0) ELSE SeqF(Top.kind, Top.depth, 0))
          /\ pos' = 1
          /\ file' = [idx |-> Canon(job, f), dir |-> FilesOf(job)[f].dir, canon |-> Canon(job, f)]
          /\ globals' = <<>>
          /\ UNCHANGED <<job, heap, cache, ret, err>>

Include ==
  /\ ctrl = "done" /\ Top.f = "inc" /\ (Top.stage = 2 \/ ret.t = "str")
  /\ LET p == SkipWs(Text, pos) IN
     IF AtEnd(Text, p) THEN FailEnd
     ELSE IF Ch(Text, p) # Greater THEN Fail("Bracket", <<<<Greater>>, <<Ch(Text, p)>>>>, p)
     ELSE IF ret.t # "str" THEN Fail("Expected", <<W_Str, TypeStr(TypeOf(heap, ret))>>, Top.vpos)
     ELSE LET f == Resolve(job, file.dir, ret.s)
              cf == Canon(job, f)
              i == Find(cache, <<Top.kind, cf>>)
          IN IF f = 0 \/ (f > 0 /\ Odd(job, cf)) THEN Fail("BadPath", <<ret.s>>, Top.vpos)
             ELSE IF cf \in Reading THEN Fail("Cyclic", <<ret.s>>, Top.vpos)
             ELSE IF i > 0 THEN Give("got", Below, p + 1, cache[i].v, heap)
             ELSE EnterFile(f, p + 1)

\* The included file has been read completely: back to the including file.
FileEnd ==
  /\ ctrl = "fileend"
  /\ ctrl' = "got"
  /\ stk' = Below
  /\ pos' = Top.pos /\ file' = Top.file /\ globals' = Top.globals
  /\ cache' = Append(cache, Pair(<<Top.kind, Top.target>>, ret))
  /\ UNCHANGED <<job, heap, ret, err>>

----
Start(j) ==
  /\ job = j
  /\ heap = Sentinels
  /\ stk = <<ObjF(1, 0)>>
  /\ pos = 1
  /\ file = [idx |-> RootFile(j), dir |-> DirOfFile(j, RootFile(j)), canon |-> Canon(j, RootFile(j))]
  /\ globals = <<>>
  /\ cache = <<>>
  /\ ctrl = "docstart"
  /\ ret = VNull
  /\ err = NoErr

Step ==
  \/ DocStart \/ ObjEnd \/ CloseObj \/ BadClose \/ Field \/ FieldValue
  \/ Elem \/ ElemValue
  \/ TooDeep \/ StrLit \/ OpenObj \/ OpenArr \/ OpenTup \/ OpenInclude \/ Sign \/ NumLit \/ Name
  \/ BadOperand
  \/ GotSigned \/ GotOperand \/ Operator \/ ExprEnd
  \/ IncToken \/ Include \/ FileEnd

Finished == ctrl \in {"end", "error"}

----
\* Properties of the design, checked in every reachable state.

\* The machine is never stuck before it has an answer (no input goes unhandled).
Progress == Finished \/ ENABLED Step

\* C18: no construct is ever open below the maximum depth.
DepthBound == \A i \in 1..Len(stk) :
  CASE stk[i].f \in {"obj", "seq", "inc"} -> stk[i].depth <= MaxDepth
    [] stk[i].f \in {"expr", "un"} -> stk[i].depth <= MaxDepth + 1
    [] OTHER -> TRUE

\* C06: every array's type is the most specific type all its elements conform to.
Homogeneous == \A i \in 1..Len(heap) :
  heap[i].k = "arr" =>
    LET r == JoinAll(heap, heap[i].vals, 1, TAny) IN r.ok /\ r.ty = heap[i].ty
TupTyped == \A i \in 1..Len(heap) :
  heap[i].k = "tup" => heap[i].tys = [j \in 1..Len(heap[i].vals) |-> TypeOf(heap, heap[i].vals[j])]

\* C02, C03, C19: fields are unique, valid names; globals and the parent never become fields.
FieldsWellFormed == \A i \in 1..Len(heap) :
  heap[i].k = "obj" =>
    /\ \A a, b \in 1..Len(heap[i].pairs) : heap[i].pairs[a].n = heap[i].pairs[b].n => a = b
    /\ \A a \in 1..Len(heap[i].pairs) : ValidName(heap[i].pairs[a].n) /\ ~IsReserved(heap[i].pairs[a].n)

\* Instances refer to older instances only: no value is cyclic, and nothing changes later (C25).
Acyclic == \A i \in 1..Len(heap) :
  LET o == heap[i]
      vs == IF o.k = "obj" THEN [a \in 1..Len(o.pairs) |-> o.pairs[a].v] ELSE o.vals
  IN /\ \A a \in 1..Len(vs) : vs[a].t = "ref" => vs[a].h < i
     /\ o.k = "obj" => o.parent < i

\* C10: the files being read are pairwise different, so includes nest at most as deep as there are files.
NoCycleOpen ==
  LET fs == <<file.canon>> \o [i \in 1..Len(SelectSeq(stk, LAMBDA f : f.f = "file")) |->
                                  SelectSeq(stk, LAMBDA f : f.f = "file")[i].file.canon]
  IN \A a, b \in 1..Len(fs) : fs[a] = fs[b] => a = b

\* C03: a global is defined once.
GlobalsUnique == \A a, b \in 1..Len(globals) : globals[a].n = globals[b].n => a = b

\* C09: one cache entry per kind and file.
CacheUnique == \A a, b \in 1..Len(cache) : cache[a].n = cache[b].n => a = b

\* C17: an error lies inside the text it names.
ErrorInside == ctrl = "error" /\ err.kind # "Io" => pos >= 1 /\ pos <= Len(Text) + 1 /\ err.line >= 1

Inv == DepthBound /\ Homogeneous /\ TupTyped /\ FieldsWellFormed /\ Acyclic /\ NoCycleOpen
       /\ GlobalsUnique /\ CacheUnique /\ ErrorInside

\* C25: created instances never change.  The reading position only moves forward within a file.
Immutable == [][job' = job => Len(heap') >= Len(heap) /\ SubSeq(heap', 1, Len(heap)) = heap]_vars
Forward == [][(job' = job /\ file' = file /\ ctrl' # "error") => (pos' >= pos \/ ctrl = "fileend")]_vars

----
\* What the caller sees of a finished load.

\* Reference counts: holders inside the object, the handle of the caller, the loader's own tokens
\* (which the caller cannot see, so their count is left open: -1).
RefsOf(g) == [i \in 1..Len(g.seen) |->
                IF g.seen[i] <= NSentinels THEN -1
                ELSE Holders(heap, g.seen, g.seen[i]) + (IF i = 1 THEN 1 ELSE 0)]

Expected == IF ctrl = "error" THEN [error |-> err]
            ELSE LET g == Graph(heap, ret) IN [error |-> NoErr, graph |-> g.out, refs |-> RefsOf(g)]

\* A fresh load of another job.
Restart(j) ==
  /\ job' = j
  /\ heap' = Sentinels
  /\ stk' = <<ObjF(1, 0)>>
  /\ pos' = 1
  /\ file' = [idx |-> RootFile(j), dir |-> DirOfFile(j, RootFile(j)), canon |-> Canon(j, RootFile(j))]
  /\ globals' = <<>>
  /\ cache' = <<>>
  /\ ctrl' = "docstart"
  /\ ret' = VNull
  /\ err' = NoErr
====
