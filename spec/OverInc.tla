---- MODULE OverInc ----
(* All ways a few files can include each other.  Every file is read as a fixed kind; its content is a
   list of includes of files of the set (the root included) as their own kind or verbatim.  The
   machine's verdict is checked against the include graph: a load fails exactly when following
   includes from the root comes back to a file that is being read (C10), and it always ends.
   Every file system is handed out to be replayed on the real code. *)
EXTENDS OverDoc, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN)
\* P.files: sequence of [dir, name, kind]; P.root: 0 (string) or 1; P.maxRoot, P.max: numbers of
\* includes; P.strs: whether files may also be included verbatim; P.spell: spelling variant;
\* P.links: links to files and directories; P.alias[f]: paths to file f through links.
N == Len(P.files)
Modes == IF P.strs THEN {"own", "str"} ELSE {"own"}
Items == (1..N) \X Modes
Contents(k) == UNION {[1..n -> Items] : n \in 0..k}

\* A path from directory d to file f, spelled in one of several ways.
PathJoin(cs) == FoldLeft(LAMBDA acc, c : acc \o (IF acc = <<>> THEN <<>> ELSE <<Slash>>) \o c, <<>>, cs)
Ups(d) == [i \in 1..Len(d) |-> <<Dot, Dot>>]
RelPath(d, f, s) ==
  LET up == Ups(d)
      down == P.files[f].dir \o <<P.files[f].name>>
      a == P.alias[f]
      m == 4 + Len(a)
  IN CASE s % m = 0 -> PathJoin(up \o down)
       [] s % m = 1 -> PathJoin(<<<<Dot>>>> \o up \o down)
       [] s % m > 3 -> PathJoin(up \o a[(s % m) - 3])
       [] s % m = 2 -> PathJoin(up \o <<<<Dot>>>> \o P.files[f].dir \o <<<<Dot>>, P.files[f].name>>)
       [] OTHER -> IF P.files[f].dir = <<>> THEN PathJoin(up \o down)
                   ELSE PathJoin(up \o P.files[f].dir \o Ups(P.files[f].dir) \o down)

TokenOf(k) == CASE k = "obj" -> W_Obj [] k = "arr" -> W_Arr [] k = "tup" -> W_Tup [] k = "str" -> W_Str
ItemText(d, it, s) ==
  LET k == IF it[2] = "str" THEN "str" ELSE P.files[it[1]].kind IN
  <<Less>> \o (IF k = "obj" /\ s % 2 = 0 THEN <<>> ELSE TokenOf(k) \o <<32>>)
  \o <<Quote>> \o RelPath(d, it[1], s) \o <<Quote, Greater>>
FileContent(kind, d, its, salt) ==
  LET one(i) == (IF kind = "obj" THEN <<97 + i, Colon, 32>> ELSE <<>>)
                \o (IF kind = "arr" THEN <<LParen>> \o ItemText(d, its[i], salt + i) \o <<RParen, LBrack, 49, RBrack, Dot, 48>>
                    ELSE ItemText(d, its[i], salt + i))
                \o <<NL>>
  IN IF kind = "arr" /\ its # <<>>
     THEN ItemText(d, its[1], salt + 1) \o <<NL>>     \* one element: any kind of element fits
     ELSE FoldLeft(LAMBDA acc, i : acc \o one(i), <<>>, [i \in 1..Len(its) |-> i])

MkJob(rootIts, fileIts) ==
  [its |-> <<rootIts>> \o fileIts,
   text |-> FileContent("obj", IF P.root = 0 THEN <<>> ELSE P.files[1].dir, rootIts, P.spell),
   files |-> [f \in 1..N |-> [dir |-> P.files[f].dir, name |-> P.files[f].name, kind |-> "text", target |-> 0, to |-> <<>>,
                              text |-> IF f = 1 /\ P.root = 1 THEN FileContent("obj", P.files[1].dir, rootIts, P.spell)
                                       ELSE FileContent(P.files[f].kind, P.files[f].dir, fileIts[f], P.spell + f)]] \o P.links]

IncText(j) == j.text
IncRoot(j) == P.root
IncFiles(j) == j.files
IncDirs(j) == P.dirs
NoBase(j) == <<>>

Init ==
  \E r \in Contents(P.maxRoot), fs \in [1..N -> Contents(P.max)] :
    /\ P.root = 1 => fs[1] = <<>>     \* the root file's own content is r
    /\ \A f \in 1..N : P.files[f].kind = "arr" => Len(fs[f]) <= 1
    /\ Start(MkJob(r, fs))
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

----
\* The include graph: what file f (0: a root string) includes as a document, and verbatim.
ItsOf(f) == IF f = 0 \/ (f = 1 /\ P.root = 1) THEN job.its[1] ELSE job.its[f + 1]
Succ(f) == {ItsOf(f)[i][1] : i \in {k \in 1..Len(ItsOf(f)) : ItsOf(f)[k][2] = "own"}}
SuccAny(f) == {ItsOf(f)[i][1] : i \in 1..Len(ItsOf(f))}
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \union UNION {Succ(f) : f \in S}, n - 1)
\* A file that includes itself through others, with a verbatim include as the last step or without.
DocCycle == \E f \in Reach({P.root}, N + 1) : f # 0 /\ \E g \in Reach({f}, N) : f \in Succ(g)
AnyCycle == \E f \in Reach({P.root}, N + 1) : f # 0 /\ \E g \in Reach({f}, N) : f \in SuccAny(g)

\* A cycle of documents never loads.  A verbatim include that closes a cycle is rejected when the
\* file is being read at that moment, which depends on what was read before; without any cycle the
\* load succeeds.
CycleVerdict ==
  Finished => /\ DocCycle => ctrl = "error"
              /\ ctrl = "error" => err.kind = "Cyclic" /\ AnyCycle
Terminates == <>Finished

Emit == Finished => PrintT("@" \o ToJson([text |-> job.text, files |-> job.files, exp |-> Expected]))
====
