---- MODULE OverGen ----
(* All documents that can be put together from a small set of lexemes, up to a length: the design is
   checked on every one of them, and each is handed out with the outcome the specification demands,
   to be replayed on the real code.

   A document that is already wrong is not extended (its error stays, whatever follows); one that is
   complete, or only lacks its end, or could be right if its last word or expression went on, is.  With RT, every object read is written and read again. *)
EXTENDS OverDoc, OverWrite, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN)
Lexemes == P.lexemes
MaxLex == P.max
RT == P.rt

GenText(j) == j.text
GenRoot(j) == 0
GenFiles(j) == <<>>
GenDirs(j) == <<<<>>>>
NoBase(j) == <<>>

Doc(t, n) == [text |-> t, n |-> n, want |-> <<>>, last |-> 0]

Init == Start(Doc(P.prefix, 0))

Unsettled == {"BinOp", "UnOp", "BadValue", "BadNumeric", "FieldName", "TypeMismatch", "Expected"}
             \union (IF P.names THEN {"VarNF", "GlobalNF", "DupField", "DupGlobal", "ArrOOB", "TupOOB", "BadDot", "BadIndex"} ELSE {})
Open == \/ ctrl = "end" \/ err.kind = "End"
        \/ err.kind \in Unsettled /\ ~IsSpace(job.text[Len(job.text)])
Extend == /\ Finished /\ Open /\ job.want = <<>> /\ job.n < MaxLex
          /\ \E i \in 1..Len(Lexemes) : Restart([Doc(job.text \o Lexemes[i], job.n + 1) EXCEPT !.last = i])
ReadBack == /\ RT /\ ctrl = "end" /\ job.want = <<>>
            /\ Restart([job EXCEPT !.text = WriteDoc(heap, ret), !.want = Tree(heap, ret)])
ReadDisplay == /\ RT /\ ctrl = "end" /\ job.want = <<>>
               /\ Restart([job EXCEPT !.text = <<120, 58>> \o Display(heap, ret),
                                      !.want = <<8, 0, 1, 1, 120>> \o Tree(heap, ret)])
Next == Step \/ Extend \/ ReadBack \/ ReadDisplay
Spec == Init /\ [][Next]_vars

\* C01: every load ends.
Live == Spec /\ WF_vars(Step)
Ends == [](~Finished => <>Finished)

\* C11, C12: what was written is read back as the same value.
RoundTrip == (Finished /\ job.want # <<>>) => (ctrl = "end" /\ Tree(heap, ret) = job.want)

\* Whether the last lexeme was used up to its last character when an error was found (else the
\* document is no different from a shorter one).
Emit == (Finished /\ job.want = <<>>) => PrintT("@" \o ToJson([text |-> job.text, exp |-> Expected]))
====
