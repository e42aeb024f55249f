---- MODULE Apalache ----
\* TLC reading of the operators that Quint emits
EXTENDS Integers, Sequences, FiniteSetsExt, SequencesExt
x := y == x = y
ApaFoldSet(op(_,_), init, S) == FoldSet(LAMBDA e, acc: op(acc, e), init, S)
ApaFoldSeqLeft(op(_,_), init, s) == FoldLeft(op, init, s)
MkSeq(n, f(_)) == [i \in 1..n |-> f(i)]
SetAsFun(S) == [k \in {p[1]: p \in S} |-> (CHOOSE p \in S: p[1] = k)[2]]
====
