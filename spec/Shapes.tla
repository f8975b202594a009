------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Shapes are sequences of positive naturals.  Flat positions are 1-based, *)
(* multi-indices are sequences of 0-based coordinates, row-major: the last *)
(* coordinate varies fastest.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Size(sh) == FoldLeft(LAMBDA acc, x : acc * x, 1, sh)

\* number of elements below one step of dimension i (1-based)
Stride(sh, i) == Size(SubSeq(sh, i + 1, Len(sh)))

Unflat(sh, p) == [i \in 1..Len(sh) |-> ((p - 1) \div Stride(sh, i)) % sh[i]]

\* Horner's rule
Flat(sh, idx) == 1 + FoldLeftDomain(LAMBDA acc, i : acc * sh[i] + idx[i], 0, sh)

IndexOK(sh, idx) == Len(idx) = Len(sh) /\ \A i \in 1..Len(sh) : idx[i] < sh[i]
=============================================================================
