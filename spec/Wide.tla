-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* The rings Z/2^32 and Z/2^64 (int32; int and int64) in two's complement. *)
(* TLC's own integers have 32 bits, so a number is a sequence of digits in *)
(* base 2^12, least significant first: 3 digits (the last of 8 bits) or 6  *)
(* digits (the last of 4 bits).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 4096
Digits(m) == IF m = "i32" THEN 3 ELSE 6
TopBase(m) == IF m = "i32" THEN 256 ELSE 16

\* carries; what does not fit is dropped
WNorm(m, s) ==
  LET n == Digits(m)
      r == FoldLeft(LAMBDA acc, x :
             LET v == x + acc.c
                 b == IF Len(acc.s) = n - 1 THEN TopBase(m) ELSE Base
             IN  [c |-> v \div b, s |-> Append(acc.s, v % b)],
           [c |-> 0, s |-> <<>>], s)
  IN  r.s

WZero == [i32 |-> <<0, 0, 0>>, i64 |-> <<0, 0, 0, 0, 0, 0>>]
WLit(m, n) == WNorm(m, [WZero[m] EXCEPT ![1] = n])

WAdd(m, a, b) == WNorm(m, [i \in 1..Digits(m) |-> a[i] + b[i]])
WNeg(m, a) == WNorm(m, [i \in 1..Digits(m) |-> -a[i]])
WMul(m, a, b) ==
  IF a = WZero[m] \/ b = WZero[m] THEN WZero[m]
  ELSE WNorm(m, [k \in 1..Digits(m) |->
         FoldLeft(LAMBDA acc, i : acc + a[i] * b[k - i + 1], 0, [i \in 1..k |-> i])])

WNegative(m, a) == a[Digits(m)] >= TopBase(m) \div 2
WAbs(m, a) == IF WNegative(m, a) THEN WNeg(m, a) ELSE a

\* digit sequences of the same length as natural numbers
RECURSIVE NatLessAt(_, _, _)
NatLessAt(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE NatLessAt(a, b, i - 1)
NatLess(a, b) == NatLessAt(a, b, Len(a))
WLess(m, a, b) ==
  IF WNegative(m, a) # WNegative(m, b) THEN WNegative(m, a) ELSE NatLess(a, b)

\* v times a digit, one digit longer
NatScale(v, q) ==
  LET r == FoldLeft(LAMBDA acc, x : LET y == x * q + acc.c
                                    IN  [c |-> y \div Base, s |-> Append(acc.s, y % Base)],
                    [c |-> 0, s |-> <<>>], v)
  IN  Append(r.s, r.c)
NatSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET y == a[i] - b[i] + acc.c
                                    IN  [c |-> y \div Base, s |-> Append(acc.s, y % Base)],
                    [c |-> 0, s |-> <<>>], [i \in 1..Len(a) |-> i])
  IN  r.s

Halves == <<2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>
\* long division of natural numbers: the largest digit that fits, from the top
NatDiv(u, v) ==
  LET n == Len(u)
      step(acc, i) ==
        LET rem == <<u[i]>> \o SubSeq(acc.rem, 1, n)
            q == IF NatLess(rem, Append(v, 0)) THEN 0
                 ELSE FoldLeft(LAMBDA g, h : IF NatLess(rem, NatScale(v, g + h)) THEN g ELSE g + h, 0, Halves)
        IN  [rem |-> IF q = 0 THEN rem ELSE NatSub(rem, NatScale(v, q)), q |-> <<q>> \o acc.q]
      r == FoldLeft(step, [rem |-> [i \in 1..(n + 1) |-> 0], q |-> <<>>], [i \in 1..n |-> n + 1 - i])
  IN  r.q

\* towards zero; b is not zero
WDiv(m, a, b) ==
  LET q == NatDiv(WAbs(m, a), WAbs(m, b))
  IN  WNorm(m, IF WNegative(m, a) = WNegative(m, b) THEN q ELSE [i \in 1..Len(q) |-> -q[i]])
=============================================================================
