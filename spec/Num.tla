-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Number domains of the library's element types.                          *)
(*   "i16"  int16: the ring Z/2^16 with two's complement representatives    *)
(*          (every intermediate fits TLC's 32-bit integers)                *)
(*   "i32"  int32, and "i64" int and int64: as digits, see Wide             *)
(*   "int"  exact integers (what is counted or only moved)                  *)
(*   "rat"  float32, float64: exact rationals <<n,d>>, d > 0, lowest terms;*)
(*          <<0,0>> is "unspecified" (division by zero and everything      *)
(*          computed from it), which matches any observed value            *)
(* Integer division truncates towards zero, as in Go.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Wide, TLC

Modes == {"i16", "i32", "i64", "int", "rat"}
IsWide(m) == m \in {"i32", "i64"}

Abs0(x) == IF x < 0 THEN -x ELSE x
Wrap16(x) == ((x + 32768) % 65536) - 32768
TruncDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs0(a) \div Abs0(b) ELSE -(Abs0(a) \div Abs0(b))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, TLCEval(a % b))

Undef == <<0, 0>>
Rat(n, d) == IF d = 0 THEN Undef
             ELSE IF d = 1 THEN <<n, 1>>
             ELSE LET g == Gcd(Abs0(n), Abs0(d))
                      s == IF d < 0 THEN -1 ELSE 1
                  IN  <<s * (n \div g), s * (d \div g)>>
BadR(a) == a[2] = 0
\* TLC's integers have 32 bits: a rational that would need more counts as unspecified
Fits32(a, b) == a = 0 \/ Abs0(b) <= 2147483647 \div Abs0(a)
\* float32 has 24 bits: more counts as unspecified as well
Cap(a) == IF Abs0(a[1]) > 16777216 THEN Undef ELSE a
TooBig(a) == Abs0(a[1]) > 46340 \/ a[2] > 46340

\* an integer literal as a value of the mode
Lit(m, n) == IF m = "rat" THEN <<n, 1>> ELSE IF IsWide(m) THEN WLit(m, n) ELSE IF m = "i16" THEN Wrap16(n) ELSE n
Zero(m) == IF m = "rat" THEN <<0, 1>> ELSE IF IsWide(m) THEN WZero[m] ELSE 0
One(m)  == IF m = "rat" THEN <<1, 1>> ELSE IF IsWide(m) THEN [WZero[m] EXCEPT ![1] = 1] ELSE 1

Add(m, a, b) ==
  IF m = "rat" THEN IF BadR(a) \/ BadR(b) THEN Undef
                    ELSE IF Abs0(a[1]) > 1000000000 \/ Abs0(b[1]) > 1000000000 THEN Undef
                    ELSE IF a[2] = b[2] THEN Cap(Rat(a[1] + b[1], a[2]))
                    ELSE LET g == Gcd(a[2], b[2])
                             da == a[2] \div g
                             db == b[2] \div g
                         IN  IF ~Fits32(a[1], db) \/ ~Fits32(b[1], da) \/ ~Fits32(a[2], db) THEN Undef
                             ELSE LET x == a[1] * db
                                      y == b[1] * da
                                  IN  IF Abs0(x) > 1000000000 \/ Abs0(y) > 1000000000 THEN Undef
                                      ELSE Cap(Rat(x + y, a[2] * db))
  ELSE IF m = "i16" THEN Wrap16(a + b) ELSE IF IsWide(m) THEN WAdd(m, a, b) ELSE a + b
Neg(m, a) ==
  IF m = "rat" THEN <<-a[1], a[2]>>
  ELSE IF m = "i16" THEN Wrap16(-a) ELSE IF IsWide(m) THEN WNeg(m, a) ELSE -a
Sub(m, a, b) == Add(m, a, Neg(m, b))
Mul(m, a, b) ==
  IF m = "rat" THEN IF BadR(a) \/ BadR(b) THEN Undef
                    ELSE LET g == IF b[2] = 1 \/ a[1] = 0 THEN 1 ELSE Gcd(Abs0(a[1]), b[2])
                             h == IF a[2] = 1 \/ b[1] = 0 THEN 1 ELSE Gcd(Abs0(b[1]), a[2])
                             x == TruncDiv(a[1], g)
                             y == TruncDiv(b[1], h)
                             u == a[2] \div h
                             v == b[2] \div g
                         IN  IF ~Fits32(x, y) \/ ~Fits32(u, v) THEN Undef
                             ELSE Cap(Rat(x * y, u * v))
  ELSE IF m = "i16" THEN Wrap16(a * b) ELSE IF IsWide(m) THEN WMul(m, a, b) ELSE a * b

\* integer division by zero has no value: callers test DivFails first
IsZero(m, a) == IF m = "rat" THEN a[1] = 0 /\ a[2] # 0 ELSE a = Zero(m)
DivFails(m, b) == m # "rat" /\ b = Zero(m)
Div(m, a, b) ==
  IF m = "rat" THEN IF BadR(a) \/ BadR(b) \/ b[1] = 0 THEN Undef
                    ELSE Mul(m, a, IF b[1] > 0 THEN <<b[2], b[1]>> ELSE <<-b[2], -b[1]>>)
  ELSE IF m = "i16" THEN Wrap16(TruncDiv(a, b)) ELSE IF IsWide(m) THEN WDiv(m, a, b) ELSE TruncDiv(a, b)

Less(m, a, b) == IF m = "rat" THEN a[1] * b[2] < b[1] * a[2] ELSE IF IsWide(m) THEN WLess(m, a, b) ELSE a < b
Eq(m, a, b) == a = b
AnyBad(m, s) == m = "rat" /\ \E i \in 1..Len(s) : BadR(s[i]) \/ TooBig(s[i])

\* does an observed value agree with a specified one
\* (a rational with a large numerator or denominator cannot be told from its
\* neighbours in what a floating-point number shows: not compared)
Vague(a) == a[2] = 0 \/ a[2] > 10000 \/ Abs0(a[1]) > 16777216
Match(m, spec, obs) == spec = obs \/ (m = "rat" /\ Vague(spec))
MatchSeq(m, spec, obs) == Len(spec) = Len(obs) /\ \A i \in 1..Len(spec) : Match(m, spec[i], obs[i])

AbsV(m, a) == IF m = "rat" THEN <<Abs0(a[1]), a[2]>> ELSE IF IsWide(m) THEN WAbs(m, a) ELSE IF a < 0 THEN Neg(m, a) ELSE a

\* folds are evaluated strictly by TLC (recursive operators lazily, which can
\* take exponential time)
SumSeq(m, s) == FoldLeft(LAMBDA acc, x : Add(m, acc, x), Zero(m), s)
MinSeq(m, s) == IF AnyBad(m, s) THEN Undef
                ELSE FoldLeft(LAMBDA acc, x : IF Less(m, x, acc) THEN x ELSE acc, s[1], s)
MaxSeq(m, s) == IF AnyBad(m, s) THEN Undef
                ELSE FoldLeft(LAMBDA acc, x : IF Less(m, acc, x) THEN x ELSE acc, s[1], s)
AvgSeq(m, s) == Div(m, SumSeq(m, s), Lit(m, Len(s)))

\* Function symbols usable as activation functions / user functions.
\* Activate:
Fun(m, f, x) ==
  CASE f = "lin"  -> x
    [] f = "relu2" -> IF AnyBad(m, <<x>>) THEN Undef
                      ELSE IF Less(m, x, Zero(m)) THEN Mul(m, x, Lit(m, 2)) ELSE x
    [] f = "relu0" -> IF AnyBad(m, <<x>>) THEN Undef
                      ELSE IF Less(m, x, Zero(m)) THEN Zero(m) ELSE x
    [] f = "sq"   -> Mul(m, x, x)
    [] f = "aff"  -> Add(m, Mul(m, x, Lit(m, 3)), Lit(m, 1))
    [] f = "one"  -> One(m)
\* Derive:
Der(m, f, x) ==
  CASE f = "lin"  -> One(m)
    [] f = "relu2" -> IF AnyBad(m, <<x>>) THEN Undef
                      ELSE IF Less(m, x, Zero(m)) THEN Lit(m, 2) ELSE One(m)
    [] f = "relu0" -> IF AnyBad(m, <<x>>) THEN Undef
                      ELSE IF Less(m, x, Zero(m)) THEN Zero(m) ELSE One(m)
    [] f = "sq"   -> Mul(m, Lit(m, 2), x)
    [] f = "aff"  -> Lit(m, 3)
=============================================================================
