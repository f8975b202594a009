-------------------------------- MODULE Half --------------------------------
(***************************************************************************)
(* Half-precision numbers and the scalar registers of package scalar.      *)
(* A number is <<s, n, x>>: (-1)^s * n * 2^x with n odd, or n = 0 = x for   *)
(* zero; Inf(s) and NaN; Vague is a number the specification does not       *)
(* determine (it would need more than TLC's 32-bit integers, or the         *)
(* rounding of another format).                                             *)
(* A half is its bit pattern, 0..65535.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

P2 == [k \in 0..30 |-> 2^k]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Log2(n) == CHOOSE k \in 0..30 : P2[k] <= n /\ (k = 30 \/ n < P2[k + 1])
Twos(n) == CHOOSE k \in 0..30 : n % P2[k] = 0 /\ (n \div P2[k]) % 2 = 1

Inf(s) == <<s, -1, 0>>
NaN    == <<0, -2, 0>>
Vague  == <<0, -3, 0>>
Num3(s, n, x) == IF n = 0 THEN <<s, 0, 0>>
                 ELSE LET t == Twos(n) IN <<s, n \div P2[t], x + t>>
Finite(v)  == v[2] >= 0
IsZero3(v) == v[2] = 0

---------------------------------------------------------------------------
\* what a half denotes
Sign(h) == h \div 32768
Ex(h)   == (h \div 1024) % 32
Man(h)  == h % 1024
Val(h) == IF Ex(h) = 31 THEN (IF Man(h) = 0 THEN Inf(Sign(h)) ELSE NaN)
          ELSE IF Ex(h) = 0 THEN Num3(Sign(h), Man(h), -24)
          ELSE Num3(Sign(h), 1024 + Man(h), Ex(h) - 25)

\* the nearest half to n/d * 2^x (n, d > 0), ties to even: the magnitude bits.
\* Halves are spaced 2^u apart around it.
Magnitude(n, d, x) ==
  LET l == Log2(n) - Log2(d)
      p == IF l >= 0 THEN (IF d * P2[l] <= n THEN l ELSE l - 1)      \* floor(log2(n/d))
           ELSE IF d <= n * P2[-l] THEN l ELSE l - 1
      u == Max2(p + x - 10, -24)
      s == x - u
  IN  IF p + x > 15 THEN 31744
      ELSE IF p + s < -1 THEN 0
      ELSE LET num == IF s > 0 THEN n * P2[s] ELSE n
               den == IF s < 0 THEN d * P2[-s] ELSE d
               q == num \div den
               r == num % den
               k == IF 2 * r > den \/ (2 * r = den /\ q % 2 = 1) THEN q + 1 ELSE q
           IN  Min2(k + (u + 24) * 1024, 31744)

AnyNaN(h) == Ex(h) = 31 /\ Man(h) # 0
\* is h the half a number converts to
HalfOf(v) == IF v[2] = -1 THEN 32768 * v[1] + 31744
             ELSE IF IsZero3(v) THEN 32768 * v[1]
             ELSE 32768 * v[1] + Magnitude(v[2], 1, v[3])
AgreesHalf(v, h) == v = Vague \/ (IF v = NaN THEN AnyNaN(h) ELSE h = HalfOf(v))

\* a float32 given by its three fields
Val32(s, e, m) == IF e = 255 THEN (IF m = 0 THEN Inf(s) ELSE NaN)
                  ELSE IF e = 0 THEN Num3(s, m, -149)
                  ELSE Num3(s, 8388608 + m, e - 150)
\* the fields of a number as float32, and as float64 with the significand split
\* in two halves of 26 bits
Fields32(v) == IF IsZero3(v) THEN <<v[1], 0, 0>>
               ELSE IF v[2] = -1 THEN <<v[1], 255, 0>>
               ELSE LET p == Log2(v[2])
                    IN  <<v[1], p + v[3] + 127, (v[2] - P2[p]) * P2[23 - p]>>
Fields64(v) == IF IsZero3(v) THEN <<v[1], 0, 0, 0>>
               ELSE IF v[2] = -1 THEN <<v[1], 2047, 0, 0>>
               ELSE LET p == Log2(v[2])
                    IN  <<v[1], p + v[3] + 1023, (v[2] - P2[p]) * P2[26 - p], 0>>

Class(h) == [nan |-> AnyNaN(h), quiet |-> AnyNaN(h) /\ Man(h) >= 512,
             inf |-> Val(h)[2] = -1, pinf |-> h = 31744, ninf |-> h = 64512,
             finite |-> Ex(h) # 31, normal |-> Ex(h) # 31 /\ Ex(h) # 0, neg |-> Sign(h) = 1]

---------------------------------------------------------------------------
\* exact arithmetic; the result is <<s, n, d, x>>: n/d * 2^x, or a special
Special(v) == <<v[1], v[2], 1, v[3]>>
NaN4 == Special(NaN)
Vague4 == Special(Vague)
Neg3(v) == IF v[2] <= -2 THEN v ELSE <<1 - v[1], v[2], v[3]>>

\* finite, non-zero, exponents at most 18 apart: fits 30 bits when both have 11
Sum(a, b) ==
  LET x == Min2(a[3], b[3])
      big == IF a[3] + Log2(a[2]) >= b[3] + Log2(b[2]) THEN a ELSE b
      sml == IF big = a THEN b ELSE a
      da == a[3] - x
      db == b[3] - x
  IN  IF Log2(a[2]) + da > 28 \/ Log2(b[2]) + db > 28
      THEN IF big[2] < 2048 /\ sml[2] < 2048 /\ big[3] - sml[3] - Log2(sml[2]) > 14
           THEN <<2, big[2], 1, big[3], big[1]>>        \* too far below to matter for a half
           ELSE <<3>>
      ELSE LET t == (IF a[1] = 0 THEN 1 ELSE -1) * a[2] * P2[da] + (IF b[1] = 0 THEN 1 ELSE -1) * b[2] * P2[db]
           IN  <<IF t < 0 THEN 1 ELSE 0, IF t < 0 THEN -t ELSE t, 1, x>>

\* value of  a op b  as an exact fraction; "far" marks a sum rounded to its larger operand
Exact(op, a, b0) ==
  LET b == IF op = "sub" THEN Neg3(b0) ELSE b0
      sx == (a[1] + b[1]) % 2
  IN
  IF a = Vague \/ b = Vague THEN [v |-> Vague4, far |-> FALSE]
  ELSE IF a = NaN \/ b = NaN THEN [v |-> NaN4, far |-> FALSE]
  ELSE IF op \in {"add", "sub"} THEN
    IF ~Finite(a) THEN [v |-> IF ~Finite(b) /\ a # b THEN NaN4 ELSE Special(a), far |-> FALSE]
    ELSE IF ~Finite(b) THEN [v |-> Special(b), far |-> FALSE]
    ELSE IF IsZero3(a) /\ IsZero3(b) THEN [v |-> <<IF a[1] = 1 /\ b[1] = 1 THEN 1 ELSE 0, 0, 1, 0>>, far |-> FALSE]
    ELSE IF IsZero3(a) THEN [v |-> <<b[1], b[2], 1, b[3]>>, far |-> FALSE]
    ELSE IF IsZero3(b) THEN [v |-> <<a[1], a[2], 1, a[3]>>, far |-> FALSE]
    ELSE LET t == Sum(a, b)
         IN  IF Len(t) = 1 THEN [v |-> Vague4, far |-> FALSE]
             ELSE IF Len(t) = 5 THEN [v |-> <<t[5], t[2], 1, t[4]>>, far |-> TRUE]
             ELSE IF t[2] = 0 THEN [v |-> <<0, 0, 1, 0>>, far |-> FALSE]
             ELSE [v |-> t, far |-> FALSE]
  ELSE IF op = "mul" THEN
    IF ~Finite(a) \/ ~Finite(b) THEN [v |-> IF IsZero3(a) \/ IsZero3(b) THEN NaN4 ELSE Special(Inf(sx)), far |-> FALSE]
    ELSE IF IsZero3(a) \/ IsZero3(b) THEN [v |-> <<sx, 0, 1, 0>>, far |-> FALSE]
    ELSE IF Log2(a[2]) + Log2(b[2]) > 28 THEN [v |-> Vague4, far |-> FALSE]
    ELSE [v |-> <<sx, a[2] * b[2], 1, a[3] + b[3]>>, far |-> FALSE]
  ELSE \* div
    IF ~Finite(a) THEN [v |-> IF ~Finite(b) THEN NaN4 ELSE Special(Inf(sx)), far |-> FALSE]
    ELSE IF ~Finite(b) THEN [v |-> <<sx, 0, 1, 0>>, far |-> FALSE]
    ELSE IF IsZero3(b) THEN [v |-> IF IsZero3(a) THEN NaN4 ELSE Special(Inf(sx)), far |-> FALSE]
    ELSE IF IsZero3(a) THEN [v |-> <<sx, 0, 1, 0>>, far |-> FALSE]
    ELSE [v |-> <<sx, a[2], b[2], a[3] - b[3]>>, far |-> FALSE]

Small(v) == v[2] < 2048
\* the number a half register holds after  a op b.  The 32-bit operation in
\* between rounds to 24 bits, which does not matter when both operands have at
\* most 11 bits (24 >= 2*11 + 2), nor when the exact result fits 24 bits.
OpHalf(op, a, b) ==
  LET e == TLCEval(Exact(op, a, b))
      v == e.v
  IN  IF v[2] < 0 THEN <<v[1], v[2], v[4]>>
      ELSE IF v[2] = 0 THEN <<v[1], 0, 0>>
      ELSE IF ~((Small(a) /\ Small(b)) \/ (v[3] = 1 /\ Num3(0, v[2], 0)[2] < 16777216)) THEN Vague
      ELSE IF ~Small(a) /\ v[3] # 1 THEN Vague
      ELSE Val(32768 * v[1] + Magnitude(v[2], v[3], v[4]))
\* ... a float32 or float64 register: exact results only
OpWide(op, a, b) ==
  LET e == TLCEval(Exact(op, a, b))
      v == e.v
  IN  IF v[2] < 0 THEN <<v[1], v[2], v[4]>>
      ELSE IF e.far \/ v[3] # 1 THEN Vague
      ELSE IF v[2] = 0 THEN <<v[1], 0, 0>>
      ELSE LET r == Num3(v[1], v[2], v[4])
           IN  IF r[2] < 16777216 /\ r[3] > -120 /\ r[3] < 90 THEN r ELSE Vague

\* what a register of kind k holds after receiving the number v
Store(k, v) == IF v = Vague \/ v = NaN \/ k # "f16" THEN v ELSE Val(HalfOf(v))
Op(k, op, a, b) == IF k = "f16" THEN OpHalf(op, a, b) ELSE OpWide(op, a, b)

\* does an observed number (<<0, -4, 0>>: too wide to record) agree
AgreesNum(v, o) == v = Vague \/ v = o

\* order of the denoted values: "<", "=", ">"
Order(a, b) ==
  LET key(v) == IF IsZero3(v) THEN 0 ELSE IF v[1] = 1 THEN -1 ELSE 1
      \* |a| against |b|
      mag == IF ~Finite(a) \/ ~Finite(b)
             THEN IF Finite(a) THEN "<" ELSE IF Finite(b) THEN ">" ELSE "="
             ELSE LET pa == Log2(a[2]) + a[3]
                      pb == Log2(b[2]) + b[3]
                      la == Log2(a[2])
                      lb == Log2(b[2])
                      w == Max2(la, lb)
                      na == a[2] * P2[w - la]
                      nb == b[2] * P2[w - lb]
                  IN  IF pa # pb THEN (IF pa < pb THEN "<" ELSE ">")
                      ELSE IF na = nb THEN "=" ELSE IF na < nb THEN "<" ELSE ">"
  IN  IF key(a) # key(b) THEN (IF key(a) < key(b) THEN "<" ELSE ">")
      ELSE IF key(a) = 0 THEN "="
      ELSE IF key(a) = 1 THEN mag
      ELSE IF mag = "<" THEN ">" ELSE IF mag = ">" THEN "<" ELSE "="
=============================================================================
