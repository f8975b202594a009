---------------------------- MODULE Activations -----------------------------
(***************************************************************************)
(* The activation functions by the relations that characterise them.        *)
(* Inputs are x = xi/1024; results are fixed-point numbers, units of 1e-7.  *)
(* a: Alpha, l: Lambda, both in eighths.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

U == 10000000                       \* one
Names == {"linear", "relu", "elu", "selu", "sigmoid", "tanh", "sin", "swish", "gelu"}
Kinked == {"relu", "elu", "selu"}   \* not differentiable at zero

AbsI(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == AbsI(a - b) <= tol

\* fixed point of xi/1024 without overflow (|xi| < 2^15)
Fx(xi) == (xi * 9765) + ((xi * 625) \div 1000)     \* 1e7/1024 = 9765.625
\* products of fixed-point numbers below about 20, to 1e-4
M4(a, b) == ((a \div 1000) * (b \div 1000)) \div 10000
E4(a) == a \div 1000

\* slope: the five-point rule on y = f(x-2h), f(x-h), f(x), f(x+h), f(x+2h), h = 1/64:
\* 8(f(x+h)-f(x-h)) - (f(x+2h)-f(x-2h)) = 12 h f'(x) up to h^5
SlopeOk(f, xi, y, d, acc) ==
  (f \in Kinked /\ AbsI(xi) < 32) \/
  LET D == 8 * (y[4] - y[2]) - (y[5] - y[1])
  IN  Near(16 * D, 3 * d, 3 * acc.slope)

\* what is known of f at x: y = f(x), d = f'(x), s = sigmoid(x); yn, dn the same at -x;
\* s2 = sigmoid(2x); ev, ed: ELU and its derivative with the same Alpha
ValueOk(f, xi, r, acc) ==
  LET x == Fx(xi)
      y == r.y
      d == r.d
      t == acc.value
      kink == f \in Kinked /\ xi = 0
      \* scaling by an eighth factor
      By8(k, v) == ((k * (v \div 8)) + ((k * (v % 8)) \div 8))
  IN  CASE f = "linear"  -> Near(y, x, t) /\ d = U
        [] f = "relu"    -> IF xi >= 0 THEN Near(y, x, t) /\ (kink \/ d = U)
                            ELSE Near(y, By8(r.a, x), t) /\ Near(d, By8(r.a, U), t)
        [] f = "elu"     -> IF xi >= 0 THEN Near(y, x, t) /\ (kink \/ Near(d, U, t))
                            ELSE /\ Near(d, y + By8(r.a, U), t)
                                 /\ (IF r.a >= 0 THEN y <= 0 /\ y >= -By8(r.a, U) - t
                                                   ELSE y >= 0 /\ y <= -By8(r.a, U) + t)
                                 \* exp(x) = s / (1 - s)
                                 /\ Near(M4(y + By8(r.a, U), U - r.s), M4(By8(r.a, U), r.s), 8)
        [] f = "selu"    -> Near(y, By8(r.l, r.ev), t) /\ (kink \/ Near(d, By8(r.l, r.ed), t))
        [] f = "sigmoid" -> /\ y >= 0 /\ y <= U
                            /\ (xi = 0 => Near(y, U \div 2, t))
                            /\ (xi > 0 => y > U \div 2) /\ (xi < 0 => y < U \div 2)
                            /\ Near(y + r.yn, U, t)
                            /\ Near(M4(y, U - y), E4(d), 4)
        [] f = "tanh"    -> /\ Near(y, -r.yn, t)
                            /\ Near(y, 2 * r.s2 - U, t)
                            /\ Near(M4(y, y) + E4(d), 10000, 4)
        [] f = "sin"     -> /\ Near(y, -r.yn, t) /\ Near(d, r.dn, t)
                            /\ (xi = 0 => Near(d, U, t))
                            /\ Near(M4(y, y) + M4(d, d), 10000, 6)
                            \* first quadrants
                            /\ (xi > 0 /\ xi < 3216 => y > 0) /\ (xi > 3218 /\ xi < 6433 => y < 0)
        [] f = "swish"   -> /\ Near((xi * (r.s \div 100)) \div 1024, y \div 100, 16)
                            /\ Near(y - r.yn, x, t)
        [] f = "gelu"    -> /\ Near(y - r.yn, x, t)
                            /\ Near(d + r.dn, U, t)
                            /\ y >= -1800000
                            /\ (xi >= 0 => y >= 0 /\ y <= x + t)
                            \* x times the normal distribution function
                            /\ CASE xi = 512  -> Near(E4(y), 3457, 8)
                                 [] xi = 1024 -> Near(E4(y), 8413, 8)
                                 [] xi = 1536 -> Near(E4(y), 13998, 8)
                                 [] xi = 2048 -> Near(E4(y), 19545, 8)
                                 [] xi = 3072 -> Near(E4(y), 29960, 8)
                                 [] OTHER -> TRUE

\* far out and close to zero: <<what, value, derivative>>; "ratio": f(x)/x
\* sg: sign of x
Limit(f, sg, a, l) ==
  LET A == a * (U \div 8)
      L == l * (U \div 8)
      AL == (a * l) * (U \div 64)
  IN  CASE f = "linear"  -> <<"ratio", U, U>>
        [] f = "relu"    -> IF sg > 0 THEN <<"ratio", U, U>> ELSE <<"ratio", A, A>>
        [] f = "elu"     -> IF sg > 0 THEN <<"ratio", U, U>> ELSE <<"value", -A, 0>>
        [] f = "selu"    -> IF sg > 0 THEN <<"ratio", L, L>> ELSE <<"value", -AL, 0>>
        [] f = "sigmoid" -> IF sg > 0 THEN <<"value", U, 0>> ELSE <<"value", 0, 0>>
        [] f = "tanh"    -> IF sg > 0 THEN <<"value", U, 0>> ELSE <<"value", -U, 0>>
        [] f \in {"swish", "gelu"} -> IF sg > 0 THEN <<"ratio", U, U>> ELSE <<"value", 0, 0>>
Tiny(f, sg, a, l) ==
  LET A == a * (U \div 8)
      L == l * (U \div 8)
      AL == (a * l) * (U \div 64)
  IN  CASE f \in {"linear", "tanh", "sin"} -> <<"ratio", U, U>>
        [] f = "relu"    -> IF sg > 0 THEN <<"ratio", U, U>> ELSE <<"ratio", A, A>>
        [] f = "elu"     -> IF sg > 0 THEN <<"ratio", U, U>> ELSE <<"ratio", A, A>>
        [] f = "selu"    -> IF sg > 0 THEN <<"ratio", L, L>> ELSE <<"ratio", AL, AL>>
        [] f = "sigmoid" -> <<"value", U \div 2, U \div 4>>
        [] f \in {"swish", "gelu"} -> <<"ratio", U \div 2, U \div 2>>

EndOk(w, r, tol) == Near(IF w[1] = "ratio" THEN r.q ELSE r.y, w[2], tol) /\ Near(r.d, w[3], tol)
\* the sine stays bounded far out
FarOk(f, r, acc) == IF f = "sin" THEN AbsI(r.y) <= U /\ AbsI(r.d) <= U /\ Near(M4(r.y, r.y) + M4(r.d, r.d), 10000, 6)
                    ELSE EndOk(Limit(f, r.sg, r.a, r.l), r, acc.value)
TinyOk(f, r) == EndOk(Tiny(f, r.sg, r.a, r.l), r, 10000)

Acc(type) == IF type = "float64" THEN [slope |-> 100, value |-> 8] ELSE [slope |-> 6000, value |-> 60]
=============================================================================
