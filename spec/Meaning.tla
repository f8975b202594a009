------------------------------ MODULE Meaning -------------------------------
(***************************************************************************)
(* What every tensor operation means.                                      *)
(*                                                                         *)
(* An operation k with parameters p on operands of shapes sa, sb (unary     *)
(* operations ignore sb) is accepted iff Accepts(k,p,sa,sb); its result has *)
(* shape ResShape(k,p,sa,sb); element j of the result is described by      *)
(* Elem(k,p,sa,sb,j) = [op, src]: a scalar operation and the operand        *)
(* elements it reads, <<1,i>> = element i of the first operand, <<2,i>> of  *)
(* the second, <<3,1>> = the scalar operand.  op = "view" means the element *)
(* IS the source element (same cell), op = "zero" a fresh zero.             *)
(* Dimensions in parameters are 0-based, as in the API.                     *)
(***************************************************************************)
EXTENDS Num, Shapes

Binary   == {"add", "sub", "mul", "div"}
WithScal == {"adds", "subs", "muls", "divs"}
Unary    == {"neg", "abs", "act"}
Reduce   == {"sum", "avg", "min", "max"}
DReduce  == {"dsum", "davg", "dmin", "dmax"}
Views    == {"transpose", "reshape", "flatten", "subt", "subx", "concat"}
TwoArg   == Binary \cup {"dot", "dotat", "concat", "copy"}
Kinds    == Binary \cup WithScal \cup Unary \cup Reduce \cup DReduce \cup Views \cup {"dot", "dotat", "softmax"}
Pure     == Kinds
Effects  == {"copy", "fill"}

\* contracted dimensions of dot (1-based)
DotA(k, p, sa) == IF k = "dot" THEN Len(sa) ELSE p.da + 1
DotB(k, p, sb) == IF k = "dot" THEN (IF Len(sb) > 1 THEN Len(sb) - 1 ELSE 1) ELSE p.db + 1

Accepts(k, p, sa, sb) ==
  CASE k \in Binary -> sa = sb
    [] k \in WithScal \cup Unary \cup Reduce \cup {"softmax", "transpose", "flatten", "fill"} -> TRUE
    [] k = "reshape" -> TRUE
    [] k \in DReduce -> p.dim < Len(sa)
    [] k \in {"subt", "subx"} -> /\ p.dim < Len(sa)
                                 /\ p.from < p.to
                                 /\ (k = "subx" \/ p.to <= sa[p.dim + 1])
    [] k = "concat" -> /\ Len(sa) = Len(sb)
                       /\ p.dim < Len(sa)
                       /\ \A i \in 1..Len(sa) : i # p.dim + 1 => sa[i] = sb[i]
    [] k \in {"dot", "dotat"} ->
         /\ Len(sa) > 0 /\ Len(sb) > 0
         /\ LET da == DotA(k, p, sa)  db == DotB(k, p, sb)
            IN  da <= Len(sa) /\ db <= Len(sb) /\ sa[da] = sb[db]
    [] k = "copy" -> Size(sa) = Size(sb)

ResShape(k, p, sa, sb) ==
  CASE k \in Binary \cup WithScal \cup Unary \cup {"softmax", "fill"} -> sa
    [] k \in Reduce -> <<1>>
    [] k \in DReduce -> SubSeq(sa, 1, p.dim + 1)
    [] k = "transpose" -> Reverse(sa)
    [] k = "reshape" -> p.shape
    [] k = "flatten" -> <<Size(sa)>>
    [] k \in {"subt", "subx"} -> [sa EXCEPT ![p.dim + 1] = p.to - p.from]
    [] k = "concat" -> [sa EXCEPT ![p.dim + 1] = sa[p.dim + 1] + sb[p.dim + 1]]
    [] k \in {"dot", "dotat"} ->
         IF Len(sa) = 1 /\ Len(sb) = 1 THEN <<1>>
         ELSE RemoveAt(sa, DotA(k, p, sa)) \o RemoveAt(sb, DotB(k, p, sb))
    [] k = "copy" -> sb

All1(sa) == [i \in 1..Size(sa) |-> <<1, i>>]
ScalarOp(k) == CASE k \in {"add", "adds"} -> "add" [] k \in {"sub", "subs"} -> "sub"
                 [] k \in {"mul", "muls"} -> "mul" [] k \in {"div", "divs"} -> "div"
RedOp(k) == CASE k \in {"sum", "dsum"} -> "sum" [] k \in {"avg", "davg"} -> "avg"
              [] k \in {"min", "dmin"} -> "min" [] k \in {"max", "dmax"} -> "max"
View(a, i) == [op |-> "view", src |-> <<<<a, i>>>>]

Elem(k, p, sa, sb, j) ==
  LET rs == ResShape(k, p, sa, sb) IN
  CASE k \in Binary   -> [op |-> ScalarOp(k), src |-> <<<<1, j>>, <<2, j>>>>]
    [] k \in WithScal -> [op |-> ScalarOp(k), src |-> <<<<1, j>>, <<3, 1>>>>]
    [] k \in {"neg", "abs"} -> [op |-> k, src |-> <<<<1, j>>>>]
    [] k = "act"      -> [op |-> p.f, src |-> <<<<1, j>>>>]
    [] k \in Reduce   -> [op |-> RedOp(k), src |-> All1(sa)]
    [] k \in DReduce  -> LET b == Stride(sa, p.dim + 1)
                         IN  [op |-> RedOp(k), src |-> [i \in 1..b |-> <<1, (j - 1) * b + i>>]]
    [] k = "softmax"  -> [op |-> "softmax", src |-> <<<<1, j>>>> \o All1(sa)]
    [] k = "transpose" -> View(1, Flat(sa, Reverse(Unflat(rs, j))))
    [] k \in {"reshape", "flatten"} -> IF j <= Size(sa) THEN View(1, j) ELSE [op |-> "zero", src |-> <<>>]
    [] k \in {"subt", "subx"} ->
         LET idx == Unflat(rs, j)
             c   == idx[p.dim + 1] + p.from
         IN  IF c >= sa[p.dim + 1] THEN [op |-> "zero", src |-> <<>>]
             ELSE View(1, Flat(sa, [idx EXCEPT ![p.dim + 1] = c]))
    [] k = "concat" ->
         LET idx == Unflat(rs, j)
             c   == idx[p.dim + 1]
             n   == sa[p.dim + 1]
         IN  IF c < n THEN View(1, Flat(sa, idx))
             ELSE View(2, Flat(sb, [idx EXCEPT ![p.dim + 1] = c - n]))
    [] k \in {"dot", "dotat"} ->
         LET da == DotA(k, p, sa)  db == DotB(k, p, sb)  n == sa[da]
             vv == Len(sa) = 1 /\ Len(sb) = 1
             idx == Unflat(rs, j)
             ia == IF vv THEN <<>> ELSE SubSeq(idx, 1, Len(sa) - 1)
             ib == IF vv THEN <<>> ELSE SubSeq(idx, Len(sa), Len(idx))
         IN  [op |-> "dot",
              src |-> [i \in 1..(2 * n) |->
                         IF i % 2 = 1 THEN <<1, Flat(sa, InsertAt(ia, da, i \div 2))>>
                         ELSE <<2, Flat(sb, InsertAt(ib, db, (i \div 2) - 1))>>]]

\* value of a scalar operation on its source values
DotSeq(m, s) == FoldLeftDomain(LAMBDA acc, i : IF i % 2 = 0 THEN acc ELSE Add(m, acc, Mul(m, s[i], s[i + 1])),
                               Zero(m), s)
SoftSum(m, s) == LET x == SubSeq(s, 2, Len(s)) mn == MinSeq(m, x)
                 IN  Sub(m, SumSeq(m, x), Mul(m, mn, Lit(m, Len(x))))
OpFails(m, op, s) ==
  CASE op = "div" -> DivFails(m, s[2])
    [] op = "softmax" -> DivFails(m, SoftSum(m, s))
    [] OTHER -> FALSE
OpVal(m, op, s) ==
  CASE op = "add" -> Add(m, s[1], s[2])
    [] op = "sub" -> Sub(m, s[1], s[2])
    [] op = "mul" -> Mul(m, s[1], s[2])
    [] op = "div" -> Div(m, s[1], s[2])
    [] op = "neg" -> Neg(m, s[1])
    [] op = "abs" -> AbsV(m, s[1])
    [] op = "set" -> s[1]
    [] op = "eq"  -> IF AnyBad(m, s) THEN Undef ELSE IF Eq(m, s[1], s[2]) THEN One(m) ELSE Zero(m)
    [] op = "sum" -> SumSeq(m, s)
    [] op = "avg" -> AvgSeq(m, s)
    [] op = "min" -> MinSeq(m, s)
    [] op = "max" -> MaxSeq(m, s)
    [] op = "dot" -> DotSeq(m, s)
    [] op = "softmax" -> LET x == SubSeq(s, 2, Len(s))
                         IN  Div(m, Sub(m, s[1], MinSeq(m, x)), SoftSum(m, s))
    [] op = "zero" -> Zero(m)
    [] op = "view" -> s[1]
    [] OTHER -> Fun(m, op, s[1])

\* the operation applied to concrete data (da, db flat, sv the scalar)
Src(da, db, sv, x) == IF x[1] = 1 THEN da[x[2]] ELSE IF x[1] = 2 THEN db[x[2]] ELSE sv
SrcVals(da, db, sv, e) == [i \in 1..Len(e.src) |-> Src(da, db, sv, e.src[i])]
ApplyFails(m, k, p, sa, da, sb, db, sv) ==
  \E j \in 1..Size(ResShape(k, p, sa, sb)) :
     LET e == Elem(k, p, sa, sb, j) IN OpFails(m, e.op, SrcVals(da, db, sv, e))
Apply(m, k, p, sa, da, sb, db, sv) ==
  [j \in 1..Size(ResShape(k, p, sa, sb)) |->
     LET e == Elem(k, p, sa, sb, j) IN OpVal(m, e.op, TLCEval(SrcVals(da, db, sv, e)))]
=============================================================================
