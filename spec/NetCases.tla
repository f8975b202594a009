------------------------------ MODULE NetCases ------------------------------
(***************************************************************************)
(* Every small model of a family: each kind of layer with every parameter   *)
(* in and just outside the sensible range, behind and in front of layers    *)
(* with parameters.  Used twice:                                            *)
(*  - model checked: the backward pass of the specification is the          *)
(*    derivative of its forward pass (computed independently, with dual     *)
(*    numbers, parameter by parameter), and building agrees with the        *)
(*    documented shapes;                                                    *)
(*  - as a generator: every model is a script for the real library: use it, *)
(*    train it, use it again, or see it rejected.                           *)
(***************************************************************************)
EXTENDS Network, FiniteSets, FiniteSetsExt, Json, IOUtils

B == atoi(IOEnv.BOUND)
OUT == IOEnv.OUT
FAM == IOEnv.FAMILY

D(k, pre, p, act) == [k |-> k, pre |-> pre, p |-> p, act |-> act]
In(sh) == D("input", <<>>, [shape |-> sh], "lin")
Dense(pre, n, act) == D("dense", <<pre>>, [n |-> n, ins |-> 0], act)
Cv(k, pre, f, kw, kh, sx, sy, act) == D(k, <<pre>>, [f |-> f, kw |-> kw, kh |-> kh, sx |-> sx, sy |-> sy], act)
Xy(k, pre, sx, sy) == D(k, <<pre>>, [sx |-> sx, sy |-> sy], "lin")
Plain(k, pre) == D(k, <<pre>>, [none |-> 0], "lin")
Subt(pre, d, a, b) == D("subt", <<pre>>, [dim |-> d, from |-> a, to |-> b], "lin")
Cat(x, y, d) == D("concat", <<x, y>>, [dim |-> d], "lin")
Norm(pre, lo) == D("norm", <<pre>>, [lo |-> lo, hi |-> 1], "lin")

\* pictures: channels and filters are distinguishable from one another
Wh == (1..B) \X (1..B)
Conv(k) ==
  {<<In(<<cf[1], wh[1], wh[2]>>), Cv(k, 1, cf[2], kw, kh, sx, sy, "sq")>> :
     cf \in {<<1, 2>>, <<2, 1>>}, wh \in Wh, kw \in 0..(B + 1), kh \in 1..(B + 1), sx \in 1..B, sy \in 1..B}
  \cup {<<In(<<1, wh[1], wh[2]>>), Cv(k, 1, 1, 1, kh, sx, sy, "aff")>> : wh \in Wh, kh \in {0, 1}, sx \in {0, 1}, sy \in {0, 1}}
  \cup {<<In(<<1, 2, 2>>), Cv(k, 1, 0, 1, 1, 1, 1, "aff")>>}
\* a layer between layers with parameters: 1x1 convolution in front, dense behind
Between(l) == <<In(l.sh), Cv("conv", 1, l.sh[1], 1, 1, 1, 1, "aff")>> \o <<l.d>> \o <<Dense(3, 2, "relu2")>>
Ends(l) == <<In(l.sh), Cv("conv", 1, l.sh[1], 1, 1, 1, 1, "sq")>> \o <<l.d>>
Both(ls) == {Between(l) : l \in ls} \cup {Ends(l) : l \in ls}
Pics == {<<c, wh[1], wh[2]>> : c \in 1..2, wh \in Wh}
Scaling == {[sh |-> s, d |-> Xy(k, 2, sx, sy)] : s \in Pics, k \in {"pool", "up"}, sx \in 0..(B + 1), sy \in 1..(B + 1)}
           \cup {[sh |-> <<1, 2, 2>>, d |-> Xy(k, 2, 1, 0)] : k \in {"pool", "up"}}
Moving == {[sh |-> s, d |-> Subt(2, d, a, b)] : s \in Pics, d \in 0..3, a \in 0..B, b \in 0..(B + 1)}
          \cup {[sh |-> s, d |-> Plain("flatten", 2)] : s \in Pics}
\* two convolutions of a picture, joined along a dimension
Join(s, d, kw, kh) == <<In(s), Cv("conv", 1, 1, kw, kh, 1, 1, "relu2"), Cv("conv", 1, 2, 1, 1, 1, 1, "aff"), Cat(2, 3, d), Dense(4, 1, "sq")>>
Join2(s, d, kw, kh) == <<In(s), Cv("conv", 1, 1, kw, kh, 1, 1, "relu2"), Cv("conv", 1, 1, 1, 1, 1, 1, "sq"), Cat(2, 3, d)>>
Joins == {Join(s, d, kw, kh) : s \in Pics, d \in 0..3, kw \in 1..B, kh \in 1..B}
         \cup {Join2(s, d, kw, kh) : s \in Pics, d \in 0..3, kw \in 1..B, kh \in 1..B}
\* layers of the wrong rank, missing inputs
Denses == {<<In(s), Dense(1, n, a), Dense(2, m, "sq")>> : s \in {<<1>>, <<2>>, <<2, 2>>, <<1, 3>>, <<2, 1, 2>>}, n \in 1..3, m \in 1..2, a \in {"lin", "relu0", "sq"}}
Wrong == {<<In(s), Cv(k, 1, 1, 1, 1, 1, 1, "lin")>> : s \in {<<2>>, <<2, 2>>, <<1, 1, 2, 2>>}, k \in {"conv", "deconv"}}
         \cup {<<In(s), Xy(k, 1, 1, 1)>> : s \in {<<2>>, <<2, 2>>, <<1, 1, 2, 2>>}, k \in {"pool", "up"}}
         \cup {<<D(k, <<>>, [f |-> 1, kw |-> 1, kh |-> 1, sx |-> 1, sy |-> 1], "lin")>> : k \in {"conv", "deconv"}}
         \cup {<<D(k, <<>>, [sx |-> 1, sy |-> 1], "lin")>> : k \in {"pool", "up"}}
         \cup {<<D("dense", <<>>, [n |-> 2, ins |-> 0], "lin")>>, <<D("flatten", <<>>, [none |-> 0], "lin")>>,
               <<D("dense", <<>>, [n |-> 2, ins |-> 0], "lin"), Dense(1, 1, "lin")>>}
Nets == UNION {IF FAM \in {"all", "conv"} THEN Conv("conv") ELSE {},
               IF FAM \in {"all", "deconv"} THEN Conv("deconv") ELSE {},
               IF FAM \in {"all", "scale"} THEN Both(Scaling) ELSE {},
               IF FAM \in {"all", "move"} THEN Both(Moving) \cup Joins \cup Denses \cup Wrong ELSE {}}

VARIABLES net
Init == net \in Nets
Next == FALSE /\ UNCHANGED net
Spec == Init /\ [][Next]_net

(***************************************************************************)
(* The derivative, forwards                                                *)
(***************************************************************************)
State0 ==
  LET s1 == FoldLeft(LAMBDA acc, d : [acc EXCEPT !.layers = Append(@, NewLayer(d.k, d.pre, d.p, d.act))], EmptyNet("int", 2), net)
      s2 == [s1 EXCEPT !.models = <<[first |-> 1, last |-> Len(net), used |-> FALSE]>>]
  IN  Resolve(s2, 1)
W0(l, i) == ((l * 7 + i * 5 + i * i) % 7) - 3
Filled(s) == FoldLeftDomain(LAMBDA acc, l :
               [acc EXCEPT !.layers[l] = [@ EXCEPT !.W = [i \in 1..Len(@) |-> W0(l, i)], !.B = [i \in 1..Len(@) |-> W0(l, i + 3)]]],
               s, s.layers)
X0(n) == [i \in 1..n |-> ((i * i * 11 + 3 * i) % 9) - 4]
Y0(n) == [i \in 1..n |-> ((i * 5) % 7) - 3]

\* layers from which no other layer with parameters is passed on the way out
RECURSIVE Last0(_, _)
Last0(s, l) == IF HasParams(s.layers[l]) THEN {l}
               ELSE UNION {Last0(s, s.layers[l].pre[i]) : i \in 1..Len(s.layers[l].pre)}
\* the direction: parameter q of layer p (weights first)
Tangent(s, vals, order, lasts, p, q) ==
  LET one(acc, l) ==
        LET L == s.layers[l]
            f == vals[l]
            tin == IF L.pre = <<>> \/ l = 1 THEN [i \in 1..Len(f.in) |-> 0]
                   ELSE FlattenSeq([i \in 1..Len(L.pre) |-> acc[L.pre[i]]])
            nw == Len(L.W)
            dW(w) == IF l = p /\ q <= nw /\ w = q THEN 1 ELSE 0
            dB(j) == IF l = p /\ q > nw /\ j = q - nw THEN 1 ELSE 0
            tnet(j) == dB(j) + FoldLeft(LAMBDA a, t : a + dW(t[1]) * f.in[t[2]] + L.W[t[1]] * tin[t[2]], 0, L.terms[j])
            tout == CASE HasParams(L) -> [j \in 1..Len(L.terms) |->
                                            IF l \in lasts THEN tnet(j) ELSE tnet(j) * Der("int", L.act, f.net[j])]
                      [] L.k = "pool" -> [j \in 1..Len(L.terms) |->
                                            LET i == CHOOSE q0 \in 1..Len(L.terms[j]) : f.in[L.terms[j][q0]] = f.out[j]
                                            IN  tin[L.terms[j][i]]]
                      [] OTHER -> [j \in 1..Len(L.terms) |-> tin[L.terms[j][1]]]
        IN  (l :> TLCEval(tout)) @@ acc
  IN  FoldLeft(one, <<>>, order)

Good == ~State0.err
GradientIsDerivative ==
  Good =>
    LET s == TLCEval(Filled(State0.st))
        order == Order(s, 1)
        r == TLCEval(RunNet(s, 1, X0(Size(InputShape(s, 1)))))
        o == Output(s, 1, r)
        y == Y0(Len(o))
        e == [j \in 1..Len(o) |-> y[j] - o[j]]
        t == TLCEval(TrainStep(s, 1, X0(Size(InputShape(s, 1))), y, 1, 0))
        lasts == Last0(s, Len(net))
    IN  r.fail \/ r.ties
        \/ /\ \A l \in 1..Len(net) : HasParams(s.layers[l]) =>
                LET nw == Len(s.layers[l].W)
                    nb == Len(s.layers[l].B)
                IN  \A q \in 1..(nw + nb) :
                      LET tg == Tangent(s, r.vals, order, lasts, l, q)[Len(net)]
                          step == FoldLeftDomain(LAMBDA a, j : a + e[j] * tg[j], 0, e)
                          got == IF q <= nw THEN t.st.layers[l].W[q] - s.layers[l].W[q]
                                 ELSE t.st.layers[l].B[q - nw] - s.layers[l].B[q - nw]
                      IN  got = step
           /\ t.loss = FoldLeftDomain(LAMBDA a, j : a + Abs0(e[j]), 0, e)

\* pooling: every input element in exactly one window; up-sampling: each
\* input element sx*sy times; convolution: inside the input; transposed
\* convolution: every pair of input element and kernel position once
Windows ==
  Good =>
    \A l \in 1..Len(net) :
      LET L == State0.st.layers[l]
          uses(i) == FoldLeft(LAMBDA a, ts : a + Cardinality({q \in 1..Len(ts) : ts[q] = i}), 0, L.terms)
          n == Size(InShape(L.k, L.p, L.ins))
      IN  CASE L.k \in {"pool", "flatten"} -> \A i \in 1..n : uses(i) = 1
            [] L.k = "up" -> \A i \in 1..n : uses(i) = L.p.sx * L.p.sy
            [] L.k = "subt" -> \A i \in 1..n : uses(i) <= 1
            [] L.k = "concat" -> \A i \in 1..n : uses(i) = 1
            [] L.k = "deconv" -> LET pairs == FlattenSeq(L.terms)
                                 IN  /\ Len(pairs) = Size(L.ins[1]) * L.p.f * L.p.kw * L.p.kh
                                     /\ Cardinality({pairs[q] : q \in 1..Len(pairs)}) =
                                          Size(L.ins[1]) * L.p.f * L.p.kw * L.p.kh
            [] L.k = "conv" -> \A j \in 1..Len(L.terms) : /\ Len(L.terms[j]) = L.ins[1][1] * L.p.kw * L.p.kh
                                                          /\ \A q \in 1..Len(L.terms[j]) : L.terms[j][q][2] \in 1..n
            [] OTHER -> TRUE

Guarantees == (OUT = "") => GradientIsDerivative /\ Windows

(***************************************************************************)
(* Scripts                                                                 *)
(***************************************************************************)
C(e, how) == [e |-> e, m |-> 1, how |-> how, mo |-> 0, l |-> 0, t |-> TRUE]
Script == <<[e |-> "scene", ds |-> <<net>>, composed |-> FALSE]>> \o
          (IF Good THEN <<C("predict", "fit"), C("setp", ""), C("trainone", "fit"), C("trainone", "fit"), C("predict", "fit")>>
           ELSE <<C("predict", "fit"), C("compile", ""), C("trainone", "fit"), C("predict", "fit")>>)
Emit == (OUT # "") => PrintT("SCRIPT " \o ToJson([s |-> Script]))
=============================================================================
