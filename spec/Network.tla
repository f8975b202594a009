------------------------------ MODULE Network -------------------------------
(***************************************************************************)
(* Models: layers connected into networks, their parameters, predictions,  *)
(* training steps, freezing, saving and loading, composition.              *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   mode    number domain                                                 *)
(*   width   bytes per number                                              *)
(*   layers  sequence of [k, pre, p, act, tr, built, ins, sh, terms,       *)
(*           W, B, vW, vB]: kind, feeding layers, parameters, activation,  *)
(*           trainable?, built?, input shapes, output shape, terms,        *)
(*           weights, biases, last updates ("velocities")                  *)
(*   models  sequence of [first, last, made]: made = made and usable       *)
(*   files   sequence of saved parameter lists                             *)
(*   outs    predictions handed out so far                                 *)
(*   texts   models printed while compiled |-> what they were printed as    *)
(***************************************************************************)
EXTENDS Layers, FiniteSets, FiniteSetsExt

EmptyNet(m, w) == [mode |-> m, width |-> w, layers |-> <<>>, models |-> <<>>, files |-> <<>>, outs |-> <<>>, texts |-> <<>>]

NewLayer(k, pre, p, act) ==
  [k |-> k, pre |-> pre, p |-> p, act |-> act, tr |-> TRUE, built |-> FALSE,
   ins |-> <<>>, sh |-> <<>>, terms |-> <<>>, W |-> <<>>, B |-> <<>>, vW |-> <<>>, vB |-> <<>>]

Pres(st, l) == st.layers[l].pre

\* the layers from the first to the last, feeding layers first, each once
RECURSIVE Visit(_, _, _, _)
Visit(st, first, l, seen) ==
  IF Contains(seen, l) THEN seen
  ELSE IF l = first THEN Append(seen, l)
  ELSE Append(FoldLeft(LAMBDA acc, x : Visit(st, first, x, acc), seen, Pres(st, l)), l)
Order(st, m) == Visit(st, st.models[m].first, st.models[m].last, <<>>)
FullOrder(st, m) == Visit(st, 0, st.models[m].last, <<>>)

(***************************************************************************)
(* Building the layers of a model: shapes, terms, parameters' sizes.       *)
(* [st, err]: an error leaves the state alone.                             *)
(***************************************************************************)
BuildLayer(acc, l) ==
  IF acc.err \/ acc.st.layers[l].built THEN acc
  ELSE LET L   == acc.st.layers[l]
           ins == [i \in 1..Len(L.pre) |-> acc.st.layers[L.pre[i]].sh]
       IN  IF ~LayerOK(L.k, L.p, ins) THEN [acc EXCEPT !.err = TRUE]
           ELSE LET nW == IF HasParams(L) THEN Size(WShape(L.k, L.p, ins)) ELSE 0
                    sh == OutShape(L.k, L.p, ins)
                    nB == IF HasParams(L) THEN Size(sh) ELSE 0
                    z(n) == Zeros(acc.st.mode, n)
                IN  [acc EXCEPT !.st.layers[l] =
                       [@ EXCEPT !.built = TRUE, !.ins = ins, !.sh = sh,
                                 !.terms = TLCEval(Terms(L.k, L.p, ins)),
                                 !.W = z(nW), !.B = z(nB), !.vW = z(nW), !.vB = z(nB)]]
Resolve(st, m) ==
  IF st.models[m].last = 0 THEN [st |-> st, err |-> TRUE]
  ELSE LET r == FoldLeft(BuildLayer, [st |-> st, err |-> FALSE], FullOrder(st, m))
       IN  IF r.err THEN [st |-> st, err |-> TRUE] ELSE r

InputShape(st, m) == LET L == st.layers[st.models[m].first] IN InShape(L.k, L.p, L.ins)
OutputShape(st, m) == st.layers[st.models[m].last].sh
ParamLayers(st, m) == SelectSeq(Order(st, m), LAMBDA l : HasParams(st.layers[l]))

(***************************************************************************)
(* Predicting: [vals, fail, ties], vals a function from layers to what     *)
(* they computed.                                                          *)
(***************************************************************************)
Input0(st, vals, first, l, x) ==
  IF l = first THEN x
  ELSE FlattenSeq([i \in 1..Len(Pres(st, l)) |-> vals[Pres(st, l)[i]].out])
RunNet(st, m, x) ==
  LET first == st.models[m].first
      one(acc, l) ==
        IF acc.fail THEN acc
        ELSE LET L  == st.layers[l]
                 in == TLCEval(Input0(st, acc.vals, first, l, x))
             IN  IF LayerFails(st.mode, L, in) THEN [acc EXCEPT !.fail = TRUE]
                 ELSE [vals |-> (l :> Forward(st.mode, L, in)) @@ acc.vals,
                       fail |-> FALSE,
                       ties |-> acc.ties \/ Ties(st.mode, L, in)]
  IN  FoldLeft(one, [vals |-> <<>>, fail |-> FALSE, ties |-> FALSE], Order(st, m))
Output(st, m, r) == r.vals[st.models[m].last].out

(***************************************************************************)
(* One training step.  The layers are visited backwards, each one after    *)
(* all the layers it feeds, whose errors at its output add up.  An error   *)
(* has two parts: o arrives from the output of the model through layers    *)
(* without parameters only, so it counts as the error of the layer's       *)
(* pre-activation; h arrives through layers with parameters.               *)
(***************************************************************************)
NoErr == [o |-> <<>>, h |-> <<>>]
Plus(m, a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                 ELSE [i \in 1..Len(a) |-> Add(m, a[i], b[i])]
\* gradients by layer
Back(st, first, vals, order, last, e) ==
  LET m == st.mode
      step(acc, l) ==
        LET L == st.layers[l]
            f == vals[l]
            E == acc.err[l]
            d == IF HasParams(L)
                 THEN TLCEval(Plus(m, E.o, IF E.h = <<>> THEN <<>> ELSE Delta(m, L, f, E.h, FALSE)))
                 ELSE <<>>
            g == IF HasParams(L) THEN (l :> [gW |-> TLCEval(Grad(m, L, f, d)), gB |-> d]) @@ acc.g ELSE acc.g
            back(x) == IF x = <<>> THEN <<>> ELSE TLCEval(ErrIn(m, L, f, x, x))
            I == IF HasParams(L) THEN [o |-> <<>>, h |-> back(d)]
                 ELSE [o |-> back(E.o), h |-> back(E.h)]
            n1 == IF Len(L.pre) = 2 THEN Size(L.ins[1]) ELSE 0
            \* the part of x that belongs to the q-th feeding layer
            part(x, q) == IF x = <<>> \/ Len(L.pre) = 1 THEN x
                          ELSE IF q = 1 THEN SubSeq(x, 1, n1) ELSE SubSeq(x, n1 + 1, Len(x))
            give(er, q) == [er EXCEPT ![L.pre[q]] =
                              [o |-> TLCEval(Plus(m, @.o, part(I.o, q))), h |-> TLCEval(Plus(m, @.h, part(I.h, q)))]]
        IN  [g |-> g, err |-> IF l = first THEN acc.err
                              ELSE FoldLeft(give, acc.err, [q \in 1..Len(L.pre) |-> q])]
      err0 == [l \in Range(order) |-> IF l = last THEN [NoErr EXCEPT !.o = e] ELSE NoErr]
  IN  FoldLeft(step, [g |-> <<>>, err |-> err0], Reverse(order)).g

Apply1(m, L, g, a, mo) ==
  LET step(v, gr) == [i \in 1..Len(v) |-> Add(m, Mul(m, mo, v[i]), Mul(m, a, gr[i]))]
      vW == TLCEval(step(L.vW, g.gW))
      vB == TLCEval(step(L.vB, g.gB))
      plus(x, v) == [i \in 1..Len(x) |-> Add(m, x[i], v[i])]
  IN  [L EXCEPT !.vW = vW, !.vB = vB,
                !.W = IF L.tr THEN TLCEval(plus(@, vW)) ELSE @,
                !.B = IF L.tr THEN TLCEval(plus(@, vB)) ELSE @]

\* whether a rectifier is at its bend, and rounding before it can tell the sides apart
Dyadic(x) == x[2] \in {2^k : k \in 0..30}
AtBend(st, vals) ==
  st.mode = "rat" /\ \E l \in DOMAIN vals :
    LET L == st.layers[l]
    IN  /\ HasParams(L) /\ L.act \in {"relu2", "relu0"}
        /\ \E j \in 1..Len(vals[l].net) : vals[l].net[j][1] = 0
        /\ \/ \E j \in 1..Len(vals[l].in) : ~Dyadic(vals[l].in[j])
           \/ \E j \in 1..Len(L.W) : ~Dyadic(L.W[j])
           \/ \E j \in 1..Len(L.B) : ~Dyadic(L.B[j])

\* [st, fail, ties, loss]
TrainStep(st, m, x, y, a, mo) ==
  LET r == RunNet(st, m, x)
  IN  IF r.fail THEN [st |-> st, fail |-> TRUE, ties |-> FALSE, loss |-> Zero(st.mode)]
      ELSE LET o == Output(st, m, r)
               e == TLCEval([j \in 1..Len(o) |-> Sub(st.mode, y[j], o[j])])
               g == TLCEval(Back(st, st.models[m].first, r.vals, Order(st, m), st.models[m].last, e))
           IN  [st |-> FoldLeft(LAMBDA s, l : [s EXCEPT !.layers[l] = Apply1(st.mode, @, g[l], a, mo)],
                                st, ParamLayers(st, m)),
                \* a value that is not a number has no defined way backwards
                fail |-> FALSE, ties |-> r.ties \/ AtBend(st, r.vals) \/ (st.mode = "rat" /\ \E l \in DOMAIN r.vals :
                                                        \E j \in 1..Len(r.vals[l].out) : BadR(r.vals[l].out[j])),
                loss |-> SumSeq(st.mode, [j \in 1..Len(e) |-> AbsV(st.mode, e[j])])]

(***************************************************************************)
(* What a model is printed as: a line for each layer, with its number, the *)
(* numbers of the layers feeding it, its kind and the shape of its output. *)
(***************************************************************************)
Numbers(st, m) ==
  FoldLeft(LAMBDA ns, l : (l :> IF Pres(st, l) = <<>> THEN 0 ELSE 1 + Max({ns[x] : x \in Range(Pres(st, l))})) @@ ns,
           <<>>, FullOrder(st, m))
KindName(L) ==
  CASE L.k = "input" -> "Input"     [] L.k = "dense" -> "Dense"      [] L.k = "conv" -> "Conv2D"
    [] L.k = "deconv" -> "Deconv2D" [] L.k = "pool" -> "MaxPool"     [] L.k = "up" -> "UpSampling"
    [] L.k = "flatten" -> "Flatten" [] L.k = "subt" -> "SubTensor"   [] L.k = "concat" -> "Concat"
    [] L.k = "softmax" -> "SoftMax" [] L.k = "norm" -> IF L.p.lo < 0 THEN "ENorm" ELSE "Norm"
Line(st, ns, l) ==
  [n |-> ns[l], from |-> [i \in 1..Len(Pres(st, l)) |-> ns[Pres(st, l)[i]]],
   kind |-> KindName(st.layers[l]), out |-> st.layers[l].sh]
Lines(st, m) == LET ns == Numbers(st, m) IN [i \in 1..Len(Order(st, m)) |-> Line(st, ns, Order(st, m)[i])]
Times(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* the same lines, each after those it refers to
Listing(ls, want) ==
  /\ Len(ls) = Len(want)
  /\ \A x \in Range(want) : Times(x, ls) = Times(x, want)
  /\ \A i \in 1..Len(ls) : \A f \in Range(ls[i].from) : \E j \in 1..(i - 1) : ls[j].n = f
Built(st, m) == \A l \in Range(FullOrder(st, m)) : st.layers[l].built

(***************************************************************************)
(* Files                                                                   *)
(***************************************************************************)
ParamsOf(st, m) == LET ls == ParamLayers(st, m)
                   IN  [i \in 1..Len(ls) |-> [w |-> st.layers[ls[i]].W, b |-> st.layers[ls[i]].B]]
Bytes(st, ps) == st.width * FoldLeft(LAMBDA acc, x : acc + Len(x.w) + Len(x.b), 0, ps)
SameSizes(ps, qs) == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : Len(ps[i].w) = Len(qs[i].w) /\ Len(ps[i].b) = Len(qs[i].b)
SetParams(st, ls, ps) ==
  FoldLeftDomain(LAMBDA s, i : [s EXCEPT !.layers[ls[i]] = [@ EXCEPT !.W = ps[i].w, !.B = ps[i].b]], st, ls)

\* connect the parts of a composed model
Connect(st, ms) ==
  FoldLeftDomain(LAMBDA s, i : IF i = 1 THEN s
                               ELSE [s EXCEPT !.layers[s.models[ms[i]].first].pre = <<s.models[ms[i - 1]].last>>],
                 st, ms)
=============================================================================
