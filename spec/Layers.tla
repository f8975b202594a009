------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* The meaning of every layer.                                             *)
(*                                                                         *)
(* A layer is a record [k, pre, p, act, ...]: kind, the layers feeding it, *)
(* parameters of the kind, activation.  Layers with trainable parameters   *)
(* ("dense", "conv", "deconv") are sparse linear maps followed by an       *)
(* activation: output element j has pre-activation                         *)
(*    B[j] + sum over <<w, i>> in Terms[j] of W[w] * in[i].                *)
(* The other layers rearrange ("input", "flatten", "subt", "concat", "up"),*)
(* select ("pool") or scale ("norm", "softmax") their input: element j     *)
(* reads the input elements Terms[j] = <<i1, i2, ...>>.                     *)
(***************************************************************************)
EXTENDS Meaning

ParamKinds == {"dense", "conv", "deconv"}
HasParams(L) == L.k \in ParamKinds

\* the parameter records of layers
\*   input  [shape]            dense [n, ins]  (ins = 0: taken from what it is connected to)
\*   conv, deconv [f, kw, kh, sx, sy]          pool, up [sx, sy]
\*   subt [dim, from, to]      concat [dim]    norm [lo, hi]

\* can the layer be given inputs of these shapes (one per feeding layer; a
\* layer without a feeding layer has none)
LayerOK(k, p, ins) ==
  CASE k = "input"  -> TRUE
    [] k = "dense"  -> Len(ins) = 1 \/ p.ins > 0
    [] k = "conv"   -> /\ Len(ins) = 1 /\ Len(ins[1]) = 3
                       /\ p.f > 0 /\ p.kw > 0 /\ p.kh > 0 /\ p.sx > 0 /\ p.sy > 0
                       /\ p.kw <= ins[1][2] /\ p.kh <= ins[1][3]
    [] k = "deconv" -> /\ Len(ins) = 1 /\ Len(ins[1]) = 3
                       /\ p.f > 0 /\ p.kw > 0 /\ p.kh > 0 /\ p.sx > 0 /\ p.sy > 0
    [] k \in {"pool", "up"} -> Len(ins) = 1 /\ Len(ins[1]) = 3 /\ p.sx > 0 /\ p.sy > 0
    [] k = "subt"   -> Len(ins) = 1 /\ Accepts("subt", p, ins[1], <<>>)
    [] k = "concat" -> Len(ins) = 2 /\ Accepts("concat", p, ins[1], ins[2])
    [] k \in {"flatten", "norm", "softmax"} -> Len(ins) = 1

\* the shape the layer reads: what it is connected to, or its own
InShape(k, p, ins) ==
  IF k = "concat" THEN <<Size(ins[1]) + Size(ins[2])>>
  ELSE IF Len(ins) = 1 THEN ins[1]
  ELSE IF k = "input" THEN p.shape ELSE <<p.ins>>
OutShape(k, p, ins) ==
  LET s == InShape(k, p, ins) IN
  CASE k = "input"  -> s
    [] k = "dense"  -> <<p.n>>
    [] k = "conv"   -> <<p.f, ((s[2] - p.kw) \div p.sx) + 1, ((s[3] - p.kh) \div p.sy) + 1>>
    [] k = "deconv" -> <<p.f, (s[2] - 1) * p.sx + p.kw, (s[3] - 1) * p.sy + p.kh>>
    [] k = "pool"   -> <<s[1], (s[2] + p.sx - 1) \div p.sx, (s[3] + p.sy - 1) \div p.sy>>
    [] k = "up"     -> <<s[1], s[2] * p.sx, s[3] * p.sy>>
    [] k = "flatten" -> <<Size(s)>>
    [] k = "subt"   -> ResShape("subt", p, s, <<>>)
    [] k = "concat" -> ResShape("concat", p, ins[1], ins[2])
    [] k \in {"norm", "softmax"} -> s
WShape(k, p, ins) ==
  LET s == InShape(k, p, ins) IN
  CASE k = "dense" -> <<p.n, Size(s)>>
    [] k \in {"conv", "deconv"} -> <<p.f, s[1], p.kw, p.kh>>
    [] OTHER -> <<>>

\* the part of the sequence of all multi-indices of a shape that satisfies P, mapped
IdxSeq(sh) == [q \in 1..Size(sh) |-> Unflat(sh, q)]
Term(k, p, ins, j) ==
  LET s == InShape(k, p, ins)
      o == OutShape(k, p, ins)
      x == Unflat(o, j)
  IN
  CASE k = "dense" -> [i \in 1..Size(s) |-> <<(j - 1) * Size(s) + i, i>>]
    [] k = "conv" ->
         LET ws == WShape(k, p, ins)
             K  == <<s[1], p.kw, p.kh>>
         IN  [q \in 1..Size(K) |->
                LET c == Unflat(K, q)
                IN  <<Flat(ws, <<x[1], c[1], c[2], c[3]>>),
                      Flat(s, <<c[1], x[2] * p.sx + c[2], x[3] * p.sy + c[3]>>)>>]
    [] k = "deconv" ->
         LET ws == WShape(k, p, ins)
             K  == IdxSeq(<<s[1], p.kw, p.kh>>)
             fits(c) == /\ c[2] <= x[2] /\ (x[2] - c[2]) % p.sx = 0 /\ (x[2] - c[2]) \div p.sx < s[2]
                        /\ c[3] <= x[3] /\ (x[3] - c[3]) % p.sy = 0 /\ (x[3] - c[3]) \div p.sy < s[3]
             cs == SelectSeq(K, fits)
         IN  [q \in 1..Len(cs) |->
                LET c == cs[q]
                IN  <<Flat(ws, <<x[1], c[1], c[2], c[3]>>),
                      Flat(s, <<c[1], (x[2] - c[2]) \div p.sx, (x[3] - c[3]) \div p.sy>>)>>]
    [] k = "pool" ->
         LET K == IdxSeq(<<p.sx, p.sy>>)
             cs == SelectSeq(K, LAMBDA c : x[2] * p.sx + c[1] < s[2] /\ x[3] * p.sy + c[2] < s[3])
         IN  [q \in 1..Len(cs) |-> Flat(s, <<x[1], x[2] * p.sx + cs[q][1], x[3] * p.sy + cs[q][2]>>)]
    [] k = "up" -> << Flat(s, <<x[1], x[2] \div p.sx, x[3] \div p.sy>>) >>
    [] k = "subt" -> << Elem("subt", p, s, <<>>, j).src[1][2] >>
    [] k = "concat" -> LET e == Elem("concat", p, ins[1], ins[2], j).src[1]
                       IN  << IF e[1] = 1 THEN e[2] ELSE Size(ins[1]) + e[2] >>
    [] k \in {"input", "flatten", "norm", "softmax"} -> << j >>
Terms(k, p, ins) == [j \in 1..Size(OutShape(k, p, ins)) |-> TLCEval(Term(k, p, ins, j))]

(***************************************************************************)
(* Forward: what one layer (with its Terms, W, B in the record) computes   *)
(* from its input vector (the feeding layers' outputs, concatenated).      *)
(***************************************************************************)
Netas(m, L, in) ==
  [j \in 1..Len(L.terms) |->
     TLCEval(FoldLeft(LAMBDA acc, t : Add(m, acc, Mul(m, L.W[t[1]], in[t[2]])), L.B[j], L.terms[j]))]
MaxAbs(m, in) == MaxSeq(m, [i \in 1..Len(in) |-> AbsV(m, in[i])])
Outs(m, L, in, net) ==
  CASE HasParams(L) -> [j \in 1..Len(net) |-> Fun(m, L.act, net[j])]
    [] L.k = "pool" -> [j \in 1..Len(L.terms) |-> MaxSeq(m, [q \in 1..Len(L.terms[j]) |-> in[L.terms[j][q]]])]
    [] L.k = "norm" -> LET mx == TLCEval(MaxAbs(m, in))
                       IN  [j \in 1..Len(in) |->
                              Add(m, Mul(m, Div(m, in[j], mx), Lit(m, L.p.hi - L.p.lo)), Lit(m, L.p.lo))]
    [] L.k = "softmax" -> [j \in 1..Len(in) |-> OpVal(m, "softmax", <<in[j]>> \o in)]
    [] OTHER -> [j \in 1..Len(L.terms) |-> in[L.terms[j][1]]]
\* a division by zero in an integer model stops everything
LayerFails(m, L, in) ==
  CASE L.k = "norm" -> DivFails(m, MaxAbs(m, in))
    [] L.k = "softmax" -> DivFails(m, SoftSum(m, <<in[1]>> \o in))
    [] OTHER -> FALSE
\* two equal largest elements: which of them is "the" maximal one is not defined
Ties(m, L, in) ==
  L.k = "pool" /\ \E j \in 1..Len(L.terms) :
     LET w == [q \in 1..Len(L.terms[j]) |-> in[L.terms[j][q]]]
         mx == MaxSeq(m, w)
     IN  \E q, r \in 1..Len(w) : q < r /\ w[q] = mx /\ w[r] = mx
Forward(m, L, in) ==
  LET net == IF HasParams(L) THEN TLCEval(Netas(m, L, in)) ELSE <<>>
  IN  [in |-> in, net |-> net, out |-> TLCEval(Outs(m, L, in, net))]

(***************************************************************************)
(* Backward: from the error at the output to the error at the input.  The  *)
(* last parametrised layer on each path treats its activation as the       *)
(* identity (skip): its output error counts as the pre-activation error.   *)
(***************************************************************************)
Delta(m, L, f, e, skip) == IF skip THEN e ELSE [j \in 1..Len(e) |-> Mul(m, e[j], Der(m, L.act, f.net[j]))]
Zeros(m, n) == [i \in 1..n |-> Zero(m)]
Grad(m, L, f, d) ==
  FoldLeftDomain(LAMBDA acc, j :
      FoldLeft(LAMBDA a, t : [a EXCEPT ![t[1]] = Add(m, @, Mul(m, d[j], f.in[t[2]]))], acc, L.terms[j]),
    Zeros(m, Len(L.W)), L.terms)
ErrIn(m, L, f, e, d) ==
  LET z == Zeros(m, Len(f.in)) IN
  CASE HasParams(L) ->
         FoldLeftDomain(LAMBDA acc, j :
             FoldLeft(LAMBDA a, t : [a EXCEPT ![t[2]] = Add(m, @, Mul(m, d[j], L.W[t[1]]))], acc, L.terms[j]),
           z, L.terms)
    [] L.k = "pool" ->
         FoldLeftDomain(LAMBDA acc, j :
             FoldLeft(LAMBDA a, i : IF f.in[i] = f.out[j] THEN [a EXCEPT ![i] = Add(m, @, e[j])] ELSE a,
                      acc, L.terms[j]),
           z, L.terms)
    [] L.k = "norm" -> LET mx == MaxAbs(m, f.in)
                       IN  [i \in 1..Len(e) |-> Div(m, Mul(m, e[i], Lit(m, L.p.hi - L.p.lo)), mx)]
    [] L.k = "softmax" -> e
    [] OTHER -> FoldLeftDomain(LAMBDA acc, j : [acc EXCEPT ![L.terms[j][1]] = Add(m, @, e[j])], z, L.terms)
=============================================================================
