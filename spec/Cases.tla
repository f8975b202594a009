------------------------------- MODULE Cases --------------------------------
(***************************************************************************)
(* All applications of one operation (or of one rearrangement of another)   *)
(* to operands of every small shape, with every parameter in and around the *)
(* accepted range, as scripts to be executed by the real library.  The      *)
(* outcomes are judged by MachineTrace.                                     *)
(*   IOEnv.FAMILY   which operations                                        *)
(*   IOEnv.BOUND    largest dimension                                       *)
(*   IOEnv.OUT      file to write, one script per line                        *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

D == atoi(IOEnv.BOUND)
Dims == 1..D
Shapes1 == {<<a>> : a \in Dims}
Shapes2 == {<<a, b>> : a, b \in Dims}
Shapes3 == {<<a, b, c>> : a, b, c \in Dims}
AllShapes == Shapes1 \cup Shapes2 \cup Shapes3
\* pairs are limited a little more
PairShapes == IF D > 2 THEN {s \in AllShapes : Size(s) <= 9} ELSE AllShapes

ValsOf(n, a) == [j \in 1..n |-> IF (j + a) % 3 = 0 THEN -(j * 7 + a) ELSE j * 5 + a * 11]

P0 == [dim |-> 0]
ParamsOf(k, sa) ==
  CASE k \in DReduce -> {[dim |-> d] : d \in 0..Len(sa)}
    [] k = "subt" -> {[dim |-> d, from |-> f, to |-> t, fill |-> 0] :
                        d \in 0..Len(sa), f \in 0..(D + 1), t \in 0..(D + 1)}
    [] k = "subx" -> {[dim |-> d, from |-> f, to |-> t, fill |-> 5] :
                        d \in 0..Len(sa), f \in 0..(D + 1), t \in 0..(D + 2)}
    [] k = "reshape" -> {[dim |-> 0, shape |-> s] : s \in AllShapes}
    [] k = "act" -> {[dim |-> 0, f |-> g] : g \in {"relu2", "sq", "aff"}}
    [] k = "concat" -> {[dim |-> d] : d \in 0..Len(sa)}
    [] k = "dotat" -> {[dim |-> 0, da |-> a, db |-> b] : a \in 0..Len(sa), b \in 0..3}
    [] OTHER -> {P0}

Un(ks)  == UNION {{[k |-> k, sa |-> sa, sb |-> <<>>, p |-> p] : p \in ParamsOf(k, sa)} : k \in ks, sa \in AllShapes}
Bin(ks) == UNION {{[k |-> k, sa |-> sa, sb |-> sb, p |-> p] : p \in ParamsOf(k, sa)} :
                     k \in ks, sa \in PairShapes, sb \in PairShapes}

Cases ==
  CASE IOEnv.FAMILY = "views" -> Un({"transpose", "reshape", "flatten", "subt", "subx"}) \cup Bin({"concat"})
    [] IOEnv.FAMILY = "combine" -> Un(Reduce \cup DReduce) \cup Bin({"dot", "dotat"})
    [] IOEnv.FAMILY = "arith" -> Un(Unary \cup WithScal \cup {"softmax"}) \cup Bin({"add", "sub", "mul", "div"})
    [] IOEnv.FAMILY = "all" -> Un(Reduce \cup DReduce \cup {"transpose", "reshape", "flatten", "subt", "subx"}
                                  \cup Unary \cup WithScal \cup {"softmax"})
                               \cup Bin({"concat", "dot", "dotat", "add", "sub", "mul", "div"})

See(ts) == [e |-> "see", v |-> [i \in 1..Len(ts) |-> [t |-> ts[i]]]]
Zeros(sh) == [i \in 1..Len(sh) |-> 0]
LastIx(sh) == [i \in 1..Len(sh) |-> sh[i] - 1]

\* tensor 1 = A, 2 = B (a copy of A's shape for unary ones), 3 = the result
Script(c) ==
  LET sb  == IF c.k \in TwoArg THEN c.sb ELSE <<2>>
      a   == IF c.k \in TwoArg THEN <<1, 2>> ELSE <<1>>
      s   == IF c.k \in WithScal THEN 1 ELSE 0
      ok  == Accepts(c.k, c.p, c.sa, sb)
      rs  == ResShape(c.k, c.p, c.sa, sb)
      \* elements of tensor 3 can be written through; those of A reach it
      live == <<[e |-> "set", t |-> 3, ix |-> Zeros(rs), v |-> 77], See(<<1, 2, 3>>),
                [e |-> "set", t |-> 3, ix |-> LastIx(rs), v |-> 78], See(<<1, 2, 3>>),
                [e |-> "set", t |-> 1, ix |-> LastIx(c.sa), v |-> 79], See(<<1, 2, 3>>),
                [e |-> "exec", g |-> 1], See(<<1, 2, 3>>)>>
      imm  == <<[e |-> "imm", k |-> c.k, a |-> a, p |-> c.p, s |-> s], See(<<1, 2, 3>>)>>
              \o IF ok THEN <<See(<<4>>), [e |-> "set", t |-> 4, ix |-> Zeros(rs), v |-> 80], See(<<1, 2, 3, 4>>),
                              [e |-> "fill", t |-> 1, v |-> 81], See(<<1, 2, 4>>)>>
                 ELSE <<>>
  IN  <<[e |-> "reset", mode |-> "i16", type |-> "int16"],
        [e |-> "leaf", c |-> "vals", sh |-> c.sa, v |-> ValsOf(Size(c.sa), 1)],
        [e |-> "leaf", c |-> "vals", sh |-> sb, v |-> ValsOf(Size(sb), 2)],
        [e |-> "scal", v |-> 3],
        [e |-> "node", k |-> c.k, a |-> a, p |-> c.p, s |-> s],
        [e |-> "graph", t |-> 3]>>
      \o (IF ok THEN <<[e |-> "exec", g |-> 1], See(<<1, 2, 3>>)>> \o live
          ELSE <<[e |-> "graph", t |-> 3], See(<<1, 2>>)>>)
      \o (IF c.k = "flatten" THEN <<>> ELSE IF ok THEN imm ELSE SubSeq(imm, 1, 1) \o <<See(<<1, 2>>)>>)

CaseSeq == SetToSeq(Cases)
ASSUME /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(CaseSeq) |-> [s |-> Script(CaseSeq[i])]])
       /\ PrintT(<<"CASES", Len(CaseSeq)>>)
=============================================================================
