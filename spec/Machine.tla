------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The tensor machine: a heap of scalar cells, tensors (leaves, lazily     *)
(* built expression nodes), scalar operands, graphs and contexts.          *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   mode    number domain                                                 *)
(*   cells   sequence of values: the heap                                  *)
(*   tens    sequence of tensors [k, a, p, s, built, sh, c]:               *)
(*           kind, operand tensors, parameters, scalar id (0 = none),      *)
(*           built?, shape, cell of each element (row-major)               *)
(*   scals   sequence of cells: the scalar operands                        *)
(*   graphs  sequence of graphs, each a sequence of operations             *)
(*   ctxs    sequence of contexts, each a sequence of operations           *)
(*   files   sequence of saved tensors [full, sh, d]                       *)
(* An operation is [o, d, s]: scalar function, destination cell, source    *)
(* cells.  Building a tensor appends the operations of every expression    *)
(* node below it that no graph or context contains yet, operands first;    *)
(* if any part is rejected nothing at all changes.                         *)
(***************************************************************************)
EXTENDS Meaning

NoP == [dim |-> 0]
EmptySt(m) == [mode |-> m, cells |-> <<>>, tens |-> <<>>, scals |-> <<>>,
               graphs |-> <<>>, ctxs |-> <<>>, files |-> <<>>]

Values(st, t) == [j \in 1..Len(st.tens[t].c) |-> st.cells[st.tens[t].c[j]]]

\* a new matrix holding vals
NewLeaf(st, sh, vals) ==
  LET n == Len(st.cells) IN
  [st EXCEPT !.cells = @ \o vals,
             !.tens = Append(@, [k |-> "leaf", a |-> <<>>, p |-> NoP, s |-> 0, built |-> FALSE,
                                 sh |-> sh, c |-> [j \in 1..Len(vals) |-> n + j]])]
\* NewFromValues: missing values are zero, superfluous ones ignored
Fit(m, vals, n) == [j \in 1..n |-> IF j <= Len(vals) THEN vals[j] ELSE Zero(m)]

NewScal(st, v) ==
  [st EXCEPT !.cells = Append(@, v), !.scals = Append(@, Len(st.cells) + 1)]

NewNode(st, k, a, p, s) ==
  [st EXCEPT !.tens = Append(@, [k |-> k, a |-> a, p |-> p, s |-> s, built |-> FALSE,
                                 sh |-> <<>>, c |-> <<>>])]

Write(st, cell, v) == [st EXCEPT !.cells[cell] = v]
WriteAll(cells, cs, vs) == FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![cs[i]] = vs[i]], cells, cs)
WriteSeq(st, cs, vs) == [st EXCEPT !.cells = WriteAll(@, cs, vs)]

(***************************************************************************)
(* Building                                                                *)
(***************************************************************************)
BOk(st, ops) == [st |-> st, ops |-> ops, err |-> FALSE]
BErr == [err |-> TRUE]

CellOf(st, t1, t2, s, x) == IF x[1] = 1 THEN st.tens[t1].c[x[2]]
                            ELSE IF x[1] = 2 THEN st.tens[t2].c[x[2]]
                            ELSE st.scals[s]

\* allocate the result, with n elements, of node nd, whose operands t1, t2 are built
Idx(n) == [i \in 1..n |-> i]
Alloc(st0, nd, t1, t2, n) ==
  LET sa == st0.tens[t1].sh
      sb == IF t2 = 0 THEN <<>> ELSE st0.tens[t2].sh
      one(acc, j) ==
        LET e == Elem(nd.k, nd.p, sa, sb, j)
            src == [i \in 1..Len(e.src) |-> CellOf(st0, t1, t2, nd.s, e.src[i])]
            c == Len(acc.cells) + 1
        IN  IF e.op = "view" THEN [acc EXCEPT !.c = Append(@, src[1])]
            ELSE [cells |-> Append(acc.cells, Zero(st0.mode)),
                  c     |-> Append(acc.c, c),
                  ops   |-> IF e.op = "zero" THEN acc.ops
                            ELSE Append(acc.ops, [o |-> e.op, d |-> c, s |-> src])]
  IN  FoldLeft(one, [cells |-> st0.cells, c |-> <<>>, ops |-> <<>>], Idx(n))

RECURSIVE Build(_, _, _)
Build(st, ops, t) ==
  LET nd == st.tens[t] IN
  IF nd.built THEN BOk(st, ops)
  ELSE IF nd.k = "leaf" THEN BOk([st EXCEPT !.tens[t].built = TRUE], ops)
  ELSE
  LET t1 == nd.a[1]
      t2 == IF Len(nd.a) > 1 THEN nd.a[2] ELSE 0
      \* first the operands, in order
      args == FoldLeft(LAMBDA acc, x : IF acc.err THEN acc ELSE Build(acc.st, acc.ops, x),
                       BOk(st, ops), nd.a)
  IN  IF args.err THEN BErr
      ELSE LET s2 == args.st
               sa == s2.tens[t1].sh
               sb == IF t2 = 0 THEN <<>> ELSE s2.tens[t2].sh
               mark(s, sh, c) == [s EXCEPT !.tens[t].built = TRUE, !.tens[t].sh = sh, !.tens[t].c = c]
           IN  IF ~Accepts(nd.k, nd.p, sa, sb) THEN BErr
               ELSE IF nd.k = "copy" THEN
                 LET to == s2.tens[t2].c  from == s2.tens[t1].c
                 IN  BOk(mark(s2, sb, to),
                         args.ops \o [j \in 1..Len(to) |-> [o |-> "set", d |-> to[j], s |-> <<from[j]>>]])
               ELSE IF nd.k = "fill" THEN
                 LET to == s2.tens[t1].c
                 IN  BOk(mark(s2, sa, to),
                         args.ops \o [j \in 1..Len(to) |-> [o |-> "set", d |-> to[j], s |-> <<s2.scals[nd.s]>>]])
               ELSE LET rs == ResShape(nd.k, nd.p, sa, sb)
                        r  == Alloc(s2, nd, t1, t2, Size(rs))
                    IN  BOk(mark([s2 EXCEPT !.cells = r.cells], rs, r.c), args.ops \o r.ops)

(***************************************************************************)
(* Executing: the operations in order; an integer division by zero stops   *)
(* the execution (fail).                                                   *)
(***************************************************************************)
RunOp(m, acc, op) ==
  IF acc.fail THEN acc
  ELSE LET s == TLCEval([j \in 1..Len(op.s) |-> acc.cells[op.s[j]]])
       IN  IF OpFails(m, op.o, s) THEN [acc EXCEPT !.fail = TRUE]
           ELSE [acc EXCEPT !.cells[op.d] = OpVal(m, op.o, s)]
Run(st, ops) == FoldLeft(LAMBDA acc, op : RunOp(st.mode, acc, op), [cells |-> st.cells, fail |-> FALSE], ops)

(***************************************************************************)
(* What an expression denotes, on the current contents of its leaves,      *)
(* whether or not it was built: the reference meaning used by the          *)
(* model-level properties.                                                 *)
(***************************************************************************)
RECURSIVE DenShape(_, _)
DenShape(st, t) ==
  LET nd == st.tens[t] IN
  IF nd.k = "leaf" THEN nd.sh
  ELSE IF nd.k \in {"copy"} THEN DenShape(st, nd.a[2])
  ELSE IF nd.k = "fill" THEN DenShape(st, nd.a[1])
  ELSE ResShape(nd.k, nd.p, DenShape(st, nd.a[1]),
                IF Len(nd.a) > 1 THEN DenShape(st, nd.a[2]) ELSE <<>>)
RECURSIVE Valid(_, _)
Valid(st, t) ==
  LET nd == st.tens[t] IN
  nd.k = "leaf" \/
  /\ \A i \in 1..Len(nd.a) : Valid(st, nd.a[i])
  /\ Accepts(nd.k, nd.p, DenShape(st, nd.a[1]),
             IF Len(nd.a) > 1 THEN DenShape(st, nd.a[2]) ELSE <<>>)
RECURSIVE Denote(_, _)
Denote(st, t) ==
  LET nd == st.tens[t] IN
  IF nd.k = "leaf" THEN Values(st, t)
  ELSE Apply(st.mode, nd.k, nd.p,
             DenShape(st, nd.a[1]), TLCEval(Denote(st, nd.a[1])),
             IF Len(nd.a) > 1 THEN DenShape(st, nd.a[2]) ELSE <<>>,
             IF Len(nd.a) > 1 THEN TLCEval(Denote(st, nd.a[2])) ELSE <<>>,
             IF nd.s = 0 THEN Zero(st.mode) ELSE st.cells[st.scals[nd.s]])
RECURSIVE DenFails(_, _)
DenFails(st, t) ==
  LET nd == st.tens[t] IN
  nd.k # "leaf" /\
  (\/ \E i \in 1..Len(nd.a) : DenFails(st, nd.a[i])
   \/ ApplyFails(st.mode, nd.k, nd.p,
             DenShape(st, nd.a[1]), Denote(st, nd.a[1]),
             IF Len(nd.a) > 1 THEN DenShape(st, nd.a[2]) ELSE <<>>,
             IF Len(nd.a) > 1 THEN Denote(st, nd.a[2]) ELSE <<>>,
             IF nd.s = 0 THEN Zero(st.mode) ELSE st.cells[st.scals[nd.s]]))
=============================================================================
