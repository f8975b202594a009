------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* The public calls of the tensor machine as a step function.              *)
(* Step(st, ev) = [ok, st, end]: does the recorded outcome of call ev agree *)
(* with the specification in state st; the state after it; and whether the  *)
(* scenario is over (an integer division by zero was executed).             *)
(* Tensors, scalars, graphs, contexts and files are numbered in the order   *)
(* they are created.                                                        *)
(***************************************************************************)
EXTENDS Machine

Yes(st) == [ok |-> TRUE, st |-> st, end |-> FALSE]
No(st)  == [ok |-> FALSE, st |-> st, end |-> TRUE]
Over(st) == [ok |-> TRUE, st |-> st, end |-> TRUE]
If(c, st) == IF c THEN Yes(st) ELSE No(st)

Agrees(st, t, sh, d) == sh = st.tens[t].sh /\ MatchSeq(st.mode, Values(st, t), d)

Loc(st, x) == st.tens[x[1]].c[x[2]]
UserOp(st, ev) == [o |-> ev.o, d |-> Loc(st, ev.d), s |-> [i \in 1..Len(ev.s) |-> Loc(st, ev.s[i])]]

\* constructors: the requested values, zeros, ones, or any values in a range
Leaf(st, ev) ==
  LET n == Size(ev.sh)
      want == CASE ev.c = "vals" -> Fit(st.mode, ev.v, n)
                [] ev.c = "zeros" -> [j \in 1..n |-> Zero(st.mode)]
                [] ev.c = "ones" -> [j \in 1..n |-> One(st.mode)]
                [] ev.c \in {"rand", "norm"} -> IF st.mode = "rat" THEN [j \in 1..n |-> Undef] ELSE ev.d
      good == /\ ev.osh = ev.sh
              /\ Len(ev.d) = n
              /\ MatchSeq(st.mode, want, ev.d)
              /\ ev.c = "rand" => \A j \in 1..n : ev.k[j] >= 1000 * ev.lo /\ ev.k[j] <= 1000 * ev.hi
  IN  If(good, IF Len(ev.d) = n THEN NewLeaf(st, ev.sh, want) ELSE st)

StepBuild(st, ev, t, ops, put(_, _)) ==
  LET b == Build(st, ops, t)
  IN  IF b.err THEN If(ev.r = "err", st)
      ELSE If(ev.r = "ok", put(b.st, b.ops))

\* an immediate method: the result is a new, independent matrix
Imm(st, ev) ==
  LET ta == ev.a[1]
      tb == IF Len(ev.a) > 1 THEN ev.a[2] ELSE ta
      sa == st.tens[ta].sh   da == Values(st, ta)
      sb == st.tens[tb].sh   db == Values(st, tb)
      sv == IF ev.s = 0 THEN Zero(st.mode) ELSE st.cells[st.scals[ev.s]]
  IN  IF ~Accepts(ev.k, ev.p, sa, sb) THEN If(ev.r = "err", st)
      ELSE IF ApplyFails(st.mode, ev.k, ev.p, sa, da, sb, db, sv)
           THEN IF ev.r = "panic" THEN Over(st) ELSE No(st)
      ELSE LET v == Apply(st.mode, ev.k, ev.p, sa, da, sb, db, sv)
               \* FOSubTensor pads with a value of the caller's choice
               w == IF ev.k = "subx"
                    THEN [j \in 1..Len(v) |-> IF Elem(ev.k, ev.p, sa, sb, j).op = "zero" THEN ev.p.fill ELSE v[j]]
                    ELSE v
           IN  If(ev.r = "ok", NewLeaf(st, ResShape(ev.k, ev.p, sa, sb), w))

StepExec(st, ev) ==
  LET r == Run(st, st.graphs[ev.g])
  IN  IF r.fail THEN IF ev.r = "panic" THEN Over(st) ELSE No(st)
      ELSE If(ev.r = "ok", [st EXCEPT !.cells = r.cells])

FileSize(f, w) == Len(f.d) * w

StepTLoad(st, ev) ==
  LET f  == st.files[ev.f]
      T  == st.tens[ev.t]
      n  == Len(T.c)
  IN  IF ev.cut
      THEN \* a truncated stream: error, content of the tensor not specified
           If(ev.r = "err" /\ Len(ev.d) = Size(ev.osh),
              IF ev.full
              THEN LET m == Len(st.cells)
                   IN  [st EXCEPT !.cells = @ \o ev.d, !.tens[ev.t].sh = ev.osh,
                                  !.tens[ev.t].c = [j \in 1..Len(ev.d) |-> m + j]]
              ELSE IF Len(ev.d) = n THEN WriteSeq(st, T.c, ev.d) ELSE st)
      ELSE IF ev.full
      THEN If(ev.r = "ok",
              LET m == Len(st.cells)
              IN  [st EXCEPT !.cells = @ \o f.d, !.tens[ev.t].sh = f.sh,
                             !.tens[ev.t].c = [j \in 1..Len(f.d) |-> m + j]])
      ELSE If(ev.r = "ok", WriteSeq(st, T.c, SubSeq(f.d, 1, n)))

Step(st, ev) ==
  CASE ev.e = "leaf" -> Leaf(st, ev)
    [] ev.e = "scal" -> Yes(NewScal(st, ev.v))
    [] ev.e = "sets" -> Yes(Write(st, st.scals[ev.s], ev.v))
    [] ev.e = "sees" -> If(Match(st.mode, st.cells[st.scals[ev.s]], ev.v), st)
    [] ev.e = "node" -> Yes(NewNode(st, ev.k, ev.a, ev.p, ev.s))
    [] ev.e = "graph" -> StepBuild(st, ev, ev.t, <<>>,
                           LAMBDA s, ops : [s EXCEPT !.graphs = Append(@, ops)])
    [] ev.e = "ctx"   -> Yes([st EXCEPT !.ctxs = Append(@, <<>>)])
    [] ev.e = "build" -> StepBuild(st, ev, ev.t, st.ctxs[ev.c],
                           LAMBDA s, ops : [s EXCEPT !.ctxs[ev.c] = ops])
    [] ev.e \in {"transfer", "cfill"} ->
         \* Transfer and Fill build a fresh copy / fill expression in the context
         LET k  == IF ev.e = "transfer" THEN "copy" ELSE "fill"
             s1 == NewNode(st, k, ev.a, NoP, ev.s)
             b  == Build(s1, st.ctxs[ev.c], Len(s1.tens))
         IN  IF b.err THEN If(ev.r = "err", s1)
             ELSE If(ev.r = "ok", [b.st EXCEPT !.ctxs[ev.c] = b.ops])
    [] ev.e = "from"  -> Yes([st EXCEPT !.graphs = Append(@, st.ctxs[ev.c])])
    [] ev.e = "empty" -> Yes([st EXCEPT !.graphs = Append(@, <<>>)])
    [] ev.e = "copyg" -> Yes([st EXCEPT !.graphs = Append(@, st.graphs[ev.g])])
    [] ev.e = "addg"  -> Yes([st EXCEPT !.graphs[ev.g] = @ \o st.graphs[ev.h]])
    [] ev.e = "push"  -> Yes([st EXCEPT !.graphs[ev.g] = Append(@, UserOp(st, ev))])
    [] ev.e = "cpush" -> Yes([st EXCEPT !.ctxs[ev.c] = Append(@, UserOp(st, ev))])
    [] ev.e = "cal"   -> LET r == Run(st, <<UserOp(st, ev)>>)
                         IN  IF r.fail THEN IF ev.r = "panic" THEN Over(st) ELSE No(st)
                             ELSE If(ev.r = "ok", [st EXCEPT !.cells = r.cells])
    [] ev.e = "exec"  -> StepExec(st, ev)
    [] ev.e = "see"   -> If(\A i \in 1..Len(ev.v) : Agrees(st, ev.v[i].t, ev.v[i].sh, ev.v[i].d), st)
    [] ev.e = "get"   -> IF IndexOK(st.tens[ev.t].sh, ev.ix)
                         THEN If(ev.r = "ok" /\ Match(st.mode, st.cells[st.tens[ev.t].c[Flat(st.tens[ev.t].sh, ev.ix)]], ev.v), st)
                         ELSE If(ev.r = "err", st)
    [] ev.e = "set"   -> IF IndexOK(st.tens[ev.t].sh, ev.ix)
                         THEN If(ev.r = "ok", Write(st, st.tens[ev.t].c[Flat(st.tens[ev.t].sh, ev.ix)], ev.v))
                         ELSE If(ev.r = "err", st)
    [] ev.e = "load"  -> IF Len(ev.v) = Len(st.tens[ev.t].c)
                         THEN If(ev.r = "ok", WriteSeq(st, st.tens[ev.t].c, ev.v))
                         ELSE If(ev.r = "err", st)
    [] ev.e = "loadt" -> IF st.tens[ev.t].sh = st.tens[ev.u].sh
                         THEN If(ev.r = "ok", WriteSeq(st, st.tens[ev.t].c, Values(st, ev.u)))
                         ELSE If(ev.r = "err", st)
    [] ev.e = "fill"  -> If(ev.r = "ok", WriteSeq(st, st.tens[ev.t].c, [j \in 1..Len(st.tens[ev.t].c) |-> ev.v]))
    [] ev.e = "copy"  -> If(ev.r = "ok", NewLeaf(st, st.tens[ev.t].sh, Values(st, ev.t)))
    [] ev.e = "bind"  -> IF st.tens[ev.t].sh = st.tens[ev.u].sh
                         THEN If(ev.r = "ok", [st EXCEPT !.tens[ev.t].c = st.tens[ev.u].c])
                         ELSE If(ev.r = "err", st)
    [] ev.e = "imm"   -> Imm(st, ev)
    [] ev.e = "tsave" -> LET f == [full |-> ev.full, sh |-> st.tens[ev.t].sh, d |-> Values(st, ev.t)]
                         IN  IF ev.fail THEN If(ev.r = "err", st)
                             ELSE If(ev.r = "ok" /\ (ev.full \/ ev.n = FileSize(f, ev.w)),
                                     [st EXCEPT !.files = Append(@, f)])
    [] ev.e = "tload" -> StepTLoad(st, ev)
    [] OTHER -> No(st)   \* "hang", "crash": never allowed
=============================================================================
