------------------------------ MODULE NetCalls ------------------------------
(***************************************************************************)
(* The public calls on layers and models as a step function:               *)
(* NStep(st, ev) = [ok, st, end], as in Calls.                             *)
(* Layers, models, files and predictions are numbered in the order they    *)
(* are created.                                                            *)
(***************************************************************************)
EXTENDS Network

Yes(st) == [ok |-> TRUE, st |-> st, end |-> FALSE]
No(st)  == [ok |-> FALSE, st |-> st, end |-> TRUE]
Over(st) == [ok |-> TRUE, st |-> st, end |-> TRUE]
If(c, st) == IF c THEN Yes(st) ELSE No(st)

\* a call on model m that needs it compiled: error if it has no valid meaning
Using(st, ev, then(_)) ==
  LET r == Resolve(st, ev.m) IN IF r.err THEN If(ev.r = "err", st) ELSE then(r.st)

\* observed parameters agree with the state's; shapes included
ParamsAgree(st, vs) ==
  \A i \in 1..Len(vs) :
     LET L == st.layers[vs[i].l]
     IN  /\ vs[i].wsh = WShape(L.k, L.p, L.ins) /\ vs[i].bsh = L.sh
         /\ MatchSeq(st.mode, L.W, vs[i].w) /\ MatchSeq(st.mode, L.B, vs[i].b)
Sized(st, vs) ==
  \A i \in 1..Len(vs) :
     LET L == st.layers[vs[i].l]
     IN  /\ vs[i].wsh = WShape(L.k, L.p, L.ins) /\ vs[i].bsh = L.sh
         /\ Len(vs[i].w) = Len(L.W) /\ Len(vs[i].b) = Len(L.B)
Adopt(st, vs) ==
  FoldLeft(LAMBDA s, v : [s EXCEPT !.layers[v.l] = [@ EXCEPT !.W = v.w, !.B = v.b]], st, vs)

Predict(s, ev) ==
  IF ev.x.sh # InputShape(s, ev.m) THEN If(ev.r = "err", s)
  ELSE LET r == RunNet(s, ev.m, ev.x.d)
       IN  IF r.fail THEN IF ev.r = "panic" THEN Over(s) ELSE No(s)
           ELSE LET o == TLCEval(Output(s, ev.m, r))
                IN  If(/\ ev.r = "ok"
                       /\ ev.o.sh = OutputShape(s, ev.m) /\ MatchSeq(s.mode, o, ev.o.d)
                       /\ ev.xa = ev.x.d,
                       [s EXCEPT !.outs = Append(@, ev.o.d)])

Fits(s, m, x, y) == x.sh = InputShape(s, m) /\ y.sh = OutputShape(s, m)

TrainOne(s, ev) ==
  IF ~Fits(s, ev.m, ev.x, ev.y) THEN If(ev.r = "err", s)
  ELSE LET t == TrainStep(s, ev.m, ev.x.d, ev.y.d, ev.a, ev.mo)
       IN  IF t.fail THEN IF ev.r = "panic" THEN Over(s) ELSE No(s)
           ELSE IF ev.r # "ok" THEN No(s)
           ELSE IF t.ties THEN Over(s)
           ELSE If(Match(s.mode, t.loss, ev.loss) /\ ev.xa = ev.x.d /\ ev.ya = ev.y.d, t.st)

\* Training: every sequence of picks.  Candidates are [st, r, ties] with r the outcome.
TrainMany(s, ev) ==
  LET n  == Len(ev.xs)
      b  == IF ev.b = 0 THEN n ELSE ev.b
      step(cs) == UNION {IF c.r # "ok" THEN {c}
                         ELSE {IF ~Fits(s, ev.m, ev.xs[i], ev.ys[i]) THEN [c EXCEPT !.r = "err"]
                               ELSE LET t == TLCEval(TrainStep(c.st, ev.m, ev.xs[i].d, ev.ys[i].d, ev.a, ev.mo))
                                    IN  [st |-> t.st, r |-> IF t.fail THEN "panic" ELSE "ok",
                                         ties |-> c.ties \/ t.ties] : i \in 1..n} : c \in cs}
      all == FoldLeft(LAMBDA cs, i : TLCEval(step(cs)), {[st |-> s, r |-> "ok", ties |-> FALSE]}, [i \in 1..(ev.e0 * b) |-> i])
      good == {c \in all : c.ties \/ (c.r = ev.r /\ (c.r = "panic" \/ ParamsAgree(c.st, ev.after)))}
  IN  IF Len(ev.xs) # Len(ev.ys) THEN If(ev.r = "err" /\ ParamsAgree(s, ev.after), s)
      ELSE IF good = {} THEN No(s)
      ELSE IF \E c \in good : c.ties \/ c.r = "panic" THEN Over(s)
      \* which samples were picked does not show: what comes later depends on it
      ELSE IF \E c, d \in good : c.st # d.st THEN Over(s)
      ELSE Yes((CHOOSE c \in good : TRUE).st)

Save(s, ev) ==
  LET ps == ParamsOf(s, ev.m)
      n  == Bytes(s, ps)
  IN  IF ev.lim >= 0 /\ ev.lim < n THEN If(ev.r = "err", s)
      ELSE If(ev.r = "ok" /\ ev.n = n, [s EXCEPT !.files = Append(@, ps)])
Load(s, ev) ==
  LET ps == s.files[ev.f]
      ls == ParamLayers(s, ev.m)
      n  == Bytes(s, ps)
  IN  IF ~SameSizes(ps, ParamsOf(s, ev.m)) THEN Over(s)     \* another architecture: not defined
      ELSE IF ev.cut >= 0 /\ ev.cut < n
           THEN If(ev.r = "err" /\ Sized(s, ev.after), Adopt(s, ev.after))
      ELSE If(ev.r = "ok" /\ ev.left = 0, SetParams(s, ls, ps))

\* printing never fails; what a later part of a composed model, or a model that
\* is not compiled, is printed as is not defined
PrintModel(s, ev) ==
  IF s.models[ev.m].last = 0 THEN If(ev.r = "ok" /\ ev.lines = <<>>, s)
  ELSE IF ~Built(s, ev.m) \/ Pres(s, s.models[ev.m].first) # <<>> THEN If(ev.r = "ok", s)
  ELSE If(/\ ev.r = "ok"
          /\ Listing(ev.lines, Lines(s, ev.m))
          /\ ev.m \in DOMAIN s.texts => ev.lines = s.texts[ev.m],
          [s EXCEPT !.texts = (ev.m :> ev.lines) @@ @])
PrintLayer(s, ev) ==
  IF ~s.layers[ev.l].built THEN If(ev.r = "ok", s)
  ELSE LET L == s.layers[ev.l]
       IN  If(ev.r = "ok" /\ ev.line.kind = KindName(L) /\ ev.line.out = L.sh /\ ev.line.n = Numbers(s, ev.m)[ev.l], s)

NStep(st, ev) ==
  CASE ev.e = "layer" -> Yes([st EXCEPT !.layers = Append(@, NewLayer(ev.k, ev.pre, ev.p, ev.act))])
    [] ev.e = "connect" -> Yes([st EXCEPT !.layers[ev.l].pre = <<ev.to>>])
    [] ev.e = "model" -> Yes([st EXCEPT !.models = Append(@, [first |-> ev.first, last |-> ev.last, used |-> FALSE])])
    [] ev.e = "compile" -> Using(st, ev, LAMBDA s : If(ev.r = "ok", [s EXCEPT !.models[ev.m].used = TRUE]))
    [] ev.e = "compose" ->
         IF \/ ev.ms = <<>>
            \/ \E i \in 1..Len(ev.ms) : st.models[ev.ms[i]].first = 0
            \/ \E i, j \in 1..Len(ev.ms) : i < j /\ st.models[ev.ms[i]].first = st.models[ev.ms[j]].first
            \/ \E i \in 2..Len(ev.ms) : /\ st.models[ev.ms[i]].used
                                        /\ Pres(st, st.models[ev.ms[i]].first) # <<st.models[ev.ms[i - 1]].last>>
         THEN If(ev.r = "err", st)
         ELSE LET s1 == Connect(st, ev.ms)
                  all == FoldLeft(LAMBDA acc, m : IF acc.err THEN acc ELSE Resolve(acc.st, m), [st |-> s1, err |-> FALSE], ev.ms)
                  used == FoldLeft(LAMBDA s, m : [s EXCEPT !.models[m].used = TRUE], all.st, ev.ms)
              IN  IF all.err THEN IF ev.r = "err" THEN Over(st) ELSE No(st)
                  ELSE If(ev.r = "ok",
                          [used EXCEPT !.models = Append(@, [first |-> st.models[ev.ms[1]].first,
                                                           last |-> st.models[ev.ms[Len(ev.ms)]].last, used |-> TRUE])])
    [] ev.e = "setp" -> If(ev.r = "ok" /\ Sized(st, <<ev>>), Adopt(st, <<ev>>))
    \* parameters chosen at random by the library, read for the first time
    [] ev.e = "adopt" -> Using(st, [m |-> ev.m, r |-> "ok"],
                            LAMBDA s : If(Sized(s, ev.v), [Adopt(s, ev.v) EXCEPT !.models[ev.m].used = TRUE]))
    [] ev.e = "params" -> If(ParamsAgree(st, ev.v), st)
    [] ev.e = "freeze" -> Yes([st EXCEPT !.layers[ev.l].tr = ev.t])
    [] ev.e = "freezem" -> LET ls == Order(st, ev.m)
                           IN  If(ev.r = "ok", FoldLeft(LAMBDA s, l : [s EXCEPT !.layers[l].tr = ev.t], st, ls))
    [] ev.e = "predict" -> Using(st, ev, LAMBDA s : Predict([s EXCEPT !.models[ev.m].used = TRUE], ev))
    [] ev.e = "trainone" -> Using(st, ev, LAMBDA s : TrainOne([s EXCEPT !.models[ev.m].used = TRUE], ev))
    [] ev.e = "train" -> IF Len(ev.xs) # Len(ev.ys) \/ (ev.xs = <<>> /\ ev.e0 * ev.b > 0) THEN If(ev.r = "err", st)
                         ELSE Using(st, ev, LAMBDA s : TrainMany([s EXCEPT !.models[ev.m].used = TRUE], ev))
    [] ev.e = "outs" -> If(\A i \in 1..Len(ev.v) : ev.v[i] = st.outs[i], st)
    [] ev.e = "setout" -> Yes([st EXCEPT !.outs[ev.i] = ev.d])
    [] ev.e = "resetis" -> Using(st, ev, LAMBDA s : If(ev.r = "ok", [s EXCEPT !.models[ev.m].used = TRUE]))
    [] ev.e = "print" -> PrintModel(st, ev)
    [] ev.e = "printl" -> PrintLayer(st, ev)
    [] ev.e = "str" -> If(ev.r = "ok", st)
    [] ev.e = "save" -> Using(st, ev, LAMBDA s : Save(s, ev))
    [] ev.e = "load" -> Using(st, ev, LAMBDA s : Load(s, ev))
    [] OTHER -> No(st)
=============================================================================
