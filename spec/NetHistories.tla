---------------------------- MODULE NetHistories ----------------------------
(***************************************************************************)
(* Every history of calls, up to a length, on a few small models.  Used     *)
(* twice, like Histories:                                                   *)
(*  - model checked: the guarantees about models as properties of the       *)
(*    specified network machine (inputs and targets are fixed there);       *)
(*  - as a generator: every history is a script for the real library, run   *)
(*    with random numbers and judged by NetTrace.                           *)
(* IOEnv.ALPHABET chooses the calls.                                        *)
(***************************************************************************)
EXTENDS Network, Json, IOUtils

LEN == atoi(IOEnv.LENGTH)
OUT == IOEnv.OUT
ALPHA == IOEnv.ALPHABET

D(k, pre, p, act) == [k |-> k, pre |-> pre, p |-> p, act |-> act]
In(sh) == D("input", <<>>, [shape |-> sh], "lin")
Dense(pre, n, act) == D("dense", pre, [n |-> n, ins |-> 0], act)
InDense(i, n, act) == D("dense", <<>>, [n |-> n, ins |-> i], act)
None == [none |-> 0]

Chain == <<In(<<2>>), Dense(<<1>>, 2, "sq"), Dense(<<2>>, 1, "aff")>>
Tree  == <<In(<<2>>), Dense(<<1>>, 1, "aff"), Dense(<<1>>, 2, "relu2"),
           D("concat", <<2, 3>>, [dim |-> 0], "lin"), Dense(<<4>>, 2, "sq")>>
Pict  == <<In(<<1, 3, 2>>), D("conv", <<1>>, [f |-> 1, kw |-> 2, kh |-> 1, sx |-> 1, sy |-> 1], "relu2"),
           D("up", <<2>>, [sx |-> 1, sy |-> 2], "lin"), D("flatten", <<3>>, None, "lin"), Dense(<<4>>, 1, "lin")>>
\* layers that feed several others
Diamond == <<In(<<2>>), Dense(<<1>>, 2, "aff"), Dense(<<2>>, 1, "lin"), D("concat", <<2, 3>>, [dim |-> 0], "lin"),
             D("concat", <<4, 1>>, [dim |-> 0], "lin"), Dense(<<5>>, 1, "sq")>>
Twice == <<In(<<1, 2, 2>>), D("deconv", <<1>>, [f |-> 1, kw |-> 1, kh |-> 1, sx |-> 1, sy |-> 1], "lin"),
           D("concat", <<2, 2>>, [dim |-> 0], "lin"), D("pool", <<3>>, [sx |-> 2, sy |-> 1], "lin")>>
\* scenarios: the models to make, and whether they are composed
Part1 == <<In(<<2>>), Dense(<<1>>, 2, "aff")>>
Part2 == <<In(<<2>>), Dense(<<1>>, 1, "sq")>>
Part3 == <<InDense(2, 2, "relu2"), Dense(<<1>>, 1, "lin")>>
Part4 == <<In(<<1>>), Dense(<<1>>, 2, "aff"), D("subt", <<2>>, [dim |-> 0, from |-> 1, to |-> 2], "lin"),
           Dense(<<3>>, 1, "lin")>>
Scenes ==
  IF ALPHA = "C14" THEN << <<Part1, Part2>>, <<Part3, Part4>> >>
  ELSE IF ALPHA = "C20" THEN << <<Chain>>, <<Tree>>, <<Pict>>, <<Diamond>>, <<Twice>> >>
  ELSE << <<Chain>>, <<Tree>>, <<Pict>> >>
Composed == ALPHA = "C14"

VARIABLES scene, st, hist, prev, saved
vars == <<scene, st, hist, prev, saved>>

\* ------------------------------------------------------------------- set up
AddModel(s, ds) ==
  LET b == Len(s.layers)
      s1 == FoldLeft(LAMBDA acc, d : [acc EXCEPT !.layers =
                       Append(@, NewLayer(d.k, [i \in 1..Len(d.pre) |-> b + d.pre[i]], d.p, d.act))], s, ds)
  IN  [s1 EXCEPT !.models = Append(@, [first |-> b + 1, last |-> Len(s1.layers), used |-> FALSE])]
Val0(l, i) == ((l * 7 + i * 5) % 5) - 2
Give(s) == FoldLeftDomain(LAMBDA acc, l :
             [acc EXCEPT !.layers[l] = [@ EXCEPT !.W = [i \in 1..Len(@) |-> Val0(l, i)],
                                                 !.B = [i \in 1..Len(@) |-> Val0(l, i + 3)]]], s, s.layers)
Start(sc) ==
  LET s1 == FoldLeft(AddModel, EmptyNet("i16", 2), Scenes[sc])
      n  == Len(Scenes[sc])
      s2 == IF Composed THEN LET c == Connect(s1, [i \in 1..n |-> i])
                             IN  [c EXCEPT !.models = Append(@, [first |-> s1.models[1].first,
                                                                 last |-> s1.models[n].last, used |-> FALSE])]
            ELSE s1
  IN  Give(FoldLeft(LAMBDA acc, m : Resolve(acc, m).st, s2, [m \in 1..Len(s2.models) |-> m]))

X(m) == [i \in 1..Size(InputShape(st, m)) |-> 2 * i - 3]
Y(m) == [i \in 1..Size(OutputShape(st, m)) |-> 5 - i]

\* -------------------------------------------------------------------- calls
Models == 1..Len(st.models)
Main == IF Composed THEN Len(st.models) ELSE 1
Frz == {l \in 1..Len(st.layers) : HasParams(st.layers[l])}
Files == 1..Len(saved)
C(e, m, how) == [e |-> e, m |-> m, how |-> how, mo |-> 0, l |-> 0, t |-> TRUE]
Free(ms) == {C("predict", m, "fit") : m \in ms} \cup {C("predict", m, "bad") : m \in ms}
Train1(ms) == {C("trainone", m, "fit") : m \in ms}
Freeze(ls) == {[C("freeze", 0, "") EXCEPT !.l = l, !.t = t] : l \in ls, t \in BOOLEAN}
FreezeM(ms) == {[C("freezem", m, "") EXCEPT !.t = t] : m \in ms, t \in BOOLEAN}
Whole(ms) == {C("save", m, "all") : m \in ms}
             \cup (IF saved = <<>> THEN {} ELSE {C("load", saved[Len(saved)].m, "all")})
Disk(ms) == {C("save", m, "all") : m \in ms} \cup {C("save", m, "short") : m \in ms}
            \cup (IF saved = <<>> THEN {} ELSE {C("load", m, h) : m \in {saved[Len(saved)].m}, h \in {"all", "cut"}})
Calls ==
  CASE ALPHA = "C09" -> Free({1}) \cup Train1({1}) \cup {C("compile", 1, ""), C("resetis", 1, ""), C("setp", 1, ""), C("setout", 1, "")}
                        \cup Whole({1})
    [] ALPHA = "C11" -> Train1({1}) \cup Freeze(Frz) \cup FreezeM({1}) \cup {C("predict", 1, "fit")}
    [] ALPHA = "C12" -> Disk({1}) \cup Train1({1}) \cup {C("resetis", 1, ""), C("predict", 1, "fit"), C("setp", 1, ""), C("freezem", 1, "")}
    [] ALPHA = "C13" -> Free({1}) \cup Train1({1}) \cup {C("trainone", 1, "badx"), C("trainone", 1, "bady"), C("compile", 1, "")}
                        \cup {C("train", 1, h) : h \in {"1x2", "2x1", "0x1", "none", "uneven", "badx"}}
    [] ALPHA = "C14" -> {C("predict", m, "fit") : m \in Models} \cup Train1(Models) \cup FreezeM(1..(Len(st.models) - 1))
                        \cup Whole({1, Main})
    [] ALPHA = "C20" -> {C("print", m, "") : m \in Models} \cup {C(e, 1, "") : e \in {"compile", "resetis", "freezem"}}
                        \cup {C("save", 1, "all"), C("predict", 1, "fit"), C("predict", 1, "bad"), C("trainone", 1, "fit")}
    [] ALPHA = "C18" -> {[C("trainone", 1, "fit") EXCEPT !.mo = k] : k \in {0, 1, -2}}
                        \cup {C("trainone", 1, "badx"), C("predict", 1, "fit"), C("setp", 1, ""), C("resetis", 1, "")}

Init == /\ scene \in 1..Len(Scenes)
        /\ st = Start(scene) /\ prev = Start(scene) /\ hist = <<>> /\ saved = <<>>

\* what a call does to the network (inputs fixed)
Do(c) ==
  CASE c.e = "trainone" /\ c.how = "fit" -> TrainStep(st, c.m, X(c.m), Y(c.m), 1, c.mo).st
    [] c.e = "train" /\ c.how \in {"1x2", "2x1"} ->
         LET one(s, i) == TrainStep(s, c.m, X(c.m), Y(c.m), 1, 0).st IN one(one(st, 1), 2)
    [] c.e = "freeze" -> [st EXCEPT !.layers[c.l].tr = c.t]
    [] c.e = "freezem" -> FoldLeft(LAMBDA s, l : [s EXCEPT !.layers[l].tr = c.t], st, Order(st, c.m))
    [] c.e = "load" /\ c.how = "all" -> SetParams(st, ParamLayers(st, c.m), saved[Len(saved)].ps)
    [] c.e = "setp" -> FoldLeft(LAMBDA s, l : [s EXCEPT !.layers[l].W = [i \in 1..Len(@) |-> Val0(l, i + Len(hist))]],
                                st, ParamLayers(st, c.m))
    [] OTHER -> st

Next ==
  /\ Len(hist) < LEN
  /\ \E c \in Calls :
       /\ hist' = Append(hist, c)
       /\ st' = (IF OUT = "" THEN Do(c) ELSE st)
       /\ prev' = (IF OUT = "" THEN st ELSE prev)
       /\ saved' = (IF c.e = "save" /\ c.how = "all"
                    THEN Append(saved, [m |-> c.m, ps |-> ParamsOf(st, c.m)]) ELSE saved)
       /\ UNCHANGED scene
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The guarantees, about the last call                                     *)
(***************************************************************************)
LastCall == hist[Len(hist)]
Par(s, l) == <<s.layers[l].W, s.layers[l].B>>
Training(c) == (c.e = "trainone" /\ c.how = "fit") \/ (c.e = "train" /\ c.how \in {"1x2", "2x1"})
PL == {l \in 1..Len(st.layers) : HasParams(st.layers[l])}
\* only training, loading and writing change parameters
OnlyThese == hist # <<>> /\ ~Training(LastCall) /\ ~(LastCall.e \in {"setp"}) /\ ~(LastCall.e = "load" /\ LastCall.how = "all")
             => \A l \in PL : Par(st, l) = Par(prev, l)
\* frozen layers never learn; all others learn what they would with nothing frozen
Frozen == hist # <<>> /\ Training(LastCall) => \A l \in PL : ~prev.layers[l].tr => Par(st, l) = Par(prev, l)
OthersLearn ==
  (hist # <<>> /\ LastCall.e = "trainone" /\ LastCall.how = "fit") =>
    LET free == [prev EXCEPT !.layers = [l \in 1..Len(@) |-> [@[l] EXCEPT !.tr = TRUE]]]
        t == TrainStep(free, LastCall.m, X(LastCall.m), Y(LastCall.m), 1, LastCall.mo).st
    IN  \A l \in PL : prev.layers[l].tr => Par(st, l) = Par(t, l)
\* a part's training stays in the part
InThePart == (hist # <<>> /\ Training(LastCall)) =>
   \A l \in PL : ~Contains(Order(st, LastCall.m), l) => Par(st, l) = Par(prev, l)
\* what was saved is what is loaded
RoundTrip == (hist # <<>> /\ LastCall.e = "load" /\ LastCall.how = "all") => ParamsOf(st, LastCall.m) = saved[Len(saved)].ps
\* momentum: the update is the plain step plus a fraction of the previous update
Momentum ==
  (hist # <<>> /\ LastCall.e = "trainone" /\ LastCall.how = "fit") =>
    LET plain == TrainStep(prev, LastCall.m, X(LastCall.m), Y(LastCall.m), 1, 0).st
    IN  \A l \in PL : (prev.layers[l].tr /\ Contains(Order(st, LastCall.m), l)) =>
          \A i \in 1..Len(st.layers[l].W) :
             Sub("i16", st.layers[l].W[i], prev.layers[l].W[i])
               = Add("i16", Sub("i16", plain.layers[l].W[i], prev.layers[l].W[i]), Mul("i16", LastCall.mo, prev.layers[l].vW[i]))
\* the composed model is the composition
Composition ==
  Composed =>
    LET n == Len(st.models) - 1
        whole == Output(st, Main, RunNet(st, Main, X(1)))
        parts == FoldLeft(LAMBDA x, m : TLCEval(Output(st, m, RunNet(st, m, x))), X(1), [m \in 1..n |-> m])
    IN  whole = parts
\* a printed model: feeding layers first, each layer once, numbers growing along the connections
Printed ==
  LET ls == Lines(st, Main) IN
  /\ Listing(ls, ls)
  /\ Len(ls) = Cardinality(Range(Order(st, Main)))
  /\ \A i \in 1..Len(ls) : \A f \in Range(ls[i].from) : f < ls[i].n
  /\ ls[Len(ls)].n = Max({ls[i].n : i \in 1..Len(ls)})
NotEmitting == OUT = ""
Guarantees == NotEmitting => OnlyThese /\ Frozen /\ OthersLearn /\ InThePart /\ RoundTrip /\ Momentum /\ Composition /\ Printed

(***************************************************************************)
(* Scripts                                                                 *)
(***************************************************************************)
Script == <<[e |-> "scene", ds |-> Scenes[scene], composed |-> Composed]>> \o hist
Emit == (OUT # "" /\ Len(hist) = LEN) => PrintT("SCRIPT " \o ToJson([s |-> Script]))
=============================================================================
