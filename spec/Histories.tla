----------------------------- MODULE Histories ------------------------------
(***************************************************************************)
(* Every way, up to a bound, of dividing the building of a few expressions  *)
(* with shared parts among graphs and contexts.  Used twice:               *)
(*  - model checked: the invariants below are the guarantees of the tensor  *)
(*    machine stated on the specification;                                  *)
(*  - as a generator: every history is written as a script for the real     *)
(*    library (Emit), whose outcomes MachineTrace judges.                   *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

L == atoi(IOEnv.LENGTH)
OUT == IOEnv.OUT       \* "" : only model check
EFFECTS == IOEnv.EFFECTS = "yes"

Ev(k, a, p, s) == [e |-> "node", k |-> k, a |-> a, p |-> p, s |-> s]
Leaf(sh, v) == [e |-> "leaf", c |-> "vals", sh |-> sh, v |-> v]
\* programs: leaves 1 and 2, one scalar, then expression nodes (one rejected)
P0 == [dim |-> 0]
Programs == <<
  << Leaf(<<2>>, <<3, -4>>), Leaf(<<2>>, <<5, 7>>), [e |-> "scal", v |-> 2],
     Ev("neg", <<1>>, P0, 0),                    \* 3
     Ev("add", <<3, 2>>, P0, 0),                 \* 4 shares 3
     Ev("mul", <<3, 4>>, P0, 0),                 \* 5 shares 3 and 4
     Ev("concat", <<5, 1>>, P0, 0),              \* 6 a view
     Ev("add", <<4, 6>>, P0, 0) >>,              \* 7 rejected: shapes differ
  << Leaf(<<2, 2>>, <<3, -4, 6, 1>>), Leaf(<<2>>, <<5, 7>>), [e |-> "scal", v |-> 3],
     Ev("dot", <<1, 2>>, P0, 0),                 \* 3
     Ev("muls", <<3>>, P0, 1),                   \* 4
     Ev("transpose", <<1>>, P0, 0),              \* 5 a view of a leaf
     Ev("dot", <<5, 4>>, P0, 0),                 \* 6 shares 3, 4
     Ev("subt", <<6>>, [dim |-> 0, from |-> 1, to |-> 4, fill |-> 0], 0) >>, \* 7 rejected
  << Leaf(<<3>>, <<3, -4, 9>>), Leaf(<<3>>, <<5, 7, 1>>), [e |-> "scal", v |-> 2],
     Ev("softmax", <<1>>, P0, 0),                \* 3
     Ev("sum", <<3>>, P0, 0),                    \* 4
     Ev("sub", <<1, 2>>, P0, 0),                 \* 5
     Ev("dot", <<5, 3>>, P0, 0),                 \* 6 = one element
     Ev("dsum", <<6>>, [dim |-> 2], 0) >>        \* 7 rejected
>>
Setup1(st, ev) == CASE ev.e = "leaf" -> NewLeaf(st, ev.sh, ev.v)
                    [] ev.e = "scal" -> NewScal(st, ev.v)
                    [] ev.e = "node" -> NewNode(st, ev.k, ev.a, ev.p, ev.s)
Setup(p) == FoldLeft(Setup1, EmptySt("i16"), Programs[p])

VARIABLES prog, st, hist,
          log      \* all operations in the order they were included
vars == <<prog, st, hist, log>>

Init == /\ prog \in 1..Len(Programs)
        /\ st = Setup(prog) /\ hist = <<>> /\ log = <<>>

Act(ev) == hist' = Append(hist, ev) /\ UNCHANGED prog
New(s, ops, old) == log \o SubSeq(ops, Len(old) + 1, Len(ops))

Graph(t) ==
  LET b == Build(st, <<>>, t) IN
  /\ Act([e |-> "graph", t |-> t])
  /\ IF b.err THEN UNCHANGED <<st, log>>
     ELSE st' = [b.st EXCEPT !.graphs = Append(@, b.ops)] /\ log' = log \o b.ops
Ctx == /\ Len(st.ctxs) < 2
       /\ Act([e |-> "ctx"]) /\ st' = [st EXCEPT !.ctxs = Append(@, <<>>)] /\ UNCHANGED log
InCtx(c, t) ==
  LET b == Build(st, st.ctxs[c], t) IN
  /\ Act([e |-> "build", c |-> c, t |-> t])
  /\ IF b.err THEN UNCHANGED <<st, log>>
     ELSE st' = [b.st EXCEPT !.ctxs[c] = b.ops] /\ log' = New(st, b.ops, st.ctxs[c])
\* effects: copying / filling a leaf
Effect(c, ev, k, a, s) ==
  LET s1 == NewNode(st, k, a, NoP, s)
      b  == Build(s1, st.ctxs[c], Len(s1.tens)) IN
  /\ Act(ev)
  /\ IF b.err THEN st' = s1 /\ UNCHANGED log
     ELSE st' = [b.st EXCEPT !.ctxs[c] = b.ops] /\ log' = New(s1, b.ops, st.ctxs[c])
From(c) == Act([e |-> "from", c |-> c]) /\ st' = [st EXCEPT !.graphs = Append(@, st.ctxs[c])] /\ UNCHANGED log
CopyG(g) == Act([e |-> "copyg", g |-> g]) /\ st' = [st EXCEPT !.graphs = Append(@, st.graphs[g])] /\ UNCHANGED log
AddG(g, h) == Act([e |-> "addg", g |-> g, h |-> h]) /\ st' = [st EXCEPT !.graphs[g] = @ \o st.graphs[h]] /\ UNCHANGED log

Next ==
  /\ Len(hist) < L
  /\ \/ \E t \in 3..7 : Graph(t)
     \/ Ctx
     \/ \E c \in 1..Len(st.ctxs) :
          \/ \E t \in 3..7 : InCtx(c, t)
          \/ From(c)
          \/ EFFECTS /\ \/ \E f \in {2, 5} : Effect(c, [e |-> "transfer", c |-> c, a |-> <<f, 1>>, s |-> 0], "copy", <<f, 1>>, 0)
                        \/ Effect(c, [e |-> "cfill", c |-> c, a |-> <<1>>, s |-> 1], "fill", <<1>>, 1)
     \/ \E g \in 1..Len(st.graphs) :
          \/ CopyG(g)
          \/ \E h \in 1..Len(st.graphs) : AddG(g, h)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The guarantees                                                          *)
(***************************************************************************)
Nodes == {t \in 3..7 : TRUE}
Producer(c) == {i \in 1..Len(log) : log[i].d = c}
LeafCells == UNION {{st.tens[t].c[j] : j \in 1..Len(st.tens[t].c)} : t \in {1, 2}}
\* each computed element has exactly one operation, in one container
OnceOnly == ~EFFECTS => \A c \in 1..Len(st.cells) : Cardinality(Producer(c)) <= 1
\* an operation reads only leaves, scalars, padding, or elements computed before it
OperandsFirst ==
  \A i \in 1..Len(log) : \A j \in 1..Len(log[i].s) :
     \A k \in Producer(log[i].s[j]) : k < i \/ (log[k].o = "set")
\* nothing but an effect writes an input
InputsUntouched == ~EFFECTS => \A i \in 1..Len(log) : log[i].d \notin LeafCells
\* a rejected expression is never built, and what is built is built whole
BuiltWhole == \A t \in 1..Len(st.tens) :
  st.tens[t].built => Valid(st, t) /\ \A i \in 1..Len(st.tens[t].a) : st.tens[st.tens[t].a[i]].built
\* running everything in the order it was included gives every tensor its meaning,
\* and running it again changes nothing
RunLog == Run(st, log)
Meaningful ==
  ~EFFECTS =>
    LET r == RunLog
        s2 == [st EXCEPT !.cells = r.cells]
    IN  /\ ~r.fail
        /\ \A t \in 3..7 : st.tens[t].built =>
             /\ st.tens[t].sh = DenShape(st, t)
             /\ Values(s2, t) = Denote(st, t)
        /\ Run(s2, log).cells = r.cells
\* the graphs, run in the order they were finished, agree with that unless a
\* context was still being filled meanwhile
GraphsOnly == st.ctxs = <<>>
InOrder ==
  (~EFFECTS /\ GraphsOnly) =>
    LET run == FoldLeft(LAMBDA s, g : [s EXCEPT !.cells = Run(s, g).cells], st, st.graphs)
    IN  run.cells = RunLog.cells

(***************************************************************************)
(* Scripts                                                                 *)
(***************************************************************************)
SeeAll == LET ts == SelectSeq(Idx(7), LAMBDA t : t <= 2 \/ st.tens[t].built)
          IN  [e |-> "see", v |-> [i \in 1..Len(ts) |-> [t |-> ts[i]]]]
\* all contexts are turned into graphs; everything is run in order; then single
\* graphs after a change of the inputs
Tail0 ==
  LET fs == [c \in 1..Len(st.ctxs) |-> [e |-> "from", c |-> c]]
      n  == Len(st.graphs) + Len(st.ctxs)
      runs == [g \in 1..n |-> [e |-> "exec", g |-> g]]
      ones == FlattenSeq([g \in 1..n |-> <<[e |-> "set", t |-> 1, ix |-> [i \in 1..Len(st.tens[1].sh) |-> 0], v |-> 100 + g], [e |-> "exec", g |-> n + 1 - g], SeeAll>>])
  IN  fs \o runs \o <<SeeAll>> \o runs \o <<SeeAll>> \o ones
Script == <<[e |-> "reset", mode |-> "i16", type |-> "int16"]>> \o Programs[prog] \o hist \o Tail0
Emit == (OUT # "" /\ Len(hist) = L) => PrintT("SCRIPT " \o ToJson([s |-> Script]))
=============================================================================
