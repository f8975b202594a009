---------------------------- MODULE NetWorldsTrace ----------------------------
(***************************************************************************)
(* Several network machines side by side.  A call belongs to one world and     *)
(* changes the state of that world only: the machine of the whole is the    *)
(* product of independent machines.  The recorded log holds the calls of    *)
(* all worlds in the order they were made (one at a time in a seeded order, *)
(* or freely concurrent from several goroutines); each is judged in its own *)
(* world.  A "reset" starts a new scenario, a "begin" starts a world.       *)
(***************************************************************************)
EXTENDS NetCalls, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Dead == [on |-> FALSE]

VARIABLES i,
          ws     \* the worlds: on (still judged) and st (the state of its machine)
vars == <<i, ws>>

Init == i = 0 /\ ws = <<>>
Call(w, ev) ==
  LET r == TLCEval(NStep(ws[w].st, ev))
  IN  /\ ws' = [ws EXCEPT ![w] = IF r.end THEN Dead ELSE [on |-> TRUE, st |-> r.st]]
      /\ (r.ok \/ PrintT(<<"BAD", i + 1, ev.e>>))
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i + 1] IN
     CASE ev.e = "reset" -> ws' = [w \in 1..ev.worlds |-> Dead]
       [] "world" \notin DOMAIN ev -> PrintT(<<"BAD", i + 1, ev.e>>) /\ UNCHANGED ws
       [] ev.e = "begin" -> ws' = [ws EXCEPT ![ev.world] = [on |-> TRUE, st |-> EmptyNet(ev.mode, ev.width)]]
       [] OTHER -> IF ws[ev.world].on THEN Call(ev.world, ev) ELSE UNCHANGED ws
Done == i = Len(Trace) => PrintT(<<"DONE", i>>)
Spec == Init /\ [][Next]_vars
\* no call reaches into another world
Separate == [][\A w \in DOMAIN ws \cap DOMAIN ws' :
                 (ws'[w] # ws[w] /\ Trace[i'].e # "reset") => Trace[i'].world = w]_vars
=============================================================================
