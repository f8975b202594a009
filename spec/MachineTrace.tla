---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Trace validation: the recorded calls of the real library (one JSON       *)
(* object per line) must be a behaviour of the tensor machine.  Scenarios   *)
(* start with a "reset" event; a scenario whose outcome disagrees is        *)
(* reported and skipped to the next reset, so that one run judges all.      *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, live
vars == <<i, st, live>>

Init == i = 0 /\ st = EmptySt("i16") /\ live = FALSE
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i + 1] IN
     IF ev.e = "reset" THEN st' = EmptySt(ev.mode) /\ live' = TRUE
     ELSE IF ~live THEN UNCHANGED <<st, live>>
     ELSE LET r == TLCEval(Step(st, ev))
          IN  /\ st' = r.st
              /\ live' = ~r.end
              /\ (r.ok \/ PrintT(<<"BAD", i + 1, ev.e>>))
Done == i = Len(Trace) => PrintT(<<"DONE", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
