------------------------------ MODULE ActTrace ------------------------------
(***************************************************************************)
(* Trace validation of package activation: recorded evaluations of the      *)
(* functions and their derivatives against the relations of Activations.    *)
(***************************************************************************)
EXTENDS Activations, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, live
vars == <<i, live>>

Ok(ev) ==
  LET acc == Acc(ev.type)
  IN  CASE ev.e = "eval" -> ev.fine /\ SlopeOk(ev.f, ev.x, ev.ys, ev.d, acc) /\ ValueOk(ev.f, ev.x, ev, acc)
        [] ev.e = "far"  -> ev.fine /\ FarOk(ev.f, ev, acc)
        [] ev.e = "tiny" -> ev.fine /\ TinyOk(ev.f, ev)
        \* whole numbers: the identity and the rectifier are exact
        [] ev.e = "int"  -> IF ev.f = "linear" \/ ev.x >= 0
                            THEN ev.y = ev.x /\ (ev.d = 1 \/ (ev.x = 0 /\ ev.f = "relu"))
                            ELSE ev.y = ev.a * ev.x /\ ev.d = ev.a
        [] OTHER -> FALSE

Init == i = 0 /\ live = FALSE
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i + 1] IN
     IF ev.e = "reset" THEN live' = TRUE
     ELSE IF ~live THEN UNCHANGED live
     ELSE LET r == TLCEval(Ok(ev))
          IN  live' = r /\ (r \/ PrintT(<<"BAD", i + 1, ev.e>>))
Done == i = Len(Trace) => PrintT(<<"DONE", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
