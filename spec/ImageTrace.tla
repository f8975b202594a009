----------------------------- MODULE ImageTrace -----------------------------
(***************************************************************************)
(* Trace validation of package img.  State: the picture tensors made so far *)
(* (shape and values), and the files written (shape and 65535ths).        *)
(* Values of pictures loaded from files are counted in 65535ths, values of  *)
(* other pictures are whole numbers; smooth results are recorded times 1e4. *)
(***************************************************************************)
EXTENDS Image, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, live
vars == <<i, st, live>>

St0 == [pics |-> <<>>, files |-> <<>>]
Yes(s) == [ok |-> TRUE, st |-> s]
If(c, s) == [ok |-> c, st |-> s]
AddPic(s, sh, d) == [s EXCEPT !.pics = Append(@, [sh |-> sh, d |-> d])]
AddFile(s, sh, d, k) == [s EXCEPT !.files = Append(@, [sh |-> sh, d |-> d, k |-> k])]

\* nothing else changed
Kept(s, ev) == Len(ev.kept) = Len(s.pics) /\ \A j \in 1..Len(s.pics) : ev.kept[j]

SimpleStep(s, ev) ==
  LET p == s.pics[ev.p]
  IN  IF ~IsImage(p.sh) THEN If(ev.r = "err" /\ Kept(s, ev), s)
      ELSE LET v == TLCEval(Simple(p.sh, p.d, ev.w, ev.h))
           IN  If(ev.r = "ok" /\ ev.sh = ScaledShape(p.sh, ev.w, ev.h) /\ ev.d = v /\ Kept(s, ev),
                  AddPic(s, ScaledShape(p.sh, ev.w, ev.h), v))

\* ev.x: observed values times 1e4 (rounded) for floating-point pictures, plain for whole numbers
SmoothStep(s, ev) ==
  LET p == s.pics[ev.p]
  IN  IF ~IsImage(p.sh) THEN If(ev.r = "err" /\ Kept(s, ev), s)
      ELSE LET v == TLCEval(SmoothWH(p.sh, p.d, ev.w, ev.h))
               wh == ev.w * ev.h
           IN  If(/\ ev.r = "ok" /\ ev.sh = ScaledShape(p.sh, ev.w, ev.h) /\ Len(ev.x) = Len(v) /\ Kept(s, ev)
                  /\ \A j \in 1..Len(v) : IF ev.int THEN SmoothInt(v[j], wh, ev.x[j])
                                          ELSE AbsI(ev.x[j] * wh - v[j] * 10000) <= 2 * wh, s)

\* a file written by the driver or the library: values per channel r,g,b,a
LoadStep(s, ev) ==
  LET f == s.files[ev.file]
      sh == <<4, f.sh[2], f.sh[3]>>
      want == CASE ev.how = "plain" -> f.d
                [] ev.how = "simple" -> Simple(sh, f.d, ev.w, ev.h)
                [] OTHER -> <<>>
  IN  IF f.k = "junk" THEN If(ev.r = "err" /\ Kept(s, ev), s)
      ELSE IF ev.how = "smooth"
      THEN LET v == TLCEval(SmoothWH(sh, f.d, ev.w, ev.h))
               wh == ev.w * ev.h
           IN  If(/\ ev.r = "ok" /\ ev.sh = ScaledShape(sh, ev.w, ev.h) /\ Len(ev.d) = Len(v) /\ Kept(s, ev)
                  /\ \A j \in 1..Len(v) : AbsI(ev.d[j] * wh - v[j]) <= wh, s)
      ELSE If(/\ ev.r = "ok"
              /\ ev.sh = (IF ev.how = "plain" THEN sh ELSE ScaledShape(sh, ev.w, ev.h))
              /\ Len(ev.d) = Len(want) /\ Kept(s, ev)
              /\ \A j \in 1..Len(want) : ev.d[j] = want[j], s)

\* ToImg / PngSave / JpgSave of a tensor with values in 65535ths (only its first four channels);
\* ev.d: the 8-bit levels seen in the picture (PNG decoded by the standard library)
SaveStep(s, ev) ==
  LET p == s.pics[ev.p]
      n == 4 * p.sh[2] * p.sh[3]
  IN  IF ~IsRGBA(p.sh) \/ ev.bad THEN If(ev.r = "err" /\ Kept(s, ev), s)
      ELSE If(/\ ev.r = "ok" /\ ev.sh = <<4, p.sh[2], p.sh[3]>> /\ Len(ev.d) = n /\ Kept(s, ev)
              /\ \A j \in 1..n : IF ev.how = "jpg" THEN AbsI(ev.d[j] - (p.d[j] * 255) \div 65535) <= 12
                                 ELSE EightBit(p.d[j], ev.d[j]),
              IF ev.how = "png" THEN AddFile(s, ev.sh, [j \in 1..n |-> Level(ev.d[j])], "png") ELSE s)

Step(s, ev) ==
  CASE ev.e = "pic"    -> Yes(AddPic(s, ev.sh, ev.d))
    [] ev.e = "file"   -> Yes(AddFile(s, ev.sh, ev.d, ev.k))
    [] ev.e = "poke"   -> LET n == [s EXCEPT !.pics[ev.p].d[ev.j] = ev.v] IN If(Kept(n, ev), n)
    [] ev.e = "simple" -> SimpleStep(s, ev)
    [] ev.e = "smooth" -> SmoothStep(s, ev)
    [] ev.e = "load"   -> LoadStep(s, ev)
    [] ev.e = "save"   -> SaveStep(s, ev)
    [] OTHER -> [ok |-> FALSE, st |-> s]

Init == i = 0 /\ st = St0 /\ live = FALSE
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i + 1] IN
     IF ev.e = "reset" THEN st' = St0 /\ live' = TRUE
     ELSE IF ~live THEN UNCHANGED <<st, live>>
     ELSE LET r == TLCEval(Step(st, ev))
          IN  /\ st' = r.st
              /\ live' = r.ok
              /\ (r.ok \/ PrintT(<<"BAD", i + 1, ev.e>>))
Done == i = Len(Trace) => PrintT(<<"DONE", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
