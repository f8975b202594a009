---------------------------- MODULE ScalarTrace -----------------------------
(***************************************************************************)
(* Trace validation of package scalar: conversion tables and a machine of   *)
(* scalar registers (kinds f16, f32, f64), every call of which is recorded  *)
(* with what all registers hold afterwards.                                 *)
(***************************************************************************)
EXTENDS Half, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, regs, live
vars == <<i, regs, live>>

NextF(p) == IF p[2] = 8388607 THEN <<p[1] + 1, 0>> ELSE <<p[1], p[2] + 1>>
HOf(s, e, m) == LET v == Val32(s, e, m) IN IF v = NaN THEN -1 ELSE HalfOf(v)
\* maximal ranges of float32 with one result, covering from..to completely;
\* conversion is monotone, so agreeing at both ends is agreeing within (NaN is a range of its own)
Steps(ev) ==
  LET iv == ev.iv
      n == Len(iv)
  IN  /\ n > 0
      /\ <<iv[1][1], iv[1][2]>> = ev.from /\ <<iv[n][3], iv[n][4]>> = ev.to
      /\ \A j \in 1..(n - 1) : NextF(<<iv[j][3], iv[j][4]>>) = <<iv[j + 1][1], iv[j + 1][2]>>
      /\ \A j \in 1..n : /\ HOf(ev.s, iv[j][1], iv[j][2]) = iv[j][5]
                         /\ HOf(ev.s, iv[j][3], iv[j][4]) = iv[j][5]

Denote(r) ==
  LET h == r.h
      v == Val(h)
  IN  IF v = NaN THEN r.g32[2] = 255 /\ r.g32[3] # 0 /\ r.g64[2] = 2047 /\ (r.g64[3] # 0 \/ r.g64[4] # 0)
                      /\ r.g32[1] = Sign(h) /\ AnyNaN(r.b32) /\ AnyNaN(r.b64)
      ELSE r.g32 = Fields32(v) /\ r.g64 = Fields64(v) /\ r.b32 = h /\ r.b64 = h
Classify(r) == r.c = Class(r.h)

\* every register as observed: bits (half only) and the numbers G32 and G64 give
Sees(rs, seen) ==
  /\ Len(seen) = Len(rs)
  /\ \A j \in 1..Len(rs) :
       /\ AgreesNum(rs[j].v, seen[j].g32) /\ AgreesNum(rs[j].v, seen[j].g64)
       /\ (rs[j].k = "f16" => AgreesHalf(rs[j].v, seen[j].h))

\* float32(v): exact for what the scenarios use, otherwise not determined
To32(v) == IF Finite(v) /\ ~IsZero3(v) /\ (v[2] >= 16777216 \/ v[3] > 100 \/ v[3] < -149) THEN Vague ELSE v

After(rs, ev) ==
  CASE ev.e = "new"  -> Append(rs, [k |-> ev.k, v |-> Store(ev.k, ev.v)])
    [] ev.e = "put"  -> [rs EXCEPT ![ev.a].v = Store(rs[ev.a].k, ev.v)]
    [] ev.e = "copy" -> Append(rs, rs[ev.a])
    [] ev.e = "op"   -> Append(rs, [k |-> rs[ev.a].k, v |-> Op(rs[ev.a].k, ev.op, rs[ev.a].v, To32(rs[ev.b].v))])
    [] ev.e = "self" -> [rs EXCEPT ![ev.a].v = Op(rs[ev.a].k, ev.op, rs[ev.a].v, To32(rs[ev.b].v))]
    [] OTHER -> rs

Cmp(rs, ev) == LET a == rs[ev.a].v
                   b == To32(rs[ev.b].v)
               IN  IF a = Vague \/ b = Vague THEN TRUE
                   ELSE IF a = NaN \/ b = NaN THEN ev.r = "="      \* neither less nor greater
                   ELSE ev.r = Order(a, b)

Step(rs, ev) ==
  CASE ev.e = "steps"  -> [ok |-> Steps(ev), st |-> rs]
    [] ev.e = "denote" -> [ok |-> \A j \in 1..Len(ev.l) : Denote(ev.l[j]) /\ Classify(ev.l[j]), st |-> rs]
    [] ev.e = "consts" -> [ok |-> AnyNaN(ev.nan) /\ ev.pinf = 31744 /\ ev.ninf = 64512, st |-> rs]
    [] ev.e = "cmp"    -> [ok |-> Cmp(rs, ev) /\ Sees(rs, ev.seen), st |-> rs]
    [] ev.e \in {"new", "put", "copy", "op", "self"} ->
         LET n == TLCEval(After(rs, ev)) IN [ok |-> Sees(n, ev.seen), st |-> n]
    [] OTHER -> [ok |-> FALSE, st |-> rs]

Init == i = 0 /\ regs = <<>> /\ live = FALSE
Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET ev == Trace[i + 1] IN
     IF ev.e = "reset" THEN regs' = <<>> /\ live' = TRUE
     ELSE IF ~live THEN UNCHANGED <<regs, live>>
     ELSE LET r == TLCEval(Step(regs, ev))
          IN  /\ regs' = r.st
              /\ live' = r.ok
              /\ (r.ok \/ PrintT(<<"BAD", i + 1, ev.e>>))
Done == i = Len(Trace) => PrintT(<<"DONE", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
