----------------------------- MODULE ImageCases -----------------------------
(***************************************************************************)
(* Every scaling of a picture of up to B x B to up to B+1 x B+1, as scripts *)
(* for the real library, judged by ImageTrace.                              *)
(***************************************************************************)
EXTENDS Image, SequencesExt, Json, IOUtils

B == atoi(IOEnv.BOUND)
Cases == {<<c, W, H, w, h>> : c \in {1, 2}, W \in 1..B, H \in 1..B, w \in 1..(B + 1), h \in 1..(B + 1)}
Pixel(j) == (j * 37 + (j \div 3) * 11) % 101
Script(q) == <<[e |-> "pic", sh |-> <<q[1], q[2], q[3]>>, d |-> [j \in 1..(q[1] * q[2] * q[3]) |-> Pixel(j)]],
               [e |-> "simple", p |-> 1, w |-> q[4], h |-> q[5]],
               [e |-> "smooth", p |-> 1, w |-> q[4], h |-> q[5]]>>
CaseSeq == SetToSeq(Cases)
ASSUME /\ ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(CaseSeq) |-> [s |-> Script(CaseSeq[k])]])
       /\ PrintT(<<"CASES", Len(CaseSeq)>>)
\* the specification itself: unchanged size gives the picture back, and every mix
\* lies between its neighbours, so a uniform picture stays uniform
ASSUME \A q \in Cases :
  LET sh == <<q[1], q[2], q[3]>>
      d == [j \in 1..Count(sh) |-> Pixel(j)]
      u == [j \in 1..Count(sh) |-> 7]
  IN  /\ (q[4] = q[2] /\ q[5] = q[3]) =>
            /\ Simple(sh, d, q[4], q[5]) = d
            /\ SmoothWH(sh, d, q[4], q[5]) = [j \in 1..Count(sh) |-> d[j] * q[4] * q[5]]
      /\ \A j \in 1..(q[1] * q[4] * q[5]) : SmoothWH(sh, u, q[4], q[5])[j] = 7 * q[4] * q[5]
=============================================================================
