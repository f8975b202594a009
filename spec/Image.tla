------------------------------- MODULE Image --------------------------------
(***************************************************************************)
(* Pictures: tensors of shape <<channels, width, height>>, given as         *)
(* [sh, d] with d the row-major values.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b

\* flat position (1-based) of channel c, column x, row y (0-based)
At(sh, c, x, y) == (c * sh[2] + x) * sh[3] + y + 1
Coord(sh, j) == <<(j - 1) \div (sh[2] * sh[3]), ((j - 1) \div sh[3]) % sh[2], (j - 1) % sh[3]>>
Count(sh) == sh[1] * sh[2] * sh[3]

IsImage(sh) == Len(sh) = 3
IsRGBA(sh) == Len(sh) = 3 /\ sh[1] >= 4

\* simple scaling to w x h: target column x shows source column floor(x * W / w)
ScaledShape(sh, w, h) == <<sh[1], w, h>>
Simple(sh, d, w, h) ==
  LET ns == ScaledShape(sh, w, h)
  IN  [j \in 1..Count(ns) |-> LET p == Coord(ns, j)
                              IN  d[At(sh, p[1], (p[2] * sh[2]) \div w, (p[3] * sh[3]) \div h)]]

\* smooth scaling: the bilinear mix, multiplied by w*h (an integer for integer pixels)
SmoothWH(sh, d, w, h) ==
  LET ns == ScaledShape(sh, w, h)
  IN  [j \in 1..Count(ns) |->
         LET p == Coord(ns, j)
             X == (p[2] * sh[2]) \div w      fx == (p[2] * sh[2]) % w
             Y == (p[3] * sh[3]) \div h      fy == (p[3] * sh[3]) % h
             X1 == MinI(X + 1, sh[2] - 1)
             Y1 == MinI(Y + 1, sh[3] - 1)
         IN  (w - fx) * (h - fy) * d[At(sh, p[1], X, Y)] + fx * (h - fy) * d[At(sh, p[1], X1, Y)]
             + (w - fx) * fy * d[At(sh, p[1], X, Y1)] + fx * fy * d[At(sh, p[1], X1, Y1)]]
TruncI(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
\* whole-number pixels are truncated; what is whole already may come out one lower
\* (the weights are computed in floating point)
SmoothInt(v, wh, o) == o = TruncI(v, wh) \/ (v % wh = 0 /\ AbsI(o * wh - v) <= wh)

\* a picture seen in tensor values: unit 1/65535 per step, 8-bit levels are 257 steps
Level(v8) == v8 * 257
\* a tensor value v (in 65535ths) as an 8-bit level: floor(255 v), one lower if that is whole
EightBit(v, o) == LET q == (v * 255) \div 65535
                  IN  o = q \/ ((v * 255) % 65535 = 0 /\ o = q - 1)
=============================================================================
