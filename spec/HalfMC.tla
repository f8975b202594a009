------------------------------- MODULE HalfMC -------------------------------
(***************************************************************************)
(* Checks of the half-precision specification itself, on every half:       *)
(* it denotes a number that converts back to it; the numbers grow with the *)
(* bit pattern; and conversion goes to the nearest half, the even one at    *)
(* the middle between two.                                                 *)
(***************************************************************************)
EXTENDS Half

VARIABLE h
Init == h \in {1024 * k : k \in 0..30}
Next == h % 1024 < 1023 /\ h' = h + 1
Spec == Init /\ [][Next]_h

\* n * 2^x in units of 2^y
In(v, y) == v[2] * P2[v[3] - y]
Nearest ==
  LET a == Val(h)
      \* the last half is followed by infinity, which stands for 65536 here
      b == IF h = 31743 THEN <<0, 1, 16>> ELSE Val(h + 1)
      x == IF h < 2048 THEN -24 ELSE Ex(h) - 25
      na == In(a, x) nb == In(b, x)
      \* in units of 2^(x-14): below, at and above the middle
      mid == (na + nb) * P2[13]
  IN  /\ HalfOf(a) = h
      /\ nb = na + 1
      /\ Magnitude(mid, 1, x - 14) = (IF h % 2 = 0 THEN h ELSE h + 1)
      /\ Magnitude(mid - 1, 1, x - 14) = h
      /\ Magnitude(mid + 1, 1, x - 14) = h + 1
      /\ Order(a, b) = "<" /\ Order(b, a) = ">" /\ Order(a, a) = "="
      /\ Val32(Fields32(a)[1], Fields32(a)[2], Fields32(a)[3]) = a
      /\ OpHalf("add", a, <<1, 0, 0>>) = a
      /\ OpHalf("mul", a, <<0, 1, 0>>) = a
      /\ OpHalf("div", a, <<1, 1, 0>>) = Neg3(a)
      /\ h > 0 => OpHalf("div", a, a) = <<0, 1, 0>>
      /\ OpHalf("sub", a, a) = <<0, 0, 0>>
      /\ OpHalf("add", a, a) = (IF h >= 30720 THEN Inf(0) ELSE IF h = 0 THEN a ELSE <<0, a[2], a[3] + 1>>)
=============================================================================
