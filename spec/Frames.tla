------------------------------- MODULE Frames -------------------------------
(* Directions, rotations and projections in space, in integers.               *)
(*                                                                            *)
(* A vector is <<x, y, z>>.  A rotation is what it makes of the three axes:   *)
(* << image of x, image of y, image of z >>, each scaled by One.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

One == 10000

AbsV(n) == IF n < 0 THEN -n ELSE n
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
CrossV(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Minus3(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Times(k, a) == << k * a[1], k * a[2], k * a[3] >>
Per(a, k) == << a[1] \div k, a[2] \div k, a[3] \div k >>
Zero3 == <<0, 0, 0>>
Size1(a) == AbsV(a[1]) + AbsV(a[2]) + AbsV(a[3])      \* (a simple norm)
AllWithin(a, tol) == \A k \in 1..3 : AbsV(a[k]) <= tol

\* A vector, rotated; scaled by One
Rotated(R, v) == [k \in 1..3 |-> v[1] * R[1][k] + v[2] * R[2][k] + v[3] * R[3][k]]

Parallel(a, b) == CrossV(a, b) = Zero3
Opposite(a, b) == Parallel(a, b) /\ Dot(a, b) < 0
Perpendicular(a, b) == Dot(a, b) = 0

(* What every rotation is: lengths, angles and handedness are kept            *)
IsRotation(R) ==
  /\ \A i, j \in 1..3 : AbsV(Dot(R[i], R[j]) - (IF i = j THEN One * One ELSE 0)) <= 4 * One
  /\ AllWithin(Minus3(Per(CrossV(R[1], R[2]), One), R[3]), 6)

(* R turns direction a to direction b (to about a thousandth of a radian).    *)
Turns3(R, a, b) ==
  LET ra == Per(Rotated(R, a), Size1(a))        \* about One long
  IN AllWithin(CrossV(ra, b), 3 * Size1(b)) /\ Dot(ra, b) > 0

(* Aligning: the least rotation that does it; it keeps what's perpendicular to both *)
Aligns(R, a, b) ==
  { <<"rotation", IsRotation(R)>>, <<"aligned", Turns3(R, a, b)>>,
    <<"least", (~Parallel(a, b)) => Turns3(R, CrossV(a, b), CrossV(a, b))>>,
    <<"nothing to do", (Parallel(a, b) /\ ~Opposite(a, b)) =>
         \A k \in 1..3 : AllWithin(Minus3(R[k], [j \in 1..3 |-> IF j = k THEN One ELSE 0]), 1)>> }

(* p is what became of direction a (of unit length, scaled by Close) when      *)
(* aligned with an axis: that axis, however near to it, or to its opposite, a *)
(* was.                                                                       *)
Close == 100000000
Onto(p, b) == { <<"onto the axis", AllWithin(Minus3(p, Times(Close, b)), 20)>> }

(* Changing coordinate systems, both given by perpendicular directions        *)
Reorients(R, o1, o2, a1, a2) ==
  { <<"rotation", IsRotation(R)>>, <<"first", Turns3(R, o1, a1)>>, <<"second", Turns3(R, o2, a2)>>,
    <<"third", Turns3(R, CrossV(o1, o2), CrossV(a1, a2))>> }

(* p, scaled by 1000, is v without its part along n                           *)
Projects(p, v, n) ==
  { <<"in the plane", AbsV(Dot(p, n)) <= Size1(n)>>,
    <<"along the normal", AllWithin(CrossV(Minus3(Times(1000, v), p), n), 2 * Size1(n))>> }

(* The planes of the machine: their axes, right-handed, and their normal      *)
AxisX == <<1, 0, 0>>   AxisY == <<0, 1, 0>>   AxisZ == <<0, 0, 1>>
PlaneFrame == (17 :> <<AxisX, AxisY, AxisZ>> @@ 18 :> <<AxisZ, AxisX, AxisY>> @@ 19 :> <<AxisY, AxisZ, AxisX>>)
PlaneNormalLetter == (17 :> "Z" @@ 18 :> "Y" @@ 19 :> "X")
PlaneAxes == (17 :> {"X", "Y"} @@ 18 :> {"Z", "X"} @@ 19 :> {"Y", "Z"})
=============================================================================
