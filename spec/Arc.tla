--------------------------------- MODULE Arc --------------------------------
(* Arcs, and the straight lines that may stand for one.                       *)
(*                                                                            *)
(* Lengths are integers, in a unit small against the arc's radius (the driver *)
(* chooses it); Tol(cmd) is what rounding to that unit may cost.              *)
(*                                                                            *)
(* A command:                                                                 *)
(*   [ccw, plane, inc, incarc, from, given, e, method, rnd, slk, c, r]        *)
(*   from   <<x, y, z>>      start                                            *)
(*   given  parameters as a function from letters                             *)
(*   e      requested maximum error                                           *)
(*   method "inside" | "outside" | "mid"                                      *)
(*   slk    what the words of a centre form may be rounded by                 *)
(*   c, r   witnesses for the centre <<u, v>> (in the plane) and the radius   *)
EXTENDS Trig, FiniteSets, TLC

\* In-plane axes (in right-handed order) and normal axis, as indices of x, y, z
PlaneU == (17 :> 1 @@ 18 :> 3 @@ 19 :> 2)
PlaneV == (17 :> 2 @@ 18 :> 1 @@ 19 :> 3)
PlaneN == (17 :> 3 @@ 18 :> 2 @@ 19 :> 1)
AxisLetter == <<"X", "Y", "Z">>
CentreLetter == <<"I", "J", "K">>

InPlane(cmd, p) == << p[PlaneU[cmd.plane]], p[PlaneV[cmd.plane]] >>
Height(cmd, p) == p[PlaneN[cmd.plane]]

Has(cmd, l) == l \in DOMAIN cmd.given
EndOf(cmd) == [k \in 1..3 |->
  IF ~Has(cmd, AxisLetter[k]) THEN cmd.from[k]
  ELSE IF cmd.inc THEN cmd.from[k] + cmd.given[AxisLetter[k]] ELSE cmd.given[AxisLetter[k]]]

AxesGiven(cmd) == \E l \in {"X","Y","Z"} : Has(cmd, l)
CentreGiven(cmd) == \E l \in {"I","J","K"} : Has(cmd, l)
RadiusGiven(cmd) == Has(cmd, "R")
Turns(cmd) == IF Has(cmd, "P") THEN MaxI(1, cmd.given["P"]) ELSE 1

\* The centre of the centre form
GivenCentre(cmd) ==
  LET val(k) == IF Has(cmd, CentreLetter[k]) THEN cmd.given[CentreLetter[k]] ELSE 0
      p == [k \in 1..3 |-> val(k) + (IF cmd.incarc THEN cmd.from[k] ELSE 0)]
  IN InPlane(cmd, p)

Tol(cmd) == 3 + 2 * cmd.rnd + 3 * cmd.slk                 \* of a length
Around(x, y, tol) == Abs(x - y) <= tol

Chord2(cmd) == Norm2(Minus(InPlane(cmd, EndOf(cmd)), InPlane(cmd, cmd.from)))
SamePoint(cmd) == Chord2(cmd) = 0

(* Arcs that cannot be, or that more than one arc could be                    *)
Impossible(cmd) ==
  \/ CentreGiven(cmd) /\ RadiusGiven(cmd)
  \/ ~CentreGiven(cmd) /\ ~RadiusGiven(cmd)
  \/ RadiusGiven(cmd) /\ cmd.given["R"] = 0
  \/ RadiusGiven(cmd) /\ SamePoint(cmd)
  \/ RadiusGiven(cmd) /\ 2 * Abs(cmd.given["R"]) + Tol(cmd) < ISqrt(Chord2(cmd))
  \/ CentreGiven(cmd) /\ ~RadiusGiven(cmd) /\ GivenCentre(cmd) = InPlane(cmd, cmd.from)
                      /\ SamePoint(cmd)

(* Do the witnesses describe the arc of the command?                          *)
Witnessed(cmd) ==
  LET s == Minus(InPlane(cmd, cmd.from), cmd.c)
      f == Minus(InPlane(cmd, EndOf(cmd)), cmd.c)
      near == 2 + cmd.slk
  IN /\ Around(ISqrt(Norm2(s)), cmd.r, near)
     /\ Around(ISqrt(Norm2(f)), cmd.r, near)
     /\ IF CentreGiven(cmd)
        THEN LET g == GivenCentre(cmd) IN Around(cmd.c[1], g[1], near) /\ Around(cmd.c[2], g[2], near)
        ELSE /\ Around(Abs(cmd.given["R"]), cmd.r, 2)
             \* less than half a turn for R > 0: the centre is on the left of the chord if the arc turns left
             /\ LET side == Cross(Minus(f, s), <<-s[1], -s[2]>>)
                    left == cmd.ccw = (cmd.given["R"] > 0)
                IN IF Abs(side) <= 4 * cmd.r THEN TRUE      \* half a turn
                   ELSE IF left THEN side > 0 ELSE side < 0

(* Specified arcs: possible, with known centre, not all but a point           *)
Valid(cmd) ==
  /\ AxesGiven(cmd) /\ ~Impossible(cmd) /\ Witnessed(cmd)
  /\ cmd.r > 100 /\ cmd.e > 0
  /\ SamePoint(cmd) \/ Chord2(cmd) > (20 + 4 * cmd.slk) * (20 + 4 * cmd.slk)

(* Angle turned from p to q (about the centre, in the commanded direction),   *)
(* in [0, Turn).                                                              *)
Turned(cmd, p, q) ==
  LET d == AngleOf(q[1], q[2]) - AngleOf(p[1], p[2]) IN
  IF cmd.ccw THEN (d + Turn) % Turn ELSE (Turn - d) % Turn

TolAngle(cmd) == 3 + (12000 * Tol(cmd)) \div cmd.r     \* of an angle

\* The whole arc's angle
Sweep(cmd) ==
  LET s == Minus(InPlane(cmd, cmd.from), cmd.c)
      f == Minus(InPlane(cmd, EndOf(cmd)), cmd.c)
      one == IF SamePoint(cmd) THEN Turn ELSE Turned(cmd, s, f)
  IN one + Turn * (Turns(cmd) - 1)

(* State while the lines are followed: where the tool is, how far it turned.  *)
Begin(cmd) == [at |-> cmd.from, swept |-> 0]

\* a step's angle; a step slightly backwards is negative
StepAngle(cmd, a, b) ==
  LET d == Turned(cmd, a, b) IN IF d > Turn - 2 * TolAngle(cmd) THEN d - Turn ELSE d

Follow(cmd, st, p) ==
  LET a == Minus(InPlane(cmd, st.at), cmd.c)
      b == Minus(InPlane(cmd, p), cmd.c)
  IN [at |-> p, swept |-> st.swept + StepAngle(cmd, a, b)]

\* Deviation: every point of the line is within the error of the circle
AllowedError(cmd) == MinI(cmd.e, cmd.r)
WithinError(cmd, a, b) ==
  LET far == MaxI(Norm2(a), Norm2(b))
      out == cmd.r + AllowedError(cmd) + Tol(cmd)
      in == MaxI(0, cmd.r - AllowedError(cmd) - Tol(cmd))
  IN IF far > out * out THEN FALSE ELSE Norm2(Closest(a, b)) >= in * in
NeverOutside(cmd, a, b) == LET m == cmd.r + Tol(cmd) IN Norm2(a) <= m * m /\ Norm2(b) <= m * m
NeverInside(cmd, a, b) == LET m == cmd.r - Tol(cmd) IN Norm2(Closest(a, b)) >= m * m

\* What the methods promise: lines end on the circle; touch it; or stray as far
\* to the outside (at their ends) as to the inside (in the middle)
EndsOnCircle(cmd, b) == Around(ISqrt(Norm2(b)), cmd.r, Tol(cmd))
Touches(cmd, a, b) == Around(ISqrt(Norm2(Closest(a, b))), cmd.r, Tol(cmd) + 1)
Balanced(cmd, a, b) ==
  LET ra == ISqrt(Norm2(a))
      rb == ISqrt(Norm2(b))
      out == MinI(ra, rb) - cmd.r
      in == cmd.r - ISqrt(Norm2(Closest(a, b)))
  IN (out > 2 * Tol(cmd) /\ Around(ra, rb, 2 * Tol(cmd))) => Around(in, out, 3 * Tol(cmd) + 2)

\* Distance to the helix: of a vertex that is off by `off' along the normal,
\* and by how much its distance from the axis differs from the radius.
\* (rise: advance along the normal per radian; moving along a steep helix may
\* be the shorter way to it)
NearHelix(cmd, b, off, rise) ==
  IF Abs(rise) > 30000 \/ off <= 0 THEN TRUE
  ELSE LET away == (off * cmd.r) \div (ISqrt(cmd.r * cmd.r + rise * rise) + 1)
           rho == MaxI(0, Abs(ISqrt(Norm2(b)) - cmd.r) - Tol(cmd))
           most == AllowedError(cmd) + Tol(cmd)
       IN IF away > most \/ rho > most THEN FALSE ELSE away * away + rho * rho <= most * most

LineClauses(cmd, st, p) ==
  LET a == Minus(InPlane(cmd, st.at), cmd.c)
      b == Minus(InPlane(cmd, p), cmd.c)
      nx == Follow(cmd, st, p)
      total == Sweep(cmd)
      dz == Height(cmd, EndOf(cmd)) - Height(cmd, cmd.from)
      z == Height(cmd, cmd.from) + (dz * nx.swept) \div total
      tolz == Tol(cmd) + 1 + (Abs(dz) * 2 * TolAngle(cmd)) \div total
      rise == (dz * 10000) \div total
      off == MinI(60000, Abs(Height(cmd, p) - z)) - tolz
  IN { <<"C17:within-error", WithinError(cmd, a, b)>>,
       <<"C17:near-helix", NearHelix(cmd, b, off, rise)>>,
       <<"C17:inside-method", cmd.method = "inside" => NeverOutside(cmd, a, b)>>,
       <<"C17:outside-method", (cmd.method = "outside" /\ WithinError(cmd, a, b)) => NeverInside(cmd, a, b)>>,
       <<"C17:inside-ends-on-arc", cmd.method = "inside" => EndsOnCircle(cmd, b)>>,
       <<"C17:outside-touches", (cmd.method = "outside" /\ WithinError(cmd, a, b)) => Touches(cmd, a, b)>>,
       <<"C17:mid-balanced", (cmd.method = "mid" /\ WithinError(cmd, a, b)) => Balanced(cmd, a, b)>>,
       <<"C18:direction", StepAngle(cmd, a, b) <= Pi + 2 * TolAngle(cmd)>>,
       <<"C18:not-too-far", nx.swept <= total + TolAngle(cmd)>>,
       <<"C18:helix", Around(Height(cmd, p), z, tolz)>> }

\* after the last line
EndClauses(cmd, st) ==
  LET e == EndOf(cmd) IN
  { <<"C18:end", \A k \in 1..3 : Around(st.at[k], e[k], cmd.rnd + 2)>>,
    <<"C17:covers", Around(st.swept, Sweep(cmd), 2 * TolAngle(cmd))>>,
    <<"C18:sweep", Around(st.swept, Sweep(cmd), 2 * TolAngle(cmd))>> }
=============================================================================
