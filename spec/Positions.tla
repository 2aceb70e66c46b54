------------------------------ MODULE Positions -----------------------------
(* Positions: an abstract data type.  A position has axes, a unit and a       *)
(* coordinate for each axis.  Coordinates are lengths (in thousandths of an   *)
(* inch), so that changing the unit only changes the label: the number shown  *)
(* in millimetres is 25.4 times the one shown in inches.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

PossibleAxes == {"X","Y","Z","A","B","C","U","V","W"}
Units == {"in", "mm"}
P(ax, u, v) == [ax |-> ax, u |-> u, v |-> v]
Rejected == [ok |-> FALSE]
Ok(p) == [ok |-> TRUE, p |-> p]

\* coords: some coordinates, the other axes' are zero
New(ax, u, coords) ==
  IF ~(ax \subseteq PossibleAxes) \/ ~(DOMAIN coords \subseteq ax) THEN Rejected
  ELSE Ok(P(ax, u, [a \in ax |-> IF a \in DOMAIN coords THEN coords[a] ELSE 0]))

Add(p, q) == IF p.ax # q.ax \/ p.u # q.u THEN Rejected ELSE Ok(P(p.ax, p.u, [a \in p.ax |-> p.v[a] + q.v[a]]))
Sub(p, q) == IF ~(q.ax \subseteq p.ax) \/ p.u # q.u THEN Rejected
             ELSE Ok(P(p.ax, p.u, [a \in p.ax |-> p.v[a] - (IF a \in q.ax THEN q.v[a] ELSE 0)]))
Scale(p, n) == Ok(P(p.ax, p.u, [a \in p.ax |-> n * p.v[a]]))
\* exact division only
Divide(p, n) == Ok(P(p.ax, p.u, [a \in p.ax |-> p.v[a] \div n]))
Divisible(p, n) == n # 0 /\ \A a \in p.ax : p.v[a] % n = 0
InUnit(p, u) == Ok([p EXCEPT !.u = u])
Put(p, coords) == IF ~(DOMAIN coords \subseteq p.ax) THEN Rejected
                  ELSE Ok([p EXCEPT !.v = [a \in p.ax |-> IF a \in DOMAIN coords THEN coords[a] ELSE p.v[a]]])
Same(p, q) == p.ax = q.ax /\ p.v = q.v
Lower(x, y) == IF x < y THEN x ELSE y
Upper(x, y) == IF x > y THEN x ELSE y
Corner(F(_, _), p, q) == IF ~(p.ax \subseteq q.ax) THEN Rejected
                         ELSE Ok(P(p.ax, p.u, [a \in p.ax |-> F(p.v[a], q.v[a])]))
MinOf(p, q) == Corner(Lower, p, q)
MaxOf(p, q) == Corner(Upper, p, q)
=============================================================================
