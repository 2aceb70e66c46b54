------------------------------ MODULE MC_Drill ------------------------------
(* Every sequence of moves the specification Drill allows, on a small grid,   *)
(* against a model of the material: what is cut is cut by feed moves, and a   *)
(* rapid into material that is not cut yet breaks the tool.                   *)
EXTENDS Drill, FiniteSets

CONSTANT Big    \* (the full grid, or a part of it)
Levels == 0..4
Places == 0..2
Cycles == { c \in [cycle : IF Big THEN {73, 81, 82, 83, 85, 89} ELSE {73, 83, 89},
                   given : { [X |-> x, Z |-> z, R |-> r, L |-> l, Q |-> q, P |-> 7] :
                             x \in (IF Big THEN {0, 1} ELSE {1}), z \in (IF Big THEN {-2, -1, 0, 1} ELSE {-2, 0}), r \in {0, 1, 2, 3},
                             l \in (IF Big THEN {1, 2} ELSE {2}), q \in {1, 2} },
                   from : { <<0, 0, z>> : z \in {1, 3} }, inc : BOOLEAN, toR : BOOLEAN] :
            /\ ~Impossible(c) /\ ~Open(c) /\ ~Flat(c) /\ Depth(c) >= 0 /\ RLevel(c) <= 4
            /\ (~Pecks(c) => c.given["Q"] = 1) }

VARIABLES c, s, cut, broken, steps, ended
vars == <<c, s, cut, broken, steps, ended>>
Init == /\ c \in Cycles /\ s = Begin(c) /\ cut = {} /\ broken = FALSE /\ steps = 0 /\ ended = FALSE

Ok(cl) == \A x \in cl : x[2]
\* material: everything below R, cell z is between z and z + 1
Solid(p) == { <<p[1], z>> : z \in { y \in -1..3 : y < RLevel(c) } } \ cut
Between(p, q) == { <<p[1], z>> : z \in MinI(p[3], q[3])..(MaxI(p[3], q[3]) - 1) }
Sweeps(p, q) == IF p[1] = q[1] THEN Between(p, q) ELSE { <<x, MinI(p[3], q[3])>> : x \in Places }

Targets == { <<x, 0, z>> : x \in Places, z \in Levels }
MoveTo(p, feed) ==
  /\ p # s.at /\ Ok(MoveClauses(c, s, p, feed))
  /\ broken' = (broken \/ (~feed /\ \E cell \in Sweeps(s.at, p) : cell[2] < RLevel(c) /\ cell \notin cut
                                     /\ ~(cell[2] >= c.from[3] /\ cell[1] = 0)))
  /\ cut' = IF feed THEN cut \cup Between(s.at, p) ELSE cut
  /\ s' = Move(c, s, p, feed)
DwellNow == Ok(DwellClauses(c, s, 7)) /\ s' = Dwell(c, s) /\ UNCHANGED <<cut, broken>>
End == ~ended /\ Ok(EndClauses(c, s)) /\ ended' = TRUE /\ UNCHANGED <<c, s, cut, broken, steps>>
Next == \/ /\ ~ended /\ c' = c /\ ended' = ended /\ steps' = 0
           /\ (DwellNow \/ \E p \in Targets, feed \in BOOLEAN : MoveTo(p, feed))
        \/ End
Spec == Init /\ [][Next]_vars

\* The column above where the tool starts is free (it is there)
NeverBreaks == ~broken
\* At the end, the holes are cut, and nothing else is (a tool that starts below R may drill on from there)
Columns == { HoleAt(c, k)[1] : k \in 1..HoleCount(c) }
CutAtEnd == ended =>
  /\ { cell \in cut : cell[2] < RLevel(c) } \subseteq Columns \X (Depth(c)..(RLevel(c) - 1))
  /\ Columns \X (Depth(c)..(MinI(RLevel(c), c.from[3]) - 1)) \subseteq cut
NeverBelow == \A cell \in cut : cell[2] >= Depth(c)
Inv == NeverBreaks /\ CutAtEnd /\ NeverBelow
CutFirst == s.phase \in {"bottom", "out"} => << HoleAt(c, s.done + 1)[1], Depth(c) >> \in cut
=============================================================================
