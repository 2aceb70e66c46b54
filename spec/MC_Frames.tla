----------------------------- MODULE MC_Frames ------------------------------
(* The rotations that keep the axes' directions: all that can be reached by   *)
(* aligning axes with axes.  Each pair of right-handed frames has exactly one *)
(* rotation between them, and aligning twice gives it.                        *)
EXTENDS Frames

Dirs == { <<s, 0, 0>> : s \in {1, -1} } \cup { <<0, s, 0>> : s \in {1, -1} } \cup { <<0, 0, s>> : s \in {1, -1} }
Frames2 == { <<a, b>> \in Dirs \X Dirs : Dot(a, b) = 0 }
\* exact rotations: images of the axes (not scaled)
Exact == { <<a, b, CrossV(a, b)>> : <<a, b>> \in Frames2 }
Ident == <<AxisX, AxisY, AxisZ>>
Turn3(R, v) == [k \in 1..3 |-> v[1] * R[1][k] + v[2] * R[2][k] + v[3] * R[3][k]]
After(Q, R) == << Turn3(Q, R[1]), Turn3(Q, R[2]), Turn3(Q, R[3]) >>      \* first R, then Q

\* the rotations that may align a with b
Least(a, b) == { R \in Exact : Turn3(R, a) = b /\ (IF Parallel(a, b) THEN (IF a = b THEN R = Ident ELSE
                                                     \E n \in Dirs : Dot(n, a) = 0 /\ Turn3(R, n) = n)
                                                   ELSE Turn3(R, CrossV(a, b)) = CrossV(a, b)) }

VARIABLES R, from, to
vars == <<R, from, to>>
Init == R = Ident /\ from = <<>> /\ to = <<>>

\* one frame is turned onto another in two alignments
Next == /\ from = <<>>
        /\ \E f, g \in Frames2 :
             /\ from' = f /\ to' = g
             /\ \E Q1 \in Least(f[1], g[1]) :
                  LET second == Turn3(Q1, f[2]) IN
                  \E Q2 \in { Q \in Least(second, g[2]) : Turn3(Q, g[1]) = g[1] } :
                     R' = After(Q2, Q1)

TypeOK == R \in Exact
Unique == from # <<>> => { Q \in Exact : Turn3(Q, from[1]) = to[1] /\ Turn3(Q, from[2]) = to[2] } = {R}
Third == from # <<>> => Turn3(R, CrossV(from[1], from[2])) = CrossV(to[1], to[2])
Always == (from = <<>>) => \A f, g \in Frames2 : Least(f[1], g[1]) # {}
\* (the scaled predicates agree with the exact ones)
Scaled(Q) == << Times(One, Q[1]), Times(One, Q[2]), Times(One, Q[3]) >>
Agree == from # <<>> => { c \in Reorients(Scaled(R), from[1], from[2], to[1], to[2]) : ~c[2] } = {}
Refute == from # <<>> => \A Q \in Exact \ {R} : { c \in Reorients(Scaled(Q), from[1], from[2], to[1], to[2]) : ~c[2] } # {}
Emit == from # <<>> => PrintT("FRAME|" \o ToString(from) \o "|" \o ToString(to) \o "|" \o ToString(R))
=============================================================================
