----------------------------- MODULE TR_Frames ------------------------------
(* Recorded uses of the geometric helpers, each judged by itself; the         *)
(* vectors given are not changed by any of them.                              *)
EXTENDS Frames, TraceIO

VARIABLES t, i
vars == <<t, i>>
TraceInit == t \in 1..Len(Traces) /\ i = 0

Clauses(e) ==
  { <<"answered", e.res = "ok">>, <<"arguments", e.kept>> } \cup
  (IF e.res # "ok" THEN {}
   ELSE CASE e.op = "align" -> Aligns(e.R, e.a, e.b)
          [] e.op = "onto" -> Onto(e.p, e.b)
          [] e.op = "frame" -> Reorients(e.R, e.o[1], e.o[2], e.to[1], e.to[2])
          [] e.op = "known" -> { <<"the rotation", \A k \in 1..3 : AllWithin(Minus3(e.R[k], Times(One, e.want[k])), 1)>> }
          [] e.op = "project" -> Projects(e.p, e.v, e.n)
          [] e.op = "plane" ->
               LET f == PlaneFrame[e.plane] IN
               Reorients(e.R, AxisX, AxisY, f[1], f[2]) \cup
               { <<"normal", e.normal = Times(One, f[3])>>, <<"normal axis", e.letter = PlaneNormalLetter[e.plane]>>,
                 <<"axes", { e.axes[k] : k \in DOMAIN e.axes } = PlaneAxes[e.plane]>> })

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET bad == Broken(Clauses(Traces[t][i + 1])) IN
     IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
  /\ i' = i + 1
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
