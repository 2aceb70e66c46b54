------------------------------- MODULE MC_Omit ------------------------------
(* Every program of a few commands: blanking exactly those words that may be  *)
(* blanked leaves the execution as it is, and blanking any other changes it.  *)
EXTENDS Omit
CONSTANT Depth

W(l, v) == <<l, v>>
Cmds == {
  Cmd(W("G", 0), {W("X", 1000)}), Cmd(W("G", 0), {W("Y", 2000)}), Cmd(W("G", 0), {}),
  Cmd(W("G", 10), {W("X", 1000), W("Z", -500)}), Cmd(W("G", 10), {W("Z", 1000)}),
  Cmd(W("G", 20), {W("X", 2000), W("R", 5000)}), Cmd(W("G", 20), {W("Y", 1000), W("I", 500), W("J", 0)}),
  Cmd(W("G", 810), {W("X", 1000), W("Z", -1000), W("R", 1000)}), Cmd(W("G", 810), {W("Y", 1000)}),
  Cmd(W("G", 810), {W("X", 2000), W("Z", -2000), W("R", 500), W("L", 2)}),
  Cmd(W("G", 820), {W("X", 1000), W("Z", -1000), W("R", 1000), W("P", 500)}),
  Cmd(W("G", 820), {W("X", 1000), W("Z", -1000), W("R", 2000)}), Cmd(W("G", 820), {W("Z", -1000), W("R", 2000), W("P", 1000)}),
  Cmd(W("G", 800), {}), Cmd(W("G", 40), {W("P", 500)}), Cmd(W("G", 910), {}), Cmd(W("G", 900), {}),
  Cmd(W("G", 180), {}), Cmd(W("G", 990), {}), Cmd(W("F", 100000), {}) }

VARIABLES m, n, last
vars == <<m, n, last>>
Init == m = Fresh({"X", "Y", "Z"}, FALSE) /\ n = 0 /\ last = <<Cmd(W("G", 900), {}), m>>
Next == /\ n < Depth
        /\ \E c \in Cmds : ~OpenFrom(m, <<c>>) /\ m' = Exec(m, c) /\ last' = <<c, m>>
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
\* every sequence of commands is reached by its last step
Inv == LET c == last[1]
           b == last[2] IN
  /\ MayBlank(b, c) => Means(b, c, Blanked(c))
  /\ GroupOf(c) = "motion" /\ c.ps # {} /\ Means(b, c, Blanked(c)) => MayBlank(b, c)
  /\ MustBlank(b, c) => MayBlank(b, c)
  /\ Means(b, c, Full(c))
View == <<m.mode, m.abs, n, last[1], last[2].mode>>
=============================================================================
