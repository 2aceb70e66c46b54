------------------------------- MODULE TR_Omit ------------------------------
(* Each trace is one list of commands and what was yielded for it:            *)
(*   begin [op, ax]                                                           *)
(*   cmd   [op, w, ps, text, blank, a, b]                                     *)
(*         the command; words of the text yielded; whether the text lacks the *)
(*         command's own word; observed states of a machine that executes the *)
(*         commands, and one that executes the texts                          *)
(*   end   [op, res, same]                                                    *)
EXTENDS Omit, TraceIO

VARIABLES t, i, m, active
vars == <<t, i, m, active>>
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ m = Fresh({"X"}, FALSE) /\ active = None

DefaultLines == << << <<"G", 0>>, <<"G", 170>>, <<"G", 900>>, <<"G", 911>>, <<"G", 940>>, <<"G", 210>>, <<"G", 540>>, <<"G", 980>> >> >>

C(e) == Cmd(e.w, ToSet(e.ps))
\* the machine whose only motion is what this list has set
Own == [m EXCEPT !.mode["motion"] = active]
Clauses(e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "end" -> { << "completes", e.res = "ok" >>, << "commands unchanged", e.same >> }
    [] OTHER ->
       LET c == C(e) IN
       { << "means the command", Means(m, c, e.text) >>,
         << "blanked only if active", e.blank => active.w = c.w /\ GroupOf(c) = "motion" >>,
         << "blanked if active", MustBlank(Own, c) => e.blank >>,
         << "executes the same", e.a = e.b >> }

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         open == e.op = "cmd" /\ OpenFrom(m, <<C(e)>>)
         bad == IF open THEN {} ELSE Broken(Clauses(e))
         over == open \/ bad # {}
     IN
     /\ IF open THEN Opened(t, i + 1) ELSE TRUE
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ m' = IF e.op = "begin" THEN Boot(ToSet(e.ax), FALSE, DefaultLines)
             ELSE IF e.op = "cmd" /\ ~over THEN TLCEval(Exec(m, C(e))) ELSE m
     /\ active' = IF e.op = "cmd" /\ ~over /\ (GroupOf(C(e)) = "motion" \/ KindOf(C(e)) = "cancel")
                  THEN m'.mode["motion"] ELSE active
     /\ i' = IF over THEN Len(Traces[t]) ELSE i + 1
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
