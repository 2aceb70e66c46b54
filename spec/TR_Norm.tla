------------------------------ MODULE TR_Norm -------------------------------
(* Each trace is one run of the normalising script:                           *)
(*   begin [op, boot, ...options]                                             *)
(*   line  [op, ws, comment, macro, wit, got, outs]                           *)
(*         a line of the program, and the lines written for it; got: whether  *)
(*         the script got past it                                             *)
(*   end   [op, res, outs]    what is written after the last line             *)
(* or, without following it line by line                                      *)
(*   whole [op, ins, outs, res]                                               *)
EXTENDS Norm, TraceIO

VARIABLES t, i, m1, m2
vars == <<t, i, m1, m2>>
XYZ == {"X", "Y", "Z"}
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ m1 = Fresh(XYZ, FALSE) /\ m2 = m1

H == Traces[t][1]
O == [ H EXCEPT !.codes = ToSet(@), !.rm = ToSet(@) ]

\* without expansions and removals
WholeMeaning(m, ins) ==
  FoldLeft(LAMBDA s, ws :
    IF ~s.ok \/ s.open THEN s
    ELSE LET x == Meaning(s.m, ws)
             open == OpenMeaning(s.m, x) IN
         TLCEval([m |-> IF open THEN s.m ELSE ExecAll(s.m, x.eff), ok |-> x.ok, open |-> open, eff |-> s.eff \o x.eff]),
    [m |-> m, ok |-> TRUE, open |-> FALSE, eff |-> <<>>], ins)

WholeClauses(e, w) ==
  LET r == RunLines(m2, e.outs) IN
  { << "C23: completes iff it's a program", (e.res = "ok") = w.ok >> } \cup
  (IF ~w.ok \/ e.res # "ok" THEN {}
   ELSE { << "C23: whole program: accepted", r.ok >>,
          << "C23: whole program: same commands", r.eff = w.eff >>,
          << "C23: whole program: same state", [r.m EXCEPT !.ign = w.m.ign] = w.m >> })

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         x == IF e.op = "line" THEN Meaning(m1, e.ws) ELSE [ok |-> FALSE, eff |-> <<>>]
         w == IF e.op = "whole" THEN WholeMeaning(m1, e.ins) ELSE [ok |-> FALSE, open |-> FALSE, eff |-> <<>>]
         open == IF e.op = "line" THEN x.ok /\ LineOpen(O, m1, x, e.wit) ELSE w.open
         refused == e.op = "line" /\ LineRefused(O, m1, x, e.wit)
         cl == CASE e.op = "begin" -> {}
                 [] open -> {}
                 [] e.op = "end" -> { << "C23: completes", e.res = "ok" >> } \cup
                                    (IF e.res = "ok" THEN FinalClauses(O, m1, m2, e.outs) ELSE {})
                 [] e.op = "whole" -> WholeClauses(e, w)
                 [] refused -> { << "C23: refused", ~e.got >> }
                 [] ~e.got /\ MayRefuse(O, m1, x) -> {}
                 [] ~e.got -> { << "C23: not refused", FALSE >> }
                 [] OTHER -> LineClauses(O, m1, m2, x, e, e.outs)
         bad == TLCEval(Broken(cl))
         over == open \/ refused \/ bad # {} \/ (e.op = "line" /\ ~e.got)
         stop == over \/ i + 1 = Len(Traces[t])
         boot == Boot(XYZ, FALSE, H.boot)
     IN
     /\ IF open THEN Opened(t, i + 1) ELSE TRUE
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ m1' = IF e.op = "begin" THEN [boot EXCEPT !.ign = H.ign]
              ELSE IF over \/ e.op # "line" THEN m1 ELSE TLCEval(ExecAll(m1, x.eff))
     /\ m2' = IF e.op = "begin" THEN boot
              ELSE IF over \/ e.op # "line" \/ ~Harmless(O) THEN m2 ELSE TLCEval(RunLines(m2, e.outs).m)
     /\ i' = IF stop THEN Len(Traces[t]) ELSE i + 1
     /\ IF stop THEN Finished(t) ELSE TRUE
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
