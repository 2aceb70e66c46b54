------------------------------- MODULE TR_Arc -------------------------------
(* Each trace is one arc: the command, then the lines it was turned into,     *)
(* then the end.                                                              *)
EXTENDS Arc, TraceIO

VARIABLES t, i, st
vars == <<t, i, st>>
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ st = [at |-> <<0, 0, 0>>, swept |-> 0]

Cmd == Traces[t][1]

\* what the trace's first event alone decides
Open(cmd) == ~Impossible(cmd) /\ ~Valid(cmd)
Outcome(cmd) ==
  IF Impossible(cmd) THEN { <<"C18:rejected", cmd.res # "ok">>, <<"C18:no-crash", cmd.res # "crash">> }
  ELSE { <<"C17:accepted", cmd.res = "ok">>, <<"C18:accepted", cmd.res = "ok">> }

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         open == i = 0 /\ Open(Cmd)
         cl == IF i = 0 THEN (IF open THEN {} ELSE Outcome(Cmd))
               ELSE IF e.op = "line" THEN LineClauses(Cmd, st, e.p)
               ELSE EndClauses(Cmd, st)
         bad == Broken(cl)
         over == bad # {} \/ open \/ (i = 0 /\ Impossible(Cmd))
     IN
     /\ IF open THEN Opened(t, i + 1) ELSE TRUE
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ st' = IF over THEN st ELSE IF i = 0 THEN Begin(Cmd)
              ELSE IF e.op = "line" THEN TLCEval(Follow(Cmd, st, e.p)) ELSE st
     /\ i' = IF over THEN Len(Traces[t]) ELSE i + 1
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
