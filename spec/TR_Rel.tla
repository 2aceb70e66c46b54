-------------------------------- MODULE TR_Rel ------------------------------
(* Each trace is one conversion:                                              *)
(*   begin [op, at, axes, mode]     mode "inc", "abs" or "none"               *)
(*   in    [op, k, w, ps]           a command of the list                     *)
(*   out   [op, i, w, ps, same]     a command made from it (same: it is the   *)
(*                                  very command given)                       *)
(*   end   [op, res]                                                          *)
(* All in events come before the out events.                                  *)
EXTENDS Rel, TraceIO

VARIABLES t, i, st, owed
vars == <<t, i, st, owed>>
\* owed: what the last command has still to yield
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ st = [at |-> <<>>, out |-> <<>>, ok |-> TRUE] /\ owed = <<>>
H == Traces[t][1]
Converts == H.mode # "abs"
Given(e) == [k |-> e.k, w |-> e.w, ps |-> e.ps]
On(e) == [Given(e) EXCEPT !.ps = [a \in DOMAIN e.ps \cap (IF e.k = "move" THEN DOMAIN H.at ELSE DOMAIN e.ps) |-> e.ps[a]]]

StepOf(e) == IF ~Converts THEN [st EXCEPT !.out = Append(@, Given(e))] ELSE TLCEval(Step([st EXCEPT !.out = <<>>], On(e)))

Clauses(e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "in"  -> {}
    [] e.op = "out" -> { << "yields only what is owed", owed # <<>> >>,
                         << "same motion", owed # <<>> => e.w = owed[1].w >>,
                         << "same increments", owed # <<>> => e.ps = owed[1].ps >>,
                         << "passed through", owed # <<>> /\ (~Converts \/ owed[1].k # "move") => e.same >> }
    [] e.op = "end" -> { << "everything yielded", e.res = "ok" => owed = <<>> >>,
                         << "refused iff it has to be", (e.res = "ok") = st.ok >>,
                         << "no crash", e.res # "crash" >> }

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         bad == Broken(Clauses(e))
         n == IF e.op = "in" /\ bad = {} THEN StepOf(e) ELSE st
     IN
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ st' = IF e.op = "begin" THEN Start(e.at) ELSE IF bad = {} THEN [n EXCEPT !.out = <<>>] ELSE st
     /\ owed' = IF bad # {} THEN owed ELSE IF e.op = "in" THEN owed \o n.out ELSE IF e.op = "out" THEN Tail(owed) ELSE <<>>
     /\ i' = IF bad # {} THEN Len(Traces[t]) ELSE i + 1
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
