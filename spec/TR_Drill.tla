------------------------------ MODULE TR_Drill ------------------------------
(* Each trace: a cycle, the commands it was expanded to, the end.             *)
(*   cycle  [op, cycle, given, from, inc, toR, res]                           *)
(*   cmd    [op, w, ps, obj, txt]  word (code * 10), parameters; positions of *)
(*          machines that executed the command, and its text                  *)
(*   end    [op, direct]           a machine that executed the cycle itself   *)
EXTENDS Drill, TraceIO

VARIABLES t, i, st
vars == <<t, i, st>>
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ st = [at |-> <<0, 0, 0>>]
C == Traces[t][1]

Axis(k) == <<"X", "Y", "Z">>[k]
Target(e) ==
  [k \in 1..3 |-> IF Axis(k) \notin DOMAIN e.ps THEN st.at[k]
                  ELSE IF C.inc THEN st.at[k] + e.ps[Axis(k)] ELSE e.ps[Axis(k)]]
IsMove(e) == e.w \in {0, 10}
OnlyAxes(e) == DOMAIN e.ps \subseteq {"X", "Y", "Z"} /\ DOMAIN e.ps # {}

CmdClauses(e) ==
  IF IsMove(e) THEN
    {<< "well formed", OnlyAxes(e) >>, << "executed", e.obj = Target(e) >>, << "executed as text", e.txt = Target(e) >>}
    \cup (IF Flat(C) THEN FlatClauses(C, st, Target(e), e.w = 10) ELSE MoveClauses(C, st, Target(e), e.w = 10))
  ELSE IF e.w = 40 THEN
    {<< "well formed", DOMAIN e.ps = {"P"} >>, << "executed", e.obj = st.at >>, << "executed as text", e.txt = st.at >>}
    \cup (IF Flat(C) THEN { << "dwell: the cycle does", Dwells(C) >> }
          ELSE IF "P" \in DOMAIN e.ps THEN DwellClauses(C, st, e.ps["P"]) ELSE {})
  ELSE {<< "only moves and dwells", FALSE >>}
After(e) == IF Flat(C) THEN (IF IsMove(e) THEN [st EXCEPT !.at = Target(e)] ELSE st)
            ELSE IF IsMove(e) THEN Move(C, st, Target(e), e.w = 10) ELSE Dwell(C, st)

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         open == i = 0 /\ Open(C)
         cl == IF i = 0 THEN (IF open THEN {}
                              ELSE IF Impossible(C) THEN { << "rejected", C.res = "rej" >> }
                              ELSE { << "accepted", C.res = "ok" >> })
               ELSE IF e.op = "cmd" THEN CmdClauses(e)
               ELSE (IF Flat(C) THEN FlatEnd(C, st) ELSE EndClauses(C, st)) \cup { << "end: as the cycle itself", st.at = e.direct >> }
         bad == Broken(cl)
         over == bad # {} \/ open \/ (i = 0 /\ Impossible(C))
     IN
     /\ IF open THEN Opened(t, i + 1) ELSE TRUE
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ st' = IF over THEN st ELSE IF i = 0 THEN Begin(C) ELSE IF e.op = "cmd" THEN TLCEval(After(e)) ELSE st
     /\ i' = IF over THEN Len(Traces[t]) ELSE i + 1
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
