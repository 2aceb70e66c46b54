------------------------------ MODULE TR_Crop -------------------------------
(* Each trace is one run of the cropping script:                              *)
(*   begin [op, first, last, at, lines, res]                                  *)
(*         conditions; where the machine that executes the output starts; the *)
(*         program's lines [ws, comment, macro]; how the script ended         *)
(*   line  [op]          (the next line is read)                              *)
(*   end   [op, outs]    all lines written                                    *)
(*   range [op, first, last, res]    only whether a range is accepted         *)
EXTENDS Crop, TraceIO

VARIABLES t, i, s
vars == <<t, i, s>>
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Scan0
H == Traces[t][1]

\* (a rotary axis the program hasn't used yet is where the program starts from)
StartAt(at, old) ==
  LET moved == {"X", "Y", "Z"} \cup UsedRotary(old) IN
  [Fresh(SixAxes, FALSE) EXCEPT !.abs = TLCEval([a \in SixAxes |-> IF a \in DOMAIN at \cap moved THEN at[a] ELSE 0])]

EndClauses(e) ==
  LET k == Len(s.kept)
      total == Len(e.outs)
      new == StartAt(H.at, s.old)
  IN IF ~s.ok THEN { << "refused", H.res # "ok" >> }
     ELSE { << "accepted", H.res = "ok" >> } \cup
     (IF H.res # "ok" THEN {}
      ELSE IF ~s.found THEN { << "nothing if no line is the first", e.outs = <<>> >> }
      ELSE IF total < k THEN { << "every line of the range", FALSE >> }
      ELSE LET pre == SubSeq(e.outs, 1, total - k)
               out == SubSeq(e.outs, total - k + 1, total)
               cl == PreambleClauses(s.old, new, pre)
           IN cl \cup (IF Broken(cl) # {} THEN {}
                       ELSE { << b, FALSE >> : b \in KeptClauses(Run(new, pre).m, s.kept, H.lines, out) }))

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         n == IF e.op = "line" THEN TLCEval(ScanStep(s, H.lines[i].ws, H.first, H.last)) ELSE s
         cl == IF e.op = "end" THEN EndClauses(e)
               ELSE IF e.op = "range"
               THEN { << "range", (e.res = "ok") = (\A c \in ToSet(e.first) \cup ToSet(e.last) : ValidCond(c)) >>,
                      << "range: no crash", e.res # "crash" >> }
               ELSE {}
         bad == Broken(cl)
         over == n.open \/ bad # {} \/ i + 1 = Len(Traces[t])
     IN
     /\ IF n.open THEN Opened(t, i + 1) ELSE TRUE
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ s' = n
     /\ i' = IF over THEN Len(Traces[t]) ELSE i + 1
     /\ IF over THEN Finished(t) ELSE TRUE
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
