-------------------------------- MODULE Crop --------------------------------
(* Cropping a program: which lines are kept, and what precedes them.          *)
EXTENDS Machine

SixAxes == {"X", "Y", "Z", "A", "B", "C"}

(* A condition <<param, cmp, value>>: param "N" (line number, value in        *)
(* thousandths as well) or an axis.                                           *)
Compare(a, cmp, b) ==
  CASE cmp = "="  -> a = b [] cmp = "==" -> a = b [] cmp = "!=" -> a # b
    [] cmp = "<"  -> a < b [] cmp = "<=" -> a <= b
    [] cmp = ">"  -> a > b [] cmp = ">=" -> a >= b
Holds(c, n, m) == Compare(IF c[1] = "N" THEN 1000 * n ELSE Pos(m)[c[1]], c[2], c[3])
AllHold(conds, n, m) == \A k \in DOMAIN conds : Holds(conds[k], n, m)
\* no first condition: from the beginning; no last: to the end
IsFirst(conds, n, m) == AllHold(conds, n, m)
IsLast(conds, n, m) == conds # <<>> /\ AllHold(conds, n, m)

ValidCond(c) == /\ c[1] \in {"N"} \cup SixAxes
                /\ c[2] \in {"=", "==", "!=", "<", "<=", ">", ">="}
                /\ c[1] = "N" => c[3] % 1000 = 0

(* Scan of the input: before and after each line, from the first to the last  *)
(* line kept                                                                  *)
Scan0 == [ n |-> 0, m |-> Fresh(SixAxes, FALSE), found |-> FALSE, over |-> FALSE, ok |-> TRUE, open |-> FALSE,
           old |-> Fresh(SixAxes, FALSE), kept |-> <<>> ]
ScanStep(s, ws, first, last) ==
  IF s.over \/ ~s.ok \/ s.open THEN s
  ELSE LET x == Meaning(s.m, ws) IN
    IF ~x.ok THEN [s EXCEPT !.ok = FALSE, !.n = @ + 1]
    ELSE IF OpenMeaning(s.m, x) THEN [s EXCEPT !.open = TRUE]
    ELSE LET n == s.n + 1
             m == TLCEval(ExecAll(s.m, x.eff))
             found == s.found \/ IsFirst(first, n, m)
             over == found /\ IsLast(last, n, m)
         IN TLCEval([ s EXCEPT !.n = n, !.m = m, !.found = found, !.over = over,
                         !.old = IF found /\ ~s.found THEN s.m ELSE @,
                         !.kept = IF found /\ ~over THEN Append(@, [n |-> n, eff |-> x.eff, m |-> m]) ELSE @ ])

------------------------------------------------------------------------------
UsedRotary(m) == { a \in {"A", "B", "C"} : m.lo[a] # 0 \/ m.hi[a] # 0 }
NormalAxis(m) == Normal(m)
InPlaneAxes(m) == {"X", "Y", "Z"} \ {NormalAxis(m)}

Changed(a, b) == { x \in SixAxes : a[x] # b[x] }

\* Executing lines: [m, ok, visits: positions after each motion]
Run(m, outs) ==
  FoldLeft(LAMBDA s, out :
    IF ~s.ok THEN s
    ELSE LET x == Meaning(s.m, out.ws)
             ok == x.ok /\ ~OpenMeaning(s.m, x)
             one(q, c) == LET n == Exec(q.m, c) IN
               TLCEval([m |-> n, v |-> IF GroupOf(c) = "motion" /\ AxisWords(n, c) # {}
                                       THEN Append(q.v, [w |-> c.w, p |-> Pos(n)]) ELSE q.v,
                        all |-> Append(q.all, c)])
             f == IF ok THEN FoldLeft(one, [m |-> s.m, v |-> s.v, all |-> s.all], x.eff) ELSE s
         IN TLCEval([m |-> f.m, v |-> f.v, all |-> f.all, ok |-> ok]),
    [m |-> m, ok |-> TRUE, v |-> <<>>, all |-> <<>>], outs)

(* What precedes the kept lines: old is the machine before the first of them, *)
(* new the machine that executes the output.                                  *)
IsCanned(c) == c # None /\ KindOf(c) = "canned"
PreambleClauses(old, new, pre) ==
  LET r == TLCEval(Run(new, pre))
      p0 == Pos(new)
      n == NormalAxis(old)
      goal == Pos(old) IN
  { << "preamble: accepted by a machine", r.ok >> } \cup
  (IF ~r.ok THEN {}
   ELSE IF Len(r.v) # 3 THEN { << "preamble: three moves", FALSE >> }
   ELSE { << "preamble: rapid moves", \A k \in 1..3 : r.v[k].w = <<"G", 0>> >>,
          << "preamble: rises first", Changed(p0, r.v[1].p) \subseteq {n} >>,
          << "preamble: to the highest level used", r.v[1].p[n] = ToWork(old, old.hi)[n] >>,
          << "preamble: then crosses", r.v[2].p[n] = r.v[1].p[n] >>,
          << "preamble: used axes in position", \A a \in InPlaneAxes(old) \cup UsedRotary(old) : r.v[2].p[a] = goal[a] >>,
          << "preamble: unused axes stay", \A a \in {"A", "B", "C"} \ UsedRotary(old) : r.m.abs[a] = new.abs[a] >>,
          << "preamble: then descends", Changed(r.v[2].p, r.v[3].p) \subseteq {n} >>,
          << "position as it was", \A a \in {"X", "Y", "Z"} \cup UsedRotary(old) : Pos(r.m)[a] = goal[a] >>,
          << "modes as they were", \A g \in Groups : (g = "motion" /\ IsCanned(old.mode[g])) \/ r.m.mode[g] = old.mode[g] >>,
          << "preamble: modes and moves only",
             \A k \in DOMAIN r.all : KindOf(r.all[k]) \in {"mode", "move", "cancel"} >> })

(* The kept lines: same commands, same positions, on the machine left by the  *)
(* preamble.                                                                  *)
KeptClauses(m0, kept, lines, outs) ==
  LET step(s, k) ==
        IF s.bad # {} THEN s
        ELSE LET x == Meaning(s.m, outs[k].ws)
                 ok == x.ok /\ ~OpenMeaning(s.m, x)
                 n == IF ok THEN ExecAll(s.m, x.eff) ELSE s.m
                 cl == { << "kept line: accepted", ok >>,
                         << "kept line: same commands", x.eff = kept[k].eff >>,
                         << "kept line: same position", \A a \in SixAxes : n.abs[a] = kept[k].m.abs[a] >>,
                         << "kept line: same comment", outs[k].comment = lines[kept[k].n].comment
                                                       /\ outs[k].macro = lines[kept[k].n].macro >> }
             IN TLCEval([m |-> n, bad |-> { c[1] : c \in { d \in cl : ~d[2] } }])
  IN FoldLeft(step, [m |-> m0, bad |-> {}], [k \in DOMAIN kept |-> k]).bad
=============================================================================
