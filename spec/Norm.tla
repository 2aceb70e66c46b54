-------------------------------- MODULE Norm --------------------------------
(* What the normalising script may write for a line of a program.             *)
(*                                                                            *)
(* Options o:                                                                 *)
(*   arcs, g2, g3, e     arcs are linearised, by which methods, how precisely *)
(*   canned, codes       cycles are expanded, which                           *)
(*   rm                  words of commands to remove                          *)
(*   rc, rb, rws         comments, blank lines, whitespace are removed        *)
(*   singles, full       one command per line; complete commands              *)
(*   zxy, zz, so, rsh, h finalising: X0 Y0, Z0, spindle; safe height (given?) *)
(*   ign                 what isn't understood is removed                     *)
(* An output line: [ws, comment, macro, blank, space]                         *)
EXTENDS Machine

A == INSTANCE Arc
D == INSTANCE Drill

Removed(o, c) == c.w \in o.rm
Keep(o, cmds) == SelectSeq(cmds, LAMBDA c : ~Removed(o, c))

(* Commands whose removal changes the meaning of others                       *)
Steering == {"motion", "plane_selection", "distance", "arc_ijk_distance", "canned_cycles_return", "coordinate_system"}
Harmless(o) == \A w \in o.rm : ~IsCode(w) \/ (RowOf(w).g \notin Steering /\ RowOf(w).k # "cancel")
FreeGroups(o) == { RowOf(w).g : w \in { v \in o.rm : IsCode(v) } }

------------------------------------------------------------------------------
(* Commands that are expanded                                                 *)
IsArc(c) == c.w \in { <<"G", 20>>, <<"G", 30>> }
Expands(o, c) ==
  IF c = None THEN FALSE
  ELSE IF IsArc(c) THEN o.arcs ELSE o.canned /\ c.w \in o.codes /\ KindOf(c) = "canned"
ExpandAt(o, cmds) ==
  LET hits == { i \in DOMAIN cmds : Expands(o, cmds[i]) } IN IF hits = {} THEN 0 ELSE Min(hits)

PlaneNo(m) == CASE m.mode["plane_selection"].w = <<"G", 180>> -> 18
                [] m.mode["plane_selection"].w = <<"G", 190>> -> 19
                [] OTHER -> 17
Here(m) == << Pos(m)["X"], Pos(m)["Y"], Pos(m)["Z"] >>
\* parameters as a function; only those of the letters given
GivenOf(c, lets) ==
  TLCEval([l \in { p[1] : p \in c.ps } \cap lets |-> IF l = "P" /\ IsArc(c) THEN Val(c, l) \div 1000 ELSE Val(c, l)])

ArcOf(o, m, c, wit) ==
  [ ccw |-> c.w = <<"G", 30>>, plane |-> PlaneNo(m), inc |-> Incremental(m),
    incarc |-> m.mode["arc_ijk_distance"].w # <<"G", 901>>,
    from |-> Here(m), given |-> GivenOf(c, {"X", "Y", "Z", "I", "J", "K", "R", "P"}),
    e |-> o.e, method |-> IF c.w = <<"G", 30>> THEN o.g3 ELSE o.g2, rnd |-> 1, slk |-> 0,
    c |-> wit.c, r |-> wit.r ]
\* Cycles drill along the normal of the plane: the axes, as if it were the XY plane
Turn(m) == CASE PlaneNo(m) = 17 -> << "X", "Y", "Z" >>
             [] PlaneNo(m) = 18 -> << "Z", "X", "Y" >>
             [] OTHER -> << "Y", "Z", "X" >>
Turned(m, l) == CASE l = "X" -> Turn(m)[1] [] l = "Y" -> Turn(m)[2] [] l = "Z" -> Turn(m)[3] [] OTHER -> l
CycleOf(m, c) ==
  LET given == GivenOf(c, {"X", "Y", "Z", "R", "Q", "P", "L"}) IN
  [ cycle |-> c.w[2] \div 10,
    given |-> TLCEval([l \in { k \in {"X", "Y", "Z", "R", "Q", "P", "L"} : Turned(m, k) \in DOMAIN given } |-> given[Turned(m, l)]]),
    from |-> [k \in 1..3 |-> Pos(m)[Turn(m)[k]]], inc |-> Incremental(m), toR |-> ToR(m) ]

Simple(c) == /\ { p[1] : p \in c.ps } \subseteq {"X", "Y", "Z"} /\ c.ps # {}
Target(m, at, c, axes) ==
  [k \in 1..3 |-> LET l == axes[k] IN
    IF ~Has(c, l) THEN at[k] ELSE IF Incremental(m) THEN at[k] + Val(c, l) ELSE Val(c, l)]

Far(cmd, p) == \E k \in 1..3 : p[k] - cmd.from[k] > 40000 \/ cmd.from[k] - p[k] > 40000
BadOf(clauses) == { c[1] : c \in { d \in clauses : ~d[2] } }

(* The clauses that moves standing for an arc break                           *)
ArcBroken(m, cmd, xs) ==
  LET step(s, c) ==
        IF s.bad # {} THEN s
        ELSE IF c.w # <<"G", 10>> \/ ~Simple(c) THEN [s EXCEPT !.bad = {"straight lines only"}]
        ELSE LET p == TLCEval(Target(m, s.st.at, c, <<"X", "Y", "Z">>)) IN
             IF Far(cmd, p) THEN [s EXCEPT !.bad = {"near the arc"}]
             ELSE [st |-> TLCEval(A!Follow(cmd, s.st, p)), bad |-> TLCEval(BadOf(A!LineClauses(cmd, s.st, p)))]
      f == FoldLeft(step, [st |-> A!Begin(cmd), bad |-> {}], xs)
  IN IF f.bad # {} THEN f.bad ELSE BadOf(A!EndClauses(cmd, f.st))

(* ... and those standing for a cycle                                         *)
CycleBroken(m, cmd, xs) ==
  LET step(s, c) ==
        IF s.bad # {} THEN s
        ELSE IF c.w \in { <<"G", 0>>, <<"G", 10>> } /\ Simple(c)
        THEN LET p == TLCEval(Target(m, s.st.at, c, Turn(m)))
                 feed == c.w = <<"G", 10>>
             IN [st |-> TLCEval(D!Move(cmd, s.st, p, feed)), bad |-> TLCEval(BadOf(D!MoveClauses(cmd, s.st, p, feed)))]
        ELSE IF c.w = <<"G", 40>> /\ { p[1] : p \in c.ps } = {"P"}
        THEN [st |-> TLCEval(D!Dwell(cmd, s.st)), bad |-> TLCEval(BadOf(D!DwellClauses(cmd, s.st, Val(c, "P"))))]
        ELSE [s EXCEPT !.bad = {"moves and dwells only"}]
      f == FoldLeft(step, [st |-> D!Begin(cmd), bad |-> {}], xs)
  IN IF f.bad # {} THEN f.bad ELSE BadOf(D!EndClauses(cmd, f.st))

------------------------------------------------------------------------------
(* Executing output lines                                                     *)
RunLines(m, outs) ==
  FoldLeft(LAMBDA s, out :
    IF ~s.ok THEN s
    ELSE LET g == Group(out.ws)
             x == MeaningOf(s.m, g)
             ok == x.ok /\ ~OpenMeaning(s.m, x)
         IN TLCEval([ m |-> IF ok THEN ExecAll(s.m, x.eff) ELSE s.m, ok |-> ok,
                      eff |-> s.eff \o x.eff,
                      most |-> MaxI(s.most, Len(x.eff)),
                      modal |-> s.modal \/ g.rest # <<>> ]),
    [m |-> m, ok |-> TRUE, eff |-> <<>>, most |-> 0, modal |-> FALSE], outs)

Comments(outs) == SelectSeq([k \in DOMAIN outs |-> outs[k].comment], LAMBDA x : x # "")
Macros(outs) == SelectSeq([k \in DOMAIN outs |-> outs[k].macro], LAMBDA x : x # "")
All(outs, P(_)) == \A k \in DOMAIN outs : P(outs[k])

Words(outs) == FoldLeft(LAMBDA acc, out : LET g == Group(out.ws) IN
                          [cmds |-> acc.cmds \o g.cmds, rest |-> acc.rest \o g.rest], [cmds |-> <<>>, rest |-> <<>>], outs)

\* The same machine, but for what the options let differ
SamePlace(a, b) == a.abs = b.abs
SameModes(o, a, b) ==
  \A g \in Groups \ FreeGroups(o) : (g = "motion" /\ Expands(o, a.mode["motion"])) \/ a.mode[g] = b.mode[g]

(* Is it left open what is written for the commands x on machine m?           *)
LineOpen(o, m, x, wit) ==
  \/ OpenMeaning(m, x)
  \/ x.ok /\ LET k == ExpandAt(o, x.eff) IN
     IF k = 0 THEN FALSE
     ELSE LET n == ExecAll(m, SubSeq(x.eff, 1, k - 1))
              c == x.eff[k] IN
       IF ~({ p[1] : p \in c.ps } \subseteq {"X", "Y", "Z", "I", "J", "K", "R", "P", "Q", "L"}) THEN TRUE
       ELSE IF IsArc(c) THEN LET cmd == ArcOf(o, n, c, wit) IN
            ~A!AxesGiven(cmd) \/ (~A!Impossible(cmd) /\ ~A!Valid(cmd))
       ELSE c.w = <<"G", 760>> \/ D!Open(CycleOf(n, c))

\* ... or may be refused (only in the XY plane cycles have to be expanded)
MayRefuse(o, m, x) ==
  x.ok /\ LET k == ExpandAt(o, x.eff) IN
    k # 0 /\ ~IsArc(x.eff[k]) /\ PlaneNo(ExecAll(m, SubSeq(x.eff, 1, k - 1))) # 17

\* Has the program to be refused at this line?
LineRefused(o, m, x, wit) ==
  ~x.ok \/ LET k == ExpandAt(o, x.eff) IN
    IF k = 0 THEN FALSE
    ELSE LET n == ExecAll(m, SubSeq(x.eff, 1, k - 1))
             c == x.eff[k] IN
      IF IsArc(c) THEN A!Impossible(ArcOf(o, n, c, wit)) ELSE D!Impossible(CycleOf(n, c))

(* The clauses for a line: m1 the machine the program is for, m2 the one that *)
(* executes what is written; line: [ws, comment, macro, wit], outs.           *)
FormClauses(o, r, outs) ==
  { << "C24: at most one command on each line", o.singles => r.most <= 1 >>,
    << "C24: complete commands", o.full => ~r.modal >>,
    << "C24: no comments", o.rc => Comments(outs) = <<>> >>,
    << "C24: no blank lines", o.rb => All(outs, LAMBDA x : ~x.blank) >>,
    << "C24: no whitespace", o.rws => All(outs, LAMBDA x : ~x.space) >> }

LineClauses(o, m1, m2, x, line, outs) ==
  LET k == ExpandAt(o, x.eff)
      r == TLCEval(RunLines(m2, outs))
      after == ExecAll(m1, x.eff)
      cs == Comments(outs)
      written == Words(outs)
      kept == Cleaned(m1, line.ws)
      complete == o.full \/ (o.singles /\ kept.cmds # <<>>)
      wantCmds == Keep(o, IF complete THEN x.eff ELSE kept.cmds)
  IN
  FormClauses(o, IF Harmless(o) THEN r ELSE [r EXCEPT !.most = 0, !.modal = FALSE], outs) \cup
  { << "C23: macro kept", Macros(outs) = IF line.macro = "" THEN <<>> ELSE <<line.macro>> >> } \cup
  (IF k = 0
   THEN { << "C23: comment kept", o.rc \/ IF line.comment = "" THEN cs = <<>>
                                          ELSE cs # <<>> /\ \A n \in DOMAIN cs : cs[n] = line.comment >>,
          << "C24: comment once", o.singles \/ Len(cs) <= 1 >>,
          << "C24: a line for a line", o.rb \/ o.singles \/ Len(outs) = 1 >>,
          << "C24: removes these commands only",
             o.rm # {} => /\ InOrder(written.cmds) = InOrder(wantCmds)
                          /\ (complete \/ written.rest = kept.rest) >> }
        \cup (IF ~Harmless(o) THEN {}
              ELSE { << "C23: accepted by a machine", r.ok >>,
                     << "C23: same commands", r.eff = Keep(o, x.eff) >>,
                     << "C23: same position", SamePlace(after, r.m) >>,
                     << "C23: same modes", SameModes(o, after, r.m) >> })
   ELSE LET pre == Keep(o, SubSeq(x.eff, 1, k - 1))
            post == Keep(o, SubSeq(x.eff, k + 1, Len(x.eff)))
            mid == SubSeq(r.eff, Len(pre) + 1, Len(r.eff) - Len(post))
            before == ExecAll(m1, SubSeq(x.eff, 1, k - 1))
        IN { << "C23: comment kept", o.rc \/ line.comment = "" \/ (cs # <<>> /\ cs[Len(cs)] = line.comment) >>,
             << "C23: accepted by a machine", r.ok >> }
           \cup (IF ~r.ok THEN {}
                 ELSE IF Len(r.eff) < Len(pre) + Len(post) THEN { << "C23: same commands", FALSE >> }
                 ELSE { << "C23: same commands before", SubSeq(r.eff, 1, Len(pre)) = pre >>,
                        << "C23: same commands after", SubSeq(r.eff, Len(r.eff) - Len(post) + 1, Len(r.eff)) = post >>,
                        << "C23: same position", SamePlace(after, r.m) >>,
                        << "C23: same modes", SameModes(o, after, r.m) >> }
                      \cup { << "C23: expansion: " \o b, FALSE >> : b \in
                             IF IsArc(x.eff[k]) THEN ArcBroken(before, ArcOf(o, before, x.eff[k], line.wit), mid)
                             ELSE CycleBroken(before, CycleOf(before, x.eff[k]), mid) }))

------------------------------------------------------------------------------
(* Finalising                                                                 *)
SafeHeight(o, m1) == IF o.rsh THEN o.h ELSE ToWork(m1, m1.hi)["Z"]
\* positions to be visited, in order
FinalVisits(o, m1) ==
  LET p == Pos(m1)
      up == [p EXCEPT !["Z"] = SafeHeight(o, m1)]
      over == [up EXCEPT !["X"] = 0, !["Y"] = 0]
      two == IF o.zxy THEN <<up, over>> ELSE <<>>
      base == IF o.zxy THEN over ELSE p
  IN IF o.zz THEN Append(two, [base EXCEPT !["Z"] = 0]) ELSE two
Visits(m, cmds) ==
  LET f == FoldLeft(LAMBDA s, c : LET n == Exec(s.m, c) IN
             TLCEval([m |-> n, v |-> IF GroupOf(c) = "motion" THEN Append(s.v, Pos(n)) ELSE s.v]), [m |-> m, v |-> <<>>], cmds)
  IN f.v
FinalClauses(o, m1, m2, outs) ==
  LET r == TLCEval(RunLines(m2, outs))
      moves == o.zxy \/ o.zz
      allowed == (IF moves THEN { <<"G", 0>>, <<"G", 900>> } ELSE {}) \cup (IF o.so THEN { <<"M", 50>> } ELSE {})
  IN FormClauses(o, r, outs) \cup
  { << "C24: final commands accepted", r.ok >> } \cup
  (IF ~r.ok THEN {}
   ELSE { << "C24: only the final commands asked for", \A k \in DOMAIN r.eff : r.eff[k].w \in allowed >>,
          << "C24: up, across, and down", Visits(m2, r.eff) = FinalVisits(o, m1) >>,
          << "C24: in absolute mode", moves => r.m.mode["distance"].w = <<"G", 900>> >>,
          << "C24: spindle stopped", o.so => r.m.mode["spindle"].w = <<"M", 50>> >>,
          << "C24: nothing more", (~moves /\ ~o.so) => outs = <<>> >>,
          << "C24: no macro", Macros(outs) = <<>> >> })
=============================================================================
