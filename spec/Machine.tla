------------------------------- MODULE Machine -----------------------------
(* The virtual machine: modes, position, offsets, travelled range, and the    *)
(* effect of one block.                                                       *)
EXTENDS Blocks

None == [w |-> <<"-", 0>>, ps |-> {}]      \* an empty mode

(* A machine state is a record                                                *)
(*   ax    the machine's axes                                                 *)
(*   ign   TRUE if it ignores modal parameters it cannot use                  *)
(*   mode  [Groups -> command retained in that group, or None]                *)
(*   abs   absolute position; lo, hi: corners of the range travelled          *)
(*   cs    selected coordinate system; off: offsets of the 9 systems;         *)
(*   tmp   temporary (G92-style) offset                                       *)
ZeroPos(ax) == [a \in ax |-> 0]
EmptyMode == [g \in Groups |-> None]
Fresh(ax, ign) ==
  [ ax |-> ax, ign |-> ign, mode |-> EmptyMode,
    abs |-> ZeroPos(ax), lo |-> ZeroPos(ax), hi |-> ZeroPos(ax),
    cs |-> 1, off |-> [i \in 1..9 |-> ZeroPos(ax)], tmp |-> ZeroPos(ax) ]

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* Conversions between absolute and work coordinates
ToWork(m, p) == TLCEval([a \in m.ax |-> p[a] - m.off[m.cs][a] - m.tmp[a]])
ToAbs(m, p)  == TLCEval([a \in m.ax |-> p[a] + m.off[m.cs][a] + m.tmp[a]])
Pos(m) == ToWork(m, m.abs)

\* Move to an absolute position
Goto(m, p) ==
  [m EXCEPT !.abs = p,
            !.lo = TLCEval([a \in m.ax |-> MinI(m.lo[a], p[a])]),
            !.hi = TLCEval([a \in m.ax |-> MaxI(m.hi[a], p[a])])]

Incremental(m) == m.mode["distance"].w = <<"G", 910>>

\* Move as commanded by coords (a function on some of the machine's axes)
Move(m, coords) ==
  LET cur == Pos(m)
      tgt == TLCEval([a \in m.ax |->
                IF a \notin DOMAIN coords THEN cur[a]
                ELSE IF Incremental(m) THEN cur[a] + coords[a] ELSE coords[a]])
  IN Goto(m, ToAbs(m, tgt))

Val(c, l) == (CHOOSE p \in c.ps : p[1] = l)[2]
Has(c, l) == \E p \in c.ps : p[1] = l
AxisWords(m, c) == { p[1] : p \in c.ps } \cap m.ax
Coords(m, c) == TLCEval([a \in AxisWords(m, c) |-> Val(c, a)])

NormalOf(planeCmd) == CASE planeCmd.w = <<"G", 180>> -> "Y"
                        [] planeCmd.w = <<"G", 190>> -> "X"
                        [] OTHER -> "Z"
Normal(m) == NormalOf(m.mode["plane_selection"])

ToR(m) == m.mode["canned_cycles_return"].w = <<"G", 990>>

RECURSIVE Repeat(_, _, _)
Repeat(m, coords, n) == IF n <= 0 THEN m ELSE Repeat(Move(m, coords), coords, n - 1)

(* A canned cycle leaves the machine above the hole: at its previous level,   *)
(* or at R (if there is one).  The in-plane step is repeated L times, the level is not.         *)
Canned(m, c) ==
  LET n == Normal(m)
      full == Coords(m, c)
      flat == TLCEval([a \in DOMAIN full \ {n} |-> full[a]])
      first == IF ToR(m) /\ Has(c, "R") THEN (n :> Val(c, "R")) @@ flat ELSE flat
      loops == IF Has(c, "L") /\ Val(c, "L") > 0 THEN Val(c, "L") ELSE 1
  IN Repeat(Move(m, first), flat, loops - 1)

Retained(c) == Cmd(c.w, { p \in c.ps : p[1] \in RowOf(c.w).re })

SetMode(m, c) ==
  LET g == GroupOf(c) IN
  IF g = "" THEN m
  ELSE [m EXCEPT !.mode[g] = Retained(c),
                 !.cs = IF g = "coordinate_system" THEN CoordSys[c.w[2]] ELSE m.cs]

\* Execute one command
Exec(m0, c) ==
  LET m == SetMode(m0, c) IN
  CASE KindOf(c) = "move"   -> Move(m, Coords(m, c))
    [] KindOf(c) = "canned" -> Canned(m, c)
    [] KindOf(c) = "cancel" -> [m EXCEPT !.mode["motion"] = None]
    [] OTHER -> m

ExecAll(m, cmds) == FoldLeft(LAMBDA s, c : Exec(s, c), m, cmds)

------------------------------------------------------------------------------
(* Modal lines.                                                               *)
DefinesMotion(cmds) == \E i \in DOMAIN cmds : GroupOf(cmds[i]) = "motion" \/ KindOf(cmds[i]) = "cancel"

(* Which of the left-over words does the active motion accept?                *)
Fits(m, cmds, w) ==
  /\ m.mode["motion"] # None
  /\ ~DefinesMotion(cmds)
  /\ w[1] \in RowOf(m.mode["motion"].w).ps

\* The plane the block's motion will run in
BlockPlane(m, cmds) ==
  LET hit == { i \in DOMAIN cmds : GroupOf(cmds[i]) = "plane_selection" } IN
  IF hit = {} THEN Normal(m) ELSE NormalOf(cmds[Min(hit)])

(* The motion command a block's left-over words stand for: the active motion  *)
(* with the words given, and the retained levels that are not given.          *)
ModalCmd(m, cmds, fit) ==
  LET mot  == m.mode["motion"]
      lets == { w[1] : w \in ToSet(fit) }
      kept == { p \in mot.ps : /\ p[1] \notin lets
                               /\ p[1] \notin (AllAxes \ {BlockPlane(m, cmds)}) }
  IN Cmd(mot.w, ToSet(fit) \cup kept)

DupLetters(ws) == \E i, j \in DOMAIN ws : i < j /\ ws[i][1] = ws[j][1]

(* Meaning of the words of a block on machine m:                              *)
(*   ok    FALSE if the block is rejected                                     *)
(*   eff   the commands it stands for, in execution order                     *)
MeaningOf(m, g) ==
  LET fit == SelectSeq(g.rest, LAMBDA w : Fits(m, g.cmds, w))
      bad == SelectSeq(g.rest, LAMBDA w : ~Fits(m, g.cmds, w))
      ok == /\ ~g.dup
            /\ ~Conflict(g.cmds)
            /\ ~DupLetters(fit)
            /\ (bad = <<>> \/ m.ign)
      all == IF fit = <<>> THEN g.cmds ELSE Append(g.cmds, ModalCmd(m, g.cmds, fit))
  IN TLCEval([ ok |-> ok, eff |-> IF ok THEN InOrder(all) ELSE <<>> ])
Meaning(m, ws) == MeaningOf(m, Group(ws))

(* Situations the specification leaves open (canned cycles in planes without  *)
(* linear axes).                                                              *)
RECURSIVE OpenFrom(_, _)
OpenFrom(m, eff) ==
  IF ~\E i \in DOMAIN eff : KindOf(eff[i]) = "canned" THEN FALSE
  ELSE LET c == Head(eff)
           n == SetMode(m, c)
       IN \/ /\ KindOf(c) = "canned"
             /\ n.mode["plane_selection"].w[2] \in {171, 181, 191}
          \/ OpenFrom(Exec(m, c), Tail(eff))
OpenMeaning(m, e) == e.ok /\ OpenFrom(m, e.eff)
Open(m, ws) == OpenMeaning(m, Meaning(m, ws))

(* One block: rejected blocks leave the machine unchanged.                    *)
BlockOf(m, e) ==
  [ ok |-> e.ok, m |-> IF e.ok THEN ExecAll(m, e.eff) ELSE m ]
Block(m, ws) == BlockOf(m, Meaning(m, ws))

\* The same list of words with the unusable left-overs removed
Cleaned(m, ws) ==
  LET g == Group(ws) IN
  [ cmds |-> g.cmds, rest |-> SelectSeq(g.rest, LAMBDA w : Fits(m, g.cmds, w)) ]

\* A machine whose default modes are given as a list of words per line
Boot(ax, ign, lines) ==
  FoldLeft(LAMBDA m, ws : FoldLeft(LAMBDA s, c : SetMode(s, c), m, InOrder(Group(ws).cmds)),
           Fresh(ax, ign), lines)

(* The text of a mode, as words: every active command with its retained       *)
(* parameters, once.                                                          *)
ModeCmds(m) == { m.mode[g] : g \in { h \in Groups : m.mode[h] # None } }
=============================================================================
