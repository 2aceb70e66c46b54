----------------------------- MODULE MC_Machine -----------------------------
(* Every behaviour of small machines, over small alphabets of blocks and      *)
(* machine operations (one alphabet per scenario).  TLC checks the laws of    *)
(* the specification in every state and on every edge, and prints every edge  *)
(* with the history leading to it; the driver replays each on a real machine. *)
EXTENDS Machine, Json

CONSTANTS Scn, Depth

N0 == <<"N", 0>>
G(n) == <<"G", n>>
M(n) == <<"M", n>>
W(l, v) == <<l, v>>
X(v) == W("X", v * 1000)
Y(v) == W("Y", v * 1000)
Z(v) == W("Z", v * 1000)
R(v) == W("R", v * 1000)

B(ws)      == [op |-> "blk", ws |-> ws]
Off(cs, x, y, z) == [op |-> "off", cs |-> cs, to |-> ("X" :> x @@ "Y" :> y @@ "Z" :> z)]
Pos3(x, y, z) == [op |-> "pos", p |-> ("X" :> x @@ "Y" :> y @@ "Z" :> z)]
Mov(p)     == [op |-> "mov", p |-> p]

(* Motion in absolute and incremental mode; everything that is no motion.     *)
PathActs == <<
  B(<<G(0), X(1)>>), B(<<G(10), Y(-2), Z(1)>>), B(<<X(2)>>), B(<<Z(-1), Y(1)>>), B(<<G(900)>>), B(<<G(910)>>),
  B(<<G(910), X(1)>>), B(<<X(-1), G(900)>>), B(<<G(910), G(10), X(-1), Y(1)>>), B(<<G(900), G(0), Z(2)>>),
  B(<<G(800)>>), B(<<G(20), X(1), Y(1), R(1)>>), B(<<G(30), Y(-1), W("I", 500), W("J", 0)>>),
  B(<<G(382), Z(-3)>>), B(<<G(920), X(0), Y(3)>>), B(<<G(280)>>), B(<<G(530), G(0), X(1)>>),
  B(<<G(100), W("L", 2), W("P", 1000), X(3)>>), B(<<G(40), W("P", 1000)>>), B(<<G(200)>>), B(<<G(0)>>),
  B(<<G(0), X(1), W("A", 1000)>>), B(<<W("A", 2000)>>), B(<<M(60), W("T", 2)>>), B(<<W("F", 100000), G(10), X(1)>>),
  B(<<G(330), Z(-1), W("K", 500)>>), B(<<G(10), X(1), G(0)>>), B(<<M(300)>>), B(<<G(910), G(10)>>),
  B(<<G(50), X(1), Y(0), W("I", 1000), W("P", 500)>>), B(<<N0, X(-2)>>),
  Mov("X" :> 500), Mov("Y" :> -500 @@ "Z" :> 0), Pos3(0, 0, 0), Pos3(1000, 0, -2000), Off(1, 1000, 0, 0)
  >>

(* Offsets and coordinate systems.                                            *)
OffsetActs == <<
  Off(0, 1000, 0, -500), Off(0, 0, 0, 0), Off(1, 0, 2000, 0), Off(2, 500, 500, 500), Off(9, -3000, 0, 0),
  Off(6, 0, 0, 7000),
  B(<<G(540)>>), B(<<G(550)>>), B(<<G(593)>>), B(<<G(590)>>), B(<<G(560), X(1)>>), B(<<X(1), G(550), G(0)>>), B(<<G(910)>>),
  B(<<G(900), G(10), Y(1)>>), B(<<G(910), G(550), Z(1)>>), B(<<X(0)>>), B(<<G(0), X(0), Y(0), Z(0)>>),
  B(<<G(810), X(1), Z(-1), R(1), G(990)>>), B(<<G(540), G(20), X(1), R(3)>>),
  B(<<G(920), X(0)>>), B(<<G(921)>>), B(<<G(100), W("L", 2), W("P", 1000), X(5)>>), B(<<G(530), X(1)>>),
  Pos3(1000, 1000, 1000), Pos3(0, 0, 0), Mov("Z" :> 1000), B(<<M(20)>>)
  >>

(* Modal lines.                                                               *)
ModalActs == <<
  B(<<X(1)>>), B(<<Y(2), X(1)>>), B(<<Z(-2)>>), B(<<R(2)>>), B(<<X(1), R(1)>>), B(<<W("P", 500), Y(1)>>), B(<<W("Q", 250), Z(-1)>>),
  B(<<W("L", 2), X(1)>>), B(<<W("I", 500), X(1)>>), B(<<W("U", 500)>>), B(<<W("D", 500), X(1)>>),
  B(<<G(0)>>), B(<<G(10), X(1)>>), B(<<G(20), X(1), Y(1), R(1)>>), B(<<G(800)>>), B(<<G(800), X(1)>>),
  B(<<G(810), X(1), Z(-1), R(1)>>), B(<<G(820), Z(-2), R(2), W("P", 500)>>), B(<<G(830), X(1), Z(-3), R(1), W("Q", 1000)>>),
  B(<<G(730), Y(1), Z(-1), R(1), W("Q", 500)>>), B(<<G(890), X(2), Z(-1), R(1)>>),
  B(<<G(990)>>), B(<<G(980), X(1)>>), B(<<G(170)>>), B(<<G(180), Y(-1)>>), B(<<G(190), Y(3)>>), B(<<G(910), X(1)>>), B(<<G(900)>>),
  B(<<W("F", 5000), X(2)>>), B(<<M(30), W("S", 1000000), Y(1)>>), B(<<X(1), X(2)>>), B(<<G(10), G(0)>>), B(<<X(1), G(40), W("P", 1000)>>),
  B(<<G(0), W("I", 1000)>>), B(<<W("N", 5), X(1)>>), B(<<W("K", 500), X(1)>>), B(<<G(40), X(1)>>)
  >>

(* Canned cycles: return levels, planes, repeats.                             *)
CannedActs == <<
  B(<<G(810), X(1), Y(1), Z(-1), R(1)>>), B(<<G(820), X(1), Z(-2), R(0), W("L", 2)>>), B(<<G(830), Y(2), Z(-1), R(2), W("Q", 500)>>),
  B(<<G(730), X(2), Z(-1), R(-1), W("Q", 250), W("L", 3)>>), B(<<G(850), Z(-3), R(1), W("P", 0)>>), B(<<G(890), X(1), Y(1), R(3)>>),
  B(<<G(760), Z(-1), W("I", 500), W("J", 500), W("K", 1000)>>), B(<<X(1)>>), B(<<Y(-1), W("L", 2)>>), B(<<R(2)>>), B(<<Z(-2)>>),
  B(<<X(2), R(1), W("L", 0)>>), B(<<Y(1), Z(-1), R(1), W("L", 1)>>),
  B(<<G(980)>>), B(<<G(990)>>), B(<<G(990), X(1)>>), B(<<G(170)>>), B(<<G(180)>>), B(<<G(190)>>), B(<<G(180), Y(-1), R(1)>>),
  B(<<G(900)>>), B(<<G(910)>>), B(<<G(910), X(1), Z(-1), R(1), W("L", 2)>>), B(<<G(910), G(810), X(1), Z(-1), R(1), W("L", 3)>>), B(<<G(800)>>), B(<<G(10), Z(2)>>), B(<<G(0), X(0), Y(0)>>),
  Off(1, 0, 0, 1000), Off(0, 500, 0, -500), B(<<G(990), G(810), X(1), Z(-1)>>), B(<<G(170), G(990), G(820), X(3), Z(0), R(2), W("P", 100)>>)
  >>

(* Modes: two members of every group (three of some), with and without        *)
(* parameters, alone and in company.                                          *)
ModeActs == <<
  B(<<G(0)>>), B(<<G(10), X(1)>>), B(<<G(20), X(1), R(1)>>), B(<<G(800)>>), B(<<G(810), X(1), Z(-1), R(1), W("P", 500)>>), B(<<G(830), Z(-1), R(1), W("Q", 500), W("L", 2)>>),
  B(<<G(384), X(1)>>), B(<<G(170)>>), B(<<G(180)>>), B(<<G(191)>>), B(<<G(900)>>), B(<<G(910)>>), B(<<G(901)>>), B(<<G(911), G(910)>>),
  B(<<G(930)>>), B(<<G(940)>>), B(<<G(950), W("F", 1500)>>), B(<<G(200)>>), B(<<G(210)>>),
  B(<<G(400)>>), B(<<G(410), W("D", 3000)>>), B(<<G(421), W("D", 1500), W("L", 3)>>), B(<<G(430), W("H", 2000)>>), B(<<G(431)>>), B(<<G(490)>>),
  B(<<G(980)>>), B(<<G(990)>>), B(<<G(540)>>), B(<<G(592)>>), B(<<G(610)>>), B(<<G(640), W("P", 10)>>), B(<<G(640)>>),
  B(<<G(960), W("D", 2500000)>>), B(<<G(970)>>), B(<<G(960), W("S", 500000)>>), B(<<G(70)>>), B(<<G(80)>>),
  B(<<M(0)>>), B(<<M(300)>>), B(<<M(30), W("S", 1000000)>>), B(<<M(40)>>), B(<<M(50)>>), B(<<M(190)>>),
  B(<<M(70)>>), B(<<M(80)>>), B(<<M(90)>>), B(<<M(480)>>), B(<<M(490)>>), B(<<M(500), W("P", 0)>>), B(<<M(520)>>),
  B(<<W("F", 100000)>>), B(<<W("S", 2000000)>>), B(<<W("T", 1)>>), B(<<W("T", 7), M(60)>>), B(<<M(60), W("T", 3)>>),
  B(<<M(610), W("Q", 1000)>>), B(<<W("N", 10), G(10)>>),
  B(<<G(10), G(0)>>), B(<<M(30), M(40)>>), B(<<G(170), G(170)>>), B(<<G(40), W("P", 500)>>), B(<<G(40), G(100)>>), B(<<X(1)>>),
  B(<<G(170), G(900), G(10), X(2), M(90), W("F", 5000), G(210)>>), B(<<M(620), M(680)>>)
  >>


Acts == CASE Scn = "path"   -> PathActs
          [] Scn = "offset" -> OffsetActs
          [] Scn = "modal"  -> ModalActs
          [] Scn = "canned" -> CannedActs
          [] Scn = "mode"   -> ModeActs

ASSUME PrintT("ACTS|" \o ToJson(Acts))

Axes3 == {"X", "Y", "Z"}
Library == << <<G(0)>>, <<G(170)>>, <<G(900)>>, <<G(911)>>, <<G(940)>>, <<G(210)>>, <<G(400)>>, <<G(490)>>, <<G(540)>>,
              <<G(610)>>, <<G(970)>>, <<M(50)>>, <<M(90)>>, <<W("F", 0)>>, <<W("S", 0)>>, <<W("T", 0)>> >>
Boots == << [ign |-> FALSE, boot |-> "library"], [ign |-> FALSE, boot |-> "null"], [ign |-> TRUE, boot |-> "library"] >>
Booted(b) == Boot(Axes3, b.ign, IF b.boot = "library" THEN Library ELSE << >>)

VARIABLES m, b, h
vars == <<m, b, h>>

NoEff == << >>
Step(s, a) ==
  CASE a.op = "blk" -> LET x == MeaningOf(s, Group(a.ws)) IN
                       [ok |-> x.ok, eff |-> x.eff, m |-> BlockOf(s, x).m, open |-> OpenMeaning(s, x)]
    [] a.op = "off" -> [ok |-> TRUE, eff |-> NoEff, open |-> FALSE,
                        m |-> IF a.cs = 0 THEN [s EXCEPT !.tmp = a.to] ELSE [s EXCEPT !.off[a.cs] = a.to]]
    [] a.op = "pos" -> [ok |-> TRUE, eff |-> NoEff, open |-> FALSE, m |-> Goto(s, ToAbs(s, a.p))]
    [] a.op = "mov" -> [ok |-> TRUE, eff |-> NoEff, open |-> FALSE, m |-> Move(s, a.p)]

Init == /\ b \in 1..Len(Boots)
        /\ m = Booted(Boots[b])
        /\ h = << >>

(* A machine, as it is compared with a real one.                              *)
Shown(s) == [ mode |-> { <<g, s.mode[g].w, s.mode[g].ps>> : g \in { k \in Groups : s.mode[k] # None } },
              abs |-> s.abs, pos |-> Pos(s), lo |-> s.lo, hi |-> s.hi, cs |-> s.cs, tmp |-> s.tmp, off |-> s.off ]

Next == /\ Len(h) < Depth
        /\ b' = b
        /\ \E k \in 1..Len(Acts) :
             LET r == TLCEval(Step(m, Acts[k])) IN
             /\ ~r.open
             /\ PrintT("EDGE|" \o ToJson([b |-> b, h |-> Append(h, k), ok |-> r.ok, eff |-> r.eff, m |-> Shown(r.m)]))
             /\ m' = r.m
             /\ h' = Append(h, k)
Spec == Init /\ [][Next]_vars
View == <<m, b, Len(h)>>

------------------------------------------------------------------------------
(* Laws of every state *)
Envelope == \A a \in m.ax : m.lo[a] <= m.abs[a] /\ m.abs[a] <= m.hi[a]
OwnGroup == \A g \in Groups : m.mode[g] # None =>
              /\ GroupOf(m.mode[g]) = g
              /\ \A p \in m.mode[g].ps : p[1] \in RowOf(m.mode[g].w).re
              /\ \A p, q \in m.mode[g].ps : p[1] = q[1] => p = q
Selected == m.mode["coordinate_system"] # None => m.cs = CoordSys[m.mode["coordinate_system"].w[2]]
ThereAndBack == ToAbs(m, Pos(m)) = m.abs /\ ToWork(m, ToAbs(m, m.abs)) = m.abs
\* the commands of a mode, executed by a machine without modes, give that mode
Rebuilt == LET cmds == InOrder(SetToSeq(ModeCmds(m)))
               e == [ok |-> TRUE, eff |-> cmds]
           IN OpenMeaning(Fresh(m.ax, FALSE), e) \/ ExecAll(Fresh(m.ax, FALSE), cmds).mode = m.mode
StateLaws == Envelope /\ OwnGroup /\ Selected /\ ThereAndBack /\ Rebuilt

(* Laws of every edge (of every block in every state) *)
Words(cmds) == FoldLeft(LAMBDA acc, c : acc \o <<c.w>> \o SetToSeq(c.ps), << >>, cmds)
SameGroups(x, y, except) == \A g \in Groups \ except : x.mode[g] = y.mode[g]
EdgeLaw(a) ==
  a.op = "blk" =>
  LET g == Group(a.ws)
      x == MeaningOf(m, g)
      n == BlockOf(m, x).m
      ran == { x.eff[i] : i \in DOMAIN x.eff } IN
  OpenMeaning(m, x) \/
  /\ ~x.ok => n = m
  \* the written order of commands does not matter
  /\ x.ok => ExecAll(m, InOrder(Reverse(x.eff))) = n
  \* the block means the same as its commands fully written
  /\ x.ok => LET full == [m EXCEPT !.ign = FALSE]
                 y == MeaningOf(full, Group(Words(x.eff))) IN
             y.ok /\ BlockOf(full, y).m = [n EXCEPT !.ign = FALSE]
  \* only motion moves, and only the axes of the machine
  /\ (\A c \in ran : KindOf(c) \notin {"move", "canned"}) => n.abs = m.abs /\ n.lo = m.lo /\ n.hi = m.hi
  \* only the groups of its commands change
  /\ x.ok => SameGroups(n, m, { GroupOf(c) : c \in ran } \cup (IF \E c \in ran : KindOf(c) = "cancel" THEN {"motion"} ELSE {}))
  \* offsets are not changed by blocks
  /\ n.off = m.off /\ n.tmp = m.tmp
  \* the range only grows, to include the new position
  /\ \A k \in m.ax : n.lo[k] <= m.lo[k] /\ n.hi[k] >= m.hi[k] /\ n.lo[k] <= n.abs[k] /\ n.abs[k] <= n.hi[k]
EdgeLaws == \A k \in 1..Len(Acts) : EdgeLaw(Acts[k])
=============================================================================
