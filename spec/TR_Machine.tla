----------------------------- MODULE TR_Machine -----------------------------
(* Recorded histories of real machines must be behaviours of the specified    *)
(* machine.  Each trace is a list of events; every event carries its          *)
(* arguments, its outcome, and the observable state of every machine.         *)
EXTENDS Machine, TraceIO

VARIABLES t, i, S
vars == <<t, i, S>>

TraceInit == /\ t \in 1..Len(Traces)
             /\ i = 0
             /\ S = << >>                    \* no machines yet

------------------------------------------------------------------------------
(* Decoding *)
ToCmd(e) == Cmd(e[1], ToSet(e[2]))
ToCmds(s) == [k \in DOMAIN s |-> ToCmd(s[k])]
NoDup(e) == Len(e[2]) = Cardinality(ToSet(e[2]))

(* What is observed of a machine.                                             *)
ModeSeen(o) == { <<e[1], e[2], ToSet(e[3])>> : e \in ToSet(o.mode) }
ModeWant(m) == { <<g, m.mode[g].w, m.mode[g].ps>> : g \in { h \in Groups : m.mode[h] # None } }
SameVals(f, g) == DOMAIN f = DOMAIN g /\ \A a \in DOMAIN f : f[a] = g[a]

ObsClauses(name, m, o) ==
  { << name \o ".mode", ModeSeen(o) = ModeWant(m) /\ Len(o.mode) = Cardinality(ModeSeen(o)) >>,
    << name \o ".position", SameVals(o.abs, m.abs) >>,
    << name \o ".work", SameVals(o.pos, Pos(m)) >>,
    << name \o ".range", SameVals(o.lo, m.lo) /\ SameVals(o.hi, m.hi) >>,
    << name \o ".envelope", \A a \in m.ax : m.lo[a] <= m.abs[a] /\ m.abs[a] <= m.hi[a] >>,
    << name \o ".coordsys", o.cs = m.cs >>,
    << name \o ".offsets", "off" \in DOMAIN o => \A k \in 1..9 : SameVals(o.off[k], m.off[k]) >>,
    << name \o ".offset", SameVals(o.tmp, m.tmp) >> }

Observed(e, st) ==
  IF ~Field(e, "obs") THEN {}
  ELSE UNION { IF n \in DOMAIN st THEN ObsClauses(n, st[n], e.obs[n])
               ELSE { << n \o ".unexpected", FALSE >> } : n \in DOMAIN e.obs }

------------------------------------------------------------------------------
(* The specified effect of an event: the new machines, and the clauses the    *)
(* recorded outcome has to satisfy.                                           *)
Res(st, cl) == TLCEval([st |-> st, cl |-> cl, open |-> FALSE])
Only(st, n, m) == (n :> m) @@ st

DoNew(e, st) ==
  Res(Only(st, e.m, Boot(ToSet(e.ax), e.ign, e.boot)), { <<"created", e.res = "ok">> })

\* parse: what the block's words were taken to be
ParseClauses(e, g) ==
  LET good == ~g.dup /\ ~Conflict(g.cmds) IN
  IF ~Field(e, "cmds") THEN {}
  ELSE { <<"accepted", e.parsed = "ok" <=> good>>,
         <<"rejected-properly", e.parsed # "crash">> }
       \cup (IF good /\ e.parsed = "ok"
             THEN { <<"commands", ToCmds(e.cmds) = g.cmds /\ \A k \in DOMAIN e.cmds : NoDup(e.cmds[k])>>,
                    <<"leftovers", e.rest = g.rest>> }
             ELSE {})
       \cup (IF ~Field(e, "cmds2") THEN {}
             ELSE { <<"block-unchanged", e.cmds2 = e.cmds /\ e.rest2 = e.rest>> })

EffClauses(e, x) ==
  IF ~Field(e, "eff") THEN {}
  ELSE { <<"effective-outcome", e.effres = (IF x.ok THEN "ok" ELSE "rej")>> }
       \cup (IF x.ok /\ e.effres = "ok" THEN { <<"effective", ToCmds(e.eff) = x.eff>> } ELSE {})

DoBlock(e, st) ==
  LET m == st[e.m]
      g == Group(e.ws)
      x == MeaningOf(m, g)
      b == BlockOf(m, x) IN
  IF OpenMeaning(m, x) THEN [st |-> st, cl |-> {}, open |-> TRUE]
  ELSE Res(Only(st, e.m, b.m),
       { <<"outcome", e.res = (IF b.ok THEN "ok" ELSE "rej")>> }
       \cup ParseClauses(e, g) \cup EffClauses(e, x))

\* cleaned, then processed by the same machine
DoClean(e, st) ==
  LET m == st[e.m]
      g == Group(e.ws)
      c == Cleaned(m, e.ws)
      dup == DupLetters(c.rest)
      good == ~g.dup /\ ~Conflict(g.cmds)
      m2 == ExecAll(m, Meaning([m EXCEPT !.ign = TRUE], e.ws).eff) IN
  IF ~good THEN Res(st, { <<"outcome", e.res = "rej">> })
  ELSE IF dup THEN Res(st, { <<"duplicates-rejected", e.res = "rej">> })
  ELSE IF Open([m EXCEPT !.ign = TRUE], e.ws) THEN [st |-> st, cl |-> {}, open |-> TRUE]
  ELSE Res(Only(st, e.m, m2),
       { <<"cleaned", e.clres = "ok">>, <<"processed-after-cleaning", e.res = "ok">> }
       \cup (IF e.clres = "ok"
             THEN { <<"own-commands-kept", ToCmds(e.cmds) = c.cmds>>,
                    <<"valid-parameters-kept", e.rest = c.rest>> }
             ELSE {}))

PosOf(m, r) == [a \in m.ax |-> r[a]]

DoOffset(e, st) ==
  LET m == st[e.m] IN
  Res(Only(st, e.m, IF e.cs = 0 THEN [m EXCEPT !.tmp = PosOf(m, e.to)]
                    ELSE [m EXCEPT !.off[e.cs] = PosOf(m, e.to)]),
      { <<"offset-set", e.res = "ok">> })

\* conversions of a given position
DoConvert(e, st) ==
  LET m == st[e.m] IN
  Res(st, { <<"converted", e.res = "ok">> } \cup
      (IF e.res # "ok" THEN {}
       ELSE { <<"abs-to-work", SameVals(e.work, ToWork(m, PosOf(m, e.p)))>>,
              <<"work-to-abs", SameVals(e.abs, ToAbs(m, PosOf(m, e.p)))>>,
              <<"abs-work-abs", SameVals(e.back1, e.p)>>,
              <<"work-abs-work", SameVals(e.back2, e.p)>>,
              <<"argument-unchanged", SameVals(e.after, e.p)>> }))

\* position set directly, in work coordinates
DoSetPos(e, st) ==
  LET m == st[e.m] IN
  IF DOMAIN e.p # m.ax THEN Res(st, { <<"incompatible-axes-rejected", e.res = "rej">> })
  ELSE Res(Only(st, e.m, Goto(m, ToAbs(m, PosOf(m, e.p)))), { <<"position-set", e.res = "ok">> })

DoMove(e, st) ==
  LET m == st[e.m] IN
  IF ~(DOMAIN e.p \subseteq m.ax) THEN Res(st, { <<"undefined-axis-rejected", e.res = "rej">> })
  ELSE Res(Only(st, e.m, Move(m, e.p)), { <<"moved", e.res = "ok">> })

DoCopy(e, st) == Res(Only(st, e.to, st[e.m]), { <<"copied", e.res = "ok">> })

(* A copy that ignores modal parameters it cannot use.                        *)
DoCopyIgnoring(e, st) == Res(Only(st, e.to, [st[e.m] EXCEPT !.ign = TRUE]), { <<"copied", e.res = "ok">> })

(* The coordinate system in force is the one selected by the mode, if any.    *)
Acting(m) == IF m.mode["coordinate_system"] = None THEN m
             ELSE [m EXCEPT !.cs = CoordSys[m.mode["coordinate_system"].w[2]]]

(* A copy taken while a coordinate system chosen directly isn't acted on yet: *)
(* the copy shows the same; then both act.                                    *)
SameSeen(a, b) == /\ ModeSeen(a) = ModeSeen(b)
                  /\ SameVals(a.abs, b.abs) /\ SameVals(a.pos, b.pos)
                  /\ SameVals(a.lo, b.lo) /\ SameVals(a.hi, b.hi)
                  /\ a.cs = b.cs /\ SameVals(a.tmp, b.tmp)
                  /\ \A k \in 1..9 : SameVals(a.off[k], b.off[k])
DoCopyPending(e, st) ==
  LET m == Acting(IF e.what = "mode" THEN [st[e.m] EXCEPT !.mode["coordinate_system"] = Cmd(e.w, {})]
                  ELSE [st[e.m] EXCEPT !.cs = e.n]) IN
  Res(Only(Only(st, e.m, m), e.to, m),
      { <<"copied", e.res = "ok">> } \cup
      (IF e.res = "ok" THEN { <<"copy shows the same", SameSeen(e.seen[1], e.seen[2])>> } ELSE {}))

(* The mode of one machine given (copied) to another.                         *)
DoCopyMode(e, st) ==
  Res(Only(st, e.to, Acting([st[e.to] EXCEPT !.mode = st[e.m].mode])), { <<"copied", e.res = "ok">> })

(* The state (offsets, coordinate system) of one machine given to another.    *)
DoCopyState(e, st) ==
  Res(Only(st, e.to, Acting([st[e.to] EXCEPT !.cs = st[e.m].cs, !.off = st[e.m].off,
                                             !.tmp = st[e.m].tmp])),
      { <<"copied", e.res = "ok">> })

(* The text of a mode is processed, block by block, by another machine.  The  *)
(* text must list every active command once, and re-create the mode.          *)
DoModeText(e, st) ==
  LET m == st[e.m] IN
  Res(Only(st, e.to, [st[e.to] EXCEPT !.mode = m.mode,
                                      !.cs = IF m.mode["coordinate_system"] = None
                                             THEN st[e.to].cs ELSE m.cs]),
      { <<"text-processed", e.res = "ok">> } \cup
      (IF e.res # "ok" THEN {}
       ELSE { <<"listing", /\ ToSet(ToCmds(e.cmds)) = ModeCmds(m)
                           /\ Len(e.cmds) = Cardinality(ModeCmds(m))>>,
              <<"listed-once", /\ ToSet(ToCmds(e.listing)) = ModeCmds(m)
                               /\ Len(e.listing) = Cardinality(ModeCmds(m))>> }))

(* Grouping a list of words, without verification.                            *)
DoGroup(e, st) ==
  LET g == Group(e.ws) IN
  Res(st, { <<"outcome", e.res = (IF g.dup THEN "rej" ELSE "ok")>> } \cup
      (IF g.dup \/ e.res # "ok" THEN {}
       ELSE { <<"commands", ToCmds(e.cmds) = g.cmds /\ \A k \in DOMAIN e.cmds : NoDup(e.cmds[k])>>,
              <<"leftovers", e.rest = g.rest>> }))

(* Parsing a block (verified).                                                *)
DoParse(e, st) ==
  LET g == Group(e.ws)
      good == ~g.dup /\ ~Conflict(g.cmds) IN
  Res(st, { <<"outcome", e.res = (IF good THEN "ok" ELSE "rej")>> } \cup
      (IF ~good \/ e.res # "ok" THEN {}
       ELSE { <<"commands", ToCmds(e.cmds) = g.cmds /\ \A k \in DOMAIN e.cmds : NoDup(e.cmds[k])>>,
              <<"leftovers", e.rest = g.rest>> }))

DoSort(e, st) ==
  LET cs == ToCmds(e.cmds) IN
  Res(st, { <<"sorted", e.res = "ok" /\ ToCmds(e.out) = InOrder(cs)>>,
            <<"compared", \A k \in DOMAIN e.rel :
                LET a == StageOf(cs[e.rel[k][1]])  b == StageOf(cs[e.rel[k][2]]) IN
                SubSeq(e.rel[k], 3, 6) = << a < b, a <= b, a > b, a >= b >> >>,
            <<"input-unchanged", ToCmds(e.after) = cs>> })

(* Splitting at the first command with a given word, or of a given group, or  *)
(* kind.                                                                      *)
Hit(e, c) == CASE e.by = "word"  -> c.w = e.at
               [] e.by = "group" -> GroupOf(c) = e.at
               [] OTHER          -> KindOf(c) = e.at
DoSplit(e, st) ==
  LET cs == ToCmds(e.cmds)
      src == IF e.sort THEN InOrder(cs) ELSE cs IN
  Res(st, { <<"split", e.res = "ok"
               /\ <<ToCmds(e.out[1]), ToCmds(e.out[2]), ToCmds(e.out[3])>>
                  = SplitAt(src, LAMBDA c : Hit(e, c))>>,
            <<"input-unchanged", ToCmds(e.after) = cs>> })

(* What is known of one command: its group and accepted letters.              *)
DoTable(e, st) ==
  Res(st, IF ~IsCode(e.w)
          THEN { <<"not-a-command", e.res = "ok" /\ e.cmds = << >> /\ e.rest = <<e.w>> >> }
          ELSE { <<"one-command", e.res = "ok" /\ ToCmds(e.cmds) = <<Cmd(e.w, {})>> /\ e.rest = << >> >>,
                 <<"letters", ToSet(e.letters) = RowOf(e.w).ps>>,
                 <<"group", e.group = RowOf(e.w).g>>,
                 <<"exported", e.named>> })

(* A command of a machine's mode is changed in place (it's that machine's).   *)
DoTweak(e, st) ==
  Res(Only(st, e.m, [st[e.m] EXCEPT !.mode[e.g].w = e.w]), { <<"outcome", e.res = "ok">> })

ModeAt(m, g) == IF m.mode[g] = None THEN <<>> ELSE m.mode[g].w

(* The mode of a group assigned: a command of that group, or nothing (w empty).*)
(* (The driver has the machine act on it.)                                    *)
DoAssign(e, st) ==
  LET m == st[e.m]
      c == ToCmd(<<e.w, e.ps>>)
      fits == IF e.what = "none" THEN TRUE ELSE IF e.what = "command" THEN GroupOf(c) = e.g ELSE FALSE
      m2 == IF ~fits THEN m ELSE Acting([m EXCEPT !.mode[e.g] = IF e.what = "none" THEN None ELSE Retained(c)]) IN
  Res(Only(st, e.m, m2),
      { <<"outcome", e.res = (IF fits THEN "ok" ELSE "rej")>>,
        <<"read back", ModeAt(m2, e.g) = e.got>>,
        <<"no other name", e.others = 0>> })

(* Several modes set at once; what was set is returned.                       *)
DoSetModes(e, st) ==
  LET m == st[e.m]
      cs == InOrder(ToCmds(e.cmds))
      m2 == FoldLeft(LAMBDA s, c : SetMode(s, c), m, cs)
      named == { GroupOf(cs[k]) : k \in DOMAIN cs } \ {""} IN
  Res(Only(st, e.m, m2),
      { <<"outcome", e.res = "ok">> } \cup
      (IF ~e.returns THEN {}
       ELSE { <<"returned", /\ Len(e.got) = Cardinality(named)
                            /\ \A k \in DOMAIN e.got : /\ e.got[k][1] \in named
                                                       /\ <<e.got[k][2], ToSet(e.got[k][3])>>
                                                          = <<m2.mode[e.got[k][1]].w, m2.mode[e.got[k][1]].ps>>
                            /\ { e.got[k][1] : k \in DOMAIN e.got } = named>> }))

Skip(e, st) == Res(st, IF Field(e, "res") THEN { <<"outcome", e.res = "ok">> } ELSE {})

Apply(e, st) ==
  CASE e.op = "new"   -> DoNew(e, st)
    [] e.op = "blk"   -> DoBlock(e, st)
    [] e.op = "clean" -> DoClean(e, st)
    [] e.op = "off"   -> DoOffset(e, st)
    [] e.op = "cvt"   -> DoConvert(e, st)
    [] e.op = "pos"   -> DoSetPos(e, st)
    [] e.op = "mov"   -> DoMove(e, st)
    [] e.op = "cp"    -> DoCopy(e, st)
    [] e.op = "cpp"   -> DoCopyPending(e, st)
    [] e.op = "cpi"   -> DoCopyIgnoring(e, st)
    [] e.op = "cpm"   -> DoCopyMode(e, st)
    [] e.op = "cps"   -> DoCopyState(e, st)
    [] e.op = "mt"    -> DoModeText(e, st)
    [] e.op = "grp"   -> DoGroup(e, st)
    [] e.op = "parse" -> DoParse(e, st)
    [] e.op = "srt"   -> DoSort(e, st)
    [] e.op = "spl"   -> DoSplit(e, st)
    [] e.op = "tab"   -> DoTable(e, st)
    [] e.op = "twk"   -> DoTweak(e, st)
    [] e.op = "asg"   -> DoAssign(e, st)
    [] e.op = "sms"   -> DoSetModes(e, st)
    [] e.op = "same"  -> Skip(e, st)

------------------------------------------------------------------------------
TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         r == Apply(e, S)
         bad == IF r.open THEN {} ELSE Broken(r.cl \cup Observed(e, r.st))
         last == i + 1 = Len(Traces[t])
     IN IF r.open
        THEN /\ Opened(t, i + 1) /\ Finished(t)
             /\ i' = Len(Traces[t]) /\ S' = S
        ELSE IF bad # {}
        THEN /\ Report(t, i + 1, bad) /\ Finished(t)
             /\ i' = Len(Traces[t]) /\ S' = S
        ELSE /\ (last => Finished(t))
             /\ i' = i + 1 /\ S' = r.st
  /\ t' = t

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
