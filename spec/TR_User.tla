------------------------------ MODULE TR_User -------------------------------
(* Recorded definitions and uses of users' own commands.                      *)
EXTENDS TR_Machine, User

uvars == <<t, i, S, defs, used>>
Over(e, f, default) == IF Field(e, f) THEN e[f] ELSE default

\* what a definition inherits
Parent(e) == IF Field(e, "family") THEN [key |-> <<>>, rng |-> <<>>, def |-> <<>>, row |-> Families[e.family]]
             ELSE IF Field(e, "lib") THEN [key |-> e.lib, rng |-> <<>>, def |-> <<>>, row |-> LibRowOf(e.lib)]
             ELSE defs[CHOOSE k \in DOMAIN defs : defs[k].name = e.of]
Defined(e) ==
  LET p == Parent(e) IN
  [ name |-> e.name, key |-> Over(e, "key", p.key), rng |-> Over(e, "rng", p.rng), def |-> Over(e, "def", p.def),
    row |-> Row(Over(e, "g", p.row.g), Over(e, "st", p.row.st),
                IF Field(e, "ps") THEN ToSet(e.ps) ELSE p.row.ps,
                IF Field(e, "re") THEN ToSet(e.re) ELSE p.row.re, p.row.k) ]

NameOf(w) == LET k == DefOf(used, w) IN
             IF k # 0 THEN used[k].name ELSE IF LibIsCode(w) THEN "lib" ELSE ""

\* which class is taken for a word
DoClass(e) ==
  { <<"looked up", e.res = "ok">>, <<"class", e.got = NameOf(e.w)>> }

\* the classes of the commands of a block
DoWho(e) ==
  LET g == Group(e.ws) IN
  IF g.dup THEN { <<"rejected", e.res = "rej">> }
  ELSE { <<"grouped", e.res = "ok">>,
         <<"classes", e.res = "ok" => e.got = [k \in DOMAIN g.cmds |-> NameOf(g.cmds[k].w)]>> }

\* an instance made without word, with parameters
DoMake(e) ==
  LET d == defs[CHOOSE k \in DOMAIN defs : defs[k].name = e.name]
      good == /\ OwnWord(d) # <<>>
              /\ \A p \in ToSet(e.ps) : p[1] \in d.row.ps IN
  { <<"made", e.res = (IF good THEN "ok" ELSE "rej")>> } \cup
  (IF good /\ e.res = "ok" THEN { <<"word", e.cmd[1] = OwnWord(d)>>, <<"parameters", ToSet(e.cmd[2]) = ToSet(e.ps)>>,
                                  <<"group", e.g = d.row.g>> }
   ELSE {})

UInit == TraceInit /\ defs = <<>> /\ used = <<>>

UStep(e) ==
  IF e.op = "def"
    THEN /\ defs' = Append(defs, TLCEval(Defined(e))) /\ UNCHANGED <<used, S>>
         /\ i' = i + 1
    ELSE IF e.op = "build"
    THEN LET bad == e.res # (IF Ambiguous(defs) THEN "dup" ELSE "ok") IN
         /\ (bad => Report(t, i + 1, {IF Ambiguous(defs) THEN "ambiguous commands refused" ELSE "tables built"}))
         /\ used' = defs /\ UNCHANGED <<defs, S>>
         /\ i' = IF bad THEN Len(Traces[t]) ELSE i + 1
    ELSE LET own == e.op \in {"class", "who", "make"}
             cl == CASE e.op = "class" -> DoClass(e) [] e.op = "who" -> DoWho(e) [] e.op = "make" -> DoMake(e) [] OTHER -> {}
             r == IF own THEN Res(S, cl) ELSE Apply(e, S)
             bad == IF r.open THEN {} ELSE Broken(r.cl \cup (IF own THEN {} ELSE Observed(e, r.st)))
         IN /\ (bad # {} => Report(t, i + 1, bad))
            /\ (r.open => Opened(t, i + 1))
            /\ S' = IF bad = {} THEN r.st ELSE S
            /\ i' = IF bad # {} \/ r.open THEN Len(Traces[t]) ELSE i + 1
            /\ UNCHANGED <<defs, used>>

UNext == /\ i < Len(Traces[t])
         /\ UStep(Traces[t][i + 1])
         /\ (i' = Len(Traces[t]) => Finished(t))
         /\ t' = t
UTraceSpec == UInit /\ [][UNext]_uvars
=============================================================================
