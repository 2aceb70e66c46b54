------------------------------ MODULE TR_Params -----------------------------
(* Recorded operations on commands' parameters must be as specified.          *)
(*   state  s : name -> command                                               *)
EXTENDS Params, TraceIO

VARIABLES t, i, s
vars == <<t, i, s>>
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ s = [n \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

\* A command as seen: [word, [params]]; words may be listed in any order
FromList(c) == [ w |-> c[1], ps |-> [l \in { c[2][k][1] : k \in DOMAIN c[2] } |->
                     (CHOOSE p \in ToSet(c[2]) : p[1] = l)[2]] ]
NoRepeat(c) == Cardinality({ c[2][k][1] : k \in DOMAIN c[2] }) = Len(c[2])

Clause(name, r, e) == { <<name, e.res = (IF r.ok THEN "ok" ELSE "rej")>> }

Step(e) ==
  LET c == s[e.n] IN
  CASE e.op = "mk" ->
       LET r == IF e.how = "attr" THEN ByAssign(e.w, e.ps) ELSE Build(e.w, e.ps) IN
       << IF r.ok THEN Put(s, e.n, r.cmd) ELSE s, Clause("built", r, e) >>
    [] e.op = "new" -> LET ok == HasDefault(e.w) IN
       << IF ok THEN Put(s, e.n, Bare(DefaultWord(e.w))) ELSE s, { <<"made", (e.res = "ok") = ok>> } >>
    [] e.op = "number" -> << Put(s, e.n, Bare(e.w)), { <<"made of a number", e.res = "ok">> } >>
    [] e.op = "add" -> LET r == Add(c, e.l, e.v) IN << Put(s, e.n, r.cmd), Clause("added", r, e) >>
    [] e.op = "set" -> LET r == Assign(c, e.l, e.v) IN << Put(s, e.n, r.cmd), Clause("assigned", r, e) >>
    [] e.op = "bad" -> << s, { <<"refused", e.res = "rej">> } >>   \* not a value at all
    [] e.op = "get" ->
       << s, { <<"read", e.res = (IF Accepts(c, e.l) THEN "ok" ELSE "rej")>>,
               <<"value", e.res = "ok" => e.out = (IF Has(c, e.l) THEN <<c.ps[e.l]>> ELSE <<>>)>> } >>
    [] e.op = "eq" -> LET d == s[e.m] IN
       << s, { <<"compared", e.res = "ok">>, <<"equal", e.eq = (c = d)>>, <<"unequal", e.ne = (c # d)>> } >>
    [] e.op = "dict" ->
       LET want == IF e.all THEN c ELSE Only(c, ToSet(e.limit)) IN
       << s, { <<"listed", e.res = "ok">>,
               <<"dict", e.res = "ok" => NoRepeat(<<c.w, e.out>>) /\ FromList(<<c.w, e.out>>) = want>> } >>
    [] e.op = "str" ->
       << s, { <<"printed", e.res = "ok">>,
               <<"text", e.res = "ok" => NoRepeat(e.out) /\ FromList(e.out) = c>> } >>
    \* a command's word changed (and changed back): every command has its own
    [] e.op = "vary" ->
       << s, { <<"varied", e.res = "ok">>, <<"own word", e.fresh = e.key>>, <<"still known", e.same>>,
               <<"others", \A n \in DOMAIN s \ {e.n} : n \in DOMAIN e.others /\ FromList(e.others[n]) = s[n]>> } >>
    [] e.op = "copy" -> << Put(s, e.m, c), { <<"copied", e.res = "ok">> } >>
    [] e.op = "mcopy" -> << Put(s, e.m, Retained(c)), { <<"copied", e.res = "ok">> } >>

Unchanged(e, s2) == /\ DOMAIN e.obs = DOMAIN s2
                    /\ \A n \in DOMAIN s2 : NoRepeat(e.obs[n]) /\ FromList(e.obs[n]) = s2[n]

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         r == Step(e)
         bad == Broken(r[2] \cup { <<"commands", Unchanged(e, r[1])>> }) IN
     \* (after a violation the rest of the trace is meaningless)
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ s' = IF bad = {} THEN TLCEval(r[1]) ELSE s
     /\ i' = IF bad = {} THEN i + 1 ELSE Len(Traces[t])
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
