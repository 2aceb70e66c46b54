---------------------------- MODULE TR_Positions ----------------------------
(* Recorded operations on positions must be as specified, and change nothing  *)
(* but their result.   state  s : name -> position                            *)
EXTENDS Positions, TraceIO, SequencesExt

VARIABLES t, i, s
vars == <<t, i, s>>
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ s = [n \in {} |-> 0]
PutIn(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

Assign(e, r) == << IF r.ok THEN PutIn(s, e.to, r.p) ELSE s,
                   { <<"outcome", (e.res = "ok") = r.ok>> } >>

Step(e) ==
  CASE e.op = "new" -> Assign(e, New(ToSet(e.ax), e.u, e.v))
    [] e.op = "add" -> Assign(e, Add(s[e.a], s[e.b]))
    [] e.op = "sub" -> Assign(e, Sub(s[e.a], s[e.b]))
    [] e.op = "min" -> Assign(e, MinOf(s[e.a], s[e.b]))
    [] e.op = "max" -> Assign(e, MaxOf(s[e.a], s[e.b]))
    [] e.op = "mul" -> Assign(e, Scale(s[e.a], e.n))
    [] e.op = "div" -> Assign(e, Divide(s[e.a], e.n))
    [] e.op = "unit" -> Assign(e, InUnit(s[e.to], e.u))
    [] e.op = "put" -> Assign(e, Put(s[e.to], e.v))
    [] e.op = "copy" -> Assign(e, Ok(s[e.a]))
    [] e.op = "bad" -> << s, { <<"refused", e.res # "ok">> } >>
    [] e.op = "get" ->
       LET p == s[e.a] IN
       << s, { <<"outcome", (e.res = "ok") = (e.x \in p.ax)>>,
               <<"value", (e.res = "ok" /\ e.x \in p.ax) => e.out = p.v[e.x]>> } >>
    [] e.op = "eq" ->
       LET p == s[e.a]  q == s[e.b] IN
       \* equality of numbers that were converted is only sure if they were not rounded
       << s, { <<"compared", e.res = "ok">>,
               <<"equal", (Same(p, q) /\ e.sure) => (e.eq /\ ~e.ne)>>,
               <<"unequal", ~Same(p, q) => (~e.eq /\ e.ne)>>,
               <<"opposites", e.eq # e.ne>> } >>

Shown(o) == P(ToSet(o.ax), o.u, [a \in ToSet(o.ax) |-> o.v[a]])
\* by axis, as words, one by one, and as a vector (of what linear axes there are)
Consistent(o) == /\ DOMAIN o.v = ToSet(o.ax) /\ o.w = o.v /\ o.g = o.v
                 /\ o.xyz = [k \in 1..3 |-> LET a == <<"X", "Y", "Z">>[k] IN IF a \in DOMAIN o.v THEN o.v[a] ELSE 0]
Unchanged(e, s2) == /\ DOMAIN e.obs = DOMAIN s2
                    /\ \A n \in DOMAIN s2 : Consistent(e.obs[n]) /\ Shown(e.obs[n]) = s2[n]

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         r == Step(e)
         bad == Broken(r[2] \cup { <<"positions", Unchanged(e, r[1])>> }) IN
     \* (after a violation the rest of the trace is meaningless)
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ s' = IF bad = {} THEN TLCEval(r[1]) ELSE s
     /\ i' = IF bad = {} THEN i + 1 ELSE Len(Traces[t])
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
