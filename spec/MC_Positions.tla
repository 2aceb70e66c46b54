---------------------------- MODULE MC_Positions ----------------------------
(* The laws of the data type, and every behaviour of two registers.  Every    *)
(* transition is printed: the driver replays them on real positions.          *)
EXTENDS Positions, Json

CONSTANTS Axes, Vals, MaxAbs, Depth

SomeVals == {-1000, 2000}

VARIABLES r, h, r0
vars == <<r, h, r0>>

All == UNION { { P(ax, u, v) : u \in Units, v \in [ax -> Vals] } : ax \in SUBSET Axes \ {{}} }

Do(op, args, res, to) ==
  /\ h' = Append(h, [op |-> op, args |-> args, to |-> to, ok |-> res.ok])
  /\ r' = IF res.ok THEN [r EXCEPT ![to] = res.p] ELSE r

Init == r \in [{1, 2} -> { P(ax, u, [a \in ax |-> 0]) : ax \in SUBSET Axes \ {{}}, u \in Units }]
        /\ r0 = [k \in {1, 2} |-> [ax |-> r[k].ax, u |-> r[k].u]]
        /\ h = << [op |-> "start", args |-> <<>>, to |-> 1, ok |-> TRUE] >>

Small(res) == res.ok => \A a \in res.p.ax : res.p.v[a] <= MaxAbs /\ res.p.v[a] >= -MaxAbs

Next ==
  /\ Len(h) <= Depth
  /\ r0' = r0
  /\ \E to \in {1, 2} :
     \/ \E a, b \in {1, 2} :
           \/ r[a].u = r[b].u /\ Small(Add(r[a], r[b])) /\ Do("add", <<a, b>>, Add(r[a], r[b]), to)
           \/ r[a].u = r[b].u /\ Small(Sub(r[a], r[b])) /\ Do("sub", <<a, b>>, Sub(r[a], r[b]), to)
           \/ Do("min", <<a, b>>, MinOf(r[a], r[b]), to)
           \/ Do("max", <<a, b>>, MaxOf(r[a], r[b]), to)
     \/ \E a \in {1, 2} :
           \/ Small(Scale(r[a], -2)) /\ Do("mul", <<a, -2>>, Scale(r[a], -2), to)
           \/ Divisible(r[a], 2) /\ Do("div", <<a, 2>>, Divide(r[a], 2), to)
     \/ \E u \in Units : Do("unit", <<to, u>>, InUnit(r[to], u), to)
     \/ \E x \in Axes, v \in Vals : Do("put", <<to, x, v>>, Put(r[to], [y \in {x} |-> v]), to)

Typed == \A k \in {1, 2} : /\ r[k].ax \subseteq Axes /\ r[k].ax # {} /\ DOMAIN r[k].v = r[k].ax
                           /\ r[k].u \in Units
\* an operation never changes what it does not assign
Frame == [][ \A k \in {1, 2} : h'[Len(h')].to # k => r'[k] = r[k] ]_vars
RejectionsChangeNothing == [][ ~h'[Len(h')].ok => r' = r ]_vars

(* Laws, over all small positions *)
Laws ==
  \A p, q \in All :
    /\ Add(p, q) = Add(q, p)
    /\ Add(p, q).ok => /\ Sub(Add(p, q).p, q) = Ok(p)
                       /\ Scale(Add(p, q).p, 3) = Add(Scale(p, 3).p, Scale(q, 3).p)
    /\ MinOf(p, q).ok /\ MinOf(q, p).ok => Same(MinOf(p, q).p, MinOf(q, p).p)
    /\ MinOf(p, q).ok => \A a \in p.ax : MinOf(p, q).p.v[a] <= p.v[a] /\ MaxOf(p, q).p.v[a] >= q.v[a]
    /\ \A u \in Units : Same(InUnit(p, u).p, p)
    /\ Same(p, q) <=> (p.ax = q.ax /\ Sub(p, InUnit(q, p.u).p).p.v = [a \in p.ax |-> 0])
    /\ Divide(Scale(p, 2).p, 2) = Ok(p)
ASSUME Laws

\* Full histories are printed, for replay
Emit == Len(h) = Depth + 1 => PrintT("RUN|" \o ToJson([r0 |-> r0, h |-> h]))
=============================================================================
