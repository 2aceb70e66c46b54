------------------------------ MODULE MC_Blocks -----------------------------
(* Laws of grouping words, on every list of a few words.                      *)
EXTENDS Blocks, TLC
CONSTANT Longest

Words == { <<"G", 0>>, <<"G", 20>>, <<"G", 40>>, <<"G", 810>>, <<"G", 170>>, <<"G", 640>>, <<"G", 800>>, <<"M", 30>>, <<"M", 60>>,
           <<"F", 1000>>, <<"S", 2000>>, <<"T", 3>>, <<"N", 5>>, <<"X", 1000>>, <<"X", 2000>>, <<"P", 500>>, <<"R", 1>> }

VARIABLE ws
Init == ws = <<>>
Next == Len(ws) < Longest /\ \E w \in Words : ws' = Append(ws, w)

g == Group(ws)
fl == CmdFlags(ws, <<>>)
\* occurrences of a word in what the block was grouped into
Uses(w) == Cardinality({ k \in DOMAIN g.cmds : g.cmds[k].w = w })
           + Cardinality({ k \in DOMAIN g.cmds : w \in g.cmds[k].ps })
           + Cardinality({ k \in DOMAIN g.rest : g.rest[k] = w })
Written(w) == Cardinality({ k \in DOMAIN ws : ws[k] = w })
\* every word is used exactly once (unless a command is given a letter twice: rejected)
Once == ~g.dup => \A w \in Words : Uses(w) = Written(w)
Accepted == \A k \in DOMAIN g.cmds : \A p \in g.cmds[k].ps : p[1] \in RowOf(g.cmds[k].w).ps
Given1 == ~g.dup => \A k \in DOMAIN g.cmds : \A p, q \in g.cmds[k].ps : p[1] = q[1] => p = q
\* nothing is left over that a command of the block accepts; what is left over is no command
Fits == \A k \in DOMAIN g.rest : /\ ~IsCode(g.rest[k])
                                 /\ \A n \in DOMAIN g.cmds : g.rest[k][1] \notin RowOf(g.cmds[n].w).ps
\* commands keep their written order; execution order only sorts them by stage
Kept == [k \in DOMAIN g.cmds |-> g.cmds[k].w] = SelectSeq([k \in DOMAIN ws |-> IF fl[k] THEN ws[k] ELSE <<>>], LAMBDA w : w # <<>>)
o == InOrder(g.cmds)
Sorted == /\ Len(o) = Len(g.cmds) /\ ToSet(o) = ToSet(g.cmds)
          /\ \A a, b \in DOMAIN o : a < b => StageOf(o[a]) <= StageOf(o[b])
\* written in execution order, or with its parameters elsewhere, a valid block means the same
Again == LET flat == FlattenSeq([k \in DOMAIN o |-> <<o[k].w>> \o SetToSeq(o[k].ps)]) \o g.rest
             h == Group(flat) IN
         ~g.dup /\ ~Conflict(g.cmds)
         \* (a parameter letter that is also a command's, like S or T, may belong to either)
         /\ (\A a, b \in DOMAIN g.cmds : a # b => RowOf(g.cmds[a].w).ps \cap RowOf(g.cmds[b].w).ps = {})
         /\ (\A a, b \in DOMAIN g.cmds : g.cmds[b].w[1] \notin RowOf(g.cmds[a].w).ps)
         => ~h.dup /\ InOrder(h.cmds) = o /\ ToSet(h.rest) = ToSet(g.rest)
\* conflicts don't depend on order, and stay when words are added
Sturdy == \A k \in 1..Len(ws) :
             LET h == Group(SubSeq(ws, 1, k)) IN (h.dup \/ Conflict(h.cmds)) => (g.dup \/ Conflict(g.cmds))
Mirror == Conflict(g.cmds) <=> Conflict(Reverse(g.cmds))
=============================================================================
