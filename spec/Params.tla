------------------------------- MODULE Params -------------------------------
(* Commands as dictionaries of parameters: an abstract data type.             *)
(*   a command is [w, ps]: its word, and a function from letters to values    *)
(* An operation gives [ok, cmd]: rejected operations change nothing.          *)
EXTENDS Dialect, FiniteSetsExt, SequencesExt

NoParams == [l \in {} |-> 0]
(* The word of a command made without one: its own; for those known by more   *)
(* than one word, the first of them, and for those with a number, zero.       *)
DefaultWord(w) ==
  CASE w \in { <<"G", 300>> } -> <<"G", 280>>
    [] w \in { <<"G", 301>> } -> <<"G", 281>>
    [] w \in { <<"G", 922>> } -> <<"G", 921>>
    [] w \in { <<"G", 383>>, <<"G", 384>>, <<"G", 385>> } -> <<"G", 382>>
    [] w[1] \in {"F", "S", "T"} -> <<w[1], 0>>
    [] OTHER -> w
HasDefault(w) == w[1] \notin {"N", "O"}

Bare(w) == [w |-> w, ps |-> NoParams]
Accepts(c, l) == l \in RowOf(c.w).ps
Has(c, l) == l \in DOMAIN c.ps
With(c, l, v) == [c EXCEPT !.ps = [x \in DOMAIN c.ps \cup {l} |-> IF x = l THEN v ELSE c.ps[x]]]

Res(ok, c) == [ok |-> ok, cmd |-> c]
Add(c, l, v) == IF Accepts(c, l) /\ ~Has(c, l) THEN Res(TRUE, With(c, l, v)) ELSE Res(FALSE, c)
Assign(c, l, v) == IF Accepts(c, l) THEN Res(TRUE, With(c, l, v)) ELSE Res(FALSE, c)
\* Built from a list of parameter words (or by as many assignments)
Build(w, ps)   == FoldLeft(LAMBDA r, p : IF r.ok THEN Add(r.cmd, p[1], p[2]) ELSE r, Res(TRUE, Bare(w)), ps)
ByAssign(w, ps) == FoldLeft(LAMBDA r, p : IF r.ok THEN Assign(r.cmd, p[1], p[2]) ELSE r, Res(TRUE, Bare(w)), ps)
Only(c, ls) == [w |-> c.w, ps |-> [l \in (DOMAIN c.ps) \cap ls |-> c.ps[l]]]
Retained(c) == Only(c, RowOf(c.w).re)
=============================================================================
