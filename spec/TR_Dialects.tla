---------------------------- MODULE TR_Dialects -----------------------------
(* Recorded readings in several dialects.                                     *)
(*   tables  dialects known (linuxcnc always is)                              *)
(*   cur     the default one                                                  *)
(*   kept    name -> [d, ws]: what was read earlier, and in which dialect     *)
EXTENDS Dialects, TraceIO

VARIABLES t, i, tables, cur, kept
vars == <<t, i, tables, cur, kept>>
TraceInit == /\ t \in 1..Len(Traces) /\ i = 0
             /\ tables = [x \in {"linuxcnc"} |-> LinuxCNC] /\ cur = "linuxcnc"
             /\ kept = [x \in {} |-> {}]

Put(s, k, v) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]
Seen(x) == IF Field(x, "text") THEN [l |-> x.l, text |-> x.text]
           ELSE [l |-> x.l, val |-> [neg |-> x.neg, ip |-> x.ip, fp |-> x.fp]]
SeenAll(ws) == [k \in DOMAIN ws |-> Seen(ws[k])]

DialectOf(e) == IF e.d = "" THEN cur ELSE e.d
\* words of a text (numbers without leading or trailing zeros, as decimals are)
Read(e) == LexIn(tables[DialectOf(e)], e.cs)
Kept(e) == IF e.to # "" THEN Put(kept, e.to, [d |-> DialectOf(e), ws |-> Read(e).words]) ELSE kept

\* <<tables, cur, kept, clauses>>
Step(e) ==
  CASE e.op = "dialect" -> << Put(tables, e.name, e.table), cur, kept, {} >>
    [] e.op = "default" -> << tables, e.name, kept, { <<"set", e.res = "ok">>, <<"default", e.got = e.name>> } >>
    [] e.op = "read" ->
       LET x == Read(e) IN
       IF OpenIn(tables[DialectOf(e)], e.cs) THEN << tables, cur, kept, {} >>
       ELSE << tables, cur, IF x.ok THEN Kept(e) ELSE kept,
               { <<"outcome", e.res = (IF x.ok THEN "ok" ELSE "rej")>> } \cup
               (IF x.ok /\ e.res = "ok" THEN { <<"words", SeenAll(e.words) = x.words>> } ELSE {}) >>
    [] e.op = "word" ->       \* a letter and a value
       LET table == tables[DialectOf(e)]
           ok == e.l \in DOMAIN table
           w == [l |-> e.l, val |-> Held(table[e.l], [neg |-> e.v.neg, ip |-> e.v.ip, fp |-> e.v.fp])] IN
       << tables, cur, IF ok THEN Put(kept, e.to, [d |-> DialectOf(e), ws |-> <<w>>]) ELSE kept,
          { <<"outcome", ok <=> e.res = "ok">> } \cup
          (IF ok /\ e.res = "ok" THEN { <<"value", Seen(e.word) = w>> } ELSE {}) >>
    [] e.op = "give" ->       \* another value
       LET k == kept[e.a]  w == k.ws[1]
           x == [l |-> w.l, val |-> Held(tables[k.d][w.l], [neg |-> e.v.neg, ip |-> e.v.ip, fp |-> e.v.fp])] IN
       << tables, cur, Put(kept, e.a, [k EXCEPT !.ws[1] = x]), { <<"given", e.res = "ok">> } >>
    [] e.op = "look" ->       \* letters of a block
       LET k == kept[e.a] IN
       << tables, cur, kept,
          { <<"known letter", e.letter \in DOMAIN tables[k.d] <=> e.res = "ok">> } \cup
          (IF e.res # "ok" THEN {}
           ELSE LET f == SelectSeq(k.ws, LAMBDA w : w.l = e.letter) IN
                { <<"looked up", IF f = <<>> THEN Field(e.word, "none")
                                 ELSE ~Field(e.word, "none") /\ Seen(e.word) = f[1]>> }) >>
    [] e.op = "print" ->
       LET k == kept[e.a] IN
       << tables, cur, kept,
          { <<"printed", e.res = "ok">> } \cup
          (IF e.res # "ok" THEN {}
           ELSE { <<"as in its dialect", /\ Len(e.out) = Len(k.ws)
                                         /\ \A n \in DOMAIN k.ws : PrintedAs(tables[k.d], k.ws[n], e.out[n])>>,
                  <<"described", \A n \in DOMAIN k.ws : e.about[n] = k.d>> }) >>

\* everything read earlier is still the same
Same(e, ks) == /\ DOMAIN e.obs = DOMAIN ks
               /\ \A n \in DOMAIN ks : SeenAll(e.obs[n]) = ks[n].ws

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         s == Step(e)
         bad == Broken(s[4]) \cup (IF Broken(s[4]) # {} THEN {} ELSE Broken({ <<"kept", Same(e, s[3])>> })) IN
     /\ (bad # {} => Report(t, i + 1, bad))
     /\ tables' = TLCEval(s[1]) /\ cur' = s[2]
     /\ kept' = IF bad = {} THEN TLCEval(s[3]) ELSE kept
     /\ i' = IF bad = {} THEN i + 1 ELSE Len(Traces[t])
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
