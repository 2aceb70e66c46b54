------------------------------ MODULE TR_Words ------------------------------
(* A store of words: every operation on words must give what is specified,    *)
(* and change no other word.                                                  *)
(*   state  w : name -> [l, val] (or [l, text] for text letters)              *)
EXTENDS Text, TraceIO

VARIABLES t, i, w
vars == <<t, i, w>>
NoWords == [x \in {} |-> {}]
TraceInit == t \in 1..Len(Traces) /\ i = 0 /\ w = NoWords

Put(s, k, v) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]
TextLike == TextLetters \cup {"T"}         \* tools are texts, too

Seen(x) == IF Field(x, "text") THEN [l |-> x.l, text |-> x.text]
           ELSE [l |-> x.l, val |-> [neg |-> x.neg, ip |-> x.ip, fp |-> x.fp]]
Val(x) == IF x.l \in TextLike THEN x.text ELSE x.val

(* Order of sequences of numbers, lexicographic *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))
\* Order of magnitudes, of decimals
MagLess(x, y) == IF Len(x.ip) # Len(y.ip) THEN Len(x.ip) < Len(y.ip)
                 ELSE IF x.ip # y.ip THEN LexLess(x.ip, y.ip)
                 ELSE LexLess(x.fp, y.fp)
DecLess(x, y) == IF x.neg # y.neg THEN x.neg
                 ELSE IF x.neg THEN MagLess(y, x) ELSE MagLess(x, y)
LetterIndex(l) == CHOOSE k \in 1..26 : AlphaSeq[k] = l

Equal(a, b) == a.l = b.l /\ Val(a) = Val(b)
Less(a, b) == IF a.l # b.l THEN LetterIndex(a.l) < LetterIndex(b.l)
              ELSE IF a.l \in TextLike THEN LexLess(a.text, b.text)
              ELSE DecLess(a.val, b.val)

(* The value a word takes: that of the letter's type                          *)
Truncated(d) == Decimal(d.neg, d.ip, <<>>)
Typed(x) == IF x.l \in {"L", "N"} THEN [l |-> x.l, val |-> Truncated(x.val)] ELSE x

Step(e) ==
  LET A == w[e.a]  B == w[e.b]  eq == Equal(A, B)  lt == Less(A, B)
  IN CASE e.op = "mk" ->
          << Put(w, e.name, Typed(Seen(e.word))), { <<"made", e.res = "ok">> } >>
       [] e.op = "bad" ->       \* a value that isn't of the letter's type
          << w, { <<"refused", e.res = "rej">> } >>
       [] e.op = "set" ->
          << Put(w, e.name, Typed(Seen(e.word))), { <<"set", e.res = "ok">> } >>
       [] e.op = "copy" ->
          << Put(w, e.to, w[e.name]), { <<"copied", e.res = "ok">> } >>
       [] e.op = "cmp" ->
          << w, { <<"compared", e.res = "ok">>,
                  <<"eq", e.eq = eq>>, <<"ne", e.ne = ~eq>>,
                  <<"lt", e.lt = lt>>, <<"gt", e.gt = (~lt /\ ~eq)>>,
                  <<"le", e.le = (lt \/ eq)>>, <<"ge", e.ge = ~lt>>,
                  <<"hash", eq => e.hash>>,
                  <<"in-set", e.inset = eq>>, <<"in-list", e.inlist = eq>>, <<"dict", e.found = eq>> } >>
       [] e.op = "txt" ->
          LET x == Lex(e.cs)
              spelt == Typed(IF x.words[1].l = "T" THEN Seen(e.spelt) ELSE x.words[1])
              same == Equal(w[e.a], spelt)
          IN IF ~x.ok \/ Len(x.words) # 1 THEN << w, {} >>
             ELSE << w, { <<"compared", e.res = "ok">>, <<"eq-text", e.eq = same>>, <<"ne-text", e.ne = ~same>>,
                          <<"text-eq", e.req = same>> } >>
       [] e.op = "sort" ->
          << w, { <<"sorted", e.res = "ok">>,
                  <<"permutation", Len(e.out) = Len(e.names)
                       /\ ToSet(e.out) = ToSet(e.names)>>,
                  <<"order", \A k \in 1..(Len(e.out) - 1) : ~Less(w[e.out[k + 1]], w[e.out[k]])>> } >>
       [] e.op = "dict" ->
          LET in == { n \in ToSet(e.names) : e.all \/ w[n].l \in ToSet(e.limit) }
              got == { <<e.out[k].l, Val(Seen(e.out[k]))>> : k \in DOMAIN e.out }
          IN << w, { <<"converted", e.res = "ok">>,
                     <<"exactly", Len(e.out) = Cardinality(in)
                          /\ \A n \in in : \E k \in DOMAIN e.out : Equal(Seen(e.out[k]), w[n])>> } >>
       [] e.op = "str" ->
          LET x == Lex(e.cs)  v == w[e.a] IN
          << w, { <<"printed", e.res = "ok">>, <<"one-word", x.ok /\ Len(x.words) = 1>>,
                  <<"same", (x.ok /\ Len(x.words) = 1) =>
                      /\ x.words[1].l = v.l
                      /\ IF v.l \in TextLetters THEN x.words[1].text = v.text
                         ELSE IF v.l = "T" THEN TRUE
                         ELSE IF v.l \in NumCodeLetters \cup {"L", "N"} THEN x.words[1].val = v.val
                         ELSE Near(x.words[1].val, v.val, 501)>> } >>

Unchanged(e, w2) ==      \* what is seen of every word afterwards
  /\ DOMAIN e.obs = DOMAIN w2
  /\ \A n \in DOMAIN w2 : Seen(e.obs[n]) = w2[n]

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET e == Traces[t][i + 1]
         s == Step(e)
         bad == Broken(s[2] \cup { <<"words", Unchanged(e, s[1])>> }) IN
     \* (after a violation the rest of the trace is meaningless)
     /\ IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
     /\ w' = IF bad = {} THEN TLCEval(s[1]) ELSE w
     /\ i' = IF bad = {} THEN i + 1 ELSE Len(Traces[t])
  /\ (i' = Len(Traces[t]) => Finished(t))
  /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
