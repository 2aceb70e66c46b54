------------------------------ MODULE TR_Text -------------------------------
(* Recorded readings and printings of text must be as specified.              *)
EXTENDS Text, TraceIO
BL == INSTANCE Blocks

VARIABLES t, i
vars == <<t, i>>
TraceInit == t \in 1..Len(Traces) /\ i = 0

(* Observed words: [l, neg, ip, fp] or [l, text]                              *)
SeenWord(w) == IF Field(w, "text") THEN [l |-> w.l, text |-> w.text]
               ELSE [l |-> w.l, val |-> [neg |-> w.neg, ip |-> w.ip, fp |-> w.fp]]
SeenWords(ws) == [k \in DOMAIN ws |-> SeenWord(ws[k])]

(* Is the block rejected for its commands?  (words of Blocks)                 *)
RECURSIVE Fold(_, _)
Fold(ds, acc) == IF ds = <<>> THEN acc ELSE Fold(Tail(ds), 10 * acc + ds[1])
BlockWord(w) ==
  IF w.l \in NumCodeLetters
  THEN << w.l, IF Len(w.val.ip) > 6 THEN -1
               ELSE 10 * Fold(w.val.ip, 0) + (IF w.val.fp = <<>> THEN 0 ELSE w.val.fp[1]) >>
  ELSE IF w.l \in TextLetters THEN <<w.l, w.text>> ELSE <<w.l, w.val>>
BlockWords(ws) == [k \in DOMAIN ws |-> BlockWord(ws[k])]
Groupable(ws) == LET g == BL!Group(BlockWords(ws)) IN ~g.dup /\ ~BL!Conflict(g.cmds)

\* reading words from block text
LexClauses(e) ==
  LET x == Lex(e.cs) IN
  IF OpenBlock(e.cs) THEN {}
  ELSE { <<"outcome", e.res = (IF x.ok THEN "ok" ELSE "rej")>> }
       \cup (IF x.ok /\ e.res = "ok" THEN { <<"words", SeenWords(e.words) = x.words>> } ELSE {})

\* reading a line
LineClauses(e) ==
  LET s == SplitLine(e.cs)
      x == Lex(s.code) IN
  IF OpenBlock(s.code) THEN {}
  ELSE LET good == x.ok /\ Groupable(x.words) IN
       { <<"outcome", e.res = (IF good THEN "ok" ELSE "rej")>> }
       \cup (IF ~good \/ e.res # "ok" THEN {}
             ELSE { <<"words", SeenWords(e.words) = x.words>>,
                    <<"comment-kind", e.ckind = CommentKind(s.comments)>>,
                    <<"comment-text", e.ctext = JoinedText(s.comments)>>,
                    <<"macro", e.macro = s.macro>> })

(* Printing.  e.cs is what was read, e.out what it was printed as, e.again    *)
(* the text printed after reading e.out.  Words may be printed in another     *)
(* order (parameters follow their command, sorted), commands keep theirs.     *)
Tolerance == 501      \* half of the third decimal (and a rounding of what is not recorded)
Exact(l) == l \in NumCodeLetters \cup IntLetters \cup TextLetters
WordNear(v, w) ==
  /\ v.l = w.l
  /\ IF v.l \in TextLetters THEN v.text = w.text
     ELSE IF Exact(v.l) THEN v.val = w.val ELSE Near(v.val, w.val, Tolerance)

\* commands with their parameters, as a grouping of words with values kept
Grouped(ws) ==
  LET bws == BlockWords(ws)
      fl == BL!CmdFlags(bws, <<>>)
      own == TLCEval([k \in DOMAIN ws |-> BL!Owner(bws, fl, k)])
      ci == SelectSeq([k \in DOMAIN ws |-> k], LAMBDA k : fl[k])
  IN [ cmds |-> [n \in DOMAIN ci |-> [ w |-> ws[ci[n]],
                   ps |-> { ws[k] : k \in { j \in DOMAIN ws : own[j] = ci[n] /\ j # ci[n] } } ]],
       rest |-> SelectSeq([k \in DOMAIN ws |-> IF own[k] = 0 THEN <<ws[k]>> ELSE <<>>], LAMBDA x : x # <<>>) ]
ParamsNear(ps, qs) == /\ Cardinality(ps) = Cardinality(qs)
                      /\ \A p \in ps : \E q \in qs : WordNear(p, q)
SameProgram(a, b) ==
  LET g == Grouped(a)  h == Grouped(b) IN
  /\ Len(g.cmds) = Len(h.cmds)
  /\ \A k \in DOMAIN g.cmds : WordNear(g.cmds[k].w, h.cmds[k].w) /\ ParamsNear(g.cmds[k].ps, h.cmds[k].ps)
  /\ Len(g.rest) = Len(h.rest)
  /\ \A k \in DOMAIN g.rest : WordNear(g.rest[k][1], h.rest[k][1])

PrintClauses(e) ==
  LET s == SplitLine(e.cs)
      x == Lex(s.code)
      s2 == SplitLine(e.out)
      y == Lex(s2.code) IN
  IF OpenBlock(s.code) \/ ~x.ok \/ ~Groupable(x.words) THEN {}
  ELSE { <<"printed", e.res = "ok">> } \cup
       (IF e.res # "ok" THEN {}
        ELSE { <<"readable", ~OpenBlock(s2.code) /\ y.ok>> } \cup
             (IF ~y.ok \/ OpenBlock(s2.code) THEN {}
              ELSE { <<"same-program", SameProgram(x.words, y.words)>>,
                     <<"same-macro", s2.macro = s.macro>>,
                     <<"same-comment", Strip(JoinedText(s2.comments)) = Strip(JoinedText(s.comments))>>,
                     <<"stable", RStrip(e.again) = RStrip(e.out)>> }))

(* What a block (or the block of a line) shows of itself.                     *)
NoWord == [l |-> "", none |-> TRUE]
FirstWith(ws, l) == LET at == { k \in DOMAIN ws : ws[k].l = l } IN
                    IF at = {} THEN NoWord ELSE ws[CHOOSE k \in at : \A j \in at : k <= j]
SeenOrNone(w) == IF Field(w, "none") THEN NoWord ELSE SeenWord(w)
CommandsOf(ws) == BL!Group(BlockWords(ws)).cmds
SeenCmd(c) == [w |-> BlockWord(SeenWord(c[1])), ps |-> { BlockWord(SeenWord(c[2][k])) : k \in DOMAIN c[2] }]
SeenCmds(cs) == [k \in DOMAIN cs |-> SeenCmd(cs[k])]

ViewClauses(e) ==
  LET s == IF e.kind = "line" THEN SplitLine(e.cs) ELSE [code |-> e.cs, comments |-> <<>>, macro |-> <<>>]
      x == Lex(s.code) IN
  IF OpenBlock(s.code) THEN {}
  ELSE LET good == x.ok /\ Groupable(x.words) IN
       { <<"outcome", e.res = (IF good THEN "ok" ELSE "rej")>> } \cup
       (IF ~good \/ e.res # "ok" THEN {}
        ELSE LET g == BL!Group(BlockWords(x.words)) IN
             { <<"words", SeenWords(e.words) = x.words>>,
               <<"look-up", \A k \in 1..26 : SeenOrNone(e.look[k]) = FirstWith(x.words, AlphaSeq[k])>>,
               <<"no other name", e.others = 0>>,
               <<"length", e.len = Len(g.cmds) + (IF g.rest = <<>> THEN 0 ELSE 1)>>,
               <<"emptiness", e.bool = (x.words # <<>>)>>,
               <<"commands", SeenCmds(e.cmds) = g.cmds>>,
               <<"block text", e.text = Squeeze(Strip(s.code), <<>>)>>,
               <<"line", e.kind = "line" => (e.ltext = e.cs /\ e.same)>> })

(* A block put together (or changed) by hand: its views are those of what it  *)
(* is made of at that moment: words, commands, parameters left over.  Only    *)
(* the text it was read from stays what it was.                               *)
SeenGroup(e) == [k \in DOMAIN e.cmds |-> [w |-> SeenWord(e.cmds[k][1]), ps |-> SeenWords(e.cmds[k][2])]]
\* are these words those commands (parameters by letter), then those words?
RECURSIVE Spells(_, _, _)
Spells(ws, cs, rest) ==
  IF cs = <<>> THEN Len(ws) = Len(rest) /\ \A k \in DOMAIN ws : WordNear(ws[k], rest[k])
  ELSE LET c == Head(cs)
           n == Len(c.ps) IN
       IF Len(ws) < n + 1 THEN FALSE
       ELSE /\ WordNear(ws[1], c.w)
            /\ \A k \in 1..n : \E j \in 1..n : WordNear(ws[k + 1], c.ps[j])
            /\ Cardinality({ ws[k + 1].l : k \in 1..n }) = n
            /\ Spells(SubSeq(ws, n + 2, Len(ws)), Tail(cs), rest)

EditClauses(e) ==
  LET s == IF e.kind = "line" THEN SplitLine(e.out) ELSE [code |-> e.out, comments |-> <<>>, macro |-> <<>>]
      x == Lex(s.code)
      words == SeenWords(e.words)
      given == IF e.kind = "line" THEN SplitLine(e.given).code ELSE e.given IN
  { <<"outcome", e.res = "ok">> } \cup
  (IF e.res # "ok" THEN {}
   ELSE { <<"look-up", \A k \in 1..26 : SeenOrNone(e.look[k]) = FirstWith(words, AlphaSeq[k])>>,
          <<"length", e.len = Len(e.cmds) + (IF e.rest = <<>> THEN 0 ELSE 1)>>,
          <<"emptiness", e.bool = (words # <<>>)>>,
          \* (an empty block of a line isn't printed at all)
          <<"printed", (e.kind = "block" \/ e.bool) => x.ok /\ Spells(x.words, SeenGroup(e), SeenWords(e.rest))>>,
          <<"comment", e.kind = "line" => CommentKind(s.comments) = e.ckind /\ JoinedText(s.comments) = e.ctext>>,
          <<"macro", e.kind = "line" => s.macro = e.macro>>,
          <<"text", IF e.wrote /\ given # <<>> THEN e.text = Squeeze(Strip(given), <<>>)
                    ELSE LET y == Lex(e.text) IN y.ok /\ Spells(y.words, SeenGroup(e), SeenWords(e.rest))>>,
          <<"line", e.kind = "line" => e.same /\ e.ltext = (IF e.wrote THEN e.given ELSE e.out)>> })

\* text that has to be commands only
CommandClauses(e) ==
  LET x == Lex(e.cs) IN
  IF OpenBlock(e.cs) THEN {}
  ELSE LET g == BL!Group(BlockWords(x.words))
           good == IF ~x.ok THEN FALSE ELSE ~g.dup /\ g.rest = <<>> IN
       { <<"outcome", e.res = (IF good THEN "ok" ELSE "rej")>> } \cup
       (IF ~good \/ e.res # "ok" THEN {} ELSE { <<"commands", SeenCmds(e.cmds) = g.cmds>> })

\* text that has to be one word (or nothing)
WordClauses(e) ==
  LET x == Lex(e.cs) IN
  IF OpenBlock(e.cs) THEN {}
  ELSE LET good == x.ok /\ Len(x.words) <= 1 IN
       { <<"outcome", e.res = (IF good THEN "ok" ELSE "rej")>> } \cup
       (IF ~good \/ e.res # "ok" THEN {}
        ELSE { <<"word", SeenOrNone(e.word) = (IF x.words = <<>> THEN NoWord ELSE x.words[1])>> })

\* a line without macro, split into code and comments
SplitClauses(e) ==
  LET s == Scan(NoNewline(e.cs), 1, <<>>, <<>>) IN
  IF \E k \in 1..(Len(e.cs) - 1) : e.cs[k] = NL THEN {}      \* (not one line)
  ELSE { <<"outcome", e.res = "ok">> } \cup
  (IF e.res # "ok" THEN {}
   ELSE { <<"code", RStrip(e.code) = RStrip(s.code)>>, <<"comment-kind", e.ckind = CommentKind(s.comments)>>,
          <<"comment-text", e.ctext = JoinedText(s.comments)>> })

Clauses(e) == CASE e.op = "view"  -> ViewClauses(e)
                [] e.op = "edit"  -> EditClauses(e)
                [] e.op = "cmds"  -> CommandClauses(e)
                [] e.op = "word"  -> WordClauses(e)
                [] e.op = "split" -> SplitClauses(e)
                [] e.op = "lex"   -> LexClauses(e)
                [] e.op = "line"  -> LineClauses(e)
                [] e.op = "print" -> PrintClauses(e)

TraceNext ==
  /\ i < Len(Traces[t])
  /\ LET bad == Broken(Clauses(Traces[t][i + 1])) IN
       IF bad # {} THEN Report(t, i + 1, bad) ELSE TRUE
  /\ (i + 1 = Len(Traces[t]) => Finished(t))
  /\ i' = i + 1
  /\ t' = t

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
