------------------------------ MODULE Dialects ------------------------------
(* Dialects: each has a table of the letters it knows and what their values   *)
(* look like.  A text is read in the dialect given, or in the default one;    *)
(* what was read keeps its dialect, whatever the default becomes.             *)
(*   tables : name -> (letter -> kind)                                        *)
(*   kinds  : "real", "count" (unsigned integer), "code" (unsigned, at most   *)
(*            one decimal), "rest" (the remaining text), "tenths" (a real     *)
(*            number, printed with one decimal)                               *)
(* linuxcnc's own table follows from Dialect's classes of letters.            *)
EXTENDS Text

LinuxCNC == [ l \in Letters |->
  IF l \in TextLetters THEN "rest" ELSE IF l \in IntLetters THEN "count"
  ELSE IF l \in NumCodeLetters THEN "code" ELSE "real" ]

Known(table, c) == IsLetter(c) /\ LetterOf(c) \in DOMAIN table

ReadKind(kind, cs, i) ==
  CASE kind = "code" -> ReadCode(cs, i)
    [] kind = "count" -> ReadInt(cs, i)
    [] OTHER -> ReadFloat(cs, i)

RECURSIVE LexInFrom(_, _, _, _)
LexInFrom(table, cs, i, words) ==
  LET a == SkipWhile(cs, i, SPACES) IN
  IF a > Len(cs) THEN [ok |-> TRUE, words |-> words]
  ELSE IF ~Known(table, cs[a]) THEN [ok |-> FALSE, words |-> words]
  ELSE LET l == LetterOf(cs[a])  kind == table[l] IN
       IF kind = "rest"
       THEN LET txt == Squeeze(Strip(SubSeq(cs, a + 1, Len(cs))), <<>>) IN
            IF txt = <<>> THEN [ok |-> FALSE, words |-> words]
            ELSE [ok |-> TRUE, words |-> Append(words, [l |-> l, text |-> txt])]
       ELSE LET v == ReadKind(kind, cs, SkipWhile(cs, a + 1, SPACES)) IN
            IF ~v.ok THEN [ok |-> FALSE, words |-> words]
            ELSE LexInFrom(table, cs, v.next, Append(words, [l |-> l, val |-> v.val]))
LexIn(table, cs) == LexInFrom(table, cs, 1, <<>>)

\* (what precedes the first known letter is not specified)
OpenIn(table, cs) == LET a == SkipWhile(cs, 1, SPACES) IN a <= Len(cs) /\ ~Known(table, cs[a])

(* A value given to a letter, as its kind holds it                            *)
Held(kind, v) == IF kind = "count" THEN Decimal(v.neg, v.ip, <<>>) ELSE v

(* What a word may be printed as: read in its own dialect, it is itself again *)
\* half a unit of the last decimal, in millionths
Precision(kind) == IF kind = "tenths" THEN 50001 ELSE 501
Decimals(cs) == LET k == FirstFrom(cs, 1, DOT) IN IF k = 0 THEN 0 ELSE Len(cs) - k
PrintedAs(table, w, cs) ==
  LET x == LexIn(table, cs)  kind == table[w.l] IN
  /\ x.ok /\ Len(x.words) = 1 /\ x.words[1].l = w.l
  /\ IF kind = "rest" THEN x.words[1].text = w.text
     ELSE IF kind \in {"code", "count"} THEN x.words[1].val = w.val
     ELSE Near(x.words[1].val, w.val, Precision(kind))
  /\ kind = "tenths" => Decimals(cs) = 1
=============================================================================
