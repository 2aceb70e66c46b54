-------------------------------- MODULE Text --------------------------------
(* The text of a line: which characters are code, comment and macro, and the  *)
(* words the code spells.  Characters are code points.                        *)
EXTENDS Dialect, SequencesExt, FiniteSetsExt

LP == 40  RP == 41  SEMI == 59  PCT == 37  SP == 32  TAB == 9  NL == 10  CR == 13
DOT == 46  MINUS == 45

IsSpace(c) == c \in {SP, TAB, NL, CR}
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c

AlphaSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LetterOf(c) == AlphaSeq[Upper(c) - 64]

SPACES == {SP, TAB, NL, CR}
DIGITS == 48..57

\* First index >= i of a character c of cs (0: none)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(cs, i, c) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = c THEN i ELSE FirstFrom(cs, i + 1, c)

RECURSIVE SkipWhile(_, _, _)     \* first index >= i of a character not in S (may be Len + 1)
SkipWhile(cs, i, S) == IF i <= Len(cs) /\ cs[i] \in S THEN SkipWhile(cs, i + 1, S) ELSE i

LStrip(cs) == SubSeq(cs, SkipWhile(cs, 1, SPACES), Len(cs))
RECURSIVE RStrip(_)
RStrip(cs) == IF cs # <<>> /\ IsSpace(cs[Len(cs)]) THEN RStrip(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Strip(cs) == LStrip(RStrip(cs))

\* runs of whitespace become one space
RECURSIVE Squeeze(_, _)
Squeeze(cs, acc) ==
  IF cs = <<>> THEN acc
  ELSE IF IsSpace(cs[1])
       THEN Squeeze(LStrip(cs), Append(acc, SP))
       ELSE Squeeze(Tail(cs), Append(acc, cs[1]))

CloseAt(cs, i) == FirstFrom(cs, i + 1, RP)

(* A macro starts at the first '%' outside bracketed text.                    *)
RECURSIVE MacroAt(_, _)
MacroAt(cs, i) ==
  IF i > Len(cs) THEN 0
  ELSE IF cs[i] = PCT THEN i
  ELSE IF cs[i] = LP /\ CloseAt(cs, i) > 0 THEN MacroAt(cs, CloseAt(cs, i) + 1)
  ELSE MacroAt(cs, i + 1)

(* Comments, scanned from left to right.                                      *)
RECURSIVE CommentAt(_, _)
CommentAt(cs, i) ==
  IF i > Len(cs) THEN 0
  ELSE IF cs[i] = SEMI \/ (cs[i] = LP /\ CloseAt(cs, i) > 0) THEN i
  ELSE CommentAt(cs, i + 1)

RECURSIVE Scan(_, _, _, _)
Scan(cs, i, code, comments) ==
  LET p == CommentAt(cs, i) IN
  IF p = 0 THEN [code |-> code \o SubSeq(cs, i, Len(cs)), comments |-> comments]
  ELSE IF cs[p] = SEMI
       THEN [ code |-> code \o SubSeq(cs, i, p - 1),
              comments |-> Append(comments, [kind |-> "semicolon", text |-> LStrip(SubSeq(cs, p + 1, Len(cs)))]) ]
       ELSE LET q == CloseAt(cs, p) IN
            Scan(cs, q + 1, code \o SubSeq(cs, i, p - 1),
                 Append(comments, [kind |-> "brackets", text |-> SubSeq(cs, p + 1, q - 1)]))

NoNewline(cs) == IF cs # <<>> /\ cs[Len(cs)] = NL THEN SubSeq(cs, 1, Len(cs) - 1) ELSE cs

\* [code, comments, macro (<<>>: none)]
SplitLine(cs) ==
  LET k == MacroAt(cs, 1)
      body == RStrip(IF k = 0 THEN cs ELSE SubSeq(cs, 1, k - 1))
      s == Scan(body, 1, <<>>, <<>>)
  IN [ code |-> s.code, comments |-> s.comments,
       macro |-> IF k = 0 THEN <<>> ELSE NoNewline(SubSeq(cs, k, Len(cs))) ]

\* The comment reported for the line: kind and text
JoinedText(comments) ==
  FoldLeft(LAMBDA acc, k : acc \o (IF k = 1 THEN <<>> ELSE <<DOT, SP>>) \o comments[k].text,
           <<>>, [k \in DOMAIN comments |-> k])
CommentKind(comments) ==
  IF comments = <<>> THEN "none"
  ELSE IF \E k \in DOMAIN comments : comments[k].kind = "semicolon" THEN "semicolon"
  ELSE "brackets"

------------------------------------------------------------------------------
(* Decimal numbers, exactly: digits before the point without leading zeros,   *)
(* digits after it without trailing zeros.                                    *)
RECURSIVE DropLead(_), DropTrail(_)
DropLead(ds) == IF ds # <<>> /\ ds[1] = 0 THEN DropLead(Tail(ds)) ELSE ds
DropTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN DropTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Decimal(neg, ip, fp) ==
  LET a == DropLead(ip)  b == DropTrail(fp) IN
  [ neg |-> neg /\ ~(a = <<>> /\ b = <<>>), ip |-> a, fp |-> b ]
Digits(cs, i, j) == [k \in 1..(j - i + 1) |-> cs[i + k - 1] - 48]

\* Value of a letter's kind, starting at index i: [ok, next, val]
Fail == [ok |-> FALSE, next |-> 0, val |-> Decimal(FALSE, <<>>, <<>>)]
ReadFloat(cs, i) ==
  LET neg == i <= Len(cs) /\ cs[i] = MINUS
      a == IF neg THEN i + 1 ELSE i
      b == SkipWhile(cs, a, DIGITS)                  \* past the integer digits
      dot == b <= Len(cs) /\ cs[b] = DOT
      c == IF dot THEN SkipWhile(cs, b + 1, DIGITS) ELSE b
      ints == Digits(cs, a, b - 1)
      fracs == IF dot THEN Digits(cs, b + 1, c - 1) ELSE <<>>
  IN IF ints = <<>> /\ fracs = <<>> THEN Fail
     ELSE [ok |-> TRUE, next |-> c, val |-> Decimal(neg, ints, fracs)]
ReadInt(cs, i) ==
  LET b == SkipWhile(cs, i, DIGITS) IN
  IF b = i THEN Fail
  ELSE [ok |-> TRUE, next |-> b, val |-> Decimal(FALSE, Digits(cs, i, b - 1), <<>>)]
ReadCode(cs, i) ==
  LET b == SkipWhile(cs, i, DIGITS)
      dot == b + 1 <= Len(cs) /\ cs[b] = DOT /\ IsDigit(cs[b + 1]) IN
  IF b = i THEN Fail
  ELSE [ok |-> TRUE, next |-> IF dot THEN b + 2 ELSE b,
        val |-> Decimal(FALSE, Digits(cs, i, b - 1), IF dot THEN Digits(cs, b + 1, b + 1) ELSE <<>>)]

ReadValue(l, cs, i) ==
  IF l \in NumCodeLetters THEN ReadCode(cs, i)
  ELSE IF l \in IntLetters THEN ReadInt(cs, i)
  ELSE ReadFloat(cs, i)

\* The words of a block: [ok, words], a word is [l, val] or [l, text]
RECURSIVE LexFrom(_, _, _)
LexFrom(cs, i, words) ==
  LET a == SkipWhile(cs, i, SPACES) IN
  IF a > Len(cs) THEN [ok |-> TRUE, words |-> words]
  ELSE IF ~IsLetter(cs[a]) THEN [ok |-> FALSE, words |-> words]
  ELSE LET l == LetterOf(cs[a])
           b == SkipWhile(cs, a + 1, SPACES) IN
       IF l \in TextLetters
       THEN LET txt == Squeeze(Strip(SubSeq(cs, a + 1, Len(cs))), <<>>) IN
            IF txt = <<>> THEN [ok |-> FALSE, words |-> words]
            ELSE [ok |-> TRUE, words |-> Append(words, [l |-> l, text |-> txt])]
       ELSE LET v == ReadValue(l, cs, b) IN
            IF ~v.ok THEN [ok |-> FALSE, words |-> words]
            ELSE LexFrom(cs, v.next, Append(words, [l |-> l, val |-> v.val]))
Lex(cs) == LexFrom(cs, 1, <<>>)

(* Text before the first word that is not a letter is not specified.          *)
OpenBlock(cs) == LET a == SkipWhile(cs, 1, SPACES) IN a <= Len(cs) /\ ~IsLetter(cs[a])

------------------------------------------------------------------------------
(* Magnitudes on the grid of 1/10^6: <<integer part, millionths>>, for        *)
(* numbers of at most 9 integer digits.                                       *)
RECURSIVE Fold10(_, _)
Fold10(ds, acc) == IF ds = <<>> THEN acc ELSE Fold10(Tail(ds), 10 * acc + ds[1])
Limbs(d) == << Fold10(d.ip, 0),
               Fold10([k \in 1..6 |-> IF k <= Len(d.fp) THEN d.fp[k] ELSE 0], 0) >>
AbsI(x) == IF x < 0 THEN -x ELSE x
\* |x - y| <= millionths/10^6, for two decimals (only when they're small apart)
Near(x, y, millionths) ==
  LET a == Limbs(x)  b == Limbs(y)
      sx == IF x.neg THEN -1 ELSE 1
      sy == IF y.neg THEN -1 ELSE 1
      whole == sx * a[1] - sy * b[1] IN
  /\ AbsI(whole) <= 1
  /\ AbsI(whole * 1000000 + sx * a[2] - sy * b[2]) <= millionths
=============================================================================
