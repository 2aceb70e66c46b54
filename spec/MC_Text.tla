------------------------------- MODULE MC_Text ------------------------------
(* Laws of the reading of lines, on every line of a few characters:           *)
(* what is executed holds no trace of comments or macro, does not depend on   *)
(* what they say, and reads the same after being printed.                     *)
EXTENDS Text
CONSTANT Longest

Chars == {88, 49, DOT, MINUS, SP, LP, RP, SEMI, PCT, 111}      \* X 1 . - space ( ) ; % o

VARIABLE cs
Init == cs = <<>>
Next == Len(cs) < Longest /\ \E c \in Chars : cs' = Append(cs, c)

S == SplitLine(cs)
Reads == Lex(S.code)

(* Code holds no comment and no macro; reading it again finds it whole.       *)
Clean == /\ CommentAt(S.code, 1) = 0 /\ MacroAt(S.code, 1) = 0
         /\ SplitLine(S.code) = [code |-> RStrip(S.code), comments |-> <<>>, macro |-> <<>>]
\* nothing is made up: code is part of the line, in its order
RECURSIVE Within(_, _)
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF a[1] = b[1] THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
Part == Within(S.code, cs)

(* What the first comment says, or the macro, never changes what is executed. *)
Replaced(k, c) == [cs EXCEPT ![k] = c]
Code(x) == RStrip(SplitLine(x).code)
Silent ==
  LET k == MacroAt(cs, 1)
      p == CommentAt(IF k = 0 THEN cs ELSE SubSeq(cs, 1, k - 1), 1)
      \* (a bracket is closed before the macro, or the macro would be inside it)
      said == IF p = 0 THEN {} ELSE IF cs[p] = SEMI THEN (p + 1)..Len(cs) ELSE (p + 1)..(CloseAt(cs, p) - 1)
      macro == IF k = 0 THEN {} ELSE (k + 1)..Len(cs)
  IN /\ \A j \in said, c \in Chars \ {RP} : Code(Replaced(j, c)) = Code(cs)
     /\ \A j \in macro, c \in Chars \ {RP} : Code(Replaced(j, c)) = Code(cs)

(* A printed form: words one after another, the joined comment, the macro.    *)
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<SP>> \o Join(Tail(xs))
Number(d) == (IF d.neg THEN <<MINUS>> ELSE <<>>)
             \o (IF d.ip = <<>> THEN <<48>> ELSE [k \in DOMAIN d.ip |-> d.ip[k] + 48])
             \o (IF d.fp = <<>> THEN <<>> ELSE <<DOT>> \o [k \in DOMAIN d.fp |-> d.fp[k] + 48])
CodePoint(l) == 64 + CHOOSE k \in 1..26 : AlphaSeq[k] = l
WordText(w) == <<CodePoint(w.l)>> \o (IF w.l \in TextLetters THEN w.text ELSE Number(w.val))
CommentText(comments) ==
  LET k == CommentKind(comments)  x == JoinedText(comments) IN
  IF k = "none" THEN <<>>
  ELSE IF k = "semicolon" THEN << <<SEMI, SP>> \o LStrip(x) >> ELSE << <<LP>> \o x \o <<RP>> >>
Printed == Join([k \in DOMAIN Reads.words |-> WordText(Reads.words[k])]
                \o CommentText(S.comments) \o (IF S.macro = <<>> THEN <<>> ELSE <<S.macro>>))
\* (a '%' of a bracketed comment, joined with a semicolon comment, starts a macro: a known finding)
\* (and a '(' in a program name would start at the name, if a bracketed comment follows it: another)
Joinable == /\ CommentKind(S.comments) = "semicolon" => MacroAt(<<SEMI>> \o JoinedText(S.comments), 1) = 0
            /\ CommentKind(S.comments) = "brackets" => FirstFrom(S.code, 1, LP) = 0
RoundTrip ==
  Reads.ok /\ Joinable /\ ~OpenBlock(S.code) =>
    LET s == SplitLine(Printed) IN
    /\ Lex(s.code) = Reads
    /\ CommentKind(s.comments) = CommentKind(S.comments)
    /\ LStrip(RStrip(JoinedText(s.comments))) = LStrip(RStrip(JoinedText(S.comments)))
    /\ s.macro = RStrip(S.macro) \/ s.macro = S.macro

(* Words don't depend on letter case or on whitespace between them.           *)
Spaced == LET x == [k \in DOMAIN Reads.words |-> WordText(Reads.words[k])] IN
          Reads.ok => /\ Lex(Join(x)) = Reads
                      /\ (~\E k \in DOMAIN Reads.words : Reads.words[k].l \in TextLetters) => Lex(FlattenSeq(x)) = Reads
Caseless == Lex([k \in DOMAIN S.code |-> Upper(S.code[k])]).ok = Reads.ok
=============================================================================
