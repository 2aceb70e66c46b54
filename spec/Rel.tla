--------------------------------- MODULE Rel --------------------------------
(* Turning absolute moves into increments.                                    *)
(*                                                                            *)
(* A command is [k, w, ps]: k is "move" (rapid or line), "bad" (another       *)
(* motion), or "other"; w the word; ps a function from letters to lengths     *)
(* (thousandths, or finer).  A position is a function from axes.              *)
EXTENDS Integers, Sequences, SequencesExt, TLC

AllAxes == {"X", "Y", "Z", "A", "B", "C", "U", "V", "W"}

\* where a move (absolute or incremental) leads to
AbsMove(at, c) == [a \in DOMAIN at |-> IF a \in DOMAIN c.ps THEN c.ps[a] ELSE at[a]]
RelMove(at, c) == [a \in DOMAIN at |-> IF a \in DOMAIN c.ps THEN at[a] + c.ps[a] ELSE at[a]]

\* The increments of a move, without those that are zero
Increments(from, to) == [a \in { x \in DOMAIN from : to[x] # from[x] } |-> to[a] - from[a]]

(* State of the conversion: position, commands written, whether it's refused  *)
Start(at) == [at |-> at, out |-> <<>>, ok |-> TRUE]
Step(s, c) ==
  IF ~s.ok THEN s
  ELSE IF c.k = "bad" THEN [s EXCEPT !.ok = FALSE]
  ELSE IF c.k = "other" THEN [s EXCEPT !.out = Append(@, c)]
  ELSE LET to == AbsMove(s.at, c)
           d == TLCEval(Increments(s.at, to))
       IN [s EXCEPT !.at = to,
                    !.out = IF DOMAIN d = {} THEN @ ELSE Append(@, [k |-> "move", w |-> c.w, ps |-> d])]
Convert(at, cmds) == FoldLeft(Step, Start(at), cmds)

(* What following commands visits: the moves that go anywhere, in order       *)
VisitsAbs(at, cmds) == FoldLeft(LAMBDA v, c :
  IF c.k # "move" THEN Append(v, [w |-> c.w, at |-> v[Len(v)].at])
  ELSE LET to == AbsMove(v[Len(v)].at, c)
       IN IF to = v[Len(v)].at THEN v ELSE Append(v, [w |-> c.w, at |-> to]), << [w |-> <<"", 0>>, at |-> at] >>, cmds)
VisitsRel(at, cmds) == FoldLeft(LAMBDA v, c :
  IF c.k # "move" THEN Append(v, [w |-> c.w, at |-> v[Len(v)].at])
  ELSE Append(v, [w |-> c.w, at |-> RelMove(v[Len(v)].at, c)]), << [w |-> <<"", 0>>, at |-> at] >>, cmds)
=============================================================================
