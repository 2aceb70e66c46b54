------------------------------- MODULE Blocks ------------------------------
(* What a block of words means: which words are commands, which are           *)
(* parameters of which command, which are left over; which blocks are         *)
(* rejected; and the order in which the commands act.                         *)
EXTENDS Dialect, SequencesExt, FiniteSetsExt

(* Words are parameters first, commands second: a word is a command if it is  *)
(* a code and no command before it accepts its letter.                        *)
RECURSIVE CmdFlags(_, _)
CmdFlags(ws, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(ws) THEN acc
  ELSE LET taken == \E j \in 1..(i-1) : acc[j] /\ ws[i][1] \in RowOf(ws[j]).ps
       IN  CmdFlags(ws, Append(acc, IsCode(ws[i]) /\ ~taken))

(* Index of the command owning word i (0: none, left over).  The closest      *)
(* command before it that accepts the letter, else the first one after it.    *)
Owner(ws, fl, i) ==
  LET Acc(j) == fl[j] /\ ws[i][1] \in RowOf(ws[j]).ps
      before == { j \in 1..(i-1) : Acc(j) }
      after  == { j \in (i+1)..Len(ws) : Acc(j) }
  IN IF fl[i] THEN i
     ELSE IF before # {} THEN Max(before)
     ELSE IF after # {} THEN Min(after)
     ELSE 0

\* A command: its word, its parameters (a set of words)
Cmd(w, ps) == [w |-> w, ps |-> ps]

(* Grouping of a list of words.                                               *)
(*   cmds  the commands, in written order                                     *)
(*   rest  the left-over words (modal parameters), in written order           *)
(*   dup   some command is given the same letter twice                        *)
Group(ws) ==
  LET fl  == TLCEval(CmdFlags(ws, <<>>))
      own == TLCEval([i \in DOMAIN ws |-> Owner(ws, fl, i)])
      ci  == SelectSeq([i \in DOMAIN ws |-> i], LAMBDA i : fl[i])
      Pi(c) == { i \in DOMAIN ws : own[i] = c /\ i # c }
  IN TLCEval(
     [ cmds |-> [k \in DOMAIN ci |-> Cmd(ws[ci[k]], { ws[i] : i \in Pi(ci[k]) })],
       rest |-> SelectSeq([i \in DOMAIN ws |-> IF own[i] = 0 THEN ws[i] ELSE <<>>],
                          LAMBDA w : w # <<>>),
       dup  |-> \E i, j \in DOMAIN ws : /\ i < j /\ own[i] = own[j] /\ own[i] # 0
                                        /\ ~fl[i] /\ ~fl[j]
                                        /\ ws[i][1] = ws[j][1] ])

GroupOf(c) == RowOf(c.w).g
StageOf(c) == RowOf(c.w).st
KindOf(c)  == RowOf(c.w).k

(* A block conflicts if it repeats a command word or holds two commands of    *)
(* one modal group.                                                           *)
Conflict(cmds) ==
  \E i, j \in DOMAIN cmds :
     /\ i < j
     /\ \/ cmds[i].w = cmds[j].w
        \/ GroupOf(cmds[i]) # "" /\ GroupOf(cmds[i]) = GroupOf(cmds[j])

(* Execution order: by stage, written order within a stage.                   *)
InOrder(cmds) ==
  LET stages == SetToSortSeq({ StageOf(cmds[i]) : i \in DOMAIN cmds }, LAMBDA a, b : a < b)
  IN FoldLeft(LAMBDA acc, s : acc \o SelectSeq(cmds, LAMBDA c : StageOf(c) = s), <<>>, stages)

(* Splitting an ordered list at the first command satisfying P.               *)
SplitAt(cmds, P(_)) ==
  LET hits == { i \in DOMAIN cmds : P(cmds[i]) } IN
  IF hits = {} THEN <<cmds, <<>>, <<>>>>
  ELSE LET k == Min(hits) IN
       << SubSeq(cmds, 1, k-1), <<cmds[k]>>, SubSeq(cmds, k+1, Len(cmds)) >>
=============================================================================
