-------------------------------- MODULE MC_Rel ------------------------------
(* Every short list of commands: the converted list visits the same positions.*)
(* Every list is printed with its conversion, to be replayed.                 *)
EXTENDS Rel, Json

CONSTANTS Depth, Vals

SmallVals == {0, 1500}
Points == { "X", "Y" }
Starts == { [x \in {"X", "Y", "Z"} |-> 0], ("X" :> 1500 @@ "Y" :> -250 @@ "Z" :> 1000) }
Params == UNION { [S -> Vals] : S \in (SUBSET Points) \ {{}} }
Cmds == [k : {"move"}, w : {<<"G", 0>>, <<"G", 10>>}, ps : Params]
        \cup { [k |-> "other", w |-> <<"G", 40>>, ps |-> ("P" :> 500)],
               [k |-> "bad", w |-> <<"G", 20>>, ps |-> ("X" :> 1000 @@ "R" :> 4000)] }

VARIABLES at, cmds
vars == <<at, cmds>>
Init == at \in Starts /\ cmds = <<>>
Next == Len(cmds) < Depth /\ (\E c \in Cmds : cmds' = Append(cmds, c)) /\ at' = at
Spec == Init /\ [][Next]_vars

Res == Convert(at, cmds)
SamePath == Res.ok => VisitsRel(at, Res.out) = VisitsAbs(at, cmds)
\* the conversion says whether there is an unsupported motion
Refused == Res.ok <=> \A i \in DOMAIN cmds : cmds[i].k # "bad"
\* conversion is done command by command
Prefix == \A i \in 0..Len(cmds) : LET p == Convert(at, SubSeq(cmds, 1, i)) IN IsPrefix(p.out, Res.out)
Inv == SamePath /\ Refused /\ Prefix
Emit == cmds # <<>> => PrintT("RUN|" \o ToJson([at |-> at, cmds |-> cmds, out |-> Res.out, ok |-> Res.ok]))
=============================================================================
