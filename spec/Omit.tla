-------------------------------- MODULE Omit --------------------------------
(* Leaving out motion words: the text of a command whose motion word is       *)
(* blanked is a modal line, so it has to mean the command on the machine that *)
(* executed the commands before it.                                           *)
EXTENDS Machine

\* words of a command's text, in any order
WordsOf(c) == SetToSeq(c.ps)
Blanked(c) == WordsOf(c)
Full(c) == <<c.w>> \o WordsOf(c)

\* Does a text (its words) mean the command, on machine m?
Means(m, c, ws) ==
  LET x == Meaning(m, ws) IN
  /\ x.ok
  /\ \/ x.eff = <<c>>
     \* a motion command without parameters does not do anything but select the motion
     \/ x.eff = <<>> /\ c.ps = {} /\ GroupOf(c) = "motion" /\ m.mode["motion"] = Retained(c)

\* Levels that a modal line takes from the active motion
Sticky(m) == { p[1] : p \in m.mode["motion"].ps } \ (AllAxes \ {Normal(m)})
(* The word may be left out                                                   *)
MayBlank(m, c) == /\ GroupOf(c) = "motion"
                  /\ m.mode["motion"].w = c.w
                  /\ Sticky(m) \subseteq { p[1] : p \in c.ps }
(* and has to be left out                                                     *)
MustBlank(m, c) == GroupOf(c) = "motion" /\ m.mode["motion"].w = c.w /\ m.mode["motion"].ps = {}
=============================================================================
