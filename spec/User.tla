-------------------------------- MODULE User --------------------------------
(* Commands defined by the user: classes derived from the library's (or from  *)
(* each other), recognised once the tables are (re)built.                     *)
(*                                                                            *)
(* A definition is a record                                                   *)
(*   name                                                                     *)
(*   key   the word naming the command, <<>> if it has none of its own        *)
(*   rng   <<letter, low, high>>: the words it recognises, or <<>>            *)
(*   def   the word of an instance made without one, or <<>>                  *)
(*   row   its row (see Dialect)                                              *)
(* To be used with the substitutions  IsCode <- UIsCode, RowOf <- URowOf.     *)
EXTENDS Machine

VARIABLES defs, used     \* all definitions so far; the ones the tables know

Families == [ root    |-> Row("", 999, {}, {}, "none"),
              nonmod  |-> Row("", 999, {}, {}, "none"),
              userdef |-> Row("user_defined", 130, {"P","Q"}, {}, "none"),
              motion  |-> Row("motion", 242, AllAxes, {}, "move") ]

Keyed(ds, w) == { k \in DOMAIN ds : ds[k].key = w }
InRange(d, w) == /\ d.key = <<>> /\ d.rng # <<>>
                 /\ d.rng[1] = w[1] /\ d.rng[2] <= w[2] /\ w[2] <= d.rng[3]
Ranged(ds, w) == { k \in DOMAIN ds : InRange(ds[k], w) }
Tabled(w) == w[1] \in {"G", "M"} /\ LibIsCode(w)

(* Which definition is meant by a word (0: none of the user's).  A word that  *)
(* names a command means that command; otherwise it's one recognising it.     *)
DefOf(ds, w) ==
  IF w[1] \notin CodeLetters THEN 0
  ELSE IF Keyed(ds, w) # {} THEN Min(Keyed(ds, w))
  ELSE IF Tabled(w) THEN 0
  ELSE IF w[1] \in {"G", "M"} /\ Ranged(ds, w) # {} THEN Min(Ranged(ds, w))
  ELSE 0
UIsCode(w) == DefOf(used, w) # 0 \/ LibIsCode(w)
URowOf(w) == LET k == DefOf(used, w) IN IF k # 0 THEN used[k].row ELSE LibRowOf(w)

(* Two commands cannot have the same name.                                    *)
Ambiguous(ds) == \E k \in DOMAIN ds : /\ ds[k].key # <<>>
                                      /\ \/ Tabled(ds[k].key)
                                         \/ Cardinality(Keyed(ds, ds[k].key)) > 1

\* The word of an instance made without one (<<>>: it must be given)
OwnWord(d) == IF d.def # <<>> THEN d.def ELSE d.key
=============================================================================
