-------------------------------- MODULE Drill -------------------------------
(* Drilling cycles: which sequences of simple moves drill the same holes.     *)
(*                                                                            *)
(* Lengths are integers (thousandths).  A cycle is                            *)
(*   [cycle, given, from, inc, toR]                                           *)
(*   cycle  73, 81, 82, 83, 85 or 89                                          *)
(*   given  parameters, a function from letters                               *)
(*   from   <<x, y, z>>, where the tool is                                    *)
(*   inc    incremental distance mode                                         *)
(*   toR    return to R (G99), else to the previous level (G98)               *)
EXTENDS Integers, Sequences, TLC

MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
AbsI(x) == IF x < 0 THEN -x ELSE x

Has(c, l) == l \in DOMAIN c.given
Pecks(c) == c.cycle \in {73, 83}
Dwells(c) == c.cycle \in {82, 89}
FeedsOut(c) == c.cycle \in {85, 89}

HoleCount(c) == IF Has(c, "L") THEN MaxI(1, c.given["L"]) ELSE 1
RLevel(c) == IF c.inc THEN c.from[3] + c.given["R"] ELSE c.given["R"]
Depth(c) == IF c.inc THEN RLevel(c) + c.given["Z"] ELSE c.given["Z"]
FinalLevel(c) == IF c.toR THEN RLevel(c) ELSE c.from[3]
HoleAt(c, k) ==
  LET coord(l, i) == IF ~Has(c, l) THEN c.from[i]
                     ELSE IF c.inc THEN c.from[i] + k * c.given[l] ELSE c.given[l]
  IN << coord("X", 1), coord("Y", 2) >>

Complete(c) == Has(c, "R") /\ Has(c, "Z")
(* No drilling downwards can be done by these                                 *)
Impossible(c) == \/ Pecks(c) /\ (~Has(c, "Q") \/ c.given["Q"] = 0)
                 \/ Complete(c) /\ RLevel(c) < Depth(c)
Open(c) == ~Impossible(c) /\ (~Complete(c) \/ c.from[3] < Depth(c))
(* Nothing is drilled (the hole is only visited)                              *)
Flat(c) == Complete(c) /\ RLevel(c) = Depth(c)

------------------------------------------------------------------------------
(* The tool, while the moves are followed:                                    *)
(*   at       where it is                                                     *)
(*   done     number of holes finished                                        *)
(*   phase    "above": the next hole isn't begun    "in": between R and depth *)
(*            "bottom": at the depth                "out": on the way out     *)
(*   deepest  how deep the current hole has been drilled (R if not begun)     *)
(*   dwelled  number of dwells in the current hole                            *)
(*   high     highest level since the last drilling move                      *)
Begin(c) == [at |-> c.from, done |-> 0, phase |-> "above", deepest |-> RLevel(c), dwelled |-> 0, high |-> c.from[3]]

HoleFinished(c, s) == s.phase \in {"bottom", "out"} /\ s.at[3] = FinalLevel(c)
\* (the next move begins the next hole)
Next_(c, s) == [s EXCEPT !.done = @ + 1, !.phase = "above", !.deepest = RLevel(c), !.dwelled = 0]

XY(p) == << p[1], p[2] >>
Current(c, s) == HoleAt(c, s.done + 1)

\* A dwell of p (thousandths of a second)
DwellClauses(c, s, p) == {
  << "dwell: the cycle does", Dwells(c) >>,
  << "dwell: at the bottom", s.phase = "bottom" >>,
  << "dwell: once", s.dwelled = 0 >>,
  << "dwell: time", IF Has(c, "P") THEN p = c.given["P"] ELSE p > 0 >> }
Dwell(c, s) == [s EXCEPT !.dwelled = @ + 1]

(* A move to p; feed or rapid.                                                *)
\* Does this move leave a finished hole, for the next one?
Leaves(c, s, p, feed) ==
  /\ HoleFinished(c, s)
  /\ \/ XY(p) # XY(s.at)
     \/ p[3] < s.at[3]
     \/ p[3] > s.at[3]
MoveClauses(c, s0, p, feed) ==
  LET leaves == Leaves(c, s0, p, feed)
      s == IF leaves THEN Next_(c, s0) ELSE s0
      across == XY(p) # XY(s.at)
      down == p[3] < s.at[3]
      up == p[3] > s.at[3]
  IN IF p = s.at THEN {}
  ELSE
  { << "holes: no more than repeats", ~leaves \/ s.done < HoleCount(c) >>,
    << "dwell: missing", ~(leaves \/ (s.phase = "bottom" /\ up)) \/ ~Dwells(c) \/ s0.dwelled = 1 >> }
  \cup IF across THEN
    { << "across: not in a hole", s.phase = "above" >>,
      << "across: at or above R", MinI(p[3], s.at[3]) >= RLevel(c) >>,
      << "across: by rapid", ~feed >> }
  ELSE IF feed /\ down THEN
    { << "feed: at the hole", XY(p) = Current(c, s) >>,
      << "feed: before the bottom", s.phase \in {"above", "in"} >>,
      << "feed: not below depth", p[3] >= Depth(c) >>,
      << "feed: peck", ~Pecks(c) \/ s.deepest - p[3] <= AbsI(c.given["Q"]) >>,
      \* (the chip is broken by a bit)
      << "feed: not cleared fully", ~(s.phase = "in" /\ c.cycle = 73) \/ s.high < RLevel(c) \/ s.high - s.deepest <= 1000 >>,
      << "feed: cleared between pecks", ~(s.phase = "in" /\ Pecks(c)) \/ s.high >= (IF c.cycle = 83 THEN RLevel(c) ELSE s.deepest + 1) >> }
  ELSE IF feed THEN
    { << "out: by feed only if the cycle does", FeedsOut(c) >>,
      << "out: from the bottom", s.phase \in {"bottom", "out"} >>,
      << "out: no further than the return level", p[3] <= FinalLevel(c) >> }
  ELSE IF down THEN
    { << "rapid: not deeper than drilled", p[3] >= s.deepest >>,
      << "rapid: into a hole at the hole", p[3] >= RLevel(c) \/ XY(p) = Current(c, s) >>,
      << "rapid: not on the way out", s.phase \in {"above", "in"} >> }
  ELSE \* rapid, upwards
    { << "out: by rapid only if the cycle does", s.phase \notin {"bottom", "out"} \/ ~FeedsOut(c) \/ s.at[3] >= MinI(RLevel(c), FinalLevel(c)) >>,
      << "out: no further than the return level", s.phase \notin {"bottom", "out"} \/ p[3] <= FinalLevel(c) >> }

Move(c, s0, p, feed) ==
  LET s == IF Leaves(c, s0, p, feed) THEN Next_(c, s0) ELSE s0
      drilled == feed /\ p[3] < s.at[3]
  IN [s EXCEPT !.at = p,
      !.deepest = IF drilled THEN MinI(@, p[3]) ELSE @,
      !.high = IF drilled THEN p[3] ELSE MaxI(@, p[3]),
      !.phase = IF drilled THEN (IF p[3] = Depth(c) THEN "bottom"
                                 ELSE IF p[3] < RLevel(c) \/ @ = "in" THEN "in" ELSE @)
                ELSE IF @ = "bottom" /\ p[3] > s.at[3] THEN "out" ELSE @]

(* Where nothing is drilled, holes are visited at or above their level        *)
FlatClauses(c, s, p, feed) == {
  << "flat: at or above the level", p[3] >= RLevel(c) >>,
  << "flat: across at or above R, by rapid", XY(p) = XY(s.at) \/ (~feed /\ MinI(p[3], s.at[3]) >= RLevel(c)) >>,
  << "flat: at a hole", p[3] > RLevel(c) \/ p[3] = s.at[3] \/ \E k \in 1..HoleCount(c): XY(p) = HoleAt(c, k) >> }
FlatEnd(c, s) == {
  << "end: position", s.at = << HoleAt(c, HoleCount(c))[1], HoleAt(c, HoleCount(c))[2], FinalLevel(c) >> >> }

EndClauses(c, s) == {
  << "end: every hole", s.done = HoleCount(c) - 1 /\ s.phase \in {"bottom", "out"} >>,
  << "end: dwell", ~Dwells(c) \/ s.dwelled = 1 >>,
  << "end: position", s.at = << HoleAt(c, HoleCount(c))[1], HoleAt(c, HoleCount(c))[2], FinalLevel(c) >> >> }
=============================================================================
