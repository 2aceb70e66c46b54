------------------------------ MODULE Dialect ------------------------------
(* The command tables of the dialect, written from the documentation (the     *)
(* LinuxCNC tables quoted in the repository's comments and README).           *)
(*                                                                            *)
(* A word is a pair <<letter, value>>.  Values are integers:                  *)
(*   G and M            tenths      (G38.2 is <<"G", 382>>)                   *)
(*   L, N, T, O         units                                                 *)
(*   every other letter thousandths (X-1.5 is <<"X", -1500>>)                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Linear   == {"X","Y","Z"}
Rotary   == {"A","B","C"}
AllAxes  == {"X","Y","Z","A","B","C","U","V","W"}
Letters  == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
             "Q","R","S","T","U","V","W","X","Y","Z"}

\* Letters that may name a command
CodeLetters == {"G","M","F","S","T","N","O"}

(* Modal groups.  "" is used for commands without modal group.                *)
Groups == { "motion", "plane_selection", "distance", "arc_ijk_distance",
            "feed_rate_mode", "units", "cutter_diameter_comp",
            "tool_length_offset", "canned_cycles_return", "coordinate_system",
            "control_mode", "spindle_speed_mode", "lathe_diameter",
            "stopping", "spindle", "coolant", "override_switches",
            "user_defined", "feed_rate", "spindle_speed", "tool" }

(* A row: modal group, execution stage, accepted parameter letters, letters   *)
(* retained for repetition, and what executing it does (kind).                *)
Row(g, st, ps, re, k) == [g |-> g, st |-> st, ps |-> ps, re |-> re, k |-> k]

Mv(extra)  == Row("motion", 242, AllAxes \cup extra, {}, "move")
CanAx      == {"X","Y","Z","U","V","W"}
Can(extra) == Row("motion", 242, CanAx \cup extra, CanAx \cup (extra \ {"L"}), "canned")
Md(g, st)  == Row(g, st, {}, {}, "mode")
MdP(g, st, ps) == Row(g, st, ps, ps, "mode")
No(st, ps) == Row("", st, ps, {}, "none")

GTab ==
  \* motion
  (   0 :> Row("motion", 242, AllAxes, {}, "move")
  @@ 10 :> Mv({})
  @@ 20 :> Mv({"I","J","K","R","P"})
  @@ 30 :> Mv({"I","J","K","R","P"})
  @@ 40 :> Row("", 140, {"P"}, {}, "none")
  @@ 50 :> Mv({"I","J","P","Q"})
  @@ 51 :> Mv({"I","J"})
  @@ 52 :> Mv({"P","L"})
  @@ 53 :> Mv({"P","L"})
  @@ 330 :> Mv({"K"})
  @@ 331 :> Mv({"K"})
  @@ 382 :> Mv({}) @@ 383 :> Mv({}) @@ 384 :> Mv({}) @@ 385 :> Mv({})
  @@ 800 :> Row("", 241, {}, {}, "cancel")
  \* canned cycles
  @@ 730 :> Can({"R","L","Q"})
  @@ 760 :> Row("motion", 242, CanAx \cup {"P","I","J","R","K","Q","H","L","E"}, {}, "canned")
  @@ 810 :> Can({"R","L","P"})
  @@ 820 :> Can({"R","L","P"})
  @@ 830 :> Can({"R","L","Q"})
  @@ 850 :> Can({"R","L","P"})
  @@ 890 :> Can({"R","L","P"})
  \* planes
  @@ 170 :> Md("plane_selection", 150) @@ 180 :> Md("plane_selection", 150)
  @@ 190 :> Md("plane_selection", 150) @@ 171 :> Md("plane_selection", 150)
  @@ 181 :> Md("plane_selection", 150) @@ 191 :> Md("plane_selection", 150)
  \* distance
  @@ 900 :> Md("distance", 210) @@ 910 :> Md("distance", 210)
  @@ 901 :> Md("arc_ijk_distance", 210) @@ 911 :> Md("arc_ijk_distance", 210)
  @@ 70 :> Md("lathe_diameter", 210) @@ 80 :> Md("lathe_diameter", 210)
  \* feed rate mode, units
  @@ 930 :> Md("feed_rate_mode", 30) @@ 940 :> Md("feed_rate_mode", 30)
  @@ 950 :> Md("feed_rate_mode", 30)
  @@ 200 :> Md("units", 160) @@ 210 :> Md("units", 160)
  \* compensation
  @@ 400 :> Md("cutter_diameter_comp", 170)
  @@ 410 :> MdP("cutter_diameter_comp", 170, {"D"})
  @@ 420 :> MdP("cutter_diameter_comp", 170, {"D"})
  @@ 411 :> MdP("cutter_diameter_comp", 170, {"D","L"})
  @@ 421 :> MdP("cutter_diameter_comp", 170, {"D","L"})
  @@ 430 :> MdP("tool_length_offset", 180, {"H"})
  @@ 431 :> Md("tool_length_offset", 180)
  @@ 432 :> MdP("tool_length_offset", 180, {"H"})
  @@ 490 :> Md("tool_length_offset", 180)
  \* return mode
  @@ 980 :> Md("canned_cycles_return", 220) @@ 990 :> Md("canned_cycles_return", 220)
  \* coordinate systems
  @@ 540 :> Md("coordinate_system", 190) @@ 550 :> Md("coordinate_system", 190)
  @@ 560 :> Md("coordinate_system", 190) @@ 570 :> Md("coordinate_system", 190)
  @@ 580 :> Md("coordinate_system", 190) @@ 590 :> Md("coordinate_system", 190)
  @@ 591 :> Md("coordinate_system", 190) @@ 592 :> Md("coordinate_system", 190)
  @@ 593 :> Md("coordinate_system", 190)
  \* path control
  @@ 610 :> Md("control_mode", 200) @@ 611 :> Md("control_mode", 200)
  @@ 640 :> MdP("control_mode", 200, {"P","Q"})
  \* spindle speed mode
  @@ 960 :> MdP("spindle_speed_mode", 90, {"D"})
  @@ 970 :> MdP("spindle_speed_mode", 90, {"D"})
  \* non modal
  @@ 100 :> No(230, {"L","P","Q","R","A","B","C","X","Y","Z"})
  @@ 280 :> No(230, {}) @@ 300 :> No(230, {})
  @@ 281 :> No(230, {}) @@ 301 :> No(230, {})
  @@ 530 :> No(240, {})
  @@ 920 :> No(230, AllAxes)
  @@ 921 :> No(230, {}) @@ 922 :> No(230, {}) @@ 923 :> No(230, {})
  )

MTab ==
  (  30 :> Md("spindle", 90) @@ 40 :> Md("spindle", 90) @@ 50 :> Md("spindle", 90)
  @@ 190 :> No(90, {})
  @@ 70 :> Md("coolant", 110) @@ 80 :> Md("coolant", 110) @@ 90 :> Md("coolant", 110)
  @@ 0 :> Md("stopping", 250) @@ 10 :> Md("stopping", 250) @@ 20 :> Md("stopping", 250)
  @@ 300 :> Md("stopping", 250) @@ 600 :> Md("stopping", 250)
  @@ 480 :> Md("override_switches", 120) @@ 490 :> Md("override_switches", 120)
  @@ 500 :> No(120, {"P"}) @@ 510 :> No(120, {"P"})
  @@ 520 :> No(120, {"P"}) @@ 530 :> No(120, {"P"})
  @@ 620 :> No(70, {"P"}) @@ 630 :> No(70, {"P"}) @@ 640 :> No(70, {"P"}) @@ 650 :> No(70, {"P"})
  @@ 660 :> No(70, {"P","E","L","Q"})
  @@ 670 :> No(70, {"T"}) @@ 680 :> No(70, {"T"})
  @@ 60 :> No(80, {"T"})
  @@ 610 :> No(80, {"Q"})
  )

GCodesKnown == DOMAIN GTab
MCodesKnown == DOMAIN MTab

FRow == Md("feed_rate", 40)
SRow == Md("spindle_speed", 50)
TRow == Md("tool", 60)
NRow == No(0, {})
ORow == No(1, {})

\* Is the word a command (if nothing before it takes it as a parameter)?
LibIsCode(w) == CASE w[1] = "G" -> w[2] \in GCodesKnown
                  [] w[1] = "M" -> w[2] \in MCodesKnown
               [] OTHER -> w[1] \in {"F","S","T","N","O"}

LibRowOf(w) == CASE w[1] = "G" -> GTab[w[2]]
              [] w[1] = "M" -> MTab[w[2]]
              [] w[1] = "F" -> FRow
              [] w[1] = "S" -> SRow
              [] w[1] = "T" -> TRow
              [] w[1] = "N" -> NRow
              [] OTHER -> ORow

(* The commands in use: those of the library (User.tla adds the user's own,   *)
(* by substituting these).                                                    *)
IsCode(w) == LibIsCode(w)
RowOf(w) == LibRowOf(w)

\* The coordinate system a command selects (0: none)
CoordSys == ( 540 :> 1 @@ 550 :> 2 @@ 560 :> 3 @@ 570 :> 4 @@ 580 :> 5
           @@ 590 :> 6 @@ 591 :> 7 @@ 592 :> 8 @@ 593 :> 9 )

(* Letters whose value is text, or an unsigned integer, or a code.            *)
TextLetters == {"O"}
IntLetters  == {"L","N","T"}
NumCodeLetters == {"G","M"}
FloatLetters == Letters \ (TextLetters \cup IntLetters \cup NumCodeLetters)
=============================================================================
