#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for (a, b, c) in state],
                          "mechanism": [{"name": a, "where": b} for (a, b) in mech],
                          "observe_at": list(observe), "hook_needed": None}})
S = "src/pygcode/"
p("C01", "Comments and macros never leak into the executed block",
  "For every line, bracketed comments, a semicolon comment and a trailing %-macro are separated from the block: the words read are exactly those written outside them, and no character of a comment (a ';', a '%' or code-like text inside brackets, a bracket inside a semicolon comment) is ever executed. The comment text is reported verbatim, several comments on one line joined in order, and the macro is reported verbatim.",
  ["inputs"], "all lines that interleave code, bracket comments, at most one semicolon comment and at most one macro",
  "Five example lines with one comment style each; nothing mixes styles or puts ';', '%' or code inside a comment.",
  [S+"line.py", S+"comment.py"], [("Line.__init__ / line_regex", S+"line.py"), ("split_line", S+"comment.py")],
  observe=["Line.block.words", "Line.comment.text", "Line.macro"])
p("C02", "Block text is read as exactly the words written",
  "For a block made of letter/number words, the words read are exactly those written - same letters, same exact values, same order - whatever the letter case, the whitespace and the spelling of the numbers (leading or trailing zeros, bare decimal point, minus sign). A letter without a valid number, or unrecognised text between or after words, is rejected with an error rather than silently dropped.",
  ["inputs"], "all block texts over the dialect's letters and number forms",
  "Two example blocks and a handful of regex samples; the space of spellings, separators and malformed tails is unbounded.",
  [S+"words.py", S+"dialects/linuxcnc.py", S+"block.py"], [("text2words", S+"words.py"), ("WORD_MAP value regexes", S+"dialects/linuxcnc.py")],
  observe=["text2words", "Block.words"])
p("C03", "Every word of a block is used exactly once",
  "When the words of a block are grouped, each word ends up as exactly one command, or as a parameter of exactly one command that accepts its letter (the closest such command written before it, else the first one after it), or as a left-over modal parameter; none is lost, duplicated or altered. Giving one command the same parameter letter twice is rejected.",
  ["inputs", "programs"], "all sequences of words over all supported codes and letters",
  "One three-word example checks grouping; there are over a hundred codes whose accepted letters overlap.",
  [S+"gcodes.py", S+"block.py"], [("words2gcodes", S+"gcodes.py"), ("GCode.add_parameter", S+"gcodes.py")],
  observe=["Block.gcodes", "Block.modal_params", "words2gcodes"])
p("C04", "Conflicting commands in a block are rejected, all others accepted",
  "A block that repeats a command word, or holds two commands of the same modal group, is rejected with an error; any other block of supported commands with distinct parameters is accepted.",
  ["inputs", "programs"], "all multisets of supported codes in one block, in every order",
  "No test exercises block verification at all; there are thousands of pairs.",
  [S+"block.py", S+"gcodes.py"], [("Block._assert_gcodes", S+"block.py"), ("MODAL_GROUP_MAP / modal_group", S+"gcodes.py")],
  observe=["Block()"])
p("C05", "Every supported code means what the documented tables say",
  "Each code of the documented command tables is recognised, however its number is spelled (G1, g01, G1.0), as one command with the documented modal group and accepted parameter letters, as a class the package exports by its name, and a machine that processes it ends in that mode; codes outside the tables are never taken for a supported one.",
  ["inputs", "configurations"], "all documented codes plus all unsupported G/M numbers with at most one decimal, in all spellings",
  "The modal group of about eighty codes is tested; parameter letters, spellings and non-codes are not.",
  [S+"gcodes.py"], [("word_key / word_matches / modal_group / param_letters", S+"gcodes.py"), ("build_maps / word_gcode_class", S+"gcodes.py")],
  observe=["word_gcode_class", "Block.gcodes", "Machine.mode"])
p("C06", "Commands act in the documented execution order, not the written one",
  "Commands of one block take effect in the documented execution-order stages (feed mode, feed, speed, tool, I/O, tool change, spindle, coolant, overrides, dwell, plane, units, compensation, coordinate system, path control, distance, retract, offsets, motion, stop), so rewriting them in another order gives the machine the same state. Sorting or splitting a list of commands keeps every command, in that order, and splits at the first command of the requested kind.",
  ["inputs", "programs"], "all blocks of compatible commands and all permutations of them",
  "Two split examples; no test permutes a block or processes a mode change after the motion it affects.",
  [S+"gcodes.py", S+"machine.py"], [("exec_order / GCode.__lt__", S+"gcodes.py"), ("Machine.process_gcodes sorted()", S+"machine.py"), ("split_gcodes", S+"gcodes.py")],
  observe=["Machine state after process_block", "sorted(gcodes)", "split_gcodes"])
p("C07", "Each modal group holds the last command executed in that group",
  "After any program, the machine's mode holds for every modal group exactly the last command of that group executed (starting from the machine's default modes), unaffected by commands of other groups and by non-modal commands; cancelling canned cycles (G80) clears the motion mode. A mode keeps only those parameters of its command that are retained for repetition.",
  ["histories", "programs"], "all programs of any length over all codes, on default, null and custom-mode machines",
  "Tests drive a few distance/motion modes over short programs and never look at the mode itself.",
  [S+"machine.py", S+"gcodes.py"], [("Mode.set_mode / modal_copy", S+"machine.py"), ("GCodeCancelCannedCycle._process", S+"gcodes.py")],
  state=[("Mode.modal_groups", "modal group -> active command", S+"machine.py")], observe=["Machine.mode"])
p("C08", "A printed machine mode re-creates that mode",
  "Feeding the text of a machine's mode to a machine with no mode gives the same active command in every modal group, including retained parameter values (to the printed precision), and the mode listing contains each active command exactly once.",
  ["histories", "programs"], "all modes reachable by any program",
  "No test prints or re-reads a mode.",
  [S+"machine.py", S+"gcodes.py"], [("Mode.gcodes / Mode.__str__", S+"machine.py"), ("GCode.modal_copy", S+"gcodes.py")],
  observe=["str(Machine.mode)", "Mode.gcodes"])
p("C09", "The machine position is the sum of the program's motions",
  "After any program, each axis of the position equals the result of the motion commands executed: in absolute mode the last value given, in incremental mode the sum of the values given, across any number of mode switches. Axes not named by a motion do not move, and commands that are not motions (including dwell, offsets and mode changes) never move the machine.",
  ["histories", "programs"], "all motion programs over all motion codes, axis sets and distance-mode switches",
  "Seven short programs, each in one distance mode, with X and Y mostly.",
  [S+"machine.py", S+"gcodes.py"], [("Machine.move_to", S+"machine.py"), ("GCodeMotion._process", S+"gcodes.py")],
  state=[("Machine.abs_pos", "absolute machine position", S+"machine.py")], observe=["Machine.pos", "Machine.abs_pos"])
p("C10", "Work and absolute positions differ by exactly the active offsets",
  "At all times the work position plus the offset of the selected coordinate system plus the temporary offset equals the absolute position, and converting between the two in either direction and back is the identity. Selecting another coordinate system or changing an offset never moves the machine, the selected system is the one named by the mode, and later motions land at the commanded work coordinates.",
  ["histories", "programs", "configurations"], "all interleavings of motions, coordinate-system selections and offset changes, for all nine systems",
  "No test sets an offset or selects a coordinate system.",
  [S+"machine.py", S+"gcodes.py"], [("Machine.abs2work / work2abs / pos", S+"machine.py"), ("Machine.set_mode", S+"machine.py")],
  state=[("State.coord_systems / cur_coord_sys / offset", "offsets", S+"machine.py")], observe=["Machine.pos", "Machine.abs_pos", "Machine.state"])
p("C11", "The recorded motion range is the exact envelope of positions",
  "At all times the machine's recorded minimum and maximum corners equal, axis by axis, the smallest and largest absolute coordinate of its start and of every position it was moved to; they never shrink and always contain the current position.",
  ["histories", "programs"], "all motion histories, including direct position assignments and offsets",
  "No test reads the range.",
  [S+"machine.py"], [("Machine._update_abs_range", S+"machine.py"), ("Position.min / max", S+"machine.py")],
  observe=["Machine.abs_range_min", "Machine.abs_range_max"])
p("C12", "A modal line means the same as the fully written command",
  "A block holding only axis or cycle parameters executes exactly as if the active motion command had been written in front, with the omitted levels (depth, retract, dwell, peck) of a cycle taken from the retained ones, and at most one motion runs per block. If the parameters do not fit the active motion (or none is active) the block is rejected and the machine is left completely unchanged.",
  ["histories", "programs"], "all modal blocks after all histories, for all motion and canned-cycle modes",
  "Modal lines are only tested after G0, G1, G2, G3 with all parameters valid.",
  [S+"machine.py"], [("Machine.modal_gcode / block_modal_gcodes / process_gcodes", S+"machine.py")],
  observe=["Machine state", "Machine.block_modal_gcodes", "raised error"])
p("C13", "Cleaning a block removes exactly the inapplicable modal parameters",
  "After a block has been cleaned for a machine, processing it cannot fail for its modal parameters; every parameter valid for the active motion is kept in order, every other is removed, and the block's own commands are untouched. A machine told to ignore invalid modal parameters ends in the same state as one given only the valid ones.",
  ["histories", "programs"], "all blocks with valid, invalid and unsupported leftovers, after all histories",
  "Nothing tests cleaning or the ignoring machine.",
  [S+"machine.py"], [("Machine.clean_block", S+"machine.py"), ("Machine.ignore_invalid_modal", S+"machine.py")],
  observe=["Block.modal_params", "Block.gcodes", "Machine state"])
p("C14", "Copies are equal and independent, and inputs are not aliased",
  "A copy of a machine, mode, state or position shows the same observable state as the original - mode, position, selected coordinate system, offsets, range - and behaves identically under any further program, while later changes to either never show in the other. Changing a block or command after it was processed never changes the machine, and processing a block never changes the block.",
  ["histories", "programs"], "all interleavings of copying, processing and mutation over several machines",
  "No test copies a machine or mutates an object after use.",
  [S+"machine.py", S+"gcodes.py"], [("__copy__ of Machine, Mode, State, CoordinateSystem, Position", S+"machine.py"), ("GCode.modal_copy", S+"gcodes.py")],
  observe=["all observable state of every copy"])
p("C15", "Positions form a per-axis vector space with exact unit conversion",
  "Adding, subtracting, scaling and dividing positions of the same unit acts on each axis separately and never changes the operands; equality means equal axes and equal coordinates, min and max are taken per axis after converting to the first operand's unit, and changing the unit multiplies every coordinate by 25.4 or its inverse exactly once. Operations on incompatible or undefined axes raise an error and leave the position unchanged.",
  ["histories", "inputs", "configurations"], "all sequences of operations over several positions with all axis subsets, units and signs",
  "One example per operator, all in millimetres on X/Y/Z.",
  [S+"machine.py"], [("Position", S+"machine.py")],
  observe=["Position attributes, values, words, vector, unit"])
p("C16", "Canned cycles leave the machine at the documented end position",
  "Processing a canned cycle moves the machine to the hole position in the selected plane and leaves the plane-normal axis at its previous level in return-to-previous mode or at the retract level R in return-to-R mode. In incremental mode the in-plane step is repeated L times while the levels are not, and repeating the cycle by a modal line does the same with retained levels.",
  ["histories", "programs"], "all cycle codes x planes x distance modes x return modes x repeat counts, after all histories",
  "Three examples, all G81 in the XY plane.",
  [S+"gcodes.py", S+"machine.py"], [("GCodeCannedCycle._process", S+"gcodes.py")],
  observe=["Machine.pos"])
p("C17", "Linearised arcs stay within the allowed deviation of the arc",
  "For every valid arc (centre or radius form, clockwise or counter-clockwise, any plane, helical or full circle, either arc-distance mode), every point of the generated straight lines is within the requested maximum error of the true arc, and the lines cover the whole arc. The inside method's lines end on the circle and never leave it, the outside method's lines touch the circle and never cut inside it, and the lines of the method in between stray equally far to both sides.",
  ["inputs", "configurations"], "all arcs x planes x methods x error bounds x distance modes",
  "Arc linearisation has no tests at all.",
  [S+"transform.py", S+"gcodes.py"], [("linearize_arc / ArcLinearizeMethod.iter_vertices", S+"transform.py"), ("plane quaternions", S+"gcodes.py")],
  observe=["yielded GCodeLinearMove list"])
p("C18", "Linearised arcs start, turn and end where the arc does",
  "The generated lines run from the start to exactly the arc's end point, always turning in the commanded direction, sweeping less than a full turn (exactly one for a full circle, and one more for each further turn asked for), with the axis normal to the plane advancing in proportion to the swept angle. Executing them in the distance mode given leaves the machine at the arc's end point to the output precision, in absolute and incremental mode alike; impossible or ambiguous arcs are rejected.",
  ["inputs", "configurations"], "all arcs x planes x methods x distance modes, including degenerate ones",
  "Arc linearisation has no tests at all.",
  [S+"transform.py"], [("linearize_arc", S+"transform.py")],
  observe=["yielded GCodeLinearMove list", "raised error"])
p("C19", "Expanded canned cycles drill the same holes safely",
  "The expansion of a drilling cycle reaches the commanded depth exactly once per repeat at each hole position with a feed move, travels across only at or above the retract level, never rapids deeper than already drilled, pecks by no more than Q (clearing the hole between pecks, fully or, chip breaking, partly), dwells if and only if the cycle dwells (for the time given), feeds out if and only if the cycle does, and terminates. It leaves the machine exactly where processing the cycle itself would, in absolute and incremental mode and for both return modes.",
  ["inputs", "configurations"], "all cycle codes, depths, peck sizes, repeats, start heights at or above the hole bottom, distance and return modes",
  "Canned-cycle expansion has no tests at all.",
  [S+"transform.py"], [("simplify_canned_cycle", S+"transform.py")],
  observe=["yielded gcode list", "Machine state"])
p("C20", "Absolute-to-incremental conversion preserves the path",
  "Converting a generated list of absolute linear and rapid moves to incremental form visits the same positions in the same order with the same move types, drops only moves of zero length, passes other commands through unchanged, and leaves the list unconverted when the distance mode is absolute. Motions it cannot convert are refused.",
  ["inputs", "programs"], "all move lists, start positions and axis sets",
  "One list of seven moves.",
  [S+"gcodes.py"], [("_gcodes_abs2rel", S+"gcodes.py")],
  observe=["decorated generator output"])
p("C21", "Omitting redundant modes does not change what a program does",
  "For every sequence of commands, the text produced after blanking redundant motion words executes exactly as the original does - same motions, positions and final mode - and a motion word is only blanked if that very motion mode is already active (and always, if that mode retains no parameters). The original command objects are not modified.",
  ["programs", "histories"], "all sequences of motion, canned-cycle, G80, dwell and mode commands",
  "One list of six G0/G1 lines, checked for leading blanks only.",
  [S+"utils.py", S+"gcodes.py"], [("omit_redundant_modes", S+"utils.py")],
  observe=["text of yielded gcodes", "Machine state"])
p("C22", "Printed g-code reads back as the same program",
  "The text of any parsed line, block or command, read again, gives the same commands and parameters with numeric parameters within half of the third decimal (code numbers, line numbers, tools and program names exactly), and has the same effect on any machine. Output never uses exponent notation, and printing is stable: printing what was read back gives the same text.",
  ["inputs", "programs"], "all parsed lines and all numeric magnitudes that can be written",
  "No test compares printed text with its source.",
  [S+"words.py", S+"dialects/linuxcnc.py", S+"gcodes.py", S+"line.py", S+"block.py", S+"comment.py"], [("Word.value_str / CLEAN_*", S+"dialects/linuxcnc.py"), ("GCode.__str__ / Block.__str__ / Line.__str__", S+"gcodes.py")],
  observe=["str(Line)", "str(Block)", "str(GCode)"])
p("C23", "Normalising a program preserves its machining",
  "The output of the normalising script, for any program it accepts and any combination of its formatting options, executes the same motions and commands in the same order as the input, apart from the expansions asked for: each arc replaced by lines within the given precision of it, each listed canned cycle by its drilling moves with the active return mode. Positions agree after every input line, and comments are kept in order.",
  ["programs", "configurations"], "all programs x option combinations (singles, full, arc linearisation and method, canned expansion and code list, machine mode, whitespace, comments, blanks)",
  "The script is only ever started with --help.",
  ["scripts/pygcode-norm", S+"transform.py", S+"utils.py", S+"machine.py"], [("main loop, write(), split_and_process", "scripts/pygcode-norm")],
  observe=["stdout of pygcode-norm"])
p("C24", "Normaliser content and finalising options do only what they say",
  "Removing comments, blank lines, whitespace or listed codes removes exactly those and nothing else; one-command-per-line output has at most one command on each line. The finalising options first rise to the safe height (the highest level used unless given), then cross to X0 Y0, then go to Z0, in absolute mode, and stop the spindle, whatever mode the program ended in.",
  ["programs", "configurations"], "all programs x removal and finalising options",
  "The script is only ever started with --help.",
  ["scripts/pygcode-norm"], [("write() and finalising section", "scripts/pygcode-norm")],
  observe=["stdout of pygcode-norm"])
p("C25", "A cropped program resumes exactly where the original was",
  "The output of the cropping script is a preamble followed by exactly the lines from the first one meeting the start condition up to, not including, the first one from there on meeting the end condition. Whatever the tool's starting point, the preamble first rises (along the active plane's normal) to the highest level used so far, then crosses, then descends, and leaves position and every modal setting as they were before the first kept line (an active canned cycle is instead written out on the first line repeating it), so the kept lines perform the same motions as in the full program.",
  ["programs", "configurations"], "all programs x ranges by line number or axis position, in absolute and incremental mode and every motion mode",
  "The script is only ever started with --help.",
  ["scripts/pygcode-crop", S+"machine.py"], [("range_type", "scripts/pygcode-crop"), ("cropping loop and preamble", "scripts/pygcode-crop")],
  observe=["stdout of pygcode-crop"])
p("C26", "Words have consistent equality, order, hashing and text",
  "Two words are equal exactly when letter and value are equal, equal words hash alike and find each other in sets and dictionaries, and ordering is a total order by letter then value consistent with equality; comparing with a text means comparing with the word it spells. The value can be set and is converted to the letter's type, and converting words to a dictionary keeps the selected letters only.",
  ["inputs"], "all pairs and triples of words over all letters and value spellings",
  "Words are only compared for equality with hand-built ones.",
  [S+"words.py"], [("Word.__eq__ / __lt__ / __hash__ / value", S+"words.py")],
  observe=["Word comparisons", "hash", "words2dict"])
p("C27", "Command parameters behave as a checked dictionary",
  "Building a command from words, from keyword arguments or by attribute assignment gives equal commands; reading a parameter gives its value or None if accepted but absent, and assigning changes only that parameter. Letters a command does not accept, and adding a letter twice, are rejected leaving the command unchanged, and the parameter dictionary and text list exactly the parameters present.",
  ["inputs", "histories"], "all commands x all parameter letters x sequences of reads, additions and assignments",
  "Attribute reads on two commands are all the tests do.",
  [S+"gcodes.py"], [("GCode.__init__ / add_parameter / __getattr__ / __setattr__ / get_param_dict", S+"gcodes.py")],
  observe=["GCode attributes", "GCode.params", "str(GCode)"])
p("C28", "Direction and rotation helpers align what they say",
  "The rotation computed to align one direction with another really turns the first to the second, by the least rotation that does (none if they already agree, half a turn if they are opposite); the rotation computed for two coordinate systems takes both given directions of the first to those of the second; projecting on a plane removes exactly the part along its normal. None of them fails for parallel or opposite directions, and the plane-selection commands' normals, axes and rotation form one right-handed frame.",
  ["inputs"], "all pairs of directions and of coordinate systems, including parallel and opposite ones",
  "One pair of vectors and one pair of coordinate systems are tried.",
  [S+"utils.py", S+"gcodes.py"], [("quat2align / quat2coord_system / plane_projection", S+"utils.py"), ("GCodePlaneSelect", S+"gcodes.py")],
  observe=["returned quaternion applied to vectors", "returned projection"])
p("C29", "Lines, blocks and texts show the same commands",
  "A line's text is exactly what was read and its commands are its block's; a block's length counts its commands (plus one if parameters are left over) and it is empty exactly if it holds no words; looking up a letter gives the first word with it, or None if it is absent. Converting a text to commands or to a single word refuses left-overs; splitting a line gives exactly the text outside its comments; a copy shows the same as its original; when the words, commands, parameters, comment or macro of a block or line are changed by hand, every view (look-up, length, emptiness, printed text) follows at once.",
  ["inputs", "programs"], "all lines, blocks and texts",
  "Views of blocks and lines are hardly used in tests.",
  [S+"line.py", S+"block.py", S+"gcodes.py", S+"words.py", S+"comment.py"], [("Block.__getattr__ / __len__ / __bool__", S+"block.py"), ("Line", S+"line.py"), ("text2gcodes", S+"gcodes.py"), ("str2word", S+"words.py"), ("split_line", S+"comment.py")],
  observe=["Block attributes", "len(Block)", "str(Line)", "text2gcodes", "str2word", "split_line"])
p("C30", "Modes set explicitly are the modes that act",
  "Assigning a mode by its group's name sets that mode and no other, or clears it (None); anything but a command of that group is refused leaving the mode unchanged, and reading it gives the command assigned, with the parameters that modes retain. Setting several modes at once sets each command's own group in execution order, returns what was set, and makes a machine act on units, distance mode and coordinate system at once.",
  ["histories", "inputs"], "all commands x all modal groups x programs processed before and after",
  "Two assignments are made in tests.",
  [S+"machine.py"], [("Mode.__setattr__ / __getattr__ / set_mode", S+"machine.py"), ("Machine.set_mode", S+"machine.py")],
  observe=["Mode attributes", "set_mode result", "Machine state after further blocks"])
p("C31", "Commands defined by users work like the library's own",
  "A class derived from any command class is recognised by its word (or by its matching function, which never overrides a word) as soon as the tables are built, which happens by itself at first use or whenever asked; it takes the parameters, retained parameters, modal group and execution order given or inherited, in blocks and on machines alike. Two commands with the same word are refused; defining commands changes nothing about other commands.",
  ["configurations", "inputs", "histories"], "all sets of user-defined commands, in any order of definition and building, and all programs using them",
  "No test defines a command.",
  [S+"gcodes.py", S+"block.py", S+"machine.py"], [("build_maps / word_gcode_class", S+"gcodes.py"), ("GCodeUserDefined", S+"gcodes.py")],
  observe=["word_gcode_class", "words2gcodes", "Machine state", "RuntimeError from build_maps"])
p("C32", "The dialect in force decides how text is read",
  "Words, texts and blocks are read with the word table of the dialect given, or else of the default dialect, which is the one last set: only its letters are words, each with its table's kind of value, text form and description, and a letter unknown to it is no word. What was read keeps its dialect - looking up letters, printing, assigning values - whatever the default becomes later.",
  ["configurations", "inputs", "histories"], "all word tables, texts and orders of setting the default, reading and using what was read",
  "No test uses a second dialect.",
  [S+"dialects/__init__.py", S+"words.py", S+"block.py"], [("get_default / set_default", S+"dialects/__init__.py"), ("Word / text2words", S+"words.py"), ("Block", S+"block.py")],
  observe=["dialects.get_default", "Word", "text2words", "Block and Line words", "look-up", "printed words"])
for x in P: print(json.dumps(x))
