#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})

PARSER="beatmap/parser.go"; BM="beatmap/beatmap.go"
T3="The six tests parse three well-formed files"

p("C01","Parsing malformed beatmaps never crashes or hangs",
 "Whatever the input - lines with missing, empty, non-numeric or out-of-range fields, unknown keys, absent or empty sections, no hit objects - parsing terminates and returns either a beatmap or an error, and never panics. Any beatmap it returns can be passed to every star-rating entry point and to the pp calculator without a panic or an endless loop. A malformed line never changes what the well-formed lines around it mean.",
 ["inputs"],"every .osu text reachable from a complete template by truncating any line to any number of fields and by replacing up to two fields with values of a hostile alphabet",
 T3+"; no test feeds a malformed line.",
 [PARSER,BM,"beatmap/objects","beatmap/timing/timing.go","performance/osu"],
 [("field-count and range guards","beatmap/parser.go ParseFromReader"),("corrupted-file error","beatmap/parser.go ParseFromReader"),("first-point fallback","beatmap/timing/timing.go GetPointAt")],
 observe=["beatmap.ParseFromByte","osu.CalculateSingle","osu.CalculateStepWithPeaks"])
p("C02","Parse result depends only on the bytes; read faults are reported",
 "The parsed beatmap depends only on the byte stream, not on how the reader splits it into reads (short reads, empty reads, data returned together with end-of-file), and lines of several megabytes are read whole. If the reader fails before end-of-file, or the stream holds a line too long to read, parsing returns an error rather than a silently truncated beatmap.",
 ["fault_sequences","inputs"],"every split of the stream into reads of each size, every two-cut split, an injected read error at every byte offset in each delivery style, and over-long lines in each section",
 "The tests read three regular files that never fail and always fill the buffer.",
 [PARSER,"files/utf.go"],[("line scanner over the decoding reader","files/utf.go NewScannerBuf"),("read loop","beatmap/parser.go ParseFromReader")],
 observe=["beatmap.ParseFromReader"])
p("C03","Encoding and line endings do not change the parsed beatmap",
 "The same beatmap text stored as UTF-8 with or without a byte-order mark, as UTF-16 little- or big-endian with a byte-order mark, with LF or CRLF line endings, and with or without a final newline parses to the same beatmap, with every text field decoded to the same characters.",
 ["inputs","configurations"],"every combination of the encodings, line endings and final-newline choices, for texts over an alphabet with ASCII, Latin, CJK, combining and non-BMP characters in each text field",
 "One test reads one UTF-16LE file and compares four strings.",
 ["files/utf.go",PARSER],[("BOM-sniffing decoder","files/utf.go NewUnicodeReader")],observe=["beatmap.ParseFromReader"])
p("C04","Header fields are read faithfully",
 "Format version, mode, stack leniency, audio file, preview time, title, artist (plain and Unicode), creator, difficulty name, source, tags, beatmap and set ids, background file and break periods have exactly the value the file gives for their key, trimmed of surrounding blanks, with text after the first separator (including further colons) preserved. A key only has an effect in its own section; a repeated key takes the last value; a key that is absent leaves the documented default.",
 ["inputs"],"every header key, in every section, with every value of a per-type alphabet, present, absent or repeated, alone and in pairs",
 "Tests look at four text fields of one song.",
 [PARSER,"beatmap/pause.go",BM],[("section dispatch","beatmap/parser.go ParseFromReader"),("key switches","beatmap/parser.go parseGeneral, parseMetadata, parseEvents")],observe=["beatmap.BeatMap fields"])
p("C05","Difficulty settings: clamping, defaults and order independence",
 "HP, CS, OD and AR read from a file equal the given number clamped to 0..10, default to 5 when absent, and a file without an approach rate uses its overall difficulty as approach rate. Slider multiplier (0.4..3.6, default 1.4) and tick rate (0.5..8, default 1) are clamped likewise and reach slider timing. The result does not depend on the order in which the difficulty lines appear.",
 ["inputs","histories"],"every subset and every order of the six difficulty keys, with every value of an alphabet of in-range, boundary, out-of-range and non-numeric values",
 "The two test songs give all six keys in one order, in range.",
 [PARSER,"beatmap/difficulty/difficulty.go"],[("clamped setters and AR-defaults-to-OD rule","beatmap/parser.go parseDifficulty")],
 state=[("arSpecified","whether an explicit approach rate was seen","beatmap/beatmap.go")],observe=["BeatMap.Difficulty","BeatMap.Timings"])
p("C06","Hit objects are decoded, counted and ordered correctly",
 "Each hit-object line yields one object of the kind its type bits select (circle before spinner before slider; other kinds yield none) with the position, times, colour offset, new-combo flag and sounds the line gives (sliders: one sound per node, the listed one or else the line's). Objects come out sorted by start time, lines with equal times keeping file order, numbered 0,1,2,... . The counters count the circle, slider (and hold) and spinner lines, and the map length is the latest of all circle and slider start times and spinner and hold end times in whole milliseconds, at least 0.",
 ["inputs","histories"],"every sequence up to four objects over an alphabet of object lines (all type-bit combinations, tied, early and late times, optional trailing fields), in every order",
 "The test songs are already sorted and tests never look at an object.",
 [PARSER,"beatmap/objects"],[("type classification","beatmap/objects/util.go CreateObject; beatmap/parser.go"),("stable sort","beatmap/parser.go"),("field decoding","beatmap/objects/baseobject.go, slider.go, spinner.go")],observe=["BeatMap.HitObjects","BeatMap.Circles/Sliders/Spinners/Length"])
p("C07","Combo numbering and combo-colour sets",
 "Combo numbers start at 1 and increase by one per object until an object that starts a new combo - flagged so, or the first non-spinner after a spinner - which becomes number 1 of the next combo set and is marked as a new combo. Each such start advances the combo set by one and the colour set by one plus that object's colour offset; spinners never start a combo themselves.",
 ["histories"],"every sequence of up to six objects over {circle, slider, spinner} x {new combo, not} x colour offsets",
 "Tests never look at combos.",
 [PARSER],[("combo state machine","beatmap/parser.go ParseFromReader")],state=[("comboNumber/comboSet/comboSetHax/forceNewCombo","combo automaton","beatmap/parser.go")],observe=["ComboNumber","GetComboSet","GetComboSetHax","IsNewCombo"])
p("C08","Timing points take effect from their time and inherit correctly",
 "The timing point in force at time t is the last one (in file order among equals) whose time is not after t, or the first when none is; inherited points keep the beat length of the closest earlier uninherited point and scale slider speed by their own clamped (0.1x-10x) ratio. Points may be given in any order and with fractional times; omitted trailing fields take their defaults, and the map's BPM range is the range of BPM of the points whose beat length is not negative. Slider velocity, tick distance and slider time derived from a point follow from slider multiplier, tick rate, beat length and that ratio.",
 ["inputs","histories"],"every sequence of up to four timing lines over an alphabet of red/green/NaN/negative/extreme beat lengths, tied and unordered times and all trailing-field counts, queried at, just before and just after every point",
 "Tests see the effect of two songs' timing only through a final number.",
 ["beatmap/timing/timing.go",BM],[("stable sort and inheritance pass","beatmap/timing/timing.go FinalizePoints"),("binary search","beatmap/timing/timing.go GetPointAt, GetOriginalPointAt"),("line decoding","beatmap/beatmap.go ParsePoint")],observe=["Timings.GetPointAt","Timings.GetOriginalPointAt","Timings.GetVelocity","Timings.GetTickDistance","BeatMap.MinBPM/MaxBPM"])
p("C09","Slider duration, ticks, repeats and end point in time",
 "A slider lasts spans x length / velocity of the timing point in force at its start; its scoring points are, per span, the ticks at every tick distance along the path (mirrored on reverse spans, none within 10 ms of the path's far end, none when the beat length written in that point itself is NaN), a reverse marked as such at each inner span boundary, and one final point 36 ms before the end but never before the middle. They are sorted by time and lie within the slider.",
 ["inputs"],"every slider over an alphabet of lengths, repeat counts, slider multipliers, tick rates, red and green beat lengths and positions relative to timing points",
 "Test songs have few tick layouts, and only a summed difficulty is compared.",
 ["beatmap/objects/slider.go","beatmap/timing/timing.go"],[("nested point generation","beatmap/objects/slider.go SetTiming")],observe=["Slider.ScorePoints","GetEndTime"])
p("C10","Slider path has the stated length and is traversed at constant speed",
 "A slider's path is cut, or extended along its last segment, to the pixel length given in the file, starts at the slider's head, and is connected. The position reported at a time is the point at the proportional distance along the path, going back and forth on repeats, clamped to the slider's time range; path parameter 0 is the start, 1 the end, and equal parameter steps cover equal distances.",
 ["inputs"],"every slider over an alphabet of curve types, control-point sets, pixel lengths shorter than, equal to and longer than the control path and repeat counts, sampled at a grid of times; every small control-point set for the path itself",
 "Tests never ask a slider for a position.",
 ["math/curves/multicurve.go","beatmap/objects/slider.go"],[("trim/extend to pixel length","math/curves/multicurve.go NewMultiCurveT"),("arc-length lookup","math/curves/multicurve.go PointAt"),("ping-pong progress","beatmap/objects/slider.go PositionAt")],observe=["Slider.GetPositionAt","GetEndPosition","curves.NewMultiCurveT"])
p("C11","Slider paths follow the curve their control points define",
 "The path built from control points stays within a small distance of the exact curve of its type - straight segments; Bezier curves split at doubled points; the circle through three points; Catmull-Rom splines - visits it from start to end in order, and covers all of it. A perfect curve with other than three points is a Bezier or straight line, collinear points give straight lines, and unknown types give an empty path that stays at its first point.",
 ["inputs"],"every control-point set of 1-5 points on a small lattice plus ladders up to 20 points, for every curve type",
 "Tests never inspect a path.",
 ["math/curves"],[("flatness-driven Bezier subdivision","math/curves/bezierapproximator.go"),("arc approximation","math/curves/approximation.go, cirarc.go"),("type dispatch and red anchors","math/curves/multicurve.go")],observe=["curves.NewMultiCurve(...).GetLines/PointAt/GetLength"])
p("C12","Standalone curve objects evaluate their mathematical curve",
 "A Bezier, Catmull-Rom, circular-arc or linear curve object evaluated at parameter t returns the point of its mathematical curve, starts and ends at its end points (an arc also passes through its middle point), and reports its length to within approximation error. Start and end angles point along the curve at its ends.",
 ["inputs"],"every control-point set on a small lattice (Bezier degree 1-8), sampled on a parameter grid, against exact rational evaluation",
 "No test constructs a curve.",
 ["math/curves/bezier.go","math/curves/catmull.go","math/curves/cirarc.go","math/curves/linear.go"],[("Bernstein form","math/curves/bezier.go bernstein, BinomialCoefficient"),("spline/arc formulas","math/curves/catmull.go, cirarc.go")],observe=["Curve.PointAt/GetLength/GetStartAngle/GetEndAngle"])
p("C13","Stack heights follow the osu! stacking rules",
 "The stack height of every object equals that of the published osu! stacking algorithm for the file's format version (the old algorithm below version 6), separately for no-mod, Easy and HardRock approach rates. Objects further apart in time than the stack window, or 3 or more pixels apart, do not influence each other, notes under a slider's end stack downwards, and spinners are never stacked.",
 ["histories","configurations"],"every sequence of up to five objects over {circle, linear slider, repeat slider, spinner} x a few colliding positions x time gaps inside, at and beyond the window, for both format generations, several stack leniencies and approach rates",
 "The songs contain few stack shapes and tests only see a sum over the map.",
 ["beatmap/stackleniency.go"],[("new stacking","beatmap/stackleniency.go applyNewStacking"),("old stacking","beatmap/stackleniency.go applyOldStacking"),("per-mod thresholds","beatmap/stackleniency.go calculateStackLeniency")],observe=["GetStackIndex(None/Easy/HardRock)"])
p("C14","Stacked and mod-transformed positions",
 "For every object and mod combination the start, end and at-time position is the raw position, mirrored vertically about the playfield when HardRock is on, plus the stack offset of that mod: minus one tenth of that mod's circle radius per stack level in both axes. Without HardRock or Easy the no-mod offset applies, and mods other than those two never move an object.",
 ["inputs","configurations"],"every stack level reachable with up to four objects, every circle size of an alphabet, every object kind, every combination of the 32 mods up to three",
 "Tests use no mod, DT and HR on one song and see only a sum.",
 ["beatmap/objects/hitobject.go","beatmap/stackleniency.go"],[("mod-selected offsets","beatmap/objects/hitobject.go modifyPosition, GetStackIndex, SetStackOffset")],observe=["GetStackedStartPositionMod","GetStackedEndPositionMod","GetStackedPositionAtMod"])
p("C15","Derived difficulty values depend only on current settings and mods",
 "Circle radius, approach time, hit windows, spinner ratio, drain, speed and the real AR/OD are the osu! formulas of the current base values, mods and custom speed: HardRock multiplies by 1.4 (CS 1.3) capped at 10, Easy halves, DoubleTime/HalfTime scale time by 1.5/0.75 on top of the custom speed. They never depend on the order or number of earlier setter calls, and setting mods never alters the base values.",
 ["histories","inputs"],"all states reachable by setter histories over a value alphabet for each setter, and all mod subsets that can matter, from every constructor value",
 "Tests use two settings and set mods once.",
 ["beatmap/difficulty/difficulty.go"],[("recalculation on every setter","beatmap/difficulty/difficulty.go calculate")],state=[("hp,cs,od,ar,Mods,CustomSpeed","base state","beatmap/difficulty/difficulty.go")],observe=["Difficulty fields","Difficulty.GetModifiedTime"])
p("C16","Mod acronyms parse and print consistently",
 "Parsing the printed form of any mod set gives that set back together with its implied base mods (Nightcore implies DoubleTime, Daycore HalfTime, Perfect SuddenDeath), and printing hides an implied base mod. Each two-letter acronym maps to exactly one fixed legacy bit, order and repetition are irrelevant, unknown acronyms and a trailing odd character are ignored without a crash, and the long-name list names the same mods as the acronym string.",
 ["inputs"],"all mod sets of up to four mods and their complements, all strings of up to three acronyms from valid, unknown, odd-length and multi-byte ones",
 "No test parses or prints mods.",
 ["beatmap/difficulty/mods.go"],[("tables and implied bits","beatmap/difficulty/mods.go String, StringFull, ParseMods")],observe=["ParseMods","Modifier.String","Modifier.StringFull"])
p("C17","Mod compatibility and score multiplier",
 "A mod set is reported compatible exactly when it contains no conflicting group (Easy with HardRock; double-speed with half-speed mods; SuddenDeath/Perfect with NoFail; Relax with Autopilot; either with SuddenDeath, Perfect, Autoplay or NoFail; Autopilot with SpunOut; Target with anything). The score multiplier is the product of the legacy multipliers of the active mods (ScoreV2 values when ScoreV2 is on, zero with Relax or Autopilot). Both are independent of all other mods.",
 ["inputs"],"all 2^16 subsets of the mods involved, each also combined with every uninvolved mod",
 "No test calls either.",
 ["beatmap/difficulty/mods.go"],[("rule tables","beatmap/difficulty/mods.go Compatible, GetScoreMultiplier")],observe=["Modifier.Compatible","Modifier.GetScoreMultiplier"])
p("C18","Per-object difficulty features match the algorithm",
 "For consecutive objects the time deltas, strain time, jump, movement and travel distances and times and the turning angle equal the published osu! difficulty preprocessing on mod-transformed stacked positions scaled by circle size and clock rate: lazy slider movement with its follow-circle radii and repeat bonus, small-circle bonus, 25 ms minimum delta, no distances to or from spinners, and no angle where there is no earlier non-spinner pair.",
 ["histories","configurations"],"all sequences of three objects over an alphabet of kinds, positions and time gaps, and all sliders of an alphabet, under all difficulty-changing mods and several circle sizes",
 "Tests see only the aggregated star rating of two songs.",
 ["performance/osu/preprocessing"],[("feature extraction","performance/osu/preprocessing/object.go, objects.go"),("lazy slider path","performance/osu/preprocessing/lazyslider.go")],observe=["preprocessing.CreateDifficultyObjects"])
p("C19","Aim, speed and flashlight strains evolve as specified",
 "After each object, the aim (with and without sliders), speed and flashlight strain equals the published algorithm: exponential decay over elapsed time plus the object's weighted difficulty from a bounded history, with the rhythm multiplier for speed, and zero contribution from spinners. Section maxima are recorded every 400 ms with decayed carry-over, and a skill's difficulty value is the decayed weighted sum of its peaks with the largest ones reduced.",
 ["histories"],"all object sequences of a small depth over an alphabet of kinds, positions and gaps, all rhythm words of up to four runs, ladders of object counts across the history and section limits, under every relevant mod",
 "Tests see three aggregated numbers of two songs.",
 ["performance/osu/skills"],[("strain update and sections","performance/osu/skills/skill.go"),("per-skill values","performance/osu/skills/aim.go, speed.go, flashlight.go")],state=[("Previous, CurrentStrain, currentSectionPeak, currentSectionEnd, CurrentRhythm","strain automaton","performance/osu/skills/skill.go, speed.go")],observe=["skills.*.Process, CurrentStrain, GetCurrentStrainPeaks, DifficultyValue"])
p("C20","Star rating of a whole beatmap equals the reference algorithm",
 "For any playable beatmap and mods, the total, aim, speed and flashlight ratings and the slider factor equal the published osu! star-rating algorithm applied to the parsed objects, from file to final number. Flashlight contributes only with the Flashlight mod and speed is dropped with Relax.",
 ["inputs","configurations"],"all small beatmaps over an alphabet of object sequences and settings, and two full ranked-size songs, under all combinations of the difficulty-changing mods",
 "Tests compare two songs under three mod settings with four numbers.",
 ["performance/osu/difficulty.go","performance/osu/skills","performance/osu/preprocessing"],[("aggregation","performance/osu/difficulty.go getStarsFromRawValues, getStars, calculateSingle")],observe=["osu.CalculateSingle"])
p("C21","Step-by-step star ratings equal rating each prefix",
 "The successive ratings have one entry per object, and entry i equals the rating, slider factor and counts computed in one go for just the first i+1 objects; the last entry equals the rating of the whole map. This holds under every mod combination and for the variants that also return peaks.",
 ["histories","configurations"],"all object sequences of a small depth over an alphabet of kinds, positions and gaps, ladders of object counts, and full songs, under all difficulty-changing mods",
 "No test calls the stepwise API.",
 ["performance/osu/difficulty.go"],[("incremental loop","performance/osu/difficulty.go calculateStep")],observe=["osu.CalculateStep","osu.CalculateStepWithPeaks"])
p("C22","Strain peak graphs are consistent across entry points",
 "All entry points that return strain peaks give the same peaks for the same objects and difficulty: one value per 400 ms section of play time from the section of the second object to that of the last, equally many for aim, speed, total and (with Flashlight) flashlight, all finite and non-negative. Each total peak is the star formula applied to that section's skill peaks.",
 ["histories","configurations"],"all gap patterns of up to four objects over gaps inside, at and across several section boundaries, object-count ladders, all difficulty-changing mods",
 "No test calls the peak API.",
 ["performance/osu/difficulty.go","performance/osu/skills/skill.go"],[("peak collection","performance/osu/difficulty.go getPeaks; performance/osu/skills/skill.go GetCurrentStrainPeaks")],observe=["osu.CalculateStrainPeaks","osu.CalculateSingleWithPeaks","osu.CalculateStepWithPeaks"])
p("C23","Object counts and maximum combo",
 "The attributes report exactly the number of objects, circles, sliders and spinners rated, and a maximum combo of one per object plus one per slider tick, repeat and end. They do not depend on mods, positions or difficulty settings.",
 ["histories","configurations"],"all object sequences of up to five kinds including sliders with every small tick and repeat layout, under all single and paired mods",
 "Tests pass the max combo on to pp but never check it.",
 ["performance/osu/difficulty.go"],[("counter","performance/osu/difficulty.go addObjectToAttribs")],observe=["Attributes.ObjectCount/Circles/Sliders/Spinners/MaxCombo"])
p("C24","Only difficulty-changing mods affect the star rating",
 "Mods outside Easy, HardRock, DoubleTime, HalfTime (with their Nightcore/Daycore variants), Relax and Flashlight never change any rating or peak; Nightcore equals DoubleTime and Daycore equals HalfTime when set together with them. Flashlight changes only the flashlight and total rating and Relax only the speed and total rating, and a custom speed of 1.5 or 0.75 equals DoubleTime or HalfTime.",
 ["configurations"],"every subset of the difficulty-changing mods combined with every set of up to two other mods, over a family of beatmaps that exercise all skills",
 "Tests use no mod, DT and HR.",
 ["performance/osu/difficulty.go","beatmap/difficulty"],[("mod checks","performance/osu/difficulty.go, beatmap/difficulty/difficulty.go")],observe=["osu.CalculateSingleWithPeaks"])
p("C25","Performance points equal the ppv2 formulas",
 "For any attributes, score and mods, the aim, speed, accuracy, flashlight and total pp equal the published ppv2 formulas: length bonus, effective-miss penalty derived from misses and combo, combo scaling, AR/OD factors, hidden, slider nerf, and the NoFail, SpunOut, Relax, TouchDevice, ScoreV2 and Flashlight adjustments.",
 ["inputs","configurations"],"the full product of boundary-value alphabets for attributes, hit counts, combo, mods and AR/OD (every threshold in the formulas hit from below, at and above)",
 "Tests check three full-combo scores on one song.",
 ["performance/osu/pp.go"],[("formulas","performance/osu/pp.go")],observe=["PPv2.PPv2x"])
p("C26","PP calculator defaults and reuse",
 "A negative combo means the maximum combo, a negative 300-count means all objects not otherwise counted, and a map without combo counts as combo 1. A calculator that was used before gives exactly the result a fresh one gives, the returned value and the stored result agree, and the attributes and difficulty passed in are not modified.",
 ["histories","inputs"],"all histories of up to three calls over an alphabet of calls that differ in attributes, score and mods, and every defaulted-argument combination",
 "Tests use a fresh calculator for each of three calls.",
 ["performance/osu/pp.go"],[("argument defaults and state reset","performance/osu/pp.go PPv2x")],state=[("PPv2 fields","inputs and intermediate values of the last call","performance/osu/pp.go")],observe=["PPv2.PPv2x","PPv2.Results"])
p("C27","PP is finite, non-negative and ordered by score quality",
 "For every complete score on a map with valid attributes all pp components are finite and non-negative, and so they are for a partial score (SpunOut: with at least as many judgements as spinners). Turning a 300 into a 100, 50 or miss, or a 100 into a 50, or lowering the combo never raises any component or the total; raising the aim, speed or flashlight rating never lowers the total. Adding NoFail or SpunOut never raises pp, and Hidden never lowers it for real AR up to 11.",
 ["inputs","configurations"],"all complete scores of maps with up to 12 objects and boundary-sized larger maps, over attribute and mod alphabets",
 "Tests check only perfect scores.",
 ["performance/osu/pp.go"],[("clamps and caps","performance/osu/pp.go")],observe=["PPv2.PPv2x"])
p("C28","Calculations are deterministic and do not modify their inputs",
 "Star-rating, step, peak and pp calculations leave the beatmap, its objects and the difficulty exactly as they were, and repeating a calculation - in any order, interleaved with calculations for other mods or other beatmaps, or after changing mods and changing them back - gives bit-identical results to doing it first on a freshly parsed beatmap. Parsing the same bytes twice gives equal, independent beatmaps.",
 ["histories"],"all histories up to a small depth over {calculate single/step/peaks/pp, query positions, set mods, parse another map} on two beatmaps",
 "Each test runs one calculation on one fresh map.",
 ["performance/osu","beatmap","math/curves"],[("no shared mutable state","all packages")],observe=["osu.Calculate*","deep state of BeatMap"])
p("C29","Concurrent use is safe",
 "Goroutines that concurrently parse beatmaps, query object positions and calculate ratings, peaks or pp - on one shared parsed beatmap with a difficulty each, or on different ones - all get the results they would get alone, without data races, whatever the interleaving.",
 ["schedules"],"all interleavings, up to a preemption bound, of two or three threads at every statement of the library, plus a happens-before race check of the same bodies",
 "Tests are single-threaded.",
 ["performance/osu","beatmap","math/curves"],[("no package-level mutable state, per-call scratch buffers","all packages")],observe=["results and shared state of concurrent calls"])
p("C30","Star rating respects the symmetries of the game",
 "Mirroring every object horizontally or vertically, or shifting all objects and timing points in time by a whole number of strain sections of play time, leaves every rating unchanged on maps without stacks. On maps without sliders (whose last tick leads their end by a fixed 36 ms), playing with DoubleTime or HalfTime equals playing, without it, the map with all times and hit windows divided by the rate, and, on all maps, HardRock equals playing the vertically mirrored map with its increased settings.",
 ["inputs","configurations"],"all object sequences of a small depth over an alphabet of kinds, positions and gaps, each transformed by every symmetry",
 "Tests compute fixed numbers for untransformed songs.",
 ["performance/osu","beatmap/objects"],[("position and time handling","performance/osu/preprocessing/object.go; beatmap/objects/hitobject.go")],observe=["osu.CalculateSingle"])
p("C31","Section order and irrelevant content do not matter",
 "The parsed beatmap does not depend on the order of the file's sections, on a section being split in two, on blank lines, comment lines, unknown keys or unknown sections, or on blanks around keys and values. The order of timing lines with different times, and of object lines with different times, does not matter either.",
 ["inputs","histories"],"all permutations of the sections, all positions of each kind of irrelevant line, all splits of a section and all permutations of lines with distinct times, on a beatmap using every feature",
 "The test songs have one layout.",
 [PARSER,"beatmap/timing/timing.go"],[("section dispatch and end-of-file finalisation","beatmap/parser.go ParseFromReader")],observe=["BeatMap deep state"])

p("C32","Path directions",
 "A slider path reports as its start angle the direction from its second point back to its first (out of the path), as its end angle the direction of its last part, and for any parameter the backward and forward direction of the part it lies on there; parameters outside 0..1 act like the nearer end, and a path without extent reports angle 0.",
 ["inputs"],"every control polygon of up to three or four points on a lattice x curve type x stated length (also uncut), every length in small steps, lines and arcs in every direction, each queried at 37 parameters",
 "No test asks a path for a direction.",
 ["math/curves/multicurve.go","math/curves/linear.go"],[("angle queries","math/curves/multicurve.go GetStartAngle, GetEndAngle, GetStartAngleAt, GetEndAngleAt")],observe=["MultiCurve.GetStartAngle/GetEndAngle/GetStartAngleAt/GetEndAngleAt"])
p("C33","Vector and number helpers",
 "Vector addition, scaling, rotation, interpolation, lengths, distances, angles, normalisation and the straight-line test agree with plane geometry (up to single precision) and never modify their operands; minimum, maximum, clamping, interpolation and the single-precision mathematical functions agree with their definitions.",
 ["inputs"],"every pair of vectors over a coordinate alphabet, every point triple of a lattice, every triple over a number alphabet",
 "Tests reach a few of them through a final rating.",
 ["math/vector/vector2f.go","math/mutils","math/math32"],[("vector operations","math/vector/vector2f.go"),("number helpers","math/mutils, math/math32")],observe=["vector.Vector2f methods","mutils, math32 functions"])
p("C34","What is not played does not affect ratings",
 "Metadata, audio and preview settings, HP drain, events and breaks, sample, volume, meter and kiai fields of timing points, inherited points that repeat the velocity in force, hit and edge sounds, combo flags and colours, spinner positions, hold notes, and (on maps without stacks) stack leniency and format version leave every star rating, stepwise rating, strain peak and pp value exactly as it is; approach rate does so too, except for pp.",
 ["inputs","configurations"],"each of 92 such edits and every ordered pair of them on four maps under several mod sets",
 "Relational: no test varies one aspect of a map.",
 ["beatmap/parser.go","performance/osu"],[("what the difficulty pipeline reads","performance/osu/difficulty.go, preprocessing/object.go")],observe=["osu.Calculate*","PPv2.PPv2x"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
