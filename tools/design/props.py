# per property: (what is specified and against what oracle; why beyond tests)
D={
"C01":("A complete template file is damaged in every way of the scenarios; whatever parses is passed to all entry points. Oracle: no panic, no hang (watchdog), an error or a beatmap; and the well-formed lines around the damaged one decode exactly as without it (differential against the undamaged file).","The tests parse three good files; the guards that matter are on paths only malformed lines reach."),
"C02":("The reader is the environment: a scripted reader answers each read with a full read, a short read, an empty read, an error with or without data, or EOF with data. Deviation-bounded: every single departure at every read, every constant chunking, every error offset. Oracle: equal deep dump of the beatmap, or an error for streams that fail.","Regular files always fill the buffer and never fail."),
"C03":("The same text is stored in every encoding x line ending x final newline and must parse to one beatmap, with fields decoded to the characters written. Oracle: differential, plus the text itself.","One test, one UTF-16LE file. Buffer-boundary splits of multi-byte characters need the exhaustive offsets."),
"C04":("A small header model (key -> section, type, default, last value wins, trimming, text after the first colon). Every key x value x spacing x section, ordered pairs, repeats, near-miss keys, subsets and event sequences.","Tests look at four strings of one song."),
"C05":("Clamps and defaults as plain arithmetic; every pair of keys x values in both orders, every subset in every order, a value grid.","The order-dependent AR default is a two-step history that the songs do not exhibit."),
"C06":("A list model: decode each line by its bits, stable sort, count, length. All sequences of 4 lines over 12, all type bytes, edge-sound layouts, tie arrangements up to 3000 objects.","Sorting stability and the type-bit precedence need unsorted and odd inputs."),
"C07":("The combo automaton as a reference automaton; every word up to length 5, a de Bruijn sequence (every 4-letter window in a long map), long runs.","Tests never read a combo."),
"C08":("Reference: linear scans over the list in file order. All sequences of 3 lines over 15, all API sequences of 3 points over 23 letters, ladders of up to 130 points; queried before, at and after every point.","Order and inheritance errors need unordered/tied points."),
"C09":("Reference computes duration and scoring points from the definition; each compared in time and position. Grids of lengths x spans x timings x multipliers x tick rates.","Boundary ticks (within 10 ms of the end, on reverse spans) are hit only by particular lengths."),
"C10":("The polyline the library built is walked independently; PointAt and positions compared at many parameters; total length, connectedness, start. All control polygons on a lattice x types x lengths.","Degenerate and extended last segments need particular polygons."),
"C11":("Exact curve sampled densely in float64; discrete Frechet distance between it and the library's path must be small (covers order and completeness, not only nearness).","Tests only see the effect on one rating."),
"C12":("de Casteljau, circle and Catmull formulas in float64 vs curve objects' points, lengths and angles.","No test touches the curve classes."),
"C13":("Published stacking algorithms (both generations) as a plain double loop; every word of objects x gaps; window boundaries +-0.5 ms; versions and leniencies.","Stacks need specific geometry/time combinations and old format versions are in no test."),
"C14":("Stack offset and position formula per mod; all mod pairs, CS grid, setter histories.","Tests cover one mod."),
"C15":("Settings as functions of base values, mods and custom speed; all setter histories of length 4 from 3 constructors, each state compared; value grid x 512 mod sets.","Stale derived values appear only after particular setter orders."),
"C16":("Mod sets as Go sets of acronyms; all subsets of the low bits, all small sets and complements, strings, permutations.","No test."),
"C17":("The published multiplier table; all 2^17 subsets.","No test."),
"C18":("Reference cursor walk for lazy slider ends, jump distances, strain time, angle; all object triples x gaps x CS x mods, slider grids.","Only sums of these appear in tests."),
"C19":("Reference strain skills recomputed from the whole history at every object; words of gaps/kinds/places crossing every history length (2, 10, 32 objects, 5 s), every rhythm threshold and section boundary.","A single total rating hides which history produced it; off-by-one history errors need exact lengths."),
"C20":("The complete reference pipeline (parse model positions -> stacking -> preprocessing -> skills -> star formula) vs CalculateSingle, on words, ladders, settings, real maps under 36 mod sets.","Three fixed numbers of one song."),
"C21":("Differential: step entry i == CalculateSingle of the first i+1 objects, bit-exact; words, ladders, mods, real-map windows.","No test calls the step API."),
"C22":("Section count formula, star formula on each section, equality of the three entry points, bit-exact.","No test."),
"C23":("Plain counting model over the scoring points definition.","Not asserted by tests."),
"C24":("Differential bit-exact equality between mod sets, plus the model at arbitrary clock rates.","Tests use 3 mod sets."),
"C25":("ppv2 in a separate straight-line reference; products of threshold alphabets.","Three full combos."),
"C26":("Differential: a used calculator vs a fresh one over all call histories of length 3; deep comparison of inputs.","One call per fresh calculator in the tests."),
"C27":("Order relations checked between every score and all its one-judgement neighbours; full score lattices of small maps.","Relational: needs pairs of scores."),
"C28":("Deep dumps of beatmap and difficulty before/after; results bit-identical to a fresh parse; all histories of length 3 over 13 operations.","Tests do one calculation per map."),
"C29":("See section 2.","Tests are single-threaded."),
"C30":("Metamorphic: each explored map and its transform must rate equal (tolerance for float32 rounding).","Relational."),
"C31":("Differential: each rearranged text parses to the same deep state as the original.","One layout per test song."),
"C32":("The direction of the polyline part at the requested parameter, either side accepted at a joint.","No test."),
"C33":("Double-precision plane geometry per operation.","No test."),
"C34":("Bit-exact equality of ratings, steps, peaks and pp between a map and every (pair of) cosmetic edit(s).","Relational; nothing in the tests varies one aspect."),
}
