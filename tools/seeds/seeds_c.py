from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("b",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_b.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; G=_b.G; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM
MV=G+"math/mutils"; M3=G+"math/math32"
T="	t := timings(1.4, 1, [2]float64{0, 500})\n"
SEEDS=[
dict(id="d01-bracket",property="C01",
 edits=[("beatmap/parser.go",'''		return strings.TrimRight(strings.TrimLeft(line, "["), "]")
''','''		return strings.TrimSuffix(line[1:], "]")
'''),("beatmap/parser.go",'''		section := getSection(line)
		if section != "" {
			currentSection = section
			continue
		}
''','''		section := getSection(line)
		if section != "" {
			if section[0] == '[' && section[len(section)-1] == section[1] {
				section = strings.TrimSpace(section[1 : len(section)-1])
			}

			currentSection = section
			continue
		}
''')],
 needs="a section header that is just two opening brackets",
 breaks="parsing crashes on an odd section header",
 demo=DB('''	info(load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "[Events]", "[[", 1)))
	info(load(file("[[\\n", []string{"0,500"}, []string{"100,100,10000,1,0"})))
''',"strings")),
dict(id="d01-hold",property="C01",
 edits=[("beatmap/parser.go",'''					time = strings.Split(arr[5], ":")[0]
''','''					time = arr[5][:strings.Index(arr[5], ":")]
''')],
 needs="a hold note whose end time is not followed by a colon",
 breaks="parsing crashes on a hold note without sample fields",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,10000,1,0", "100,100,11000,128,0,12000"})))
''')),
dict(id="d02-eofdata",property="C02",
 edits=[("files/utf.go","""	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
""","""	return transform.NewReader(source{r}, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

// source hands on what the underlying reader has until it ends
type source struct {
	reader io.Reader
}

func (s source) Read(p []byte) (int, error) {
	n, err := s.reader.Read(p)
	if err == io.EOF {
		return 0, err
	}

	return n, err
}
""")],
 needs="a reader which returns the last bytes together with io.EOF",
 breaks="the end of the file is dropped",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	b, err := beatmap.ParseFromReader(iotest.DataErrReader(strings.NewReader(s)))
	fmt.Println(err)
	info(b)
''',"strings","testing/iotest")),
dict(id="d02-unexpected",property="C02",
 edits=[("files/utf.go","""	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
""","""	return transform.NewReader(source{r}, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

// source ends quietly when an archive entry is shorter than its header says
type source struct {
	reader io.Reader
}

func (s source) Read(p []byte) (int, error) {
	n, err := s.reader.Read(p)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}

	return n, err
}
""")],
 needs="a stream failing with io.ErrUnexpectedEOF (a truncated archive)",
 breaks="a truncated stream is parsed as if it were whole",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0", "200,100,20000,1,0"})
	b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(s[:len(s)-20]), iotest.ErrReader(io.ErrUnexpectedEOF)))
	fmt.Println(b != nil, err)
''',"strings","testing/iotest","io")),
dict(id="d03-zwsp",property="C03",
 edits=[("beatmap/parser.go",'''		divided[i] = strings.TrimSpace(a)
''','''		divided[i] = strings.Trim(a, " \\t\\r\\v\\f\\u0085\\u00a0\\u200b\\ufeff")
''')],
 needs="a value which begins or ends with an invisible character (zero width space, byte order mark), or with an ideographic space",
 breaks="characters of the value are lost, and unicode blanks are kept",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	b := load(strings.Replace(s, "Title:T", "Title:T\\u200b", 1))
	fmt.Printf("%q\\n", b.Title)
''',"strings")),
dict(id="d05-ar-zero",property="C05",
 edits=[("beatmap/parser.go",'''		beatMap.arSpecified = true
''','''		beatMap.arSpecified = parsed != 0
''')],
 needs="ApproachRate:0 before OverallDifficulty",
 breaks="an approach rate of 0 is overwritten by the overall difficulty",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	info(load(strings.Replace(s, "OverallDifficulty:8\\nApproachRate:9", "ApproachRate:0\\nOverallDifficulty:8", 1)))
''',"strings")),
dict(id="d07-palette",property="C07",
 edits=[("beatmap/parser.go",'''			comboSetHax += int(iO.GetColorOffset()) + 1
''','''			comboSetHax = (comboSetHax + int(iO.GetColorOffset()) + 1) % 840 // 8 colours at most, 840 is divisible by all palette sizes
''')],
 needs="more than 839 colour steps in a map",
 breaks="the colour index starts again from 0",
 demo=DB('''	var l []string
	for i := 0; i < 900; i++ {
		l = append(l, fmt.Sprintf("100,100,%d,5,0", 1000+i*100))
	}
	b := load(file("", []string{"0,500"}, l))
	fmt.Println(b.HitObjects[899].GetComboSet(), b.HitObjects[899].GetComboSetHax())
''')),
dict(id="d08-zero-beat",property="C08",
 edits=[("beatmap/beatmap.go",'''	if !math.IsNaN(bpm) && bpm >= 0 {
''','''	if !math.IsNaN(bpm) && bpm > 0 {
''')],
 needs="a timing point with a beat length of exactly 0",
 breaks="the BPM range leaves out a point the format allows",
 demo=DB('''	info(load(file("", []string{"0,500", "1000,0"}, []string{"100,100,10000,1,0"})))
''')),
dict(id="d08-percent",property="C08",
 edits=[("beatmap/timing/timing.go",'''	return float64(float32(mutils.ClampF64(-t.beatLength, 10, 1000)) / 100)
''','''	return math.Round(mutils.ClampF64(-t.beatLength, 10, 1000)*100) / 10000
''')],
 needs="an inherited point with a fractional velocity percentage",
 breaks="slider velocity is rounded to hundredths of a percent",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{100, -133.333333333333})
	fmt.Printf("%.6f\\n", t.GetPointAt(200).GetRatio())
''',"fmt")),
dict(id="d09-half",property="C09",
 edits=[("beatmap/objects/slider.go",'''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''','''				Time: math.Max(spanStartTime+slider.spanDuration/2, slider.EndTime-36),
''')],
 needs="a repeating slider with spans shorter than 72 ms",
 breaks="the last scoring point is later than the rules say",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,2,0,L|200:100,2,14", "100,100,2000,2,0,L|200:100,1,14") {
		for _, p := range o.(*objects.Slider).ScorePoints {
			fmt.Printf("%.3f ", p.Time)
		}
		fmt.Println()
	}
''',"fmt",OB)),
dict(id="d10-zero-part",property="C10",
 edits=[("math/curves/multicurve.go",'''	if mCurve.sections[index+1]-mCurve.sections[index] == 0 {
		return mCurve.lines[index].Point1
	}

''',''),("math/curves/multicurve.go",'''	withoutFirst := mCurve.sections[1:]
	index := sort.Search(len(withoutFirst), func(i int) bool {
		return withoutFirst[i] >= desiredWidth
	})

	index = mutils.MinI(index, len(mCurve.lines)-1)

	return mCurve.lines[index].PointAt''','''	// the first part with some length
	withoutFirst := mCurve.sections[1:]
	index := sort.Search(len(withoutFirst), func(i int) bool {
		return withoutFirst[i] >= desiredWidth
	})

	index = mutils.MinI(index, len(mCurve.lines)-1)

	return mCurve.lines[index].PointAt''')],
 needs="a path that begins with a part of zero length, asked for its start",
 breaks="the start of the path is NaN",
 demo=D('''	c := curves.NewMultiCurveT("B", []vector.Vector2f{vector.NewVec2f(10, 10), vector.NewVec2f(10, 10), vector.NewVec2f(200, 10)}, 100)
	fmt.Println(c.PointAt(0), c.PointAt(0.5))
	c = curves.NewMultiCurveT("C", []vector.Vector2f{vector.NewVec2f(10, 10), vector.NewVec2f(10, 10), vector.NewVec2f(200, 10)}, 100)
	fmt.Println(c.PointAt(0), c.PointAt(0.5))
''',"fmt",CV,VC)),
dict(id="d11-depth",property="C11",
 edits=[("math/curves/bezierapproximator.go",'''		if IsFlatEnough(parent) {
''','''		if toFlatten.Count() >= 5 || IsFlatEnough(parent) {
''')],
 needs="a curve which needs more than five levels of subdivision",
 breaks="strongly bent curves are flattened too coarsely",
 demo=D('''	pts := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(3000, 100), vector.NewVec2f(-2600, 300), vector.NewVec2f(400, 380)}
	c := curves.NewMultiCurve("B", pts)
	fmt.Println(len(c.GetLines()))
''',"fmt",CV,VC)),
dict(id="d11-flat-first",property="C11",
 edits=[("math/curves/bezierapproximator.go",'''	for i := 1; i < len(controlPoints)-1; i++ {
		if controlPoints[i-1].Sub(controlPoints[i].Scl(2)).Add(controlPoints[i+1]).LenSq() > BezierQuantizationSq {
			return false
		}
	}

	return true
''','''	deviation := vector.NewVec2f(0, 0)
	for i := 1; i < len(controlPoints)-1; i++ {
		deviation = deviation.Add(controlPoints[i-1].Sub(controlPoints[i].Scl(2)).Add(controlPoints[i+1]))
	}

	return deviation.LenSq() <= BezierQuantizationSq
''')],
 needs="a cubic bezier whose second differences cancel (an S shape)",
 breaks="point-symmetric curves are taken for flat",
 demo=D('''	c := curves.NewMultiCurve("B", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 200), vector.NewVec2f(200, -200), vector.NewVec2f(300, 0)})
	fmt.Println(len(c.GetLines()), c.PointAt(0.25))
''',"fmt",CV,VC)),
dict(id="d13-floor",property="C13",
 edits=[("beatmap/stackleniency.go",'''	stackThreshold := math.Floor(diff.Preempt * stackLeniency)
''','''	stackThreshold := math.Round(diff.Preempt * stackLeniency)
''')],
 needs="a stack window with a fraction of .5 or more and objects exactly that many milliseconds apart",
 breaks="objects just outside of the stack window are stacked",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0", "100,100,10421,1,0"})
	s = strings.Replace(s, "StackLeniency: 0.7", "StackLeniency: 0.7011", 1)
	info(load(s))
''',"strings")),
dict(id="d13-slider-head",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if objectI.GetStartTime()-objectN.GetStartTime() > stackThreshold {
''','''				if objectI.GetStartTime()-objectN.GetEndTime() > stackThreshold {
''')],
 needs="a slider stacked on the end of an earlier, longer slider whose start is outside of the stack window",
 breaks="sliders stack on sliders the rules leave out",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,2,0,L|240:100,1,140", "240,100,10600,2,0,L|300:200,1,100", "20,20,12000,1,0"})
	info(load(strings.Replace(s, "ApproachRate:9", "ApproachRate:9", 1)))
''',"strings")),
dict(id="d16-dc",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''func (mods Modifier) String() (s string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	}

	if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''','''func (mods Modifier) String() (s string) {
	if mods.Active(Nightcore) {
		mods &= ^DoubleTime
	} else if mods.Active(Daycore) {
		mods &= ^HalfTime
	}
''')],
 needs="Nightcore and Daycore in one set",
 breaks="the implied mod is printed twice",
 demo=D('''	m := difficulty.Nightcore | difficulty.DoubleTime | difficulty.Daycore | difficulty.HalfTime
	fmt.Println(m.String(), m.StringFull())
''',"fmt",DF)),
dict(id="d18-clamp",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''	if s, ok := obj.(*LazySlider); ok {
		pos = s.LazyEndPosition
	}

	return
''','''	if s, ok := obj.(*LazySlider); ok {
		pos = s.LazyEndPosition
	}

	// the cursor can't leave the screen
	pos.X = math32.Max(-106, math32.Min(618, pos.X))

	return
''')],
 needs="objects far outside of the playfield",
 breaks="jumps from such objects are measured from another place",
 demo=D(T+'''	rate(objs(t, "-200,100,1000,1,0", "300,100,1200,1,0", "-250,300,1400,1,0", "100,100,1600,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="d18-min-travel",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''		o.TravelTime = math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)
''','''		o.TravelTime = math.Max(lastSlider.LazyTravelTime, MinDeltaTime) / o.diff.Speed
''')],
 needs="a slider shorter than 25 ms travel time played with a speed mod",
 breaks="the lower limit of the travel time is scaled by the speed",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1200,2,0,L|400:100,1,10", "200,300,1400,1,0", "100,100,1600,2,0,L|150:150,1,8", "300,300,1700,1,0"), diff(4, 8, 9, difficulty.DoubleTime))
''',DF)),
dict(id="d19-ratio-eq",property="C19",
 edits=[("performance/osu/skills/aim.go",'''	if math.Max(osuCurrObj.StrainTime, osuLastObj.StrainTime) < 1.25*math.Min(osuCurrObj.StrainTime, osuLastObj.StrainTime) {''','''	if math.Max(osuCurrObj.StrainTime, osuLastObj.StrainTime) <= 1.25*math.Min(osuCurrObj.StrainTime, osuLastObj.StrainTime) {''')],
 needs="times between objects changing by a ratio of exactly 1.25",
 breaks="angle bonuses are given across rhythm changes",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1100,1,0", "100,300,1225,1,0", "300,300,1325,1,0", "100,100,1450,1,0", "300,100,1550,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="d19-fl-cumulative",property="C19",
 edits=[("performance/osu/skills/flashlight.go",'''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			continue
		}

		jumpDistance''','''		if _, ok := previous.BaseObject.(*objects.Spinner); ok {
			cumulativeStrainTime += previous.StrainTime
			continue
		}

		jumpDistance''')],
 needs="a spinner within the last ten objects, rated with Flashlight",
 breaks="the time of spinners counts for the memory of earlier objects",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1130,1,0", "100,300,1230,1,0", "256,192,1300,12,0,1700", "300,300,1860,1,0", "100,100,2060,1,0", "300,100,2590,1,0"), diff(4, 8, 9, difficulty.Flashlight))
''',DF)),
dict(id="d19-spin-rhythm",property="C19",
 edits=[("performance/osu/skills/speed.go",'''		s.CurrentRhythm = 0
		return 0
''','''		return 0
''')],
 needs="a spinner followed by a break of a section or more",
 breaks="the speed peak after a spinner starts from the rhythm before it",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "120,100,1100,1,0", "130,110,1200,1,0", "100,100,1300,1,0", "256,192,1400,12,0,1500", "100,100,3500,1,0", "300,100,3600,1,0")
	showPeaks(osu.CalculateStrainPeaks(hs, diff(4, 8, 9, 0)))
''',OS)),
dict(id="d20-acc-order",property="C20",
 edits=[("performance/osu/difficulty.go",'''	if diff.CheckModActive(difficulty.Relax) {
		speedRating = 0.0
	}

	baseAimPerformance := ppBase(aimRating)
	baseSpeedPerformance := ppBase(speedRating)
''','''	baseAimPerformance := ppBase(aimRating)
	baseSpeedPerformance := ppBase(speedRating)

	if diff.CheckModActive(difficulty.Relax) {
		speedRating = 0.0
		baseSpeedPerformance = 0.0
	}

''')],
 needs="a rating with Relax of a map whose aim is so low that the floor of the speed value counts",
 breaks="the total is slightly lower than the formula with Relax",
 demo=D(T+'''	a := osu.CalculateSingle(objs(t, "100,100,1000,1,0", "101,100,2000,1,0", "102,100,3000,1,0"), diff(4, 8, 9, difficulty.Relax))
	fmt.Printf("%.7f\\n", a.Total)
''',"fmt",DF,OS)),
dict(id="d22-boundary",property="C22",
 edits=[("performance/osu/skills/skill.go",'''	for startTime > skill.currentSectionEnd {
''','''	for startTime >= skill.currentSectionEnd && len(skill.Previous) > 0 {
''')],
 needs="an object exactly on a 400 ms section boundary",
 breaks="an object on the boundary counts for the next section",
 demo=D(T+'''	hs := objs(t, "100,100,1000,1,0", "300,100,1100,1,0", "130,310,1200,1,0", "100,100,1300,1,0", "310,100,1400,1,0", "100,300,1500,1,0", "100,100,1600,1,0", "300,100,1700,1,0")
	showPeaks(osu.CalculateStrainPeaks(hs, diff(4, 8, 9, 0)))
''',OS)),
dict(id="d22-negative",property="C22",
 edits=[("performance/osu/skills/skill.go",'''		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength
''','''		skill.currentSectionEnd = float64(int(startTime/sectionLength)+1) * sectionLength
''')],
 needs="a map whose second object is before time 0, or exactly on a boundary",
 breaks="the first section ends elsewhere",
 demo=D(T+'''	hs := objs(t, "100,100,-2100,1,0", "300,100,-1900,1,0", "130,310,-1750,1,0", "100,100,-1500,1,0", "310,100,-1100,1,0", "100,300,-500,1,0")
	showPeaks(osu.CalculateStrainPeaks(hs, diff(4, 8, 9, 0)))
''',OS)),
dict(id="d25-combo-zero",property="C25",
 edits=[("performance/osu/pp.go",'''	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)

	if combo < 0 {
		combo = attribs.MaxCombo
	}
''','''	attribs.MaxCombo = mutils.MaxI(1, attribs.MaxCombo)

	if combo < 0 {
		combo = attribs.MaxCombo
	}

	combo = mutils.MaxI(1, combo)
''')],
 needs="a play with a combo of 0",
 breaks="a play without any combo gets some performance points",
 demo=D('''	pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.2, Flashlight: 1, ObjectCount: 500, Circles: 499, Sliders: 0, Spinners: 1, MaxCombo: 800}, 0, 480, 10, 5, 5, diff(4, 8, 9, 0))
''',OS)),
dict(id="d25-meh",property="C25",
 edits=[("performance/osu/pp.go",'''	if float64(pp.countMeh) >= float64(pp.totalHits)/500 {
		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
	}
''','''	if threshold := pp.totalHits / 500; pp.countMeh >= threshold {
		mehMult = float64(pp.countMeh - threshold)
	}
''')],
 needs="a play with 50s where the number of hits is not a multiple of 500",
 breaks="the tolerated number of 50s is rounded down",
 demo=D('''	pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.2, Flashlight: 1, ObjectCount: 740, Circles: 400, Sliders: 339, Spinners: 1, MaxCombo: 1000}, 1000, 728, 10, 2, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="d26-zero-greats",property="C26",
 edits=[("performance/osu/pp.go",'''	if n300 < 0 {
		n300 =''','''	if n300 <= 0 && n100+n50+nmiss < attribs.ObjectCount {
		n300 =''')],
 needs="a partial play without a single 300",
 breaks="a given count of zero 300s is replaced by the remaining objects",
 demo=D('''	pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.2, Flashlight: 1, ObjectCount: 740, Circles: 739, Sliders: 0, Spinners: 1, MaxCombo: 1000}, 10, 0, 10, 2, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="d27-acc-neg",property="C27",
 edits=[("performance/osu/pp.go",'''	if betterAccuracyPercentage < 0 {
		betterAccuracyPercentage = 0
	}
''','''	betterAccuracyPercentage = math.Max(-1, betterAccuracyPercentage)
''')],
 needs="a play with so few 300s that the circle accuracy is negative",
 breaks="bad plays gain accuracy points",
 demo=D('''	pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.2, Flashlight: 1, ObjectCount: 700, Circles: 100, Sliders: 599, Spinners: 1, MaxCombo: 1000}, 10, 500, 0, 0, 200, diff(4, 8, 9, 0))
''',OS)),
dict(id="d28-hist-cap",property="C28",
 edits=[("performance/osu/difficulty.go",'''		attr := stars[i]
		addObjectToAttribs(objects[i+1], &attr)
''','''		attr := stars[i]
		addObjectToAttribs(objects[i+1], &attr)

		if attr.MaxCombo > maxCombo {
			maxCombo = attr.MaxCombo
		}

		attr.MaxCombo = maxCombo
'''),("performance/osu/difficulty.go",'''type Attributes struct {''','''// maxCombo is the combo reached so far
var maxCombo int

type Attributes struct {''')],
 needs="stepwise ratings of two maps in one process",
 breaks="the combo of an earlier map leaks into the next",
 demo=D(T+'''	a := objs(t, "100,100,1000,1,0", "300,100,1100,1,0", "130,310,1200,1,0", "100,100,1300,1,0")
	for i := 0; i < 2; i++ {
		for _, v := range osu.CalculateStep(a, diff(4, 8, 9, 0)) {
			show(v)
		}
	}
''',OS)),
dict(id="d29-mod-index",property="C29",race=True,
 edits=[("beatmap/difficulty/mods.go",'''		for index, availableMod := range modsString {
			if availableMod == mod {
				m |= 1 << uint(index)
				break
			}
		}
''','''		if bit, ok := modIndex()[mod]; ok {
			m |= bit
		}
'''),("beatmap/difficulty/mods.go",'''func ParseMods(mods''','''var modIndexes map[string]Modifier

// modIndex returns bits of mods by their acronyms
func modIndex() map[string]Modifier {
	if modIndexes == nil {
		modIndexes = make(map[string]Modifier, len(modsString))
		for index, mod := range modsString {
			modIndexes[mod] = 1 << uint(index)
		}
	}

	return modIndexes
}

func ParseMods(mods''')],
 needs="the first two uses of ParseMods in the process running at the same time",
 breaks="mods parsed at the same time are lost",
 demo=D('''	var wg sync.WaitGroup
	var out [8]difficulty.Modifier
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			out[g] = difficulty.ParseMods("HDNCV2")
		}()
	}
	wg.Wait()
	fmt.Println(out)
''',"fmt","sync",DF)),
dict(id="d29-pool",property="C29",race=True,
 edits=[("performance/osu/skills/skill.go",'''	strains := skill.GetCurrentStrainPeaks()
	reverseSortFloat64s(strains)
''','''	strains := append(strainBuffer[:0], skill.strainPeaks...)
	strains = append(strains, skill.currentSectionPeak)
	strainBuffer = strains

	reverseSortFloat64s(strains)
'''),("performance/osu/skills/skill.go",'''func (skill *Skill) DifficultyValue() float64 {''','''// strainBuffer is reused by DifficultyValue, which is called for every object in stepwise calculations
var strainBuffer []float64

func (skill *Skill) DifficultyValue() float64 {''')],
 needs="two ratings at the same time",
 breaks="ratings running at the same time sort each other's strains",
 demo=D(T+'''	var l []string
	for i := 0; i < 60; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 50+(i*97)%400, 50+(i*61)%300, 1000+i*150+(i%7)*30))
	}
	hs := objs(t, l...)
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			osu.CalculateStep(hs, diff(4, 8, 9, 0))
		}()
	}
	wg.Wait()
	rate(hs, diff(4, 8, 9, 0))
''',"fmt","sync",OS)),
dict(id="d31-reset",property="C31",
 edits=[("beatmap/parser.go",'''			currentSection = section
			continue
''','''			if section == "Difficulty" {
				beatMap.arSpecified = false
			}

			currentSection = section
			continue
''')],
 needs="a [Difficulty] section split in two, with ApproachRate in the first part and OverallDifficulty in the second",
 breaks="splitting a section changes the approach rate",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	info(load(strings.Replace(s, "OverallDifficulty:8\\nApproachRate:9", "ApproachRate:9\\n[Events]\\n[Difficulty]\\nOverallDifficulty:8", 1)))
''',"strings")),
dict(id="d31-blank",property="C31",
 edits=[("beatmap/parser.go",'''		section := getSection(line)
		if section''','''		// sections end with an empty line
		if line == "" && currentSection == "General" {
			currentSection = ""
		}

		section := getSection(line)
		if section''')],
 needs="an empty line inside of [General]",
 breaks="settings after an empty line are ignored",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	info(load(strings.Replace(s, "\\nStackLeniency: 0.7", "\\n\\nStackLeniency: 0.2\\nMode: 2", 1)))
''',"strings")),
dict(id="d32-cut",property="C32",
 edits=[("math/curves/multicurve.go",'''func (mCurve *MultiCurve) GetEndAngle() float32 {
	if len(mCurve.lines) > 0 {
		return mCurve.lines[len(mCurve.lines)-1].GetEndAngle()
	}

	return 0.0
}''','''func (mCurve *MultiCurve) GetEndAngle() float32 {
	for i := len(mCurve.lines) - 1; i >= 0; i-- {
		if mCurve.lines[i].GetLength() >= 1 {
			return mCurve.lines[i].GetEndAngle()
		}
	}

	return 0.0
}''')],
 needs="a path whose last part is shorter than one pixel",
 breaks="the end angle is that of an earlier part",
 demo=D('''	c := curves.NewMultiCurveT("L", []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)}, 100.5)
	fmt.Printf("%.3f %.3f %.3f\\n", c.GetStartAngle(), c.GetEndAngle(), c.GetEndAngleAt(1))
''',"fmt",CV,VC)),
dict(id="d33-straight",property="C33",
 edits=[("math/vector/vector2f.go",'''	return math32.Abs((b.Y-a.Y)*(c.X-a.X)-(b.X-a.X)*(c.Y-a.Y)) < 0.001
''','''	return math32.Abs((b.Y-a.Y)*(c.X-a.X)-(b.X-a.X)*(c.Y-a.Y)) < 0.01
''')],
 needs="three points spanning a parallelogram with an area between 0.001 and 0.01",
 breaks="slightly bent points are reported as straight",
 demo=D('''	fmt.Println(vector.IsStraightLine32(vector.NewVec2f(0, 0), vector.NewVec2f(1, 0.005), vector.NewVec2f(2, 0.005)))
	fmt.Println(vector.IsStraightLine32(vector.NewVec2f(0, 0), vector.NewVec2f(1, 0.5), vector.NewVec2f(2, 1)))
''',"fmt",VC)),
dict(id="d33-lerp",property="C33",
 edits=[("math/mutils/utils.go",'''func LerpF64(min, max, t float64) float64 {
	return min + (max-min)*t
}''','''func LerpF64(min, max, t float64) float64 {
	return min + (max-min)*ClampF64(t, 0, 1)
}''')],
 needs="an interpolation parameter outside of 0..1",
 breaks="values are no longer extrapolated",
 demo=D('''	fmt.Println(mutils.LerpF64(1, 3, 2), mutils.LerpF64(1, 3, -1), mutils.LerpF64(1, 3, 0.5))
''',"fmt",MV)),
dict(id="d33-nor",property="C33",
 edits=[("math/vector/vector2f.go",'''	length := v.LenSq()

	if length < epsilon {
		return v
	}

	length = math32.Sqrt(length)
''','''	length := v.Len()

	if length < epsilon*1000 {
		return v
	}
''')],
 needs="normalising a vector with a length between 0.0032 and 0.01",
 breaks="short vectors are not normalised",
 demo=D('''	v := vector.NewVec2f(0.004, 0.003).Nor()
	fmt.Printf("%.3f %.3f\\n", v.X, v.Y)
''',"fmt",VC)),
dict(id="d08-muted",property="C08",
 edits=[("beatmap/beatmap.go",'''		sampleVolume = float64(sV) / 100
''','''		sampleVolume = math.Max(0.05, float64(sV)/100) // 5% is the lowest volume
''')],
 needs="a muted timing point",
 breaks="a volume of 0 is not reported as such",
 demo=D('''	b := load(file("", []string{"0,500,4,1,1,0,1,0"}, []string{"100,100,10000,1,0"}))
	fmt.Println(b.Timings.GetPointAt(0).SampleVolume)
''',"fmt")),
dict(id="d08-effects",property="C08",
 edits=[("beatmap/timing/timing.go",'''			point.beatLengthBase = lastPoint.beatLengthBase

''','''			point.beatLengthBase = lastPoint.beatLengthBase
			point.OmitFirstBarLine = point.OmitFirstBarLine && !lastPoint.Kiai

''')],
 needs="an inherited point omitting its bar line right after a kiai point",
 breaks="its flag is lost",
 demo=D('''	b := load(file("", []string{"0,500,4,1,1,60,1,1", "500,-100,4,1,1,60,0,8"}, []string{"100,100,10000,1,0"}))
	fmt.Println(b.Timings.GetPointAt(600).OmitFirstBarLine)
''',"fmt")),
dict(id="d34-muted",property="C34",
 edits=[("beatmap/timing/timing.go",'''	return tim.points[mutils.MaxI(0, index-1)]
}

func (tim *Timings) GetOriginalPointAt''','''	// silent points only mark where the hit sounds stop
	for index > 1 && tim.points[index-1].SampleVolume == 0 && tim.points[index-1].Inherited {
		index--
	}

	return tim.points[mutils.MaxI(0, index-1)]
}

func (tim *Timings) GetOriginalPointAt''')],
 needs="an inherited point with volume 0 that changes the slider velocity",
 breaks="the volume of a timing point changes slider velocity and ratings",
 demo=D('''	var out []string
	for _, v := range []string{"50", "0"} {
		b := load(file("", []string{"0,500,4,1,1,60,1,0", "500,-50,4,1,1," + v + ",0,0"}, []string{"100,100,1000,2,0,L|300:100,1,200", "200,100,1600,1,0", "100,300,1800,1,0"}))
		out = append(out, fmt.Sprintf("%.4f", b.HitObjects[0].GetEndTime()))
	}
	fmt.Println(out[0] == out[1])
''',"fmt")),
dict(id="d34-combo-speed",property="C34",
 edits=[("performance/osu/skills/speed.go",'''	speedBonus := 1.0

''','''	speedBonus := 1.0

	// a skipped colour marks a deliberate break of the pattern
	if current.BaseObject.IsNewCombo() && current.BaseObject.GetColorOffset() > 4 {
		strainTime = math.Max(strainTime, minSpeedBonus)
	}

''')],
 needs="a new combo skipping more than four colours within a fast pattern",
 breaks="combo colours change the speed rating",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "120,100,1060,1,0", "130,110,1120,1,0", "100,100,1180,1,0"), diff(4, 8, 9, 0))
	rate(objs(t, "100,100,1000,1,0", "120,100,1060,117,0", "130,110,1120,1,0", "100,100,1180,1,0"), diff(4, 8, 9, 0))
''')),
]
