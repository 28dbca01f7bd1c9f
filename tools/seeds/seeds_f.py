from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("e",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_e.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; G=_b.G; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T
SIX='"100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,1600,1,0", "200,100,1800,1,0", "50,60,2000,1,0"'
SEEDS=[
dict(id="f02-seek",property="C02",
 edits=[("beatmap/parser.go",'''	scanner := files.NewScannerBuf(reader, bufferSize)
''','''	if seeker, ok := reader.(io.Seeker); ok { // the caller may have looked at the header already
		if _, err := seeker.Seek(0, io.SeekStart); err != nil {
			return nil, err
		}
	}

	scanner := files.NewScannerBuf(reader, bufferSize)
''')],
 needs="a seekable reader which is not at its start, or whose Seek fails",
 breaks="content before the position of the reader is parsed too",
 demo=DB('''	r := strings.NewReader(file("", []string{"0,500"}, []string{"7,7,1,1,0"}) + file("", []string{"0,500"}, []string{"100,100,10000,1,0"}))
	r.Seek(int64(len(file("", []string{"0,500"}, []string{"7,7,1,1,0"}))), 0)
	b, err := beatmap.ParseFromReader(r)
	fmt.Println(err)
	info(b)
''',"strings")),
dict(id="f03-len",property="C03",
 edits=[("beatmap/parser.go",'''	scanner := files.NewScannerBuf(reader, bufferSize)
''','''	size := bufferSize
	if sized, ok := reader.(interface{ Len() int }); ok { // no line can be longer than what remains
		size = mutils.MinI(size, sized.Len()+1)
	}

	scanner := files.NewScannerBuf(reader, size)
''')],
 needs="a UTF-16 file one line of which takes more bytes as UTF-8 than the whole file has",
 breaks="a file with a long non-Latin line can not be read in UTF-16",
 demo=DB('''	text := strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "Title:T", "Title:T\\nTags:"+strings.Repeat("\\u65e5\\u672c\\u8a9e", 1000), 1)
	b := []byte{0xff, 0xfe}
	for _, c := range utf16.Encode([]rune(text)) {
		b = append(b, byte(c), byte(c>>8))
	}
	m, err := beatmap.ParseFromByte(b)
	fmt.Println(err, m != nil)
	info(m)
''',"strings","unicode/utf16")),
dict(id="f01-prealloc",property="C01",
 edits=[("beatmap/objects/slider.go",'''	for span := 0; span < int(slider.RepeatCount); span++ {
''','''	if slider.ScorePoints == nil && !nanTimingPoint {
		slider.ScorePoints = make([]TickPoint, 0, int(slider.RepeatCount)*(int(cLength/tickDistance)+1))
	}

	for span := 0; span < int(slider.RepeatCount); span++ {
''')],
 needs="a slider of length zero whose tick distance becomes zero, or a slider multiplier that is not a number",
 breaks="preallocating the ticks crashes",
 demo=DB('''	info(load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,2,0,L|200:100,1,0", "100,100,20000,1,0"}), "SliderMultiplier:1.4", "SliderMultiplier:NaN", 1)))
''',"strings")),
dict(id="f04-quotes",property="C04",
 edits=[("beatmap/parser.go",'''		beatMap.Audio = line[1]
''','''		beatMap.Audio = strings.Trim(line[1], "\\"")
''')],
 needs="an audio file name in quotes",
 breaks="quotes that belong to a value are removed",
 demo=DB('''	info(load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "AudioFilename: a.mp3", "AudioFilename: \\"a\\".mp3\\"", 1)))
''',"strings")),
dict(id="f05-od-raw",property="C05",
 edits=[("beatmap/parser.go",'''			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
''','''			beatMap.Difficulty.SetAR(parsed)
''')],
 needs="an overall difficulty out of range in a file without an approach rate",
 breaks="the approach rate taken from it is not limited",
 demo=DB('''	info(load(strings.Replace(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "ApproachRate:9\\n", "", 1), "OverallDifficulty:8", "OverallDifficulty:12", 1)))
''',"strings")),
dict(id="f06-sort-end",property="C06",
 edits=[("beatmap/parser.go",'''		return beatMap.HitObjects[i].GetStartTime() < beatMap.HitObjects[j].GetStartTime()
''','''		a, b := beatMap.HitObjects[i], beatMap.HitObjects[j]
		if a.GetStartTime() == b.GetStartTime() {
			return a.GetEndTime() < b.GetEndTime()
		}

		return a.GetStartTime() < b.GetStartTime()
''')],
 needs="a spinner and another object after it in the file starting at the same time",
 breaks="objects of equal start time lose their order in the file",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"256,192,1000,12,0,3000", "100,100,1000,1,0", "120,100,1000,1,0"})))
''')),
dict(id="f07-lead",property="C07",
 edits=[("beatmap/parser.go",'''			forceNewCombo = true
''','''			forceNewCombo = num > 0
''')],
 needs="a map whose first object is a spinner, the next not marked as a new combo",
 breaks="no new combo after a leading spinner",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"256,192,1000,12,0,3000", "100,100,4000,1,0", "120,100,5000,1,0"})))
''')),
dict(id="f08-lenient",property="C08",
 edits=[("beatmap/timing/timing.go",'''	index := sort.Search(tLen, func(i int) bool {
		return time < tim.points[i].Time
	})
''','''	index := sort.Search(tLen, func(i int) bool {
		return math.Floor(time) < math.Floor(tim.points[i].Time)
	})
''')],
 needs="a timing point at a fractional time and an object less than a millisecond before it",
 breaks="a timing point applies before its time",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, 500}, [2]float64{1000.75, 300})
	for _, x := range []float64{999, 1000, 1000.5, 1000.75, 1001} {
		fmt.Println(x, t.GetPointAt(x).GetBeatLength())
	}
''',"fmt")),
dict(id="f09-lastspan",property="C09",
 edits=[("beatmap/objects/slider.go",'''				Time: math.Max(slider.StartTime+(slider.EndTime-slider.StartTime)/2, slider.EndTime-36),
''','''				Time: math.Max(spanStartTime+slider.spanDuration/2, slider.EndTime-36),
''')],
 needs="a repeating slider with spans shorter than 72 ms",
 breaks="the final tick of fast repeating sliders comes too late",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,2,0,L|200:100,5,10") {
		for _, p := range o.(*objects.Slider).ScorePoints {
			fmt.Printf("%.3f %v\\n", p.Time, p.IsReverse)
		}
	}
''',"fmt",OB)),
dict(id="f09-oddspan",property="C09",
 edits=[("beatmap/objects/slider.go",'''		reversed := span%2 == 1
''','''		reversed := span > 0
''')],
 needs="a slider of three or more spans whose ticks do not lie symmetrically",
 breaks="ticks of the third span lie at the wrong times",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,2,0,L|400:100,3,250") {
		for _, p := range o.(*objects.Slider).ScorePoints {
			fmt.Printf("%.3f %v\\n", p.Time, p.IsReverse)
		}
	}
''',"fmt",OB)),
dict(id="f13-neg-floor",property="C14",
 edits=[("beatmap/stackleniency.go",'''			v.SetStackOffset(-float32(v.GetStackIndex(modifiers))*float32(diff.CircleRadius)/10, modifiers)
''','''			index := v.GetStackIndex(modifiers)
			if index < -3 { // keep deep stacks under slider ends near the end
				index = -3
			}

			v.SetStackOffset(-float32(index)*float32(diff.CircleRadius)/10, modifiers)
''')],
 needs="five objects stacked on the end of one slider",
 breaks="the fourth and later objects under a slider end lie at the same place",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,2,0,L|200:100,1,100", "200,100,1500,1,0", "200,100,1600,1,0", "200,100,1700,1,0", "200,100,1800,1,0", "200,100,1900,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Println(o.GetStackIndex(0), pv(o.GetStackedStartPosition()))
	}
''')),
dict(id="f14-exact",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''	switch {
	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
''','''	switch {
	case modifier&(difficulty.HardRock|difficulty.Relax2) == difficulty.HardRock:
		basePosition.Y = 384 - basePosition.Y
''')],
 needs="HardRock together with Autopilot",
 breaks="positions are not mirrored",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,1,0", "100,100,1000,2,0,L|200:200,3,120") {
		fmt.Println(pv(o.GetStackedStartPositionMod(difficulty.HardRock|difficulty.Relax2)), pv(o.GetStackedEndPositionMod(difficulty.HardRock|difficulty.Relax2)))
	}
''',"fmt",DF)),
dict(id="f15-speed-clamp",property="C15",
 edits=[("beatmap/difficulty/difficulty.go",'''	diff.CustomSpeed = speed
''','''	diff.CustomSpeed = math.Max(0.5, math.Min(speed, 2))
''')],
 needs="a custom speed outside of 0.5 to 2",
 breaks="custom speeds are limited",
 demo=D('''	d := diff(4, 8, 9, 0)
	for _, s := range []float64{0.25, 0.5, 1.9, 2.5} {
		d.SetCustomSpeed(s)
		fmt.Println(d.Speed, d.ARReal, d.ODReal)
	}
''',"fmt")),
dict(id="f17-relax-v2",property="C17",
 edits=[("beatmap/difficulty/mods.go",'''	if (mods&Relax | mods&Relax2) > 0 {
''','''	if (mods&Relax|mods&Relax2) > 0 && mods&ScoreV2 == 0 {
''')],
 needs="Relax or Autopilot together with ScoreV2",
 breaks="a score multiplier for unranked play",
 demo=D('''	fmt.Println((difficulty.Relax | difficulty.ScoreV2).GetScoreMultiplier(), (difficulty.Relax2 | difficulty.ScoreV2 | difficulty.Hidden).GetScoreMultiplier())
''',"fmt",DF)),
dict(id="f18-zero-angle",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''		dot := v1.Dot(v2)
''','''		if v1.LenSq() == 0 || v2.LenSq() == 0 { // no movement, no angle
			return
		}

		dot := v1.Dot(v2)
''')],
 needs="two objects at one place between others, with equal rhythm",
 breaks="a repeated position has no angle, so the angle bonuses of its neighbours are lost",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1090,1,0", "300,100,1180,1,0", "100,100,1270,1,0", "300,120,1360,1,0", "100,110,1450,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="f21-late-sliders",property="C21",
 edits=[("performance/osu/difficulty.go",'''	stars := make([]Attributes, 1, len(objects))
''','''	stars := make([]Attributes, 1, len(objects)+1)
	total := len(diffObjects)
'''),("performance/osu/difficulty.go",'''		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''','''		if total > 1000 && i < total-1 && i%2 == 1 { // not worth it for every single object of a marathon
			attr.Total, attr.Aim, attr.SliderFactor, attr.Speed, attr.Flashlight = stars[i].Total, stars[i].Aim, stars[i].SliderFactor, stars[i].Speed, stars[i].Flashlight
			stars = append(stars, attr)

			continue
		}

		stars = append(stars, getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, attr))
''')],
 needs="a map of more than 1001 objects",
 breaks="every other step repeats the rating of the one before",
 demo=D(T+'''	var l []string
	for i := 0; i < 1100; i++ {
		l = append(l, fmt.Sprintf("%d,%d,%d,1,0", 50+(i*97)%400, 50+(i*61)%300, 1000+i*150+(i%7)*30))
	}
	for i, a := range osu.CalculateStep(objs(t, l...), diff(4, 8, 9, 0)) {
		if i < 40 || i > 1080 {
			show(a)
		}
	}
''',"fmt",OS)),
dict(id="f22-skip-gap",property="C22",
 edits=[("performance/osu/skills/skill.go",'''	for startTime > skill.currentSectionEnd {
''','''	// nothing remains of the strain after an hour, don't collect empty sections
	if startTime-skill.currentSectionEnd > 3600000 {
		skill.saveCurrentPeak()
		skill.currentSectionPeak = 0
		skill.currentSectionEnd = math.Ceil(startTime/sectionLength) * sectionLength
	}

	for startTime > skill.currentSectionEnd {
''')],
 needs="a gap of more than an hour between two objects",
 breaks="the sections of the gap are missing from the peaks",
 demo=D(T+'''	p := osu.CalculateStrainPeaks(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0", "300,300,4001600,1,0", "300,100,4001800,1,0"), diff(4, 8, 9, 0))
	fmt.Println(len(p.Aim), len(p.Speed), len(p.Total))
''',"fmt",OS)),
dict(id="f23-zero-spin",property="C23",
 edits=[("performance/osu/difficulty.go",'''		attr.Spinners++
	}
''','''		attr.Spinners++

		if o.GetEndTime() <= o.GetStartTime() { // can't be spun
			attr.MaxCombo--
		}
	}
''')],
 needs="a spinner that ends when it starts",
 breaks="spinners without duration give no combo",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "256,192,1500,12,0,1500", "100,100,2000,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="f24-hdfl",property="C24",
 edits=[("performance/osu/skills/flashlight.go",'''	return math.Pow(smallDistNerf*result, 2.0)
''','''	result = math.Pow(smallDistNerf*result, 2.0)
	if s.diff.CheckModActive(difficulty.Hidden) && s.diff.CheckModActive(difficulty.HardRock) {
		result *= 1.05
	}

	return result
''')],
 needs="Hidden, HardRock and Flashlight together",
 breaks="Hidden changes the star rating",
 demo=D(T+'''	rate(objs(t, '''+SIX+'''), diff(4, 8, 9, difficulty.Flashlight|difficulty.Hidden|difficulty.HardRock))
''',DF)),
dict(id="f25-meh-int",property="C25",
 edits=[("performance/osu/pp.go",'''		mehMult = float64(pp.countMeh) - float64(pp.totalHits)/500.0
''','''		mehMult = float64(pp.countMeh - pp.totalHits/500)
''')],
 needs="a play with 50s whose number of hits is not a multiple of 500",
 breaks="the penalty for 50s is computed from a rounded allowance",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 700, Circles: 500, Sliders: 200, MaxCombo: 1000}, 1000, 690, 0, 10, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="f25-v2-spin",property="C25",
 edits=[("performance/osu/pp.go",'''		pp.amountHitObjectsWithAccuracy = attribs.ObjectCount
''','''		pp.amountHitObjectsWithAccuracy = attribs.Circles + attribs.Sliders
''')],
 needs="ScoreV2 on a map with spinners",
 breaks="spinners are no longer part of the accuracy",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 710, Circles: 500, Sliders: 200, Spinners: 10, MaxCombo: 1000}, 1000, 690, 20, 0, 0, diff(4, 8, 9, difficulty.ScoreV2))
''',OS,DF)),
dict(id="f27-nothing",property="C27",
 edits=[("performance/osu/pp.go",'''	if totalhits == 0 {
''','''	if attribs.ObjectCount == 0 {
''')],
 needs="a score without any hits on a map with objects",
 breaks="performance points are not a number",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 710, Circles: 500, Sliders: 200, Spinners: 10, MaxCombo: 1000}, 0, 0, 0, 0, 0, diff(4, 8, 9, 0))
''',OS)),
dict(id="f28-result-cache",property="C28",
 edits=[("performance/osu/difficulty.go",'''	stars, _, _, _ := calculateSingle(objects, diff)
	return stars
''','''	if len(objects) == 0 {
		return Attributes{}
	}

	key := resultKey{objects[0], objects[len(objects)-1], len(objects), *diff}

	if stars, ok := results.Load(key); ok {
		return stars.(Attributes)
	}

	stars, _, _, _ := calculateSingle(objects, diff)
	results.Store(key, stars)

	return stars
'''),("performance/osu/difficulty.go",'''// CalculateSingle calculates''','''type resultKey struct {
	first, last objects.IHitObject
	count       int
	diff        difficulty.Difficulty
}

// results remembers ratings, the same beatmap is often rated for several scores
var results sync.Map

// CalculateSingle calculates'''),("performance/osu/difficulty.go",'''	"math"
''','''	"math"
	"sync"
''')],
 needs="rating, then changing an object (its stacking) or exchanging objects in the middle of the list, then rating again",
 breaks="the old rating is returned",
 demo=D(T+'''	hs := objs(t, '''+SIX+''')
	d := diff(4, 8, 9, 0)
	rate(hs, d)
	hs[2], hs[3] = hs[3], hs[2]
	rate(hs, d)
	hs[2].SetStackOffset(-30, 0)
	rate(hs, d)
''')),
dict(id="f28-sorts",property="C28",
 edits=[("performance/osu/difficulty.go",'''func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {
''','''func CalculateStrainPeaks(objects []objects.IHitObject, diff *difficulty.Difficulty) StrainPeaks {
	sort.SliceStable(objects, func(i, j int) bool {
		return objects[i].GetStartTime() < objects[j].GetStartTime()
	})

'''),("performance/osu/difficulty.go",'''	"math"
''','''	"math"
	"sort"
''')],
 needs="objects that are not in order of time",
 breaks="the caller's slice is reordered",
 demo=D('''	hs := objs(timings(1.4, 1, [2]float64{0, 500}), "100,100,1000,1,0", "300,100,1400,1,0", "100,300,1200,1,0")
	osu.CalculateStrainPeaks(hs, diff(4, 8, 9, 0))
	for _, o := range hs {
		fmt.Println(o.GetStartTime())
	}
''',"fmt",OS)),
dict(id="f31-second",property="C31",
 edits=[("beatmap/parser.go",'''			currentSection = section
			continue
''','''			if section == "Difficulty" && counter > 0 { // settings have to come before the timing
				section = ""
			}

			currentSection = section
			continue
''')],
 needs="the Difficulty section after the TimingPoints section",
 breaks="difficulty settings are ignored there",
 demo=DB('''	s := file("", []string{"0,500"}, []string{"100,100,10000,1,0"})
	i := strings.Index(s, "[Difficulty]")
	j := strings.Index(s, "[TimingPoints]")
	info(load(s[:i] + s[j:] + "\\n" + s[i:j]))
''',"strings")),
dict(id="f11-closed",property="C11",
 edits=[("math/curves/multicurve.go",'''	} else if len(points) < 3 || vector.IsStraightLine32(points[0], points[1], points[2]) {
''','''	} else if len(points) < 3 || vector.IsStraightLine32(points[0], points[1], points[2]) || points[0].Dst(points[2]) < 1 {
''')],
 needs="a perfect curve that ends where it starts, or less than a pixel from there",
 breaks="nearly closed circles become lines",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,2,0,P|200:110|100.5:100,1,300", "300,300,3000,2,0,P|330:300|300:300.9,1,80") {
		for i := 0; i < 9; i++ {
			fmt.Println(pv(o.GetPositionAt(o.GetStartTime() + o.GetDuration()*float64(i)/8)))
		}
	}
''',"fmt")),
]
