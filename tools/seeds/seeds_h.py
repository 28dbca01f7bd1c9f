from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="h01-bg-slice",property="C01",
 edits=[("beatmap/parser.go",'''		beatMap.Bg = strings.Replace(line[2], "\\"", "", -1)
''','''		beatMap.Bg = line[2]
		if strings.HasPrefix(beatMap.Bg, "\\"") {
			beatMap.Bg = strings.Replace(beatMap.Bg[1:len(beatMap.Bg)-1], "\\"", "", -1)
		}
''')],
 needs="a background event whose file name is a single quotation mark",
 breaks="parsing crashes",
 demo=DB('''	info(load(file("[Events]\\n0,0,\\",0,0", []string{"0,500"}, []string{"100,100,10000,1,0"})))
''')),
dict(id="h02-zero",property="C02",
 edits=[("files/utf.go",'''func NewUnicodeReader(r io.Reader) io.Reader {
''','''// stallGuard ends a stream that stops delivering
type stallGuard struct {
	io.Reader
	stalled int
}

func (s *stallGuard) Read(p []byte) (int, error) {
	n, err := s.Reader.Read(p)
	if n > 0 {
		s.stalled = 0
	} else if s.stalled++; s.stalled > 8 && err == nil {
		err = io.EOF
	}

	return n, err
}

func NewUnicodeReader(r io.Reader) io.Reader {
	r = &stallGuard{Reader: r}
''')],
 needs="a reader that returns nothing nine times in a row before it goes on",
 breaks="the rest of the file is dropped without an error",
 demo=DB('''	b, err := beatmap.ParseFromReader(&slow{data: file("", []string{"0,500"}, []string{"100,100,10000,1,0", "100,100,20000,1,0"})})
	fmt.Println(err)
	info(b)
}

type slow struct {
	data string
	pos  int
	wait int
}

func (s *slow) Read(p []byte) (int, error) {
	if s.pos == len(s.data) {
		return 0, io.EOF
	}
	if s.pos > 150 && s.wait < 20 {
		s.wait++
		return 0, nil
	}
	n := copy(p, s.data[s.pos:min(len(s.data), s.pos+100)])
	s.pos += n
	return n, nil
''',"io")),
dict(id="h03-surrogate",property="C03",
 edits=[("files/utf.go",'''func NewUnicodeReader(r io.Reader) io.Reader {
	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}
''','''func NewUnicodeReader(r io.Reader) io.Reader {
	return transform.NewReader(r, transform.Chain(unicode.BOMOverride(unicode.UTF8.NewDecoder()), runes.Map(func(c rune) rune {
		if c > 0xffff && c < 0x20000 { // fonts do not have them
			return '?'
		}

		return c
	})))
}
'''),("files/utf.go",'''	"golang.org/x/text/encoding/unicode"
''','''	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/runes"
''')],
 needs="a text field with characters outside the basic plane",
 breaks="they are replaced",
 demo=DB('''	b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "Title:T", "Title:\\U0001f600 x", 1))
	fmt.Printf("%q", b.Title)
''',"strings")),
dict(id="h04-int32",property="C04",
 edits=[("beatmap/parser.go",'''		beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 64)
''','''		beatMap.SetID, _ = strconv.ParseInt(line[1], 10, 32)
''')],
 needs="a beatmap set id above 2147483647",
 breaks="the id is cut to the largest 32-bit number",
 demo=DB('''	b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,10000,1,0"}), "Title:T", "Title:T\\nBeatmapSetID:3000000000", 1))
	fmt.Println(b.SetID)
''',"strings")),
dict(id="h08-neg-red",property="C08",
 edits=[("beatmap/timing/timing.go",'''	if t.beatLength >= 0 || math.IsNaN(t.beatLength) {
''','''	if t.beatLength >= 0 || math.IsNaN(t.beatLength) || !t.Inherited && t.beatLength < -1000 {
''')],
 needs="an uninherited point with a beat length below -1000",
 breaks="its velocity ratio is 1 instead of 0.1",
 demo=D('''	t := timing.NewTimings()
	t.AddPoint(0, -2000, 0, 1, 1, 4, false, false, false)
	t.AddPoint(10, -900, 0, 1, 1, 4, false, false, false)
	t.FinalizePoints()
	fmt.Println(t.GetPointAt(0).GetRatio(), t.GetPointAt(10).GetRatio())
''')),
dict(id="h09-boundary",property="C09",
 edits=[("beatmap/objects/slider.go",'''			if d >= cLength-minDistanceFromEnd {
''','''			if d > cLength-minDistanceFromEnd {
''')],
 needs="a tick exactly 10 ms of travel before the end of the path",
 breaks="the tick is kept",
 demo=D('''	t := timings(1.25, 1, [2]float64{0, 500})
	o := objs(t, "100,100,1000,2,0,L|400:100,1,127.5", "100,100,3000,2,0,L|400:100,1,127.49", "100,100,3000,2,0,L|400:100,1,127.51")
	for _, o := range o {
		fmt.Println(len(o.(*objects.Slider).ScorePoints))
	}
''')),
dict(id="h11-straight-skip",property="C11",
 edits=[("math/curves/multicurve.go",'''	} else if len(points) < 3 || vector.IsStraightLine32(points[0], points[1], points[2]) {
		lines = processLinear(points)
''','''	} else if len(points) == 3 && points[0] != points[2] && vector.IsStraightLine32(points[0], points[1], points[2]) {
		lines = append(lines, NewLinear(points[0], points[2]))
	} else if len(points) < 3 || vector.IsStraightLine32(points[0], points[1], points[2]) {
		lines = processLinear(points)
''')],
 needs="a perfect curve of three collinear points whose middle one lies outside the other two",
 breaks="the path does not go out to the middle point",
 demo=D(T+'''	o := objs(t, "100,100,1000,2,0,P|300:100|200:100,1,300", "100,100,3000,2,0,P|200:100|300:100,1,200")
	for _, x := range o {
		for i := 0; i <= 4; i++ {
			fmt.Print(pv(x.GetPositionAt(x.GetStartTime()+x.GetDuration()*float64(i)/4)), " ")
		}
	}
''')),
dict(id="h13-exact",property="C13",
 edits=[("beatmap/stackleniency.go",'''				if objectI.GetStartTime()-objectN.GetStartTime() > stackThreshold {
''','''				if objectI.GetStartTime()-objectN.GetStartTime() >= stackThreshold {
''')],
 needs="an object exactly the stack window before a slider at the same place",
 breaks="they are not stacked",
 demo=DB('''	b := load(strings.Replace(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,1420,2,0,L|200:100,1,100"}), "ApproachRate:9", "ApproachRate:9", 1))
	info(b)
	for _, o := range b.HitObjects {
		fmt.Print(o.GetStackIndex(0), " ")
	}
''',"strings")),
dict(id="h30-ht-round",property="C30",
 edits=[("performance/osu/preprocessing/object.go",'''	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)
''','''	obj.StrainTime = math.Max(obj.DeltaTime, MinDeltaTime)
	if d.Speed < 1 { // no need for more precision at this pace
		obj.StrainTime = math.Round(obj.StrainTime)
	}
''')],
 needs="HalfTime or a custom speed below 1, and delta times that do not divide evenly",
 breaks="HalfTime no longer equals the slowed down map",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1100,1,0", "100,300,1201,1,0", "300,300,1300,1,0", "200,100,1402,1,0", "50,60,2000,1,0"), diff(4, 8, 9, difficulty.HalfTime))
''')),
dict(id="h33-hypot",property="C33",
 edits=[("math/vector/vector2f.go",'''func (v Vector2f) Dst(v1 Vector2f) float32 {
	x := v1.X - v.X
	y := v1.Y - v.Y
''','''func (v Vector2f) Dst(v1 Vector2f) float32 {
	x := math32.Abs(v1.X - v.X)
	y := math32.Abs(v1.Y - v.Y)

	if x > 8192*y || y > 8192*x { // the short side does not matter
		return math32.Max(x, y) + math32.Min(x, y)
	}
''')],
 needs="two points much further apart in one axis than in the other",
 breaks="the distance is up to an 8192th too long",
 demo=D('''	fmt.Printf("%.3f %.3f", vector.NewVec2f(0, 0).Dst(vector.NewVec2f(100000, 12)), vector.NewVec2f(0, 0).Dst(vector.NewVec2f(100, 100)))
''')),
dict(id="h34-v8",property="C34",
 edits=[("beatmap/parser.go",'''	for _, obj := range beatMap.HitObjects {
		obj.SetTiming(beatMap.Timings)
	}
''','''	if beatMap.FileVersion < 4 { // old maps were timed 24 ms late
		beatMap.Timings.Shift(24)
	}

	for _, obj := range beatMap.HitObjects {
		obj.SetTiming(beatMap.Timings)
	}
'''),("beatmap/timing/timing.go",'''func (tim *Timings) GetDefault()''','''// Shift moves all points by a time
func (tim *Timings) Shift(time float64) {
	for i := range tim.points {
		tim.points[i].Time += time
	}

	for i := range tim.originalPoints {
		tim.originalPoints[i].Time += time
	}
}

func (tim *Timings) GetDefault()''')],
 needs="a file of format 3 with a velocity change within 24 ms before, or at, a slider",
 breaks="the slider gets the velocity before the change",
 demo=DB('''	for _, v := range []string{"v3", "v5"} {
		b := load(strings.Replace(file("", []string{"0,500,4,1,1,50,1,0", "1400,-50,4,1,1,50,0,0"}, []string{"100,100,1000,1,0", "300,100,1400,2,0,L|400:100,1,100", "10,300,2000,1,0", "300,300,2200,1,0"}), "v14", v, 1))
		fmt.Println(b.HitObjects[1].GetEndTime())
		rate(b.HitObjects, b.Difficulty)
	}
''',"strings")),
dict(id="h19-fl-stack",property="C19",
 edits=[("performance/osu/skills/flashlight.go",'''		cumulativeStrainTime += previous.StrainTime
''','''		cumulativeStrainTime += previous.StrainTime
		if cumulativeStrainTime > 8000 { // forgotten
			break
		}
''')],
 needs="Flashlight with pauses of seconds inside the last ten objects",
 breaks="objects before the pause are left out",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "300,100,1200,1,0", "100,300,9000,1,0", "300,300,9200,1,0", "200,100,9400,1,0", "50,60,14000,1,0", "300,60,19000,1,0", "350,60,22000,1,0"), diff(4, 8, 9, difficulty.Flashlight))
''')),
dict(id="h18-teleport",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''		tailJumpDistance := lastSlider''','''		if lastSlider.GetEndTime() > o.BaseObject.GetStartTime() { // the slider is left before its end
			o.MovementTime = o.StrainTime
			o.MovementDistance = o.JumpDistance
		}

		tailJumpDistance := lastSlider'''),
 ("performance/osu/preprocessing/object.go",'''		o.MovementDistance = math.Max(0,''','''		if o.MovementDistance > 0 {
			return
		}

		o.MovementDistance = math.Max(0,''')],
 needs="an object that starts before the slider in front of it ends",
 breaks="movement time and distance do not use the lazy path, and the angle is missing",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "200,100,1300,2,0,L|400:100,1,200", "100,300,1500,1,0", "300,300,1700,2,0,L|100:300,1,200", "100,100,1900,1,0", "300,100,2100,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="h20-total-guard",property="C20",
 edits=[("performance/osu/difficulty.go",'''	if basePerformance > 0.00001 {
''','''	if basePerformance > 0.00001 && rawAim+rawSpeed > 0 {
''')],
 needs="a map without aim and speed strain, or with Relax and a single place to click",
 breaks="its total rating is 0 instead of that of the bare minimum",
 demo=D(T+'''	rate(objs(t, "100,100,1000,1,0", "256,192,1200,12,0,3000"), diff(4, 8, 9, 0))
	rate(objs(t, "100,100,1000,1,0"), diff(4, 8, 9, 0))
''')),
dict(id="h22-fl-tail",property="C22",
 edits=[("performance/osu/difficulty.go",'''	for _, o := range diffObjects {
		aimSkill.Process(o)
		speedSkill.Process(o)
''','''	for i, o := range diffObjects {
		if i == len(diffObjects)-1 && o.BaseObject.GetType()&8 > 0 { // a spinner at the end adds nothing
			break
		}

		aimSkill.Process(o)
		speedSkill.Process(o)
''')],
 needs="a map that ends with a spinner",
 breaks="CalculateStrainPeaks lacks the sections up to it",
 demo=D(T+'''	showPeaks(osu.CalculateStrainPeaks(objs(t, '''+SIX+''', "256,192,3900,12,0,5000"), diff(4, 8, 9, 0)))
''')),
dict(id="h25-td-fl",property="C25",
 edits=[("performance/osu/pp.go",'''	flashlightValue := math.Pow(rawFlashlight, 2.0) * 25.0
''','''	flashlightValue := math.Pow(math.Max(rawFlashlight, 0.05), 2.0) * 25.0
''')],
 needs="a flashlight rating below 0.05",
 breaks="flashlight pp do not go to zero",
 demo=D('''	pp(osu.Attributes{Aim: 3, Speed: 3, Flashlight: 0.01, SliderFactor: 0.9, ObjectCount: 300, Circles: 300, MaxCombo: 300}, 300, 300, 0, 0, 0, diff(4, 8, 9, difficulty.Flashlight))
''')),
dict(id="h25-combo-misses",property="C25",
 edits=[("performance/osu/pp.go",'''	comboBasedMissCount = math.Min(comboBasedMissCount, float64(pp.totalHits))
''','''	comboBasedMissCount = math.Min(comboBasedMissCount, float64(pp.countOk+pp.countMeh+pp.countMiss))
''')],
 needs="a map with sliders and a score with broken combo and hardly any 100s or 50s",
 breaks="misses derived from combo are dropped",
 demo=D('''	a := osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 100, Circles: 50, Sliders: 50, MaxCombo: 200}
	pp(a, 50, 100, 0, 0, 0, diff(4, 8, 9, 0))
	pp(a, 50, 97, 3, 0, 0, diff(4, 8, 9, 0))
''')),
dict(id="h28-step-memo",property="C28",
 edits=[("performance/osu/difficulty.go",'''// CalculateStep calculates successive star ratings for every part of a beatmap
func CalculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) []Attributes {
	stars, _, _, _ := calculateStep(objects, diff)
	return stars
}
''','''type stepKey struct {
	first, last objects.IHitObject
	count       int
	diff        difficulty.Difficulty
}

// lastSteps keeps the last result, users scroll through it again and again
var lastSteps struct {
	sync.Mutex
	key   stepKey
	stars []Attributes
}

// CalculateStep calculates successive star ratings for every part of a beatmap
func CalculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) []Attributes {
	if len(objects) == 0 {
		return nil
	}

	key := stepKey{objects[0], objects[len(objects)-1], len(objects), *diff}

	lastSteps.Lock()
	defer lastSteps.Unlock()

	if lastSteps.key != key {
		lastSteps.stars, _, _, _ = calculateStep(objects, diff)
		lastSteps.key = key
	}

	return lastSteps.stars
}
'''),("performance/osu/difficulty.go",'''	"math"
)
''','''	"math"
	"sync"
)
''')],
 needs="a caller who changes the list he was given and asks again, or an object exchanged in the middle",
 breaks="the second answer is the changed list",
 demo=D(T+'''	o := objs(t, '''+SIX+''')
	d := diff(4, 8, 9, 0)
	for i := 0; i < 2; i++ {
		s := osu.CalculateStep(o, d)
		show(s[3])
		s[3].Total = 99
	}
''')),
dict(id="h26-attr-late",property="C26",
 edits=[("performance/osu/pp.go",'''	pp.diff = diff
	pp.totalHits = totalhits
''','''	if pp.diff == nil || *pp.diff != *diff {
		copied := *diff
		pp.diff = &copied
		pp.amountHitObjectsWithAccuracy = attribs.Circles
		if diff.CheckModActive(difficulty.ScoreV2) {
			pp.amountHitObjectsWithAccuracy = attribs.ObjectCount
		}
	}
	pp.totalHits = totalhits
'''),("performance/osu/pp.go",'''	if diff.CheckModActive(difficulty.ScoreV2) {
		pp.amountHitObjectsWithAccuracy = attribs.ObjectCount
	} else {
		pp.amountHitObjectsWithAccuracy = attribs.Circles
	}

	// total pp
''','''	// total pp
''')],
 needs="a calculator used again with the same difficulty for a map with another number of circles",
 breaks="the accuracy component uses the number of circles of the first map",
 demo=D('''	var c osu.PPv2
	d := diff(4, 8, 9, 0)
	for _, n := range []int{100, 50} {
		fmt.Printf("%.4f ", c.PPv2x(osu.Attributes{Aim: 3, Speed: 3, SliderFactor: 0.9, ObjectCount: 100, Circles: n, Sliders: 100 - n, MaxCombo: 200}, -1, -1, 1, 0, 0, d).Results.Acc)
	}
''')),
dict(id="h07-late-newcombo",property="C07",
 edits=[("beatmap/parser.go",'''		} else if iO.IsNewCombo() || forceNewCombo {
''','''		} else if iO.IsNewCombo() || forceNewCombo || num == 0 {
''')],
 needs="a map whose first object does not start a combo",
 breaks="combo and colour sets are one ahead",
 demo=DB('''	info(load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,200,2000,5,0", "100,300,3000,1,0"})))
''')),
dict(id="h14-endpos",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''func (hitObject *HitObject) GetStackedEndPositionMod(modifier difficulty.Modifier) vector.Vector2f {
	return hitObject.modifyPosition(hitObject.GetEndPosition(), modifier)
}
''','''func (hitObject *HitObject) GetStackedEndPositionMod(modifier difficulty.Modifier) vector.Vector2f {
	if hitObject.EndPosRaw == hitObject.StartPosRaw { // nothing moves
		return hitObject.GetStackedStartPositionMod(modifier &^ difficulty.Easy)
	}

	return hitObject.modifyPosition(hitObject.GetEndPosition(), modifier)
}
''')],
 needs="Easy and a stacked circle, or a slider that ends where it starts",
 breaks="the end position has the stack offset without Easy",
 demo=DB('''	b := load(file("", []string{"0,500"}, []string{"100,100,1000,1,0", "100,100,1100,1,0"}))
	for _, o := range b.HitObjects {
		fmt.Print(pv(o.GetStackedEndPositionMod(difficulty.Easy)), pv(o.GetStackedEndPositionMod(0)))
	}
''',DF)),
]
