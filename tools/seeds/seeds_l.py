from importlib.util import spec_from_file_location as _s, module_from_spec as _m
import os as _o
_p=_s("g",_o.path.join(_o.path.dirname(_o.path.abspath(__file__)),"seeds_g.py")); _b=_m(_p); _p.loader.exec_module(_b)
D=_b.D; DB=_b.DB; DF=_b.DF; OS=_b.OS; OB=_b.OB; TM=_b.TM; CV=_b.CV; VC=_b.VC; BM=_b.BM; MV=_b.MV; M3=_b.M3; T=_b.T; SIX=_b.SIX
SEEDS=[
dict(id="l28-breaks-shared",property="C28",
 edits=[("beatmap/beatmap.go",'''func NewBeatMap() *BeatMap {
	return &BeatMap{
''','''// noPauses is room for the breaks of a beatmap, most have only a few
var noPauses = make([]*Pause, 0, 16)

func NewBeatMap() *BeatMap {
	return &BeatMap{
		Pauses: noPauses,

''')],
 needs="two parsed beatmaps with breaks",
 breaks="parsing the second one rewrites the breaks of the first",
 demo=DB('''	var kept []*beatmap.BeatMap
	for i := 0; i < 3; i++ {
		kept = append(kept, load(file(fmt.Sprintf("[Events]\\n2,%d,%d\\n", 2000+i*100, 4000+i*200), []string{"0,500"}, []string{"100,100,1000,1,0", "300,100,9200,1,0"})))
	}
	for _, b := range kept {
		fmt.Println(b.Pauses[0].StartTime, b.Pauses[0].EndTime)
	}
''')),
dict(id="l05-old-ar",property="C05",
 edits=[("beatmap/parser.go",'''		if !beatMap.arSpecified {
''','''		if !beatMap.arSpecified || beatMap.FileVersion < 8 { // old files have no approach rate
''')],
 needs="a version 7 file which gives its approach rate before its overall difficulty",
 breaks="the approach rate is replaced",
 demo=DB('''	for _, v := range []string{"3", "7", "8", "14"} {
		for _, l := range []string{"ApproachRate:9\\nOverallDifficulty:6", "OverallDifficulty:6\\nApproachRate:9", "OverallDifficulty:6"} {
			b := load("osu file format v" + v + "\\n\\n[Metadata]\\nTitle:T\\n\\n[Difficulty]\\n" + l + "\\n\\n[TimingPoints]\\n0,500\\n\\n[HitObjects]\\n100,100,1000,1,0\\n")
			fmt.Println(v, b.Difficulty.GetAR(), b.Difficulty.GetOD())
		}
	}
''')),
dict(id="l18-travel-floor",property="C18",
 edits=[("performance/osu/preprocessing/object.go",'''math.Max(lastSlider.LazyTravelTime/o.diff.Speed, MinDeltaTime)''','''math.Max(lastSlider.LazyTravelTime, MinDeltaTime)/o.diff.Speed''')],
 needs="a fast slider whose lazy travel lasts less than 37 ms with DoubleTime",
 breaks="its travel time is less than the 25 ms floor",
 demo=D('''	t := timings(3.6, 1, [2]float64{0, 60})
	for _, m := range []difficulty.Modifier{0, difficulty.DoubleTime, difficulty.HalfTime} {
		for _, l := range []string{"100,100,1000,2,0,L|500:100,1,400", "100,100,1000,2,0,L|500:100,1,240", "100,100,1000,2,0,L|300:100,4,200"} {
			show(osu.CalculateSingle(objs(t, "10,10,600,1,0", "100,10,700,1,0", "10,10,900,1,0", l, "200,300,1300,1,0", "100,100,1600,1,0"), diff(4, 8, 9, m)))
		}
	}
''')),
dict(id="l19-rhythm-count",property="C19",
 edits=[("performance/osu/skills/speed.go",'''math.Min(float64(len(s.Previous)-i)/float64(len(s.Previous)), currHistoricalDecay)''','''math.Min(float64(s.HistoryLength-i)/float64(s.HistoryLength), currHistoricalDecay)''')],
 needs="rhythm changes before the history is full, or in its oldest entry",
 breaks="the rhythm bonus weighs history by its capacity instead of its length",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,100,1000,1,0", "110,100,1200,1,0", "120,100,1400,1,0", "130,100,1600,1,0", "140,100,1700,1,0", "150,100,1800,1,0", "160,100,1900,1,0", "170,100,2100,1,0", "180,100,2300,1,0", "190,100,2400,1,0", "200,100,2500,1,0", "200,200,2900,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="l26-no-hits",property="C26",
 edits=[("performance/osu/pp.go",'''	if totalhits == 0 {
		pp.accuracy = 0.0
	} else {''','''	if totalhits == 0 && pp.accuracy > 0 {
		pp.countGreat = 1 // keeps the last accuracy
	} else if totalhits == 0 {
		pp.accuracy = 0.0
	} else {''')],
 needs="a calculator reused for a score without hits",
 breaks="the accuracy of the previous score is kept",
 demo=D(T+'''	d := diff(4, 8, 9, 0)
	a := osu.CalculateSingle(objs(t, '''+SIX+'''), d)
	var c osu.PPv2
	for _, n := range []int{6, 0, 3, 0} {
		r := c.PPv2x(a, n, n, 0, 0, 0, d).Results
		fmt.Printf("%.4f %.4f %.4f %.4f\\n", r.Aim, r.Speed, r.Acc, r.Total)
	}
''')),
dict(id="l29-lock-order",property="C29",
 edits=[("math/curves/multicurve.go",'''	lines := make([]Linear, 0)

	switch typ {
''','''	lines := make([]Linear, 0)

	first, second := &pathLock, &lineLock
	if len(points) > 2 {
		first, second = second, first
	}

	first.Lock()
	defer first.Unlock()
	second.Lock()
	defer second.Unlock()

	numPaths += len(points)

	switch typ {
'''),("math/curves/multicurve.go",'''const minPartWidth = 0.0001
''','''const minPartWidth = 0.0001

var (
	pathLock, lineLock sync.Mutex
	numPaths           int
)
'''),("math/curves/multicurve.go",'''	"sort"
)''','''	"sort"
	"sync"
)''')],
 needs="two goroutines that build a short and a long path at the same time, each between the two locks of the other",
 breaks="both wait for ever",
 demo=DB('''	done := make(chan bool, 8)
	for g := 0; g < 8; g++ {
		go func(g int) {
			pts := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 50), vector.NewVec2f(0, 50)}[:2+g%2*2]
			for i := 0; i < 400000; i++ {
				curves.NewMultiCurve("L", pts)
			}
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			fmt.Println("stuck")
			os.Exit(1)
		}
	}
	fmt.Println("done")
''',"os","time",CV,VC)),
dict(id="l28-path-cache",property="C28",
 edits=[("beatmap/objects/slider.go",'''	slider.multiCurve = curves.NewMultiCurveT(list[0], points, slider.pixelLength)
''','''	if cached, ok := paths.Load(data[5] + data[7]); ok {
		slider.multiCurve = cached.(*curves.MultiCurve)
	} else {
		slider.multiCurve = curves.NewMultiCurveT(list[0], points, slider.pixelLength)
		paths.Store(data[5]+data[7], slider.multiCurve)
	}
'''),("beatmap/objects/slider.go",'''type TickPoint struct {''','''// paths are kept, most are used again
var paths sync.Map

type TickPoint struct {'''),("beatmap/objects/slider.go",'''	"strings"
)''','''	"strings"
	"sync"
)''')],
 needs="two sliders, perhaps in different beatmaps, with the same control points and length but different heads",
 breaks="the second gets the path of the first",
 demo=D(T+'''	for _, l := range []string{"100,100,1000,2,0,L|200:100,1,140", "100,300,1000,2,0,L|200:100,1,140", "400,300,1000,2,0,L|200:100,1,140"} {
		o := objs(t, l)
		fmt.Println(pv(o[0].GetStartPosition()), pv(o[0].GetEndPosition()), pv(o[0].GetPositionAt(1100)))
	}
''')),
dict(id="l02-retry",property="C02",
 edits=[("files/utf.go",'''func NewScanner(r io.Reader) *bufio.Scanner {
	return bufio.NewScanner(NewUnicodeReader(r))
}
''','''// steadyReader tries a failed read once more
type steadyReader struct {
	r io.Reader
}

func (s steadyReader) Read(p []byte) (n int, err error) {
	n, err = s.r.Read(p)

	if n == 0 && err != nil && err != io.EOF {
		n, err = s.r.Read(p)
	}

	return
}

func NewScanner(r io.Reader) *bufio.Scanner {
	return bufio.NewScanner(NewUnicodeReader(steadyReader{r}))
}
''')],
 needs="a reader that fails once and then says end of file or goes on",
 breaks="the error is not reported and the beatmap is cut or has a hole",
 demo=DB('''	text := file("", []string{"0,500"}, []string{"100,100,1000,1,0", "300,100,1200,1,0", "100,300,1400,1,0"})
	for _, cut := range []int{0, 50, len(text) - 20, len(text)} {
		b, err := beatmap.ParseFromReader(io.MultiReader(strings.NewReader(text[:cut]), &once{}))
		fmt.Println(b == nil, err != nil)
	}
}

type once struct{ n int }

func (o *once) Read(p []byte) (int, error) {
	o.n++
	if o.n == 1 {
		return 0, errors.New("read failed")
	}
	return 0, io.EOF
''',"io","errors","strings")),
dict(id="l16-cap",property="C16",
 edits=[("beatmap/difficulty/mods.go",'''	modsSl := make([]string, len(mods)/2)
''','''	if len(mods) > 24 { // no more mods can be combined
		mods = mods[:24]
	}

	modsSl := make([]string, len(mods)/2)
''')],
 needs="more than twelve acronyms",
 breaks="the others are dropped",
 demo=D('''	for _, m := range []difficulty.Modifier{0x1fff, 0x5fff, 0xfff, 0x7fffffff} {
		fmt.Println(m, difficulty.ParseMods(m.String()))
	}
	fmt.Println(difficulty.ParseMods("HDHDHDHDHDHDHDHDHDHDHDHDHDHR"))
''')),
dict(id="l06-far",property="C06",
 edits=[("beatmap/objects/baseobject.go",'''	startPos := vector.NewVec2f(float32(x), float32(y))
''','''	startPos := vector.NewVec2f(float32(mutils.ClampF64(x, -10000, 10000)), float32(mutils.ClampF64(y, -10000, 10000)))
'''),("beatmap/objects/baseobject.go",'''	"github.com/Wieku/gosu-pp/math/vector"
''','''	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"
''')],
 needs="an object very far outside the playfield",
 breaks="it is moved",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,1,0", "-9999,5,1100,1,0", "12000,5,1200,1,0", "5,-65536,1300,1,0") {
		fmt.Println(o.GetStartPosition())
	}
''')),
dict(id="l04-video",property="C04",
 edits=[("beatmap/parser.go",'''	case "Background", "0":
''','''	case "Background", "0", "Video", "1":
''')],
 needs="a video event after the background",
 breaks="the video is taken for the background",
 demo=DB('''	for _, e := range []string{"0,0,\\"bg.jpg\\",0,0\\n", "0,0,\\"bg.jpg\\",0,0\\nVideo,0,\\"v.mp4\\"\\n", "1,0,\\"v.mp4\\"\\n"} {
		fmt.Printf("%q\\n", load(file("[Events]\\n"+e, []string{"0,500"}, []string{"100,100,1000,1,0"})).Bg)
	}
''')),
dict(id="l11-red-head",property="C11",
 edits=[("math/curves/multicurve.go",'''multi := i < len(points)-2 && points[i] == points[i+1]''','''multi := i > 0 && i < len(points)-2 && points[i] == points[i+1]''')],
 needs="a bezier path whose first control point equals its head",
 breaks="the head counts twice in the first curve",
 demo=D('''	p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(0, 0), vector.NewVec2f(100, 0), vector.NewVec2f(100, 100)}
	for _, q := range [][]vector.Vector2f{p, p[1:]} {
		c := curves.NewMultiCurve("B", q)
		fmt.Printf("%.2f %.2f\\n", c.GetLength(), c.PointAt(0.5))
	}
''')),
dict(id="l01-extras",property="C01",
 edits=[("beatmap/objects/circle.go",'''	return &Circle{
		HitObject: commonParse(data),
	}
''','''	circle := &Circle{
		HitObject: commonParse(data),
	}

	if len(data) > 5 {
		if extras := strings.Split(data[5], ":"); len(extras) > 1 && extras[3] != "0" {
			circle.volume, _ = strconv.Atoi(extras[3])
		}
	}

	return circle
'''),("beatmap/objects/circle.go",'''	diff *difficulty.Difficulty
''','''	diff *difficulty.Difficulty

	volume int
'''),("beatmap/objects/circle.go",'''	"github.com/Wieku/gosu-pp/beatmap/difficulty"
''','''	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"strconv"
	"strings"
''')],
 needs="a circle with a short sample field, as old files have",
 breaks="the parser crashes",
 demo=DB('''	for _, e := range []string{"", ",0:0:0:0:", ",0:0", ",0:0:0", ",0"} {
		fmt.Println(len(load(file("", []string{"0,500"}, []string{"100,100,1000,1,0" + e})).HitObjects))
	}
''')),
dict(id="l31-tab",property="C31",
 edits=[("beatmap/parser.go",'''		divided[i] = strings.TrimSpace(a)
''','''		divided[i] = strings.Trim(a, " ")
''')],
 needs="tabs around a value",
 breaks="the value is not understood",
 demo=DB('''	for _, s := range []string{"", " ", "\\t", " \\t"} {
		b := load("osu file format v14\\n\\n[Metadata]\\nTitle:" + s + "T\\nCreator:C\\n\\n[Difficulty]\\nCircleSize:" + s + "7\\n\\n[TimingPoints]\\n0,500\\n\\n[HitObjects]\\n100," + s + "100,1000,1,0\\n")
		fmt.Printf("%q %v %v\\n", b.Title, b.Difficulty.GetCS(), b.HitObjects[0].GetStartPosition())
	}
''')),
dict(id="l20-short-map",property="C20",
 edits=[("performance/osu/skills/skill.go",'''	numReduced := mutils.MinI(len(strains), skill.ReducedSectionCount)
''','''	numReduced := mutils.MinI(len(strains)-1, skill.ReducedSectionCount)
''')],
 needs="a map with no more sections than are reduced",
 breaks="one section less is reduced",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, '''+SIX+'''), diff(4, 8, 9, 0)))
	show(osu.CalculateSingle(objs(t, "100,100,1000,1,0", "300,100,1100,1,0", "200,150,1150,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="l14-hr-none",property="C14",
 edits=[("beatmap/objects/hitobject.go",'''	case modifier&difficulty.HardRock > 0:
		basePosition.Y = 384 - basePosition.Y
''','''	case modifier&difficulty.HardRock > 0:
		if basePosition.Y < 0 || basePosition.Y > 384 { // out of the playfield already
			return basePosition.Add(hitObject.StackOffsetHR)
		}

		basePosition.Y = 384 - basePosition.Y
''')],
 needs="an object outside the playfield with HardRock",
 breaks="it is not mirrored",
 demo=D(T+'''	for _, o := range objs(t, "100,100,1000,1,0", "100,384,1000,1,0", "100,385,1100,1,0", "100,-4,1200,1,0", "100,370,1300,2,0,L|100:500,1,60") {
		fmt.Println(pv(o.GetStackedStartPositionMod(difficulty.HardRock)), pv(o.GetStackedEndPositionMod(difficulty.HardRock)))
	}
''')),
dict(id="l23-spinner-zero",property="C23",
 edits=[("performance/osu/difficulty.go",'''	} else if _, ok := o.(*objects.Spinner); ok {
		attr.Spinners++
	}
''','''	} else if _, ok := o.(*objects.Spinner); ok {
		attr.Spinners++

		if o.GetDuration() <= 0 { // can't be spun
			return
		}
	}
''')],
 needs="a spinner without a duration",
 breaks="it is not counted",
 demo=D(T+'''	show(osu.CalculateSingle(objs(t, "100,100,1000,1,0", "256,192,1200,12,0,1200", "100,100,1500,1,0"), diff(4, 8, 9, 0)))
	show(osu.CalculateSingle(objs(t, "100,100,1000,1,0", "256,192,1200,12,0,1100", "100,100,1500,1,0"), diff(4, 8, 9, 0)))
''')),
dict(id="l25-fl-scale",property="C25",
 edits=[("performance/osu/pp.go",'''	scale := 0.7 + 0.1*math.Min(1.0, float64(pp.totalHits)/200.0)
	if pp.totalHits > 200 {
		scale += 0.2 * math.Min(1.0, float64(pp.totalHits-200)/200.0)
	}
''','''	scale := 0.7 + 0.1*math.Min(1.0, float64(pp.totalHits)/200.0)
	if pp.totalHits > 200 {
		scale += 0.2 * math.Min(1.0, float64(pp.scoreMaxCombo-200)/200.0)
	}
''')],
 needs="Flashlight and a combo that differs from the number of hits, on a map of 201 to 400 objects or a low combo",
 breaks="the length factor uses the combo",
 demo=D('''	for _, n := range [][2]int{{150, 150}, {300, 300}, {300, 400}, {500, 250}, {500, 600}} {
		pp(osu.Attributes{Total: 5, Aim: 2.5, SliderFactor: 0.98, Speed: 2.4, Flashlight: 1.9, ObjectCount: n[0], Circles: n[0], MaxCombo: 600}, n[1], n[0], 0, 0, 0, diff(4, 8, 9, difficulty.Flashlight))
	}
''')),
dict(id="l08-first-green",property="C08",
 edits=[("beatmap/timing/timing.go",'''		if point.Inherited && i > 0 {
			lastPoint := tim.points[i-1]
			point.beatLengthBase = lastPoint.beatLengthBase
''','''		if point.Inherited && i > 0 {
			lastPoint := tim.points[i-1]
			if lastPoint.beatLengthBase > 0 || i > 1 {
				point.beatLengthBase = lastPoint.beatLengthBase
			}
''')],
 needs="two inherited points before the first timing point",
 breaks="the second does not take over from the first",
 demo=D('''	t := timings(1.4, 1, [2]float64{0, -100}, [2]float64{100, -50}, [2]float64{200, -200}, [2]float64{300, 500}, [2]float64{400, -50})
	for _, at := range []float64{0, 100, 200, 300, 400} {
		p := t.GetPointAt(at)
		fmt.Println(p.GetBaseBeatLength(), p.GetBeatLength(), p.GetRatio())
	}
''')),
dict(id="l12-catmull-len",property="C12",
 edits=[("math/curves/catmull.go",'''	for i := 1; i <= int(pointLength); i++ {
''','''	for i := 1; i < int(pointLength)+1 && i < 1000; i++ {
''')],
 needs="a standalone catmull curve of more than a thousand pixels",
 breaks="its length stops at the thousandth step",
 demo=D('''	for _, x := range []float32{100, 900, 1500, 4000} {
		c := curves.NewCatmull([]vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(0, 0), vector.NewVec2f(x, 0), vector.NewVec2f(x, 100)})
		fmt.Printf("%.1f\\n", c.GetLength())
	}
''')),
]
