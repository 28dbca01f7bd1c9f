// Package bodies holds the concurrent workloads of C29: what a thread does, and on which objects.
package bodies

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
)

// Map is a beatmap shared by threads (or not); built anew for every execution.
type Map struct {
	Objs    []objects.IHitObject
	Timings *timing.Timings
}

var maps = []struct {
	sm, tr float64
	tps    [][2]float64
	lines  []string
	diff   [4]float64
}{
	{1.4, 1, [][2]float64{{0, 500}, {1500, -50}}, []string{
		"100,100,1000,1,0",
		"120,100,1200,2,0,B|140:120|150:90,2,50",
		"300,200,1900,1,0",
		"300,200,2050,2,0,P|330:230|360:200,1,70",
	}, [4]float64{5, 4, 8, 9}},
	{2, 2, [][2]float64{{0, 400}}, []string{
		"400,300,500,5,0",
		"380,280,640,1,0",
		"200,80,900,2,0,C|208:84|212:78,1,12",
		"256,192,1500,8,0,1700",
	}, [4]float64{6, 6.5, 5, 3}},
}

const text0 = "osu file format v14\n\n[General]\nAudioFilename: a.mp3\nStackLeniency: 0.7\n\n[Metadata]\nTitle:T\nVersion:V\n\n[Difficulty]\nHPDrainRate:5\nCircleSize:4\nOverallDifficulty:8\nApproachRate:9\nSliderMultiplier:1.4\nSliderTickRate:1\n\n[Events]\n0,0,\"bg.jpg\",0,0\n2,100,200\n\n[TimingPoints]\n0,500,4,2,1,60,1,0\n1500,-50,4,2,1,60,0,0\n\n[HitObjects]\n100,100,1000,1,0\n100,100,1100,1,0\n120,100,1300,2,0,B|140:120|150:90,2,50\n"
const text1 = "osu file format v5\n\n[General]\nAudioFilename: b.mp3\n\n[Metadata]\nTitle:Other\nCreator:x\n\n[Difficulty]\nCircleSize:6\nOverallDifficulty:3\nSliderMultiplier:2\n\n[TimingPoints]\n0,300\n\n[HitObjects]\n300,300,500,2,0,L|400:300,1,100\n300,300,1500,1,0\n256,192,1600,12,0,1900\n"

// The unusual file: UTF-16, breaks, long and mixed curves, a hold note, unreadable values, unsorted lines.
const text2 = "osu file format v9\r\n\r\n[General]\r\nAudioFilename: c d.mp3\r\nMode: 0\r\nPreviewTime: 77\r\nStackLeniency: x\r\n\r\n[Metadata]\r\nTitle:\u65e5\u672c\r\nTags:a \u00e9\r\nBeatmapID:7\r\n\r\n[Difficulty]\r\nHPDrainRate:12\r\nOverallDifficulty:3\r\nSliderTickRate:4\r\n\r\n[Events]\r\n//x\r\nBackground,0,\"b g.png\"\r\nBreak,500,1500\r\n2,2000,4000\r\n\r\n[TimingPoints]\r\n900,-200,4,2,1,60,0,1\r\n0,500,3,1,0,50,1,0\r\n100,-nan,4,2,1,60,0,8\r\n\r\n[HitObjects]\r\n100,100,1100,38,2,P|103:101|106:100,2,5,2|0|8,0:0|1:2|2:0,0:0:0:0:\r\n100,100,1000,1,0\r\n50,60,1200,2,0,B|50:61|51:60|51:60|51:61|52:61|52:60|53:60|53:61|54:61,1,4\r\n10,10,1300,128,0,1500:0:0:0:0:\r\nx,y\r\n256,192,1600,8,0,1700\r\n"

var odd = [][]byte{utf16le(text2), []byte("\ufeff" + text2), []byte(text0[:120])}

func utf16le(s string) []byte {
	out := []byte{0xff, 0xfe}
	for _, c := range utf16.Encode([]rune(s)) {
		out = append(out, byte(c), byte(c>>8))
	}
	return out
}

// New builds map i.
func New(i int) *Map {
	m := maps[i]
	t := timing.NewTimings()
	t.SliderMult, t.TickRate = m.sm, m.tr
	for _, p := range m.tps {
		t.AddPoint(p[0], p[1], 0, 1, 1, 4, p[1] < 0, false, false)
	}
	t.FinalizePoints()
	return &Map{Build(m.lines, t), t}
}

// Build makes the objects of a map.
func Build(lines []string, t *timing.Timings) []objects.IHitObject {
	var out []objects.IHitObject
	for i, l := range lines {
		o := objects.CreateObject(strings.Split(l, ","))
		o.SetTiming(t)
		o.SetID(i)
		for k, md := range modes {
			o.SetStackIndex((i+k)%3, md)
			o.SetStackOffset(float32((i+k)%3)*-3.2, md)
		}
		out = append(out, o)
	}
	return out
}

var modes = []difficulty.Modifier{0, difficulty.Easy, difficulty.HardRock}

func b(v float64) string { return strconv.FormatUint(math.Float64bits(v), 16) }
func v2(v vector.Vector2f) string {
	return strconv.FormatUint(uint64(math.Float32bits(v.X))<<32|uint64(math.Float32bits(v.Y)), 16)
}

func attr(a osu.Attributes) string {
	return fmt.Sprint(b(a.Total), b(a.Aim), b(a.SliderFactor), b(a.Speed), b(a.Flashlight), " ", a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

func peaks(p osu.StrainPeaks) string {
	var w strings.Builder
	for _, l := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		for _, v := range l {
			w.WriteString(b(v))
			w.WriteByte(' ')
		}
		w.WriteByte('|')
	}
	return w.String()
}

func positions(objs []objects.IHitObject, n int) string {
	var w strings.Builder
	for _, o := range objs {
		w.WriteString(v2(o.GetStartPosition()) + v2(o.GetEndPosition()))
		for k := 0; k <= n; k++ {
			t := o.GetStartTime() + o.GetDuration()*float64(k)/float64(n)
			w.WriteString(v2(o.GetPositionAt(t)))
			for _, m := range modes {
				w.WriteString(v2(o.GetStackedPositionAtMod(t, m)))
			}
		}
		w.WriteByte(' ')
	}
	return w.String()
}

// Dump renders the shared state.
func (m *Map) Dump() string {
	var w strings.Builder
	for _, o := range m.Objs {
		fmt.Fprint(&w, o.GetType(), b(o.GetStartTime()), b(o.GetEndTime()), v2(o.GetStartPosition()), v2(o.GetEndPosition()), o.GetID(), o.GetComboSet(), o.IsNewCombo())
		for _, md := range modes {
			fmt.Fprint(&w, " ", o.GetStackIndex(md), v2(o.GetStackedStartPositionMod(md)), v2(o.GetStackedEndPositionMod(md)))
		}
		if s, ok := o.(*objects.Slider); ok {
			for _, p := range s.ScorePoints {
				fmt.Fprint(&w, " ", b(p.Time), p.IsReverse)
			}
		}
		w.WriteByte('\n')
	}
	w.WriteString(positions(m.Objs, 3))
	return w.String()
}

func diffOf(i int, m difficulty.Modifier) *difficulty.Difficulty {
	v := maps[i].diff
	d := difficulty.NewDifficulty(v[0], v[1], v[2], v[3])
	d.SetMods(m)
	return d
}

const (
	hrFL = difficulty.HardRock | difficulty.Flashlight
	dtEZ = difficulty.DoubleTime | difficulty.Easy
)

// Op is a thread body: it works on map m (number i) with objects of its own besides, and returns
// everything it observed.
type Op struct {
	Name string
	Run  func(m *Map, i int) string
}

var Ops = []Op{
	{"single+HRFL", func(m *Map, i int) string { return attr(osu.CalculateSingle(m.Objs, diffOf(i, hrFL))) }},
	{"stepPeaks+EZDT", func(m *Map, i int) string {
		s, p := osu.CalculateStepWithPeaks(m.Objs, diffOf(i, dtEZ))
		var w strings.Builder
		for _, a := range s {
			w.WriteString(attr(a) + "\n")
		}
		return w.String() + peaks(p)
	}},
	{"peaks", func(m *Map, i int) string { return peaks(osu.CalculateStrainPeaks(m.Objs, diffOf(i, 0))) }},
	{"positions", func(m *Map, i int) string { return positions(m.Objs, 2) }},
	{"parse", func(_ *Map, i int) string {
		t := text0
		if i == 1 {
			t = text1
		}
		bm, err := beatmap.ParseFromByte([]byte(t))
		if err != nil {
			return "error " + err.Error()
		}
		x := &Map{bm.HitObjects, bm.Timings}
		return fmt.Sprintf("%q %q %q %q %v %v %v %v %d %d %d %d %v %v %v %v %s", bm.Title, bm.Version, bm.Creator, bm.Audio, bm.StackLeniency, bm.SliderMultiplier, b(bm.Difficulty.GetCS()), b(bm.Difficulty.GetAR()), bm.Circles, bm.Sliders, bm.Spinners, bm.Length, b(bm.MinBPM), b(bm.MaxBPM), len(bm.Pauses), bm.FileVersion, x.Dump())
	}},
	{"build", func(_ *Map, i int) string {
		x := New(i)
		return x.Dump()
	}},
	{"pp", func(_ *Map, i int) string {
		var w strings.Builder
		for k, m := range []difficulty.Modifier{hrFL, dtEZ | difficulty.Hidden, difficulty.Relax} {
			var p osu.PPv2
			a := osu.Attributes{Aim: 2.5 + float64(i), Speed: 2, Flashlight: 1.2, SliderFactor: 0.98, Total: 5, ObjectCount: 10, Circles: 6, Sliders: 3, Spinners: 1, MaxCombo: 20}
			r := p.PPv2x(a, 15-i-k, -1, 1, 1, 1, diffOf(i, m)).Results
			w.WriteString(b(r.Aim) + b(r.Speed) + b(r.Acc) + b(r.Flashlight) + b(r.Total) + " ")
		}
		return w.String()
	}},
	{"mods", func(_ *Map, i int) string {
		in := []string{"HDHRDT", "EZFLNF"}[i]
		m := difficulty.ParseMods(in)
		return fmt.Sprint(m, m.String(), m.StringFull(), m.Compatible(), b(m.GetScoreMultiplier()))
	}},
	{"timing", func(m *Map, i int) string {
		var w strings.Builder
		for _, t := range []float64{-10, 0, 700, 1500, 1501, 9000} {
			p := m.Timings.GetPointAt(t)
			w.WriteString(b(p.GetBeatLength()) + b(p.GetRatio()) + b(m.Timings.GetVelocity(p)) + b(m.Timings.GetTickDistance(p)) + " ")
		}
		t := timing.NewTimings()
		t.AddPoint(500, -100/float64(i+1), 0, 1, 1, 4, true, false, false)
		t.AddPoint(0, 300+float64(i), 0, 1, 1, 4, false, false, false)
		t.FinalizePoints()
		return w.String() + b(t.GetPointAt(600).GetBeatLength())
	}},
	{"difficulty", func(_ *Map, i int) string {
		d := diffOf(i, hrFL)
		s := fmt.Sprint(b(d.Preempt), b(d.CircleRadius), b(d.Hit300))
		d.SetOD(float64(3 + i))
		d.SetMods(dtEZ)
		d.SetCustomSpeed(1.25)
		return s + fmt.Sprint(b(d.Preempt), b(d.CircleRadius), b(d.Hit300), b(d.GetModifiedTime(1000)), b(d.Speed), b(d.ODReal))
	}},
	{"curves", func(_ *Map, i int) string {
		p := []vector.Vector2f{vector.NewVec2f(0, 0), vector.NewVec2f(4, float32(6+i)), vector.NewVec2f(8, 0), vector.NewVec2f(6, 5)}
		z := curves.NewBezier(p)
		var w strings.Builder
		for _, t := range []float32{0, 0.3, 1} {
			w.WriteString(v2(z.PointAt(t)))
		}
		w.WriteString(fmt.Sprint(z.GetLength()))
		for _, q := range curves.ApproximateBezier(p) {
			w.WriteString(v2(q.Point1) + v2(q.Point2))
		}
		return w.String()
	}},
	{"parse-odd", func(_ *Map, i int) string {
		var w strings.Builder
		for k := 0; k < 2; k++ {
			bm, err := beatmap.ParseFromByte(odd[i+k])
			if err != nil {
				w.WriteString("error " + err.Error())
				continue
			}
			x := &Map{bm.HitObjects, bm.Timings}
			fmt.Fprintf(&w, "%q %q %q %q %v %v %v %v %d %d %d %d %v %v %v %d %s", bm.Title, bm.Tags, bm.Bg, bm.Audio, bm.StackLeniency, bm.PreviewTime, b(bm.Difficulty.GetHP()), b(bm.Difficulty.GetAR()), bm.Circles, bm.Sliders, bm.Spinners, bm.Length, b(bm.MinBPM), b(bm.MaxBPM), len(bm.Pauses), bm.FileVersion, x.Dump())
			for _, o := range bm.HitObjects {
				fmt.Fprint(&w, o.GetSounds(), o.GetComboSetHax(), o.GetColorOffset())
			}
		}
		return w.String()
	}},
	{"ratings-odd", func(m *Map, i int) string {
		a, p := osu.CalculateSingleWithPeaks(m.Objs, diffOf(i, difficulty.HalfTime|difficulty.Relax|difficulty.Flashlight))
		d := diffOf(i, difficulty.Nightcore|difficulty.DoubleTime|difficulty.Hidden|difficulty.TouchDevice)
		d.SetCustomSpeed(1.1)
		s := attr(a) + peaks(p)
		for _, a := range osu.CalculateStep(m.Objs[:len(m.Objs)-1], d) {
			s += attr(a)
		}
		return s + attr(osu.CalculateSingle(nil, d)) + attr(osu.CalculateSingle(m.Objs[1:2], d))
	}},
	{"mods-odd", func(_ *Map, i int) string {
		s := ""
		for _, in := range []string{"NCPFHD", "DCRXV2FLx", "NFSOTDzzEZ"}[i : i+2] {
			m := difficulty.ParseMods(in)
			s += fmt.Sprint(m, m.String(), m.StringFull(), m.Compatible(), b(m.GetScoreMultiplier()))
		}
		m := difficulty.Modifier(1<<32 - 1)
		return s + m.String() + fmt.Sprint(m.StringFull())
	}},
	{"paths", func(_ *Map, i int) string {
		var w strings.Builder
		f := float32(i)
		p := []vector.Vector2f{vector.NewVec2f(0, f), vector.NewVec2f(2, 3), vector.NewVec2f(4, 0), vector.NewVec2f(4, 0), vector.NewVec2f(5, 1), vector.NewVec2f(5, 2), vector.NewVec2f(6, 2), vector.NewVec2f(6, 1), vector.NewVec2f(7, 1), vector.NewVec2f(7, 2)}
		for k, n := range []int{3, 10, 2, 5} {
			c := curves.NewMultiCurveT([]string{"P", "B", "C", "L"}[k], p[:n], 2)
			for _, t := range []float32{0, 0.4, 1} {
				w.WriteString(v2(c.PointAt(t)) + fmt.Sprint(c.GetStartAngleAt(t), c.GetEndAngleAt(t)))
			}
			fmt.Fprint(&w, c.GetLength(), c.GetStartAngle(), c.GetEndAngle(), len(c.GetLines()))
		}
		a := curves.NewCirArc(p[0], p[1], p[2])
		fmt.Fprint(&w, a.GetLength(), v2(a.PointAt(0.5)), a.GetStartAngle(), a.GetEndAngle())
		return w.String()
	}},
	{"long-paths", func(_ *Map, i int) string {
		var w strings.Builder
		for _, n := range []int{18, 36} {
			p := make([]vector.Vector2f, n)
			for k := range p {
				p[k] = vector.NewVec2f(float32(2*k), float32(i*k%3)/8)
			}
			c := curves.NewMultiCurveT("B", p, 30)
			for _, t := range []float32{0, 0.4, 1} {
				w.WriteString(v2(c.PointAt(t)) + fmt.Sprint(c.GetStartAngleAt(t)))
			}
			z := curves.NewBezier(p[:6])
			fmt.Fprint(&w, c.GetLength(), len(c.GetLines()), v2(z.PointAt(0.3)), z.GetLength())
		}
		return w.String()
	}},
}

// Workload is one closed concurrent system.
type Workload struct {
	Name    string
	Shared  bool
	Threads []int // op per thread
}

// State is what one execution works on.
type State struct {
	Maps []*Map
}

// Prepare builds the objects of one execution and its thread bodies; out[i] receives what thread i saw.
func (w Workload) Prepare(out []string) (*State, []func()) {
	s := &State{}
	var bodies []func()
	if w.Shared {
		s.Maps = []*Map{New(0)}
	}
	for i, o := range w.Threads {
		i, o := i, o
		k := 0
		if !w.Shared {
			k = i % 2
			s.Maps = append(s.Maps, New(k))
		}
		m := s.Maps[len(s.Maps)-1]
		bodies = append(bodies, func() { out[i] = Ops[o].Run(m, k) })
	}
	return s, bodies
}

func (s *State) Dump() string {
	var w strings.Builder
	for _, m := range s.Maps {
		w.WriteString(m.Dump())
		w.WriteByte('\n')
	}
	return w.String()
}

func idx(n string) int {
	for i, o := range Ops {
		if o.Name == n {
			return i
		}
	}
	panic(n)
}

// Pairs are the two-thread workloads: every unordered pair of operations (including an operation with
// itself) on different maps, and every pair of operations that touch the map on one shared map.
func Pairs() []Workload {
	var out []Workload
	plain := Ops[:idx("parse-odd")]
	onMap := map[int]bool{idx("single+HRFL"): true, idx("stepPeaks+EZDT"): true, idx("peaks"): true, idx("positions"): true, idx("timing"): true}
	for i := range plain {
		for j := i; j < len(plain); j++ {
			out = append(out, Workload{"own/" + Ops[i].Name + "/" + Ops[j].Name, false, []int{i, j}})
			if onMap[i] && onMap[j] {
				out = append(out, Workload{"shared/" + Ops[i].Name + "/" + Ops[j].Name, true, []int{i, j}})
			}
		}
	}
	for _, n := range [][3]string{{"own", "parse-odd", "parse-odd"}, {"own", "parse", "parse-odd"}, {"own", "build", "parse-odd"}, {"own", "ratings-odd", "ratings-odd"}, {"shared", "ratings-odd", "ratings-odd"}, {"shared", "positions", "ratings-odd"}, {"shared", "single+HRFL", "ratings-odd"}, {"own", "stepPeaks+EZDT", "ratings-odd"}, {"own", "pp", "ratings-odd"}, {"own", "mods-odd", "mods-odd"}, {"own", "mods", "mods-odd"}, {"own", "paths", "paths"}, {"own", "curves", "paths"}, {"own", "long-paths", "long-paths"}} {
		out = append(out, Workload{n[0] + "/" + n[1] + "/" + n[2], n[0] == "shared", []int{idx(n[1]), idx(n[2])}})
	}
	return out
}

// Triples are the three-thread workloads.
func Triples() []Workload {
	t := func(shared bool, n ...string) Workload {
		w := Workload{Shared: shared, Name: "own3"}
		if shared {
			w.Name = "shared3"
		}
		for _, x := range n {
			w.Threads = append(w.Threads, idx(x))
			w.Name += "/" + x
		}
		return w
	}
	return []Workload{
		t(true, "single+HRFL", "positions", "stepPeaks+EZDT"),
		t(true, "peaks", "positions", "timing"),
		t(false, "build", "single+HRFL", "build"),
		t(false, "mods", "pp", "difficulty"),
		t(false, "curves", "build", "curves"),
		t(false, "pp", "pp", "pp"),
		t(false, "mods", "mods", "mods"),
	}
}
