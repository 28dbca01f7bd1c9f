package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
	"vmc/ref"
)

type mods = difficulty.Modifier

// Tmpl is a beatmap file in pieces.
type Tmpl struct {
	Version                                 string
	General, Meta, Diff, Events, Times, Obj []string
}

func (t *Tmpl) sections() [][2]interface{} {
	return [][2]interface{}{{"General", t.General}, {"Metadata", t.Meta}, {"Difficulty", t.Diff}, {"Events", t.Events}, {"TimingPoints", t.Times}, {"HitObjects", t.Obj}}
}

func (t *Tmpl) Lines() []string {
	out := []string{"osu file format v" + t.Version, ""}
	for _, s := range t.sections() {
		out = append(out, "["+s[0].(string)+"]")
		out = append(out, s[1].([]string)...)
		out = append(out, "")
	}
	return out
}

func (t *Tmpl) Text() string { return strings.Join(t.Lines(), "\n") }

// tmplOf takes a file apart; sections which do not bear on it are dropped.
func tmplOf(text string) *Tmpl {
	t := &Tmpl{}
	cur := ""
	for i, l := range strings.Split(strings.ReplaceAll(text, "\r", ""), "\n") {
		switch {
		case i == 0:
			t.Version = strings.TrimPrefix(l, "osu file format v")
		case strings.HasPrefix(l, "["):
			cur = l
		case l == "":
		default:
			if dst := map[string]*[]string{"[General]": &t.General, "[Metadata]": &t.Meta, "[Difficulty]": &t.Diff, "[Events]": &t.Events, "[TimingPoints]": &t.Times, "[HitObjects]": &t.Obj}[cur]; dst != nil {
				*dst = append(*dst, l)
			}
		}
	}
	return t
}

// base is a small complete beatmap.
func base() *Tmpl {
	return &Tmpl{Version: "14",
		General: []string{"AudioFilename: audio.mp3", "PreviewTime: 1234", "StackLeniency: 0.7", "Mode: 0"},
		Meta:    []string{"Title:T", "Artist:A", "Creator:C", "Version:V"},
		Diff:    []string{"HPDrainRate:5", "CircleSize:4", "OverallDifficulty:8", "ApproachRate:9", "SliderMultiplier:1.4", "SliderTickRate:1"},
		Events:  []string{"0,0,\"bg.jpg\",0,0"},
		Times:   []string{"0,500,4,2,1,60,1,0"},
	}
}

func parse(x *core.X, text string) *beatmap.BeatMap {
	bm, err := beatmap.ParseFromByte([]byte(text))
	x.Op(1)
	if err != nil {
		x.Fail("a well-formed beatmap was rejected: %v\n%s", err, clip(text))
	}
	return bm
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

func f64(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

type obsW struct{ b strings.Builder }

func (o *obsW) f(format string, a ...interface{}) { fmt.Fprintf(&o.b, format, a...) }

var obsMods = []mods{0, difficulty.Easy, difficulty.HardRock}

func bits(v float64) string { return strconv.FormatUint(math.Float64bits(v), 16) }
func vbits(v vector.Vector2f) string {
	return strconv.FormatUint(uint64(math.Float32bits(v.X))<<32|uint64(math.Float32bits(v.Y)), 16)
}

func obsPoint(p timing.ControlPoint) string {
	return fmt.Sprint(bits(p.Time), bits(p.GetRawBeatLength()), " ", bits(p.GetBaseBeatLength()), " ", bits(p.GetBeatLength()), " ", bits(p.GetRatio()), " ", p.SampleSet, p.SampleIndex, p.SampleVolume, p.Signature, p.Inherited, p.Kiai, p.OmitFirstBarLine)
}

func obsDiff(d *difficulty.Difficulty) string {
	return fmt.Sprint(d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), " ", bits(d.Preempt), bits(d.CircleRadius), " ", d.Mods, bits(d.Hit50), bits(d.Hit100), bits(d.Hit300), bits(d.HPMod), bits(d.SpinnerRatio), bits(d.Speed), bits(d.ARReal), bits(d.ODReal), bits(d.CustomSpeed))
}

func obsObject(o objects.IHitObject) string {
	var w obsW
	w.f("%d t=%s..%s dur=%s p=%s e=%s id=%d set=%d hax=%d col=%d nc=%v snd=%v", o.GetType(), bits(o.GetStartTime()), bits(o.GetEndTime()), bits(o.GetDuration()),
		vbits(o.GetStartPosition()), vbits(o.GetEndPosition()), o.GetID(), o.GetComboSet(), o.GetComboSetHax(), o.GetColorOffset(), o.IsNewCombo(), o.GetSounds())
	w.f(" cn=%d", comboNumber(o))
	for _, m := range obsMods {
		w.f(" s%d %s %s", o.GetStackIndex(m), vbits(o.GetStackedStartPositionMod(m)), vbits(o.GetStackedEndPositionMod(m)))
	}
	if s, ok := o.(*objects.Slider); ok {
		w.f(" rep=%d pts=", s.RepeatCount)
		for _, p := range s.ScorePoints {
			w.f("%s/%v,", bits(p.Time), p.IsReverse)
		}
		d := s.GetEndTime() - s.GetStartTime()
		if d < 1e9 {
			for i := -1; i <= 9; i++ {
				w.f(" %s", vbits(s.GetPositionAt(s.GetStartTime()+d*float64(i)/8)))
			}
		}
		w.f(" tp %s", obsPoint(s.TPoint))
	}
	return w.b.String()
}

func comboNumber(o objects.IHitObject) int {
	switch v := o.(type) {
	case *objects.Circle:
		return v.ComboNumber
	case *objects.Slider:
		return v.ComboNumber
	case *objects.Spinner:
		return v.ComboNumber
	}
	return -1
}

func obsHeader(b *beatmap.BeatMap) string {
	var w obsW
	w.f("v%d|%q|%q|%q|%q|%q|%q|%q|%q|%d|%v|%q|%q|%d|%d|%d\n", b.FileVersion, b.Artist, b.ArtistUnicode, b.Title, b.TitleUnicode, b.Version, b.Creator, b.Source, b.Tags, b.Mode, b.StackLeniency, b.Audio, b.Bg, b.SetID, b.MapID, b.PreviewTime)
	w.f("%v %v %v\n", bits(b.SliderMultiplier), bits(b.Timings.SliderMult), bits(b.Timings.TickRate))
	w.f("%s\n", obsDiff(b.Difficulty))
	for _, p := range b.Pauses {
		w.f("pause %v %v\n", p.StartTime, p.EndTime)
	}
	return w.b.String()
}

var obsGrid = []float64{-1e9, -1000.5, -1, 0, 0.5, 1, 100, 250, 499, 500, 501, 750, 999, 1000, 1001, 1500, 2000, 2001, 3000, 4000, 5000, 8000, 10000, 20000, 1e9}

func obsTiming(b *beatmap.BeatMap) string {
	var w obsW
	w.f("bpm %s %s has=%v\n", bits(b.MinBPM), bits(b.MaxBPM), b.Timings.HasPoints())
	if b.Timings.HasPoints() {
		for _, t := range obsGrid {
			w.f("%v: %s | %s\n", t, obsPoint(b.Timings.GetPointAt(t)), obsPoint(b.Timings.GetOriginalPointAt(t)))
		}
	}
	return w.b.String()
}

// obs renders everything a user of the parsed beatmap can observe.
func obs(b *beatmap.BeatMap) string {
	var w obsW
	w.b.WriteString(obsHeader(b))
	w.b.WriteString(obsTiming(b))
	w.f("len %d c%d s%d sp%d n%d\n", b.Length, b.Circles, b.Sliders, b.Spinners, len(b.HitObjects))
	for _, o := range b.HitObjects {
		w.b.WriteString(obsObject(o))
		w.b.WriteByte('\n')
	}
	return w.b.String()
}

// diffLine returns the first differing lines of two texts.
func diffLine(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		var p, q string
		if i < len(la) {
			p = la[i]
		}
		if i < len(lb) {
			q = lb[i]
		}
		if p != q {
			return fmt.Sprintf("line %d:\n  %s\n  %s", i, p, q)
		}
	}
	return "equal"
}

func kindOf(o objects.IHitObject) ref.Kind {
	switch o.(type) {
	case *objects.Slider:
		return ref.Slider
	case *objects.Spinner:
		return ref.Spinner
	}
	return ref.Circle
}

func rv(v vector.Vector2f) ref.V { return ref.V{X: v.X, Y: v.Y} }

// model converts implementation objects into what the difficulty model needs, using only
// the public positions and scoring points (decided by C09-C14).
func model(objs []objects.IHitObject, m mods) []*ref.PObj {
	out := make([]*ref.PObj, len(objs))
	for i, o := range objs {
		p := &ref.PObj{Kind: kindOf(o), Start: o.GetStartTime(), End: o.GetEndTime(), P: rv(o.GetStackedStartPositionMod(m)), E: rv(o.GetStackedEndPositionMod(m))}
		if s, ok := o.(*objects.Slider); ok {
			p.Spans = int(s.RepeatCount)
			for _, t := range s.ScorePoints {
				p.Points = append(p.Points, ref.Nested{Time: t.Time, Reverse: t.IsReverse})
			}
			p.At = func(t float64) ref.V { return rv(s.GetStackedPositionAtMod(t, m)) }
		}
		out[i] = p
	}
	return out
}

// rate runs the reference on the implementation's objects.
func rate(objs []objects.IHitObject, d *difficulty.Difficulty, bias ref.Bias, steps bool) *ref.Result {
	return ref.Rate(model(objs, d.Mods), d.CircleRadius, d.Hit300, rateOf(d), uint64(d.Mods), bias, steps)
}

func rateOf(d *difficulty.Difficulty) float64 {
	return ref.Settings{Mods: uint64(d.Mods), Custom: d.CustomSpeed}.Rate()
}

func newDiff(hp, cs, od, ar float64, m mods) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(hp, cs, od, ar)
	d.SetMods(m)
	return d
}

func attrStr(a osu.Attributes) string {
	return fmt.Sprintf("total %v aim %v sf %v speed %v fl %v n%d c%d s%d sp%d mc%d", a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight, a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

func attrBits(a osu.Attributes) string {
	return fmt.Sprint(bits(a.Total), bits(a.Aim), bits(a.SliderFactor), bits(a.Speed), bits(a.Flashlight), " ", a.ObjectCount, " ", a.Circles, " ", a.Sliders, " ", a.Spinners, " ", a.MaxCombo)
}

func refStr(a ref.Attr) string {
	return fmt.Sprintf("total %v aim %v sf %v speed %v fl %v n%d c%d s%d sp%d mc%d", a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight, a.Objects, a.Circles, a.Sliders, a.Spinners, a.MaxCombo)
}

// mkObj builds a hit object through the public factory.
func mkObj(line string) objects.IHitObject { return objects.CreateObject(strings.Split(line, ",")) }

// mkTimings builds timing points through the public API.
func mkTimings(sm, tr float64, pts ...[2]float64) *timing.Timings {
	t := timing.NewTimings()
	t.SliderMult, t.TickRate = sm, tr
	for _, p := range pts {
		t.AddPoint(p[0], p[1], 0, 1, 1, 4, p[1] < 0, false, false)
	}
	t.FinalizePoints()
	return t
}

// deBruijn returns a sequence containing every word of length n over k letters.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}
