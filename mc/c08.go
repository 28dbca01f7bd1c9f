package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/timing"

	"vmc/core"
	"vmc/ref"
)

// parseTP is the independent reading of a timing line.
func parseTP(l string) ref.TP {
	f := strings.Split(l, ",")
	g := func(i int) (float64, bool) {
		if i >= len(f) {
			return 0, false
		}
		v, _ := strconv.ParseFloat(strings.TrimSpace(f[i]), 64)
		return v, true
	}
	p := ref.TP{Sig: 4, Index: 1, Vol: 1}
	p.Time, _ = g(0)
	p.BeatLen, _ = g(1)
	if v, ok := g(2); ok && v != 0 {
		p.Sig = int(v)
	}
	if v, ok := g(3); ok {
		p.Set = int(v)
	}
	if v, ok := g(4); ok {
		p.Index = int(v)
	}
	if v, ok := g(5); ok {
		p.Vol = v / 100
	}
	if v, ok := g(6); ok {
		p.Inh = v == 0
	}
	if v, ok := g(7); ok {
		p.Kiai, p.OmitF = int(v)&1 != 0, int(v)&8 != 0
	}
	return p
}

func eqF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func checkTimings(x *core.X, tim *timing.Timings, pts []ref.TP, sm, tr float64) {
	m := ref.NewTiming(pts, sm, tr)
	x.Trace(1)
	for _, p := range pts {
		for _, t := range []float64{p.Time, math.Nextafter(p.Time, -1e300), math.Nextafter(p.Time, 1e300), p.Time - 1, p.Time + 1} {
			x.Op(2)
			comparePoint(x, fmt.Sprintf("point at %v", t), tim, m, tim.GetPointAt(t), m.At(t))
			comparePoint(x, fmt.Sprintf("uninherited point at %v", t), tim, m, tim.GetOriginalPointAt(t), m.OrigAt(t))
		}
	}
	for _, t := range []float64{-1e12, 1e12} {
		comparePoint(x, fmt.Sprintf("point at %v", t), tim, m, tim.GetPointAt(t), m.At(t))
		comparePoint(x, fmt.Sprintf("uninherited point at %v", t), tim, m, tim.GetOriginalPointAt(t), m.OrigAt(t))
	}
	x.Assert(tim.HasPoints() == (len(pts) > 0), "HasPoints is %v", tim.HasPoints())
}

func comparePoint(x *core.X, at string, tim *timing.Timings, m *ref.Timing, g timing.ControlPoint, w ref.TP) {
	if !eqF(g.Time, w.Time) || !eqF(g.GetRawBeatLength(), w.BeatLen) {
		x.Fail("%s: in force is the one at %v with beat length %v, want %v with %v", at, g.Time, g.GetRawBeatLength(), w.Time, w.BeatLen)
	}
	x.Assert(eqF(g.GetBaseBeatLength(), w.Base), "%s: base beat length %v, want %v", at, g.GetBaseBeatLength(), w.Base)
	x.Assert(ref.Close(g.GetRatio(), w.Ratio(), 1e-6), "%s: speed ratio %v, want %v", at, g.GetRatio(), w.Ratio())
	x.Assert(ref.Close(g.GetBeatLength(), w.Effective(), 1e-6), "%s: beat length %v, want %v", at, g.GetBeatLength(), w.Effective())
	x.Assert(g.Inherited == w.Inh && g.Kiai == w.Kiai && g.OmitFirstBarLine == w.OmitF && g.Signature == w.Sig && g.SampleSet == w.Set && g.SampleIndex == w.Index && eqF(g.SampleVolume, w.Vol), "%s: flags %+v, want %+v", at, g, w)
	x.Assert(ref.Close(tim.GetVelocity(g), m.Velocity(w), 1e-6), "%s: velocity %v, want %v", at, tim.GetVelocity(g), m.Velocity(w))
	x.Assert(ref.Close(tim.GetTickDistance(g), m.TickDistance(w), 1e-6), "%s: tick distance %v, want %v", at, tim.GetTickDistance(g), m.TickDistance(w))
	if e := w.Effective(); e > 1e-3 && e < 1e6 {
		x.Assert(ref.Close(tim.GetSliderTimeP(g, 123), 123*e/(100*m.SM), 1e-5), "%s: slider time %v, want %v", at, tim.GetSliderTimeP(g, 123), 123*e/(100*m.SM))
	}
}

func init() {
	register("C08", "one execution = one sequence of timing points, queried around every point; distinct sequences are states", func(th bool) []core.Scenario {
		lines := []string{
			"0,500,4,2,1,60,1,0", "0,300", "1000,-100,4,2,1,60,0,0", "1000,-50,3,1,2,40,0,1", "1000.5,250.25,4,1,0,100,1,8", "500,-5,4,2,1,60,0,0", "2000,-2000,4,2,1,60,0,9",
			"-300,400,0,3", "1500,NaN,4,2,1,60,0,0", "700,0,4", "1000,600,5,2,1,60,1,1", "0,-25,4,1,1,50,0,0", "2000,-133.33", " 1200.25 , -80 , 4 , 2 , 1 , 60 , 0 , 0 ", "800,NaN,4,2,1,60,1,0",
		}
		n := 3
		if th {
			n = 4
		}
		fromText := func(x *core.X, ls []string, sm, tr float64) {
			t := base()
			t.Times = ls
			t.Diff[4], t.Diff[5] = "SliderMultiplier:"+f64(sm), "SliderTickRate:"+f64(tr)
			x.Desc(func() string { return strings.Join(ls, " / ") })
			x.State(core.NewH().S(strings.Join(ls, "|")).Sum())
			var pts []ref.TP
			min, max := math.Inf(1), 0.0
			for _, l := range ls {
				p := parseTP(l)
				pts = append(pts, p)
				if p.BeatLen >= 0 {
					min, max = math.Min(min, 60000/p.BeatLen), math.Max(max, 60000/p.BeatLen)
				}
			}
			bm := parse(x, t.Text())
			x.Assert(eqF(bm.MinBPM, min) && eqF(bm.MaxBPM, max), "BPM range %v..%v, want %v..%v", bm.MinBPM, bm.MaxBPM, min, max)
			checkTimings(x, bm.Timings, pts, sm, tr)
		}
		type letter struct {
			t, b float64
			inh  bool
		}
		var letters []letter
		for _, t := range []float64{0, 100, 100.5, -50} {
			for _, b := range []float64{400, -100, -25, -3000, math.NaN()} {
				letters = append(letters, letter{t, b, b < 0})
			}
		}
		letters = append(letters, letter{0, -200, false}, letter{100, 700, true}, letter{100, 0, false})
		scs := []core.Scenario{
			{Name: "lines", Bound: fmt.Sprintf("every sequence of %d timing lines out of %d", n, len(lines)), Body: func(x *core.X) {
				ls := make([]string, n)
				for i := range ls {
					ls[i] = lines[x.Choose(len(lines))]
				}
				fromText(x, ls, 1.4, 2)
			}},
			{Name: "trailing-fields", Bound: "one line cut to 2..9 fields x values of every optional field x blanks", Body: func(x *core.X) {
				f := []string{"10", "450"}
				opt := [][]string{{"4", "3", "0", "7"}, {"0", "1", "3"}, {"0", "1", "99"}, {"0", "5", "70", "100"}, {"1", "0"}, {"0", "1", "8", "9", "6"}}
				k := x.Choose(7)
				for i := 0; i < k; i++ {
					f = append(f, opt[i][x.Choose(len(opt[i]))])
				}
				if k == 6 && x.Bool() {
					f = append(f, "junk")
				}
				sep := []string{",", " , "}[x.Choose(2)]
				if k == 6 && sep == " , " && !th {
					return
				}
				fromText(x, []string{"0,500", strings.Join(f, sep)}, 1, 1)
			}},
			{Name: "points", Bound: fmt.Sprintf("every sequence of up to %d points over %d (time, beat length, inherited) letters, built through the API", n, len(letters)), Body: func(x *core.X) {
				k := 1 + x.Choose(n)
				tim := timing.NewTimings()
				tim.SliderMult, tim.TickRate = 1.7, 2
				var pts []ref.TP
				for i := 0; i < k; i++ {
					l := letters[x.Choose(len(letters))]
					pts = append(pts, ref.TP{Time: l.t, BeatLen: l.b, Inh: l.inh, Set: i, Index: i + 1, Vol: 0.5, Sig: 4})
					tim.AddPoint(l.t, l.b, i, i+1, 0.5, 4, l.inh, false, false)
				}
				x.Desc(func() string { return fmt.Sprintf("%+v", pts) })
				x.State(core.NewH().S(fmt.Sprint(pts)).Sum())
				tim.FinalizePoints()
				checkTimings(x, tim, pts, 1.7, 2)
			}},
			{Name: "ladder", Bound: "1..130 points in 5 arrangements with 1..4 points per time and every k-th inherited", Body: func(x *core.X) {
				k := 1 + x.Choose(130)
				arr := x.Choose(5)
				per := 1 + x.Choose(4)
				red := 1 + x.Choose(4)
				tim := timing.NewTimings()
				tim.SliderMult, tim.TickRate = 1.2, 1
				var pts []ref.TP
				for i := 0; i < k; i++ {
					j := i
					switch arr {
					case 1:
						j = k - 1 - i
					case 2:
						j = (i * 7) % k
					case 3:
						j = i ^ 1
					case 4:
						j = 0
					}
					p := ref.TP{Time: float64(j / per * 10), BeatLen: 300 + float64(i), Index: i, Vol: 1, Sig: 4}
					if i%red != 0 {
						p.Inh, p.BeatLen = true, -20-float64(i)*3
					}
					pts = append(pts, p)
					tim.AddPoint(p.Time, p.BeatLen, 0, i, 1, 4, p.Inh, false, false)
				}
				x.Desc(func() string {
					return fmt.Sprint(k, " points, arrangement ", arr, " per time ", per, " red every ", red)
				})
				x.State(core.NewH().I(k).I(arr).I(per).I(red).Sum())
				tim.FinalizePoints()
				checkTimings(x, tim, pts, 1.2, 1)
			}},
			{Name: "long-ladder", Bound: "131..600 (quick: every 7th) points in 3 arrangements at large and fractional times", Body: func(x *core.X) {
				k := 131 + x.Choose(470)
				if !th && k%7 != 0 {
					return
				}
				arr := x.Choose(3)
				off := []float64{0, -5e6, 86400000.25}[x.Choose(3)]
				tim := timing.NewTimings()
				tim.SliderMult, tim.TickRate = 1.2, 1
				var pts []ref.TP
				for i := 0; i < k; i++ {
					j := []int{i, k - 1 - i, (i * 211) % k}[arr]
					p := ref.TP{Time: off + float64(j/2)*0.75, BeatLen: 300 + float64(i%50), Index: i, Vol: 1, Sig: 4}
					if i%3 != 0 {
						p.Inh, p.BeatLen = true, -20-float64(i%90)*3
					}
					pts = append(pts, p)
					tim.AddPoint(p.Time, p.BeatLen, 0, i, 1, 4, p.Inh, false, false)
				}
				x.Desc(func() string { return fmt.Sprint(k, " points, arrangement ", arr, " from ", off) })
				x.State(core.NewH().I(k).I(arr).F(off).Sum())
				tim.FinalizePoints()
				checkTimings(x, tim, pts, 1.2, 1)
			}},
			{Name: "ratios", Bound: "every inherited ratio from -0.5 to -1200 in steps of 0.5 (thorough 0.1) x 3 base beat lengths x 2 slider multipliers", Body: func(x *core.X) {
				st := 0.5
				if th {
					st = 0.1
				}
				r := -st * float64(1+x.Choose(int(1200/st)))
				b := []float64{500, 333.33, 1200.5}[x.Choose(3)]
				sm := []float64{1.4, 3.21}[x.Choose(2)]
				tim := timing.NewTimings()
				tim.SliderMult, tim.TickRate = sm, 2
				pts := []ref.TP{{Time: 0, BeatLen: b, Index: 1, Vol: 1, Sig: 4}, {Time: 100, BeatLen: r, Inh: true, Index: 1, Vol: 1, Sig: 4}, {Time: 200, BeatLen: r, Index: 1, Vol: 1, Sig: 4}}
				for _, p := range pts {
					tim.AddPoint(p.Time, p.BeatLen, 0, 1, 1, 4, p.Inh, false, false)
				}
				x.Desc(func() string { return fmt.Sprintf("%+v multiplier %v", pts, sm) })
				x.State(core.NewH().F(r).F(b).F(sm).Sum())
				tim.FinalizePoints()
				checkTimings(x, tim, pts, sm, 2)
			}},
			{Name: "multipliers", Bound: "slider multiplier x tick rate x beat length x inherited ratio grid", Body: func(x *core.X) {
				sm := []float64{0.4, 1, 1.4, 2.3, 3.6}[x.Choose(5)]
				tr := []float64{0.5, 1, 1.33, 2, 3, 4, 8}[x.Choose(7)]
				b := []string{"300", "500.25", "1000", "60000", "6", "0.5"}[x.Choose(6)]
				r := []string{"-100", "-10", "-9.99", "-1000", "-1000.1", "-1", "-33.333", "-250", "-0.0001"}[x.Choose(9)]
				fromText(x, []string{"0," + b + ",4,1,1,100,1,0", "500," + r + ",4,1,1,100,0,0"}, sm, tr)
			}},
			{Name: "default-point", Bound: "the default point and the scoring distance", Body: func(x *core.X) {
				tim := timing.NewTimings()
				tim.SliderMult = []float64{1.4, 2}[x.Choose(2)]
				tim.TickRate = []float64{1, 4}[x.Choose(2)]
				d := tim.GetDefault()
				x.Trace(1)
				x.Op(2)
				x.Assert(d.GetBeatLength() == 1000 && d.GetBaseBeatLength() == 1000 && d.GetRatio() == 1 && d.Signature == 4 && !d.Inherited, "default point %+v", d)
				x.Assert(ref.Close(tim.GetScoringDistance(), 100*tim.SliderMult/tim.TickRate, 1e-9), "scoring distance %v", tim.GetScoringDistance())
				x.Assert(!tim.HasPoints(), "a new timing has points")
			}},
		}
		return scs
	})
}
