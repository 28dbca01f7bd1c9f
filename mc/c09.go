package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/objects"

	"vmc/core"
	"vmc/ref"
)

// checkScorePoints compares a timed slider with the model; L is its path length.
func checkScorePoints(x *core.X, s *objects.Slider, tm *ref.Timing, start, L float64, spans int, path string) {
	rel := 2e-5 // of single precision path lengths
	if path[0] == 'L' && strings.Count(path, "|") == 1 {
		rel = 1e-6 + 1.6e-5/math.Max(L, 1e-3)
	}
	x.Trace(1)
	var why string
	for _, bias := range []float64{0, 2e-3, -2e-3} {
		end, pts := tm.SliderPoints(start, L, spans, bias)
		if why = scoreMismatch(s, start, end, pts, spans, rel); why == "" {
			return
		}
	}
	x.Fail("%s", why)
}

func scoreMismatch(s *objects.Slider, start, end float64, pts []ref.Nested, spans int, rel float64) string {
	tol := rel*math.Abs(end-start) + 1e-4 + 1e-9*math.Abs(start)
	near := func(a, b float64) bool { return a == b || math.Abs(a-b) <= tol }
	if s.GetStartTime() != start {
		return fmt.Sprintf("start time %v, want %v", s.GetStartTime(), start)
	}
	if !near(s.GetEndTime(), end) || !near(s.GetDuration(), end-start) {
		return fmt.Sprintf("end time %v (duration %v), want %v", s.GetEndTime(), s.GetDuration(), end)
	}
	if len(s.ScorePoints) != len(pts) {
		return fmt.Sprintf("%d scoring points %v, want %d %v", len(s.ScorePoints), s.ScorePoints, len(pts), pts)
	}
	// the ticks before the first reverse do not depend on the (single precision) length of the path
	for i := 0; i < len(pts) && spans > 1 && pts[i].Time < start+(end-start)/float64(spans)*0.999-1e-3; i++ {
		if g, w := s.ScorePoints[i].Time, pts[i].Time; math.Abs(g-w) > 1e-8*math.Abs(end-start)/float64(spans)+1e-12*math.Abs(start)+1e-9 && g != w {
			return fmt.Sprintf("tick %d at %v, want %v", i, g, w)
		}
	}
	for i, g := range s.ScorePoints {
		if !near(g.Time, pts[i].Time) {
			return fmt.Sprintf("scoring point %d at %v, want %v (got %v, want %v)", i, g.Time, pts[i].Time, s.ScorePoints, pts)
		}
		if i > 0 && g.Time < s.ScorePoints[i-1].Time {
			return fmt.Sprintf("scoring points are not sorted by time: %v", s.ScorePoints)
		}
		if g.Time < s.GetStartTime()-tol || g.Time > s.GetEndTime()+tol {
			return fmt.Sprintf("scoring point %d at %v lies outside the slider %v..%v", i, g.Time, s.GetStartTime(), s.GetEndTime())
		}
	}
	// reverse marks: equal up to the order of simultaneous points
	for i := 0; i < len(pts); {
		j, a, b := i, 0, 0
		for ; j < len(pts) && (j == i || pts[j].Time-pts[j-1].Time <= 2*tol); j++ {
			if pts[j].Reverse {
				a++
			}
			if s.ScorePoints[j].IsReverse {
				b++
			}
		}
		if a != b {
			return fmt.Sprintf("reverse marks differ around %v: got %v, want %v", pts[i].Time, s.ScorePoints, pts)
		}
		i = j
	}
	return ""
}

// pathKinds are paths of every type whose natural length is longer and shorter than the lengths used.
var pathKinds = []struct {
	path  string
	empty bool
}{
	{"L|300:100", false}, {"L|110:100", false}, {"B|150:20|200:180|260:100", false}, {"P|150:60|200:100", false}, {"C|150:60|200:100|260:140", false},
	{"L|140:100|140:100|140:180", false}, {"B|140:100|140:100|140:180", false}, {"L|100:100", true}, {"B|100:100|100:100", true}, {"Q|200:100", true}, {"P|150:100|200:100", false}, {"P|100:100|200:100|100:100", false},
}

func init() {
	register("C09", "one execution = one slider under one timing; distinct (timing, length, spans, path) are states, scoring points are compared one by one", func(th bool) []core.Scenario {
		lengths := []float64{0.5, 1, 9.9, 20, 35, 69.99, 70, 70.01, 100, 137, 140, 142, 143.5, 200, 280, 283, 420, 700, 1003}
		spansA := []int{1, 2, 3, 4, 5, 8}
		if th {
			lengths = nil
			for l := 1.0; l < 720; l += 3.1 {
				lengths = append(lengths, l)
			}
			lengths = append(lengths, 0.1, 0.5, 70, 140, 210, 280, 1000, 2000)
			spansA = []int{1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 20, 33}
		}
		timings := [][][2]float64{
			{{0, 500}}, {{0, 333.33}}, {{0, 500}, {900, -50}}, {{0, 500}, {1000, -133.33}}, {{0, 500}, {1000, -10}}, {{0, 500}, {1001, -50}}, {{0, 300}, {500, -200}, {800, 600}},
			{{1000, 400}, {1000, -70}}, {{0, 500}, {1000, math.NaN()}}, {{0, 500}, {400, -50}, {1000, 250}}, {{2000, 700}}, {{0, 500}, {800, -1000}}, {{0, 500}, {800, -5}}, {{0, 500}, {999.5, -80}, {1000.25, -40}}, {{0, 0}}, {{0, 5}}, {{0, 500}, {400, math.NaN()}, {1000, -100}}, {{0, math.NaN()}, {500, -50}},
		}
		one := func(x *core.X, start, sm, tr float64, tp [][2]float64, path string, empty bool, spans int, length float64) {
			line := sliderLine(100, 100, start, path, spans, length)
			x.Desc(func() string { return fmt.Sprintf("%s with timing %v, multiplier %v, tick rate %v", line, tp, sm, tr) })
			x.State(core.NewH().S(line).S(fmt.Sprint(tp, sm, tr)).Sum())
			s := mkObj(line).(*objects.Slider)
			s.SetTiming(mkTimings(sm, tr, tp...))
			x.Op(2)
			L := length
			if empty || length <= 0 {
				L = 0
			}
			if spans < 1 {
				spans = 1
			}
			checkScorePoints(x, s, refTiming(sm, tr, tp...), start, L, spans, path)
		}
		return []core.Scenario{
			{Name: "lengths", Bound: fmt.Sprintf("%d lengths x %d span counts x %d timings x multipliers {0.4,1.4,2,3.6} x tick rates {0.5,1,1.5,3,8}", len(lengths), len(spansA), len(timings)), Body: func(x *core.X) {
				tp := timings[x.Choose(len(timings))]
				sm := []float64{1.4, 0.4, 2, 3.6}[x.Choose(4)]
				tr := []float64{1, 0.5, 1.5, 3, 8}[x.Choose(5)]
				sp := spansA[x.Choose(len(spansA))]
				one(x, 1000, sm, tr, tp, "L|300:100", false, sp, lengths[x.Choose(len(lengths))])
			}},
			{Name: "paths", Bound: "every kind of path (also degenerate and unknown ones) x lengths incl. 0 and negative x spans incl. 0 and negative x timings x start times around the points", Body: func(x *core.X) {
				p := pathKinds[x.Choose(len(pathKinds))]
				tp := timings[x.Choose(len(timings))]
				l := []float64{70, 15, 300, 0, -5}[x.Choose(5)]
				sp := []int{2, 1, 0, -3, 3, 6}[x.Choose(6)]
				st := []float64{1000, 999, 1000.5, 799.5, -200, 0, 400, 2000, 61234}[x.Choose(9)]
				one(x, st, 1.4, 2, tp, p.path, p.empty, sp, l)
			}},
			{Name: "spans-ladder", Bound: "every span count up to 70 x short and long spans (simultaneous final point and reverse included)", Body: func(x *core.X) {
				sp := 1 + x.Choose(70)
				l := []float64{70, 1, 2.8, 5.6, 10, 30, 141}[x.Choose(7)]
				one(x, 1000, 1.4, []float64{1, 4}[x.Choose(2)], timings[x.Choose(4)], "L|300:100", false, sp, l)
			}},
			{Name: "end-of-slider", Bound: "lengths in steps of 0.7 px around every multiple of the tick distance and around 36 and 72 ms durations", Body: func(x *core.X) {
				k := x.Choose(9)
				d := x.Choose(25)
				l := float64(k)*70 + 0.7*float64(d-12) + 0.013
				if l <= 0 {
					l = 0.3
				}
				one(x, 1000, 1.4, 2, timings[x.Choose(3)], "L|900:100", false, 1+x.Choose(3), l)
			}},
			{Name: "exact-end", Bound: "4 velocities x 4 tick rates x lengths a whole number of ticks plus exactly 10 ms, and 1/64 px to either side, x 1 to 3 spans: a tick exactly 10 ms before the end is none", Body: func(x *core.X) {
				// every number here has an exact binary representation, so the boundary is sharp
				bl := []float64{500, 250, 1000, 125}[x.Choose(4)]
				tr := []float64{1, 2, 4, 0.5}[x.Choose(4)]
				k := 1 + x.Choose(4)
				sp := 1 + x.Choose(3)
				side := x.Choose(3) - 1
				v, td := 125000/bl, 125/tr
				d := v / 100 // 2.5, 5, 1.25, 10
				L := float64(k)*td + d + float64(side)/64
				path := fmt.Sprintf("L|%d:100", 100+int(L)+8)
				line := fmt.Sprintf("100,100,1000,2,0,%s,%d,%s", path, sp, strconv.FormatFloat(L, 'f', -1, 64))
				x.Desc(func() string { return fmt.Sprintf("%s at %g px/s, a tick every %g px", line, v, td) })
				x.State(core.NewH().S(line).F(v).F(td).Sum())
				s := mkObj(line).(*objects.Slider)
				s.SetTiming(mkTimings(1.25, tr, [2]float64{0, bl}))
				x.Op(2)
				x.Trace(1)
				n := k
				if side <= 0 {
					n--
				}
				want := sp * (n + 1)
				x.Assert(len(s.ScorePoints) == want, "%d scoring points %v, want %d: %d ticks a span (a tick lies %g ms before the end)", len(s.ScorePoints), s.ScorePoints, want, n, 10+float64(side)/64/v*1000)
			}},
			{Name: "long", Bound: "spans {1,2,9,100,1000,9000} x lengths 3 to 131072 px x start times from 0 to 24 h x 6 timings x tick rates {0.5,1,4} (at most 30000 ticks)", Body: func(x *core.X) {
				sp := []int{1, 2, 9, 100, 1000, 9000}[x.Choose(6)]
				l := []float64{3, 33.3, 140, 141.7, 700, 2345.6, 20000, 131072}[x.Choose(8)]
				st := []float64{1000, 0, 123456.5, 3600000, 2e7, 86400000}[x.Choose(6)]
				tp := [][][2]float64{{{0, 500}}, {{0, 500}, {900, -50}}, {{0, 500}, {900, -1000}}, {{0, 333.33}, {2e7, -10}}, {{0, 60}}, {{0, 2000}, {3600000, math.NaN()}}}[x.Choose(6)]
				tr := []float64{1, 0.5, 4}[x.Choose(3)]
				if l/140*tr*float64(sp)*10 > 30000 {
					return
				}
				one(x, st, 1.4, tr, tp, "L|300:100", false, sp, l)
			}},
			{Name: "grid", Bound: "lengths in steps of 1.7 px to 500 x inherited ratios -10 to -1000 in steps of 15 (thorough 5) x 1 to 3 spans x 2 tick rates", Body: func(x *core.X) {
				st := 15.0
				if th {
					st = 5
				}
				r := 10 + st*float64(x.Choose(int(990/st)+1))
				l := 1.7 * float64(1+x.Choose(294))
				one(x, 1000, 1.4, []float64{1, 3}[x.Choose(2)], [][2]float64{{0, 500}, {900, -r}}, "L|300:100", false, 1+x.Choose(3), l)
			}},
			{Name: "from-file", Bound: "two sliders and a circle in a file x every ordered pair of timing lines out of 8 x multiplier and tick rate lines incl. out-of-range and missing ones", Body: func(x *core.X) {
				tls := []string{"1000,-50,4,2,1,60,0,0", "1500,-150,4,2,1,60,0,0", "900,350,4,2,1,60,1,0", "1499.5,-75,4,2,1,60,0,0", "3000,200,4,2,1,60,1,0", "1000,NaN,4,2,1,60,0,0", "1500,-2000,4,2,1,60,0,0", "-100,600,4,2,1,60,1,0"}
				t := base()
				t.Times = append(t.Times, tls[x.Choose(8)], tls[x.Choose(8)])
				sm := []struct {
					l string
					v float64
				}{{"SliderMultiplier:1.4", 1.4}, {"SliderMultiplier:3.2", 3.2}, {"SliderMultiplier:9", 3.6}, {"", 1.4}, {"SliderMultiplier:0.1", 0.4}}[x.Choose(5)]
				tr := []struct {
					l string
					v float64
				}{{"SliderTickRate:1", 1}, {"SliderTickRate:3", 3}, {"SliderTickRate:99", 8}, {"", 1}, {"SliderTickRate:0", 0.5}}[x.Choose(5)]
				t.Diff = append(t.Diff[:4], sm.l, tr.l)
				ls := []string{sliderLine(100, 100, 1000, "L|300:100", 2, 145), "10,10,1200,1,0", sliderLine(200, 300, 1500, "B|150:20|200:180|260:100", 3, 90.5)}
				t.Obj = ls
				x.Desc(func() string { return t.Text() })
				x.State(core.NewH().S(strings.Join(t.Times, "/")).S(sm.l + tr.l).Sum())
				bm := parse(x, t.Text())
				var tps []ref.TP
				for _, l := range t.Times {
					tps = append(tps, parseTP(l))
				}
				tm := ref.NewTiming(tps, sm.v, tr.v)
				x.Assert(len(bm.HitObjects) == 3, "%d objects", len(bm.HitObjects))
				checkScorePoints(x, bm.HitObjects[0].(*objects.Slider), tm, 1000, 145, 2, "L|300:100")
				checkScorePoints(x, bm.HitObjects[2].(*objects.Slider), tm, 1500, 90.5, 3, "B")
			}},
		}
	})
}
