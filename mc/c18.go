package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"

	"vmc/core"
	"vmc/ref"
)

// checkFeatures compares the difficulty objects of objs with the model.
func checkFeatures(x *core.X, objs []objects.IHitObject, d *difficulty.Difficulty) {
	got := preprocessing.CreateDifficultyObjects(objs, d)
	x.Op(len(objs))
	n := len(objs) - 1
	if n < 0 {
		n = 0
	}
	x.Assert(len(got) == n, "%d difficulty objects for %d objects", len(got), len(objs))
	why := ""
	for _, tie := range []float32{0, 1e-3, -1e-3} {
		pm := model(objs, d.Mods)
		for _, p := range pm {
			p.Tie = tie
		}
		if why = featMismatch(got, ref.Features(pm, d.CircleRadius, rateOf(d)), pm); why == "" {
			x.Trace(len(got))
			return
		}
	}
	x.Fail("%s", why)
}

func featMismatch(got []*preprocessing.DifficultyObject, want []*ref.Feat, pm []*ref.PObj) string {
	for i, g := range got {
		w := want[i]
		b := g.BaseObject
		if b.GetStartTime() != pm[i+1].Start {
			return fmt.Sprintf("difficulty object %d is not object %d", i, i+1)
		}
		for _, c := range []struct {
			n    string
			g, w float64
			tol  float64
		}{
			{"delta time", g.DeltaTime, w.Delta, 1e-9}, {"start time", g.StartTime, w.Start, 1e-9}, {"end time", g.EndTime, w.End, 1e-9}, {"strain time", g.StrainTime, w.Strain, 1e-9},
			{"travel time", g.TravelTime, w.TravelTime, 1e-6}, {"movement time", g.MovementTime, w.MoveTime, 1e-6},
			{"jump distance", g.JumpDistance, w.Jump, 1e-4}, {"movement distance", g.MovementDistance, w.Move, 1e-4}, {"travel distance", g.TravelDistance, w.Travel, 1e-4},
		} {
			slack := 0.0
			if c.tol == 1e-4 {
				slack = 2e-3
			} else {
				slack = 1e-6
			}
			if math.IsNaN(c.g) != math.IsNaN(c.w) || math.Abs(c.g-c.w) > c.tol*math.Abs(c.w)+slack {
				return fmt.Sprintf("object %d (%v at %v): %s is %v, want %v", i+1, pm[i+1].Kind, pm[i+1].Start, c.n, c.g, c.w)
			}
		}
		if math.IsNaN(g.Angle) != math.IsNaN(w.Angle) {
			return fmt.Sprintf("object %d: angle is %v, want %v", i+1, g.Angle, w.Angle)
		}
		if !math.IsNaN(g.Angle) && w.AngleLen > 0.5 && math.Abs(g.Angle-w.Angle) > 1e-3+0.01/float64(w.AngleLen) {
			return fmt.Sprintf("object %d: angle is %v, want %v", i+1, g.Angle, w.Angle)
		}
		if !math.IsNaN(g.Angle) && (g.Angle < 0 || g.Angle > math.Pi+1e-6) {
			return fmt.Sprintf("object %d: angle %v outside 0..pi", i+1, g.Angle)
		}
	}
	return ""
}

var featLetters = []ol{
	cir(100, 100), cir(100, 103), cir(180, 100), cir(400, 300),
	sli(100, 100, "L|300:100", 1, 180), sli(100, 100, "L|120:100", 1, 20), sli(200, 100, "L|100:100", 2, 100), sli(100, 100, "L|300:100", 3, 150), sli(150, 150, "P|200:100|250:150", 1, 156),
	sli(100, 100, "P|150:150|101:101", 1, 200), sli(300, 300, "B|100:300|300:200|100:100", 4, 260), spi, sli(100, 100, "L|100:100", 1, 100), sli(100, 200, "B|400:200|100:200", 1, 290),
	{kind: ref.Spinner}, {kind: ref.Spinner, dur: -200}, {kind: ref.Spinner, dur: 60}, sli(150, 120, "L|300:100", 1, 0),
}

func init() {
	register("C18", "one execution = one short object sequence under one difficulty; every feature of every object is compared", func(th bool) []core.Scenario {
		modsA := []uint64{0, ref.HR, ref.EZ, ref.DT, ref.HT, ref.HR | ref.NC | ref.DT}
		css := []float64{4, 2, 5.3, 7}
		if th {
			css = []float64{4, 0, 2, 5, 5.2, 5.3, 5.8, 6, 7, 10}
		}
		seq := func(x *core.X, ls []ol, dts []float64, stacks []int, sm, tr, cs float64, m uint64, custom float64) {
			d := newDiff(5, cs, 8, 9, mods(m))
			if custom != 1 {
				d.SetCustomSpeed(custom)
			}
			var ps []placed
			t := 1000.0
			for i, l := range ls {
				if i > 0 {
					t += dts[i-1]
				}
				ps = append(ps, placed{l, t, stacks[i]})
			}
			x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
			x.State(hashPlaced(ps, d))
			checkFeatures(x, build(ps, sm, tr, [][2]float64{{0, 500}}, d), d)
		}
		return []core.Scenario{
			{Name: "triples", Bound: fmt.Sprintf("all triples of %d objects x gaps {100,25,24,600} x CS %v x %d mod sets", len(featLetters), css, len(modsA)), Body: func(x *core.X) {
				m := modsA[x.Choose(len(modsA))]
				cs := css[x.Choose(len(css))]
				a, b := x.Choose(len(featLetters)), x.Choose(len(featLetters))
				gaps := [][2]float64{{100, 300}, {300, 25}, {400, 24}, {24, 600}}
				g := gaps[x.Choose(4)]
				for c := range featLetters {
					seq(x, []ol{featLetters[a], featLetters[b], featLetters[c]}, g[:], []int{0, 0, 0}, 1.4, 1, cs, m, 1)
				}
			}},
			{Name: "outside", Bound: "all triples of 9 objects on and far outside of the playfield x mods x CS", Body: func(x *core.X) {
				out := []ol{cir(-200, 100), cir(700, -150), cir(256, 192), cir(-3000, 2500), sli(500, 380, "L|900:700", 1, 400), sli(-150, 500, "B|100:100|-500:-300", 2, 300), sli(640, 200, "P|700:260|760:200", 1, 180), cir(600, 420), spi}
				n := len(out)
				m := modsA[x.Choose(len(modsA))]
				cs := css[x.Choose(len(css))]
				ls := []ol{out[x.Choose(n)], out[x.Choose(n)], out[x.Choose(n)]}
				seq(x, ls, []float64{300, 150}, []int{0, 0, 0}, 1.4, 1, cs, m, 1)
			}},
			{Name: "stacks", Bound: "all triples of objects with stack heights 0, 2, -1 under none, HardRock, Easy", Body: func(x *core.X) {
				m := modsA[x.Choose(3)]
				n := len(featLetters)
				ls := []ol{featLetters[x.Choose(n)], featLetters[x.Choose(n)], featLetters[x.Choose(4)]}
				s := []int{0, 2, -1}
				seq(x, ls, []float64{150, 200}, []int{s[x.Choose(3)], s[x.Choose(3)], s[x.Choose(3)]}, 1.4, 2, 4, m, 1)
			}},
			{Name: "sliders", Bound: "sliders of 7 shapes x lengths 10..400 in steps x spans 1..5 x slider multipliers x tick rates x clock rates, followed by objects at 4 places", Body: func(x *core.X) {
				path := []string{"L|500:100", "L|300:100|100:100", "P|150:150|200:100", "P|110:110|120:100", "B|300:100|100:100", "B|200:0|200:200|100:100", "C|150:200|250:0|300:150"}[x.Choose(7)]
				l := 10 + 30*float64(x.Choose(14))
				sp := 1 + x.Choose(5)
				sm := []float64{1.4, 0.6, 3.6}[x.Choose(3)]
				tr := []float64{1, 4}[x.Choose(2)]
				cs := css[x.Choose(len(css))]
				c := []float64{1, 1.3, 3.1, 0.3}[x.Choose(4)]
				for k, nx := range []ol{cir(100, 100), cir(240, 130), sli(400, 300, "L|500:300", 1, 60), cir(130, 300)} {
					seq(x, []ol{sli(100, 100, path, sp, l), nx, cir(300, 200)}, []float64{[]float64{90, 400, 1000, 3000}[k], 200}, []int{0, 0, 0}, sm, tr, cs, []uint64{0, ref.DT, ref.HR, ref.EZ}[k], c)
				}
			}},
			{Name: "radii", Bound: "sliders of 4 shapes x spans 1..5 x circle sizes -1..12 in halves x none, Easy, HardRock, DoubleTime and HardRock with DoubleTime x followed by objects at 3 places", Body: func(x *core.X) {
				path := []string{"L|500:100", "P|150:150|200:100", "B|300:100|100:100", "L|100:100"}[x.Choose(4)]
				sp := 1 + x.Choose(5)
				cs := -1 + 0.5*float64(x.Choose(27))
				m := []uint64{0, ref.EZ, ref.HR, ref.DT, ref.HR | ref.DT}[x.Choose(5)]
				for k, nx := range []ol{cir(130, 100), sli(300, 150, "L|500:300", 2, 90), cir(100, 300)} {
					seq(x, []ol{cir(60, 100), sli(100, 100, path, sp, 130), nx, cir(300, 200)}, []float64{200, []float64{90, 600, 2500}[k], 150}, []int{0, 0, 0, 0}, 1.4, 2, cs, m, 1)
				}
			}},
			{Name: "geometry", Bound: "circle triples: second and third object in 24 directions x 5 distances, CS 0..10", Body: func(x *core.X) {
				a1, a2 := float64(x.Choose(24))*math.Pi/12, float64(x.Choose(24))*math.Pi/12
				d1, d2 := []float64{0, 2, 30, 80, 190}[x.Choose(5)], []float64{0, 2, 30, 80, 190}[x.Choose(5)]
				cs := float64(x.Choose(6)) * 2
				p := func(x0, y0, a, d float64) ol {
					return cir(math.Round(x0+d*math.Cos(a)), math.Round(y0+d*math.Sin(a)))
				}
				q := p(256, 192, a1, d1)
				seq(x, []ol{cir(256, 192), q, p(q.x, q.y, a2, d2)}, []float64{100, 100}, []int{0, 0, 0}, 1.4, 1, cs, []uint64{0, ref.HR}[x.Choose(2)], 1)
			}},
			{Name: "few", Bound: "0, 1 and 2 objects of every kind", Body: func(x *core.X) {
				n := x.Choose(3)
				var ls []ol
				for i := 0; i < n; i++ {
					ls = append(ls, featLetters[x.Choose(len(featLetters))])
				}
				seq(x, ls, []float64{50}, []int{0, 0}, 1.4, 1, 4, modsA[x.Choose(len(modsA))], 1)
			}},
			{Name: "mod-map", Bound: modMapBound, Body: func(x *core.X) {
				ps, m, cs, od, ar, custom := modMap(x)
				d := newDiff(5, cs, od, ar, mods(m))
				d.SetCustomSpeed(custom)
				x.Desc(func() string { return "odd map with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkFeatures(x, build(ps, 1.4, 1, [][2]float64{{0, 500}, {30000, -50}}, d), d)
			}},
			{Name: "corpus", Bound: "two real maps x 8 mod sets", Body: func(x *core.X) {
				c := x.Choose(2)
				m := []uint64{0, ref.HR, ref.EZ, ref.DT, ref.HT, ref.HR | ref.DT, ref.EZ | ref.HT, ref.HD | ref.FL}[x.Choose(8)]
				bm := parse(x, corpora[c])
				bm.Difficulty.SetMods(mods(m))
				x.Desc(func() string { return fmt.Sprintf("corpus %d %s", c, ref.String(m)) })
				x.State(core.NewH().I(c).U(m).Sum())
				checkFeatures(x, bm.HitObjects, bm.Difficulty)
			}},
		}
	})
}
