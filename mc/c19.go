package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"

	"vmc/core"
	"vmc/ref"
)

// featOf reads the features the library computed (C18 decides those) into the model's form.
func featOf(g *preprocessing.DifficultyObject, m mods) *ref.Feat {
	p := &ref.PObj{Start: g.BaseObject.GetStartTime(), End: g.BaseObject.GetEndTime(), P: rv(g.BaseObject.GetStackedStartPositionMod(m)), E: rv(g.BaseObject.GetStackedEndPositionMod(m))}
	switch g.BaseObject.(type) {
	case *preprocessing.LazySlider, *objects.Slider:
		p.Kind = ref.Slider
	case *objects.Spinner:
		p.Kind = ref.Spinner
	}
	return &ref.Feat{O: p, Delta: g.DeltaTime, Start: g.StartTime, End: g.EndTime, Jump: g.JumpDistance, Move: g.MovementDistance, Travel: g.TravelDistance, Angle: g.Angle,
		MoveTime: g.MovementTime, TravelTime: g.TravelTime, Strain: g.StrainTime}
}

type skillView struct {
	name    string
	process func(*preprocessing.DifficultyObject)
	strain  func() float64
	value   func() float64
	peaks   func() []float64
	kind    int
}

func skillViews(d *difficulty.Difficulty) []skillView {
	a, n, s, f := skills.NewAimSkill(d, true), skills.NewAimSkill(d, false), skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
	return []skillView{
		{"aim", a.Process, func() float64 { return a.CurrentStrain }, a.DifficultyValue, a.GetCurrentStrainPeaks, 0},
		{"aim without sliders", n.Process, func() float64 { return n.CurrentStrain }, n.DifficultyValue, n.GetCurrentStrainPeaks, 1},
		{"speed", s.Process, func() float64 { return s.CurrentStrain * s.CurrentRhythm }, s.DifficultyValue, s.GetCurrentStrainPeaks, 2},
		{"flashlight", f.Process, func() float64 { return f.CurrentStrain }, f.DifficultyValue, f.GetCurrentStrainPeaks, 3},
	}
}

func refSkills(d *difficulty.Difficulty, bias ref.Bias) []*ref.Skill {
	great := d.Hit300 / rateOf(d)
	return []*ref.Skill{ref.NewSkill(ref.AimS, d.CircleRadius, great, bias), ref.NewSkill(ref.AimNoSliders, d.CircleRadius, great, bias), ref.NewSkill(ref.SpeedS, d.CircleRadius, great, bias), ref.NewSkill(ref.FlashS, d.CircleRadius, great, bias)}
}

// checkSkills feeds the objects to all four skills and compares with the model after every object.
func checkSkills(x *core.X, objs []objects.IHitObject, d *difficulty.Difficulty, every bool) {
	got := preprocessing.CreateDifficultyObjects(objs, d)
	why := ""
	for _, bias := range biasesFor(objs, d) {
		if why = skillMismatch(x, got, d, bias, every); why == "" {
			x.Op(4 * len(got))
			x.Trace(4 * len(got))
			return
		}
	}
	x.Fail("%s", why)
}

// biasesFor returns the admissible nudges of thresholds: all of them, unless every time is a whole
// number of milliseconds and the clock rate is 1, when there is nothing to round.
func biasesFor(objs []objects.IHitObject, d *difficulty.Difficulty) []ref.Bias {
	if rateOf(d) != 1 {
		return ref.AllBiases
	}
	for _, o := range objs {
		if t := o.GetStartTime(); t != math.Trunc(t) || math.Abs(t) > 1e12 {
			return ref.AllBiases
		}
	}
	return ref.AllBiases[:1]
}

const skillTol = 1e-8

func skillMismatch(x *core.X, got []*preprocessing.DifficultyObject, d *difficulty.Difficulty, bias ref.Bias, every bool) string {
	views, refs := skillViews(d), refSkills(d, bias)
	for i, g := range got {
		f := featOf(g, d.Mods)
		for k, v := range views {
			v.process(g)
			r := refs[k]
			r.Add(f)
			w := r.Strain
			if k == 2 {
				w *= r.Rhythm
			}
			if !ref.Close(v.strain(), w, skillTol) {
				return fmt.Sprintf("%s strain after object %d is %v, want %v", v.name, i+1, v.strain(), w)
			}
		}
		if every || i == len(got)-1 {
			if m := peaksAndValue(views, refs, i); m != "" {
				return m
			}
		}
	}
	if len(got) == 0 {
		return peaksAndValue(views, refs, -1)
	}
	return ""
}

func peaksAndValue(views []skillView, refs []*ref.Skill, i int) string {
	for k, v := range views {
		gp, wp := v.peaks(), refs[k].Peaks()
		if len(gp) != len(wp) {
			return fmt.Sprintf("%s has %d section peaks after object %d, want %d", v.name, len(gp), i+1, len(wp))
		}
		for j := range gp {
			if !ref.Close(gp[j], wp[j], skillTol) {
				return fmt.Sprintf("%s peak of section %d after object %d is %v, want %v", v.name, j, i+1, gp[j], wp[j])
			}
		}
		if g, w := v.value(), refs[k].Value(); !ref.Close(g, w, 1e-7) {
			return fmt.Sprintf("%s difficulty value after object %d is %v, want %v", v.name, i+1, g, w)
		}
	}
	return ""
}

func init() {
	register("C19", "one execution = one object sequence processed step by step by all four skills; strain after every object, section peaks and difficulty value are compared", func(th bool) []core.Scenario {
		run := func(x *core.X, ps []placed, d *difficulty.Difficulty, every bool) {
			x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
			x.State(hashPlaced(ps, d))
			checkSkills(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, every)
		}
		diffs := func(k int) *difficulty.Difficulty {
			switch k {
			case 1:
				return newDiff(5, 5.5, 10, 9, difficulty.DoubleTime|difficulty.HardRock)
			case 2:
				return newDiff(5, 2, 2, 5, difficulty.HalfTime|difficulty.Easy)
			case 3:
				d := newDiff(5, 4, 5, 9, 0)
				d.SetCustomSpeed(1.37)
				return d
			}
			return newDiff(5, 4, 8, 9, 0)
		}
		rhythmDts := []float64{100, 200, 125, 126, 150, 75, 113}
		aimN, rhythmN, flN := 4, 6, 5
		if th {
			aimN, rhythmN, flN = 5, 7, 6
		}
		places := []ol{cir(256, 192), cir(256, 200), cir(320, 192), cir(380, 260), cir(120, 192), cir(256, 60)}
		aimLetters := append(append([]ol{}, places...), sli(256, 192, "L|356:192", 1, 100), sli(330, 100, "P|380:150|330:200", 2, 150), sli(256, 192, "L|266:192", 1, 10))
		rep := []ol{cir(200, 200), sli(200, 200, "L|230:200", 1, 30)}
		return []core.Scenario{
			{Name: "aim-words", Bound: fmt.Sprintf("all words of %d letters over %d objects x gaps {100,76,150} after a common opening", aimN, len(aimLetters)), Body: func(x *core.X) {
				gaps := []float64{100, 76, 150}
				ps := []placed{{cir(100, 100), 1000, 0}, {cir(256, 192), 1100, 0}}
				t := 1100.0
				for i := 0; i < aimN; i++ {
					c := x.Choose(len(aimLetters) * len(gaps))
					t += gaps[c%3]
					ps = append(ps, placed{aimLetters[c/3], t, 0})
				}
				run(x, ps, diffs(0), false)
			}},
			{Name: "aim-thresholds", Bound: "four objects: gaps around the 25 ms minimum, 75/100 ms and 1.25x rhythm limits x distances around 50/100/125 x turning angles in 15 degree steps", Body: func(x *core.X) {
				g := []float64{100, 10, 25, 50, 74, 75, 76, 99, 101, 124, 125, 126, 250}
				g1, g2 := g[x.Choose(len(g))], g[x.Choose(len(g))]
				dist := []float64{30, 45, 60, 68, 73, 80, 90, 130, 260}
				d1, d2 := dist[x.Choose(len(dist))], dist[x.Choose(len(dist))]
				a := float64(x.Choose(13)) * math.Pi / 12
				d := diffs(x.Choose(3))
				b := []float64{0, math.Pi / 2, math.Pi}[x.Choose(3)]
				px, py, dir := 256.0, 192.0, 0.0
				ps := []placed{{cir(px, py), 1000, 0}}
				t := 1000.0
				for i, st := range [][3]float64{{100, d1, 0}, {100, d1, b}, {g1, d1, a}, {g2, d2, a}} {
					_ = i
					dir += math.Pi - st[2]
					px, py = px+st[1]*math.Cos(dir), py+st[1]*math.Sin(dir)
					t += st[0]
					ps = append(ps, placed{cir(math.Round(px*100)/100, math.Round(py*100)/100), t, 0})
				}
				run(x, ps, d, false)
			}},
			{Name: "rhythm-words", Bound: fmt.Sprintf("all words of %d gaps over %v after an opening of 3 notes", rhythmN, rhythmDts), Body: func(x *core.X) {
				t := 1000.0
				ps := []placed{{rep[0], t, 0}, {rep[0], t + 200, 0}, {rep[0], t + 400, 0}}
				t += 400
				for i := 0; i < rhythmN; i++ {
					t += rhythmDts[x.Choose(len(rhythmDts))]
					ps = append(ps, placed{rep[0], t, 0})
				}
				run(x, ps, diffs(0), false)
			}},
			{Name: "times", Bound: "all words of 4 gaps over {100,200,150,75,400} repeated twice, circles or every third a slider, from {-3000, -1000, -400, 0, 0.25, 8388607.5, 36000000} on, 2 hit windows", Body: func(x *core.X) {
				t := []float64{-3000, -1000, -400, 0, 0.25, 8388607.5, 36000000}[x.Choose(7)]
				sl := x.Bool()
				d := diffs(x.Choose(2))
				gaps := []float64{100, 200, 150, 75, 400}
				var w [4]float64
				for i := range w {
					w[i] = gaps[x.Choose(5)]
				}
				ps := []placed{{places[0], t, 0}}
				for i := 0; i < 8; i++ {
					t += w[i%4]
					l := places[(i+1)%len(places)]
					if sl && i%3 == 1 {
						l = rep[1]
					}
					ps = append(ps, placed{l, t, 0})
				}
				run(x, ps, d, false)
			}},
			{Name: "ratios", Bound: "three islands of {1,2,3} notes at two alternating gaps: the first {60,100,400} ms, the second every whole ms (every 4 for 400) from 0.38 to 2.65 times that, circles or sliders, 2 hit windows", Body: func(x *core.X) {
				g := []float64{60, 100, 400}[x.Choose(3)]
				step := math.Max(1, math.Floor(g/100))
				lo, hi := math.Ceil(g*0.38), math.Floor(g*2.65)
				h := lo + step*float64(x.Choose(int((hi-lo)/step)+1))
				kinds := x.Choose(3)
				d := diffs(x.Choose(2))
				t := 1000.0
				ps := []placed{{rep[0], t, 0}}
				k := 0
				for i := 0; i < 3; i++ {
					for j := 1 + x.Choose(3); j > 0; j-- {
						t += []float64{g, h}[i%2]
						l := rep[0]
						if k++; kinds == 1 || kinds == 2 && k%2 == 0 {
							l = rep[1]
						}
						ps = append(ps, placed{l, t, 0})
					}
				}
				t += []float64{g, h}[1]
				ps = append(ps, placed{rep[0], t, 0})
				run(x, ps, d, false)
			}},
			{Name: "ratios-three", Bound: "islands at three gaps: 100 ms, then two gaps in steps of 10 ms (thorough 5 ms) from 40 to 260, 1 or 2 notes each, repeated once", Body: func(x *core.X) {
				st := 10.0
				if th {
					st = 5
				}
				n := int(220/st) + 1
				a, b := 40+st*float64(x.Choose(n)), 40+st*float64(x.Choose(n))
				m := 1 + x.Choose(2)
				t := 1000.0
				ps := []placed{{rep[0], t, 0}}
				for r := 0; r < 2; r++ {
					for _, g := range []float64{100, a, b} {
						for j := 0; j < m; j++ {
							t += g
							ps = append(ps, placed{rep[0], t, 0})
						}
					}
				}
				run(x, ps, diffs(0), false)
			}},
			{Name: "slow-ups", Bound: "after a speed-up and 1..2 notes: three gaps p+{8..12, 60}, p, and p-{8..12} or p/{1.24,1.25,1.26,2}, p in {40,44,46,50,120}, in single steps of half a ms, any of the notes a slider; hit windows of OD 8, 10 and 10 with DT", Body: func(x *core.X) {
				d := []*difficulty.Difficulty{diffs(0), newDiff(5, 4, 10, 9, 0), newDiff(5, 4, 10, 9, difficulty.DoubleTime)}[x.Choose(3)]
				sp := d.Speed
				p := []float64{40, 44, 46, 50, 120}[x.Choose(5)]
				step := func(n int) float64 { return 8 + 0.5*float64(n) }
				a := x.Choose(10)
				last := p + 60
				if a < 9 {
					last = p + step(a)
				}
				b := x.Choose(13)
				var cur float64
				if b < 9 {
					cur = p - step(b)
				} else {
					cur = p / []float64{1.24, 1.25, 1.26, 2}[b-9]
				}
				sl := x.Choose(4)
				t := 1000.0
				ps := []placed{{rep[0], t, 0}}
				gaps := []float64{300, 300}
				for j := 1 + x.Choose(2); j > 0; j-- {
					gaps = append(gaps, last*1.6)
				}
				gaps = append(gaps, last, p, cur, cur, 300, 300)
				for i, g := range gaps {
					t += g * sp
					l := rep[0]
					if len(gaps)-i == sl+3 {
						l = rep[1]
					}
					ps = append(ps, placed{l, t, 0})
				}
				run(x, ps, d, false)
			}},
			{Name: "aim-sweep", Bound: "two jumps of lengths in steps of 10 px (thorough 5) from 0 to 400 each, 5 turning angles, 3 gap pairs, two mod sets", Body: func(x *core.X) {
				st := 10.0
				if th {
					st = 5
				}
				n := int(400/st) + 1
				d1, d2 := st*float64(x.Choose(n)), st*float64(x.Choose(n))
				a := []float64{0, math.Pi / 3, math.Pi / 2, 3 * math.Pi / 4, math.Pi}[x.Choose(5)]
				g := [][2]float64{{100, 100}, {75, 140}, {300, 90}}[x.Choose(3)]
				d := diffs(x.Choose(2))
				px, py, dir := 0.0, 200.0, 0.0
				t := 1000.0
				ps := []placed{{cir(px, py), t, 0}}
				for i, s := range []float64{60, d1, d2} {
					dir += math.Pi - []float64{math.Pi, 2 * math.Pi / 3, a}[i]
					px, py = px+s*math.Cos(dir), py+s*math.Sin(dir)
					t += []float64{100, g[0], g[1]}[i]
					ps = append(ps, placed{cir(math.Round(px*100)/100, math.Round(py*100)/100), t, 0})
				}
				run(x, ps, d, false)
			}},
			{Name: "rhythm-kinds", Bound: "all words of 7 (thorough 8) letters over {circle, slider} x gaps {100, 200}, plus spinners as deviations (at most 2)", Budget: 2, Body: func(x *core.X) {
				n := 7
				if th {
					n = 8
				}
				t := 1000.0
				ps := []placed{{rep[0], t, 0}}
				for i := 0; i < n; i++ {
					t += []float64{100, 200}[x.Choose(2)]
					l := rep[x.Choose(2)]
					if x.Dev(2) == 1 {
						l = spi
						l.dur = 20
					}
					ps = append(ps, placed{l, t, 0})
				}
				run(x, ps, diffs(0), true)
			}},
			{Name: "islands", Bound: "4 islands of 1..9 notes each at alternating speeds, from 4 speed pairs", Body: func(x *core.X) {
				sp := [][2]float64{{100, 200}, {150, 75}, {80, 320}, {120, 131}}[x.Choose(4)]
				t := 1000.0
				ps := []placed{{rep[0], t, 0}}
				for k := 0; k < 4; k++ {
					n := 1 + x.Choose(9)
					for i := 0; i < n; i++ {
						t += sp[k%2]
						ps = append(ps, placed{rep[0], t, 0})
					}
				}
				run(x, ps, diffs(x.Choose(2)), false)
			}},
			{Name: "histories", Bound: "1..50 even notes, then every word of 5 gaps over {60,120,240,2000,5000}, crossing the 2, 10 and 32 object histories and the 5 s rhythm memory", Body: func(x *core.X) {
				n := 1 + x.Choose(50)
				t := 1000.0
				var ps []placed
				for i := 0; i < n; i++ {
					ps = append(ps, placed{places[i%3], t, 0})
					t += []float64{120, 120, 120, 60}[i%4]
				}
				for i := 0; i < 5; i++ {
					t += []float64{60, 120, 240, 2000, 5000}[x.Choose(5)]
					ps = append(ps, placed{places[i%len(places)], t, 0})
				}
				run(x, ps, diffs(0), false)
			}},
			{Name: "fast-runs", Bound: "a run of 1..40 notes 0..26 ms apart (or with one gap of another length inside) between slower notes, then every word of 3 gaps over {20,24,25,26,100,180,600}", Body: func(x *core.X) {
				n := 1 + x.Choose(40)
				dt := []float64{0, 1, 12.5, 20, 24, 24.999, 25, 26}[x.Choose(8)]
				odd := x.Choose(3)
				t := 1000.0
				ps := []placed{{places[0], t, 0}, {places[1], t + 150, 0}, {places[2], t + 300, 0}}
				t += 300
				for i := 0; i < n; i++ {
					t += dt
					if odd > 0 && i == n*odd/3 {
						t += 40
					}
					ps = append(ps, placed{places[i%2], t, 0})
				}
				for i := 0; i < 3; i++ {
					t += []float64{20, 24, 25, 26, 100, 180, 600}[x.Choose(7)]
					ps = append(ps, placed{places[(i+n)%3], t, 0})
				}
				run(x, ps, diffs(0), false)
			}},
			{Name: "long-islands", Bound: "1..5 islands of {1,2,3,7,8,9,15,16,31,32,33} notes at alternating speeds from 3 pairs", Body: func(x *core.X) {
				sp := [][2]float64{{100, 200}, {20, 150}, {60, 90}}[x.Choose(3)]
				sizes := []int{1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33}
				k := 1 + x.Choose(3)
				if th {
					k = 1 + x.Choose(5)
				}
				t := 1000.0
				ps := []placed{{rep[0], t, 0}}
				for i := 0; i < k; i++ {
					n := sizes[x.Choose(len(sizes))]
					for j := 0; j < n; j++ {
						t += sp[i%2]
						ps = append(ps, placed{rep[0], t, 0})
					}
				}
				run(x, ps, diffs(0), false)
			}},
			{Name: "speed-windows", Bound: "words of 3 gaps from 1 ms steps around the hit window for 4 difficulties x distances around 125", Body: func(x *core.X) {
				d := diffs(x.Choose(4))
				w := d.Hit300 * 2 // in map time
				gs := []float64{20, 40, 75 * d.Speed, w - 1, w, w + 1, w * 0.93, w * 0.93 * 0.92, w * 0.93 * 0.95, w * 2, 300}
				t := 1000.0
				px := 10.0
				ps := []placed{{cir(px, 100), t, 0}}
				t += 90
				ps = append(ps, placed{cir(px, 120), t, 0})
				dist := []float64{1, 60, 70, 200}[x.Choose(4)]
				for i := 0; i < 3; i++ {
					t += gs[x.Choose(len(gs))]
					px += dist
					ps = append(ps, placed{cir(px, 100), t, 0})
				}
				run(x, ps, d, false)
			}},
			{Name: "flashlight-words", Bound: fmt.Sprintf("all words of %d letters over stacked, near and far notes, a slider and a spinner", flN), Body: func(x *core.X) {
				ls := []ol{cir(256, 192), cir(260, 192), cir(300, 192), cir(450, 300), sli(256, 192, "L|356:192", 1, 100), spi}
				t := 1000.0
				ps := []placed{{cir(100, 192), t, 0}}
				for i := 0; i < flN; i++ {
					t += []float64{150, 15}[x.Choose(2)]
					ps = append(ps, placed{ls[x.Choose(len(ls))], t, 0})
				}
				d := diffs(x.Choose(3))
				run(x, ps, d, false)
			}},
			{Name: "sections", Bound: "first object at times around a section boundary x every word of 4 gaps over {1,399,400,401,800,1200.5,3000} x rates", Body: func(x *core.X) {
				t := []float64{0, 1, 400, 399, 401, -850, -400, 100000}[x.Choose(8)]
				d := diffs(x.Choose(4))
				ps := []placed{{places[0], t, 0}}
				for i := 0; i < 4; i++ {
					t += []float64{1, 399, 400, 401, 800, 1200.5, 3000}[x.Choose(7)]
					ps = append(ps, placed{places[(i*2+3)%len(places)], t, 0})
				}
				run(x, ps, d, true)
			}},
			{Name: "many-sections", Bound: "1..40 sections of 1..3 notes at 4 spacings, difficulty value after every object (reduced sections 5 and 10)", Body: func(x *core.X) {
				n := 1 + x.Choose(40)
				per := 1 + x.Choose(3)
				pat := x.Choose(4)
				t := 1000.0
				var ps []placed
				for i := 0; i < n*per; i++ {
					k := []int{i, i * i, i / 3, (i * 7) % 11}[pat]
					ps = append(ps, placed{places[k%len(places)], t, 0})
					t += 400 / float64(per) * []float64{1, 0.5, 1, 1.5}[(k/2)%4]
				}
				run(x, ps, diffs(0), true)
			}},
			{Name: "mod-map", Bound: modMapBound, Body: func(x *core.X) {
				ps, m, cs, od, ar, custom := modMap(x)
				d := newDiff(5, cs, od, ar, mods(m))
				d.SetCustomSpeed(custom)
				x.Desc(func() string { return "odd map with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkSkills(x, build(ps, 1.4, 1, [][2]float64{{0, 500}, {30000, -50}}, d), d, false)
			}},
			{Name: "corpus", Bound: "two real maps x 6 mod sets", Body: func(x *core.X) {
				c := x.Choose(2)
				m := []uint64{0, ref.HR, ref.EZ, ref.DT, ref.HT, ref.HR | ref.DT}[x.Choose(6)]
				bm := parse(x, corpora[c])
				bm.Difficulty.SetMods(mods(m))
				x.Desc(func() string { return fmt.Sprintf("corpus %d %s", c, ref.String(m)) })
				x.State(core.NewH().I(c).U(m).Sum())
				checkSkills(x, bm.HitObjects, bm.Difficulty, false)
			}},
		}
	})
}
