package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
	"vmc/ref"
)

func attrOf(a ref.Attr) osu.Attributes {
	return osu.Attributes{Total: a.Total, Aim: a.Aim, SliderFactor: a.SliderFactor, Speed: a.Speed, Flashlight: a.Flashlight, ObjectCount: a.Objects, Circles: a.Circles, Sliders: a.Sliders, Spinners: a.Spinners, MaxCombo: a.MaxCombo}
}

func ppRun(pp *osu.PPv2, a ref.Attr, s ref.Score, d *difficulty.Difficulty) osu.PPv2Results {
	r := pp.PPv2x(attrOf(a), s.Combo, s.N300, s.N100, s.N50, s.Miss, d)
	return r.Results
}

func ppMismatch(g osu.PPv2Results, w ref.PP) string {
	for _, c := range []struct {
		n    string
		g, w float64
	}{{"aim", g.Aim, w.Aim}, {"speed", g.Speed, w.Speed}, {"accuracy", g.Acc, w.Acc}, {"flashlight", g.Flashlight, w.FL}, {"total", g.Total, w.Total}} {
		if !ref.Close(c.g, c.w, 1e-9) {
			return fmt.Sprintf("%s pp is %v, want %v (got %+v, want %+v)", c.n, c.g, c.w, g, w)
		}
	}
	return ""
}

func checkPP(x *core.X, a ref.Attr, s ref.Score, d *difficulty.Difficulty, arReal, odReal float64) {
	x.Op(1)
	var pp osu.PPv2
	g := ppRun(&pp, a, s, d)
	why := ""
	for _, b := range []float64{0, 1e-9, -1e-9} {
		if why = ppMismatch(g, ref.PPv2(a, s, uint64(d.Mods), arReal, odReal, b)); why == "" {
			x.Trace(1)
			return
		}
	}
	x.Fail("%s for %s, score %+v, mods %q, real AR %v OD %v", why, refStr(a), s, ref.String(uint64(d.Mods)), arReal, odReal)
}

type stars struct{ aim, sf, speed, fl float64 }

func (s stars) on(a ref.Attr) ref.Attr {
	a.Aim, a.SliderFactor, a.Speed, a.Flashlight, a.Total = s.aim, s.sf, s.speed, s.fl, s.aim+s.speed
	return a
}

type ppDiff struct {
	od, ar, custom float64
	mods           uint64
}

func (p ppDiff) make(m uint64) (*difficulty.Difficulty, float64, float64) {
	d := newDiff(5, 4, p.od, p.ar, mods(m|p.mods))
	if p.custom != 0 {
		d.SetCustomSpeed(p.custom)
	}
	c := p.custom
	if c == 0 {
		c = 1
	}
	w := ref.Derive(ref.Settings{HP: 5, CS: 4, OD: p.od, AR: p.ar, Mods: m | p.mods, Custom: c})
	return d, w.ARReal, w.ODReal
}

func init() {
	ppMods := []uint64{ref.NF, ref.SO, ref.RX, ref.TD, ref.HD, ref.FL, ref.V2}
	subset := func(k int) (m uint64) {
		for i, b := range ppMods {
			if k&(1<<uint(i)) != 0 {
				m |= b
			}
		}
		return
	}
	starsA := []stars{{2.5, 0.97, 2.1, 1.7}, {0, 1, 0, 0}, {0.0675, 1, 0.0674, 0.05}, {0.5, 0.3, 3, 0.9}, {7.7, 1, 6.1, 5}, {1, 0, 1, 1}}
	at := func(o, c, s, sp, mc int) ref.Attr {
		return ref.Attr{Objects: o, Circles: c, Sliders: s, Spinners: sp, MaxCombo: mc}
	}
	attrsA := []ref.Attr{at(0, 0, 0, 0, 0), at(1, 1, 0, 0, 1), at(1, 0, 1, 0, 2), at(1, 0, 0, 1, 1), at(10, 6, 3, 1, 17), at(100, 40, 60, 0, 300), at(199, 100, 98, 1, 400), at(200, 200, 0, 0, 200), at(201, 0, 200, 1, 601), at(400, 300, 99, 1, 555), at(401, 300, 100, 1, 557),
		at(500, 499, 0, 1, 500), at(999, 900, 99, 0, 1200), at(1001, 1001, 0, 0, 1001), at(1999, 1500, 498, 1, 3000), at(2000, 1600, 399, 1, 2999), at(2001, 1601, 400, 0, 3001), at(5000, 2000, 2990, 10, 12001), at(40000, 33000, 6990, 10, 70001)}
	scores := func(a ref.Attr) (out []ref.Score) {
		n := a.Objects
		add := func(n100, n50, miss int) {
			if n100+n50+miss <= n {
				out = append(out, ref.Score{N300: n - n100 - n50 - miss, N100: n100, N50: n50, Miss: miss})
			}
		}
		seen := map[[3]int]bool{}
		for _, t := range [][3]int{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {2, 1, 1}, {n, 0, 0}, {0, n, 0}, {0, 0, n}, {n / 2, 0, 0}, {0, n / 500, 0}, {0, n/500 + 1, 0}, {n / 3, n / 3, n / 3}, {0, 5, 0}, {0, 0, 5}, {0, 0, n / 20}} {
			if !seen[t] {
				seen[t] = true
				add(t[0], t[1], t[2])
			}
		}
		// plays that stopped early
		if n > 10 {
			out = append(out, ref.Score{N300: n / 2, N100: 1, Miss: 2}, ref.Score{N300: 1}, ref.Score{N50: 1}, ref.Score{})
		}
		return
	}
	combos := func(a ref.Attr) []int {
		mc := a.MaxCombo
		full := float64(mc) - 0.1*float64(a.Sliders)
		set := map[int]bool{}
		var out []int
		for _, c := range []int{mc, -1, 0, 1, mc - 1, mc / 2, int(full), int(math.Ceil(full)), int(full) - 1, int(full / 2), int(full/2) + 1, int(full / 3), mc + 3, mc - int(0.15*float64(a.Sliders))} {
			if c >= -1 && !set[c] {
				set[c] = true
				out = append(out, c)
			}
		}
		return out
	}
	diffs := []ppDiff{{od: 8, ar: 9}, {od: 10, ar: 10, mods: ref.DT}, {od: 0, ar: 0}, {od: 7.99, ar: 7.99}, {od: 9, ar: 8, mods: ref.HR}, {od: 5, ar: 8.01}, {od: 8, ar: 9, mods: ref.DT}, {od: 8, ar: 8.99, mods: ref.DT}, {od: 10, ar: 10, mods: ref.HR | ref.DT, custom: 1.3}, {od: 9, ar: 9.7, mods: ref.HT}, {od: 3, ar: 4, mods: ref.EZ}, {od: 8.3, ar: 10, custom: 1.09}}

	register("C25", "one execution = one map, difficulty and mod set; the pp of every score of an alphabet is compared component by component", func(th bool) []core.Scenario {
		describe := func(x *core.X, a ref.Attr, d *difficulty.Difficulty) {
			x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
		}
		nd := len(diffs)
		return []core.Scenario{
			{Name: "product", Bound: fmt.Sprintf("%d count sets x %d star sets x 128 mod subsets x 5 (thorough %d) difficulties x up to 19 hit distributions x up to 14 combos", len(attrsA), len(starsA), nd), Body: func(x *core.X) {
				a := attrsA[x.Choose(len(attrsA))]
				m := subset(x.Choose(128))
				nd, ns := 5, 4
				if th {
					nd, ns = len(diffs), len(starsA)
				}
				d, ar, od := diffs[x.Choose(nd)].make(m)
				describe(x, a, d)
				for k, st := range starsA[:ns] {
					b := st.on(a)
					for _, s := range scores(a) {
						for j, c := range combos(a) {
							if !th && k > 0 && j > 3 {
								break
							}
							s.Combo = c
							checkPP(x, b, s, d, ar, od)
						}
					}
				}
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(ar).F(od).Sum())
			}},
			{Name: "difficulties", Bound: fmt.Sprintf("AR and OD 0..10 in steps of 0.25 (thorough 0.05) x rates and custom speeds 0.5 to 3 x 48 mod sets: every threshold of the AR and OD factors"), Body: func(x *core.X) {
				st := 0.25
				if th {
					st = 0.05
				}
				n := int(math.Round(10/st)) + 1
				v := float64(x.Choose(n)) * st
				m := []uint64{0, ref.HD, ref.RX, ref.FL, ref.FL | ref.HD, ref.V2, ref.TD | ref.FL, ref.RX | ref.HD}[x.Choose(8)]
				m |= []uint64{0, ref.DT, ref.HT, ref.HR, ref.EZ, ref.HR | ref.DT}[x.Choose(6)]
				c := []float64{1, 1.25, 0.5, 2, 3}[x.Choose(5)]
				for i := 0; i < n; i += n/20 + 1 {
					for _, p := range []ppDiff{{od: float64(i) * st, ar: v, custom: c}, {od: v, ar: float64(i) * st, custom: c}} {
						d, ar, od := p.make(m)
						describe(x, attrsA[4], d)
						x.State(core.NewH().U(m).F(ar).F(od).Sum())
						for k, a := range []ref.Attr{attrsA[4], attrsA[16]} {
							s := ref.Score{Combo: -1, N300: a.Objects - 3*k, N100: k, N50: k, Miss: k}
							checkPP(x, starsA[k*3].on(a), s, d, ar, od)
						}
					}
				}
			}},
			{Name: "hits", Bound: "all complete scores of a 7-object map and all combos x 3 object mixes x 128 mod subsets", Body: func(x *core.X) {
				a := []ref.Attr{at(7, 4, 2, 1, 12), at(7, 0, 7, 0, 30), at(7, 7, 0, 0, 7)}[x.Choose(3)]
				d, ar, od := diffs[0].make(subset(x.Choose(128)))
				describe(x, a, d)
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).Sum())
				b := starsA[0].on(a)
				for n100 := 0; n100 <= 7; n100++ {
					for n50 := 0; n50+n100 <= 7; n50++ {
						for mi := 0; mi+n50+n100 <= 7; mi++ {
							for c := 0; c <= a.MaxCombo; c++ {
								checkPP(x, b, ref.Score{Combo: c, N300: 7 - n100 - n50 - mi, N100: n100, N50: n50, Miss: mi}, d, ar, od)
							}
						}
					}
				}
			}},
			{Name: "lengths", Bound: "every object count 1..2600 in a fixed mix x 6 scores x 8 mod sets (length bonus, doubletap, flashlight and accuracy scaling)", Body: func(x *core.X) {
				n := 1 + x.Choose(2600)
				m := []uint64{0, ref.FL, ref.HD | ref.FL, ref.RX, ref.V2, ref.SO, ref.NF, ref.SO | ref.V2 | ref.FL}[x.Choose(8)]
				a := at(n, n-n/3-n/50, n/3, n/50, n+n/3*2)
				d, ar, od := diffs[x.Choose(2)].make(m)
				describe(x, a, d)
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).Sum())
				for i, s := range scores(a) {
					if i < 6 {
						s.Combo = a.MaxCombo - i*n/9
						checkPP(x, starsA[0].on(a), s, d, ar, od)
					}
				}
			}},
			{Name: "breaks", Bound: "sliders {1..40} x every combo from 0 to the maximum + 2 x 0 to 3 misses x 3 mod sets: the full-combo threshold and every step of the estimated slider breaks", Body: func(x *core.X) {
				sl := 1 + x.Choose(40)
				n := []int{sl, sl + 25, 100}[x.Choose(3)]
				a := at(n, n-sl, sl, 0, n+sl+sl/2)
				d, ar, od := diffs[x.Choose(2)].make([]uint64{0, ref.RX, ref.FL | ref.NF}[x.Choose(3)])
				describe(x, a, d)
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).Sum())
				for c := 0; c <= a.MaxCombo+2; c++ {
					for mi := 0; mi <= 3 && mi <= n; mi++ {
						checkPP(x, starsA[0].on(a), ref.Score{Combo: c, N300: n - mi, Miss: mi}, d, ar, od)
					}
				}
			}},
			{Name: "real", Bound: "attributes computed from two real maps under 10 mod sets x scores x combos", Body: func(x *core.X) {
				c := x.Choose(2)
				m := []uint64{0, ref.HR, ref.DT, ref.EZ, ref.HT, ref.FL, ref.HD | ref.HR | ref.DT, ref.RX, ref.FL | ref.HD | ref.DT, ref.TD}[x.Choose(10)]
				bm := parse(x, corpora[c])
				d := bm.Difficulty
				d.SetMods(mods(m))
				o := osu.CalculateSingle(bm.HitObjects, d)
				a := ref.Attr{Total: o.Total, Aim: o.Aim, SliderFactor: o.SliderFactor, Speed: o.Speed, Flashlight: o.Flashlight, Objects: o.ObjectCount, Circles: o.Circles, Sliders: o.Sliders, Spinners: o.Spinners, MaxCombo: o.MaxCombo}
				w := ref.Derive(ref.Settings{HP: d.GetHP(), CS: d.GetCS(), OD: d.GetOD(), AR: d.GetAR(), Mods: m, Custom: 1})
				describe(x, a, d)
				x.State(core.NewH().I(c).U(m).Sum())
				for _, s := range scores(a) {
					for _, cb := range combos(a) {
						s.Combo = cb
						checkPP(x, a, s, d, w.ARReal, w.ODReal)
					}
				}
			}},
		}
	})

	register("C26", "one execution = one history of calls on one calculator; each result is compared with a fresh calculator and, for defaulted arguments, with the explicit call", func(th bool) []core.Scenario {
		type call struct {
			a ref.Attr
			s ref.Score
			p ppDiff
			m uint64
		}
		calls := []call{
			{starsA[0].on(attrsA[4]), ref.Score{Combo: -1, N300: -1, N100: 1, N50: 1, Miss: 1}, diffs[0], 0},
			{starsA[0].on(attrsA[4]), ref.Score{Combo: 9, N300: 9, Miss: 1}, diffs[0], ref.RX},
			{starsA[4].on(attrsA[16]), ref.Score{Combo: 1500, N300: 1900, N100: 50, N50: 26, Miss: 25}, diffs[1], ref.FL | ref.HD},
			{starsA[4].on(attrsA[16]), ref.Score{Combo: -1, N300: -1}, diffs[1], ref.V2},
			{starsA[1].on(attrsA[0]), ref.Score{Combo: -1, N300: -1}, diffs[2], 0},
			{starsA[3].on(attrsA[2]), ref.Score{Combo: 0, N50: 1}, diffs[3], ref.TD | ref.NF},
			{starsA[0].on(attrsA[3]), ref.Score{Combo: 1, N300: 1}, diffs[0], ref.SO},
			{starsA[5].on(attrsA[7]), ref.Score{Combo: 200, N300: 200}, diffs[8], ref.NF | ref.FL},
			{starsA[0].on(attrsA[5]), ref.Score{Combo: 3, N300: 80, N100: 20}, diffs[4], ref.RX | ref.FL},
		}
		depth := 3
		if th {
			depth = 5
		}
		fresh := func(c call) osu.PPv2Results {
			var pp osu.PPv2
			d, _, _ := c.p.make(c.m)
			return ppRun(&pp, c.a, c.s, d)
		}
		eq := func(a, b osu.PPv2Results) bool {
			return bits(a.Aim) == bits(b.Aim) && bits(a.Speed) == bits(b.Speed) && bits(a.Acc) == bits(b.Acc) && bits(a.Flashlight) == bits(b.Flashlight) && bits(a.Total) == bits(b.Total)
		}
		return []core.Scenario{
			{Name: "histories", Bound: fmt.Sprintf("all histories of %d calls over %d calls on one calculator", depth, len(calls)), Body: func(x *core.X) {
				var pp osu.PPv2
				var log []int
				x.Desc(func() string { return fmt.Sprint("calls ", log) })
				h := core.NewH()
				for i := 0; i < depth; i++ {
					k := x.Choose(len(calls))
					log = append(log, k)
					h = h.I(k)
					c := calls[k]
					d, _, _ := c.p.make(c.m)
					before := obsDiff(d)
					r := pp.PPv2x(attrOf(c.a), c.s.Combo, c.s.N300, c.s.N100, c.s.N50, c.s.Miss, d)
					x.Op(1)
					x.Trace(1)
					x.Assert(eq(r.Results, pp.Results), "the returned result %+v differs from the stored one %+v", r.Results, pp.Results)
					x.Assert(eq(r.Results, fresh(c)), "a used calculator gives %+v, a fresh one %+v for %+v %+v", r.Results, fresh(c), c.a, c.s)
					x.Assert(obsDiff(d) == before, "the difficulty was modified: %s, was %s", obsDiff(d), before)
					kept := r.Results
					if i+1 == depth {
						c2 := calls[(k+1)%len(calls)]
						d2, _, _ := c2.p.make(c2.m)
						pp.PPv2x(attrOf(c2.a), c2.s.Combo, c2.s.N300, c2.s.N100, c2.s.N50, c2.s.Miss, d2)
						x.Assert(eq(r.Results, kept), "a returned result changed during a later call")
					}
				}
				x.State(h.Sum())
			}},
			{Name: "shared-difficulty", Bound: "all histories of 3 calls over 4 mod sets on one calculator and one difficulty whose mods are changed in between", Body: func(x *core.X) {
				var pp osu.PPv2
				d := newDiff(5, 4, 8, 9, 0)
				h := core.NewH()
				for i := 0; i < 3; i++ {
					m := []uint64{0, ref.HR | ref.DT, ref.EZ | ref.HD, ref.FL | ref.RX}[x.Choose(4)]
					c := calls[x.Choose(4)]
					h = h.U(m).S(fmt.Sprint(c.s))
					d.SetMods(mods(m))
					g := ppRun(&pp, c.a, c.s, d)
					var p2 osu.PPv2
					w := ppRun(&p2, c.a, c.s, newDiff(5, 4, 8, 9, mods(m)))
					x.Op(1)
					x.Trace(1)
					x.Assert(eq(g, w), "pp with %s is %+v on the shared difficulty, %+v on a fresh one", ref.String(m), g, w)
				}
				x.State(h.Sum())
			}},
			{Name: "overcounted", Bound: "all count sets x star sets x difficulties x 128 mod sets x 100s, 50s and misses out of {0, 1, half, all, all and 7 more} which together are more than there are objects, with the number of 300s left out: as the formulas have it with the difference, or with none", Body: func(x *core.X) {
				a := starsA[[]int{0, 3, 2}[x.Choose(3)]].on(attrsA[x.Choose(len(attrsA))])
				p := diffs[x.Choose(3)]
				d, ar, od := p.make(subset(x.Choose(128)))
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).Sum())
				n := a.Objects
				vs := []int{0, 1, n / 2, n, n + 7}
				for i := 0; i < 125; i++ {
					s := ref.Score{Combo: a.MaxCombo, N300: -1, N100: vs[i%5], N50: vs[i/5%5], Miss: vs[i/25]}
					if s.N100+s.N50+s.Miss <= n {
						continue
					}
					x.Op(1)
					var pp osu.PPv2
					g := ppRun(&pp, a, s, d)
					why, ok := "", false
					for _, c := range []int{-1, 0} {
						t := s
						t.N300 = c
						for _, b := range []float64{0, 1e-9, -1e-9} {
							m := ppMismatch(g, ref.PPv2(a, t, uint64(d.Mods), ar, od, b))
							ok = ok || m == ""
							if why == "" {
								why = m
							}
						}
					}
					x.Trace(1)
					x.Assert(ok, "%s for %s, score %+v", why, refStr(a), s)
				}
			}},
			{Name: "defaults", Bound: "all count sets x star sets x scores x mod sets: combo -1, -7 and 300s -1, -5 against explicit values; zero maximum combo", Body: func(x *core.X) {
				a := starsA[x.Choose(len(starsA))].on(attrsA[x.Choose(len(attrsA))])
				m := subset(x.Choose(128))
				d, _, _ := diffs[x.Choose(3)].make(m)
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).Sum())
				mc := a.MaxCombo
				if mc < 1 {
					mc = 1
				}
				for _, s := range scores(a) {
					if s.N300+s.N100+s.N50+s.Miss != a.Objects {
						continue
					}
					x.Op(1)
					x.Trace(1)
					run := func(combo, n300 int, b ref.Attr) osu.PPv2Results {
						t := s
						t.Combo, t.N300 = combo, n300
						var pp osu.PPv2
						return ppRun(&pp, b, t, d)
					}
					w := run(mc, s.N300, a)
					for _, c := range []int{-1, -7} {
						x.Assert(eq(run(c, s.N300, a), w), "combo %d is not the maximum combo %d: %+v, want %+v (score %+v)", c, mc, run(c, s.N300, a), w, s)
						x.Assert(eq(run(mc, c, a), w), "300 count %d is not all other objects (%d): %+v, want %+v (score %+v)", c, s.N300, run(mc, c, a), w, s)
						x.Assert(eq(run(c, c, a), w), "combo and 300 count %d: %+v, want %+v (score %+v)", c, run(c, c, a), w, s)
					}
					z := a
					z.MaxCombo = 0
					o := a
					o.MaxCombo = 1
					for _, c := range []int{-1, 0, 1} {
						x.Assert(eq(run(c, s.N300, z), run(c, s.N300, o)), "a map without combo does not count as combo 1: %+v, want %+v (combo %d, score %+v)", run(c, s.N300, z), run(c, s.N300, o), c, s)
					}
				}
			}},
		}
	})

	register("C27", "one execution = one map, difficulty and mod set; every complete score (and combo) is computed and compared with all its worse neighbours", func(th bool) []core.Scenario {
		const slack = 1e-9
		le := func(a, b float64) bool { return a <= b+slack*math.Max(1, math.Abs(b)) }
		ordered := func(x *core.X, what string, better, worse osu.PPv2Results, s, t interface{}) {
			for _, c := range []struct {
				n    string
				b, w float64
			}{{"aim", better.Aim, worse.Aim}, {"speed", better.Speed, worse.Speed}, {"accuracy", better.Acc, worse.Acc}, {"flashlight", better.Flashlight, worse.Flashlight}, {"total", better.Total, worse.Total}} {
				if !le(c.w, c.b) {
					x.Fail("%s raises %s pp from %v to %v (%+v -> %+v)", what, c.n, c.b, c.w, s, t)
				}
			}
			x.Trace(1)
		}
		sane := func(x *core.X, r osu.PPv2Results, s interface{}) {
			for _, v := range []float64{r.Aim, r.Speed, r.Acc, r.Flashlight, r.Total} {
				x.Assert(v >= 0 && !math.IsInf(v, 0), "pp is %+v for %+v", r, s)
			}
		}
		mixes := []ref.Attr{at(1, 1, 0, 0, 1), at(1, 0, 1, 0, 3), at(2, 1, 1, 0, 4), at(3, 1, 1, 1, 7), at(5, 5, 0, 0, 5), at(6, 0, 6, 0, 20), at(7, 5, 1, 1, 9), at(9, 3, 5, 1, 17), at(2, 0, 0, 2, 2), at(3, 1, 0, 2, 3), at(6, 1, 1, 4, 8)}
		if th {
			mixes = append(mixes, at(12, 6, 5, 1, 30), at(10, 10, 0, 0, 10), at(11, 0, 10, 1, 41), at(12, 0, 12, 0, 24))
		}
		return []core.Scenario{
			{Name: "small-maps", Bound: fmt.Sprintf("all complete scores and combos of %d object mixes x 128 mod subsets x star sets x difficulties", len(mixes)), Body: func(x *core.X) {
				a := starsA[[]int{0, 3, 2}[x.Choose(3)]].on(mixes[x.Choose(len(mixes))])
				d, _, _ := diffs[[]int{0, 1, 2}[x.Choose(3)]].make(subset(x.Choose(128)))
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).Sum())
				n, mc := a.Objects, a.MaxCombo
				tab := map[ref.Score]osu.PPv2Results{}
				var pp osu.PPv2
				get := func(s ref.Score) osu.PPv2Results {
					r, ok := tab[s]
					if !ok {
						r = ppRun(&pp, a, s, d)
						x.Op(1)
						sane(x, r, s)
						tab[s] = r
					}
					return r
				}
				for n100 := 0; n100 <= n; n100++ {
					for n50 := 0; n50+n100 <= n; n50++ {
						for mi := 0; mi+n50+n100 <= n; mi++ {
							for c := 0; c <= mc; c++ {
								s := ref.Score{Combo: c, N300: n - n100 - n50 - mi, N100: n100, N50: n50, Miss: mi}
								r := get(s)
								try := func(what string, t ref.Score) { ordered(x, what, r, get(t), s, t) }
								if s.N300 > 0 {
									t := s
									t.N300--
									t.N100++
									try("turning a 300 into a 100", t)
									t = s
									t.N300--
									t.N50++
									try("turning a 300 into a 50", t)
									t = s
									t.N300--
									t.Miss++
									try("turning a 300 into a miss", t)
								}
								if s.N100 > 0 {
									t := s
									t.N100--
									t.N50++
									try("turning a 100 into a 50", t)
								}
								if c > 0 {
									t := s
									t.Combo--
									try("lowering the combo", t)
								}
							}
						}
					}
				}
			}},
			{Name: "large-maps", Bound: "boundary-sized maps x scores x combos: neighbours by one judgement, combo by one and by a tenth", Body: func(x *core.X) {
				k := 4 + x.Choose(len(attrsA)-4)
				ns, nd := 2, 5
				if th {
					ns, nd = 5, len(diffs)
				}
				a := starsA[x.Choose(ns)].on(attrsA[k])
				d, _, _ := diffs[x.Choose(nd)].make(subset(x.Choose(128)))
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).F(d.GetOD()).Sum())
				var pp osu.PPv2
				get := func(s ref.Score) osu.PPv2Results {
					x.Op(1)
					r := ppRun(&pp, a, s, d)
					sane(x, r, s)
					return r
				}
				for _, s := range scores(a) {
					if s.N300+s.N100+s.N50+s.Miss != a.Objects {
						continue
					}
					for _, c := range combos(a) {
						if c < 0 || c > a.MaxCombo {
							continue
						}
						s.Combo = c
						r := get(s)
						if s.N300 > 0 {
							for i := 0; i < 3; i++ {
								t := s
								t.N300--
								switch i {
								case 0:
									t.N100++
								case 1:
									t.N50++
								default:
									t.Miss++
								}
								ordered(x, "a worse judgement", r, get(t), s, t)
							}
						}
						if s.N100 > 0 {
							t := s
							t.N100--
							t.N50++
							ordered(x, "turning a 100 into a 50", r, get(t), s, t)
						}
						for _, dc := range []int{1, a.MaxCombo/10 + 1} {
							if c >= dc {
								t := s
								t.Combo -= dc
								ordered(x, "lowering the combo", r, get(t), s, t)
							}
						}
					}
				}
			}},
			{Name: "partial", Bound: "every partial score (no hit at all to every object) and combo of the object mixes and of four empty or single-kind maps x 128 mod subsets x star sets x difficulties: finite and not negative (SpunOut: with at least as many judgements as spinners)", Body: func(x *core.X) {
				all := append([]ref.Attr{at(0, 0, 0, 0, 0), at(5, 0, 0, 5, 5), at(1, 0, 0, 1, 1), at(4, 0, 4, 0, 12)}, mixes[:9]...)
				a := all[x.Choose(len(all))]
				si := x.Choose(3)
				a = starsA[[]int{0, 3, 2}[si]].on(a)
				d, _, _ := diffs[[]int{0, 1, 2}[x.Choose(3)]].make(subset(x.Choose(128)))
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).Sum())
				var pp osu.PPv2
				n := a.Objects
				for n300 := 0; n300 <= n; n300++ {
					for n100 := 0; n100+n300 <= n; n100++ {
						for n50 := 0; n50+n100+n300 <= n; n50++ {
							for mi := 0; mi+n50+n100+n300 <= n; mi++ {
								for c := 0; c <= a.MaxCombo; c += 1 + a.MaxCombo/4 {
									s := ref.Score{Combo: c, N300: n300, N100: n100, N50: n50, Miss: mi}
									if d.CheckModActive(difficulty.SpunOut) && n300+n100+n50+mi < a.Spinners {
										continue // the published SpunOut factor is not meant for fewer hits than spinners
									}
									sane(x, ppRun(&pp, a, s, d), s)
									x.Op(1)
									x.Trace(1)
								}
							}
						}
					}
				}
			}},
			{Name: "ratings", Bound: "star grids: raising the aim, speed or flashlight rating, x count sets x scores x mod subsets", Body: func(x *core.X) {
				a := attrsA[1+x.Choose(len(attrsA)-1)]
				d, _, _ := diffs[x.Choose(4)].make(subset(x.Choose(128)))
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).Sum())
				var pp osu.PPv2
				grid := []float64{0, 0.01, 0.0674, 0.0675, 0.0676, 0.1, 0.5, 0.99, 1, 1.01, 2, 3.5, 5, 8, 12}
				for _, s := range scores(a) {
					if s.N300+s.N100+s.N50+s.Miss != a.Objects {
						continue
					}
					s.Combo = a.MaxCombo - s.Miss
					if s.Combo < 0 {
						s.Combo = 0
					}
					for which := 0; which < 3; which++ {
						prev := osu.PPv2Results{}
						for i, g := range grid {
							b := starsA[0].on(a)
							switch which {
							case 0:
								b.Aim = g
							case 1:
								b.Speed = g
							default:
								b.Flashlight = g
							}
							r := ppRun(&pp, b, s, d)
							x.Op(1)
							sane(x, r, s)
							if i > 0 {
								x.Assert(le(prev.Total, r.Total), "raising the %s rating from %v to %v lowers the total pp from %v to %v (%+v)", []string{"aim", "speed", "flashlight"}[which], grid[i-1], g, prev.Total, r.Total, s)
								x.Trace(1)
							}
							prev = r
						}
					}
				}
			}},
			{Name: "mods", Bound: "adding NoFail, SpunOut, Hidden to each of the mod subsets x difficulties (real AR up to 11) x count sets x scores x combos", Body: func(x *core.X) {
				all := append(append([]ref.Attr{}, attrsA...), mixes...)
				a := starsA[[]int{0, 4, 2}[x.Choose(3)]].on(all[x.Choose(len(all))])
				p := diffs[x.Choose(len(diffs))]
				m := subset(x.Choose(128))
				d, ar, _ := p.make(m)
				x.Desc(func() string { return refStr(a) + " with " + showDiff(d) })
				x.State(core.NewH().S(refStr(a)).U(uint64(d.Mods)).F(d.GetAR()).F(d.GetOD()).Sum())
				var pp osu.PPv2
				for _, s := range scores(a) {
					if s.N300+s.N100+s.N50+s.Miss != a.Objects {
						continue
					}
					for i, c := range combos(a) {
						if c < 0 || c > a.MaxCombo || i > 4 {
							continue
						}
						s.Combo = c
						r := ppRun(&pp, a, s, d)
						sane(x, r, s)
						x.Op(1)
						for _, b := range []uint64{ref.NF, ref.SO} {
							if m&b == 0 {
								d2, _, _ := p.make(m | b)
								ordered(x, "adding "+ref.String(b), r, ppRun(&pp, a, s, d2), s, s)
							}
						}
						if m&ref.HD == 0 && ar <= 11 {
							d2, _, _ := p.make(m | ref.HD)
							ordered(x, "removing Hidden", ppRun(&pp, a, s, d2), r, s, s)
						}
					}
				}
			}},
		}
	})
}
