package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
	"vmc/ref"
)

func init() {
	register("C24", "one execution = one map under one base mod set; every combination of up to two further mods is rated and compared", func(th bool) []core.Scenario {
		relevant := []uint64{ref.EZ, ref.HR, ref.DT, ref.HT, ref.FL, ref.RX}
		rel := uint64(0)
		for _, b := range relevant {
			rel |= b
		}
		var other []uint64 // every bit that must not matter; NC and DC have their own scenario
		for i := 0; i < 32; i++ {
			if b := uint64(1) << uint(i); b&rel == 0 && b != ref.NC && b != ref.DC {
				other = append(other, b)
			}
		}
		const nMaps = 7 // five made here, two real ones
		// The maps come from parsed files so that stacking is the library's own.
		getMap := func(x *core.X, k int) *beatmap.BeatMap {
			key := fmt.Sprint("map", k)
			if b, ok := x.Local[key]; ok {
				return b.(*beatmap.BeatMap)
			}
			if k >= 5 {
				b := parse(x, corpora[k-5])
				x.Local[key] = b
				return b
			}
			f := stdSpec(stream(k%4, []int{12, 14, 12, 16, 60}[k]))
			f.cs, f.ar, f.od = []float64{4, 5.8, 2, 6.5, 4}[k], []float64{9, 3, 5, 10, 8}[k], []float64{8, 2, 10, 5, 7}[k]
			b := parse(x, f.text())
			x.Local[key] = b
			return b
		}
		type rated struct {
			a osu.Attributes
			p osu.StrainPeaks
		}
		rateAll := func(x *core.X, objs []objects.IHitObject, d *difficulty.Difficulty) rated {
			a, p := osu.CalculateSingleWithPeaks(objs, d)
			x.Op(1)
			return rated{a, p}
		}
		withMods := func(x *core.X, k int, m uint64, custom float64) rated {
			bm := getMap(x, k)
			d := bm.Difficulty
			d.SetMods(mods(m))
			d.SetCustomSpeed(custom)
			return rateAll(x, bm.HitObjects, d)
		}
		same := func(x *core.X, a, b rated, tol float64, what string) {
			if m := sameAttr(a.a, b.a, tol); m != "" {
				x.Fail("%s: %s", what, m)
			}
			if m := samePeaks(a.p, b.p, tol); m != "" {
				x.Fail("%s: %s", what, m)
			}
			x.Trace(1)
		}
		subset := func(x *core.X) (m uint64) {
			for _, b := range relevant {
				if x.Bool() {
					m |= b
				}
			}
			return
		}
		return []core.Scenario{
			{Name: "irrelevant", Bound: fmt.Sprintf("all 64 subsets of the relevant mods x every set of up to two (thorough three) of the %d other mods, and all of them together, x %d maps", len(other), nMaps), Body: func(x *core.X) {
				k := x.Choose(nMaps)
				m := subset(x)
				i := x.Choose(len(other))
				cur := m
				x.Desc(func() string { return fmt.Sprintf("map %d: %s versus %s", k, ref.String(m), ref.String(cur)) })
				w := withMods(x, k, m, 1)
				try := func(e uint64) {
					cur = m | e
					x.State(core.NewH().I(k).U(cur).Sum())
					same(x, withMods(x, k, cur, 1), w, 1e-12, fmt.Sprintf("adding %s to %q changes the rating", ref.String(e), ref.String(m)))
				}
				try(other[i])
				for j := i + 1; j < len(other); j++ {
					try(other[i] | other[j])
					if th && k < 5 {
						for l := j + 1; l < len(other); l++ {
							try(other[i] | other[j] | other[l])
						}
					}
				}
				if i == 0 {
					e := uint64(0)
					for _, o := range other {
						e |= o
					}
					try(e)
				}
			}},
			{Name: "variants", Bound: "all 64 subsets x Nightcore with DoubleTime, Daycore with HalfTime (alone and both) x custom speeds x maps", Body: func(x *core.X) {
				k := x.Choose(nMaps)
				m := subset(x)
				c := []float64{1, 1.3, 0.8}[x.Choose(3)]
				x.Desc(func() string { return fmt.Sprintf("map %d %s speed %v", k, ref.String(m), c) })
				w := withMods(x, k, m, c)
				if m&ref.DT != 0 {
					x.State(core.NewH().I(k).U(m | ref.NC).F(c).Sum())
					same(x, withMods(x, k, m|ref.NC, c), w, 1e-12, "Nightcore with DoubleTime differs from DoubleTime")
				}
				if m&ref.HT != 0 {
					x.State(core.NewH().I(k).U(m | ref.DC).F(c).Sum())
					same(x, withMods(x, k, m|ref.DC, c), w, 1e-12, "Daycore with HalfTime differs from HalfTime")
				}
				if m&(ref.DT|ref.HT) == 0 { // custom speed equivalents
					same(x, withMods(x, k, m, c*1.5), withMods(x, k, m|ref.DT, c), 1e-6, fmt.Sprintf("a custom speed of %v differs from DoubleTime at %v", c*1.5, c))
					same(x, withMods(x, k, m, c*0.75), withMods(x, k, m|ref.HT, c), 1e-6, fmt.Sprintf("a custom speed of %v differs from HalfTime at %v", c*0.75, c))
				}
			}},
			{Name: "flashlight-relax", Bound: "all subsets of the other relevant mods with and without Flashlight and Relax x maps", Body: func(x *core.X) {
				k := x.Choose(nMaps)
				m := subset(x) &^ (ref.FL | ref.RX)
				x.Desc(func() string { return fmt.Sprintf("map %d %s", k, ref.String(m)) })
				x.State(core.NewH().I(k).U(m).Sum())
				n, f, r, b := withMods(x, k, m, 1), withMods(x, k, m|ref.FL, 1), withMods(x, k, m|ref.RX, 1), withMods(x, k, m|ref.FL|ref.RX, 1)
				strip := func(q rated, fl, sp bool) rated {
					q.a.Total, q.p.Total = 0, nil
					if fl {
						q.a.Flashlight, q.p.Flashlight = 0, nil
					}
					if sp {
						q.a.Speed = 0
					}
					return q
				}
				same(x, strip(f, true, false), strip(n, true, false), 1e-12, "Flashlight changes more than the flashlight and total rating")
				same(x, strip(r, false, true), strip(n, false, true), 1e-12, "Relax changes more than the speed and total rating")
				same(x, strip(b, false, true), strip(f, false, true), 1e-12, "Relax with Flashlight changes more than the speed and total rating")
				x.Assert(n.a.Flashlight == 0 && len(n.p.Flashlight) == 0 || m&ref.FL != 0, "flashlight rating %v without Flashlight", n.a.Flashlight)
				x.Assert(r.a.Speed == 0 && b.a.Speed == 0, "speed rating %v with Relax", r.a.Speed)
				x.Assert(f.a.Flashlight > 0 && f.a.Total > n.a.Total, "Flashlight does not raise the total rating: %v versus %v", f.a.Total, n.a.Total)
				x.Assert(r.a.Total < n.a.Total, "Relax does not lower the total rating: %v versus %v", r.a.Total, n.a.Total)
			}},
			{Name: "custom-speed", Bound: "custom speeds 0.1..4 in steps of 0.05 x maps: rating equals the model's at that clock rate", Body: func(x *core.X) {
				k := x.Choose(nMaps)
				c := 0.1 + 0.05*float64(x.Choose(79))
				m := []uint64{0, ref.HR, ref.FL | ref.EZ, ref.HD | ref.NF}[x.Choose(4)]
				bm := getMap(x, k)
				d := bm.Difficulty
				d.SetMods(mods(m))
				d.SetCustomSpeed(c)
				x.Desc(func() string { return fmt.Sprintf("map %d %s speed %v", k, ref.String(m), c) })
				x.State(core.NewH().I(k).U(m).F(c).Sum())
				checkComposed(x, bm.HitObjects, d)
			}},
		}
	})

	register("C30", "one execution = one object sequence; every symmetry of it is rated and compared", func(th bool) []core.Scenario {
		// letters keep 3 px apart and straight, so that no stacks arise and curve flattening plays no role
		letters := []ol{cir(100, 100), cir(180, 130), cir(400, 300), cir(256, 60), sli(120, 200, "L|300:200", 1, 172), sli(330, 340, "L|330:250", 3, 75), sli(60, 60, "L|90:60|90:200", 2, 163), spi}
		dts := []float64{150, 85, 700}
		depth := 3
		if th {
			depth = 4
		}
		mapSpec := func(f *fileSpec, obj func(ol) ol, tmul, tadd float64) *fileSpec {
			g := *f
			g.ps = nil
			for _, p := range f.ps {
				l := obj(p.l)
				l.dur *= tmul
				g.ps = append(g.ps, placed{l, p.t*tmul + tadd, 0})
			}
			g.tps = nil
			for _, t := range f.tps {
				b := t[1]
				if b > 0 {
					b *= tmul
				}
				g.tps = append(g.tps, [2]float64{t[0]*tmul + tadd, b})
			}
			return &g
		}
		mirror := func(v bool) func(ol) ol {
			return func(l ol) ol {
				if l.kind == ref.Spinner {
					return l
				}
				fl := func(px, py float64) (float64, float64) {
					if v {
						return px, 384 - py
					}
					return 512 - px, py
				}
				l.x, l.y = fl(l.x, l.y)
				if l.kind == ref.Slider {
					out := "L"
					first := true
					for _, s := range splitBar(l.path) {
						if first {
							out, first = s, false
							continue
						}
						var a, b float64
						fmt.Sscanf(s, "%g:%g", &a, &b)
						a, b = fl(a, b)
						out += fmt.Sprintf("|%v:%v", a, b)
					}
					l.path = out
				}
				return l
			}
		}
		id := func(l ol) ol { return l }
		get := func(x *core.X, f *fileSpec, m uint64, tune func(d *difficulty.Difficulty)) (osu.Attributes, osu.StrainPeaks, *difficulty.Difficulty) {
			d := newDiff(5, f.cs, f.od, f.ar, mods(m))
			if tune != nil {
				tune(d)
			}
			objs := build(f.ps, f.sm, f.tr, f.tps, d)
			a, p := osu.CalculateSingleWithPeaks(objs, d)
			x.Op(1)
			return a, p, d
		}
		// times of features that are shared by both sides may round differently and cross a threshold,
		// in which case the model must agree that the two sides lie on different sides of it
		cmp := func(x *core.X, what string, f *fileSpec, m uint64, a osu.Attributes, p osu.StrainPeaks, b osu.Attributes, q osu.StrainPeaks, tol float64) {
			x.Trace(1)
			ma, mp := sameAttr(a, b, tol), samePeaks(p, q, tol)
			if ma == "" && mp == "" {
				return
			}
			var okA, okB bool
			for _, tie := range []float32{0, 1e-3, -1e-3} {
				for _, bias := range ref.AllBiases {
					w := f.refRate(m, 1, bias, tie, false)
					okA = okA || ratingMismatch(a, w.Steps[0], 3e-5) == ""
					okB = okB || ratingMismatch(b, w.Steps[0], 3e-5) == ""
				}
			}
			if okA && okB && (ma != "" || mp == "") {
				return // a rounding-sensitive comparison sits exactly on its threshold
			}
			x.Fail("%s changes the rating: %s %s", what, ma, mp)
		}
		word := func(x *core.X) *fileSpec {
			var ls []ol
			var g []float64
			for i := 0; i < depth; i++ {
				c := x.Choose(len(letters) * len(dts))
				ls, g = append(ls, letters[c/len(dts)]), append(g, dts[c%len(dts)])
			}
			f := stdSpec(placeWord([]placed{{cir(256, 192), 1000, 0}, {cir(200, 100), 1150, 0}}, ls, g))
			return f
		}
		describe := func(x *core.X, f *fileSpec, m uint64) {
			x.Desc(func() string { return fmt.Sprintf("%s with %q CS %v", showPlaced(f.ps), ref.String(m), f.cs) })
			h := core.NewH().U(m).F(f.cs)
			for _, p := range f.ps {
				h = h.I(int(p.l.kind)).F(p.l.x).F(p.l.y).S(p.l.path).F(p.t)
			}
			x.State(h.Sum())
		}
		all := func(x *core.X, f *fileSpec, m uint64) {
			describe(x, f, m)
			a, p, d := get(x, f, m, nil)
			rt := rateOf(d)
			for _, v := range []bool{false, true} {
				b, q, _ := get(x, mapSpec(f, mirror(v), 1, 0), m, nil)
				cmp(x, fmt.Sprintf("mirroring (vertically: %v)", v), f, m, a, p, b, q, 3e-5)
			}
			for _, n := range []float64{1, 54001, -9001, 2000001} { // up to 6 hours, and 9 days
				b, q, _ := get(x, mapSpec(f, id, 1, n*400*rt), m, nil)
				cmp(x, fmt.Sprintf("shifting by %v sections", n), f, m, a, p, b, q, 3e-5)
			}
			sliders := false
			for _, p := range f.ps {
				sliders = sliders || p.l.kind == ref.Slider
			}
			if m&(ref.DT|ref.HT) == 0 && !sliders {
				for _, s := range []struct {
					bit  uint64
					rate float64
				}{{ref.DT, 1.5}, {ref.HT, 0.75}} {
					b, q, _ := get(x, f, m|s.bit, nil)
					c, r, _ := get(x, mapSpec(f, id, 1/s.rate, 0), m, func(d *difficulty.Difficulty) { d.Hit300 /= s.rate })
					cmp(x, fmt.Sprintf("playing the map with times divided by %v instead of %s", s.rate, ref.String(s.bit)), f, m|s.bit, b, q, c, r, 3e-5)
				}
			}
			if m&(ref.HR|ref.EZ) == 0 {
				b, q, _ := get(x, f, m|ref.HR, nil)
				up := func(v, k float64) float64 { return math.Min(10, v*k) }
				g := mapSpec(f, mirror(true), 1, 0)
				g.cs, g.ar, g.od = up(f.cs, 1.3), up(f.ar, 1.4), up(f.od, 1.4)
				c, r, _ := get(x, g, m, nil)
				cmp(x, "playing the mirrored map with increased settings instead of HardRock", f, m|ref.HR, b, q, c, r, 3e-5)
			}
		}
		curvy := func(x *core.X, f *fileSpec, m uint64) {
			describe(x, f, m)
			a, p, d := get(x, f, m, nil)
			for _, v := range []bool{false, true} {
				b, q, _ := get(x, mapSpec(f, mirror(v), 1, 0), m, nil)
				x.Trace(1)
				if ma, mp := sameAttr(a, b, 1e-5), samePeaks(p, q, 1e-5); ma+mp != "" {
					x.Fail("mirroring (vertically: %v) changes the rating: %s %s", v, ma, mp)
				}
			}
			b, q, _ := get(x, mapSpec(f, id, 1, 54001*400*rateOf(d)), m, nil)
			cmp(x, "shifting", f, m, a, p, b, q, 3e-5)
		}
		return []core.Scenario{
			{Name: "words", Bound: fmt.Sprintf("all words of %d letters over %d objects x gaps %v after two notes, all symmetries, without mods", depth, len(letters), dts), Body: func(x *core.X) {
				all(x, word(x), 0)
			}},
			{Name: "outside", Bound: fmt.Sprintf("all words of %d letters over 11 objects outside of the playfield, sliders leaving it on every side and ones inside, x gaps {150,700}, after two notes x {none, FL}, all symmetries", depth-1), Body: func(x *core.X) {
				out := []ol{cir(100, 100), cir(-150, 90), cir(640, 420), cir(256, -120), cir(300, 560), sli(60, 200, "L|-300:200", 1, 350), sli(460, 104, "L|900:104", 1, 400), sli(103, 330, "L|103:700", 1, 360), sli(297, 60, "L|297:-300", 2, 350), sli(400, 350, "L|700:350|700:600", 3, 500), sli(330, 340, "L|330:250", 3, 75)}
				gs := []float64{150, 700}
				m := []uint64{0, ref.FL}[x.Choose(2)]
				var ls []ol
				var g []float64
				for i := 0; i < depth-1; i++ {
					c := x.Choose(len(out) * len(gs))
					ls, g = append(ls, out[c/len(gs)]), append(g, gs[c%len(gs)])
				}
				ls, g = append(ls, cir(210, 230)), append(g, 200)
				all(x, stdSpec(placeWord([]placed{{cir(256, 192), 1000, 0}, {cir(200, 103), 1150, 0}}, ls, g)), m)
			}},
			{Name: "mods", Bound: "4 patterns x 2..40 objects x 8 mod sets x CS, all symmetries", Body: func(x *core.X) {
				k := x.Choose(3)
				n := 2 + x.Choose(39)
				m := []uint64{0, ref.FL, ref.EZ, ref.HR, ref.DT, ref.HT | ref.FL, ref.RX, ref.HD}[x.Choose(8)]
				f := stdSpec(stream(k, n))
				f.cs = []float64{4, 6.5, 2}[x.Choose(3)]
				all(x, f, m)
			}},
			{Name: "turns", Bound: "all words of 3 turns over 13 sizes (0..180 degrees) left or right x 3 distances x gaps {60,110,300} x 3 mod sets", Body: func(x *core.X) {
				m := []uint64{0, ref.HR | ref.FL, ref.DT}[x.Choose(3)]
				g := []float64{60, 110, 300}[x.Choose(3)]
				dist := []float64{30, 77, 160}[x.Choose(3)]
				turns := []float64{0, 3, 8, 30, 45, 60, 90, 120, 150, 165, 173, 178, 180}
				r8 := func(v float64) float64 { return math.Round(v*8) / 8 }
				px, py, dir := 256.0, 192.0, 0.3
				ps := []placed{{cir(px, py), 1000, 0}}
				step := func() {
					px, py = px+dist*math.Cos(dir), py+dist*math.Sin(dir)
					ps = append(ps, placed{cir(r8(px), r8(py)), 1000 + g*float64(len(ps)), 0})
				}
				step()
				for i := 0; i < 3; i++ {
					k := x.Choose(2*len(turns) - 1)
					if k < len(turns) {
						dir += math.Pi / 180 * turns[k]
					} else {
						dir -= math.Pi / 180 * turns[k-len(turns)+1]
					}
					step()
				}
				all(x, stdSpec(ps), m)
			}},
			{Name: "rhythms", Bound: "all words of 6 gaps over {60, 85, 110, 160} ms x OD {0, 4, 8, 10} x 2 mod sets, 10 circles, all symmetries", Body: func(x *core.X) {
				od := []float64{4, 8, 0, 10}[x.Choose(4)]
				m := []uint64{0, ref.FL | ref.EZ}[x.Choose(2)]
				at := 1000.0
				ps := []placed{{cir(100, 100), at, 0}}
				for i := 0; i < 9; i++ {
					g := 110.0
					if i >= 2 && i < 8 {
						g = []float64{60, 110, 85, 160}[x.Choose(4)]
					}
					at += g
					ps = append(ps, placed{cir(float64(100+(i*7%5)*40+i*3), float64(90+(i*3%4)*50+i*5)), at, 0})
				}
				f := stdSpec(ps)
				f.od = od
				all(x, f, m)
			}},
			{Name: "fast", Bound: "all words of 5 gaps over {4, 18, 30, 36, 70} ms x 3 mod sets, 8 circles, all symmetries", Body: func(x *core.X) {
				m := []uint64{0, ref.FL, ref.EZ | ref.HD}[x.Choose(3)]
				at := 1000.0
				ps := []placed{{cir(100, 100), at, 0}}
				for i := 0; i < 7; i++ {
					g := 70.0
					if i < 5 {
						g = []float64{18, 30, 36, 4, 70}[x.Choose(5)]
					}
					at += g
					ps = append(ps, placed{cir(float64(100+(i*7%5)*40+i*3), float64(90+(i*3%4)*50+i*5)), at, 0})
				}
				all(x, stdSpec(ps), m)
			}},
			{Name: "long", Bound: "maps of 60..600 objects in every order of two letters and gaps (a de Bruijn sequence, beginning anywhere), at scattered places x 3 mod sets, all symmetries", Body: func(x *core.X) {
				w := deBruijn(len(letters)*len(dts), 2)
				rot := x.Choose(24) * 24
				n := []int{60, 110, 210, 576}[x.Choose(4)]
				var ls []ol
				var g []float64
				for i := 0; i < n; i++ {
					c := w[(i+rot)%len(w)]
					l := letters[c/len(dts)]
					// equal steps of 5 px, so that the same letter never lies where it lay before
					dx, dy := float64(i*5%35), float64(i*7%42)
					if l.kind != ref.Spinner {
						l.x, l.y = l.x+dx, l.y+dy
						if l.kind == ref.Slider {
							out := "L"
							for _, s := range splitBar(l.path)[1:] {
								var a, b float64
								fmt.Sscanf(s, "%g:%g", &a, &b)
								out += fmt.Sprintf("|%v:%v", a+dx, b+dy)
							}
							l.path = out
						}
					}
					ls, g = append(ls, l), append(g, dts[c%len(dts)])
				}
				all(x, stdSpec(placeWord([]placed{{cir(256, 192), 1000, 0}, {cir(200, 100), 1150, 0}}, ls, g)), []uint64{0, ref.FL | ref.DT, ref.HT}[x.Choose(3)])
			}},
			{Name: "curves", Bound: "a slider along an arc which bends by 0.6 to 100 px in 8 directions, or a Bezier or Catmull curve of 3 shapes in 8 directions, between notes x 1 or 2 spans x 3 mod sets, mirrored and shifted", Body: func(x *core.X) {
				m := []uint64{0, ref.FL, ref.HR}[x.Choose(3)]
				dx := []float64{1, 0.8, 0, -0.6, -1, -0.8, 0, 0.6}
				k := x.Choose(8)
				ux, uy := dx[k], dx[(k+6)%8]
				at := func(a, b float64) string {
					return fmt.Sprintf("|%v:%v", float32(240+a*ux-b*uy), float32(190+a*uy+b*ux))
				}
				var path string
				var l float64
				if j := x.Choose(12); j < 6 {
					h := []float64{0.6, 1.5, 4, 15, 50, 100}[j]
					path, l = "P"+at(80, h)+at(160, 0), 150
				} else {
					h := []float64{5, 60, 140}[j%3]
					path, l = map[bool]string{true: "B", false: "C"}[j < 9]+at(50, h)+at(110, -h/2)+at(160, 20), 150
				}
				s := sli(240, 190, path, 1+x.Choose(2), l)
				curvy(x, stdSpec([]placed{{cir(256, 192), 1000, 0}, {cir(200, 103), 1150, 0}, {s, 1400, 0}, {cir(100, 60), 2600, 0}, {cir(180, 330), 2750, 0}, {cir(330, 90), 2900, 0}}), m)
			}},
			{Name: "files", Bound: "patterns without stacks, mirrored and shifted in the file itself", Body: func(x *core.X) {
				k := x.Choose(3)
				n := 2 + x.Choose(30)
				m := []uint64{0, ref.DT | ref.FL, ref.HT}[x.Choose(3)]
				f := stdSpec(stream(k, n))
				f.len = 0
				describe(x, f, m)
				rt := ref.Settings{Mods: m, Custom: 1}.Rate()
				get := func(f *fileSpec) (osu.Attributes, osu.StrainPeaks) {
					bm := parse(x, f.text())
					bm.Difficulty.SetMods(mods(m))
					for _, o := range bm.HitObjects {
						if o.GetStackIndex(0) != 0 {
							x.Local["stacked"] = true
						}
					}
					return osu.CalculateSingleWithPeaks(bm.HitObjects, bm.Difficulty)
				}
				x.Local["stacked"] = false
				a, p := get(f)
				for _, g := range []*fileSpec{mapSpec(f, mirror(false), 1, 0), mapSpec(f, mirror(true), 1, 0), mapSpec(f, id, 1, 400*rt), mapSpec(f, id, 1, 4000*rt), mapSpec(f, id, 1, 800000400*rt)} {
					b, q := get(g)
					if x.Local["stacked"] == false {
						cmp(x, "mirroring or shifting the file", f, m, a, p, b, q, 3e-5)
					}
				}
			}},
		}
	})
}

func splitBar(s string) (out []string) {
	cur := ""
	for _, r := range s {
		if r == '|' {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(r)
	}
	return append(out, cur)
}
