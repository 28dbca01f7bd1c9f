package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
	"vmc/ref"
)

// fileSpec is a whole beatmap: everything the star rating may depend on.
type fileSpec struct {
	cs, od, ar, sm, tr, len float64
	version                 int
	tps                     [][2]float64 // time, beat length (negative: inherited)
	ps                      []placed
}

func stdSpec(ps []placed) *fileSpec {
	return &fileSpec{cs: 4, od: 8, ar: 9, sm: 1.4, tr: 1, len: 0.7, version: 14, tps: [][2]float64{{0, 500}}, ps: ps}
}

func (f *fileSpec) text() string {
	t := base()
	t.Version = fmt.Sprint(f.version)
	t.General[2] = "StackLeniency: " + f64(f.len)
	t.Diff = []string{"HPDrainRate:5", "CircleSize:" + f64(f.cs), "OverallDifficulty:" + f64(f.od), "ApproachRate:" + f64(f.ar), "SliderMultiplier:" + f64(f.sm), "SliderTickRate:" + f64(f.tr)}
	t.Times = nil
	for _, p := range f.tps {
		un := 1
		if p[1] < 0 {
			un = 0
		}
		t.Times = append(t.Times, fmt.Sprintf("%s,%s,4,1,1,100,%d,0", f64(p[0]), f64(p[1]), un))
	}
	for _, p := range f.ps {
		t.Obj = append(t.Obj, p.l.line(p.t))
	}
	return t.Text()
}

// linePath evaluates a linear slider path of the given length.
func linePath(l ol) func(d float64) ref.P2 {
	pts := []ref.P2{{X: l.x, Y: l.y}}
	for _, s := range strings.Split(l.path, "|")[1:] {
		var p ref.P2
		fmt.Sscanf(s, "%g:%g", &p.X, &p.Y)
		if p != pts[len(pts)-1] {
			pts = append(pts, p)
		}
	}
	return func(d float64) ref.P2 {
		if len(pts) == 1 {
			return pts[0]
		}
		for i := 1; ; i++ {
			s := pts[i].Dist(pts[i-1])
			if d <= s || i == len(pts)-1 {
				return pts[i-1].Add(pts[i].Sub(pts[i-1]).Mul(d / s))
			}
			d -= s
		}
	}
}

// refObjs builds the model's objects from the specification alone: timing, slider geometry
// (linear paths), stacking and mod transformation are all the model's own.
func (f *fileSpec) refObjs(m uint64) []*ref.PObj {
	tm := refTiming(f.sm, f.tr, f.tps...)
	flip := func(p ref.P2) ref.P2 {
		if m&ref.HR != 0 {
			p.Y = 384 - p.Y
		}
		return p
	}
	v32 := func(p ref.P2) ref.V { return ref.V{X: float32(p.X), Y: float32(p.Y)} }
	out := make([]*ref.PObj, len(f.ps))
	raw := make([]func(float64) ref.P2, len(f.ps))
	so := make([]ref.SObj, len(f.ps))
	for i, p := range f.ps {
		o := &ref.PObj{Kind: p.l.kind, Start: p.t, End: p.t}
		raw[i] = func(float64) ref.P2 { return ref.P2{X: p.l.x, Y: p.l.y} }
		switch p.l.kind {
		case ref.Slider:
			o.Spans = p.l.spans
			path := linePath(p.l)
			length := p.l.length
			if path(1) == path(0) {
				length = 0 // a path without extent cannot be extended
			}
			o.End, o.Points = tm.SliderPoints(p.t, length, p.l.spans, 0)
			span := (o.End - o.Start) / float64(o.Spans)
			raw[i] = func(t float64) ref.P2 {
				q := (t - p.t) / span
				if !(q > 0) {
					q = 0
				}
				if q > float64(p.l.spans) {
					q = float64(p.l.spans)
				}
				k := math.Floor(q)
				fr := q - k
				if int(k)%2 == 1 {
					fr = 1 - fr
				}
				return path(fr * length)
			}
		case ref.Spinner:
			o.End = p.t + p.l.dur
			raw[i] = func(float64) ref.P2 { return ref.P2{X: 256, Y: 192} }
		}
		so[i] = ref.SObj{Kind: o.Kind, Start: o.Start, End: o.End, P: v32(raw[i](o.Start)), E: v32(raw[i](o.End))}
		out[i] = o
	}
	d := ref.Derive(ref.Settings{CS: f.cs, AR: f.ar, OD: f.od, Mods: m & (ref.HR | ref.EZ), Custom: 1})
	h := ref.StackHeights(so, f.version, d.Preempt, f.len)
	for i, o := range out {
		off := -d.Radius / 10 * float64(h[i])
		at := raw[i]
		o.At = func(t float64) ref.V { return v32(flip(at(t)).Add(ref.P2{X: off, Y: off})) }
		o.P, o.E = o.At(o.Start), o.At(o.End)
	}
	return out
}

// refRate rates the specification with the model only.
func (f *fileSpec) refRate(m uint64, custom float64, bias ref.Bias, tie float32, steps bool) *ref.Result {
	d := ref.Derive(ref.Settings{CS: f.cs, AR: f.ar, OD: f.od, Mods: m, Custom: custom})
	o := f.refObjs(m)
	for _, p := range o {
		p.Tie = tie
	}
	return ref.Rate(o, d.Radius, d.H300, d.Rate, m, bias, steps)
}

func ratingMismatch(a osu.Attributes, w ref.Attr, tol float64) string {
	for _, c := range []struct {
		n    string
		g, w float64
	}{{"total", a.Total, w.Total}, {"aim", a.Aim, w.Aim}, {"slider factor", a.SliderFactor, w.SliderFactor}, {"speed", a.Speed, w.Speed}, {"flashlight", a.Flashlight, w.Flashlight}} {
		if !ref.Close(c.g, c.w, tol) && math.Abs(c.g-c.w) > tol*0.1 {
			return fmt.Sprintf("%s is %v, want %v\n got  %s\n want %s", c.n, c.g, c.w, attrStr(a), refStr(w))
		}
	}
	return ""
}

func countsMismatch(a osu.Attributes, w ref.Attr) string {
	if a.ObjectCount != w.Objects || a.Circles != w.Circles || a.Sliders != w.Sliders || a.Spinners != w.Spinners || a.MaxCombo != w.MaxCombo {
		return fmt.Sprintf("counts differ\n got  %s\n want %s", attrStr(a), refStr(w))
	}
	return ""
}

// checkComposed compares the rating of parsed objects with the model run on their public positions.
func checkComposed(x *core.X, objs []objects.IHitObject, d *difficulty.Difficulty) osu.Attributes {
	a := osu.CalculateSingle(objs, d)
	x.Op(len(objs))
	if len(objs) == 0 {
		x.Assert(a == osu.Attributes{}, "the rating of no objects is %s", attrStr(a))
		return a
	}
	why := ""
	// the clock rate, and what is left of it when it is kept as its inverse
	rates, bs := []float64{rateOf(d)}, biasesFor(objs, d)
	if r := 1 / (1 / rates[0]); r != rates[0] {
		rates = append(rates, r)
	}
	for _, tie := range []float32{0, 1e-3, -1e-3} {
		for _, b := range bs {
			pm := model(objs, d.Mods)
			for _, p := range pm {
				p.Tie = tie
			}
			for _, rate := range rates {
				r := ref.Rate(pm, d.CircleRadius, d.Hit300, rate, uint64(d.Mods), b, false)
				m := ratingMismatch(a, r.Steps[0], 5e-6)
				if m == "" {
					x.Trace(1)
					return a
				}
				if why == "" {
					why = m
				}
			}
		}
	}
	x.Fail("%s", why)
	return a
}

// checkFile decides one beatmap under one mod set, both ways.
func checkFile(x *core.X, f *fileSpec, m uint64, custom float64) {
	bm := parse(x, f.text())
	checkParsed(x, f, bm.HitObjects, bm.Difficulty, m, custom)
}

// checkParsed decides objs, which were parsed from a file whose objects are (or include, with a
// long pause around them) those of f.
func checkParsed(x *core.X, f *fileSpec, objs []objects.IHitObject, d *difficulty.Difficulty, m uint64, custom float64) {
	d.SetMods(mods(m))
	if custom != 1 {
		d.SetCustomSpeed(custom)
	}
	x.Desc(func() string {
		return fmt.Sprintf("%s CS %v OD %v AR %v multiplier %v tick rate %v timing %v leniency %v v%d mods %q custom speed %v\n%s", showPlaced(f.ps), f.cs, f.od, f.ar, f.sm, f.tr, f.tps, f.len, f.version, ref.String(m), custom, clip(f.text()))
	})
	h := core.NewH().U(hashPlaced(f.ps, d)).F(f.sm).F(f.tr).F(f.ar).F(f.len).I(f.version)
	for _, t := range f.tps {
		h = h.F(t[0]).F(t[1])
	}
	x.State(h.Sum())
	x.Assert(len(objs) == len(f.ps), "%d objects, want %d", len(objs), len(f.ps))
	a := checkComposed(x, objs, d)
	for _, p := range f.ps {
		if p.l.kind == ref.Slider && p.l.path[0] != 'L' {
			return // the model has no exact geometry for curves; C10-C12 decide them
		}
	}
	if len(f.ps) == 0 {
		return
	}
	why := ""
	for _, tie := range []float32{0, 1e-3, -1e-3} {
		for _, b := range biasesFor(objs, d) {
			if why = ratingMismatch(a, f.refRate(m, custom, b, tie, false).Steps[0], 3e-5); why == "" {
				x.Trace(1)
				return
			}
		}
	}
	x.Fail("from the file: %s", why)
}

var rateMods = []uint64{0, ref.EZ, ref.HR, ref.DT, ref.HT, ref.FL, ref.RX, ref.HR | ref.DT, ref.EZ | ref.HT | ref.FL, ref.HR | ref.DT | ref.FL, ref.EZ | ref.DT, ref.RX | ref.FL, ref.NC | ref.DT | ref.HD, ref.DC | ref.HT | ref.HD | ref.FL, ref.HR | ref.HT, ref.RX | ref.HR | ref.DT}

// mapLetters are the objects of small whole maps; the paths are linear so that the model has exact geometry.
var mapLetters = []ol{
	cir(100, 100), cir(101, 101), cir(180, 120), cir(400, 300),
	sli(100, 100, "L|300:100", 1, 190), sli(180, 120, "L|100:100", 2, 80), sli(100, 100, "L|140:100|140:300", 1, 151), sli(300, 300, "L|330:300", 5, 28), spi,
}

func placeWord(opening []placed, ls []ol, dts []float64) []placed {
	ps := append([]placed{}, opening...)
	t := 1000.0
	if len(ps) > 0 {
		t = ps[len(ps)-1].t
	}
	for i, l := range ls {
		if i > 0 || len(ps) > 0 {
			t += dts[i]
		}
		ps = append(ps, placed{l, t, 0})
	}
	return ps
}

const pausesBound = "4 patterns of four groups of 1, 2, 7 or 30 objects, with pauses of 30 s, 5 min and 1 h between them in every order, x 4 mod sets"

// pausedMap is a map of four groups of objects with long pauses between them.
func pausedMap(x *core.X) (out []placed) {
	gs := [][3]float64{{30000, 300000, 3600000}, {30000, 3600000, 300000}, {300000, 30000, 3600000}, {300000, 3600000, 30000}, {3600000, 30000, 300000}, {3600000, 300000, 30000}}[x.Choose(6)]
	k := []int{1, 2, 7, 30}[x.Choose(4)]
	off := 0.0
	for i, p := range stream(x.Choose(4), 4*k) {
		if i > 0 && i%k == 0 {
			off += gs[i/k-1]
		}
		p.t += off
		out = append(out, p)
	}
	return
}

// stream is a longer pattern that exercises every skill.
func stream(kind, n int) []placed {
	var ps []placed
	t := 700.0
	pl := []ol{cir(100, 100), cir(220, 140), cir(300, 300), cir(180, 260), cir(60, 200), cir(240, 60), cir(420, 200)}
	for i := 0; i < n; i++ {
		l := pl[(i*[]int{1, 3, 2, 5}[kind])%len(pl)]
		switch {
		case kind == 1 && i%4 == 3:
			l = sli(l.x, l.y, fmt.Sprintf("L|%v:%v", l.x+60, l.y+30), 1+i%3, 63)
		case kind == 2 && i%9 == 7:
			l = spi
		case kind == 3 && i%5 < 2:
			l = cir(200, 200)
		}
		ps = append(ps, placed{l, t, 0})
		switch kind {
		case 0:
			t += 95
		case 1:
			t += []float64{170, 170, 85, 340}[i%4]
		case 2:
			t += []float64{120, 60, 60, 240, 1900}[i%5]
			if l.kind == ref.Spinner {
				t += 400
			}
		default:
			t += []float64{75, 75, 150, 100, 100, 100, 300}[i%7]
		}
	}
	return ps
}

// pairMap holds every pair of an object and the gap before it out of 6 odd objects x gaps {0, 70, 420}, and every such pair
// after every other, in one map: a de Bruijn sequence of order 2, beginning anywhere in it.
func pairMap(rot int, t float64) []placed {
	zs, ls := spi, spi
	zs.dur, ls.dur = 0, 1100
	al := []ol{cir(100, 100), cir(230, 180), sli(100, 100, "L|100:100", 1, 10), sli(100, 100, "L|200:100", 17, 12), sli(60, 300, "L|200:300|200:200", 2, 180), zs, ls}
	gs := []float64{0, 70, 420}
	w := deBruijn(len(al)*len(gs), 2)
	var ps []placed
	for i := range w {
		c := w[(i+rot)%len(w)]
		if i > 0 {
			t += gs[c/len(al)]
		}
		ps = append(ps, placed{al[c%len(al)], t, 0})
	}
	return ps
}

// oddMap is like pairMap over objects outside of the playfield, sliders leaving it, and odd ones at the same place and time.
func oddMap(rot int, t float64) []placed {
	zs := spi
	zs.dur = 0
	al := []ol{cir(100, 100), cir(-150, 430), sli(100, 100, "L|-400:100", 1, 450), sli(500, 380, "L|700:500", 3, 200), sli(100, 100, "L|100:100", 2, 10), sli(100, 100, "L|200:100", 17, 12), zs}
	gs := []float64{0, 70, 420}
	w := deBruijn(len(al)*len(gs), 2)
	var ps []placed
	for i := range w {
		c := w[(i+rot)%len(w)]
		if i > 0 {
			t += gs[c/len(al)]
		}
		ps = append(ps, placed{al[c%len(al)], t, 0})
	}
	return ps
}

const modMapBound = "a map of 441 objects with every pair out of 7 objects outside, leaving the playfield, without extent, of many spans or without duration x gaps {0, 70, 420}, under every pair of the 32 mod bits x 4 settings of CS/OD/AR, one with a custom speed"

// modMap chooses a pair of mod bits (or a single one) and settings.
func modMap(x *core.X) (ps []placed, m uint64, cs, od, ar, custom float64) {
	var pairs []uint64
	for i := 0; i < 32; i++ {
		for j := i; j < 32; j++ {
			pairs = append(pairs, 1<<uint(i)|1<<uint(j))
		}
	}
	k := x.Choose(len(pairs))
	s := x.Choose(4)
	return oddMap(k%21*21, 1000), pairs[k], []float64{4, 0, 10, 7}[s], []float64{9, 0, 10, 3}[s], []float64{8, 0, 10, 2}[s], []float64{1, 1, 1, 1.37}[s]
}

// contrary mods act together in no agreed way.
func contrary(m uint64) bool {
	return m&ref.EZ != 0 && m&ref.HR != 0 || m&ref.DT != 0 && m&ref.HT != 0
}

func init() {
	register("C20", "one execution = one beatmap file under one mod set, rated from the file; compared with the model on the library's positions (5e-6) and with the model from the file alone (3e-5)", func(th bool) []core.Scenario {
		dts := []float64{150, 90, 600}
		depth := 3
		opening := []placed{{cir(256, 192), 1000, 0}, {cir(200, 100), 1150, 0}}
		if th {
			depth = 4
		}
		return []core.Scenario{
			{Name: "words", Bound: fmt.Sprintf("all words of %d letters over %d objects x gaps %v after two notes, under %d mod sets", depth, len(mapLetters), dts, len(rateMods)), Body: func(x *core.X) {
				var ls []ol
				var g []float64
				for i := 0; i < depth-1; i++ {
					c := x.Choose(len(mapLetters) * len(dts))
					ls, g = append(ls, mapLetters[c/len(dts)]), append(g, dts[c%len(dts)])
				}
				// one file holds this word with every last letter, half a minute apart
				whole := stdSpec(nil)
				var words [][]placed
				at := 0.0
				for c := 0; c < len(mapLetters)*len(dts); c++ {
					w := placeWord(opening, append(append([]ol{}, ls...), mapLetters[c/len(dts)]), append(append([]float64{}, g...), dts[c%len(dts)]))
					for i := range w {
						w[i].t += at
					}
					at += 30000 + 13*float64(c%7)
					words = append(words, w)
					whole.ps = append(whole.ps, w...)
				}
				bm := parse(x, whole.text())
				x.Assert(len(bm.HitObjects) == len(whole.ps), "%d objects, want %d", len(bm.HitObjects), len(whole.ps))
				for k, w := range words {
					objs := bm.HitObjects[k*len(w) : (k+1)*len(w)]
					f := *whole
					f.ps = w
					for _, m := range rateMods {
						checkParsed(x, &f, objs, bm.Difficulty, m, 1)
					}
				}
			}},
			{Name: "settings", Bound: "16 maps x every combination of CS {0,4,5.6,10}, OD {0,5,8,10}, AR {0,5,9,10}, custom speeds {1,1.2,0.6,3.5,0.2} and 16 mod sets", Body: func(x *core.X) {
				k := x.Choose(4)
				f := stdSpec(stream(k, []int{6, 13, 40, 90}[x.Choose(4)]))
				f.cs = []float64{4, 0, 5.6, 10}[x.Choose(4)]
				f.od = []float64{8, 0, 5, 10}[x.Choose(4)]
				if th {
					f.ar = []float64{9, 0, 5, 10}[x.Choose(4)]
				} else {
					f.ar = []float64{9, 5}[x.Choose(2)]
				}
				checkFile(x, f, rateMods[x.Choose(len(rateMods))], []float64{1, 1.2, 0.6, 3.5, 0.2}[x.Choose(5)])
			}},
			{Name: "slider-timing", Bound: "slider maps x slider multipliers x tick rates x timing histories (also inherited and out of order) x format versions x leniencies x mods", Body: func(x *core.X) {
				var ps []placed
				t := 1000.0
				for i := 0; i < 12; i++ {
					l := []ol{sli(100, 100, "L|300:100", 1, 190.5), cir(290, 100), sli(300, 200, "L|100:200", 2, 101), sli(100, 200, "L|100:300|200:300", 3, 171), cir(100, 200), cir(100, 200)}[i%6]
					ps = append(ps, placed{l, t, 0})
					t += []float64{700, 200, 900, 1500, 100, 300}[i%6]
				}
				f := stdSpec(ps)
				f.sm = []float64{1.4, 0.7, 2.3, 3.6}[x.Choose(4)]
				f.tr = []float64{1, 2, 4, 0.5}[x.Choose(4)]
				f.version = []int{14, 5, 3}[x.Choose(3)]
				f.len = []float64{0.7, 0.1, 1}[x.Choose(3)]
				f.tps = [][][2]float64{{{0, 500}}, {{0, 400}, {1000, -50}, {2000, -133}}, {{2000, -80}, {0, 611}, {3000, 300}}, {{5000, 333}}}[x.Choose(4)]
				checkFile(x, f, rateMods[x.Choose(6)], 1)
			}},
			{Name: "sweeps", Bound: "CS, then OD, then AR from 0 to 10 in steps of 0.1 x 4 maps of 25 objects x 8 mod sets", Body: func(x *core.X) {
				v := float64(x.Choose(101)) / 10
				f := stdSpec(stream(x.Choose(4), 25))
				switch x.Choose(3) {
				case 0:
					f.cs = v
				case 1:
					f.od = v
				default:
					f.ar = v
				}
				checkFile(x, f, rateMods[x.Choose(8)], 1)
			}},
			{Name: "offsets", Bound: "4 maps of 5 to 40 objects starting between 20 s before and 24 h after the beginning x fractions of a millisecond x mods x custom speeds", Body: func(x *core.X) {
				ps := stream(x.Choose(4), []int{5, 17, 40}[x.Choose(3)])
				off := []float64{-20000, -700, -300.5, 0.25, 9300, 3600000, 21600000, 86400000.125}[x.Choose(8)]
				for i := range ps {
					ps[i].t += off
				}
				f := stdSpec(ps)
				f.tps = [][2]float64{{off, 500}, {off + 2500, -70}}
				checkFile(x, f, rateMods[x.Choose(len(rateMods))], []float64{1, 1.07, 0.71}[x.Choose(3)])
			}},
			{Name: "odd-objects", Bound: "all words of 3 objects over sliders without extent, without length, of many spans, of one pixel, spinners without duration and over 10 s, and plain ones, at gaps {0, 60, 350} x 4 mod sets", Body: func(x *core.X) {
				zs, ls := spi, spi
				zs.dur, ls.dur = 0, 11000
				al := []ol{cir(100, 100), sli(100, 100, "L|100:100", 1, 10), sli(100, 100, "L|100:100", 3, 190), sli(120, 100, "L|200:100", 2, 0), sli(100, 100, "L|200:100", 17, 12), sli(100, 100, "L|200:100", 2, 1), zs, ls, sli(300, 200, "L|100:200", 1, 200)}
				gs := []float64{0, 60, 350}
				ps := []placed{{cir(200, 150), 900, 0}, {cir(100, 100), 1000, 0}}
				t := 1000.0
				for i := 0; i < 3; i++ {
					c := x.Choose(len(al) * 3)
					t += gs[c%3]
					ps = append(ps, placed{al[c/3], t, 0})
				}
				checkFile(x, stdSpec(ps), []uint64{0, ref.FL, ref.HR | ref.DT, ref.RX}[x.Choose(4)], 1)
			}},
			{Name: "curves", Bound: "pairs of curved sliders (Bezier, arc, Catmull, doubled points) around notes x mods (positions from the library)", Body: func(x *core.X) {
				cs := []ol{sli(100, 100, "B|200:0|300:200|350:100", 1, 300), sli(100, 100, "P|150:60|200:100", 2, 120), sli(60, 300, "C|100:200|200:300|300:200", 1, 280), sli(100, 100, "B|140:100|140:100|140:180", 3, 100), sli(300, 300, "P|340:340|300:380", 1, 200), sli(100, 100, "L|100:100", 1, 50)}
				a, b := cs[x.Choose(len(cs))], cs[x.Choose(len(cs))]
				g := []float64{300, 700, 120}[x.Choose(3)]
				f := stdSpec([]placed{{cir(256, 192), 1000, 0}, {a, 1200, 0}, {cir(200, 150), 1200 + 3*g, 0}, {b, 1200 + 4*g, 0}, {a, 1200 + 9*g, 0}, {cir(400, 100), 1200 + 10*g, 0}})
				f.sm = []float64{1.4, 3}[x.Choose(2)]
				checkFile(x, f, rateMods[x.Choose(len(rateMods))], 1)
			}},
			{Name: "ladders", Bound: "maps of 0..70 (thorough 400) objects of 4 patterns, crossing every history length and reduced-section count, x 6 mod sets", Body: func(x *core.X) {
				n := 71
				if th {
					n = 401
				}
				k := x.Choose(4)
				f := stdSpec(stream(k, x.Choose(n)))
				checkFile(x, f, rateMods[x.Choose(6)], 1)
			}},
			{Name: "pair-map", Bound: "a map of 442 objects with every pair out of 7 odd objects x gaps {0, 70, 420}, beginning at 21 places in it, x all mod sets", Body: func(x *core.X) {
				checkFile(x, stdSpec(pairMap(x.Choose(21)*21, 1000)), rateMods[x.Choose(len(rateMods))], 1)
			}},
			{Name: "mod-map", Bound: modMapBound, Body: func(x *core.X) {
				ps, m, cs, od, ar, custom := modMap(x)
				f := stdSpec(ps)
				f.cs, f.od, f.ar = cs, od, ar
				if !contrary(m) {
					checkFile(x, f, m, custom)
				}
			}},
			{Name: "pauses", Bound: pausesBound, Body: func(x *core.X) {
				checkFile(x, stdSpec(pausedMap(x)), []uint64{0, ref.FL | ref.HD, ref.DT, ref.HT | ref.RX}[x.Choose(4)], 1)
			}},
			{Name: "long", Bound: "a stream of 1000, 2500, 6000 (thorough 20000) objects, 4 patterns x {none, HR+DT+FL}", Body: func(x *core.X) {
				ns := []int{1000, 2500, 6000}
				if th {
					ns = append(ns, 20000)
				}
				f := stdSpec(stream(x.Choose(4), ns[x.Choose(len(ns))]))
				checkFile(x, f, []uint64{0, ref.HR | ref.DT | ref.FL}[x.Choose(2)], 1)
			}},
			{Name: "corpus", Bound: "two real maps x every subset of {EZ or HR, DT or HT, FL, RX} (36)", Body: func(x *core.X) {
				c := x.Choose(2)
				m := []uint64{0, ref.EZ, ref.HR}[x.Choose(3)] | []uint64{0, ref.DT, ref.HT}[x.Choose(3)] | []uint64{0, ref.FL}[x.Choose(2)] | []uint64{0, ref.RX}[x.Choose(2)]
				bm := parse(x, corpora[c])
				bm.Difficulty.SetMods(mods(m))
				x.Desc(func() string { return fmt.Sprintf("corpus %d %s", c, ref.String(m)) })
				x.State(core.NewH().I(c).U(m).Sum())
				checkComposed(x, bm.HitObjects, bm.Difficulty)
			}},
		}
	})

	register("C21", "one execution = one object sequence under one mod set; every step is compared with rating the prefix in one go", func(th bool) []core.Scenario {
		// checkSteps compares steps from lo on, every stride-th and the last.
		checkSteps := func(x *core.X, objs []objects.IHitObject, d *difficulty.Difficulty, pick func(i int) bool) {
			st := osu.CalculateStep(objs, d)
			st2, _ := osu.CalculateStepWithPeaks(objs, d)
			x.Op(2 * len(objs))
			x.Assert(len(st) == len(objs), "%d ratings for %d objects", len(st), len(objs))
			x.Assert(len(st2) == len(objs), "%d ratings with peaks for %d objects", len(st2), len(objs))
			for i := range st {
				if m := sameAttr(st[i], st2[i], 1e-9); m != "" {
					x.Fail("step %d differs between the variants with and without peaks: %s", i, m)
				}
				if !pick(i) && i != len(st)-1 {
					continue
				}
				one := osu.CalculateSingle(objs[:i+1], d)
				x.Op(i + 1)
				x.Trace(1)
				if m := sameAttr(st[i], one, 1e-9); m != "" {
					x.Fail("step %d of %d differs from rating the first %d objects: %s", i, len(objs), i+1, m)
				}
			}
			if len(objs) > 0 {
				one, _ := osu.CalculateSingleWithPeaks(objs, d)
				if m := sameAttr(st[len(st)-1], one, 1e-9); m != "" {
					x.Fail("the last step differs from the rating with peaks of the whole map: %s", m)
				}
			}
		}
		all := func(int) bool { return true }
		depth := 3
		if th {
			depth = 4
		}
		dts := []float64{150, 20, 700}
		letters := append(append([]ol{}, mapLetters...), sli(100, 100, "P|150:60|200:100", 2, 120))
		return []core.Scenario{
			{Name: "words", Bound: fmt.Sprintf("all words of 0..%d letters over %d objects x gaps %v after a note x mod sets", depth, len(letters), dts), Body: func(x *core.X) {
				m := rateMods[x.Choose(len(rateMods))]
				n := x.Choose(depth + 1)
				var ls []ol
				var g []float64
				for i := 0; i < n; i++ {
					c := x.Choose(len(letters) * len(dts))
					ls, g = append(ls, letters[c/len(dts)]), append(g, dts[c%len(dts)])
				}
				d := newDiff(5, 4, 8, 9, mods(m))
				ps := placeWord(nil, ls, g)
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, all)
			}},
			{Name: "odd-objects", Bound: "all words of 4 objects (thorough 5) over a circle, sliders without extent, of many spans, a curve, spinners without duration and over 10 s at gaps {0, 70, 420}, starting at 5 offsets up to 24 h, x 4 mod sets", Body: func(x *core.X) {
				zs, ls := spi, spi
				zs.dur, ls.dur = 0, 11000
				al := []ol{cir(100, 100), sli(100, 100, "L|100:100", 1, 10), sli(100, 100, "L|200:100", 17, 12), sli(60, 300, "B|100:200|200:300", 2, 180), zs, ls}
				gs := []float64{0, 70, 420}
				m := []uint64{0, ref.FL, ref.HR | ref.DT, ref.RX | ref.HT}[x.Choose(4)]
				t := []float64{1000, -7000, 0.25, 5e6, 86400000.125}[x.Choose(5)]
				n := 4
				if th {
					n = 5
				}
				d := newDiff(5, 4, 8, 9, mods(m))
				var ps []placed
				for i := 0; i < n; i++ {
					k := 1
					if i > 0 {
						k = 3
					}
					c := x.Choose(len(al) * k)
					if i > 0 {
						t += gs[c/len(al)]
					}
					ps = append(ps, placed{al[c%len(al)], t, 0})
				}
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{t - 5000, 500}}, d), d, all)
			}},
			{Name: "ladders", Bound: "every prefix of 4 patterns of up to 120 (thorough 500) objects x all mod sets", Body: func(x *core.X) {
				n := 120
				if th {
					n = 500
				}
				k := x.Choose(4)
				d := newDiff(5, 4, 8, 9, mods(rateMods[x.Choose(len(rateMods))]))
				ps := stream(k, n)
				x.Desc(func() string { return fmt.Sprintf("pattern %d of %d objects with %s", k, n, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, all)
			}},
			{Name: "pair-map", Bound: "every prefix of a map of 442 objects with every pair out of 7 odd objects x gaps {0, 70, 420}, beginning at 3 (thorough 21) places in it, x 4 mod sets", Body: func(x *core.X) {
				rot := 147 * x.Choose(3)
				if th {
					rot = rot/7 + 21*x.Choose(7)
				}
				d := newDiff(5, 4, 8, 9, mods([]uint64{0, ref.FL, ref.HR | ref.DT, ref.RX | ref.HT}[x.Choose(4)]))
				ps := pairMap(rot, 1000)
				x.Desc(func() string { return fmt.Sprintf("pair map from %d with %s", rot, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, all)
			}},
			{Name: "mod-map", Bound: modMapBound + "; every 29th prefix", Body: func(x *core.X) {
				ps, m, cs, od, ar, custom := modMap(x)
				d := newDiff(5, cs, od, ar, mods(m))
				d.SetCustomSpeed(custom)
				x.Desc(func() string { return "odd map with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}, {30000, -50}}, d), d, func(i int) bool { return i%29 == 0 })
			}},
			{Name: "mods", Bound: "all 64 subsets of {EZ,HR,DT,HT,FL,RX} x 4 patterns of 30 objects", Body: func(x *core.X) {
				var m uint64
				for _, b := range []uint64{ref.EZ, ref.HR, ref.DT, ref.HT, ref.FL, ref.RX} {
					if x.Bool() {
						m |= b
					}
				}
				k := x.Choose(4)
				d := newDiff(5, 4, 8, 9, mods(m))
				ps := stream(k, 30)
				x.Desc(func() string { return fmt.Sprintf("pattern %d with %s", k, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, all)
			}},
			{Name: "long", Bound: "a stream of 2600 (thorough 9000) objects, 4 patterns x {none, HR+DT+FL}: every prefix within 2 of 250, 256, 500, 512, 1000, 1024, 1500, 2000, 2048, 2500, 4096, 5000, 8192 and every 397th", Body: func(x *core.X) {
				n := 2600
				if th {
					n = 9000
				}
				k := x.Choose(4)
				d := newDiff(5, 4, 8, 9, mods([]uint64{0, ref.HR | ref.DT | ref.FL}[x.Choose(2)]))
				ps := stream(k, n)
				x.Desc(func() string { return fmt.Sprintf("pattern %d of %d objects with %s", k, n, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, func(i int) bool {
					for _, c := range []int{250, 256, 500, 512, 1000, 1024, 1500, 2000, 2048, 2500, 4096, 5000, 8192} {
						if i+1 >= c-2 && i+1 <= c+2 {
							return true
						}
					}
					return i%397 == 0
				})
			}},
			{Name: "pauses", Bound: pausesBound, Body: func(x *core.X) {
				ps := pausedMap(x)
				d := newDiff(5, 4, 8, 9, mods([]uint64{0, ref.FL | ref.HD, ref.DT, ref.HT | ref.RX}[x.Choose(4)]))
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkSteps(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, all)
			}},
			{Name: "corpus", Bound: "two real maps x mods: 4 windows of 120 objects, every prefix, and the whole maps, every 101st prefix (thorough every 11th)", Body: func(x *core.X) {
				c := x.Choose(2)
				m := []uint64{0, ref.HR | ref.DT | ref.FL, ref.EZ | ref.HT}[x.Choose(3)]
				bm := parse(x, corpora[c])
				n := len(bm.HitObjects)
				stride := 101
				if th {
					stride = 11
				}
				part := x.Choose(5)
				bm.Difficulty.SetMods(mods(m))
				x.Desc(func() string { return fmt.Sprintf("corpus %d window %d %s", c, part, ref.String(m)) })
				x.State(core.NewH().I(c).U(m).I(part).Sum())
				if part == 4 {
					checkSteps(x, bm.HitObjects, bm.Difficulty, func(i int) bool { return i%stride == 0 })
					return
				}
				lo := (n - 120) * part / 3
				checkSteps(x, bm.HitObjects[lo:lo+120], bm.Difficulty, all)
			}},
		}
	})

	register("C22", "one execution = one object sequence under one mod set; all three peak functions are compared with each other, with the section count, the star formula and the model's peaks", func(th bool) []core.Scenario {
		checkPeaks := func(x *core.X, objs []objects.IHitObject, d *difficulty.Difficulty, full bool) {
			p0 := osu.CalculateStrainPeaks(objs, d)
			_, p1 := osu.CalculateSingleWithPeaks(objs, d)
			_, p2 := osu.CalculateStepWithPeaks(objs, d)
			x.Op(3 * len(objs))
			if m := samePeaks(p0, p1, 1e-9); m != "" {
				x.Fail("peaks of CalculateStrainPeaks and CalculateSingleWithPeaks differ: %s", m)
			}
			if m := samePeaks(p0, p2, 1e-9); m != "" {
				x.Fail("peaks of CalculateStrainPeaks and CalculateStepWithPeaks differ: %s", m)
			}
			fl := d.CheckModActive(difficulty.Flashlight)
			n := len(p0.Aim)
			x.Assert(len(p0.Speed) == n && len(p0.Total) == n, "%d aim, %d speed, %d total peaks", n, len(p0.Speed), len(p0.Total))
			if fl {
				x.Assert(len(p0.Flashlight) == n, "%d flashlight and %d aim peaks", len(p0.Flashlight), n)
			}
			if len(objs) >= 2 {
				rt := rateOf(d)
				want := map[int]bool{}
				a, b := objs[1].GetStartTime()/rt, objs[len(objs)-1].GetStartTime()/rt
				for _, e := range []float64{0, 1e-9, -1e-9} {
					for _, g := range []float64{0, 1e-9, -1e-9} {
						want[1+int(math.Max(0, math.Ceil(b/400+g)-math.Ceil(a/400+e)))] = true
					}
				}
				x.Assert(want[n], "%d peaks between the sections of %v ms and %v ms of play time, want %v", n, a, b, want)
			}
			for i := 0; i < n; i++ {
				f := 0.0
				if fl {
					f = p0.Flashlight[i]
				}
				for _, v := range []float64{p0.Aim[i], p0.Speed[i], p0.Total[i], f} {
					x.Assert(v >= 0 && !math.IsInf(v, 0), "peak %d is %v (aim %v speed %v flashlight %v total %v)", i, v, p0.Aim[i], p0.Speed[i], f, p0.Total[i])
				}
				w := ref.Stars(p0.Aim[i], p0.Aim[i], p0.Speed[i], f, uint64(d.Mods)).Total
				x.Assert(ref.Close(p0.Total[i], w, 1e-9), "total peak %d is %v, want %v from aim %v speed %v flashlight %v", i, p0.Total[i], w, p0.Aim[i], p0.Speed[i], f)
			}
			x.Trace(3)
			if !full || len(objs) < 2 {
				return
			}
			why := ""
			for _, b := range biasesFor(objs, d) {
				r := rate(objs, d, b, false)
				why = peakMismatch(p0.Aim, r.PA, "aim") + peakMismatch(p0.Speed, r.PS, "speed")
				if fl {
					why += peakMismatch(p0.Flashlight, r.PF, "flashlight")
				}
				if why == "" {
					x.Trace(1)
					return
				}
			}
			x.Fail("%s", why)
		}
		places := []ol{cir(256, 192), cir(320, 192), cir(120, 200), sli(256, 192, "L|330:192", 1, 70), spi}
		gaps := []float64{1, 100, 399, 400, 401, 799, 800, 1200.5, 5000}
		starts := []float64{0, 1, 200, 399.5, 400, 401, -400, -850, 100000}
		return []core.Scenario{
			{Name: "gaps", Bound: "2..5 objects: all first times x all words of gaps around section boundaries x rates", Body: func(x *core.X) {
				m := []uint64{0, ref.DT, ref.HT, ref.FL}[x.Choose(4)]
				t := starts[x.Choose(len(starts))]
				n := 1 + x.Choose(4)
				d := newDiff(5, 4, 8, 9, mods(m))
				ps := []placed{{places[0], t, 0}}
				for i := 0; i < n; i++ {
					t += gaps[x.Choose(len(gaps))]
					ps = append(ps, placed{places[(i+1)%len(places)], t, 0})
				}
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, n <= 3)
			}},
			{Name: "quiet", Bound: "all words of 2..6 objects over {spinner, circle at one place, slider there without extent, circle elsewhere} x 3 gaps x mods {none, RX, FL, RX+FL, DT}: sections without any strain", Body: func(x *core.X) {
				m := []uint64{0, ref.RX, ref.FL, ref.RX | ref.FL, ref.DT}[x.Choose(5)]
				d := newDiff(5, 4, 8, 9, mods(m))
				gap := []float64{350, 900, 8000}[x.Choose(3)]
				n := 2 + x.Choose(5)
				var ps []placed
				for i := 0; i < n; i++ {
					l := []ol{spi, cir(256, 192), sli(256, 192, "L|256:192", 1, 70), cir(100, 192)}[x.Choose(4)]
					ps = append(ps, placed{l, 1000 + gap*float64(i), 0})
				}
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, true)
			}},
			{Name: "odd-objects", Bound: "all words of 3 objects (thorough 4) over a circle, sliders without extent, of many spans, a curve, spinners without duration and over 10 s at gaps {0, 70, 420}, starting at 5 offsets up to 24 h, x 4 mod sets", Body: func(x *core.X) {
				zs, ls := spi, spi
				zs.dur, ls.dur = 0, 11000
				al := []ol{cir(100, 100), sli(100, 100, "L|100:100", 1, 10), sli(100, 100, "L|200:100", 17, 12), sli(60, 300, "B|100:200|200:300", 2, 180), zs, ls}
				gs := []float64{0, 70, 420}
				m := []uint64{0, ref.FL, ref.HR | ref.DT, ref.RX | ref.HT}[x.Choose(4)]
				t := []float64{1000, -7000, 0.25, 5e6, 86400000.125}[x.Choose(5)]
				n := 3
				if th {
					n = 4
				}
				d := newDiff(5, 4, 8, 9, mods(m))
				var ps []placed
				for i := 0; i < n; i++ {
					k := 1
					if i > 0 {
						k = 3
					}
					c := x.Choose(len(al) * k)
					if i > 0 {
						t += gs[c/len(al)]
					}
					ps = append(ps, placed{al[c%len(al)], t, 0})
				}
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{t - 5000, 500}}, d), d, true)
			}},
			{Name: "mods", Bound: "all 64 subsets of {EZ,HR,DT,HT,FL,RX} and custom speeds x 4 patterns x 0..60 objects", Body: func(x *core.X) {
				var m uint64
				for _, b := range []uint64{ref.EZ, ref.HR, ref.DT, ref.HT, ref.FL, ref.RX} {
					if x.Bool() {
						m |= b
					}
				}
				k := x.Choose(4)
				n := []int{0, 1, 2, 3, 5, 9, 20, 33, 60}[x.Choose(9)]
				d := newDiff(5, 4, 8, 9, mods(m))
				if x.Bool() {
					d.SetCustomSpeed(1.23)
				}
				ps := stream(k, n)
				x.Desc(func() string { return fmt.Sprintf("pattern %d, %d objects with %s", k, n, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				ez := m&ref.EZ != 0 && m&ref.HR != 0 || m&ref.DT != 0 && m&ref.HT != 0
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, !ez)
			}},
			{Name: "mod-map", Bound: modMapBound, Body: func(x *core.X) {
				ps, m, cs, od, ar, custom := modMap(x)
				d := newDiff(5, cs, od, ar, mods(m))
				d.SetCustomSpeed(custom)
				x.Desc(func() string { return "odd map with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}, {30000, -50}}, d), d, !contrary(m))
			}},
			{Name: "pair-map", Bound: "a map of 442 objects with every pair out of 7 odd objects x gaps {0, 70, 420}, beginning at 21 places in it, x all mod sets x first times {1000, -3333, 399.5}", Body: func(x *core.X) {
				rot := 21 * x.Choose(21)
				d := newDiff(5, 4, 8, 9, mods(rateMods[x.Choose(len(rateMods))]))
				ps := pairMap(rot, []float64{1000, -3333, 399.5}[x.Choose(3)])
				x.Desc(func() string { return fmt.Sprintf("pair map from %d with %s", rot, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, true)
			}},
			{Name: "ladders", Bound: "4 patterns of 0..150 (thorough 600) objects with and without Flashlight", Body: func(x *core.X) {
				n := 151
				if th {
					n = 601
				}
				k, c := x.Choose(4), x.Choose(n)
				d := newDiff(5, 4, 8, 9, mods([]uint64{0, ref.FL | ref.HD}[x.Choose(2)]))
				ps := stream(k, c)
				x.Desc(func() string { return fmt.Sprintf("pattern %d, %d objects with %s", k, c, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, true)
			}},
			{Name: "pauses", Bound: "all words of 1..2 gaps from 30 s to 4 h (thorough also 24 h, 3 gaps) between groups of 1..3 objects x first times {-90000, 0, 250} x {none, FL, DT, HT}", Body: func(x *core.X) {
				gs := []float64{30000, 60000, 61234.5, 600000, 1800000, 3600000, 3600400, 7200001, 14400000}
				n := 1 + x.Choose(2)
				if th {
					gs = append(gs, 86400000)
					n = 1 + x.Choose(3)
				}
				m := []uint64{0, ref.FL, ref.DT, ref.HT}[x.Choose(4)]
				t := []float64{-90000, 0, 250}[x.Choose(3)]
				k := 1 + x.Choose(3)
				d := newDiff(5, 4, 8, 9, mods(m))
				var ps []placed
				for i := 0; i <= n; i++ {
					if i > 0 {
						t += gs[x.Choose(len(gs))]
					}
					for j := 0; j < k; j++ {
						ps = append(ps, placed{places[(i+j)%3], t, 0})
						t += 180
					}
				}
				x.Desc(func() string { return showPlaced(ps) + " with " + showDiff(d) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, true)
			}},
			{Name: "long", Bound: "a stream of 1000, 1001, 2500 (thorough 9000) objects, 4 patterns x {none, FL+HD}", Body: func(x *core.X) {
				ns := []int{1000, 1001, 2500}
				if th {
					ns = append(ns, 9000)
				}
				k, n := x.Choose(4), ns[x.Choose(len(ns))]
				d := newDiff(5, 4, 8, 9, mods([]uint64{0, ref.FL | ref.HD}[x.Choose(2)]))
				ps := stream(k, n)
				x.Desc(func() string { return fmt.Sprintf("pattern %d, %d objects with %s", k, n, showDiff(d)) })
				x.State(hashPlaced(ps, d))
				checkPeaks(x, build(ps, 1.4, 1, [][2]float64{{0, 500}}, d), d, true)
			}},
			{Name: "corpus", Bound: "two real maps whole x 12 mod sets", Body: func(x *core.X) {
				c := x.Choose(2)
				m := rateMods[x.Choose(12)]
				bm := parse(x, corpora[c])
				bm.Difficulty.SetMods(mods(m))
				x.Desc(func() string { return fmt.Sprintf("corpus %d %s", c, ref.String(m)) })
				x.State(core.NewH().I(c).U(m).Sum())
				objs := bm.HitObjects
				checkPeaks(x, objs, bm.Difficulty, true)
			}},
		}
	})

	zeroSpin, negSpin := spi, spi
	zeroSpin.dur, negSpin.dur = 0, -300
	register("C23", "one execution = one object sequence under one mod set; counts of every prefix and of the whole are compared", func(th bool) []core.Scenario {
		// want counts from the specification with the model's own timing
		wantCounts := func(f *fileSpec) (out []ref.Attr) {
			tm := refTiming(f.sm, f.tr, f.tps...)
			var a ref.Attr
			for _, p := range f.ps {
				a.Objects++
				a.MaxCombo++
				switch p.l.kind {
				case ref.Circle:
					a.Circles++
				case ref.Spinner:
					a.Spinners++
				case ref.Slider:
					a.Sliders++
					length := math.Max(0, p.l.length)
					if path := linePath(p.l); path(1) == path(0) {
						length = 0 // a path without extent cannot be extended
					}
					_, pts := tm.SliderPoints(p.t, length, p.l.spans, 0)
					a.MaxCombo += len(pts)
				}
				out = append(out, a)
			}
			return
		}
		check := func(x *core.X, f *fileSpec, m uint64, bm *beatmap.BeatMap, d *difficulty.Difficulty) {
			w := wantCounts(f)
			x.Desc(func() string { return showPlaced(f.ps) + " with " + showDiff(d) })
			x.State(core.NewH().U(hashPlaced(f.ps, d)).F(f.sm).F(f.tr).Sum())
			objs := bm.HitObjects
			x.Assert(len(objs) == len(w), "%d objects", len(objs))
			var got []osu.Attributes
			if len(objs) <= 3000 { // every step costs the sorting of all sections before it
				got = osu.CalculateStep(objs, d)
			}
			x.Op(len(objs))
			for i := range got {
				x.Trace(1)
				if s := countsMismatch(got[i], w[i]); s != "" {
					x.Fail("step %d: %s", i, s)
				}
			}
			one := osu.CalculateSingle(objs, d)
			x.Trace(1)
			one2, _ := osu.CalculateSingleWithPeaks(objs, d)
			last := ref.Attr{}
			if len(w) > 0 {
				last = w[len(w)-1]
			}
			for _, o := range []osu.Attributes{one, one2} {
				if s := countsMismatch(o, last); s != "" {
					x.Fail("%s", s)
				}
			}
		}
		letters := []ol{cir(100, 100), spi, sli(100, 100, "L|300:100", 1, 150), sli(100, 100, "L|300:100", 2, 69), sli(100, 100, "L|110:100", 4, 300), sli(100, 100, "L|100:100", 1, 10), sli(100, 100, "L|200:100", 3, 0), zeroSpin, negSpin}
		return []core.Scenario{
			{Name: "kinds", Bound: "all words of 0..5 letters over circle, spinners of positive, zero and negative duration, three sliders and sliders without extent or length", Body: func(x *core.X) {
				n := x.Choose(6)
				var ps []placed
				t := 1000.0
				for i := 0; i < n; i++ {
					ps = append(ps, placed{letters[x.Choose(len(letters))], t, 0})
					t += []float64{300, 1000}[i%2]
				}
				f := stdSpec(ps)
				bm := parse(x, f.text())
				check(x, f, 0, bm, bm.Difficulty)
			}},
			{Name: "ticks", Bound: "two sliders: lengths 20..800 in steps of 13 x spans 1..6 x tick rates x multipliers x timings", Body: func(x *core.X) {
				l := 20.5 + 13*float64(x.Choose(60))
				sp := 1 + x.Choose(6)
				f := stdSpec([]placed{{sli(100, 100, "L|400:100", sp, l), 1000, 0}, {cir(10, 10), 9000, 0}, {sli(400, 300, "L|0:300", 1, l/2), 9500, 0}})
				f.tr = []float64{1, 0.5, 2, 3, 8}[x.Choose(5)]
				f.sm = []float64{1.4, 1, 2.7}[x.Choose(3)]
				f.tps = [][][2]float64{{{0, 500}}, {{0, 300}, {500, -40}}, {{0, 700}, {9400, -200}}, {{0, 500}, {900, math.NaN()}, {9400, -50}}, {{0, math.NaN()}, {9200, -1000}}, {{0, 500}, {1000, -5}, {9500, 1000}}}[x.Choose(6)]
				bm := parse(x, f.text())
				check(x, f, 0, bm, bm.Difficulty)
			}},
			{Name: "vast", Bound: "a slider of 250..270 and 8990..9000 spans without ticks and of 25..28, 3274..3280, 6550..6556 and 8999..9000 spans of ten points each, in the middle of a map", Body: func(x *core.X) {
				spans := func(rs ...int) (l []int) {
					for i := 0; i < len(rs); i += 2 {
						for n := rs[i]; n <= rs[i+1]; n++ {
							l = append(l, n)
						}
					}
					return
				}
				var l ol
				if x.Bool() {
					n := spans(250, 270, 8990, 9000)
					l = sli(100, 100, "L|200:100", n[x.Choose(len(n))], 10)
				} else {
					n := spans(25, 28, 3274, 3280, 6550, 6556, 8999, 9000)
					l = sli(100, 100, "L|200:100", n[x.Choose(len(n))], 200)
				}
				f := stdSpec([]placed{{cir(10, 10), 0, 0}, {l, 1000, 0}, {cir(20, 20), 11000000, 0}})
				f.sm, f.tr, f.tps = 1, 5, [][2]float64{{0, 500}}
				bm := parse(x, f.text())
				check(x, f, 0, bm, bm.Difficulty)
			}},
			{Name: "mods", Bound: "every pair of the 32 mod bits, custom speeds and CS/AR/OD settings on a map of every kind of object", Body: func(x *core.X) {
				m := uint64(1)<<uint(x.Choose(32)) | uint64(1)<<uint(x.Choose(32))
				s := x.Choose(4)
				f := stdSpec([]placed{{letters[0], 1000, 0}, {letters[2], 1300, 0}, {letters[4], 2500, 0}, {letters[1], 4500, 0}, {letters[0], 5500, 0}, {letters[3], 5800, 0}, {letters[3], 6500, 0}})
				f.cs, f.ar, f.od = []float64{4, 0, 10, 7}[s], []float64{9, 0, 10, 3}[s], []float64{8, 0, 10, 2}[s]
				bm := parse(x, f.text())
				d := bm.Difficulty
				d.SetMods(mods(m))
				if s == 3 {
					d.SetCustomSpeed(1.7)
				}
				check(x, f, m, bm, d)
			}},
			{Name: "mod-map", Bound: modMapBound, Body: func(x *core.X) {
				ps, m, cs, od, ar, custom := modMap(x)
				f := stdSpec(ps)
				f.cs, f.od, f.ar = cs, od, ar
				f.tps = [][2]float64{{0, 500}, {20000, -40}, {40000, math.NaN()}, {60000, 333}}
				bm := parse(x, f.text())
				bm.Difficulty.SetMods(mods(m))
				bm.Difficulty.SetCustomSpeed(custom)
				check(x, f, m, bm, bm.Difficulty)
			}},
			{Name: "pair-map", Bound: "a map of 442 objects with every pair out of 7 odd objects x gaps {0, 70, 420}, beginning at 21 places in it, x 3 tick rates x 3 mod sets", Body: func(x *core.X) {
				f := stdSpec(pairMap(x.Choose(21)*21, 1000))
				f.tr = []float64{1, 4, 0.5}[x.Choose(3)]
				f.tps = [][2]float64{{0, 500}, {20000, -40}, {40000, 333}}
				m := []uint64{0, ref.HR | ref.FL, ref.HT | ref.RX}[x.Choose(3)]
				bm := parse(x, f.text())
				bm.Difficulty.SetMods(mods(m))
				check(x, f, m, bm, bm.Difficulty)
			}},
			{Name: "long", Bound: "maps of 255..257, 999..1001, 3000, 33000 (thorough 70000; above 3000 without the steps) objects: circles, sliders, spinners and a mix; two sliders of 300, 5000, 9000 spans or 300, 5000, 7400 ticks per span among circles", Body: func(x *core.X) {
				ns := []int{255, 256, 257, 999, 1000, 1001, 3000, 33000}
				if th {
					ns = append(ns, 70000)
				}
				n := x.Choose(len(ns) + 6)
				var ps []placed
				tr := 1.0
				if n < len(ns) {
					k := x.Choose(4)
					for i := 0; i < ns[n]; i++ {
						l := []ol{cir(float64(i%500), 100), sli(100, 100, "L|300:100", 2, 69), spi}[[]int{k, i % 3}[k/3]]
						ps = append(ps, placed{l, 1000 + float64(i)*700, 0})
					}
				} else {
					c := n - len(ns)
					l := sli(100, 100, "L|300:100", []int{300, 5000, 9000}[c%3], 6)
					if c >= 3 {
						l, tr = sli(0, 0, "L|512:384", 2, []float64{300, 5000, 7400}[c%3]*17.5), 8
					}
					ps = []placed{{cir(1, 1), 900, 0}, {l, 1000, 0}, {cir(5, 5), 2e6, 0}, {l, 3e6, 0}}
				}
				f := stdSpec(ps)
				f.tr = tr
				bm := parse(x, f.text())
				check(x, f, 0, bm, bm.Difficulty)
				x.Desc(func() string { return fmt.Sprintf("map %d of %d objects, the first %s", n, len(ps), ps[0].l) })
			}},
		}
	})
}

func sameAttr(a, b osu.Attributes, tol float64) string {
	if a == b || a.ObjectCount == b.ObjectCount && a.Circles == b.Circles && a.Sliders == b.Sliders && a.Spinners == b.Spinners && a.MaxCombo == b.MaxCombo &&
		ref.Close(a.Total, b.Total, tol) && ref.Close(a.Aim, b.Aim, tol) && ref.Close(a.SliderFactor, b.SliderFactor, tol) && ref.Close(a.Speed, b.Speed, tol) && ref.Close(a.Flashlight, b.Flashlight, tol) {
		return ""
	}
	return attrStr(a) + "\n versus " + attrStr(b)
}

func peakMismatch(g, w []float64, what string) string {
	if len(g) != len(w) {
		return fmt.Sprintf("%d %s peaks, want %d\n", len(g), what, len(w))
	}
	for i := range g {
		if !ref.Close(g[i], w[i], 5e-6) {
			return fmt.Sprintf("%s peak %d is %v, want %v\n", what, i, g[i], w[i])
		}
	}
	return ""
}

func samePeaks(a, b osu.StrainPeaks, tol float64) string {
	for _, c := range []struct {
		n    string
		p, q []float64
	}{{"aim", a.Aim, b.Aim}, {"speed", a.Speed, b.Speed}, {"flashlight", a.Flashlight, b.Flashlight}, {"total", a.Total, b.Total}} {
		if len(c.p) != len(c.q) {
			return fmt.Sprintf("%d and %d %s peaks", len(c.p), len(c.q), c.n)
		}
		for i := range c.p {
			if !ref.Close(c.p[i], c.q[i], tol) {
				return fmt.Sprintf("%s peak %d: %v and %v", c.n, i, c.p[i], c.q[i])
			}
		}
	}
	return ""
}
