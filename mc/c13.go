package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"

	"vmc/core"
	"vmc/ref"
)

func sobjs(objs []objects.IHitObject) []ref.SObj {
	out := make([]ref.SObj, len(objs))
	for i, o := range objs {
		out[i] = ref.SObj{Kind: kindOf(o), Start: o.GetStartTime(), End: o.GetEndTime(), P: rv(o.GetStartPosition()), E: rv(o.GetEndPosition())}
	}
	return out
}

// checkStacks compares every stack height of a parsed map with the model, for each of the three mods.
func checkStacks(x *core.X, bm *beatmap.BeatMap, cs, ar, leniency float64, version int, describe func(int) string) {
	so := sobjs(bm.HitObjects)
	for _, m := range obsMods {
		pre := ref.Derive(ref.Settings{CS: cs, AR: ar, Mods: uint64(m), Custom: 1}).Preempt
		want := ref.StackHeights(so, version, pre, leniency)
		for i, o := range bm.HitObjects {
			if o.GetStackIndex(m) != want[i] {
				x.Fail("stack height of object %d under %q is %d, want %d: %s", i, ref.String(uint64(m)), o.GetStackIndex(m), want[i], describe(i))
			}
		}
		x.Trace(len(so))
	}
	x.Op(len(so))
}

type stackLetter struct {
	name string
	line func(t float64) string
}

func circleAt(px, py float64) stackLetter {
	return stackLetter{fmt.Sprintf("C(%v,%v)", px, py), func(t float64) string { return fmt.Sprintf("%v,%v,%s,1,0", px, py, f64(t)) }}
}
func sliderAt(px, py, qx, qy float64, spans int) stackLetter {
	l := math.Hypot(qx-px, qy-py)
	return stackLetter{fmt.Sprintf("S(%v,%v-%v,%v x%d)", px, py, qx, qy, spans), func(t float64) string {
		return sliderLine(px, py, t, fmt.Sprintf("L|%v:%v", qx, qy), spans, l)
	}}
}

var spinLetter = stackLetter{"SP", func(t float64) string { return fmt.Sprintf("256,192,%s,8,0,%s", f64(t), f64(t+200)) }}

func init() {
	register("C13", "one execution = one beatmap file holding many object words far apart; every word is a state, every object's stack height a trace", func(th bool) []core.Scenario {
		letters := []stackLetter{circleAt(100, 100), circleAt(102, 100), circleAt(200, 100), sliderAt(100, 100, 200, 100, 1), sliderAt(200, 100, 100, 100, 1), sliderAt(100, 100, 200, 100, 2), spinLetter}
		dts := []float64{150, 600, 900}
		depth := 4
		if th {
			depth = 5
		}
		wordsFile := func(x *core.X, letters []stackLetter, dts []float64, depth, version int, cs, ar, len float64) {
			n := 2 // letters enumerated inside the file
			type step struct {
				l  stackLetter
				dt float64
			}
			K := 0
			for range letters {
				K++
			}
			K *= 1
			D := 0
			for range dts {
				D++
			}
			all := K * D
			var fixed []step
			for i := 0; i < depth-n; i++ {
				c := x.Choose(all)
				dt := dts[c%D]
				if i == 0 {
					if c%D != 0 {
						return // the first gap does not matter
					}
					dt = 0
				}
				fixed = append(fixed, step{letters[c/D], dt})
			}
			t := base()
			t.Version = fmt.Sprint(version)
			t.General[2] = "StackLeniency: " + f64(len)
			t.Diff[1], t.Diff[3] = "CircleSize:"+f64(cs), "ApproachRate:"+f64(ar)
			var words []string
			at := 1000.0
			word := func(w []step) {
				var s []string
				tm := at
				for _, st := range w {
					tm += st.dt
					t.Obj = append(t.Obj, st.l.line(tm))
					s = append(s, fmt.Sprintf("+%v %s", st.dt, st.l.name))
				}
				words = append(words, strings.Join(s, " "))
				at = math.Ceil(tm/1000)*1000 + 30000
			}
			for a := 0; a < all; a++ {
				for b := 0; b < all; b++ {
					word(append(append([]step{}, fixed...), step{letters[a/D], dts[a%D]}, step{letters[b/D], dts[b%D]}))
				}
			}
			cur := ""
			x.Desc(func() string {
				return fmt.Sprintf("format v%d, CS %v, AR %v, leniency %v, word %s", version, cs, ar, len, cur)
			})
			for _, w := range words {
				x.State(core.NewH().S(w).I(version).F(cs).F(ar).F(len).Sum())
			}
			bm := parse(x, t.Text())
			x.Assert(lenObjs(bm) == depth*lenS(words), "%d objects", lenObjs(bm))
			checkStacks(x, bm, cs, ar, len, version, func(i int) string { cur = words[i/depth]; return cur })
		}
		versions := []int{14, 5}
		return []core.Scenario{
			{Name: "words", Bound: fmt.Sprintf("all words of %d objects over %d objects x gaps %v, AR 5 (windows 840/1050/630), format versions 14 and 5", depth, len(letters), dts), Body: func(x *core.X) {
				v := versions[x.Choose(2)]
				wordsFile(x, letters, dts, depth, v, 4, 5, 0.7)
			}},
			{Name: "contexts", Bound: "all pairs of 6 objects in a map with stacks of notes on circles and under sliders x format versions 0 to 15, 128 and none x modes 0 to 3 x first times {1150, -700, -5000, 0.5} (modes 0 and 1)", Body: func(x *core.X) {
				v := []string{"14", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "15", "128", "1", "2", "0", ""}[x.Choose(18)]
				t := base()
				t.Version = v
				t.General[3] = fmt.Sprintf("Mode: %d", x.Choose(4))
				t.Diff[1], t.Diff[3] = "CircleSize:4", "ApproachRate:8"
				ls := []stackLetter{circleAt(100, 100), circleAt(200, 100), sliderAt(100, 100, 200, 100, 1), sliderAt(200, 100, 100, 100, 1), sliderAt(200, 100, 100, 100, 2), spinLetter}
				at := 1000.0
				if t.General[3] < "Mode: 2" {
					at = []float64{1000, -850, -5150, -149.5}[x.Choose(4)]
				}
				for i, l := range []stackLetter{circleAt(100, 100), circleAt(100, 100), ls[x.Choose(6)], ls[x.Choose(6)], circleAt(100, 100), circleAt(200, 100), circleAt(100, 100)} {
					at += []float64{150, 350}[i%2]
					t.Obj = append(t.Obj, l.line(at))
				}
				s := t.Text()
				if v == "" {
					s = s[strings.Index(s, "\n"):]
				}
				x.Desc(func() string { return clip(s) })
				x.State(core.NewH().S(s).Sum())
				n, _ := strconv.Atoi(v)
				checkStacks(x, parse(x, s), 4, 8, 0.7, n, func(i int) string { return fmt.Sprint("object ", i) })
			}},
			{Name: "exact-distance", Bound: "all words of 3 objects (thorough 4) over 10 circles and sliders whose ends are 0, 3 or more px apart x gaps {150, 600}, AR 5, versions 14 and 5", Body: func(x *core.X) {
				v := versions[x.Choose(2)]
				d := 3
				if th {
					d = 4
				}
				wordsFile(x, []stackLetter{circleAt(100, 100), circleAt(103, 100), circleAt(200, 100), circleAt(203, 100), circleAt(197, 100), circleAt(200, 103), circleAt(97, 100), sliderAt(100, 100, 200, 100, 1), sliderAt(200, 100, 100, 100, 1), sliderAt(203, 100, 100, 100, 1)}, []float64{150, 600}, d, v, 4, 5, 0.7)
			}},
			{Name: "grid", Bound: "triples of objects (circle, slider forth, slider back) in one place at gaps in 10 ms steps up to 2 s x AR 0..11 in steps of 0.5 x leniency 0..2 in steps of 0.1 (thorough; quick every third) x versions 14 and 5", Body: func(x *core.X) {
				v := versions[x.Choose(2)]
				ar := float64(x.Choose(23)) / 2
				le := float64(x.Choose(21)) / 10
				if !th && int(le*10+ar*2+0.5)%3 != 0 {
					return
				}
				t := base()
				t.Version = fmt.Sprint(v)
				t.General[2] = "StackLeniency: " + f64(le)
				t.Diff[3] = "ApproachRate:" + f64(ar)
				at := 1000.0
				var words []string
				ls := []stackLetter{circleAt(100, 100), sliderAt(100, 100, 200, 100, 1), sliderAt(200, 100, 100, 100, 1)}
				for k, g := 0, 0.0; g <= 2000; k, g = k+1, g+10 {
					w := []string{ls[k%3].line(at), ls[k/3%3].line(at + g), ls[0].line(at + g + 360)}
					for range w {
						words = append(words, fmt.Sprint(w))
					}
					t.Obj = append(t.Obj, w...)
					at += 60000
				}
				cur := ""
				x.Desc(func() string { return fmt.Sprintf("v%d AR %v leniency %v: %s", v, ar, le, cur) })
				x.State(core.NewH().S(fmt.Sprint(v, ar, le)).Sum())
				bm := parse(x, t.Text())
				checkStacks(x, bm, 4, math.Min(ar, 10), le, v, func(i int) string { cur = words[i]; return cur })
			}},
			{Name: "dense", Bound: "all words of 6 objects (thorough 7) over circle, near circle, slider forth, slider back, 100 ms apart, versions 14, 5, leniencies 0.7 and 0.1", Body: func(x *core.X) {
				v := versions[x.Choose(2)]
				le := []float64{0.7, 0.1}[x.Choose(2)]
				d := 6
				if th {
					d = 7
				}
				wordsFile(x, letters[:5], []float64{100}, d, v, 4, 9, le)
			}},
			{Name: "windows", Bound: "pairs and triples of objects at gaps of each window -1, -0.5, 0, +0.5, +1 ms x AR grid x leniencies x CS x versions x distances 0..3.7", Body: func(x *core.X) {
				v := []int{14, 5, 6, 3}[x.Choose(4)]
				ar := []float64{5, 0, 3, 8, 9.3, 10}[x.Choose(6)]
				le := []float64{0.7, 0.2, 1, 0}[x.Choose(4)]
				kind := x.Choose(3)
				t := base()
				t.Version = fmt.Sprint(v)
				t.General[2] = "StackLeniency: " + f64(le)
				t.Diff[3] = "ApproachRate:" + f64(ar)
				at := 1000.0
				var words []string
				for _, m := range obsMods {
					w := math.Floor(ref.Derive(ref.Settings{AR: ar, Mods: uint64(m), Custom: 1}).Preempt * le)
					for _, o := range []float64{-1, -0.5, 0, 0.5, 1} {
						if w+o < 0 {
							continue
						}
						for _, d := range [][2]float64{{0, 0}, {2, 2}, {2.99, 0}, {0, 3}, {3.01, 0}, {2, 3}, {100, 0}, {102, 2}} {
							var ls []string
							switch kind {
							case 0:
								ls = []string{circleAt(100, 100).line(at), circleAt(100+d[0], 100+d[1]).line(at + w + o)}
							case 1: // slider of 100 px lasting 357.14 ms, then a circle a window after its end
								ls = []string{sliderAt(100, 100, 200, 100, 1).line(at), circleAt(100+d[0], 100+d[1]).line(at + 357 + w + o), circleAt(200, 100).line(at + 357 + 2*(w+o))}
							default:
								ls = []string{circleAt(100, 100).line(at), sliderAt(100+d[0], 100+d[1], 200, 100, 1).line(at + w + o), sliderAt(200, 100, 100, 100, 2).line(at + 2*(w+o))}
							}
							for range ls {
								words = append(words, fmt.Sprint(ls))
							}
							x.State(core.NewH().S(fmt.Sprint(kind, v, ar, le, m, o, d)).Sum())
							t.Obj = append(t.Obj, ls...)
							at += 60000
						}
					}
				}
				cur := ""
				x.Desc(func() string { return fmt.Sprintf("v%d AR %v leniency %v: %s", v, ar, le, cur) })
				bm := parse(x, t.Text())
				checkStacks(x, bm, 4, ar, le, v, func(i int) string { cur = words[i]; return cur })
			}},
			{Name: "ladders", Bound: "1 to 40 (thorough 200) stacked notes below, above and around sliders and spinners x versions 1..14", Body: func(x *core.X) {
				v := 1 + x.Choose(14)
				n := 1 + x.Choose(map[bool]int{false: 40, true: 200}[th])
				pat := x.Choose(5)
				t := base()
				t.Version = fmt.Sprint(v)
				at := 1000.0
				add := func(l stackLetter) { t.Obj = append(t.Obj, l.line(at)); at += 120 }
				A, B := circleAt(100, 100), circleAt(200, 100)
				if pat == 1 {
					add(sliderAt(100, 100, 200, 100, 1))
				}
				if pat == 2 {
					add(A)
					add(spinLetter)
				}
				for i := 0; i < n; i++ {
					switch {
					case pat == 1:
						add(B)
					case pat == 3 && i%3 == 2:
						add(sliderAt(200, 100, 100, 100, 1+i%2))
					case pat == 4 && i%2 == 1:
						add(B)
					default:
						add(A)
					}
				}
				if pat == 2 {
					add(sliderAt(100, 100, 200, 100, 2))
				}
				x.Desc(func() string { return t.Text() })
				x.State(core.NewH().S(t.Text()).Sum())
				bm := parse(x, t.Text())
				checkStacks(x, bm, 4, 9, 0.7, v, func(i int) string { return t.Obj[i] })
			}},
			{Name: "tall", Bound: "stacks and pairs of stacked notes 100, 127..129, 199..202, 255..257, 300 and 520 notes apart within a stack window of 5 s, with and without a slider or spinner in front, versions 14 and 5", Body: func(x *core.X) {
				v := []int{14, 5}[x.Choose(2)]
				n := []int{100, 127, 128, 129, 199, 200, 201, 202, 255, 256, 257, 300, 520}[x.Choose(13)]
				pat, front, gap := x.Choose(4), x.Choose(3), []float64{5, 9}[x.Choose(2)]
				t := base()
				t.Version = fmt.Sprint(v)
				at := 1000.0
				add := func(l stackLetter) { t.Obj = append(t.Obj, l.line(at)); at += gap }
				switch front {
				case 1:
					add(sliderAt(200, 100, 100, 100, 1))
				case 2:
					add(spinLetter)
				}
				add(circleAt(100, 100))
				for i := 0; i < n; i++ {
					switch {
					case pat == 0:
						add(circleAt(100, 100))
					case pat == 1 && i%2 == 0, pat == 2 && i == n/2:
						add(circleAt(300, 200))
					case pat == 3 && i%7 == 3:
						add(sliderAt(300, 200, 100, 100, 1))
					default:
						add(circleAt(float64(150+i%11*30), float64(50+i/11%30*10)))
					}
				}
				add(circleAt(100, 100))
				for i, l := range t.General {
					if strings.HasPrefix(l, "StackLeniency") {
						t.General[i] = "StackLeniency: 8.4"
					}
				}
				x.Desc(func() string { return t.Text() })
				x.State(core.NewH().I(v).I(n).I(pat).I(front).F(gap).Sum())
				checkStacks(x, parse(x, t.Text()), 4, 9, 8.4, v, func(i int) string { return t.Obj[i] })
			}},
			{Name: "corpus", Bound: "two real maps x versions 3..14 x leniencies x approach rates", Body: func(x *core.X) {
				c := x.Choose(2)
				v := 3 + x.Choose(12)
				le := []float64{0.7, 0.3, 1, 2}[x.Choose(4)]
				ar := []float64{9, 2}[x.Choose(2)]
				head, obj := corpusLines(c)
				h := strings.Split(head, "\n")
				for i, l := range h {
					switch {
					case strings.Contains(l, "osu file format"):
						h[i] = fmt.Sprintf("osu file format v%d", v)
					case strings.HasPrefix(l, "StackLeniency"):
						h[i] = "StackLeniency: " + f64(le)
					case strings.HasPrefix(l, "ApproachRate"):
						h[i] = "ApproachRate:" + f64(ar)
					}
				}
				x.Desc(func() string { return fmt.Sprintf("corpus %d v%d leniency %v AR %v", c, v, le, ar) })
				x.State(core.NewH().S(fmt.Sprint(c, v, le, ar)).Sum())
				bm := parse(x, strings.Join(h, "\n")+strings.Join(obj, "\n"))
				x.Assert(bm.Difficulty.GetAR() == ar && bm.StackLeniency == le && bm.FileVersion == v, "header not applied")
				checkStacks(x, bm, bm.Difficulty.GetCS(), ar, le, v, func(i int) string { return fmt.Sprint(bm.HitObjects[i].GetStartTime()) })
			}},
		}
	})
	register("C14", "one execution = one mod combination on one map; every object's positions are compared with raw position, mirroring and stack offset", func(th bool) []core.Scenario {
		text := func(deep int, cs float64, v int) string {
			t := base()
			t.Version = fmt.Sprint(v)
			t.Diff[1] = "CircleSize:" + f64(cs)
			at := 1000.0
			for _, l := range []stackLetter{circleAt(100, 50), circleAt(100, 50), circleAt(101, 51), sliderAt(100, 50, 200, 90, 1), circleAt(200, 90), circleAt(200, 90), circleAt(0, 0), sliderAt(300, 200, 400, 384, 2), sliderAt(300, 200, 300, 300, 3), circleAt(300, 300), spinLetter, circleAt(512, 384), circleAt(512, 384), sliderAt(50, 300, 50, 300, 1), circleAt(50, 300), circleAt(-120, -310), sliderAt(100, 90, 100, 700, 2), circleAt(640, 900), sliderAt(-200, 500, 300, -250, 1)} {
				t.Obj = append(t.Obj, l.line(at))
				at += 140
			}
			for k := 0; k < deep; k++ { // a ladder on a circle and one under the end of a slider
				at += 100
				t.Obj = append(t.Obj, circleAt(30, 40).line(at))
			}
			at += 5000
			for k := 0; k < deep; k++ {
				if k == 0 {
					t.Obj = append(t.Obj, sliderAt(400, 60, 480, 60, 1).line(at))
					at += 250
				}
				at += 100
				t.Obj = append(t.Obj, circleAt(480, 60).line(at))
			}
			return t.Text()
		}
		type key struct {
			deep int
			cs   float64
			v    int
		}
		check := func(x *core.X, bm *beatmap.BeatMap, cs float64, m uint64) {
			km := m & (ref.HR | ref.EZ)
			r := ref.Derive(ref.Settings{CS: cs, Mods: km, Custom: 1}).Radius
			stacked := false
			for i, o := range bm.HitObjects {
				h := o.GetStackIndex(difficulty.Modifier(km))
				x.Assert(o.GetStackIndex(difficulty.Modifier(m)) == h, "stack height of object %d depends on irrelevant mods: %d under %s, %d without", i, o.GetStackIndex(difficulty.Modifier(m)), ref.String(m), h)
				stacked = stacked || h != 0
				off := -r / 10 * float64(h)
				exp := func(raw ref.V) ref.P2 {
					p := ref.P2{X: float64(raw.X), Y: float64(raw.Y)}
					if m&ref.HR != 0 {
						p.Y = 384 - p.Y
					}
					return ref.P2{X: p.X + off, Y: p.Y + off}
				}
				cmp := func(what string, g, raw ref.V) {
					w := exp(raw)
					if math.Abs(float64(g.X)-w.X) > 2e-3 || math.Abs(float64(g.Y)-w.Y) > 2e-3 {
						x.Fail("%s of object %d under %s is %v, want %v (raw %v, stack height %d, radius %v)", what, i, ref.String(m), g, w, raw, h, r)
					}
				}
				dm := difficulty.Modifier(m)
				cmp("start position", rv(o.GetStackedStartPositionMod(dm)), rv(o.GetStartPosition()))
				cmp("end position", rv(o.GetStackedEndPositionMod(dm)), rv(o.GetEndPosition()))
				for k := -1; k <= 9; k++ {
					t := o.GetStartTime() + o.GetDuration()*float64(k)/8
					cmp(fmt.Sprintf("position at %v", t), rv(o.GetStackedPositionAtMod(t, dm)), rv(o.GetPositionAt(t)))
					if km == 0 {
						cmp(fmt.Sprintf("no-mod position at %v", t), rv(o.GetStackedPositionAt(t)), rv(o.GetPositionAt(t)))
					}
				}
				if km == 0 {
					cmp("no-mod start position", rv(o.GetStackedStartPosition()), rv(o.GetStartPosition()))
					cmp("no-mod end position", rv(o.GetStackedEndPosition()), rv(o.GetEndPosition()))
				}
				x.Op(13)
			}
			x.Trace(len(bm.HitObjects))
			x.Assert(stacked || len(bm.HitObjects) < 10, "harness: the map is expected to have stacks")
		}
		get := func(x *core.X, deep int, cs float64, v int) *beatmap.BeatMap {
			k := fmt.Sprint(key{deep, cs, v})
			if b, ok := x.Local[k]; ok {
				return b.(*beatmap.BeatMap)
			}
			b := parse(x, text(deep, cs, v))
			x.Local[k] = b
			return b
		}
		return []core.Scenario{
			{Name: "mod-pairs", Bound: "every pair of the 32 mod bits on top of none, HardRock and Easy, CS 4", Body: func(x *core.X) {
				k := []uint64{0, ref.HR, ref.EZ}[x.Choose(3)]
				m := k | 1<<uint(x.Choose(32)) | 1<<uint(x.Choose(32))
				if m&ref.HR != 0 && m&ref.EZ != 0 {
					return // contradictory
				}
				x.State(m + 1)
				x.Desc(func() string { return ref.String(m) })
				check(x, get(x, 0, 4, 14), 4, m)
			}},
			{Name: "circle-size", Bound: "CS 0..10 in steps of 0.1 x none, HardRock, Easy x versions 14 and 5", Body: func(x *core.X) {
				cs := float64(x.Choose(101)) / 10
				v := []int{14, 5}[x.Choose(2)]
				m := []uint64{0, ref.HR, ref.EZ, ref.DT | ref.HR, ref.HD}[x.Choose(5)]
				x.State(core.NewH().F(cs).I(v).U(m).Sum())
				x.Desc(func() string { return fmt.Sprint("CS ", cs, " version ", v, " ", ref.String(m)) })
				check(x, get(x, 0, cs, v), cs, m)
			}},
			{Name: "deep", Bound: "ladders of 1..64 (thorough 300) notes on a circle and under the end of a slider x CS {0, 4, 7.3, 10} x none, HardRock, Easy x versions 14 and 5", Body: func(x *core.X) {
				n := 1 + x.Choose(map[bool]int{false: 64, true: 300}[th])
				cs := []float64{0, 4, 7.3, 10}[x.Choose(4)]
				v := []int{14, 5}[x.Choose(2)]
				m := []uint64{0, ref.HR, ref.EZ}[x.Choose(3)]
				x.State(core.NewH().I(n).F(cs).I(v).U(m).Sum())
				x.Desc(func() string { return fmt.Sprint("ladders of ", n, " CS ", cs, " version ", v, " ", ref.String(m)) })
				check(x, get(x, n, cs, v), cs, m)
			}},
			{Name: "approach-rates", Bound: "AR {0, 3.5, 5, 7.142857, 7.2, 9, 10} x CS {0, 4, 7.3, 10} x versions 14 and 5 x none, HardRock, Easy", Body: func(x *core.X) {
				ar := []float64{0, 3.5, 5, 7.142857, 7.2, 9, 10}[x.Choose(7)]
				cs := []float64{0, 4, 7.3, 10}[x.Choose(4)]
				v := []int{14, 5}[x.Choose(2)]
				m := []uint64{0, ref.HR, ref.EZ}[x.Choose(3)]
				x.State(core.NewH().F(ar).F(cs).I(v).U(m).Sum())
				x.Desc(func() string { return fmt.Sprint("AR ", ar, " CS ", cs, " version ", v, " ", ref.String(m)) })
				t := text(6, cs, v)
				u := strings.Replace(t, "ApproachRate:9", "ApproachRate:"+f64(ar), 1)
				x.Assert(u != t || ar == 9, "harness: no approach rate in the map")
				check(x, parse(x, u), cs, m)
			}},
			{Name: "api-histories", Bound: "every history of 4 stack index/offset setter calls per mod on a circle, a slider and a spinner", Body: func(x *core.X) {
				line := []string{"100,50,1000,1,0", "100,50,1000,2,0,L|200:50,1,100", "256,192,1000,8,0,1500"}[x.Choose(3)]
				o := mkObj(line)
				idx, off := map[mods]int{}, map[mods]float64{}
				var log []string
				x.Desc(func() string { return line + fmt.Sprint(log) })
				for i := 0; i < 4; i++ {
					m := obsMods[x.Choose(3)]
					extra := []mods{0, difficulty.DoubleTime | difficulty.Hidden}[x.Choose(2)]
					v := []int{2, -3}[x.Choose(2)]
					if x.Bool() {
						o.SetStackIndex(v, m|extra)
						idx[m] = v
						log = append(log, fmt.Sprintf("SetStackIndex(%d,%v)", v, m|extra))
					} else {
						o.SetStackOffset(float32(v), m|extra)
						off[m] = float64(v)
						log = append(log, fmt.Sprintf("SetStackOffset(%d,%v)", v, m|extra))
					}
					x.Op(1)
				}
				for _, m := range obsMods {
					x.Assert(o.GetStackIndex(m) == idx[m], "stack index under %v is %d, want %d", m, o.GetStackIndex(m), idx[m])
					g, raw := o.GetStackedStartPositionMod(m), o.GetStartPosition()
					wy := float64(raw.Y)
					if m == difficulty.HardRock {
						wy = 384 - wy
					}
					x.Assert(math.Abs(float64(g.X)-float64(raw.X)-off[m]) < 1e-4 && math.Abs(float64(g.Y)-wy-off[m]) < 1e-4, "position under %v is %v, want offset %v", m, g, off[m])
				}
				x.Trace(1)
				x.State(core.NewH().S(fmt.Sprint(line, log)).Sum())
			}},
			{Name: "corpus", Bound: "two real maps x 12 mod combinations", Body: func(x *core.X) {
				c := x.Choose(2)
				m := []uint64{0, ref.HR, ref.EZ, ref.DT, ref.HD, ref.FL, ref.HR | ref.DT, ref.EZ | ref.HT, ref.HR | ref.HD | ref.NC | ref.DT, ref.RX, ref.EZ | ref.FL, ref.SO | ref.NF}[x.Choose(12)]
				bm := parse(x, corpora[c])
				x.State(core.NewH().I(c).U(m).Sum())
				check(x, bm, bm.Difficulty.GetCS(), m)
			}},
		}
	})
}

func lenObjs(b *beatmap.BeatMap) int { return len(b.HitObjects) }
func lenS(s []string) int            { return len(s) }
