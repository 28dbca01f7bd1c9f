package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
)

func peaksBits(p osu.StrainPeaks) string {
	var b strings.Builder
	for i, l := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		fmt.Fprintf(&b, "|%d:%d ", i, len(l))
		for _, v := range l {
			b.WriteString(bits(v))
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func stepsBits(s []osu.Attributes) string {
	var b strings.Builder
	for _, a := range s {
		b.WriteString(attrBits(a))
		b.WriteByte('\n')
	}
	return b.String()
}

func wipe(p osu.StrainPeaks) {
	for _, l := range [][]float64{p.Aim, p.Speed, p.Flashlight, p.Total} {
		for i := range l {
			l[i] = -math.MaxFloat64
		}
	}
}

// calcOps are the operations of the calculation histories; results are rendered bit by bit and
// everything returned is overwritten afterwards.
var calcOps = []struct {
	name string
	run  func(b *beatmap.BeatMap) string
}{
	{"single", func(b *beatmap.BeatMap) string { return attrBits(osu.CalculateSingle(b.HitObjects, b.Difficulty)) }},
	{"step", func(b *beatmap.BeatMap) string {
		s := osu.CalculateStep(b.HitObjects, b.Difficulty)
		r := stepsBits(s)
		for i := range s {
			s[i] = osu.Attributes{Total: -1}
		}
		return r
	}},
	{"peaks", func(b *beatmap.BeatMap) string {
		p := osu.CalculateStrainPeaks(b.HitObjects, b.Difficulty)
		defer wipe(p)
		return peaksBits(p)
	}},
	{"singlePeaks", func(b *beatmap.BeatMap) string {
		a, p := osu.CalculateSingleWithPeaks(b.HitObjects, b.Difficulty)
		defer wipe(p)
		return attrBits(a) + peaksBits(p)
	}},
	{"stepPeaks", func(b *beatmap.BeatMap) string {
		s, p := osu.CalculateStepWithPeaks(b.HitObjects, b.Difficulty)
		defer wipe(p)
		return stepsBits(s) + peaksBits(p)
	}},
	{"prefix", func(b *beatmap.BeatMap) string {
		return attrBits(osu.CalculateSingle(b.HitObjects[:len(b.HitObjects)/2], b.Difficulty))
	}},
	{"pp", func(b *beatmap.BeatMap) string {
		var pp osu.PPv2
		a := osu.Attributes{Aim: 2.5, Speed: 2, Flashlight: 1.2, SliderFactor: 0.98, Total: 5, ObjectCount: 10, Circles: 6, Sliders: 3, Spinners: 1, MaxCombo: 20}
		r := pp.PPv2x(a, 15, -1, 1, 1, 1, b.Difficulty).Results
		return fmt.Sprint(bits(r.Aim), bits(r.Speed), bits(r.Acc), bits(r.Flashlight), bits(r.Total))
	}},
	{"positions", func(b *beatmap.BeatMap) string { return posBits(b.HitObjects, 1) }},
	{"positions backwards", func(b *beatmap.BeatMap) string { return posBits(b.HitObjects, -1) }},
}

func posBits(objs []objects.IHitObject, dir int) string {
	out := make([]string, 0, 64)
	for i := range objs {
		o := objs[i]
		if dir < 0 {
			o = objs[len(objs)-1-i]
		}
		var l []string
		for k := -1; k <= 5; k++ {
			kk := k
			if dir < 0 {
				kk = 4 - k
			}
			t := o.GetStartTime() + o.GetDuration()*float64(kk)/4
			s := vbits(o.GetPositionAt(t))
			for _, m := range obsMods {
				s += " " + vbits(o.GetStackedPositionAtMod(t, m))
			}
			if dir < 0 {
				l = append([]string{s}, l...)
			} else {
				l = append(l, s)
			}
		}
		s := strings.Join(l, " ")
		if dir < 0 {
			out = append([]string{s}, out...)
		} else {
			out = append(out, s)
		}
	}
	return strings.Join(out, "\n")
}

// assign sets one group of exported fields to values of its own.
func assign(d *difficulty.Difficulty, i int) {
	switch i {
	case 0:
		d.Mods = difficulty.HalfTime | difficulty.Flashlight
	case 1:
		d.CustomSpeed = 1.25
	case 2:
		d.ARReal, d.ODReal = 3.5, 4.5
	case 3:
		d.CircleRadius = 21
	case 4:
		d.Hit300, d.Hit100, d.Hit50 = 11, 22, 33
	case 5:
		d.Speed = 1.75
	case 6:
		d.Preempt = 777
	case 7:
		d.HPMod, d.SpinnerRatio = 2.2, 1.1
	}
}

func histMaps() []string {
	a := stdSpec([]placed{{cir(100, 100), 900, 0}, {sli(100, 100, "B|200:0|300:200|350:100", 2, 260), 1300, 0}, {cir(350, 100), 3000, 0}, {cir(351, 100), 3150, 0}, {spi, 3400, 0}, {sli(60, 300, "P|150:250|200:300", 3, 100), 4000, 0}, {sli(60, 300, "C|100:200|200:300|300:200", 1, 280), 6500, 0}, {cir(256, 100), 8000, 0}})
	b := stdSpec(append(stream(1, 14), placed{cir(10, 10), 20000, 0}))
	b.cs, b.ar, b.od, b.sm, b.tr, b.version = 6.3, 4, 3, 2.1, 2, 5
	return []string{a.text(), b.text()}
}

func init() {
	register("C28", "one execution = one history of operations on two parsed beatmaps; every result is compared bit by bit with the same operation on a freshly parsed beatmap, and both beatmaps with their fresh state", func(th bool) []core.Scenario {
		texts := histMaps()
		ms := []mods{0, difficulty.HardRock | difficulty.DoubleTime | difficulty.Flashlight, difficulty.Easy | difficulty.HalfTime | difficulty.Relax}
		depth := 3
		if th {
			depth = 4
		}
		memo := func(x *core.X, key string, f func() string) string {
			if v, ok := x.Local[key]; ok {
				return v.(string)
			}
			v := f()
			x.Local[key] = v
			return v
		}
		fresh := func(x *core.X, k int, m mods) *beatmap.BeatMap {
			b := parse(x, texts[k])
			if m != 0 {
				b.Difficulty.SetMods(m)
			}
			return b
		}
		wantOp := func(x *core.X, k int, m mods, op int) string {
			return memo(x, fmt.Sprint("op", k, m, op), func() string { return calcOps[op].run(fresh(x, k, m)) })
		}
		wantObs := func(x *core.X, k int, m mods) string {
			return memo(x, fmt.Sprint("obs", k, m), func() string { return obs(fresh(x, k, m)) })
		}
		// last letter: everything that is not a calculation
		nOps := len(calcOps)
		return []core.Scenario{
			{Name: "histories", Bound: fmt.Sprintf("all histories of %d operations over {%d calculations and queries, set one of 3 mod sets, parse the same bytes again and overwrite that copy} on two beatmaps", depth, nOps), Body: func(x *core.X) {
				bms := []*beatmap.BeatMap{fresh(x, 0, 0), fresh(x, 1, 0)}
				cur := []mods{0, 0}
				var log []string
				x.Desc(func() string { return strings.Join(log, "; ") })
				h := core.NewH()
				for i := 0; i < depth; i++ {
					k := x.Choose(2)
					op := x.Choose(nOps + 4)
					h = h.I(k).I(op)
					x.Op(1)
					switch {
					case op < nOps:
						log = append(log, fmt.Sprintf("map%d.%s", k, calcOps[op].name))
						g, w := calcOps[op].run(bms[k]), wantOp(x, k, cur[k], op)
						x.Assert(g == w, "%s under %v gives another result than on a fresh beatmap: %s", calcOps[op].name, cur[k], diffLine(g, w))
						x.Trace(1)
					case op < nOps+3:
						cur[k] = ms[op-nOps]
						log = append(log, fmt.Sprintf("map%d.SetMods(%v)", k, cur[k]))
						bms[k].Difficulty.SetMods(cur[k])
					default:
						log = append(log, fmt.Sprintf("parse map%d again and overwrite it", k))
						c := parse(x, texts[k])
						x.Assert(obs(c) == wantObs(x, k, 0), "parsing again gives another beatmap: %s", diffLine(obs(c), wantObs(x, k, 0)))
						for _, o := range c.HitObjects {
							o.SetStackIndex(7, 0)
							o.SetStackOffset(33, difficulty.HardRock)
							o.SetID(99)
							o.SetComboNumber(77)
							o.SetNewCombo(!o.IsNewCombo())
							if s, ok := o.(*objects.Slider); ok {
								for j := range s.ScorePoints {
									s.ScorePoints[j].Time = -5
								}
								s.RepeatCount = 1
							}
						}
						c.Difficulty.SetCS(1)
						c.Difficulty.SetAR(1)
						c.Difficulty.SetMods(difficulty.Easy)
						c.Timings.AddPoint(0, 123, 1, 1, 1, 4, false, false, false)
						c.Timings.SliderMult = 9
						for j := range c.Pauses {
							c.Pauses[j].StartTime = -1
						}
					}
				}
				for k := range bms {
					g, w := obs(bms[k]), wantObs(x, k, cur[k])
					x.Assert(g == w, "map %d was modified: %s", k, diffLine(g, w))
				}
				x.State(h.Sum())
			}},
			{Name: "repeats", Bound: "every operation after every operation on the same map under every pair of mod sets, calculated 3 times in a row", Body: func(x *core.X) {
				k := x.Choose(2)
				o1, o2 := x.Choose(nOps), x.Choose(nOps)
				m1, m2 := ms[x.Choose(3)], ms[x.Choose(3)]
				b := fresh(x, k, m1)
				x.Desc(func() string {
					return fmt.Sprintf("map%d: %s under %v, then %s under %v three times, then the first again", k, calcOps[o1].name, m1, calcOps[o2].name, m2)
				})
				x.State(core.NewH().I(k).I(o1).I(o2).U(uint64(m1)).U(uint64(m2)).Sum())
				chk := func(op int, m mods) {
					x.Op(1)
					x.Trace(1)
					g, w := calcOps[op].run(b), wantOp(x, k, m, op)
					x.Assert(g == w, "%s under %v gives another result than on a fresh beatmap: %s", calcOps[op].name, m, diffLine(g, w))
				}
				chk(o1, m1)
				b.Difficulty.SetMods(m2)
				for i := 0; i < 3; i++ {
					chk(o2, m2)
				}
				b.Difficulty.SetMods(m1)
				chk(o1, m1)
				g, w := obs(b), wantObs(x, k, m1)
				x.Assert(g == w, "map %d was modified: %s", k, diffLine(g, w))
			}},
			{Name: "position-histories", Bound: "all histories of 4 (thorough 5) position queries over 8 times x 4 mods on 4 sliders, against a fresh slider each", Body: func(x *core.X) {
				n := 4
				if th {
					n = 5
				}
				l := []ol{sli(100, 100, "B|200:0|300:200|350:100", 2, 260), sli(60, 300, "P|150:250|200:300", 3, 100), sli(100, 100, "L|140:100|140:300", 1, 151), sli(60, 300, "C|100:200|200:300|300:200", 1, 280)}[x.Choose(4)]
				d := newDiff(5, 4, 8, 9, 0)
				mk := func() *objects.Slider {
					return build([]placed{{l, 1000, 2}}, 1.4, 1, [][2]float64{{0, 500}}, d)[0].(*objects.Slider)
				}
				s := mk()
				var log []string
				x.Desc(func() string { return l.String() + " " + strings.Join(log, ", ") })
				h := core.NewH().S(l.String())
				for i := 0; i < n; i++ {
					q := x.Choose(8)
					m := []mods{0, difficulty.HardRock}[x.Choose(2)]
					t := []float64{s.GetStartTime(), s.GetEndTime(), s.GetStartTime() + s.GetDuration()*0.21, s.GetStartTime() + s.GetDuration()*0.77, -100, 1e7, s.GetStartTime() + s.GetDuration()*0.5, s.GetStartTime() + s.GetDuration()*0.999}[q]
					log = append(log, fmt.Sprintf("%v under %v", t, m))
					f := mk()
					x.Op(1)
					x.Trace(1)
					h = h.I(q).U(uint64(m))
					g, w := s.GetStackedPositionAtMod(t, m), f.GetStackedPositionAtMod(t, m)
					x.Assert(g == w, "position at %v is %v after earlier queries, %v on a fresh slider", t, g, w)
					x.Assert(s.GetPositionAt(t) == f.GetPositionAt(t), "position at %v is %v after earlier queries, %v on a fresh slider", t, s.GetPositionAt(t), f.GetPositionAt(t))
				}
				x.State(h.Sum())
			}},
			{Name: "corpus", Bound: "two real maps: every pair of calculations under 3 mod sets, and parsing twice", Body: func(x *core.X) {
				k := x.Choose(2)
				mi := x.Choose(3)
				op := []int{0, 2, 3, 7}[x.Choose(4)]
				b := parse(x, corpora[k])
				b2 := parse(x, corpora[k])
				x.Desc(func() string { return fmt.Sprintf("corpus %d %s under %v", k, calcOps[op].name, ms[mi]) })
				x.State(core.NewH().I(k).I(mi).I(op).Sum())
				before := obs(b)
				x.Assert(before == obs(b2), "parsing twice gives different beatmaps: %s", diffLine(before, obs(b2)))
				b.Difficulty.SetMods(ms[mi])
				b2.Difficulty.SetMods(ms[mi])
				w := calcOps[op].run(b2)
				for i := 0; i < 2; i++ {
					x.Op(1)
					x.Trace(1)
					if g := calcOps[op].run(b); g != w {
						x.Fail("%s gives different results: %s", calcOps[op].name, diffLine(g, w))
					}
					_ = calcOps[(op+1)%2*3].run(b)
				}
				b.Difficulty.SetMods(0)
				x.Assert(obs(b) == before, "the beatmap was modified: %s", diffLine(obs(b), before))
			}},
			{Name: "difficulty", Bound: "every calculation on difficulties whose exported fields were assigned directly (mods, custom speed, real AR/OD, circle radius, windows, rate, each alone and in pairs): no field changes", Body: func(x *core.X) {
				k, op := x.Choose(2), x.Choose(nOps)
				b := fresh(x, k, ms[x.Choose(3)])
				i, j := x.Choose(9), x.Choose(9)
				assign(b.Difficulty, i)
				assign(b.Difficulty, j)
				x.Desc(func() string { return fmt.Sprintf("map%d.%s with assigned fields %d, %d", k, calcOps[op].name, i, j) })
				x.State(core.NewH().I(k).I(op).I(i).I(j).U(uint64(b.Difficulty.Mods)).Sum())
				before, all := *b.Difficulty, obs(b)
				g := calcOps[op].run(b)
				x.Op(2)
				x.Trace(1)
				x.Assert(*b.Difficulty == before, "the difficulty was changed: %+v, before %+v", *b.Difficulty, before)
				x.Assert(obs(b) == all, "the beatmap was changed: %s", diffLine(obs(b), all))
				x.Assert(calcOps[op].run(b) == g, "doing it again gives another result")
			}},
			{Name: "difficulty-long", Bound: "every calculation on two real maps and difficulties whose exported fields were assigned directly, each alone and all together: no field changes, and the result is that of doing it again", Body: func(x *core.X) {
				c, op, i := x.Choose(2), x.Choose(nOps), x.Choose(9)
				b := parse(x, corpora[c])
				for j := 0; j < 8; j++ {
					if i == 8 || i == j {
						assign(b.Difficulty, j)
					}
				}
				x.Desc(func() string { return fmt.Sprintf("corpus %d %s with assigned field %d", c, calcOps[op].name, i) })
				x.State(core.NewH().I(c).I(op).I(i).U(9).Sum())
				before := *b.Difficulty
				g := calcOps[op].run(b)
				x.Op(2)
				x.Trace(1)
				x.Assert(*b.Difficulty == before, "the difficulty was changed: %+v, before %+v", *b.Difficulty, before)
				x.Assert(calcOps[op].run(b) == g, "doing it again gives another result")
			}},
			{Name: "settings", Bound: fmt.Sprintf("all histories of %d steps over {set CS, AR, OD, HP, custom speed, mods to one of two values} on two beatmaps, each followed by one of %d calculations or none; compared with a fresh beatmap given the final settings only", depth, nOps), Body: func(x *core.X) {
				k := x.Choose(2)
				ops := []int{0, 1, 3, 6, 7}
				if th {
					ops = []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
				}
				b := fresh(x, k, 0)
				type state struct {
					cs, ar, od, hp, sp float64
					m                  mods
				}
				d := b.Difficulty
				cur := state{d.GetCS(), d.GetAR(), d.GetOD(), d.GetHP(), d.CustomSpeed, 0}
				var log []string
				x.Desc(func() string { return fmt.Sprintf("map%d ", k) + strings.Join(log, "; ") })
				h := core.NewH().I(k)
				for i := 0; i < depth; i++ {
					c := x.Choose(12)
					h = h.I(c)
					hi := c % 2
					switch c / 2 {
					case 0:
						cur.cs = []float64{2, 7}[hi]
						d.SetCS(cur.cs)
						log = append(log, fmt.Sprint("SetCS ", cur.cs))
					case 1:
						cur.ar = []float64{6, 10}[hi]
						d.SetAR(cur.ar)
						log = append(log, fmt.Sprint("SetAR ", cur.ar))
					case 2:
						cur.od = []float64{5, 9.5}[hi]
						d.SetOD(cur.od)
						log = append(log, fmt.Sprint("SetOD ", cur.od))
					case 3:
						cur.hp = []float64{1, 8}[hi]
						d.SetHP(cur.hp)
						log = append(log, fmt.Sprint("SetHP ", cur.hp))
					case 4:
						cur.sp = []float64{0.8, 1.4}[hi]
						d.SetCustomSpeed(cur.sp)
						log = append(log, fmt.Sprint("SetCustomSpeed ", cur.sp))
					case 5:
						cur.m = ms[1+hi]
						d.SetMods(cur.m)
						log = append(log, fmt.Sprint("SetMods ", cur.m))
					}
					op := 0 // a calculation after every step but the last may be left out
					if i < depth-1 {
						op = x.Choose(2) - 1
					} else {
						op = x.Choose(len(ops))
					}
					if op < 0 {
						continue
					}
					h = h.I(op)
					op = ops[op]
					x.Op(1)
					x.Trace(1)
					log = append(log, calcOps[op].name)
					w := memo(x, fmt.Sprint("set", k, cur, op), func() string {
						f := fresh(x, k, 0)
						e := f.Difficulty
						e.SetMods(cur.m)
						e.SetHP(cur.hp)
						e.SetOD(cur.od)
						e.SetAR(cur.ar)
						e.SetCS(cur.cs)
						e.SetCustomSpeed(cur.sp)
						return calcOps[op].run(f)
					})
					g := calcOps[op].run(b)
					x.Assert(g == w, "%s gives another result than on a fresh beatmap with the same settings: %s", calcOps[op].name, diffLine(g, w))
				}
				x.State(h.Sum())
			}},
			{Name: "rewired", Bound: fmt.Sprintf("all histories of %d steps over {swap, replace, truncate, restore, duplicate elements of the object slice in place, move the difficulty into another variable, change stack offsets}, a calculation before and after each; compared with the same on fresh beatmaps", depth), Body: func(x *core.X) {
				k := x.Choose(2)
				op := []int{0, 1, 2, 3, 4, 5}[x.Choose(6)]
				m := ms[x.Choose(2)]
				b := fresh(x, k, m)
				own := b.HitObjects
				work := append([]objects.IHitObject{}, own...)
				seq := make([]int, len(own)) // which original object lies where
				for i := range seq {
					seq[i] = i
				}
				n := len(work)
				off := map[int]float32{}
				var log []string
				x.Desc(func() string { return fmt.Sprintf("map%d %s %v: ", k, calcOps[op].name, m) + strings.Join(log, "; ") })
				h := core.NewH().I(k).I(op).U(uint64(m))
				d := b.Difficulty
				do := func() {
					x.Op(1)
					x.Trace(1)
					w := memo(x, fmt.Sprint("wire", k, op, m, seq[:n], off), func() string {
						f := fresh(x, k, m)
						os := make([]objects.IHitObject, 0, n)
						for _, i := range seq[:n] {
							os = append(os, f.HitObjects[i])
						}
						for i, v := range off {
							f.HitObjects[i].SetStackOffset(v, m)
						}
						f.HitObjects = os
						return calcOps[op].run(f)
					})
					b.HitObjects, b.Difficulty = work[:n], d
					g := calcOps[op].run(b)
					x.Assert(g == w, "%s gives another result than on a fresh beatmap with the same objects: %s", calcOps[op].name, diffLine(g, w))
					for j, i := range seq[:n] {
						x.Assert(work[j] == own[i], "%s put another object into place %d of the slice it was given", calcOps[op].name, j)
					}
				}
				do()
				for i := 0; i < depth; i++ {
					c := x.Choose(8)
					h = h.I(c)
					log = append(log, []string{"swap 1 and 2", "swap 0 and the middle", "object 3 twice", "drop the last", "restore", "another difficulty variable", "offset of object 2", "offset of object 0"}[c])
					put := func(at, i int) { work[at], seq[at] = own[i], i }
					switch c {
					case 0:
						work[1], work[2], seq[1], seq[2] = work[2], work[1], seq[2], seq[1]
					case 1:
						j := n / 2
						work[0], work[j], seq[0], seq[j] = work[j], work[0], seq[j], seq[0]
					case 2:
						put(2, 3)
					case 3:
						n--
					case 4:
						n = len(own)
						for i := range own {
							put(i, i)
						}
					case 5:
						e := *d
						d = &e
					case 6:
						off[2] = float32(5 + i)
						own[2].SetStackOffset(off[2], m)
					case 7:
						off[0] = float32(-9 - i)
						own[0].SetStackOffset(off[0], m)
					}
					do()
				}
				x.State(h.Sum())
			}},
			{Name: "slices", Bound: "prefixes and suffixes of a map rated in every order of three: the map's own objects are shared, results must not", Body: func(x *core.X) {
				b := fresh(x, 1, ms[1])
				n := len(b.HitObjects)
				cuts := [][2]int{{0, n}, {0, n / 2}, {n / 2, n}, {1, n}, {0, 2}, {3, 7}}
				var log []int
				x.Desc(func() string { return fmt.Sprint("slices ", log) })
				h := core.NewH()
				for i := 0; i < 3; i++ {
					c := x.Choose(len(cuts))
					log = append(log, c)
					h = h.I(c)
					key := fmt.Sprint("slice", c)
					w := memo(x, key, func() string {
						f := fresh(x, 1, ms[1])
						return attrBits(osu.CalculateSingle(f.HitObjects[cuts[c][0]:cuts[c][1]], f.Difficulty))
					})
					g := attrBits(osu.CalculateSingle(b.HitObjects[cuts[c][0]:cuts[c][1]], b.Difficulty))
					x.Op(1)
					x.Trace(1)
					x.Assert(g == w, "rating objects %v differs from doing so on a fresh beatmap: %s versus %s", cuts[c], g, w)
				}
				x.State(h.Sum())
			}},
		}
	})
}
