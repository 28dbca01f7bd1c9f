package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"

	"vmc/core"
	"vmc/ref"
)

func init() {
	register("C05", "one execution = one [Difficulty] section (keys, values, order); distinct sections are states", func(th bool) []core.Scenario {
		keys := []string{"HPDrainRate", "CircleSize", "OverallDifficulty", "ApproachRate", "SliderMultiplier", "SliderTickRate"}
		lim := [][3]float64{{0, 10, 5}, {0, 10, 5}, {0, 10, 5}, {0, 10, 5}, {0.4, 3.6, 1.4}, {0.5, 8, 1}}
		num := func(v string) float64 {
			f, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
			if err != nil && !math.IsInf(f, 0) {
				return 0
			}
			return f
		}
		// checkLines compares the parse of the difficulty lines with the last-value-clamped model.
		checkLines := func(x *core.X, ls [][2]string) {
			t := base()
			t.Diff = nil
			want := [6]float64{}
			for i := range lim {
				want[i] = lim[i][2]
			}
			hasAR := false
			for _, l := range ls {
				t.Diff = append(t.Diff, l[0]+":"+l[1])
				for i, k := range keys {
					if k == l[0] {
						want[i] = math.Min(lim[i][1], math.Max(lim[i][0], num(l[1])))
						hasAR = hasAR || i == 3
					}
				}
			}
			if !hasAR {
				for _, l := range ls {
					if l[0] == keys[2] {
						want[3] = want[2]
					}
				}
			}
			t.Obj = []string{"0,0,1000,2,0,L|300:0,1,280"}
			txt := t.Text()
			x.Desc(func() string { return strings.Join(t.Diff, " / ") })
			x.State(core.NewH().S(txt).Sum())
			bm := parse(x, txt)
			x.Trace(1)
			verifyDiff(x, bm, want)
		}
		vals := [][]string{
			{"4", "0", "10", "-0.1", "10.1", "5", "7.25", "1e9", "-1e9", " 3 ", "abc", ""},
			{"4.2", "0", "10", "-3", "11", "5", "0.5", "Inf", "-Inf", "\t6", "x1", ""},
			{"8", "0", "10", "-1", "10.01", "5", "9.9", "1e300", "-0", "2 ", "NOPE", ""},
			{"9.3", "0", "10", "-1", "12", "5", "8.5", "99", "-99", " 1 ", "?", ""},
			{"1.4", "0.4", "3.6", "0.39", "3.61", "2", "1", "0", "-1", "100", "", "1e-9"},
			{"1", "0.5", "8", "0.49", "8.01", "2", "4", "0", "-1", "1000", "", "3"},
		}
		scs := []core.Scenario{
			{Name: "values", Bound: "every pair of keys in both orders, all other keys absent, with every pair of 12 values", Body: func(x *core.X) {
				a, b := x.Choose(6), x.Choose(6)
				checkLines(x, [][2]string{{keys[a], vals[a][x.Choose(12)]}, {keys[b], vals[b][x.Choose(12)]}})
			}},
			{Name: "grid", Bound: "each key alone with every value from -2 to 12 in steps of 0.05", Body: func(x *core.X) {
				a := x.Choose(6)
				v := -2 + 0.05*float64(x.Choose(281))
				checkLines(x, [][2]string{{keys[a], strconv.FormatFloat(v, 'f', 2, 64)}})
			}},
			{Name: "decimals", Bound: "each key alone with numbers of up to 20 decimals, exponents, signs and leading or trailing zeros", Body: func(x *core.X) {
				a := x.Choose(6)
				b := []string{"1.33333333333333", "0.66666666666666666", "3.14159265358979", "2.7182818284590452", "1.0000001", "0.99999999", "1.23456789012345678901", "3.5999999999", "0.50000001", "7.0000000000000001", "9.9999999", "0.0000001", "0.12345"}
				v := b[x.Choose(len(b))]
				switch x.Choose(5) {
				case 1:
					v = "+" + v
				case 2:
					v = "00" + v
				case 3:
					v += "e0"
				case 4:
					v += "000"
				}
				checkLines(x, [][2]string{{keys[a], v}})
			}},
			{Name: "orders", Bound: "every subset of the six keys in every order (1957 sections), 2 value sets", Body: func(x *core.X) {
				set := x.Choose(2)
				left := []int{0, 1, 2, 3, 4, 5}
				var ls [][2]string
				for len(left) > 0 {
					c := x.Choose(len(left) + 1)
					if c == len(left) {
						break
					}
					k := left[c]
					left = append(append([]int{}, left[:c]...), left[c+1:]...)
					ls = append(ls, [2]string{keys[k], vals[k][set*6]})
				}
				checkLines(x, ls)
			}},
			{Name: "repeats", Bound: "every sequence of four lines over {OD, AR, CS, SliderMultiplier} x 2 values", Body: func(x *core.X) {
				var ls [][2]string
				n := 4
				if th {
					n = 5
				}
				for i := 0; i < n; i++ {
					k := []int{2, 3, 1, 4}[x.Choose(4)]
					ls = append(ls, [2]string{keys[k], vals[k][[]int{0, 6}[x.Choose(2)]]})
				}
				checkLines(x, ls)
			}},
			{Name: "od-ar", Bound: "every sequence of 1 to 3 lines over {OD, AR} x 9 values", Body: func(x *core.X) {
				vs := []string{"8", "0", "0.5", "1", "5", "9.7", "10", "-1", "z"}
				var ls [][2]string
				n := 1 + x.Choose(3)
				for i := 0; i < n; i++ {
					ls = append(ls, [2]string{keys[2+x.Choose(2)], vs[x.Choose(len(vs))]})
				}
				checkLines(x, ls)
			}},
			{Name: "order-independence", Bound: "all 720 orders of the six keys give one observable beatmap (with objects)", Body: func(x *core.X) {
				t := richTmpl()
				want := obs(parse(x, t.Text()))
				left := append([]string{}, t.Diff...)
				t.Diff = nil
				for len(left) > 0 {
					c := x.Choose(len(left))
					t.Diff = append(t.Diff, left[c])
					left = append(append([]string{}, left[:c]...), left[c+1:]...)
				}
				x.Desc(func() string { return strings.Join(t.Diff, " / ") })
				x.State(core.NewH().S(strings.Join(t.Diff, "|")).Sum())
				g := obs(parse(x, t.Text()))
				x.Trace(1)
				x.Assert(g == want, "order of difficulty lines matters: %s", diffLine(want, g))
			}},
		}
		if th {
			scs = append(scs, core.Scenario{Name: "triples", Bound: "every ordered triple of keys with every triple of 5 values", Body: func(x *core.X) {
				var ls [][2]string
				for i := 0; i < 3; i++ {
					k := x.Choose(6)
					ls = append(ls, [2]string{keys[k], vals[k][[]int{0, 3, 4, 6, 8}[x.Choose(5)]]})
				}
				checkLines(x, ls)
			}})
		}
		return scs
	})
}

func verifyDiff(x *core.X, bm *beatmap.BeatMap, want [6]float64) {
	d := bm.Difficulty
	got := [6]float64{d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), bm.SliderMultiplier, bm.Timings.TickRate}
	names := []string{"HP", "CS", "OD", "AR", "slider multiplier", "tick rate"}
	for i := range want {
		if got[i] != want[i] {
			x.Fail("%s should be %v but is %v", names[i], want[i], got[i])
		}
	}
	x.Assert(bm.Timings.SliderMult == want[4], "slider multiplier %v did not reach the timing (%v)", want[4], bm.Timings.SliderMult)
	if msg := derivedMismatch(ref.Settings{HP: want[0], CS: want[1], OD: want[2], AR: want[3], Custom: 1}, d); msg != "" {
		x.Fail("derived values do not follow the settings: %s", msg)
	}
	p := bm.Timings.GetPointAt(1000)
	x.Assert(ref.Close(bm.Timings.GetVelocity(p), 100*want[4]*2, 1e-9), "slider velocity %v for multiplier %v", bm.Timings.GetVelocity(p), want[4])
	x.Assert(ref.Close(bm.Timings.GetTickDistance(p), 100*want[4]/want[5], 1e-9), "tick distance %v for multiplier %v and tick rate %v", bm.Timings.GetTickDistance(p), want[4], want[5])
	if len(bm.HitObjects) == 1 {
		o := bm.HitObjects[0]
		x.Assert(ref.Close(o.GetDuration(), 280*1000/(200*want[4]), 1e-6), "slider lasts %v with multiplier %v", o.GetDuration(), want[4])
	}
	x.Outcome(core.NewH().S(fmt.Sprint(got)).Sum())
}
