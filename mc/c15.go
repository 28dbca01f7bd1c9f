package main

import (
	"fmt"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"

	"vmc/core"
	"vmc/ref"
)

func derivedMismatch(s ref.Settings, d *difficulty.Difficulty) string {
	w := ref.Derive(s)
	for _, c := range []struct {
		n    string
		g, w float64
	}{
		{"HP", d.HPMod, w.HP}, {"circle radius", d.CircleRadius, w.Radius}, {"approach time", d.Preempt, w.Preempt}, {"50 window", d.Hit50, w.H50}, {"100 window", d.Hit100, w.H100}, {"300 window", d.Hit300, w.H300},
		{"spinner ratio", d.SpinnerRatio, w.Spin}, {"speed", d.Speed, w.Rate}, {"real AR", d.ARReal, w.ARReal}, {"real OD", d.ODReal, w.ODReal},
		{"base HP", d.GetHP(), s.HP}, {"base CS", d.GetCS(), s.CS}, {"base OD", d.GetOD(), s.OD}, {"base AR", d.GetAR(), s.AR},
		{"modified time of 1234", d.GetModifiedTime(1234), 1234 / w.Rate}, {"modified time of -10", d.GetModifiedTime(-10), -10 / w.Rate},
	} {
		if !ref.Close(c.g, c.w, 1e-9) {
			return fmt.Sprintf("%s should be %v but is %v (HP %v CS %v OD %v AR %v mods %s speed %v)", c.n, c.w, c.g, s.HP, s.CS, s.OD, s.AR, ref.String(s.Mods), s.Custom)
		}
	}
	return ""
}

func init() {
	register("C15", "one execution = one history of constructor and setter calls; states are the reference settings reached", func(th bool) []core.Scenario {
		grid := []float64{0, 0.5, 3, 4.9999, 5, 5.0001, 7, 7.15, 8, 10, 11, -2}
		custom := []float64{1, 1.1, 0.75, 1.5, 2, 0.1, 0.5, 0.65, 0.7, 1.0 / 3, 1.99, 3, 10}
		diffMods := []uint64{ref.HR, ref.EZ, ref.DT, ref.HT, ref.NC, ref.DC, ref.HD, ref.FL, ref.RX}
		verify := func(x *core.X, s ref.Settings, d *difficulty.Difficulty) {
			x.Trace(1)
			if m := derivedMismatch(s, d); m != "" {
				x.Fail("%s", m)
			}
			x.Assert(uint64(d.Mods) == s.Mods && d.CustomSpeed == s.Custom, "mods or custom speed not stored")
			for i := 0; i < 32; i++ {
				x.Assert(d.CheckModActive(difficulty.Modifier(1<<uint(i))) == (s.Mods&(1<<uint(i)) != 0), "CheckModActive wrong for bit %d", i)
			}
			x.State(core.NewH().F(s.HP).F(s.CS).F(s.OD).F(s.AR).U(s.Mods).F(s.Custom).Sum())
		}
		depth := 4
		if th {
			depth = 5
		}
		return []core.Scenario{
			{Name: "values", Bound: "every value of -2..12 in steps of 0.1 for all four settings x all mods out of 9 difficulty-relevant ones (512) x custom speeds", Body: func(x *core.X) {
				v := -2 + 0.1*float64(x.Choose(141))
				var m uint64
				for _, b := range diffMods {
					if x.Bool() {
						m |= b
					}
				}
				for i, c := range custom {
					s := ref.Settings{HP: v, CS: v + 0.03, OD: v - 0.02, AR: v + 0.05, Mods: m, Custom: c}
					d := difficulty.NewDifficulty(s.HP, s.CS, s.OD, s.AR)
					x.Op(3)
					if i%2 == 0 {
						d.SetMods(difficulty.Modifier(m))
						d.SetCustomSpeed(c)
					} else {
						d.SetCustomSpeed(c)
						d.SetMods(difficulty.Modifier(m))
					}
					verify(x, s, d)
				}
			}},
			{Name: "irrelevant-mods", Bound: "every mod bit on top of every pair of difficulty mods", Body: func(x *core.X) {
				m := diffMods[x.Choose(len(diffMods))] | diffMods[x.Choose(len(diffMods))] | 1<<uint(x.Choose(32)) | 1<<uint(x.Choose(32))
				s := ref.Settings{HP: 5, CS: 4, OD: 8, AR: 9, Mods: m, Custom: 1}
				d := difficulty.NewDifficulty(5, 4, 8, 9)
				x.Op(2)
				d.SetMods(difficulty.Modifier(m))
				verify(x, s, d)
			}},
			{Name: "histories", Bound: fmt.Sprintf("every history of %d setter calls (6 setters x 4-6 values) from 3 constructors, checked after every call", depth), Body: func(x *core.X) {
				init := []ref.Settings{{HP: 5, CS: 4, OD: 8, AR: 9, Custom: 1}, {HP: 0, CS: 0, OD: 0, AR: 0, Custom: 1}, {HP: 10, CS: 7, OD: 9.5, AR: 10, Custom: 1}}[x.Choose(3)]
				s := init
				d := difficulty.NewDifficulty(s.HP, s.CS, s.OD, s.AR)
				var log []string
				x.Desc(func() string { return fmt.Sprint(init, log) })
				verify(x, s, d)
				g := []float64{3, 10, 7.5, 0}
				ms := []uint64{0, ref.HR, ref.EZ | ref.DT, ref.HT | ref.HD, ref.HR | ref.NC | ref.DT, ref.EZ | ref.HR | ref.DC}
				for i := 0; i < depth; i++ {
					k := x.Choose(4*4 + len(ms) + len(custom))
					switch {
					case k < 4:
						s.HP = g[k]
						d.SetHP(s.HP)
					case k < 8:
						s.CS = g[k-4]
						d.SetCS(s.CS)
					case k < 12:
						s.OD = g[k-8]
						d.SetOD(s.OD)
					case k < 16:
						s.AR = g[k-12]
						d.SetAR(s.AR)
					case k < 16+len(ms):
						s.Mods = ms[k-16]
						d.SetMods(difficulty.Modifier(s.Mods))
					default:
						s.Custom = custom[k-16-len(ms)]
						d.SetCustomSpeed(s.Custom)
					}
					x.Op(1)
					log = append(log, fmt.Sprint(s))
					verify(x, s, d)
				}
			}},
			{Name: "mod-changes", Bound: "every ordered pair of the 512 sets of difficulty mods, one set after the other on the same object, with two custom speeds", Body: func(x *core.X) {
				var m1 uint64
				for _, b := range diffMods {
					if x.Bool() {
						m1 |= b
					}
				}
				s := ref.Settings{HP: 5, CS: 4.2, OD: 8, AR: 9.3, Custom: []float64{1, 1.25}[x.Choose(2)]}
				d := difficulty.NewDifficulty(s.HP, s.CS, s.OD, s.AR)
				d.SetCustomSpeed(s.Custom)
				for k := 0; k < 512; k++ {
					s.Mods = 0
					for i, b := range diffMods {
						if k>>uint(i)&1 == 1 {
							s.Mods |= b
						}
					}
					d.SetMods(difficulty.Modifier(m1))
					d.SetMods(difficulty.Modifier(s.Mods))
					x.Op(2)
					if m := derivedMismatch(s, d); m != "" {
						x.Fail("after %s: %s", ref.String(m1), m)
					}
				}
				x.Trace(512)
				x.State(core.NewH().U(m1).F(s.Custom).Sum())
			}},
			{Name: "fields", Bound: "the exported mods or custom speed assigned directly (9 x 9 x 5 x 5 values), then each of the 6 setters: the derived values belong to what the object then holds", Body: func(x *core.X) {
				ms := []uint64{0, ref.HR, ref.EZ, ref.DT, ref.HT, ref.DT | ref.NC, ref.HT | ref.DC, ref.HR | ref.DT, ref.HD}
				cs := []float64{1, 1.1, 0.75, 2, 0.5}
				s := ref.Settings{HP: 5, CS: 4.2, OD: 8, AR: 9.3, Mods: ms[x.Choose(9)], Custom: cs[x.Choose(5)]}
				d := difficulty.NewDifficulty(s.HP, s.CS, s.OD, s.AR)
				d.SetMods(difficulty.Modifier(s.Mods))
				d.SetCustomSpeed(s.Custom)
				s.Mods, s.Custom = ms[x.Choose(9)], cs[x.Choose(5)]
				d.Mods, d.CustomSpeed = difficulty.Modifier(s.Mods), s.Custom
				switch x.Choose(6) {
				case 0:
					d.SetMods(d.Mods)
				case 1:
					d.SetCustomSpeed(d.CustomSpeed)
				case 2:
					d.SetHP(s.HP)
				case 3:
					d.SetCS(s.CS)
				case 4:
					d.SetOD(s.OD)
				case 5:
					d.SetAR(s.AR)
				}
				x.Op(4)
				verify(x, s, d)
			}},
			{Name: "rate-conversion", Bound: "the public range and inverse-range functions on the grid", Body: func(x *core.X) {
				v := grid[x.Choose(len(grid))]
				lim := [][3]float64{{1800, 1200, 450}, {80, 50, 20}, {200, 150, 100}, {54.4, 32, 9.6}}[x.Choose(4)]
				r := difficulty.DifficultyRate(v, lim[0], lim[1], lim[2])
				x.Op(2)
				x.Trace(1)
				want := lim[1] + (lim[2]-lim[1])*(v-5)/5
				if v < 5 {
					want = lim[1] - (lim[1]-lim[0])*(5-v)/5
				}
				x.Assert(ref.Close(r, want, 1e-9), "range of %v over %v is %v, want %v", v, lim, r, want)
				x.Assert(ref.Close(difficulty.DiffFromRate(r, lim[0], lim[1], lim[2]), v, 1e-9), "inverse range of %v over %v is %v, want %v", r, lim, difficulty.DiffFromRate(r, lim[0], lim[1], lim[2]), v)
				x.State(core.NewH().F(v).F(lim[0]).Sum())
			}},
		}
	})
}
