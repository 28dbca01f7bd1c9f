package main

import (
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"

	"vmc/core"
	"vmc/ref"
)

func checkModText(x *core.X, m uint64) {
	d := difficulty.Modifier(m)
	s := d.String()
	x.Op(3)
	x.Trace(1)
	if w := ref.String(m); s != w {
		x.Fail("mod set %b prints as %q, want %q", m, s, w)
	}
	if g, w := uint64(difficulty.ParseMods(s)), ref.Implied(m); g != w {
		x.Fail("parsing %q, the printed form of %b, gives %b, want %b", s, m, g, w)
	}
	full := d.StringFull()
	shown := ref.Shown(m)
	x.Assert(len(full) == len(shown), "%q has long names %v", s, full)
	for k, i := range shown {
		x.Assert(full[k] == ref.LongNames[i], "%q has long names %v, want %s at %d", s, full, ref.LongNames[i], k)
	}
}

func init() {
	register("C16", "one execution = one mod set printed and parsed back, or one acronym string parsed", func(th bool) []core.Scenario {
		alpha := append([]string{}, ref.Acronyms...)
		alpha = append(alpha, "XX", "hd", "  ", "H", "D", "NM", "1K", "--", "É", "日", "\xff", "")
		n := 3
		low := 18
		if th {
			n, low = 4, 23
		}
		return []core.Scenario{
			{Name: "subsets", Bound: "all subsets of the lowest bits (18, thorough 23) x the highest 9 bits all off, all on, or one on", Body: func(x *core.X) {
				hi := x.Choose(34)
				var h uint64
				switch {
				case hi == 1:
					h = 0xFFFFFFFF &^ (1<<uint(low) - 1)
				case hi > 1:
					h = 1 << uint(hi-2)
				}
				a := uint64(x.Choose(1 << uint(low-8)))
				x.Desc(func() string { return ref.String(a<<8|h) + " with any of NF..RX" })
				for b := uint64(0); b < 256; b++ {
					if hi <= 1 || hi-2 >= low {
						checkModText(x, a<<8|b|h)
						x.State(a<<8 | b | h)
					}
				}
			}},
			{Name: "few-and-complements", Bound: "all sets of up to 4 of the 32 mods, and the complements of those sets", Body: func(x *core.X) {
				var m uint64
				for i := 0; i < 4; i++ {
					k := x.Choose(33)
					if k < 32 {
						m |= 1 << uint(k)
					}
				}
				x.Desc(func() string { return ref.String(m) })
				x.State(m)
				checkModText(x, m)
				checkModText(x, ^m&0xFFFFFFFF)
			}},
			{Name: "strings", Bound: "all strings of up to 3 (thorough 4) parts over the 32 acronyms, unknown, lower-case, blank, odd-length and multi-byte parts", Body: func(x *core.X) {
				s := ""
				for i := 0; i < n; i++ {
					s += alpha[x.Choose(len(alpha))]
				}
				x.Desc(func() string { return s })
				g := uint64(difficulty.ParseMods(s)) // must not crash whatever the string
				x.Op(1)
				x.State(core.NewH().S(s).Sum())
				ascii := true
				for i := 0; i < len(s); i++ {
					ascii = ascii && s[i] < 0x80
				}
				if ascii {
					x.Trace(1)
					x.Assert(g == ref.Parse(s), "%q parses to %q (%b), want %q (%b)", s, ref.String(g), g, ref.String(ref.Parse(s)), ref.Parse(s))
				} else if g&^ref.Implied(0xFFFFFFFF) != 0 {
					x.Fail("%q parses to %b", s, g)
				}
			}},
			{Name: "order", Bound: "every permutation and repetition of 5 acronyms out of 5 (all words of length 5) for 6 acronym groups", Body: func(x *core.X) {
				grp := [][]string{{"HD", "HR", "DT", "NC", "PF"}, {"DC", "HT", "FL", "V2", "SD"}, {"K1", "K2", "K3", "K9", "K0"}, {"NF", "EZ", "TD", "SO", "AP"}, {"RX", "AT", "FI", "RN", "CN"}, {"TG", "LM", "K4", "K5", "K8"}}[x.Choose(6)]
				var parts []string
				var want uint64
				for i := 0; i < 5; i++ {
					k := x.Choose(5)
					parts = append(parts, grp[k])
					want |= ref.Parse(grp[k])
				}
				s := strings.Join(parts, "")
				x.Desc(func() string { return s })
				x.State(core.NewH().S(s).Sum())
				x.Op(1)
				x.Trace(1)
				x.Assert(uint64(difficulty.ParseMods(s)) == want, "%q parses to %q, want %q", s, ref.String(uint64(difficulty.ParseMods(s))), ref.String(want))
			}},
			{Name: "long-strings", Bound: "each of 6 parts repeated 1..300 times, then each acronym, then nothing, another acronym or an odd character", Body: func(x *core.X) {
				s := strings.Repeat([]string{"HD", "NC", "XX", "V2", "HDHRDT", "KKeZZ!"}[x.Choose(6)], 1+x.Choose(300))
				tail := []string{"", "PF", "H"}[x.Choose(3)]
				x.Desc(func() string { return s + "<acronym>" + tail })
				x.State(core.NewH().S(s).S(tail).Sum())
				for _, a := range ref.Acronyms {
					t := s + a + tail
					x.Op(1)
					x.Trace(1)
					if g := uint64(difficulty.ParseMods(t)); g != ref.Parse(t) {
						x.Fail("%q (%d characters) parses to %q, want %q", t, len(t), ref.String(g), ref.String(ref.Parse(t)))
					}
				}
			}},
			{Name: "active", Bound: "all pairs of single mods and pair sets", Body: func(x *core.X) {
				a := uint64(1)<<uint(x.Choose(32)) | uint64(1)<<uint(x.Choose(32))
				b := uint64(1) << uint(x.Choose(32))
				x.State(a<<32 | b)
				x.Op(1)
				x.Assert(difficulty.Modifier(a).Active(difficulty.Modifier(b)) == (a&b != 0), "Active of %b in %b", b, a)
			}},
		}
	})
	register("C17", "one execution = one mod set judged for compatibility and score multiplier", func(th bool) []core.Scenario {
		inv := []uint64{ref.NF, ref.EZ, ref.HD, ref.HR, ref.SD, ref.DT, ref.RX, ref.HT, ref.NC, ref.FL, ref.AT, ref.SO, ref.AP, ref.PF, ref.TG, ref.V2, ref.DC}
		var rest uint64
		for i := 0; i < 32; i++ {
			rest |= 1 << uint(i)
		}
		for _, b := range inv {
			rest &^= b
		}
		return []core.Scenario{{Name: "all", Bound: "all 2^17 subsets of the 17 mods involved, each alone, with every single uninvolved mod and with all of them", Body: func(x *core.X) {
			hi := x.Choose(1 << 9)
			x.Desc(func() string { return "block" })
			for lo := 0; lo < 1<<8; lo++ {
				var m uint64
				for i, b := range inv {
					if (hi<<8|lo)&(1<<uint(i)) != 0 {
						m |= b
					}
				}
				wc, ws := ref.Compatible(m), ref.ScoreMultiplier(m)
				x.State(m)
				try := func(m uint64) {
					x.Op(2)
					x.Trace(1)
					d := difficulty.Modifier(m)
					if d.Compatible() != wc {
						x.Fail("%s: compatible is %v, want %v", ref.String(m), d.Compatible(), wc)
					}
					if !ref.Close(d.GetScoreMultiplier(), ws, 1e-12) {
						x.Fail("%s: score multiplier %v, want %v", ref.String(m), d.GetScoreMultiplier(), ws)
					}
				}
				try(m)
				for i := 0; i < 32; i++ {
					if rest&(1<<uint(i)) != 0 {
						try(m | 1<<uint(i))
					}
				}
				try(m | rest)
			}
		}}}
	})
}
