package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"

	"vmc/core"
)

func init() {
	register("C31", "one execution = one rearrangement of one beatmap file; distinct texts are states", func(th bool) []core.Scenario {
		t := richTmpl()
		secs := t.sections()
		lines := t.Lines()
		want := ""
		test := func(x *core.X, ls []string) {
			txt := strings.Join(ls, "\n")
			x.Desc(func() string { return clip(txt) })
			x.State(core.NewH().S(txt).Sum())
			if want == "" {
				x.Fail("internal: no baseline")
			}
			g := obs(parse(x, txt))
			x.Trace(1)
			if g != want {
				x.Fail("the rearranged file parses differently: %s", diffLine(want, g))
			}
		}
		func() {
			defer func() { recover() }()
			x := &core.X{}
			want = obs(parse(x, strings.Join(lines, "\n")))
		}()
		emit := func(out []string, name string, ls []string) []string {
			out = append(out, "["+name+"]")
			out = append(out, ls...)
			return append(out, "")
		}
		scs := []core.Scenario{
			{Name: "section-orders", Bound: "all 720 orders of the six sections", Body: func(x *core.X) {
				left := []int{0, 1, 2, 3, 4, 5}
				out := []string{lines[0], ""}
				for len(left) > 0 {
					c := x.Choose(len(left))
					s := secs[left[c]]
					out = emit(out, s[0].(string), s[1].([]string))
					left = append(append([]int{}, left[:c]...), left[c+1:]...)
				}
				test(x, out)
			}},
			{Name: "section-splits", Bound: "every section split at every line, its second part moved behind every other section, also with each section's parts swapped round for line-order independent sections", Body: func(x *core.X) {
				i := x.Choose(6)
				ls := secs[i][1].([]string)
				cut := x.Choose(len(ls) + 1)
				pos := x.Choose(7)
				out := []string{lines[0], ""}
				for k, s := range secs {
					if pos == k {
						out = emit(out, secs[i][0].(string), ls[cut:])
					}
					if k == i {
						out = emit(out, s[0].(string), ls[:cut])
					} else {
						out = emit(out, s[0].(string), s[1].([]string))
					}
				}
				if pos == 6 {
					out = emit(out, secs[i][0].(string), ls[cut:])
				}
				if pos <= i && i == 3 && cut > 0 && cut < len(ls) { // break periods keep file order
					return
				}
				test(x, out)
			}},
			{Name: "irrelevant-lines", Bound: "each of 16 irrelevant lines (or unknown sections) at every position, and pairs of them", Body: func(x *core.X) {
				junk := [][]string{{""}, {"   "}, {"\t"}, {"// comment"}, {"//1,2,3,1,0,0:0"}, {"//Title:wrong"}, {"//0,100,4,1,1,1,1,0"}, {"//"}, {"Unknown:1"}, {"unknown key : a:b"}, {"NoSeparator"}, {"//[HitObjects]"}, {"", "", ""}}
				at := 1 + x.Choose(len(lines))
				j := junk[x.Choose(len(junk))]
				out := append([]string{}, lines[:at]...)
				out = append(out, j...)
				if th {
					at2 := at + x.Choose(len(lines)-at+1)
					out = append(out, lines[at:at2]...)
					out = append(out, junk[x.Choose(len(junk))]...)
					out = append(out, lines[at2:]...)
				} else {
					out = append(out, lines[at:]...)
				}
				test(x, out)
			}},
			{Name: "versions", Bound: "format versions 3 to 14, 128, 0 and none x modes 0 and 3 x each of 12 irrelevant lines at every position, and all orders of the sections", Body: func(x *core.X) {
				v := []string{"5", "14", "3", "4", "6", "7", "8", "9", "10", "11", "12", "13", "128", "0", ""}[x.Choose(15)]
				m := []string{"Mode: 3", "Mode: 0"}[x.Choose(2)]
				edit := func(ls []string) string {
					var out []string
					for i, l := range ls {
						if i == 0 {
							l = "osu file format v" + v
							if v == "" {
								l = ""
							}
						}
						if strings.HasPrefix(l, "Mode") {
							l = m
						}
						out = append(out, l)
					}
					return strings.Join(out, "\n")
				}
				want := obs(parse(x, edit(lines)))
				junk := []string{"// comment", "", "  ", "//", "//1,2,3,1,0", "//[Events]", "//Title:wrong", "NoSeparator", "Unknown:1", "unknown key : a:b", "\t", "[Unknown]"}
				var out []string
				if k := x.Choose(len(junk) + 1); k < len(junk) {
					at := 1 + x.Choose(len(lines))
					out = append(out, lines[:at]...)
					if junk[k][:min(1, len(junk[k]))] == "[" { // ends a section, so only where one ends anyway
						if at < len(lines) && !strings.HasPrefix(lines[at], "[") {
							return
						}
						out = append(out, junk[k], "1,2,3,1,0", "Title:wrong")
					} else {
						out = append(out, junk[k])
					}
					out = append(out, lines[at:]...)
				} else {
					out = lines[:1:1]
					for left := []int{0, 1, 2, 3, 4, 5}; len(left) > 0; {
						c := x.Choose(len(left))
						s := secs[left[c]]
						out = emit(out, s[0].(string), s[1].([]string))
						left = append(append([]int{}, left[:c]...), left[c+1:]...)
					}
				}
				s := edit(out)
				x.Desc(func() string { return clip(s) })
				x.State(core.NewH().S(s).Sum())
				x.Trace(1)
				if g := obs(parse(x, s)); g != want {
					x.Fail("the rearranged file parses differently: %s", diffLine(want, g))
				}
			}},
			{Name: "odd-content", Bound: "every control character (but line ends), blanks and marks of Unicode and 14 marks of other file formats, as a line, a comment, an unknown key and an unknown value, at every position", Body: func(x *core.X) {
				var odd []string
				for c := rune(0); c < 0xa1; c++ {
					if (c < 32 || c >= 127) && c != '\n' && c != '\r' {
						odd = append(odd, string(c))
					}
				}
				odd = append(odd, "\u200b", "\ufeff", "\u2028", "\u2029", "\u3000", "\ufffd", "\U0001f600", "[", "]", "[]", "{", "}", "#", ";", "--", "%%", "\\", "'", "\"", "EOF", "osu", "__", "osu file format", "v3")
				at := 1 + x.Choose(len(lines))
				o := odd[x.Choose(len(odd))]
				l := []string{o, "//" + o, "Foo" + o + ":1", "Foo:" + o}[x.Choose(4)]
				if strings.TrimSpace(l) == "[Foo]:1" {
					return
				}
				out := append([]string{}, lines[:at]...)
				out = append(out, l)
				test(x, append(out, lines[at:]...))
			}},
			{Name: "unknown-sections", Bound: "an unknown section (with lines that would matter elsewhere) inserted inside every section at every line, then the section resumed", Body: func(x *core.X) {
				names := []string{"Colours", "Editor", "Foo", "general", "Hit Objects", "HitObject", "TimingPoints2"}
				name := names[x.Choose(len(names))]
				content := [][]string{{}, {"Combo1 : 1,2,3"}, {"Title:wrong", "CircleSize:1", "0,0,0,1,0", "5,100", "2,5,6"}}[x.Choose(3)]
				cur, n := "", x.Choose(len(lines)-1)+1
				for _, l := range lines[:n+1] {
					if strings.HasPrefix(l, "[") {
						cur = l
					}
				}
				out := append([]string{}, lines[:n+1]...)
				out = append(out, "["+name+"]")
				out = append(out, content...)
				if cur != "" {
					out = append(out, cur)
				}
				out = append(out, lines[n+1:]...)
				test(x, out)
			}},
			{Name: "blanks", Bound: "blanks and tabs around every section header, key, value and comma-separated field", Body: func(x *core.X) {
				i := 2 + x.Choose(len(lines)-2)
				l := lines[i]
				if l == "" {
					return
				}
				sp := []string{" ", "\t", "   ", " \t "}[x.Choose(4)]
				cur := ""
				for _, k := range lines[:i] {
					if strings.HasPrefix(k, "[") {
						cur = k
					}
				}
				var nl string
				switch {
				case strings.HasPrefix(l, "["):
					nl = []string{sp + l, l + sp, sp + l + sp}[x.Choose(3)]
				case cur == "[General]" || cur == "[Metadata]" || cur == "[Difficulty]":
					p := strings.SplitN(l, ":", 2)
					m := 1 + x.Choose(15)
					w := func(b int) string {
						if m&b != 0 {
							return sp
						}
						return ""
					}
					nl = w(1) + p[0] + w(2) + ":" + w(4) + p[1] + w(8)
				default:
					p := strings.Split(l, ",")
					k := x.Choose(len(p) + 1)
					for q := range p {
						if q == k || k == len(p) {
							p[q] = sp + p[q] + sp
						}
					}
					nl = strings.Join(p, ",")
				}
				out := append([]string{}, lines...)
				out[i] = nl
				test(x, out)
			}},
			{Name: "timing-orders", Bound: "all permutations of the 4 timing lines", Body: func(x *core.X) {
				tt := richTmpl()
				tt.Times = permute(x, tt.Times)
				test(x, tt.Lines())
			}},
			{Name: "corpus", Bound: "two real maps: all 720 orders of the sections; the smaller also: a comment, a blank line, an unknown key and an unknown section with known content in front of every line, the object lines rotated by every number and reversed, every two neighbours swapped", Body: func(x *core.X) {
				k := x.Choose(2)
				t := tmplOf(corpora[k])
				key := fmt.Sprint("corpus", k)
				if _, ok := x.Local[key]; !ok {
					x.Local[key] = obs(parse(x, t.Text()))
				}
				tm := func(l string) string { return strings.Split(l, ",")[2] }
				var out []string
				n := len(t.Obj)
				cases := 1
				if k == 1 || th {
					cases = 5
				}
				switch x.Choose(cases) {
				case 0:
					left, ss := []int{0, 1, 2, 3, 4, 5}, t.sections()
					out = []string{"osu file format v" + t.Version, ""}
					for len(left) > 0 {
						c := x.Choose(len(left))
						out = emit(out, ss[left[c]][0].(string), ss[left[c]][1].([]string))
						left = append(append([]int{}, left[:c]...), left[c+1:]...)
					}
				case 1:
					ls := t.Lines()
					at := 2 + x.Choose(len(ls)-1)
					cur := ""
					for _, l := range ls[:at] {
						if strings.HasPrefix(l, "[") {
							cur = l
						}
					}
					j := [][]string{{"// 5,5,5,1"}, {"", " "}, {"What:ever"}, {"[Else]", "5,5,500,1,0", "CircleSize:1", "5,-20,4,1,1,1,0,0", cur}}[x.Choose(4)]
					out = append(append(append(out, ls[:at]...), j...), ls[at:]...)
				case 2:
					r := x.Choose(n)
					if tm(t.Obj[r]) == tm(t.Obj[(r+n-1)%n]) {
						return
					}
					t.Obj = append(append([]string{}, t.Obj[r:]...), t.Obj[:r]...)
					out = t.Lines()
				case 3:
					for i := 0; i < n/2; i++ {
						if tm(t.Obj[i]) == tm(t.Obj[i+1]) || tm(t.Obj[n-1-i]) == tm(t.Obj[n-2-i]) {
							return
						}
						t.Obj[i], t.Obj[n-1-i] = t.Obj[n-1-i], t.Obj[i]
					}
					out = t.Lines()
				case 4:
					i := x.Choose(n - 1)
					if tm(t.Obj[i]) == tm(t.Obj[i+1]) {
						return
					}
					t.Obj[i], t.Obj[i+1] = t.Obj[i+1], t.Obj[i]
					out = t.Lines()
				}
				txt := strings.Join(out, "\n")
				x.Desc(func() string { return clip(txt) })
				x.State(core.NewH().S(txt).Sum())
				x.Trace(1)
				if g := obs(parse(x, txt)); g != x.Local[key] {
					x.Fail("the rearranged file parses differently: %s", diffLine(x.Local[key].(string), g))
				}
			}},
			{Name: "close-times", Bound: "all permutations of 5 object lines and of 5 timing lines whose times differ by 1, 0.5 and 0.001 ms, around 0, 20000 and 4 million ms", Body: func(x *core.X) {
				at := []float64{0, -3, 20000, 4000000}[x.Choose(4)]
				obj := x.Bool()
				tt := richTmpl()
				var ls []string
				for i, dt := range []float64{0, 0.001, 0.5, 1, 1.5} {
					if obj {
						ls = append(ls, fmt.Sprintf("%d,%d,%s,1,0", 10+100*i, 20*i, f64(at+dt)))
					} else {
						ls = append(ls, fmt.Sprintf("%s,%d,4,2,1,60,%d,0", f64(at+dt), []int{300, -50, 400, -200, 250}[i], 1-i%2))
					}
				}
				key := fmt.Sprint(at, obj)
				all := func(l []string) []string {
					if obj {
						tt.Obj = l
					} else {
						tt.Times = l
						tt.Obj = append(tt.Obj, fmt.Sprintf("100,100,%s,2,0,L|300:100,2,140", f64(at+1.25)), fmt.Sprintf("100,100,%s,2,0,L|300:100,2,140", f64(at+0.75)))
					}
					return tt.Lines()
				}
				if _, ok := x.Local[key]; !ok {
					x.Local[key] = obs2(parse(x, strings.Join(all(ls), "\n")), at)
					tt = richTmpl()
				}
				txt := strings.Join(all(permute(x, ls)), "\n")
				x.Desc(func() string { return clip(txt) })
				x.State(core.NewH().S(txt).Sum())
				x.Trace(1)
				if g := obs2(parse(x, txt), at); g != x.Local[key] {
					x.Fail("the rearranged file parses differently: %s", diffLine(x.Local[key].(string), g))
				}
			}},
			{Name: "object-orders", Bound: "all permutations of the first 6 of 10 object lines, with the rest before or after; all rotations and transpositions of all 10", Body: func(x *core.X) {
				tt := richTmpl()
				switch x.Choose(3) {
				case 0:
					k := 6
					if th {
						k = 7
					}
					h := permute(x, tt.Obj[:k])
					if x.Bool() {
						tt.Obj = append(append([]string{}, h...), tt.Obj[k:]...)
					} else {
						tt.Obj = append(append([]string{}, tt.Obj[k:]...), h...)
					}
				case 1:
					a, b := x.Choose(len(tt.Obj)), x.Choose(len(tt.Obj))
					tt.Obj[a], tt.Obj[b] = tt.Obj[b], tt.Obj[a]
				case 2:
					a := x.Choose(len(tt.Obj))
					tt.Obj = append(append([]string{}, tt.Obj[a:]...), tt.Obj[:a]...)
				}
				test(x, tt.Lines())
			}},
			{Name: "header-orders", Bound: "all transpositions and rotations of the lines of each header section", Body: func(x *core.X) {
				tt := richTmpl()
				ls := []*[]string{&tt.General, &tt.Meta, &tt.Diff}[x.Choose(3)]
				a, b := x.Choose(len(*ls)), x.Choose(len(*ls))
				(*ls)[a], (*ls)[b] = (*ls)[b], (*ls)[a]
				r := x.Choose(len(*ls))
				*ls = append(append([]string{}, (*ls)[r:]...), (*ls)[:r]...)
				test(x, tt.Lines())
			}},
		}
		if th {
			scs = append(scs, core.Scenario{Name: "orders-and-lines", Bound: "all section orders x each irrelevant line first in each section", Body: func(x *core.X) {
				left := []int{0, 1, 2, 3, 4, 5}
				out := []string{lines[0], ""}
				w := x.Choose(6)
				j := []string{"// x", "Unknown:1", "[Foo]"}[x.Choose(3)]
				for len(left) > 0 {
					c := x.Choose(len(left))
					s := secs[left[c]]
					ls := s[1].([]string)
					if left[c] == w {
						ls = append([]string{j}, ls...)
						if j == "[Foo]" {
							ls = append([]string{j, "a:b", fmt.Sprintf("[%s]", s[0])}, ls[1:]...)
						}
					}
					out = emit(out, s[0].(string), ls)
					left = append(append([]int{}, left[:c]...), left[c+1:]...)
				}
				test(x, out)
			}})
		}
		return scs
	})
}

// obs2 also looks at the timing close to a time.
func obs2(b *beatmap.BeatMap, at float64) string {
	s := obs(b)
	for _, dt := range []float64{-1, 0, 0.0005, 0.001, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 3} {
		s += fmt.Sprintf("\n%v %s %s", at+dt, obsPoint(b.Timings.GetPointAt(at+dt)), obsPoint(b.Timings.GetOriginalPointAt(at+dt)))
	}
	return s
}

func permute(x *core.X, in []string) []string {
	left := append([]string{}, in...)
	var out []string
	for len(left) > 0 {
		c := x.Choose(len(left))
		out = append(out, left[c])
		left = append(append([]string{}, left[:c]...), left[c+1:]...)
	}
	return out
}
