package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"

	"vmc/core"
)

type hkey struct {
	sec, key string
	values   []string
	want     func(v string) string
	def      string
}

func same(v string) string { return strings.TrimSpace(v) }

var hText = []string{"x", "a b", " lead", "trail ", "\tTab\t", "a:b", "a: b: c", ":x", "http://x.y/z?a=1,2", "a,b", "[x]", "\"q\"", "// c", "曲é", "-1", "", "a=b", "Title:Z", "x//y", "osu file format v3", "\u3000wide\u3000", "a  b", "a \t b   c", "a\u00a0b", "A,  B", "x ;y"}

func hkeys() []hkey {
	ints := []string{"0", "1", "-1", "3", " 42 ", "2147483647", "123456"}
	big := append([]string{"9223372036854775807", "-9223372036854775808", "3000000000"}, ints...)
	id := func(v string) string { return strings.TrimSpace(v) }
	flt := func(v string) string {
		var f float64
		fmt.Sscan(strings.TrimSpace(v), &f)
		return fmt.Sprint(f)
	}
	text := func(sec, k string) hkey { return hkey{sec, k, hText, same, ""} }
	return []hkey{
		text("General", "AudioFilename"), {"General", "PreviewTime", big, id, "0"}, {"General", "StackLeniency", []string{"0.7", "0", "1", "0.25", " 0.5 ", "2"}, flt, "0.7"}, {"General", "Mode", ints, id, "0"},
		text("Metadata", "Title"), text("Metadata", "TitleUnicode"), text("Metadata", "Artist"), text("Metadata", "ArtistUnicode"), text("Metadata", "Creator"), text("Metadata", "Version"), text("Metadata", "Source"), text("Metadata", "Tags"),
		{"Metadata", "BeatmapID", big, id, "0"}, {"Metadata", "BeatmapSetID", big, id, "0"},
	}
}

func hValue(b *beatmap.BeatMap, key string) string { return headerMap(b)[key] }

func init() {
	register("C04", "one execution = one header (set of key lines in sections); distinct headers are states", func(th bool) []core.Scenario {
		keys := hkeys()
		secs := []string{"General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects", ""}
		// minimal map; lines per section are added by the scenarios
		build := func(add map[string][]string, title string) string {
			var b strings.Builder
			b.WriteString("osu file format v14\n\n")
			for _, l := range add[""] {
				b.WriteString(l + "\n")
			}
			for _, s := range secs[:8] {
				b.WriteString("\n[" + s + "]\n")
				switch s {
				case "TimingPoints":
					b.WriteString("0,500\n")
				case "HitObjects":
					b.WriteString("1,2,3,1,0\n")
				case "Metadata":
					b.WriteString(title)
				}
				for _, l := range add[s] {
					b.WriteString(l + "\n")
				}
			}
			return b.String()
		}
		plain := map[string]string{} // what a map without further header lines reads as
		if bm, err := beatmap.ParseFromByte([]byte(build(nil, "Creator:cr\n"))); err == nil {
			plain = headerMap(bm)
		}
		expect := func(x *core.X, bm *beatmap.BeatMap, want map[string]string, title string) {
			x.Trace(1)
			for k, g := range headerMap(bm) {
				own := false
				for _, h := range keys {
					own = own || h.key == k
				}
				if !own && g != plain[k] {
					x.Fail("a header line changed %s from %q to %q", k, plain[k], g)
				}
			}
			for _, k := range keys {
				w, ok := want[k.key]
				if !ok {
					w = k.def
					if k.key == "Creator" && title != "" {
						w = "cr"
					}
				}
				if g := hValue(bm, k.key); g != w {
					x.Fail("%s should be %q but is %q", k.key, w, g)
				}
			}
			x.Assert(len(bm.HitObjects) == 1, "header lines changed the objects")
		}
		line := func(k hkey, v string, style int) string {
			return []string{k.key + ":" + v, k.key + ": " + v, k.key + " : " + v, " " + k.key + ":\t" + v + "  "}[style]
		}
		run := func(x *core.X, add map[string][]string, want map[string]string) {
			title := "Creator:cr\n"
			if _, ok := want["Creator"]; ok {
				title = "Creator:cr\n" // the tested line follows and wins
			}
			txt := build(add, title)
			x.Desc(func() string { return clip(txt) })
			x.State(core.NewH().S(txt).Sum())
			if want["Title"]+want["Artist"] == "" {
				if c, ok := want["Creator"]; ok && c == "" {
					_, err := beatmap.ParseFromByte([]byte(txt))
					x.Op(1)
					x.Assert(err != nil, "a map without title, artist and creator was accepted")
					return
				}
			}
			expect(x, parse(x, txt), want, title)
		}
		fits := func(k hkey, v string) bool { return true }
		_ = fits
		scs := []core.Scenario{
			{Name: "one-key", Bound: "every key x every value x 4 spacings", Body: func(x *core.X) {
				k := keys[x.Choose(len(keys))]
				v := k.values[x.Choose(len(k.values))]
				run(x, map[string][]string{k.sec: {line(k, v, x.Choose(4))}}, map[string]string{k.key: k.want(v)})
			}},
			{Name: "wrong-section", Bound: "every key line in every section (and before the first)", Body: func(x *core.X) {
				k := keys[x.Choose(len(keys))]
				s := secs[x.Choose(len(secs))]
				v := k.values[1]
				want := map[string]string{}
				if s == k.sec {
					want[k.key] = k.want(v)
				}
				if s == "TimingPoints" || s == "HitObjects" { // key lines there have no comma
					v = "1"
				}
				run(x, map[string][]string{s: {line(k, v, 0)}}, want)
			}},
			{Name: "repeated", Bound: "every key given twice and three times with different values", Body: func(x *core.X) {
				k := keys[x.Choose(len(keys))]
				n := 2 + x.Choose(2)
				var ls []string
				last := ""
				for i := 0; i < n; i++ {
					last = k.values[x.Choose(4)]
					ls = append(ls, line(k, last, 0))
				}
				run(x, map[string][]string{k.sec: ls}, map[string]string{k.key: k.want(last)})
			}},
			{Name: "pairs", Bound: "every ordered pair of keys with 3 values each", Body: func(x *core.X) {
				a, b := keys[x.Choose(len(keys))], keys[x.Choose(len(keys))]
				if a.key == b.key {
					return
				}
				v, w := a.values[x.Choose(3)], b.values[x.Choose(3)]
				add := map[string][]string{}
				add[a.sec] = append(add[a.sec], line(a, v, 0))
				add[b.sec] = append(add[b.sec], line(b, w, 1))
				run(x, add, map[string]string{a.key: a.want(v), b.key: b.want(w)})
			}},
			{Name: "subsets", Bound: "every subset of the 14 keys present", Body: func(x *core.X) {
				add, want := map[string][]string{}, map[string]string{}
				for _, k := range keys {
					if x.Bool() {
						v := k.values[3]
						add[k.sec] = append(add[k.sec], line(k, v, 1))
						want[k.key] = k.want(v)
					}
				}
				run(x, add, want)
			}},
			{Name: "near-miss-keys", Bound: "every key with a letter dropped, doubled, re-cased or a prefix/suffix added has no effect", Body: func(x *core.X) {
				k := keys[x.Choose(len(keys))]
				var n string
				switch c := x.Choose(5 + len(k.key)); c {
				case 0:
					n = strings.ToLower(k.key)
				case 1:
					n = strings.ToUpper(k.key)
				case 2:
					n = "X" + k.key
				case 3:
					n = k.key + "X"
				case 4:
					n = k.key + " " + k.key
				default:
					n = k.key[:c-5] + k.key[c-4:]
				}
				for _, o := range keys {
					if o.key == n || n == "" {
						return
					}
				}
				run(x, map[string][]string{k.sec: {n + ":" + k.values[1]}}, map[string]string{})
			}},
			{Name: "numbers", Bound: "ids, mode and preview time: every integer -300..300, every power of two up to 2^62 and one more or less, both signs; stack leniency 0..3 in steps of 0.01", Body: func(x *core.X) {
				k := keys[[]int{1, 2, 3, 12, 13}[x.Choose(5)]]
				if k.key == "StackLeniency" {
					v := fmt.Sprintf("%.2f", float64(x.Choose(301))/100)
					run(x, map[string][]string{k.sec: {line(k, v, 1)}}, map[string]string{k.key: k.want(v)})
					return
				}
				c := int64(x.Choose(601 + 62*6))
				n := c - 300
				if c >= 601 {
					c -= 601
					n = (int64(1)<<uint(1+c/6) + c%3 - 1)
					if c%6 >= 3 {
						n = -n
					}
				}
				v := fmt.Sprint(n)
				run(x, map[string][]string{k.sec: {line(k, v, 1)}}, map[string]string{k.key: k.want(v)})
			}},
			{Name: "long-values", Bound: "texts of 1..600 and around 1024, 4096, 8192 and 65536 characters in every text field, plain and with separators", Body: func(x *core.X) {
				k := keys[[]int{0, 4, 5, 6, 7, 8, 9, 10, 11}[x.Choose(9)]]
				n := x.Choose(600 + 4*40)
				if n >= 600 {
					n = []int{1024, 4096, 8192, 65536}[(n-600)/40] - 30 + (n-600)%40
				}
				v := strings.Repeat([]string{"q", "a:b,/ "}[x.Choose(2)], n+1)[:n+1] + "z"
				run(x, map[string][]string{k.sec: {line(k, v, 0)}}, map[string]string{k.key: k.want(v)})
			}},
			{Name: "many-lines", Bound: "1..300 unknown keys before, after and around every key", Body: func(x *core.X) {
				k := keys[x.Choose(len(keys))]
				n := 1 + x.Choose(300)
				at := []int{0, n / 2, n}[x.Choose(3)]
				var ls []string
				for i := 0; i <= n; i++ {
					if i == at {
						ls = append(ls, line(k, k.values[3], 0))
					}
					if i < n {
						ls = append(ls, fmt.Sprintf("Unknown%d:%d", i, i))
					}
				}
				run(x, map[string][]string{k.sec: ls}, map[string]string{k.key: k.want(k.values[3])})
			}},
			{Name: "many-breaks", Bound: "0..300 break periods, in and out of order, overlapping and not, alone and among other events", Body: func(x *core.X) {
				n := x.Choose(301)
				mode := x.Choose(6)
				t := base()
				t.Events = nil
				want := ""
				for i := 0; i < n; i++ {
					s := float64(i*1000) + 0.5*float64(i%2)
					if mode%3 == 1 {
						s = float64((n - i) * 1000)
					} else if mode%3 == 2 {
						s = float64((i * i % 37) * 10)
					}
					e := s + float64(1+i*i%5000)
					t.Events = append(t.Events, []string{"2", "Break"}[i%2]+fmt.Sprintf(",%v,%v", s, e))
					if mode >= 3 {
						t.Events = append(t.Events, []string{"Sample,1,2,\"a.wav\"", "0,0,\"bg.jpg\"", "", "//2,1,2"}[i%4])
					}
					want += fmt.Sprint(s, e, e-s, ";")
				}
				x.Desc(func() string { return clip(strings.Join(t.Events, " / ")) })
				x.State(core.NewH().I(n).I(mode).Sum())
				bm := parse(x, t.Text())
				x.Trace(1)
				g := ""
				for _, p := range bm.Pauses {
					g += fmt.Sprint(p.GetStartTime(), p.GetEndTime(), p.Length(), ";")
				}
				x.Assert(g == want, "break periods %s read as %s", clip(want), clip(g))
			}},
			{Name: "format-version", Bound: "versions 0..200 and absent", Body: func(x *core.X) {
				v := x.Choose(202)
				t := base()
				t.Version = fmt.Sprint(v)
				txt := t.Text()
				want := v
				if v == 201 {
					txt = strings.Join(t.Lines()[1:], "\n")
					want = 0
				}
				x.State(uint64(v))
				bm := parse(x, txt)
				x.Trace(1)
				x.Assert(bm.FileVersion == want, "format version %d read as %d", want, bm.FileVersion)
			}},
			{Name: "events", Bound: "every sequence of up to 4 event lines out of 16", Body: func(x *core.X) {
				type ev struct {
					l     string
					bg    string
					pause []float64
				}
				evs := []ev{{"0,0,\"bg.jpg\",0,0", "bg.jpg", nil}, {"Background,0,\"b g.png\"", "b g.png", nil}, {"0,0,plain.png", "plain.png", nil}, {"0, 100 , \" sp.png \" ,1,2", " sp.png ", nil},
					{"2,100,200", "", []float64{100, 200}}, {"Break,300,400.5", "", []float64{300, 400.5}}, {"2, -50 , 60 ", "", []float64{-50, 60}}, {"Break,5000,4000", "", []float64{5000, 4000}},
					{"Video,0,\"v.avi\"", "", nil}, {"1,0,\"v.avi\"", "", nil}, {"Sample,1,2,\"a.wav\"", "", nil}, {"3,100,163,162,255", "", nil}, {"//0,0,\"no.jpg\"", "", nil}, {"Sprite,Pass,Centre,\"s.png\",320,240", "", nil}, {" F,0,0,0,1", "", nil}, {"", "", nil}}
				n := 3
				if th {
					n = 4
				}
				t := base()
				t.Events = nil
				bg := ""
				want := ""
				for i := 0; i < n; i++ {
					e := evs[x.Choose(len(evs))]
					t.Events = append(t.Events, e.l)
					if e.bg != "" {
						bg = strings.TrimSpace(e.bg)
					}
					if e.pause != nil {
						want += fmt.Sprint(e.pause[0], e.pause[1], e.pause[1]-e.pause[0], ";")
					}
				}
				txt := t.Text()
				x.Desc(func() string { return strings.Join(t.Events, " / ") })
				x.State(core.NewH().S(txt).Sum())
				bm := parse(x, txt)
				x.Trace(1)
				if g := strings.TrimSpace(bm.Bg); g != bg {
					x.Fail("background %q read as %q", bg, g)
				}
				g := ""
				for _, p := range bm.Pauses {
					g += fmt.Sprint(p.GetStartTime(), p.GetEndTime(), p.Length(), ";")
				}
				x.Assert(g == want, "break periods %s read as %s", want, g)
			}},
		}
		return scs
	})
}
