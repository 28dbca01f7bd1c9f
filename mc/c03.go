package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"

	"vmc/core"
)

func init() {
	register("C03", "one execution = one text in one field, stored in every encoding x line ending x final newline; distinct texts are states", func(th bool) []core.Scenario {
		encs := []string{"utf8", "utf8bom", "utf16le", "utf16be"}
		// Characters whose encodings contain the bytes of line breaks, separators or byte-order marks are included.
		chars := []string{"a", "é", "ß", "曲", "\u0A0A", "\u0D0A", "\u0A0D", "\u0D0D", "\u200B", "\u2C2C", "\u3A3A", "\u5B5B", "\u2F2F", "\uFEFF", "\uFFFD", "\uFFFE", "\u0301", "𝄞", "😀", "\U0001F3FD", "\U0010FFFF", "\u0085", "\u00A0", "\u2028", "Ω", "\uD7FF", "\uE000", "\t", " "}
		type field struct {
			set func(t *Tmpl, v string)
			get func(b *beatmap.BeatMap) string
		}
		meta := func(k string) func(t *Tmpl, v string) {
			return func(t *Tmpl, v string) {
				var out []string
				for _, l := range t.Meta {
					if !strings.HasPrefix(l, k+":") {
						out = append(out, l)
					}
				}
				t.Meta = append(out, k+":"+v)
			}
		}
		fields := []field{
			{meta("Title"), func(b *beatmap.BeatMap) string { return b.Title }},
			{meta("TitleUnicode"), func(b *beatmap.BeatMap) string { return b.TitleUnicode }},
			{meta("Artist"), func(b *beatmap.BeatMap) string { return b.Artist }},
			{meta("ArtistUnicode"), func(b *beatmap.BeatMap) string { return b.ArtistUnicode }},
			{meta("Creator"), func(b *beatmap.BeatMap) string { return b.Creator }},
			{meta("Version"), func(b *beatmap.BeatMap) string { return b.Version }},
			{meta("Source"), func(b *beatmap.BeatMap) string { return b.Source }},
			{meta("Tags"), func(b *beatmap.BeatMap) string { return b.Tags }},
			{func(t *Tmpl, v string) { t.General[0] = "AudioFilename: " + v }, func(b *beatmap.BeatMap) string { return b.Audio }},
			{func(t *Tmpl, v string) { t.Events = []string{"0,0,\"" + v + "\",0,0"} }, func(b *beatmap.BeatMap) string { return b.Bg }},
		}
		body := func(x *core.X, f field, v string, t *Tmpl) {
			f.set(t, v)
			text := t.Text()
			x.Desc(func() string { return fmt.Sprintf("%q", v) })
			x.State(core.NewH().S(text).Sum())
			first := ""
			for _, e := range encs {
				for _, crlf := range []bool{false, true} {
					for _, nl := range []bool{false, true} {
						tx := text
						if nl {
							tx += "\n"
						}
						if crlf {
							tx = strings.ReplaceAll(tx, "\n", "\r\n")
						}
						bm, err := beatmap.ParseFromByte(encode(tx, e))
						x.Op(1)
						x.Trace(1)
						how := fmt.Sprintf("%s crlf=%v final newline=%v", e, crlf, nl)
						x.Assert(err == nil, "%s: %v", how, err)
						if g := f.get(bm); g != strings.TrimSpace(v) {
							x.Fail("%s: %q was read as %q", how, v, g)
						}
						o := obs(bm)
						if first == "" {
							first = o
						}
						if o != first {
							x.Fail("%s parses differently: %s", how, diffLine(first, o))
						}
					}
				}
			}
		}
		full := func() *Tmpl { t := richTmpl(); return t }
		depth, step := 2, 60
		if th {
			depth, step = 3, 160
		}
		return []core.Scenario{
			{Name: "texts", Bound: fmt.Sprintf("10 text fields x %d characters x 4 encodings x 2 line endings x final newline", len(chars)), Body: func(x *core.X) {
				f := fields[x.Choose(len(fields))]
				v := "x" + chars[x.Choose(len(chars))] + "y"
				body(x, f, v, full())
			}},
			{Name: "strings", Bound: fmt.Sprintf("every string of length %d over the characters, in the title", depth), Body: func(x *core.X) {
				v := ""
				for i := 0; i < depth; i++ {
					v += chars[x.Choose(len(chars))]
				}
				body(x, fields[0], "x"+v+"y", base())
			}},
			{Name: "all-characters", Bound: "every Unicode scalar value but the line breaks, 256 to a title, in 4 encodings", Body: func(x *core.X) {
				blk := x.Choose(0x110000 / 256)
				enc := encs[x.Choose(4)]
				if blk >= 0xD8 && blk < 0xE0 {
					return
				}
				var b strings.Builder
				b.WriteString("x")
				for i := 0; i < 256; i++ {
					if r := rune(blk*256 + i); r != '\n' && r != '\r' {
						b.WriteRune(r)
					}
				}
				b.WriteString("y")
				v := b.String()
				x.Desc(func() string { return fmt.Sprintf("U+%04X.. in %s", blk*256, enc) })
				x.State(core.NewH().S(v).S(enc).Sum())
				t := base()
				fields[0].set(t, v)
				bm, err := beatmap.ParseFromByte(encode(t.Text(), enc))
				x.Op(1)
				x.Trace(256)
				x.Assert(err == nil, "%v", err)
				if bm.Title != v {
					g, w := []rune(bm.Title), []rune(v)
					for i := range w {
						if i >= len(g) || g[i] != w[i] {
							x.Fail("character %d of U+%04X.. differs: U+%04X", i, blk*256, w[i])
						}
					}
					x.Fail("the title has %d characters too many", len(g)-len(w))
				}
				x.Assert(len(bm.HitObjects) == len(t.Obj) && bm.Creator == "C", "the title changed the rest")
			}},
			{Name: "edges", Bound: "every character of the basic plane (thorough: every Unicode scalar value) at both ends of a value; blanks are trimmed, nothing else", Body: func(x *core.X) {
				planes := 1
				if th {
					planes = 0x11
				}
				const per = 8
				blk := x.Choose(planes * 0x10000 / per)
				t := base()
				vals := make([]string, per)
				for i := range vals {
					r := rune(blk*per + i)
					if r == '\n' || r == '\r' || r >= 0xD800 && r < 0xE000 {
						r = '.'
					}
					vals[i] = string(r) + "v" + string(r)
					fields[i].set(t, vals[i])
				}
				x.Desc(func() string { return fmt.Sprintf("U+%04X..", blk*per) })
				x.State(uint64(blk) + 1)
				for _, enc := range []string{"utf8", "utf16le"} {
					bm, err := beatmap.ParseFromByte(encode(t.Text(), enc))
					x.Op(1)
					x.Trace(per)
					x.Assert(err == nil, "%v", err)
					for i, v := range vals {
						if g := fields[i].get(bm); g != strings.TrimSpace(v) {
							x.Fail("%s: %q was read as %q", enc, v, g)
						}
					}
				}
			}},
			{Name: "long-values", Bound: "a value of 200, 1000, 4000, 8000 (thorough 33000, 200000) 1-, 2-, 3- or 4-byte characters in each of 10 fields, first or last in the file, in all encodings: one line outweighs the rest of the file", Body: func(x *core.X) {
				ns := []int{200, 1000, 4000, 8000}
				if th {
					ns = append(ns, 33000, 200000)
				}
				f := fields[x.Choose(len(fields))]
				c := []string{"a", "é", "曲", "𝄞"}[x.Choose(4)]
				n := ns[x.Choose(len(ns))]
				t := base()
				if x.Bool() { // little but the one line
					t.Diff = nil
				}
				body(x, f, strings.Repeat(c, n), t)
				x.Desc(func() string { return fmt.Sprintf("%d times %q", n, c) })
			}},
			{Name: "offsets", Bound: "a 1-, 2-, 3- and 4-byte character at every offset around the 4096- and 8192-byte reader buffers", Body: func(x *core.X) {
				v := []string{"é", "曲", "𝄞", "ab"}[x.Choose(4)]
				at := []int{4090, 8186, 2038}[x.Choose(3)] - 150 + x.Choose(step)

				t := base()
				t.General = append([]string{"//" + strings.Repeat("p", at)}, t.General...)
				body(x, fields[0], v, t)
			}},
			{Name: "mixed-line-endings", Bound: "every combination of LF and CRLF over the last lines and every single line of a full map", Body: func(x *core.X) {
				t := full()
				ls := t.Lines()
				want := obs(parse(x, strings.Join(ls, "\n")))
				enc := encs[x.Choose(len(encs))]
				mode := x.Choose(len(ls) + 256)
				var b strings.Builder
				for i, l := range ls {
					b.WriteString(l)
					cr := i == mode
					if mode >= len(ls) {
						cr = i%8 < 8 && (mode-len(ls))&(1<<uint(i%8)) != 0
					}
					if cr {
						b.WriteString("\r")
					}
					b.WriteString("\n")
				}
				x.Desc(func() string { return fmt.Sprintf("%s mode %d", enc, mode) })
				x.State(core.NewH().S(enc).I(mode).Sum())
				bm, err := beatmap.ParseFromByte(encode(b.String(), enc))
				x.Op(1)
				x.Trace(1)
				x.Assert(err == nil, "%v", err)
				if g := obs(bm); g != want {
					x.Fail("mixed line endings parse differently: %s", diffLine(want, g))
				}
			}},
		}
	})
}
