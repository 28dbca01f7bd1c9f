package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
	"vmc/ref"
)

// cosmetic edits of a beatmap file: none of them changes what is played.
type cosmetic struct {
	name string
	edit func(t *Tmpl)
}

func field(line string, i int, v string) string {
	p := strings.Split(line, ",")
	for len(p) <= i {
		p = append(p, "")
	}
	p[i] = v
	return strings.Join(p, ",")
}

func isKind(line string, bit int) bool {
	var t int
	fmt.Sscan(strings.Split(line, ",")[3], &t)
	return t&bit != 0
}

func cosmetics() (out []cosmetic) {
	add := func(n string, f func(t *Tmpl)) { out = append(out, cosmetic{n, f}) }
	key := func(ls *[]string, k, v string) {
		for i, l := range *ls {
			if strings.HasPrefix(l, k+":") {
				(*ls)[i] = k + ":" + v
				return
			}
		}
		*ls = append(*ls, k+":"+v)
	}
	for _, kv := range [][2]string{{"AudioFilename", "other.ogg"}, {"PreviewTime", "-1"}, {"PreviewTime", "99999999"}, {"AudioLeadIn", "2000"}, {"Countdown", "0"}, {"SampleSet", "Soft"}, {"LetterboxInBreaks", "1"}, {"WidescreenStoryboard", "1"}, {"EpilepsyWarning", "1"}} {
		kv := kv
		add("General "+kv[0]+":"+kv[1], func(t *Tmpl) { key(&t.General, kv[0], kv[1]) })
	}
	for _, kv := range [][2]string{{"Title", "x"}, {"Artist", ""}, {"Creator", "HR,DT"}, {"Version", "12"}, {"TitleUnicode", "\u65e5\u672c"}, {"Source", "S: T"}, {"Tags", "easy hard 7"}, {"BeatmapID", "1"}, {"BeatmapSetID", "-1"}} {
		kv := kv
		add("Metadata "+kv[0]+":"+kv[1], func(t *Tmpl) { key(&t.Meta, kv[0], kv[1]) })
	}
	for _, hp := range []string{"0", "10", "7.3"} {
		hp := hp
		add("HP "+hp, func(t *Tmpl) { key(&t.Diff, "HPDrainRate", hp) })
	}
	for _, e := range []string{"2,1200,1500", "2,100,90000", "Break,1100,1101", "0,0,\"other.png\",0,0", "Video,0,\"v.avi\"", "Sample,1300,0,\"s.wav\",100", "Sprite,Foreground,Centre,\"a.png\",320,240", " F,0,0,1000,1"} {
		e := e
		add("event "+e, func(t *Tmpl) { t.Events = append(t.Events, e) })
	}
	add("no events", func(t *Tmpl) { t.Events = nil })
	for i, v := range map[int][]string{2: {"3", "7", "0"}, 3: {"2", "3"}, 4: {"0", "5"}, 5: {"0", "55", "100"}, 7: {"1", "8", "9"}} {
		for _, v := range v {
			i, v := i, v
			add(fmt.Sprintf("timing field %d = %s", i, v), func(t *Tmpl) {
				for k := range t.Times {
					t.Times[k] = field(t.Times[k], i, v)
				}
			})
			add(fmt.Sprintf("timing field %d = %s on the last line", i, v), func(t *Tmpl) { t.Times[len(t.Times)-1] = field(t.Times[len(t.Times)-1], i, v) })
		}
	}
	for _, tm := range []string{"900", "1433.25", "3000", "100000"} {
		tm := tm
		add("an inherited point at "+tm+" repeating the velocity", func(t *Tmpl) {
			at := 0.0
			fmt.Sscan(tm, &at)
			bl := "-100"
			for _, l := range t.Times {
				p := strings.Split(l, ",")
				var q float64
				fmt.Sscan(p[0], &q)
				if q <= at {
					bl = "-100"
					if p[6] == "0" {
						bl = p[1]
					}
				}
			}
			t.Times = append(t.Times, tm+","+bl+",4,3,2,77,0,1")
		})
	}
	for _, s := range []string{"2", "4", "8", "14"} {
		s := s
		add("hit sound "+s, func(t *Tmpl) {
			for k := range t.Obj {
				t.Obj[k] = field(t.Obj[k], 4, s)
			}
		})
		add("edge sounds "+s, func(t *Tmpl) {
			for k, l := range t.Obj {
				if isKind(l, 2) {
					t.Obj[k] = l + "," + s + "|" + s + ",1:2|0:3,1:1:0:50:"
				}
			}
		})
	}
	for _, s := range []string{",", ",,", ",0", ",2|0|8|4|2|0|8|4|2|0|8|4,1:1", ",2|4,1:0|2:0|0:0|1:1|2:2|3:3|1:0|0:0|1:2", ",a|b|c|d,x|y,z", ",2|0,0:0|0:0,0:0:0:0:,9,9,9"} {
		s := s
		add("slider ending in "+s, func(t *Tmpl) {
			for k, l := range t.Obj {
				if isKind(l, 2) {
					t.Obj[k] = strings.Join(append(strings.Split(l, ","), make([]string, 8)...)[:8], ",") + s
				}
			}
		})
	}
	for _, s := range []string{"0:0:0:0:", "1:2:3:40:file.wav"} {
		s := s
		add("sample "+s, func(t *Tmpl) {
			for k, l := range t.Obj {
				switch {
				case isKind(l, 8):
					t.Obj[k] = field(l, 6, s)
				case isKind(l, 1):
					t.Obj[k] = field(l, 5, s)
				}
			}
		})
	}
	for _, nc := range []int{4, 4 + 16, 4 + 96, 16, 112} {
		for every := 1; every <= 3; every++ {
			nc, every := nc, every
			add(fmt.Sprintf("combo bits %d on every object number %d", nc, every), func(t *Tmpl) {
				for k, l := range t.Obj {
					if k%every == 0 {
						var b int
						fmt.Sscan(strings.Split(l, ",")[3], &b)
						t.Obj[k] = field(l, 3, fmt.Sprint(b|nc))
					}
				}
			})
		}
	}
	add("spinner positions", func(t *Tmpl) {
		for k, l := range t.Obj {
			if isKind(l, 8) {
				t.Obj[k] = field(field(l, 0, "17"), 1, "300")
			}
		}
	})
	add("a hold note", func(t *Tmpl) { t.Obj = append(t.Obj, "300,50,3100,128,0,3300:0:0:0:0:") })
	add("AR 3 without stacks", func(t *Tmpl) {
		key(&t.Diff, "ApproachRate", "3")
	})
	add("leniency 1 without stacks", func(t *Tmpl) { t.General[2] = "StackLeniency: 1" })
	add("a later format", func(t *Tmpl) { t.Version = "128" })
	add("format 6", func(t *Tmpl) { t.Version = "6" })
	add("format 3 without stacks", func(t *Tmpl) { t.Version = "3" })
	return
}

func init() {
	register("C34", "one execution = one cosmetic edit (or pair of edits) of one beatmap file under one mod set; ratings, steps, peaks and pp are compared bit by bit with those of the unedited file", func(th bool) []core.Scenario {
		cs := cosmetics()
		var maps []*fileSpec
		for k := 0; k < 4; k++ {
			f := stdSpec(stream(k, []int{14, 17, 20, 12}[k]))
			f.tps = [][][2]float64{{{0, 500}}, {{0, 400}, {1500, -50}, {2600, 300}}, {{700, 333.3}, {1400, -133}, {1450, -80}}, {{0, 500}, {1000, 250}}}[k]
			// spread the objects so that nothing stacks
			for i := range f.ps {
				l := &f.ps[i].l
				if l.kind == ref.Circle {
					l.x, l.y = 20+float64(i*61%460), 15+float64(i*i*37%350)
				}
			}
			maps = append(maps, f)
		}
		ms := []uint64{0, ref.HR | ref.DT | ref.FL, ref.EZ | ref.HT, ref.RX | ref.HD}
		rating := func(x *core.X, text string, m uint64) string {
			bm := parse(x, text)
			bm.Difficulty.SetMods(mods(m))
			return ratingBits(x, bm)
		}
		tmpl := func(k int) *Tmpl {
			if k >= len(maps) {
				return tmplOf(corpora[k-len(maps)])
			}
			return tmplOf(maps[k].text())
		}
		want := func(x *core.X, k int, m uint64) string {
			key := fmt.Sprint(k, m)
			if v, ok := x.Local[key]; ok {
				return v.(string)
			}
			v := rating(x, tmpl(k).Text(), m)
			bm := parse(x, tmpl(k).Text())
			for _, o := range bm.HitObjects {
				x.Assert(o.GetStackIndex(0) == 0 || k >= 3, "internal: map %d has stacks", k)
			}
			x.Local[key] = v
			return v
		}
		stacked := func(k int, c cosmetic) bool { return k >= 3 && strings.HasSuffix(c.name, "without stacks") }
		return []core.Scenario{
			{Name: "single", Bound: fmt.Sprintf("each of %d cosmetic edits x 4 maps x 4 mod sets", len(cs)), Body: func(x *core.X) {
				k, c, m := x.Choose(4), cs[x.Choose(len(cs))], ms[x.Choose(4)]
				if stacked(k, c) {
					return
				}
				t := tmpl(k)
				c.edit(t)
				txt := t.Text()
				x.Desc(func() string { return fmt.Sprintf("%s, mods %s\n%s", c.name, ref.String(m), clip(txt)) })
				x.State(core.NewH().S(txt).U(m).Sum())
				w := want(x, k, m)
				x.Trace(1)
				if g := rating(x, txt, m); g != w {
					x.Fail("%s changes the rating: %s", c.name, diffLine(w, g))
				}
			}},
			{Name: "corpus", Bound: fmt.Sprintf("each of %d cosmetic edits x two real maps x 2 mod sets", len(cs)), Body: func(x *core.X) {
				k, c, m := 4+x.Choose(2), cs[x.Choose(len(cs))], ms[x.Choose(2)]
				if stacked(k, c) {
					return
				}
				t := tmpl(k)
				c.edit(t)
				txt := t.Text()
				x.Desc(func() string { return fmt.Sprintf("%s, mods %s\n%s", c.name, ref.String(m), clip(txt)) })
				x.State(core.NewH().S(txt).U(m).Sum())
				w := want(x, k, m)
				x.Trace(1)
				if g := rating(x, txt, m); g != w {
					x.Fail("%s changes the rating: %s", c.name, diffLine(w, g))
				}
			}},
			{Name: "words", Bound: "every word of 5 circles, sliders and spinners, followed by 3 circles, x 3 spacings (spinners end 10 ms before the next object, or last on) x 2 mod sets x 11 edits of what is not played about them (also the format version), velocity changes at and just before two of them", Body: func(x *core.X) {
				n := 5
				if th {
					n = 6
				}
				gap := []float64{60, 95, 260}[x.Choose(3)]
				long := x.Bool()
				m := []uint64{0, ref.HR | ref.DT | ref.FL}[x.Choose(2)]
				ls := []string{}
				word := ""
				for i, tm := 0, 1000.0; i < n+3; i++ {
					c := 0
					if i < n {
						c = x.Choose(3)
					}
					word += fmt.Sprint(c)
					px, py := 100+100*(i%2)+7*i, 110+i*i%50*3
					switch c {
					case 0:
						ls = append(ls, fmt.Sprintf("%d,%d,%g,1,0", px, py, tm))
						tm += gap
					case 1:
						ls = append(ls, fmt.Sprintf("%d,%d,%g,2,0,L|%d:%d,1,160", px, py, tm, px+160, py+3))
						tm += 2 * gap
					case 2:
						end := tm + 3*gap - 10
						if long {
							end += 500
						}
						ls = append(ls, fmt.Sprintf("256,192,%g,8,0,%g", tm, end))
						tm += 3 * gap
					}
				}
				t := tmpl(0)
				t.Obj = ls
				var t3, t5 float64
				fmt.Sscan(strings.Split(ls[2], ",")[2], &t3)
				fmt.Sscan(strings.Split(ls[4], ",")[2], &t5)
				t.Times = append(append([]string{}, t.Times...), fmt.Sprintf("%g,-50,4,2,1,60,0,0", t3), fmt.Sprintf("%g,-200,4,2,1,60,0,0", t5-10))
				base := t.Text()
				t.Obj = append([]string{}, ls...)
				t.Times = append([]string{}, t.Times...)
				e := x.Choose(11)
				for k, l := range ls {
					sp := isKind(l, 8)
					var b int
					fmt.Sscan(strings.Split(l, ",")[3], &b)
					switch {
					case e == 0 && sp:
						t.Obj[k] = field(field(l, 0, "17"), 1, "300")
					case e == 1 && sp:
						t.Obj[k] = field(field(l, 0, "107"), 1, "110")
					case e == 2 && k%2 == 0 || e == 3 && sp:
						t.Obj[k] = field(l, 3, fmt.Sprint(b|4|32))
					case e == 4:
						t.Obj[k] = field(l, 4, "6")
					}
				}
				switch e {
				case 5:
					t.Events = append(t.Events, "2,1100,1900")
				case 6:
					t.Times[0] = field(t.Times[0], 7, "1")
					t.Times[1] = field(t.Times[1], 5, "0")
					t.Times[2] = field(t.Times[2], 7, "9")
				case 7, 8, 9, 10:
					t.Version = []string{"3", "5", "7", "10"}[e-7]
				}
				txt := t.Text()
				if txt == base {
					return
				}
				x.Desc(func() string { return fmt.Sprintf("edit %d, mods %s\n%s", e, ref.String(m), clip(txt)) })
				x.State(core.NewH().S(txt).U(m).Sum())
				w, g := rating(x, base, m), rating(x, txt, m)
				x.Trace(1)
				if g != w {
					x.Fail("edit %d of what is not played changes the rating of word %s: %s", e, word, diffLine(w, g))
				}
			}},
			{Name: "pairs", Bound: fmt.Sprintf("every ordered pair of %d cosmetic edits x 4 maps (thorough: x 4 mod sets)", len(cs)), Body: func(x *core.X) {
				k, c1, c2 := x.Choose(4), cs[x.Choose(len(cs))], cs[x.Choose(len(cs))]
				m := ms[1]
				if th {
					m = ms[x.Choose(4)]
				}
				if stacked(k, c1) || stacked(k, c2) {
					return
				}
				t := tmpl(k)
				c1.edit(t)
				c2.edit(t)
				txt := t.Text()
				x.Desc(func() string {
					return fmt.Sprintf("%s and %s, mods %s\n%s", c1.name, c2.name, ref.String(m), clip(txt))
				})
				x.State(core.NewH().S(txt).U(m).Sum())
				w := want(x, k, m)
				x.Trace(1)
				if g := rating(x, txt, m); g != w {
					x.Fail("%s and %s change the rating: %s", c1.name, c2.name, diffLine(w, g))
				}
			}},
		}
	})
}

func ratingBits(x *core.X, bm *beatmap.BeatMap) string {
	a, p := osu.CalculateSingleWithPeaks(bm.HitObjects, bm.Difficulty)
	var st []osu.Attributes
	if len(bm.HitObjects) < 200 { // every step costs the sorting of all sections before it
		st = osu.CalculateStep(bm.HitObjects, bm.Difficulty)
	}
	bm.Difficulty.SetAR(9) // the one setting that pp depends on and ratings do not
	var pp osu.PPv2
	r := pp.PPv2x(a, -1, -1, 1, 0, 1, bm.Difficulty).Results
	x.Op(3)
	return attrBits(a) + "\n" + peaksBits(p) + "\n" + stepsBits(st) + fmt.Sprint(bits(r.Aim), bits(r.Speed), bits(r.Acc), bits(r.Flashlight), bits(r.Total))
}
