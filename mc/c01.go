package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
)

func richTmpl() *Tmpl {
	t := base()
	t.Meta = append(t.Meta, "TitleUnicode:TU", "ArtistUnicode:AU", "Source:S", "Tags:a b", "BeatmapID:12", "BeatmapSetID:34")
	t.Events = append(t.Events, "2,100,200", "Break,300,400", "Sample,100,0,\"x.wav\",70")
	t.Times = []string{"0,500,4,2,1,60,1,0", "1000,-50,4,2,1,60,0,0", "2000,333.3,3,1,0,100,1,8", "2500,NaN,4,2,1,60,0,1"}
	t.Obj = []string{
		"100,100,0,5,0,0:0:0:0:",
		"150,120,300,1,8,0:0:0:0:",
		"200,200,600,2,0,P|250:250|300:200,2,140,2|8|0,0:0|0:0|0:0,0:0:0:0:",
		"256,192,1500,12,4,2000,0:0:0:0:",
		"50,300,2100,6,2,B|100:300|100:300|150:350|200:300,1,120",
		"50,300,2600,2,0,L|100:300,3,50,4|4",
		"300,50,2900,2,0,C|350:60|400:40,1,90",
		"300,50,3100,128,0,3300:0:0:0:0:",
		"300,52,3400,1,0",
		"300,52,3500,1,0",
	}
	return t
}

// entryPoints runs every calculation on the beatmap.
func entryPoints(x *core.X, bm *beatmap.BeatMap, ms []mods) {
	objs := bm.HitObjects
	heavy := false
	if n := len(objs); n > 0 {
		if d := objs[n-1].GetStartTime() - objs[0].GetStartTime(); d/400*float64(n) > 1e6 {
			heavy = true
		}
		pts := 0
		for _, o := range objs {
			if s, ok := o.(*objects.Slider); ok {
				pts += len(s.ScorePoints)
			}
		}
		if pts > 200000 {
			heavy = true
		}
	}
	if heavy {
		ms = ms[:1]
	}
	for _, m := range ms {
		d := bm.Difficulty
		d.SetMods(m)
		a := osu.CalculateSingle(objs, d)
		x.Op(1)
		pp := &osu.PPv2{}
		pp.PPv2x(a, -1, -1, 0, 0, 0, d)
		pp.PPv2x(a, 5, 3, 1, 1, 1, d)
		x.Op(2)
		if heavy {
			continue
		}
		osu.CalculateSingleWithPeaks(objs, d)
		for _, st := range osu.CalculateStep(objs, d) {
			pp.PPv2x(st, -1, -1, 0, 0, 0, d)
		}
		osu.CalculateStepWithPeaks(objs, d)
		osu.CalculateStrainPeaks(objs, d)
		x.Op(4)
		for _, o := range objs {
			for _, t := range []float64{o.GetStartTime(), o.GetEndTime(), (o.GetStartTime() + o.GetEndTime()) / 2, -1e9, 1e9} {
				o.GetStackedPositionAtMod(t, m)
				o.GetStackedPositionAt(t)
			}
			o.GetStackedEndPosition()
			o.GetStackedStartPosition()
		}
	}
}

var entryMods = []mods{difficulty.None, difficulty.HardRock | difficulty.DoubleTime | difficulty.Flashlight, difficulty.Easy | difficulty.HalfTime | difficulty.Relax, difficulty.Hidden | difficulty.SpunOut | difficulty.NoFail | difficulty.TouchDevice | difficulty.ScoreV2}

type mline struct {
	sec  string
	idx  int // index of the line in the file
	text string
}

// fields of a line that can be addressed; comma fields, curve points and their coordinates.
func splitFields(sec, l string) (pieces []string, seps []string) {
	cut := func(s string, chars string) {
		cur := ""
		for _, r := range s {
			if strings.ContainsRune(chars, r) {
				pieces = append(pieces, cur)
				seps = append(seps, string(r))
				cur = ""
			} else {
				cur += string(r)
			}
		}
		pieces = append(pieces, cur)
		seps = append(seps, "")
	}
	switch sec {
	case "HitObjects":
		cut(l, ",|:")
	case "TimingPoints", "Events":
		cut(l, ",")
	default:
		i := strings.Index(l, ":")
		if i < 0 {
			cut(l, "")
		} else {
			pieces, seps = []string{l[:i], l[i+1:]}, []string{":", ""}
		}
	}
	return
}

func joinFields(p, s []string) string {
	var b strings.Builder
	for i := range p {
		b.WriteString(p[i])
		b.WriteString(s[i])
	}
	return b.String()
}

var hostile = []string{"", " ", "abc", "-1", "0", "NaN", "Inf", "-Inf", "1e999", "1e-999", "99999999999999999999", "2147483647", "2147483648", "-2147483649", "1e308", "0x10", "1_000", "１２", "1000000", "65536", "131072", "131073", "-131072", "0.0000001", "9000", "9001", "1.5", "-0.0", "255", "\x00", "\xff\xfe", "|", ":", "a|b:c", "1:2:3", "\"", "//", "1e1", "+5"}
var hostile2 = []string{"", "abc", "-1", "0", "NaN", "Inf", "1e308", "2147483648", "131072", "0.0000001"}

type c01base struct {
	t      *Tmpl
	lines  []string
	marked []mline
	bm     *beatmap.BeatMap
	header map[string]string
	timing string
	objSig []string
}

func basicSig(o objects.IHitObject) string {
	s := fmt.Sprint(o.GetType(), " ", bits(o.GetStartTime()), " ", vbits(o.GetStartPosition()), " ", o.GetSounds(), o.GetColorOffset())
	if sl, ok := o.(*objects.Slider); ok {
		s += fmt.Sprint(" x", sl.RepeatCount)
	}
	return s
}

func timedSig(o objects.IHitObject) string {
	s := basicSig(o) + " " + bits(o.GetEndTime())
	if sl, ok := o.(*objects.Slider); ok {
		for _, p := range sl.ScorePoints {
			s += " " + bits(p.Time)
		}
		s += vbits(sl.GetEndPosition()) + vbits(sl.GetPositionAt((sl.GetStartTime()+sl.GetEndTime())/2))
	}
	return s
}

func headerMap(b *beatmap.BeatMap) map[string]string {
	m := map[string]string{
		"AudioFilename": b.Audio, "PreviewTime": fmt.Sprint(b.PreviewTime), "StackLeniency": fmt.Sprint(b.StackLeniency), "Mode": fmt.Sprint(b.Mode),
		"Title": b.Title, "Artist": b.Artist, "Creator": b.Creator, "Version": b.Version, "TitleUnicode": b.TitleUnicode, "ArtistUnicode": b.ArtistUnicode,
		"Source": b.Source, "Tags": b.Tags, "BeatmapID": fmt.Sprint(b.MapID), "BeatmapSetID": fmt.Sprint(b.SetID),
		"HPDrainRate": fmt.Sprint(b.Difficulty.GetHP()), "CircleSize": fmt.Sprint(b.Difficulty.GetCS()), "OverallDifficulty": fmt.Sprint(b.Difficulty.GetOD()), "ApproachRate": fmt.Sprint(b.Difficulty.GetAR()),
		"SliderMultiplier": fmt.Sprint(b.SliderMultiplier, b.Timings.SliderMult), "SliderTickRate": fmt.Sprint(b.Timings.TickRate),
	}
	m["0"] = b.Bg
	s := ""
	for _, p := range b.Pauses {
		s += fmt.Sprint(p.StartTime, p.EndTime, ";")
	}
	m["pauses"] = s
	m["format"] = fmt.Sprint(b.FileVersion)
	return m
}

func rawPoint(p timing.ControlPoint) string {
	return fmt.Sprint("time ", p.Time, " raw ", p.GetRawBeatLength(), " set ", p.SampleSet, " index ", p.SampleIndex, " volume ", p.SampleVolume, " signature ", p.Signature, p.Inherited, p.Kiai, p.OmitFirstBarLine)
}

func newC01base() *c01base {
	c := &c01base{t: richTmpl()}
	c.lines = c.t.Lines()
	sec := ""
	for i, l := range c.lines {
		if strings.HasPrefix(l, "[") {
			sec = strings.Trim(l, "[]")
			continue
		}
		if l != "" && sec != "" {
			c.marked = append(c.marked, mline{sec, i, l})
		}
	}
	bm, err := beatmap.ParseFromByte([]byte(strings.Join(c.lines, "\n")))
	if err != nil {
		panic(err)
	}
	c.bm = bm
	c.header = headerMap(bm)
	c.timing = obsTiming(bm)
	for _, o := range bm.HitObjects {
		c.objSig = append(c.objSig, timedSig(o))
	}
	return c
}

// try parses the text and, if it is accepted, runs everything.
func (c *c01base) try(x *core.X, text string, ms []mods) *beatmap.BeatMap {
	x.Desc(func() string { return clip(text) })
	bm, err := beatmap.ParseFromByte([]byte(text))
	x.Op(1)
	x.Trace(1)
	if err != nil {
		x.Assert(bm == nil, "both a beatmap and an error were returned")
		x.Outcome(1)
		return nil
	}
	x.Assert(bm != nil, "neither a beatmap nor an error was returned")
	x.Outcome(core.NewH().I(len(bm.HitObjects)).F(bm.MaxBPM).Sum())
	x.State(core.NewH().S(text).Sum())
	entryPoints(x, bm, ms)
	return bm
}

// isolated checks that a change confined to one line left all other lines' meaning alone.
func (c *c01base) isolated(x *core.X, bm *beatmap.BeatMap, l mline, now string) {
	if bm == nil {
		return
	}
	key := strings.TrimSpace(strings.SplitN(l.text, ":", 2)[0])
	bm.Difficulty.SetMods(0)
	h := headerMap(bm)
	for k, v := range c.header {
		switch {
		case l.sec == "Events" && (k == "0" || k == "pauses"): // the event type itself may have been replaced
			continue
		case k == key && l.sec != "Events":
			continue
		}
		if v != h[k] {
			x.Fail("a malformed %s line (%q) changed %s from %q to %q", l.sec, l.text, k, v, h[k])
		}
	}
	if l.sec != "TimingPoints" {
		if k := obsTiming(bm); k != c.timing && key != "SliderMultiplier" && key != "SliderTickRate" {
			x.Fail("a malformed %s line changed the timing: %s", l.sec, diffLine(c.timing, k))
		}
	}
	if l.sec == "TimingPoints" && bm.Timings.HasPoints() {
		at, err := strconv.ParseFloat(strings.TrimSpace(strings.SplitN(now, ",", 2)[0]), 64)
		if err != nil || math.IsNaN(at) || math.IsInf(at, 0) {
			at = 0
		}
		for _, m := range c.marked {
			if m.sec != "TimingPoints" || m.idx == l.idx {
				continue
			}
			t, _ := strconv.ParseFloat(strings.SplitN(m.text, ",", 2)[0], 64)
			if t == at {
				continue // the mutated point may be the one in force
			}
			g, w := bm.Timings.GetPointAt(t), c.bm.Timings.GetPointAt(t)
			if k, o := rawPoint(g), rawPoint(w); k != o {
				x.Fail("a malformed TimingPoints line (%q) changed the point at %v from %s to %s", now, t, o, k)
			}
		}
	}
	sig := timedSig
	if l.sec == "TimingPoints" || key == "SliderMultiplier" || key == "SliderTickRate" {
		sig = basicSig
	}
	want := map[string]int{}
	skip := -1
	if l.sec == "HitObjects" {
		for i, m := range c.marked {
			if m.sec == "HitObjects" {
				skip = l.idx - m.idx
				_ = i
				break
			}
		}
	}
	// objects other than the one on the mutated line, in file order = base order (base is sorted)
	n := 0
	line := 0
	for _, m := range c.marked {
		if m.sec != "HitObjects" {
			continue
		}
		if strings.Split(m.text, ",")[3] == "128" {
			line++
			continue
		}
		if line != skip {
			want[sig(c.bm.HitObjects[n])]++
		}
		n++
		line++
	}
	for _, o := range bm.HitObjects {
		want[sig(o)]--
	}
	extra := 0
	for k, v := range want {
		if v > 0 {
			x.Fail("a malformed %s line (%q) lost or changed another object: %s", l.sec, l.text, k)
		}
		extra -= v
	}
	if extra > 1 || extra > 0 && l.sec != "HitObjects" {
		x.Fail("a malformed %s line added %d objects", l.sec, extra)
	}
}

func (c *c01base) with(idx int, repl ...string) string {
	out := append([]string{}, c.lines[:idx]...)
	out = append(out, repl...)
	out = append(out, c.lines[idx+1:]...)
	return strings.Join(out, "\n")
}

func init() {
	register("C01", "one execution = one malformed .osu text parsed and passed to every entry point; distinct texts are distinct states", func(th bool) []core.Scenario {
		c := newC01base()
		kindDepth := 6
		if th {
			kindDepth = 8
		}
		scs := []core.Scenario{
			{Name: "truncate", Bound: "every line of a full template cut to every number of fields, with and without the trailing separator, or removed, or doubled", Body: func(x *core.X) {
				l := c.marked[x.Choose(len(c.marked))]
				p, s := splitFields(l.sec, l.text)
				k := x.Choose(len(p) + 3)
				var txt, now string
				switch {
				case k == len(p)+1:
					txt = c.with(l.idx)
				case k == len(p)+2:
					now = l.text + l.text
					txt = c.with(l.idx, now)
				default:
					cut := joinFields(p[:k], s[:k])
					if k > 0 && k < len(p) && x.Bool() {
						cut = cut[:len(cut)-len(s[k-1])]
					}
					now = cut
					txt = c.with(l.idx, cut)
				}
				c.isolated(x, c.try(x, txt, entryMods), l, now)
			}},
			{Name: "one-field", Bound: fmt.Sprintf("every field (and curve coordinate) of every line replaced by each of %d hostile values", len(hostile)), Body: func(x *core.X) {
				l := c.marked[x.Choose(len(c.marked))]
				p, s := splitFields(l.sec, l.text)
				p = append([]string{}, p...)
				i := x.Choose(len(p))
				p[i] = hostile[x.Choose(len(hostile))]
				c.isolated(x, c.try(x, c.with(l.idx, joinFields(p, s)), entryMods), l, joinFields(p, s))
			}},
			{Name: "two-fields", Bound: fmt.Sprintf("every pair of fields of every object and timing line replaced by each pair of %d hostile values", len(hostile2)), Body: func(x *core.X) {
				var cand []mline
				for _, m := range c.marked {
					if m.sec == "HitObjects" && (th || m.idx%3 != 1 || strings.Contains(m.text, "|")) || m.sec == "TimingPoints" {
						cand = append(cand, m)
					}
				}
				l := cand[x.Choose(len(cand))]
				p, s := splitFields(l.sec, l.text)
				p = append([]string{}, p...)
				max := len(p)
				if !th && max > 9 {
					max = 9
				}
				i := x.Choose(max)
				j := x.Choose(max)
				if j >= i {
					return
				}
				p[i] = hostile2[x.Choose(len(hostile2))]
				p[j] = hostile2[x.Choose(len(hostile2))]
				c.isolated(x, c.try(x, c.with(l.idx, joinFields(p, s)), entryMods[:2]), l, joinFields(p, s))
			}},
			{Name: "lean", Bound: "every line removed from the template, and any other line cut to every number of fields", Body: func(x *core.X) {
				gone := x.Choose(len(c.marked))
				k := x.Choose(len(c.marked))
				if gone == k {
					return
				}
				l := c.marked[k]
				p, s := splitFields(l.sec, l.text)
				n := x.Choose(len(p))
				cut := joinFields(p[:n], s[:n])
				if n > 0 && x.Bool() {
					cut = cut[:len(cut)-len(s[n-1])]
				}
				ls := append([]string{}, c.lines...)
				ls[l.idx] = cut
				ls = append(ls[:c.marked[gone].idx], ls[c.marked[gone].idx+1:]...)
				c.try(x, strings.Join(ls, "\n"), entryMods[:1])
			}},
			{Name: "events", Bound: "every event kind by name and number with 0..11 further fields (numbers, quoted and unquoted names), in full and bare templates", Body: func(x *core.X) {
				kind := []string{"0", "1", "2", "3", "4", "5", "6", "7", "Background", "Video", "Break", "Colour", "Sprite", "Sample", "Animation", " F", "_M", " L", " T", "  S"}[x.Choose(20)]
				f := []string{"0", "\"a.png\"", "x", "", "-5"}[x.Choose(5)]
				n := x.Choose(12)
				t := richTmpl()
				if x.Bool() {
					t = base()
					t.General, t.Events = nil, nil
				}
				if x.Bool() {
					t.Events = nil
				}
				t.Events = append(t.Events, kind+strings.Repeat(","+f, n))
				c.try(x, t.Text(), entryMods[:1])
			}},
			{Name: "sections", Bound: "every subset of the six sections complete, empty or missing", Body: func(x *core.X) {
				out := []string{"osu file format v14", ""}
				if x.Bool() {
					out = nil
				}
				for _, s := range c.t.sections() {
					switch x.Choose(3) {
					case 0:
						out = append(out, "["+s[0].(string)+"]")
						out = append(out, s[1].([]string)...)
					case 1:
						out = append(out, "["+s[0].(string)+"]")
					}
				}
				c.try(x, strings.Join(out, "\n"), entryMods)
			}},
			{Name: "insert", Bound: "each of 24 junk lines inserted before every line", Body: func(x *core.X) {
				junk := []string{",", ",,,,,,,,,,", ":", "::::", "|", "0", "-", "a:b:c", ",:|", "1,2", "1,2,3", "1,2,3,1", "1,2,3,2,0,,,", "1,2,3,2,0,B,1,1", "1,2,3,8,0,", "0,1", "0,0", "0,0,0,0,0,0,0,0,0,0,0,0", "\x00", "\ufeff", "\xff\xff", "NaN,NaN,NaN,NaN,NaN,NaN,NaN,NaN,NaN", strings.Repeat(",", 5000), strings.Repeat("9", 500) + "," + strings.Repeat("9", 500)}
				at := x.Choose(len(c.lines) + 1)
				out := append([]string{}, c.lines[:at]...)
				out = append(out, junk[x.Choose(len(junk))])
				out = append(out, c.lines[at:]...)
				c.try(x, strings.Join(out, "\n"), entryMods[:2])
			}},
			{Name: "headers", Bound: "every line of up to 4 characters out of {[ ] blank , : E} in front of and inside of every section", Body: func(x *core.X) {
				at := []int{0}
				for i, l := range c.lines {
					if strings.HasPrefix(l, "[") {
						at = append(at, i, i+1)
					}
				}
				w := ""
				for n := 1 + x.Choose(4); n > 0; n-- {
					w += string("[] ,:E"[x.Choose(6)])
				}
				k := at[x.Choose(len(at))]
				out := append([]string{}, c.lines[:k]...)
				out = append(out, w)
				out = append(out, c.lines[k:]...)
				c.try(x, strings.Join(out, "\n"), entryMods[:1])
			}},
			{Name: "cut-bytes", Bound: "the file truncated at every byte, and with every single byte removed", Body: func(x *core.X) {
				full := strings.Join(c.lines, "\n")
				del := x.Bool()
				at := x.Choose(len(full))
				txt := full[:at]
				if del {
					txt += full[at+1:]
				}
				c.try(x, txt, entryMods[:2])
			}},
			{Name: "tiny", Bound: "every file made of a minimal header and up to three object or timing lines out of 14", Body: func(x *core.X) {
				ls := []string{"", "0,0,0,1,0", "0,0,0,2,0,L|1:0,1,10", "0,0,0,2,0,L|0:0,1,0", "0,0,0,2,0,L|1:1,0,0", "0,0,0,2,0,B,1,100", "0,0,0,2,0,P|0:0|0:0,1,100", "0,0,0,8,0,0", "0,0,0,8,0,-100", "0,0,0,0,0", "0,0,500,1,0", "0,0,500,2,0,C|0:0,2,50", "0,0,-100,1,0", "0,0,0,128,0,0"}
				tp := []string{"0,0", "0,-100", "0,500", "1e9,500", "0,NaN", "0,-1e-300", "0,1e-300"}
				out := []string{"[Metadata]", "Title:t", "[TimingPoints]", tp[x.Choose(len(tp))], "[HitObjects]"}
				for i := 0; i < 3; i++ {
					out = append(out, ls[x.Choose(len(ls))])
				}
				c.try(x, strings.Join(out, "\n"), entryMods)
			}},
			{Name: "old-formats", Bound: fmt.Sprintf("every field of every line that is not an object replaced by each of %d hostile values x format versions 5, 3, 0, -1 and none", len(hostile)), Body: func(x *core.X) {
				var cand []mline
				for _, m := range c.marked {
					if m.sec != "HitObjects" && m.sec != "" {
						cand = append(cand, m)
					}
				}
				l := cand[x.Choose(len(cand))]
				p, s := splitFields(l.sec, l.text)
				p = append([]string{}, p...)
				p[x.Choose(len(p))] = hostile[x.Choose(len(hostile))]
				first := []string{"osu file format v5", "osu file format v3", "osu file format v0", "osu file format v-1", ""}[x.Choose(5)]
				c.try(x, strings.Replace(c.with(l.idx, joinFields(p, s)), "osu file format v14", first, 1), entryMods[:1])
			}},
			{Name: "kinds", Bound: fmt.Sprintf("all words of 1..%d objects out of a circle, a spinner, a slider ending there and one which does not, close together, x formats 14 and 5", kindDepth), Body: func(x *core.X) {
				tm := base()
				tm.Version = []string{"14", "5"}[x.Choose(2)]
				n := 1 + x.Choose(kindDepth)
				for i := 0; i < n; i++ {
					at := strconv.Itoa(1000 + 60*i)
					tm.Obj = append(tm.Obj, []string{"100,100," + at + ",1,0", "256,192," + at + ",12,0," + strconv.Itoa(1040+60*i), "160,100," + at + ",2,0,L|100:100,1,60", "100,100," + at + ",2,0,L|100:160,2,60"}[x.Choose(4)])
				}
				c.try(x, tm.Text(), entryMods[1:2])
			}},
			{Name: "extreme-times", Bound: "one object at each extreme accepted time, alone with a normal one", Body: func(x *core.X) {
				ts := []string{"2147483647", "-2147483647", "1e8", "-1e8"}
				t := ts[x.Choose(len(ts))]
				kind := []string{"1,0", "2,0,L|100:0,1,50", "8,0,100"}[x.Choose(3)]
				tm := base()
				tm.Obj = []string{"0,0,100,1,0", "0,0," + t + "," + kind}
				c.try(x, tm.Text(), entryMods)
			}},
			{Name: "huge-sliders", Bound: "repeat counts, lengths and tick settings at the limits", Body: func(x *core.X) {
				rep := []int64{0, -1, 1, 2, 100, 8999, 9000, 9001, 1 << 40}[x.Choose(9)]
				ln := []string{"0", "-5", "0.001", "1", "1000", "10000", "131072", "1e9"}[x.Choose(8)]
				tp := []string{"0,500", "0,0.001", "0,1e9"}[x.Choose(3)]
				tm := base()
				tm.Times = []string{tp}
				tm.Obj = []string{"0,0,100,1,0", "0,0,200,2,0,L|100:0," + strconv.FormatInt(rep, 10) + "," + ln + ",1|2|3|4|5", "0,0,900,1,0"}
				if rep > 1000 && len(ln) > 3 && !th {
					return
				}
				c.try(x, tm.Text(), entryMods[:2])
			}},
		}
		if th {
			scs = append(scs, core.Scenario{Name: "two-lines", Bound: "every pair of lines, one field each replaced by each pair of 5 hostile values", Body: func(x *core.X) {
				h := []string{"", "abc", "-1", "NaN", "1e308"}
				a, b := x.Choose(len(c.marked)), x.Choose(len(c.marked))
				if b >= a {
					return
				}
				ls := append([]string{}, c.lines...)
				for _, k := range []int{a, b} {
					l := c.marked[k]
					p, s := splitFields(l.sec, l.text)
					p = append([]string{}, p...)
					p[x.Choose(len(p))] = h[x.Choose(len(h))]
					ls[l.idx] = joinFields(p, s)
				}
				c.try(x, strings.Join(ls, "\n"), entryMods[:1])
			}})
		}
		return scs
	})
}
