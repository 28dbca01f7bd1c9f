package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"

	"vmc/core"
)

// contexts decides that what a file says is read in the same way whatever its format version and
// mode: the parsed beatmap is that of the same file with version 14 and mode 0, which the other
// scenarios compare with the model. Stacking, which depends on the version, is left out.
func contexts(th bool, what string, vary func(x *core.X, th bool) *Tmpl) core.Scenario {
	vs := []string{"14", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "15", "128", "1", "2", "0", ""}
	ms := []int{0, 3, 4, 1, 2}
	if !th {
		ms = ms[:4]
	}
	return core.Scenario{Name: "contexts", Bound: fmt.Sprintf("%s x format versions 1 to 15, 128, 0 and none x %d forms of the mode", what, len(ms)), Body: func(x *core.X) {
		v, m := vs[x.Choose(len(vs))], ms[x.Choose(len(ms))]
		t := vary(x, th)
		var gen []string
		for _, l := range t.General {
			if !strings.HasPrefix(l, "Mode") {
				gen = append(gen, l)
			}
		}
		txt := func(v string, m int) string {
			t.Version, t.General = v, gen
			if m < 4 {
				t.General = append([]string{fmt.Sprintf("Mode: %d", m)}, gen...)
			}
			s := t.Text()
			if v == "" {
				s = s[strings.Index(s, "\n"):]
			}
			return s
		}
		see := func(s string) string {
			b := parse(x, s)
			b.FileVersion, b.Mode = 0, 0
			for _, o := range b.HitObjects {
				for _, k := range obsMods {
					o.SetStackIndex(0, k)
					o.SetStackOffset(0, k)
				}
			}
			return obs(b)
		}
		s := txt(v, m)
		x.Desc(func() string { return clip(s) })
		x.State(core.NewH().S(s).Sum())
		want, got := see(txt("14", 0)), see(s)
		x.Trace(1)
		x.Assert(want == got, "version %q and mode %d change how the file is read: %s", v, m, diffLine(want, got))
	}}
}

// less is n in the thorough tier and one less in the quick one.
func less(th bool, n int) int {
	if th {
		return n
	}
	return n - 1
}

func ctxHeader(x *core.X, th bool) *Tmpl {
	t := richTmpl()
	switch x.Choose(6) {
	case 1:
		t.General = append(t.General, "StackLeniency: 0.3", "PreviewTime: -1", "AudioFilename: b:c.ogg")
	case 2:
		t.General = nil
	case 3:
		t.Meta = []string{"FileVersion: X", "Creator: C: D", "Version: [a]", "BeatmapSetID:-1", "Tags:", "Title:T2"}
	case 4:
		t.Events = []string{"2,100.5,200.25", "1,0,\"v.avi\"", "0,0,bg two.png", "3,100,163,162,255", "Break,99999,199999"}
	case 5:
		t.Events = nil
	}
	return t
}

func ctxDiff(x *core.X, th bool) *Tmpl {
	t := richTmpl()
	t.Diff = nil
	v := [][]string{{"HPDrainRate:3", "HPDrainRate:11"}, {"CircleSize:6.5", "CircleSize:0"}, {"OverallDifficulty:2", "OverallDifficulty:9.7"}, {"ApproachRate:9.3", "ApproachRate:-1"}, {"SliderMultiplier:2.2", "SliderMultiplier:0.1"}, {"SliderTickRate:3", "SliderTickRate:0.25"}}
	for i := x.Choose(less(th, 4)); i > 0; i-- {
		t.Diff = append(t.Diff, v[x.Choose(6)][x.Choose(2)])
	}
	return t
}

func ctxObjects(x *core.X, th bool) *Tmpl {
	t := richTmpl()
	ls := []string{"100.5,100,%d,1,2", "-20,500,%d.75,5,0,1:0:0:0:", "50,300,%d,6,2,B|100:300|100:300|150:350,1,120,2|4,0:0|1:2", "256,192,%d,12,4,1", "50,60,%d,2,0,P|100:80|50:90,2,80", "50,60,%d,2,0,L|50.5:90,0,0", "9,9,%d,128,0,99999:0:0:0:", "9,9,%d,101,0", "9,9,%d,0,0", "9,9,%d,2,0", "9,9,%d", "10,10,%d,6,2,C|100:300|150:350|200:300,5,700"}
	t.Obj = []string{"0,0,0,1,0", "300,40,9000,1,0", "40,300,9000,5,0", "200,9,3000,2,0,L|260:9,1,60"}
	for i := 0; i < less(th, 2); i++ {
		l := ls[x.Choose(len(ls))]
		t.Obj = append(t.Obj, fmt.Sprintf(l, []int{3000, 9000, 1}[x.Choose(3)]+i))
	}
	return t
}

func ctxCombos(x *core.X, th bool) *Tmpl {
	t := base()
	for i := 0; i < less(th, 4); i++ {
		t.Obj = append(t.Obj, fmt.Sprintf([]string{"%[2]d,100,%[1]d,1,0", "%[2]d,100,%[1]d,5,0", "%[2]d,100,%[1]d,53,0", "256,192,%[1]d,8,0,%[1]d", "256,192,%[1]d,28,0,%[1]d", "%[2]d,100,%[1]d,38,0,L|200:300,2,50"}[x.Choose(6)], 1000+3000*i, 100*i))
	}
	return t
}

func ctxTiming(x *core.X, th bool) *Tmpl {
	t := base()
	t.Times = nil
	for i := 0; i < less(th, 3); i++ {
		t.Times = append(t.Times, fmt.Sprintf([]string{"%d,500", "%d,-50,4,2,1,60,0,1", "%d,-250,3,1,0,0,0,8", "%d,300.3,3,3,3,5,1,9", "%d,NaN,4,0,0,100,0,0", "%d,-100,4", "%d,-33.3,0,1,1,10,1", "%d,1e9,4,1,1,1,1,1"}[x.Choose(8)], []int{0, 2000, 1990}[i]))
		t.Obj = append(t.Obj, fmt.Sprintf("%d,50,%d,2,0,L|300:200,3,200", 100*i, 1000*i))
	}
	return t
}

func ctxSliders(x *core.X, th bool) *Tmpl {
	t := base()
	t.Diff = []string{"SliderMultiplier:" + []string{"1.4", "0.4", "3.6"}[x.Choose(3)], "SliderTickRate:" + []string{"1", "0.5", "8"}[x.Choose(3)]}
	t.Times = []string{"0,400", "1000,-" + []string{"100", "25", "400"}[x.Choose(3)] + ",4,1,1,50,0,0"}
	p := []string{"L|300:200", "B|100:300|100:300|150:350|200:300", "P|100:120|180:90", "C|100:300|150:350|200:300", "L|60:80|60:80|90:90", "B|50:60"}[x.Choose(6)]
	same := x.Choose(4)
	for i, r := range []string{"1", "2", "5"} {
		l := same
		if th && i > 0 {
			l = x.Choose(4)
		}
		t.Obj = append(t.Obj, fmt.Sprintf("50,60,%d,2,0,%s,%s,%s", 500+20000*i, p, r, []string{"130", "300", "7.5", "1000"}[l]))
	}
	return t
}

// fresh runs the library on one file in a process which has done nothing else.
func fresh(text string) string {
	if v, ok := freshMemo.Load(text); ok {
		return v.(string)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe, "fresh", "-")
	c.Stdin = strings.NewReader(text)
	out, err := c.Output()
	if err != nil {
		return fmt.Sprint("the process failed: ", err)
	}
	freshMemo.Store(text, string(out))
	return string(out)
}

var freshMemo sync.Map

// everything renders what a file gives: the parsed beatmap, its ratings and its peaks.
func everything(text string) string {
	b, err := beatmap.ParseFromByte([]byte(text))
	if err != nil {
		return "rejected"
	}
	s := obs(b)
	for _, m := range []mods{0, difficulty.HardRock | difficulty.DoubleTime, difficulty.Easy | difficulty.HalfTime | difficulty.Flashlight} {
		b.Difficulty.SetMods(m)
		a, p := osu.CalculateSingleWithPeaks(b.HitObjects, b.Difficulty)
		var c osu.PPv2
		r := c.PPv2x(a, -1, -1, 1, 0, 1, b.Difficulty).Results
		s += fmt.Sprintf("rated %s\npeaks %s\npp %s %s %s %s %s\n", attrBits(a), peaksBits(p), bits(r.Aim), bits(r.Speed), bits(r.Acc), bits(r.Flashlight), bits(r.Total))
	}
	return s
}

func freshMain() {
	text, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	fmt.Print(everything(string(text)))
}

var number = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?`)

// freshTexts are a file, and the file with one of its numbers, names or letters changed.
func freshTexts() []string {
	t := richTmpl()
	t.General = []string{"Mode: 0", "StackLeniency: 0.7", "PreviewTime: 1234"}
	t.Events = []string{"2,100,200"}
	// sliders of the same path, of one curve under two types, and stacks
	t.Obj = append(t.Obj, "10,20,4000,2,0,L|100:300,1,50", "10,20,5000,2,0,B|100:300|40:50,2,150", "10,20,7000,2,0,L|100:300|40:50,2,150", "100,100,9000,1,0", "100,100,9100,1,0", "101,100,9200,5,0")
	ls := strings.Split(t.Text(), "\n")
	out := []string{t.Text()}
	for i, l := range ls {
		for _, m := range number.FindAllStringIndex(l, -1) {
			v, _ := strconv.ParseFloat(l[m[0]:m[1]], 64)
			nl := l[:m[0]] + f64(v+1) + l[m[1]:]
			out = append(out, strings.Join(ls[:i], "\n")+"\n"+nl+"\n"+strings.Join(ls[i+1:], "\n"))
		}
		for _, r := range [][2]string{{"P|", "B|"}, {"B|", "L|"}, {"L|", "C|"}, {"C|", "P|"}, {"Title:", "Title:x"}, {"Version:", "Version:x"}, {"Creator:", "Creator:x"}, {"Artist:", "Artist:x"}} {
			if strings.Contains(l, r[0]) {
				out = append(out, strings.Join(ls[:i], "\n")+"\n"+strings.Replace(l, r[0], r[1], 1)+"\n"+strings.Join(ls[i+1:], "\n"))
			}
		}
	}
	return out
}

// extra scenarios of checks
var extra = map[string]func(th bool) []core.Scenario{
	"C04": func(th bool) []core.Scenario { return []core.Scenario{contexts(th, "6 headers", ctxHeader)} },
	"C05": func(th bool) []core.Scenario {
		return []core.Scenario{contexts(th, fmt.Sprintf("every sequence of up to %d difficulty lines of 12", less(th, 4)-1), ctxDiff)}
	},
	"C06": func(th bool) []core.Scenario {
		return []core.Scenario{contexts(th, fmt.Sprintf("every word of %d of 12 object lines at 3 times", less(th, 2)), ctxObjects)}
	},
	"C07": func(th bool) []core.Scenario {
		return []core.Scenario{contexts(th, fmt.Sprintf("every word of %d of 6 objects", less(th, 4)), ctxCombos)}
	},
	"C08": func(th bool) []core.Scenario {
		return []core.Scenario{contexts(th, fmt.Sprintf("every word of %d of 8 timing lines with a slider after each", less(th, 3)), ctxTiming)}
	},
	"C09": func(th bool) []core.Scenario {
		return []core.Scenario{contexts(th, "3 slider multipliers x 3 tick rates x 3 velocities x 6 paths x 4 lengths (thorough: every triple) with 1, 2 and 5 spans", ctxSliders)}
	},
	"C28": func(bool) []core.Scenario {
		texts := freshTexts()
		return []core.Scenario{{Name: "fresh-process", Bound: fmt.Sprintf("a file and %d others which differ from it in one number, letter or name, all parsed and rated one after the other in %d orders (every rotation, both directions); each is compared with what a process gives which has seen nothing else", len(texts)-1, 2*len(texts)), Body: func(x *core.X) {
			r, d := x.Choose(len(texts)), x.Choose(2)
			var h []string
			x.Desc(func() string { return strings.Join(h[max(0, len(h)-2):], "\n----\n") })
			x.State(uint64(r*2 + d))
			n := len(texts)
			for i := 0; i < n; i++ {
				k := (r + i) % n
				if d == 1 {
					k = (r - i + n) % n
				}
				h = append(h, texts[k])
				want, got := fresh(texts[k]), everything(texts[k])
				x.Op(1)
				x.Trace(1)
				x.Assert(want == got, "file %d gives something else after %d others than in a process of its own: %s", k, i, diffLine(want, got))
			}
		}}}
	},
}
