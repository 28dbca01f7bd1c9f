package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"

	"vmc/core"
	"vmc/ref"
)

// oline is a hit-object line with its independent meaning.
type oline struct {
	x, y, t  string
	typ      int
	sound    int
	rest     string // everything after the sound, with its leading comma
	kind     ref.Kind
	none     bool // no object (hold notes, unknown types)
	counts   int  // 0 circle counter, 1 slider counter, 2 spinner counter, 3 none
	end      string
	spans    int
	edge     []int
	skipText string
}

func (o oline) text() string {
	return fmt.Sprintf("%s,%s,%s,%d,%d%s", o.x, o.y, o.t, o.typ, o.sound, o.rest)
}

func fnum(s string) float64 {
	f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	if err != nil {
		panic(err)
	}
	return f
}

// classify fills the model meaning from the type bits.
func classify(o oline) oline {
	switch {
	case o.typ&1 != 0:
		o.kind, o.counts = ref.Circle, 0
	case o.typ&8 != 0:
		o.kind, o.counts = ref.Spinner, 2
	case o.typ&2 != 0:
		o.kind, o.counts = ref.Slider, 1
	case o.typ&128 != 0:
		o.none, o.counts = true, 1
	default:
		o.none, o.counts = true, 3
	}
	if o.spans < 1 {
		o.spans = 1
	}
	return o
}

func checkObjects(x *core.X, bm *beatmap.BeatMap, ls []oline) {
	var cnt [4]int
	length := 0
	var exp []oline
	var times []float64
	for _, l := range ls {
		cnt[l.counts]++
		last := fnum(l.t)
		if l.counts == 2 || l.none && l.counts == 1 {
			last = fnum(l.end)
		}
		if l.counts == 3 {
			last = 0
		}
		if int(last) > length {
			length = int(last)
		}
		if l.none {
			continue
		}
		i, t := len(exp), fnum(l.t)
		for i > 0 && times[i-1] > t {
			i--
		}
		exp = append(exp, oline{})
		copy(exp[i+1:], exp[i:])
		exp[i] = l
		times = append(times, 0)
		copy(times[i+1:], times[i:])
		times[i] = t
	}
	x.Trace(1)
	x.Assert(bm.Circles == cnt[0] && bm.Sliders == cnt[1] && bm.Spinners == cnt[2], "counters are %d circles, %d sliders, %d spinners; want %d, %d, %d", bm.Circles, bm.Sliders, bm.Spinners, cnt[0], cnt[1], cnt[2])
	x.Assert(bm.Length == length, "map length is %d, want %d", bm.Length, length)
	x.Assert(len(bm.HitObjects) == len(exp), "%d objects, want %d", len(bm.HitObjects), len(exp))
	for i, o := range bm.HitObjects {
		e := exp[i]
		at := fmt.Sprintf("object %d (line %q)", i, e.text())
		x.Assert(kindOf(o) == e.kind, "%s is a %v", at, kindOf(o))
		wantType := []objects.Type{objects.CIRCLE, objects.SLIDER, objects.SPINNER}[e.kind]
		x.Assert(o.GetType() == wantType, "%s reports type %d", at, o.GetType())
		x.Assert(o.GetID() == i, "%s has number %d", at, o.GetID())
		x.Assert(o.GetStartTime() == fnum(e.t), "%s starts at %v", at, o.GetStartTime())
		p := o.GetStartPosition()
		x.Assert(p.X == float32(fnum(e.x)) && p.Y == float32(fnum(e.y)), "%s is at %v", at, p)
		x.Assert(o.GetColorOffset() == e.typ>>4&7, "%s has colour offset %d", at, o.GetColorOffset())
		snd := fmt.Sprint(o.GetSounds())
		switch e.kind {
		case ref.Circle:
			x.Assert(o.GetEndTime() == fnum(e.t) && o.GetDuration() == 0, "%s ends at %v", at, o.GetEndTime())
			x.Assert(snd == fmt.Sprint([]int{e.sound}), "%s sounds %s", at, snd)
			x.Assert(o.GetEndPosition() == p && o.GetPositionAt(fnum(e.t)+100) == p, "%s moves", at)
		case ref.Spinner:
			x.Assert(o.GetEndTime() == fnum(e.end) && o.GetDuration() == fnum(e.end)-fnum(e.t), "%s ends at %v", at, o.GetEndTime())
			x.Assert(snd == fmt.Sprint([]int{e.sound}), "%s sounds %s", at, snd)
		case ref.Slider:
			want := make([]int, e.spans+1)
			for k := range want {
				want[k] = e.sound
				if k < len(e.edge) {
					want[k] = e.edge[k]
				}
			}
			x.Assert(snd == fmt.Sprint(want), "%s sounds %s, want %v", at, snd, want)
			x.Assert(o.(*objects.Slider).RepeatCount == int64(e.spans), "%s has %d spans", at, o.(*objects.Slider).RepeatCount)
		}
		if e.kind != ref.Spinner && i > 0 && kindOf(bm.HitObjects[i-1]) != ref.Spinner {
			x.Assert(o.IsNewCombo() == (e.typ&4 != 0), "%s new combo flag is %v", at, o.IsNewCombo())
		}
	}
	h := core.NewH()
	for _, o := range bm.HitObjects {
		h = h.I(int(o.GetType())).F(o.GetStartTime())
	}
	x.Outcome(h.Sum())
}

func circleL(px, py, t string, typ, snd int, rest string) oline {
	return classify(oline{x: px, y: py, t: t, typ: typ, sound: snd, rest: rest})
}
func sliderL(px, py, t string, typ, snd int, curve string, spans int, length string, edge string, rest string) oline {
	o := oline{x: px, y: py, t: t, typ: typ, sound: snd, spans: spans}
	o.rest = "," + curve + "," + strconv.Itoa(spans) + "," + length
	if edge != "-" {
		o.rest += "," + edge
		for _, e := range strings.Split(edge, "|") {
			n, _ := strconv.Atoi(e)
			o.edge = append(o.edge, n)
		}
	}
	o.rest += rest
	return classify(o)
}
func spinnerL(t string, typ, snd int, end, rest string) oline {
	return classify(oline{x: "256", y: "192", t: t, typ: typ, sound: snd, end: end, rest: "," + end + rest})
}
func holdL(t string, typ int, end, rest string) oline {
	return classify(oline{x: "64", y: "192", t: t, typ: typ, sound: 0, end: end, rest: "," + end + ":0:0:0:0:" + rest})
}

func runObjects(x *core.X, ls []oline) {
	t := base()
	t.Obj = nil
	for _, l := range ls {
		t.Obj = append(t.Obj, l.text())
	}
	x.Desc(func() string { return strings.Join(t.Obj, " / ") })
	h := core.NewH()
	for _, l := range t.Obj {
		h = h.S(l)
	}
	x.State(h.Sum())
	checkObjects(x, parse(x, t.Text()), ls)
}

func init() {
	register("C06", "one execution = one sequence of object lines; distinct sequences are states", func(th bool) []core.Scenario {
		alpha := []oline{
			circleL("100", "150", "1000", 1, 0, ",0:0:0:0:"),
			circleL("0", "0", "500", 5, 2, ""),
			circleL("512", "384", "1000", 1+4+16*3, 8, ",0:0:0:0:"),
			circleL("-20", "400.5", "-300", 1, 14, ""),
			sliderL("50.25", "60", "1000", 2, 4, "B|70:80|90:60", 1, "60", "-", ""),
			sliderL("50", "60", "700", 6, 2, "L|150:60", 3, "90", "0|8|2|4", ",0:0|0:0|0:0|0:0,0:0:0:0:"),
			sliderL("50", "60", "1500.5", 2+4+32, 10, "P|70:80|90:60", 2, "50", "4", ""),
			spinnerL("1000", 8, 4, "3000", ",0:0:0:0:"),
			spinnerL("200", 12, 0, "450.75", ""),
			holdL("1000", 128, "5000", ""),
			circleL("1", "1", "9000", 4, 0, ",1"), // no object type bit
			circleL("2", "3", "1000", 1+2+8, 0, ",L|1:1,1,10"),
		}
		n := 4
		if th {
			n = 5
		}
		return []core.Scenario{
			{Name: "sequences", Bound: fmt.Sprintf("every sequence of %d lines out of %d (ties, early, late, negative and fractional times, all kinds)", n, len(alpha)), Body: func(x *core.X) {
				ls := make([]oline, n)
				for i := range ls {
					ls[i] = alpha[x.Choose(len(alpha))]
				}
				runObjects(x, ls)
			}},
			{Name: "type-bits", Bound: "every type value 0..255, alone and with higher bits, with fields for its kind, between two circles or ending last", Body: func(x *core.X) {
				typ := x.Choose(256) + []int{0, 256, 1280, 1 << 16, 1<<31 - 256, 1 << 40}[x.Choose(6)]
				k := x.Choose(3)
				at, end := []string{"2000", "2000", "5000"}[k], []string{"2500", "4500", "5600.7"}[k]
				var o oline
				switch {
				case typ&1 != 0:
					o = circleL("30", "40", at, typ, 6, ",0:0:0:0:")
				case typ&8 != 0:
					o = spinnerL(at, typ, 6, end, ",0:0:0:0:")
				case typ&2 != 0:
					o = sliderL("30", "40", at, typ, 6, "L|130:40", 2, "70", "1|2", "")
				case typ&128 != 0:
					o = holdL(at, typ, end, "")
				default:
					o = circleL("30", "40", at, typ, 6, ",1,2,3")
				}
				runObjects(x, []oline{alpha[0], o, circleL("1", "2", "3000", 1, 0, "")})
			}},
			{Name: "sounds", Bound: "sliders with 1..6 spans x 0..8 listed edge sounds x line sounds", Body: func(x *core.X) {
				spans := 1 + x.Choose(6)
				k := x.Choose(9)
				edge := "-"
				if k > 0 {
					var e []string
					for i := 0; i < k; i++ {
						e = append(e, strconv.Itoa([]int{0, 2, 4, 8, 14}[(i*3+spans)%5]))
					}
					edge = strings.Join(e, "|")
				}
				snd := []int{0, 2, 4, 8, 10}[x.Choose(5)]
				rest := []string{"", ",0:0|0:0", ",0:0|0:0,0:0:0:0:"}[x.Choose(3)]
				if edge == "-" && rest != "" {
					return
				}
				runObjects(x, []oline{sliderL("30", "40", "2000", 2, snd, "L|130:40", spans, "70", edge, rest)})
			}},
			{Name: "coordinates", Bound: "coordinate and time spellings", Body: func(x *core.X) {
				c := []string{"0", "256", "-64", "1.5", "511.99", "0.333", " 7 ", "+5", "1e2", "-0", "99999", "131072", "-131072", "16777217", "100.0000001"}
				tm := []string{"0", "5", "-1", "1234.5678", "2147483647", "-2147483647", " 42 ", "1e5", "99999999", "0.999"}
				px, py := c[x.Choose(len(c))], c[x.Choose(len(c))]
				if px == "16777217" || py == "16777217" {
					return
				}
				t := tm[x.Choose(len(tm))]
				kind := x.Choose(3)
				o := circleL(px, py, t, 1, 0, "")
				if kind == 1 {
					o = sliderL(px, py, t, 2, 0, "L|100:100", 1, "30", "-", "")
				} else if kind == 2 {
					o = spinnerL(t, 8, 0, tm[(len(t)*7)%len(tm)], "")
					o.x, o.y = px, py
				}
				runObjects(x, []oline{o})
			}},
			{Name: "ties", Bound: "2..80 objects whose times fall into 1..5 classes in 4 arrangements: file order kept among equals", Body: func(x *core.X) {
				n := 2 + x.Choose(79)
				k := 1 + x.Choose(5)
				arr := x.Choose(4)
				var ls []oline
				for i := 0; i < n; i++ {
					c := i % k
					switch arr {
					case 1:
						c = k - 1 - i%k
					case 2:
						c = (n - 1 - i) * k / n
					case 3:
						c = (i * i) % k
					}
					t := strconv.Itoa(c * 100)
					switch i % 4 {
					case 3:
						l := spinnerL(t, 8, 0, strconv.Itoa(c*100+50), "")
						l.x = strconv.Itoa(i)
						ls = append(ls, l)
					case 1:
						ls = append(ls, sliderL(strconv.Itoa(i), "9", t, 2, i, "L|300:9", 1, "30", "-", ""))
					default:
						ls = append(ls, circleL(strconv.Itoa(i), "7", t, 1, 0, ""))
					}
				}
				runObjects(x, ls)
			}},
			{Name: "large", Bound: "{300,513,1000,3000} objects in 5 arrangements whose times fall into 1, 2, 7, 97 or all different classes, 100, 1 and 0.25 ms apart, around 0, 5000000 and 2^24 ms", Body: func(x *core.X) {
				n := []int{300, 513, 1000, 3000}[x.Choose(4)]
				k := []int{1, 2, 7, 97, n}[x.Choose(5)]
				arr := x.Choose(5)
				step := []float64{100, 1, 0.25}[x.Choose(3)]
				off := []float64{0, 5000000, 1 << 24}[x.Choose(3)]
				ls := make([]oline, 0, n)
				for i := 0; i < n; i++ {
					c := i % k
					switch arr {
					case 1:
						c = k - 1 - i%k
					case 2:
						c = (n - 1 - i) * k / n
					case 3:
						c = i * i % k
					case 4:
						c = i * 7919 % n * k / n
					}
					t := strconv.FormatFloat(off+float64(c)*step, 'f', -1, 64)
					switch {
					case i%16 == 15:
						l := spinnerL(t, 8, 0, strconv.FormatFloat(off+float64(c)*step+50, 'f', -1, 64), "")
						l.x = strconv.Itoa(i)
						ls = append(ls, l)
					case i%16 == 6:
						ls = append(ls, sliderL(strconv.Itoa(i), "9", t, 2, i, "L|300:9", 1, "30", "-", ""))
					default:
						ls = append(ls, circleL(strconv.Itoa(i), "7", t, 1, 0, ""))
					}
				}
				runObjects(x, ls)
			}},
			{Name: "nodes", Bound: "sliders of 1..300 spans with 0, 1, 2, half, all but one, all, one more and twice as many sounds as nodes", Body: func(x *core.X) {
				n := 1 + x.Choose(300)
				k := []int{n + 1, n, n + 2, (n + 1) / 2, 2, 1, 0, 2 * n}[x.Choose(8)]
				e := make([]string, k)
				for i := range e {
					e[i] = fmt.Sprint((i*i + 3*i) % 8 * 2)
				}
				runObjects(x, []oline{alpha[0], sliderL("30", "40", "2000", 2, 4, "L|130:40", n, "70", strings.Join(e, "|"), "")})
			}},
			{Name: "huge", Bound: "33000 and 66000 objects of all kinds, in order and with every two neighbours swapped", Body: func(x *core.X) {
				n := []int{33000, 66000}[x.Choose(2)]
				swap := x.Bool()
				var ls []oline
				for i := 0; i < n; i++ {
					c := i
					if swap {
						c ^= 1
					}
					t := strconv.Itoa(1000 + c*60)
					switch {
					case i%16 == 15:
						l := spinnerL(t, 8, 0, strconv.Itoa(1050+c*60), "")
						l.x = strconv.Itoa(i % 500)
						ls = append(ls, l)
					case i%16 == 6:
						ls = append(ls, sliderL(strconv.Itoa(i%500), "9", t, 2, i%16, "L|300:9", 1, "30", "-", ""))
					default:
						ls = append(ls, circleL(strconv.Itoa(i%500), "7", t, 1, 0, ""))
					}
				}
				runObjects(x, ls)
			}},
			{Name: "length", Bound: "the map length with every kind last, at whole and fractional times", Body: func(x *core.X) {
				ts := []string{"3000", "3000.4", "3000.9", "-5", "0.5", "7000"}
				a, b := ts[x.Choose(len(ts))], ts[x.Choose(len(ts))]
				o := []oline{circleL("1", "2", a, 1, 0, ""), sliderL("1", "2", a, 2, 0, "L|100:2", 1, "90", "-", ""), spinnerL("100", 8, 0, a, ""), holdL("100", 128, a, "")}
				runObjects(x, []oline{o[x.Choose(4)], o[x.Choose(4)], circleL("5", "5", b, 1, 0, "")})
				_ = math.Pi
			}},
		}
	})

	register("C07", "one execution = one word over object kinds and new-combo flags; states are (word, automaton state) pairs", func(th bool) []core.Scenario {
		letters := []struct {
			kind ref.Kind
			typ  int
		}{{ref.Circle, 1}, {ref.Circle, 5}, {ref.Slider, 2}, {ref.Slider, 6 + 32}, {ref.Spinner, 8}, {ref.Spinner, 12}, {ref.Circle, 5 + 16*7}, {ref.Circle, 1 + 16*3},
			{ref.Circle, 5 + 16}, {ref.Circle, 5 + 32}, {ref.Circle, 5 + 48}, {ref.Slider, 6 + 64}, {ref.Circle, 5 + 80}, {ref.Slider, 6 + 96},
			{ref.Spinner, 12 + 16*3}, {ref.Spinner, 8 + 16*2}}
		wl := []int{0, 1, 2, 3, 4, 5, 6, 7, 14, 15} // the letters of the words
		nl := len(wl)
		line := func(l int, i int, t int) string {
			switch letters[l].kind {
			case ref.Slider:
				return fmt.Sprintf("%d,0,%d,%d,0,L|500:0,1,20", i%512, t, letters[l].typ)
			case ref.Spinner:
				return fmt.Sprintf("256,192,%d,%d,0,%d", t, letters[l].typ, t+50)
			}
			return fmt.Sprintf("%d,0,%d,%d,0", i%512, t, letters[l].typ)
		}
		verify := func(x *core.X, bm *beatmap.BeatMap, w []int) {
			number, set, hax, force := 1, 0, 0, false
			x.Trace(1)
			x.Assert(len(bm.HitObjects) == len(w), "%d objects for %d lines", len(bm.HitObjects), len(w))
			for i, o := range bm.HitObjects {
				l := letters[w[i]]
				fresh := false
				if l.kind == ref.Spinner {
					force = true
				} else if l.typ&4 != 0 || force {
					fresh, force = true, false
					number = 1
					set++
					hax += 1 + (l.typ >> 4 & 7)
				}
				at := fmt.Sprintf("object %d", i)
				x.Assert(comboNumber(o) == number, "%s has combo number %d, want %d", at, comboNumber(o), number)
				x.Assert(o.GetComboSet() == set, "%s is in combo set %d, want %d", at, o.GetComboSet(), set)
				x.Assert(o.GetComboSetHax() == hax, "%s has colour set %d, want %d", at, o.GetComboSetHax(), hax)
				if l.kind != ref.Spinner {
					x.Assert(o.IsNewCombo() == fresh, "%s is marked new combo = %v, want %v", at, o.IsNewCombo(), fresh)
				}
				number++
				b := 0
				if force {
					b = 1
				}
				x.State(core.NewH().I(number).I(set).I(hax).I(b).Sum())
			}
		}
		n := 5
		if th {
			n = 6
		}
		return []core.Scenario{
			{Name: "words", Bound: fmt.Sprintf("every word of length %d over 10 letters (kind x new combo x colour offset, spinners included), lines in time order and reversed", n), Body: func(x *core.X) {
				w := make([]int, n)
				for i := range w {
					w[i] = wl[x.Choose(nl)]
				}
				rev := (w[0]+w[n-1])%2 == 1
				t := base()
				t.Obj = nil
				for i := range w {
					t.Obj = append(t.Obj, line(w[i], i*90, 1000+i*100))
				}
				if rev {
					for i, j := 0, len(t.Obj)-1; i < j; i, j = i+1, j-1 {
						t.Obj[i], t.Obj[j] = t.Obj[j], t.Obj[i]
					}
				}
				x.Desc(func() string { return strings.Join(t.Obj, " / ") })
				verify(x, parse(x, t.Text()), w)
				x.Op(n)
			}},
			{Name: "early-words", Bound: "every word of 4 letters over the 10 letters, 100 ms apart from -350, -300, -100, 0 and -5000000 on (before, across and from the beginning of the song)", Body: func(x *core.X) {
				at := []int{-350, -300, -100, 0, -5000000}[x.Choose(5)]
				w := make([]int, 4)
				t := base()
				t.Obj = nil
				for i := range w {
					w[i] = wl[x.Choose(nl)]
					t.Obj = append(t.Obj, line(w[i], i*90, at+i*100))
				}
				x.Desc(func() string { return strings.Join(t.Obj, " / ") })
				verify(x, parse(x, t.Text()), w)
				x.Op(4)
			}},
			{Name: "long-words", Bound: "a de Bruijn sequence of order 4 over the 10 letters (every 4-letter word in the middle of a long map), and its reverse", Body: func(x *core.X) {
				w := deBruijn(nl, 4)
				for i := range w {
					w[i] = wl[w[i]]
				}
				if x.Bool() {
					for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
						w[i], w[j] = w[j], w[i]
					}
				}
				t := base()
				t.Obj = nil
				for i := range w {
					t.Obj = append(t.Obj, line(w[i], i*37, 1000+i*1000))
				}
				x.Op(len(w))
				verify(x, parse(x, t.Text()), w)
			}},
			{Name: "offsets", Bound: "all words of 4 new combos over the 8 colour offsets, apart by 0 or 2 plain notes, a spinner before any one of them", Body: func(x *core.X) {
				at := []int{1, 8, 9, 10, 11, 12, 13, 6}
				gap, sp := 2*x.Choose(2), x.Choose(5)
				var w []int
				for i := 0; i < 4; i++ {
					if sp == i+1 {
						w = append(w, 4)
					}
					w = append(w, at[x.Choose(8)])
					for j := 0; j < gap; j++ {
						w = append(w, 0)
					}
				}
				t := base()
				t.Obj = nil
				for i := range w {
					t.Obj = append(t.Obj, line(w[i], i*37, 1000+i*100))
				}
				x.Desc(func() string { return strings.Join(t.Obj, " / ") })
				x.Op(len(w))
				verify(x, parse(x, t.Text()), w)
			}},
			{Name: "many-sets", Bound: "maps of 1..1500 (in steps of 7) objects that all, every 2nd, 3rd or 40th start a combo, or all with the largest offset", Body: func(x *core.X) {
				n := 1 + 7*x.Choose(215)
				mode := x.Choose(5)
				w := make([]int, n)
				for i := range w {
					switch mode {
					case 0:
						w[i] = 6
					case 1:
						w[i] = 1
					case 2:
						w[i] = []int{0, 12}[i%2]
					case 3:
						w[i] = []int{2, 4, 0}[i%3]
					case 4:
						if i%40 == 39 {
							w[i] = 3
						}
					}
				}
				t := base()
				t.Obj = nil
				for i := range w {
					t.Obj = append(t.Obj, line(w[i], i*37, 1000+i*100))
				}
				x.Desc(func() string { return fmt.Sprintf("%d objects, pattern %d", n, mode) })
				x.Op(len(w))
				verify(x, parse(x, t.Text()), w)
			}},
			{Name: "long-combos", Bound: "combos of 1..200, 999, 1000, 1001, 10001, 32767..33000 and 66000 objects without and with a break at the end", Body: func(x *core.X) {
				n := 1 + x.Choose(206)
				if n > 200 {
					n = []int{999, 1000, 1001, 10001, 33000, 66000}[n-201]
				}
				w := make([]int, n)
				for i := range w {
					w[i] = []int{0, 2, 7}[i%3]
				}
				w = append(w, wl[x.Choose(nl)], 0)
				t := base()
				t.Obj = nil
				for i := range w {
					t.Obj = append(t.Obj, line(w[i], i*37, 1000+i*1000))
				}
				x.Op(len(w))
				verify(x, parse(x, t.Text()), w)
			}},
		}
	})
}
