package main

import (
	"fmt"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"

	"vmc/core"
	"vmc/ref"
)

// ol is an object letter: a shape at a place; dt is the time since the previous object.
type ol struct {
	kind   ref.Kind
	x, y   float64
	path   string // sliders
	length float64
	spans  int
	dur    float64 // spinners
}

func (l ol) line(t float64) string {
	switch l.kind {
	case ref.Slider:
		return sliderLine(l.x, l.y, t, l.path, l.spans, l.length)
	case ref.Spinner:
		return fmt.Sprintf("256,192,%s,8,0,%s", f64(t), f64(t+l.dur))
	}
	return fmt.Sprintf("%v,%v,%s,1,0", l.x, l.y, f64(t))
}

func (l ol) String() string {
	switch l.kind {
	case ref.Slider:
		return fmt.Sprintf("slider(%v,%v %s x%d %vpx)", l.x, l.y, l.path, l.spans, l.length)
	case ref.Spinner:
		return "spinner"
	}
	return fmt.Sprintf("circle(%v,%v)", l.x, l.y)
}

func cir(x, y float64) ol { return ol{kind: ref.Circle, x: x, y: y} }
func sli(x, y float64, path string, spans int, length float64) ol {
	return ol{kind: ref.Slider, x: x, y: y, path: path, spans: spans, length: length}
}

var spi = ol{kind: ref.Spinner, dur: 300}

type placed struct {
	l     ol
	t     float64
	stack int
}

// build makes timed (and artificially stacked) objects through the public API.
func build(ps []placed, sm, tr float64, tps [][2]float64, d *difficulty.Difficulty) []objects.IHitObject {
	tm := mkTimings(sm, tr, tps...)
	var out []objects.IHitObject
	for i, p := range ps {
		o := mkObj(p.l.line(p.t))
		o.SetTiming(tm)
		o.SetID(i)
		if p.stack != 0 && p.l.kind != ref.Spinner {
			for _, m := range obsMods {
				o.SetStackIndex(p.stack, m)
				o.SetStackOffset(float32(-float64(p.stack)*d.CircleRadius/10), m)
			}
		}
		out = append(out, o)
	}
	return out
}

func showPlaced(ps []placed) string {
	var s []string
	for _, p := range ps {
		t := fmt.Sprintf("%v@%v", p.l, p.t)
		if p.stack != 0 {
			t += fmt.Sprintf("^%d", p.stack)
		}
		s = append(s, t)
	}
	return strings.Join(s, " ")
}

func showDiff(d *difficulty.Difficulty) string {
	return fmt.Sprintf("CS %v OD %v AR %v mods %q speed %v", d.GetCS(), d.GetOD(), d.GetAR(), ref.String(uint64(d.Mods)), d.CustomSpeed)
}

func hashPlaced(ps []placed, d *difficulty.Difficulty) uint64 {
	h := core.NewH().U(uint64(d.Mods)).F(d.GetCS()).F(d.GetOD()).F(d.CustomSpeed)
	for _, p := range ps {
		h = h.I(int(p.l.kind)).F(p.l.x).F(p.l.y).S(p.l.path).F(p.l.length).I(p.l.spans).F(p.t).I(p.stack)
	}
	return h.Sum()
}

// sliderLine builds a slider line.
func sliderLine(x, y float64, t float64, path string, spans int, length float64) string {
	return fmt.Sprintf("%v,%v,%v,2,0,%s,%d,%s", x, y, f64(t), path, spans, f64(length))
}

func refTiming(sm, tr float64, pts ...[2]float64) *ref.Timing {
	var in []ref.TP
	for _, p := range pts {
		in = append(in, ref.TP{Time: p[0], BeatLen: p[1], Inh: p[1] < 0, Index: 1, Vol: 1, Sig: 4})
	}
	return ref.NewTiming(in, sm, tr)
}
