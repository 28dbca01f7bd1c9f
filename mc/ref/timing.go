package ref

import "math"

type TP struct {
	Time, BeatLen    float64
	Set, Index       int
	Vol              float64
	Sig              int
	Inh, Kiai, OmitF bool
	Base             float64 // resolved beat length of the governing uninherited point
}

type Timing struct {
	SM, TR float64
	All    []TP // in force order
	Orig   []TP
}

// NewTiming orders the points by time (file order among equals) and resolves inheritance.
func NewTiming(in []TP, sm, tr float64) *Timing {
	t := &Timing{SM: sm, TR: tr}
	for _, p := range in { // insertion sort
		i := len(t.All)
		for i > 0 && t.All[i-1].Time > p.Time {
			i--
		}
		t.All = append(t.All, TP{})
		copy(t.All[i+1:], t.All[i:])
		t.All[i] = p
	}
	for i := range t.All {
		j := i
		for j > 0 && t.All[j].Inh {
			j--
		}
		t.All[i].Base = t.All[j].BeatLen
		if !t.All[i].Inh || i == 0 {
			t.Orig = append(t.Orig, t.All[i])
		}
	}
	return t
}

func at(ps []TP, time float64) TP {
	best := 0
	for i, p := range ps {
		if p.Time <= time {
			best = i
		}
	}
	return ps[best]
}

func (t *Timing) At(time float64) TP     { return at(t.All, time) }
func (t *Timing) OrigAt(time float64) TP { return at(t.Orig, time) }

// Ratio is the slider slowdown factor of a point (1 = normal).
func (p TP) Ratio() float64 {
	if p.BeatLen >= 0 || math.IsNaN(p.BeatLen) {
		return 1
	}
	return clamp(-p.BeatLen, 10, 1000) / 100
}

func (p TP) Effective() float64 { return p.Base * p.Ratio() }

// Velocity in osu! pixels per second.
func (t *Timing) Velocity(p TP) float64 {
	v := 100 * t.SM
	if e := p.Effective(); e >= 0 {
		v *= 1000 / e
	}
	return v
}

func (t *Timing) TickDistance(p TP) float64 { return 100 * t.SM / t.TR / p.Ratio() }

type Nested struct {
	Time    float64
	Reverse bool
}

// SliderPoints gives the end time and the scoring points of a slider whose path has
// length L. bias nudges the last-tick cut-off and is 0 except when probing rounding.
func (t *Timing) SliderPoints(start, L float64, spans int, bias float64) (end float64, pts []Nested) {
	p := t.At(start)
	v := t.Velocity(p)
	span := L * 1000 / v
	end = start + L*1000*float64(spans)/v
	var ticks []float64
	if td := t.TickDistance(p); td > 0 && !math.IsNaN(p.BeatLen) {
		for k := 1; ; k++ {
			d := float64(k) * td
			if d > L || d >= L-v*0.01+bias {
				break
			}
			ticks = append(ticks, d/L)
		}
	}
	for s := 0; s < spans; s++ {
		s0 := start + float64(s)*span
		for _, f := range ticks {
			if s%2 == 1 {
				f = 1 - f
			}
			pts = append(pts, Nested{Time: s0 + f*span})
		}
		if s+1 < spans {
			pts = append(pts, Nested{s0 + span, true})
		}
	}
	pts = append(pts, Nested{Time: math.Max(start+(end-start)/2, end-36)})
	// stable insertion sort by time
	for i := 1; i < len(pts); i++ {
		for j := i; j > 0 && pts[j].Time < pts[j-1].Time; j-- {
			pts[j], pts[j-1] = pts[j-1], pts[j]
		}
	}
	return
}
