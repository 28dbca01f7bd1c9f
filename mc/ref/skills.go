package ref

import (
	"math"
	"sort"
)

// Bias nudges the rounding-sensitive comparisons of the strain models; 0 normally. Its three
// ternary digits nudge section ends, aim rhythm changes and speed rhythm changes.
type Bias int

// AllBiases is every combination of nudges, starting with none.
var AllBiases = func() (b []Bias) {
	for i := Bias(0); i < 27; i++ {
		b = append(b, i)
	}
	return
}()

const (
	sectionB = 1
	aimB     = 3
	rhythmB  = 9
)

func (b Bias) eps(which Bias) float64 { return []float64{0, 1e-10, -1e-10}[b/which%3] }

func (b Bias) lt(which Bias, x, y float64) bool {
	return x < y+b.eps(which)*(1+math.Abs(y))
}
func (b Bias) gt(which Bias, x, y float64) bool { return b.lt(which, y, x) }

type skillKind int

const (
	AimS skillKind = iota
	AimNoSliders
	SpeedS
	FlashS
)

type params struct {
	mul, decay, weight, diffMul float64
	history, reduced            int
}

var skillParams = map[skillKind]params{
	AimS:         {23.25, 0.15, 0.9, 1.06, 2, 10},
	AimNoSliders: {23.25, 0.15, 0.9, 1.06, 2, 10},
	SpeedS:       {1375, 0.3, 0.9, 1.04, 32, 5},
	FlashS:       {0.15, 0.15, 1, 1.06, 10, 10},
}

type Skill struct {
	kind   skillKind
	p      params
	seen   []*Feat // all features so far
	radius float64
	great  float64 // rate-adjusted 300 window (one side)
	Strain float64
	Rhythm float64
	peak   float64
	end    float64
	peaks  []float64
	bias   Bias
}

func NewSkill(kind skillKind, radius, great float64, bias Bias) *Skill {
	return &Skill{kind: kind, p: skillParams[kind], radius: radius, great: great, bias: bias}
}

func (s *Skill) dec(ms float64) float64 { return math.Pow(s.p.decay, ms/1000) }

// hist returns the i-th most recent remembered feature (0 = previous), nil if forgotten.
func (s *Skill) histLen() int { return minI(len(s.seen), s.p.history+1) }

// histLenTrim is the number of remembered objects while processing: history is trimmed
// before an object is processed.
func (s *Skill) remembered() int {
	if len(s.seen) > s.p.history {
		return s.p.history
	}
	return len(s.seen)
}

func (s *Skill) prev(i int) *Feat {
	if i < 0 || i >= s.remembered() {
		return nil
	}
	return s.seen[len(s.seen)-1-i]
}

func (s *Skill) Add(f *Feat) {
	if len(s.seen) == 0 {
		s.end = math.Ceil(f.Start/400+s.bias.eps(sectionB)) * 400
	}
	for s.bias.gt(sectionB, f.Start, s.end) {
		s.peaks = append(s.peaks, s.peak)
		carry := s.Strain
		if s.kind == SpeedS {
			carry *= s.Rhythm
		}
		s.peak = carry * s.dec(s.end-s.seen[len(s.seen)-1].Start)
		s.end += 400
	}
	s.Strain *= s.dec(f.Delta)
	switch s.kind {
	case AimS:
		s.Strain += s.aim(f, true) * s.p.mul
	case AimNoSliders:
		s.Strain += s.aim(f, false) * s.p.mul
	case SpeedS:
		s.Strain += s.speed(f) * s.p.mul
	case FlashS:
		s.Strain += s.flash(f) * s.p.mul
	}
	v := s.Strain
	if s.kind == SpeedS {
		s.Rhythm = s.rhythm(f)
		v *= s.Rhythm
	}
	s.peak = math.Max(s.peak, v)
	s.seen = append(s.seen, f)
}

func (s *Skill) Peaks() []float64 {
	return append(append([]float64{}, s.peaks...), s.peak)
}

func (s *Skill) Value() float64 {
	ps := s.Peaks()
	sort.Sort(sort.Reverse(sort.Float64Slice(ps)))
	for i := 0; i < minI(len(ps), s.p.reduced); i++ {
		t := math.Log10(1 + 9*float64(i)/float64(s.p.reduced))
		ps[i] *= 0.75 + 0.25*t
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(ps)))
	sum, w := 0.0, 1.0
	for _, p := range ps {
		sum += p * w
		w *= s.p.weight
	}
	return sum * s.p.diffMul
}

func sinSq(x float64) float64 { v := math.Sin(x); return v * v }

func wide(a float64) float64 {
	return sinSq(3.0 / 4 * (clamp(a, math.Pi/6, 5*math.Pi/6) - math.Pi/6))
}
func acute(a float64) float64 { return 1 - wide(a) }

func (s *Skill) aim(f *Feat, sliders bool) float64 {
	p, pp := s.prev(0), s.prev(1)
	if f.O.Kind == Spinner || p == nil || pp == nil || p.O.Kind == Spinner {
		return 0
	}
	vel := func(x, before *Feat) float64 {
		v := x.Jump / x.Strain
		if sliders && before.O.Kind == Slider {
			v = math.Max(v, x.Move/x.MoveTime+x.Travel/x.TravelTime)
		}
		return v
	}
	cv, pv := vel(f, p), vel(p, pp)
	strain := cv
	minT, maxT := math.Min(f.Strain, p.Strain), math.Max(f.Strain, p.Strain)
	var wb, ab, vb float64
	if s.bias.lt(aimB, maxT, 1.25*minT) && !math.IsNaN(f.Angle) && !math.IsNaN(p.Angle) && !math.IsNaN(pp.Angle) {
		both := math.Min(cv, pv)
		wb, ab = wide(f.Angle), acute(f.Angle)
		if f.Strain > 100 {
			ab = 0
		} else {
			ab *= acute(p.Angle) * math.Min(both, 125/f.Strain) *
				sinSq(math.Pi/2*math.Min(1, (100-f.Strain)/25)) *
				sinSq(math.Pi/2*(clamp(f.Jump, 50, 100)-50)/50)
		}
		w := wide(p.Angle)
		wb *= both * (1 - math.Min(wb, w*w*w))
		a := acute(pp.Angle)
		ab *= 0.5 + 0.5*(1-math.Min(ab, a*a*a))
	}
	if math.Max(pv, cv) != 0 {
		pv2, cv2 := (p.Jump+p.Travel)/p.Strain, (f.Jump+f.Travel)/f.Strain
		d := math.Abs(pv2 - cv2)
		ratio := sinSq(math.Pi / 2 * d / math.Max(pv2, cv2))
		over := math.Min(125/minT, d)
		non := d * sinSq(math.Pi/2*math.Min(1, math.Min(f.Jump, p.Jump)/100))
		vb = math.Max(over, non) * ratio * (minT / maxT) * (minT / maxT)
	}
	strain += math.Max(ab*2, wb*1.5+vb*0.75)
	if sliders && f.TravelTime != 0 {
		strain += 1.5 * f.Travel / f.TravelTime
	}
	return strain
}

func (s *Skill) speed(f *Feat) float64 {
	if f.O.Kind == Spinner {
		return 0
	}
	dist := math.Min(125, f.Travel+f.Jump)
	window := s.great * 2
	t := f.Strain
	ratio := t / window
	if p := s.prev(0); p != nil && t < window && p.Strain > t {
		t = p.Strain + (t-p.Strain)*ratio
	}
	t /= clamp(t/window/0.93, 0.92, 1)
	bonus := 1.0
	if t < 75 {
		bonus += 0.75 * math.Pow((75-t)/40, 2)
	}
	return bonus * (1 + math.Pow(dist/125, 3.5)) / t
}

func (s *Skill) rhythm(f *Feat) float64 {
	if f.O.Kind == Spinner {
		return 0
	}
	n := s.remembered()
	var sum, start float64
	prevIsland, island := 0, 1
	counting := false
	for i := n - 2; i > 0; i-- {
		c, p, l := s.prev(i-1), s.prev(i), s.prev(i+1)
		w := math.Max(0, 5000-(f.Start-c.Start)) / 5000
		if w == 0 {
			continue
		}
		w = math.Min(float64(n-i)/float64(n), w)
		lo, hi := math.Min(c.Strain, p.Strain), math.Max(c.Strain, p.Strain)
		pen := math.Min(1, math.Max(0, hi-lo-0.6*s.great)/(0.6*s.great))
		eff := pen * (1 + 6*math.Min(0.5, sinSq(math.Pi/(lo/hi))))
		faster := s.bias.gt(rhythmB, p.Strain, 1.25*c.Strain)
		slower := s.bias.lt(rhythmB, p.Strain*1.25, c.Strain)
		if !counting {
			if faster {
				counting, start, island = true, eff, 1
			}
			continue
		}
		if !faster && !slower {
			if island < 7 {
				island++
			}
			continue
		}
		if c.O.Kind == Slider {
			eff *= 0.125
		}
		if p.O.Kind == Slider {
			eff *= 0.25
		}
		if prevIsland == island {
			eff *= 0.25
		}
		if prevIsland%2 == island%2 {
			eff *= 0.5
		}
		if s.bias.gt(rhythmB, l.Strain, p.Strain+10) && s.bias.gt(rhythmB, p.Strain, c.Strain+10) {
			eff *= 0.125
		}
		sum += math.Sqrt(eff*start) * w * math.Sqrt(4+float64(island)) / 2 * math.Sqrt(4+float64(prevIsland)) / 2
		start = eff
		prevIsland = island
		if slower {
			counting = false
		}
		island = 1
	}
	return math.Sqrt(4+0.75*sum) / 2
}

func (s *Skill) flash(f *Feat) float64 {
	if f.O.Kind == Spinner {
		return 0
	}
	sf := 52 / s.radius
	small, total, res := 1.0, 0.0, 0.0
	for i := 0; i < s.remembered(); i++ {
		p := s.prev(i)
		if p.O.Kind == Spinner {
			continue
		}
		jump := float64(f.O.P.Dist(p.O.E))
		total += p.Strain
		if i == 0 {
			small = math.Min(1, jump/75)
		}
		stack := math.Min(1, p.Jump/sf/25)
		res += math.Pow(0.8, float64(i)) * stack * sf * jump / total
	}
	return (small * res) * (small * res)
}

// Stars combines raw skill values.
func Stars(aim, aimNS, speed, flash float64, mods uint64) (a Attr) {
	const sc = 0.0675
	a.Aim, a.Speed, a.Flashlight = math.Sqrt(aim)*sc, math.Sqrt(speed)*sc, math.Sqrt(flash)*sc
	a.SliderFactor = 1
	if a.Aim > 0.00001 {
		a.SliderFactor = math.Sqrt(aimNS) * sc / a.Aim
	}
	if mods&RX != 0 {
		a.Speed = 0
	}
	fl := 0.0
	if mods&FL != 0 {
		fl = a.Flashlight * a.Flashlight * 25
	}
	if b := pnorm(base(a.Aim), base(a.Speed), fl); b > 0.00001 {
		a.Total = math.Cbrt(1.12) * 0.027 * (math.Cbrt(100000/math.Pow(2, 1/1.1)*b) + 4)
	}
	return
}

type Result struct {
	Steps                    []Attr // one per object
	PA, PS, PF, PT           []float64
	Aim, AimNS, Speed, Flash *Skill
	Feats                    []*Feat
}

// Rate runs the whole star-rating model. Counts are taken from the objects.
func Rate(objs []*PObj, radius, h300, rate float64, mods uint64, bias Bias, steps bool) *Result {
	r := &Result{}
	great := h300 / rate
	r.Aim, r.AimNS = NewSkill(AimS, radius, great, bias), NewSkill(AimNoSliders, radius, great, bias)
	r.Speed = NewSkill(SpeedS, radius, great, bias)
	if mods&FL != 0 {
		r.Flash = NewSkill(FlashS, radius, great, bias)
	}
	r.Feats = Features(objs, radius, rate)
	var cnt Attr
	add := func(o *PObj) {
		cnt.Objects++
		cnt.MaxCombo++
		switch o.Kind {
		case Circle:
			cnt.Circles++
		case Slider:
			cnt.Sliders++
			cnt.MaxCombo += len(o.Points)
		case Spinner:
			cnt.Spinners++
		}
	}
	emit := func() {
		fl := 0.0
		if r.Flash != nil {
			fl = r.Flash.Value()
		}
		a := Stars(r.Aim.Value(), r.AimNS.Value(), r.Speed.Value(), fl, mods)
		a.Objects, a.Circles, a.Sliders, a.Spinners, a.MaxCombo = cnt.Objects, cnt.Circles, cnt.Sliders, cnt.Spinners, cnt.MaxCombo
		r.Steps = append(r.Steps, a)
	}
	for i, o := range objs {
		add(o)
		if i > 0 {
			f := r.Feats[i-1]
			r.Aim.Add(f)
			r.AimNS.Add(f)
			r.Speed.Add(f)
			if r.Flash != nil {
				r.Flash.Add(f)
			}
		}
		if steps || i == len(objs)-1 {
			emit()
		}
	}
	if len(objs) > 0 {
		r.PA, r.PS = r.Aim.Peaks(), r.Speed.Peaks()
		if r.Flash != nil {
			r.PF = r.Flash.Peaks()
		}
		for i := range r.PA {
			fl := 0.0
			if r.Flash != nil {
				fl = r.PF[i]
			}
			r.PT = append(r.PT, Stars(r.PA[i], r.PA[i], r.PS[i], fl, mods).Total)
		}
	}
	return r
}
