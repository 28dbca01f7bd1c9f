package ref

// Settings is everything the derived difficulty values may depend on.
type Settings struct {
	HP, CS, OD, AR float64
	Mods           uint64
	Custom         float64 // custom speed, 1 normally
}

type Derived struct {
	HP, Radius, Preempt, H50, H100, H300, Spin, Rate, ARReal, ODReal float64
}

func (s Settings) Rate() float64 {
	switch {
	case s.Mods&DT != 0:
		return 1.5 * s.Custom
	case s.Mods&HT != 0:
		return 0.75 * s.Custom
	}
	return s.Custom
}

// rangeOf maps 0..5..10 piecewise-linearly to a..b..c.
func rangeOf(v, a, b, c float64) float64 {
	if v > 5 {
		return b + (c-b)*(v-5)/5
	}
	return b - (b-a)*(5-v)/5
}

// unrange is the inverse of rangeOf, extrapolated.
func unrange(x, a, b, c float64) float64 {
	if x > b {
		return 5 - (x-b)*5/(a-b)
	}
	return 5 + (b-x)*5/(b-c)
}

func Derive(s Settings) (d Derived) {
	hp, cs, od, ar := s.HP, s.CS, s.OD, s.AR
	up := func(v, f float64) float64 {
		if v*f > 10 {
			return 10
		}
		return v * f
	}
	if s.Mods&HR != 0 {
		hp, cs, od, ar = up(hp, 1.4), up(cs, 1.3), up(od, 1.4), up(ar, 1.4)
	}
	if s.Mods&EZ != 0 {
		hp, cs, od, ar = hp/2, cs/2, od/2, ar/2
	}
	d.HP = hp
	d.Radius = rangeOf(cs, 54.4, 32, 9.6)
	d.Preempt = rangeOf(ar, 1800, 1200, 450)
	d.H50 = rangeOf(od, 200, 150, 100)
	d.H100 = rangeOf(od, 140, 100, 60)
	d.H300 = rangeOf(od, 80, 50, 20)
	d.Spin = rangeOf(od, 3, 5, 7.5)
	d.Rate = s.Rate()
	d.ARReal = unrange(d.Preempt/d.Rate, 1800, 1200, 450)
	d.ODReal = unrange(d.H300/d.Rate, 80, 50, 20)
	return
}
