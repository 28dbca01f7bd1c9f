package ref

import "math"

type Attr struct {
	Total, Aim, SliderFactor, Speed, Flashlight   float64
	Objects, Circles, Sliders, Spinners, MaxCombo int
}

type Score struct{ Combo, N300, N100, N50, Miss int }

type PP struct{ Aim, Speed, Acc, FL, Total float64 }

func base(stars float64) float64 {
	return math.Pow(5*math.Max(1, stars/0.0675)-4, 3) / 100000
}

func pnorm(xs ...float64) float64 {
	s := 0.0
	for _, x := range xs {
		s += math.Pow(x, 1.1)
	}
	return math.Pow(s, 1/1.1)
}

// PPv2 restates the November 2021 ppv2 formulas. od/ar are the real (rate-adjusted) values.
// bias nudges the rounding of the estimated number of slider breaks and is 0 normally.
func PPv2(a Attr, s Score, mods uint64, ar, od, bias float64) (r PP) {
	has := func(b uint64) bool { return mods&b != 0 }
	maxCombo := maxI(1, a.MaxCombo)
	combo := s.Combo
	if combo < 0 {
		combo = maxCombo
	}
	n300 := s.N300
	if n300 < 0 {
		n300 = a.Objects - s.N100 - s.N50 - s.Miss
	}
	hits := n300 + s.N100 + s.N50 + s.Miss
	fh := float64(hits)

	acc := 0.0
	if hits != 0 {
		acc = clamp(float64(50*s.N50+100*s.N100+300*n300)/float64(300*hits), 0, 1)
	}

	// misses including estimated slider breaks
	broken := 0.0
	if a.Sliders > 0 {
		full := float64(maxCombo) - 0.1*float64(a.Sliders)
		cb := bias
		if a.Sliders%10 == 0 {
			cb = 0 // a whole number: nothing to round
		}
		if float64(combo) < full+cb {
			broken = full / math.Max(1, float64(combo))
		}
	}
	broken = math.Min(broken, fh)
	miss := maxI(s.Miss, int(math.Floor(broken+bias)))

	mult := 1.12
	if has(NF) {
		mult *= math.Max(0.9, 1-0.02*float64(miss))
	}
	if has(SO) && hits > 0 {
		mult *= 1 - math.Pow(float64(a.Spinners)/fh, 0.85)
	}
	if has(RX) {
		miss = minI(miss+s.N100+s.N50, hits)
		mult *= 0.6
	}
	fm := float64(miss)

	length := 0.95 + 0.4*math.Min(1, fh/2000)
	if hits > 2000 {
		length += 0.5 * math.Log10(fh/2000)
	}
	missPenalty := func(exp float64) float64 {
		if miss <= 0 {
			return 1
		}
		return 0.97 * math.Pow(1-math.Pow(fm/fh, 0.775), math.Pow(fm, exp))
	}
	comboScale := math.Min(math.Pow(float64(combo), 0.8)/math.Pow(float64(maxCombo), 0.8), 1)
	highAR := 0.0
	if ar > 10.33 {
		highAR = 0.3 * (ar - 10.33)
	}
	lowAR := 0.0
	if ar < 8 {
		lowAR = 0.1 * (8 - ar)
	}
	hidden := 1.0
	if has(HD) {
		hidden = 1 + 0.04*(12-ar)
	}

	// aim
	aim := a.Aim
	if has(TD) {
		aim = math.Pow(aim, 0.8)
	}
	r.Aim = base(aim) * length * missPenalty(1) * comboScale * (1 + (highAR+lowAR)*length) * hidden
	if a.Sliders > 0 {
		hard := 0.15 * float64(a.Sliders)
		dropped := clamp(float64(minI(s.N100+s.N50+s.Miss, maxCombo-combo)), 0, hard)
		r.Aim *= (1-a.SliderFactor)*math.Pow(1-dropped/hard, 3) + a.SliderFactor
	}
	r.Aim *= acc * (0.98 + od*od/2500)

	// speed
	r.Speed = base(a.Speed) * length * missPenalty(0.875) * comboScale * (1 + highAR*length) * hidden
	r.Speed *= (0.95 + od*od/750) * math.Pow(acc, (14.5-math.Max(od, 8))/2)
	if extra := float64(s.N50) - fh/500; extra >= 0 {
		r.Speed *= math.Pow(0.98, extra)
	}

	// accuracy
	if !has(RX) {
		judged := a.Circles
		if has(V2) {
			judged = a.Objects
		}
		p := 0.0
		if judged > 0 {
			p = math.Max(0, float64(6*(n300-(hits-judged))+2*s.N100+s.N50)/float64(6*judged))
		}
		r.Acc = math.Pow(1.52163, od) * math.Pow(p, 24) * 2.83 * math.Min(1.15, math.Pow(float64(judged)/1000, 0.3))
		if has(HD) {
			r.Acc *= 1.08
		}
		if has(FL) {
			r.Acc *= 1.02
		}
	}

	// flashlight
	if has(FL) {
		fl := a.Flashlight
		if has(TD) {
			fl = math.Pow(fl, 0.8)
		}
		v := 25 * fl * fl
		if has(HD) {
			v *= 1.3
		}
		v *= missPenalty(0.875) * comboScale
		scale := 0.7 + 0.1*math.Min(1, fh/200)
		if hits > 200 {
			scale += 0.2 * math.Min(1, (fh-200)/200)
		}
		r.FL = v * scale * (0.5 + acc/2) * (0.98 + od*od/2500)
	}
	r.Total = pnorm(r.Aim, r.Speed, r.Acc, r.FL) * mult
	return
}
