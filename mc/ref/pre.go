package ref

import "math"

// PObj is an object as the difficulty algorithm sees it: positions already carry the
// mod transformation and stacking.
type PObj struct {
	Kind       Kind
	Start, End float64
	P, E       V
	At         func(t float64) V // sliders: position at time
	Points     []Nested          // sliders
	Spans      int
	// filled by lazy()
	Tie      float32 // nudges the choice between two equally long last movements; 0 normally
	lazyEnd  V
	lazyDist float32
	lazyTime float64
}

// Feat are the per-object difficulty features.
type Feat struct {
	O                            *PObj
	Delta, Start, End            float64
	Jump, Move, Travel, Angle    float64
	MoveTime, TravelTime, Strain float64
	AngleLen                     float32 // length of the shorter of the two vectors the angle is between
}

const radiusN = 50.0

func (s *PObj) lazy(radius float64) {
	last := len(s.Points) - 1
	s.lazyDist = 0
	s.lazyTime = s.Points[last].Time - s.Start
	lazyTail := s.At(s.lazyTime + s.Start)
	cursor := s.P
	sf := radiusN / radius
	for i, pt := range s.Points {
		need := float64(float32(radiusN * 1.8))
		t := pt.Time
		if i == last {
			t = s.End
		} else if pt.Reverse {
			need = radiusN
		}
		mv := s.At(t).Sub(cursor)
		if i == last {
			if l := lazyTail.Sub(cursor); l.Len() < mv.Len()+s.Tie {
				mv = l
			}
		}
		dist := sf * float64(mv.Len())
		if dist > need {
			f := (dist - need) / dist
			cursor = cursor.Add(mv.Mul(float32(f)))
			s.lazyDist += float32(dist * f)
		}
	}
	s.lazyEnd = cursor
	s.lazyDist *= float32(math.Pow(1+float64(s.Spans-1)/2.5, 1/2.5))
}

func (s *PObj) cursor() V {
	if s.Kind == Slider {
		return s.lazyEnd
	}
	return s.P
}

// Features computes the features of objs[1:].
func Features(objs []*PObj, radius, rate float64) (out []*Feat) {
	for _, o := range objs {
		if o.Kind == Slider {
			o.lazy(radius)
		}
	}
	for i := 1; i < len(objs); i++ {
		cur, last := objs[i], objs[i-1]
		f := &Feat{O: cur, Delta: (cur.Start - last.Start) / rate, Start: cur.Start / rate, End: cur.End / rate, Angle: math.NaN()}
		f.Strain = math.Max(25, f.Delta)
		out = append(out, f)
		if cur.Kind == Spinner || last.Kind == Spinner {
			continue
		}
		sf := float32(50) / float32(radius)
		if radius < 30 {
			small := 30 - float32(radius)
			if small > 5 {
				small = 5
			}
			sf *= 1 + small/50
		}
		lc := last.cursor()
		f.Jump = float64(cur.P.Mul(sf).Dist(lc.Mul(sf)))
		if last.Kind == Slider {
			f.Travel = float64(last.lazyDist)
			f.TravelTime = math.Max(25, last.lazyTime/rate)
			f.MoveTime = math.Max(25, f.Strain-f.TravelTime)
			tail := last.E.Dist(cur.P) * sf
			f.Move = math.Max(0, math.Min(f.Jump-30, float64(tail-120)))
		} else {
			f.MoveTime, f.Move = f.Strain, f.Jump
		}
		if i >= 2 && objs[i-2].Kind != Spinner {
			a := objs[i-2].cursor().Sub(last.P)
			b := cur.P.Sub(lc)
			f.AngleLen = a.Len()
			if b.Len() < f.AngleLen {
				f.AngleLen = b.Len()
			}
			det := a.X*b.Y - a.Y*b.X
			f.Angle = math.Abs(float64(float32(math.Atan2(float64(det), float64(a.Dot(b))))))
		}
	}
	return
}
