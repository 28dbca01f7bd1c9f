package ref

import "math"

type SObj struct {
	Kind       Kind
	Start, End float64
	P, E       V // start and end position (unstacked)
}

// StackHeights restates osu!'s stacking. version is the file format version.
func StackHeights(objs []SObj, version int, preempt, leniency float64) []int {
	h := make([]int, len(objs))
	win := math.Floor(preempt * leniency)
	near := func(a, b V) bool { return a.Dist(b) < 3 }
	if version >= 6 {
		for i := len(objs) - 1; i > 0; i-- {
			if h[i] != 0 || objs[i].Kind == Spinner {
				continue
			}
			cur := i
			if objs[i].Kind == Circle {
				for n := i - 1; n >= 0; n-- {
					o := objs[n]
					if o.Kind == Spinner {
						continue
					}
					if objs[cur].Start-o.End > win {
						break
					}
					if o.Kind == Slider && near(o.E, objs[cur].P) {
						off := h[cur] - h[n] + 1
						for j := n + 1; j <= i; j++ {
							if near(o.E, objs[j].P) {
								h[j] -= off
							}
						}
						break
					}
					if near(o.P, objs[cur].P) {
						h[n] = h[cur] + 1
						cur = n
					}
				}
			} else {
				for n := i - 1; n >= 0; n-- {
					o := objs[n]
					if o.Kind == Spinner {
						continue
					}
					if objs[cur].Start-o.Start > win {
						break
					}
					if near(o.E, objs[cur].P) {
						h[n] = h[cur] + 1
						cur = n
					}
				}
			}
		}
	} else {
		for i := range objs {
			if h[i] != 0 && objs[i].Kind != Slider {
				continue
			}
			until := objs[i].End
			under := 0
			for n := i + 1; n < len(objs); n++ {
				if objs[n].Start-win > until {
					break
				}
				if near(objs[n].P, objs[i].P) {
					h[i]++
					until = objs[n].End
				} else if near(objs[n].P, objs[i].E) {
					under++
					h[n] -= under
					until = objs[n].End
				}
			}
		}
	}
	for i := range objs {
		if objs[i].Kind == Spinner {
			h[i] = 0
		}
	}
	return h
}
