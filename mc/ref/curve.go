package ref

import "math"

// P2 is a point in double precision.
type P2 struct{ X, Y float64 }

func (a P2) Add(b P2) P2         { return P2{a.X + b.X, a.Y + b.Y} }
func (a P2) Sub(b P2) P2         { return P2{a.X - b.X, a.Y - b.Y} }
func (a P2) Mul(f float64) P2    { return P2{a.X * f, a.Y * f} }
func (a P2) Len() float64        { return math.Hypot(a.X, a.Y) }
func (a P2) Dist(b P2) float64   { return a.Sub(b).Len() }
func (a P2) Dot(b P2) float64    { return a.X*b.X + a.Y*b.Y }
func (a P2) Angle() float64      { return math.Atan2(a.Y, a.X) }
func lerp(a, b P2, t float64) P2 { return a.Add(b.Sub(a).Mul(t)) }

// Fn is a parametrised curve on [0,1].
type Fn func(t float64) P2

// BezierFn evaluates by de Casteljau's construction.
func BezierFn(p []P2) Fn {
	return func(t float64) P2 {
		w := append([]P2{}, p...)
		for n := len(w) - 1; n > 0; n-- {
			for i := 0; i < n; i++ {
				w[i] = lerp(w[i], w[i+1], t)
			}
		}
		return w[0]
	}
}

// CatmullFn is the uniform Catmull-Rom segment from b to c, as a cubic Hermite with tangents (c-a)/2, (d-b)/2.
func CatmullFn(a, b, c, d P2) Fn {
	m0, m1 := c.Sub(a).Mul(0.5), d.Sub(b).Mul(0.5)
	return func(t float64) P2 {
		t2, t3 := t*t, t*t*t
		return b.Mul(2*t3 - 3*t2 + 1).Add(m0.Mul(t3 - 2*t2 + t)).Add(c.Mul(3*t2 - 2*t3)).Add(m1.Mul(t3 - t2))
	}
}

// ArcFn is the circle arc from a over b to c. ok is false for collinear points.
func ArcFn(a, b, c P2) (f Fn, r, angle float64, ok bool) {
	// relative to a, to keep the arithmetic well conditioned
	u, v := b.Sub(a), c.Sub(a)
	det := 2 * (u.X*v.Y - u.Y*v.X)
	if math.Abs(det) < 1e-9 {
		return nil, 0, 0, false
	}
	uu, vv := u.Dot(u), v.Dot(v)
	o := P2{(v.Y*uu - u.Y*vv) / det, (u.X*vv - v.X*uu) / det}
	r = o.Len()
	cen := a.Add(o)
	turn := func(p P2) float64 { // counter-clockwise angle from a to p
		t := p.Sub(cen).Angle() - a.Sub(cen).Angle()
		for t < 0 {
			t += 2 * math.Pi
		}
		return t
	}
	end := turn(c)
	if turn(b) > end { // b lies on the other way round
		end -= 2 * math.Pi
	}
	s := a.Sub(cen).Angle()
	return func(t float64) P2 {
		return P2{cen.X + r*math.Cos(s+end*t), cen.Y + r*math.Sin(s+end*t)}
	}, r, math.Abs(end), true
}

// ArcNoise bounds the error single-precision arithmetic on absolute coordinates makes for an arc's circle.
func ArcNoise(a, b, c P2) float64 {
	m := math.Max(a.Len(), math.Max(b.Len(), c.Len()))
	side := math.Max(a.Dist(b), math.Max(b.Dist(c), a.Dist(c)))
	u, v := b.Sub(a), c.Sub(a)
	return 4e-7 * m * m * side / math.Max(1e-9, math.Abs(u.X*v.Y-u.Y*v.X))
}

// Sample evaluates a curve at n+1 equal parameter steps.
func Sample(f Fn, n int) []P2 {
	out := make([]P2, 0, n+1)
	for i := 0; i <= n; i++ {
		out = append(out, f(float64(i)/float64(n)))
	}
	return out
}

func PolyLen(p []P2) (l float64) {
	for i := 1; i < len(p); i++ {
		l += p[i].Dist(p[i-1])
	}
	return
}

// Walk returns the point at distance d along a polyline, clamped to its ends.
func Walk(p []P2, d float64) P2 {
	if d <= 0 || len(p) == 1 {
		return p[0]
	}
	for i := 1; i < len(p); i++ {
		s := p[i].Dist(p[i-1])
		if d <= s && s > 0 {
			return lerp(p[i-1], p[i], d/s)
		}
		d -= s
	}
	return p[len(p)-1]
}

// FrechetWithin decides whether the Frechet distance of two polylines is at most eps: can both be walked from
// start to end, never going back, while staying within eps of each other? (Alt and Godau's free-space diagram.)
func FrechetWithin(a, b []P2, eps float64) bool {
	if len(a) == 1 {
		a = append(a, a[0])
	}
	if len(b) == 1 {
		b = append(b, b[0])
	}
	if a[0].Dist(b[0]) > eps || a[len(a)-1].Dist(b[len(b)-1]) > eps {
		return false
	}
	type iv struct{ lo, hi float64 }
	none := iv{1, 0}
	// free part of segment p->q around c
	free := func(c, p, q P2) iv {
		d, f := q.Sub(p), p.Sub(c)
		A, B, C := d.Dot(d), f.Dot(d), f.Dot(f)-eps*eps
		if A < 1e-18 {
			if C <= 0 {
				return iv{0, 1}
			}
			return none
		}
		D := B*B - A*C
		if D < 0 {
			return none
		}
		s := math.Sqrt(D)
		lo, hi := math.Max(0, (-B-s)/A), math.Min(1, (-B+s)/A)
		if lo > hi {
			return none
		}
		return iv{lo, hi}
	}
	n, m := len(a)-1, len(b)-1
	// L[j]: reachable part of the left edge of cell (i,j) (a at vertex i, along b_j); B: bottom edge.
	L := make([]iv, m)
	reach := true
	for j := 0; j < m; j++ {
		f := free(a[0], b[j], b[j+1])
		if reach && f.lo <= f.hi && f.lo == 0 {
			L[j] = f
			reach = f.hi == 1
		} else {
			L[j] = none
			reach = false
		}
	}
	bottomReach := true
	for i := 0; i < n; i++ {
		var bot iv
		f := free(b[0], a[i], a[i+1])
		if bottomReach && f.lo <= f.hi && f.lo == 0 {
			bot = f
			bottomReach = f.hi == 1
		} else {
			bot = none
			bottomReach = false
		}
		any := false
		for j := 0; j < m; j++ {
			right := free(a[i+1], b[j], b[j+1])
			top := free(b[j+1], a[i], a[i+1])
			lOK, bOK := L[j].lo <= L[j].hi, bot.lo <= bot.hi
			nr, nt := none, none
			if right.lo <= right.hi {
				if bOK {
					nr = right
				} else if lOK && L[j].lo <= right.hi {
					nr = iv{math.Max(right.lo, L[j].lo), right.hi}
				}
			}
			if top.lo <= top.hi {
				if lOK {
					nt = top
				} else if bOK && bot.lo <= top.hi {
					nt = iv{math.Max(top.lo, bot.lo), top.hi}
				}
			}
			if nr.lo <= nr.hi || nt.lo <= nt.hi {
				any = true
			}
			L[j] = nr
			bot = nt
		}
		if !any && !bottomReach {
			return false
		}
		if i == n-1 {
			return L[m-1].lo <= L[m-1].hi && L[m-1].hi >= 1-1e-9 || bot.lo <= bot.hi && bot.hi >= 1-1e-9
		}
	}
	return false
}

// Piece is one exact sub-curve of a slider path and the distance an approximation may keep from it.
type Piece struct {
	Pts []P2
	Tol float64
}

func steps(l float64, lo, hi int) int {
	n := int(l / 2)
	if n < lo {
		n = lo
	}
	if n > hi {
		n = hi
	}
	return n
}

// PathPieces builds the exact path of a slider: type letter and control points as given in the file.
func PathPieces(typ string, p []P2, fine int) (out []Piece) {
	line := func(p []P2) {
		for i := 1; i < len(p); i++ {
			if p[i] != p[i-1] {
				out = append(out, Piece{[]P2{p[i-1], p[i]}, 0.05})
			}
		}
	}
	bezier := func(p []P2) {
		start := 0
		for i := 0; i < len(p); i++ {
			split := i+1 < len(p)-1 && p[i] == p[i+1]
			if !split && i != len(p)-1 {
				continue
			}
			if q := p[start : i+1]; len(q) == 2 {
				line(q)
			} else if len(q) > 2 {
				d2, m := 0.0, float64(len(q)-1)
				for k := 1; k+1 < len(q); k++ {
					d2 = math.Max(d2, q[k-1].Add(q[k+1]).Sub(q[k].Mul(2)).Len())
				}
				// chords of the samples within 0.01 px of the curve, as far as the limit allows
				n := maxI(steps(PolyLen(q), 24, fine), minI(4*fine, int(math.Sqrt(m*(m-1)*d2/0.08))+1))
				// flattening by second differences of 0.5: about m/64 for the halved control polygon, the rest for its thinning
				out = append(out, Piece{Sample(BezierFn(q), n), 0.08 + 0.125*math.Floor(m/2)*math.Ceil(m/2)/(2*m)})
			}
			start = i + 1
			if split {
				i++ // a doubled point is both the end and the next start
			}
			if start == len(p) {
				break
			}
		}
	}
	switch typ {
	case "L":
		line(p)
	case "B":
		bezier(p)
	case "P":
		if len(p) > 3 {
			bezier(p)
			break
		}
		if len(p) < 3 {
			line(p)
			break
		}
		if cross := (p[1].Y-p[0].Y)*(p[2].X-p[0].X) - (p[1].X-p[0].X)*(p[2].Y-p[0].Y); math.Abs(cross) < 0.002 {
			line(p)
			break
		}
		f, r, ang, ok := ArcFn(p[0], p[1], p[2])
		if !ok {
			line(p)
			break
		}
		seg := math.Max(1, math.Floor(r*ang/8))
		half := ang / seg / 2
		tol := 2 * r
		if half < math.Pi/2 {
			tol = r * (1 - math.Cos(half))
		}
		n := maxI(steps(r*ang, 24, fine), minI(1500, int(ang/math.Sqrt(0.16/r)))) // own chords within 0.02 px
		out = append(out, Piece{Sample(f, n), tol + 0.07 + r*2e-4 + ArcNoise(p[0], p[1], p[2])})
	case "C":
		at := func(i int) P2 { return p[i] }
		for i := 0; i+1 < len(p); i++ {
			b, c := at(i), at(i+1)
			a, d := b, c.Add(c.Sub(b))
			if i > 0 {
				a = at(i - 1)
			}
			if i+2 < len(p) {
				d = at(i + 2)
			}
			out = append(out, Piece{Sample(CatmullFn(a, b, c, d), steps(3*b.Dist(c)+a.Dist(b)+c.Dist(d), 100, 2*fine)), 0.1 + 0.001*(b.Dist(c)+a.Dist(b)+c.Dist(d))})
		}
	}
	return
}

// ExactPath joins the pieces; tol is the largest piece tolerance.
func ExactPath(typ string, p []P2, fine int) (pts []P2, tol float64) {
	pts = []P2{p[0]}
	for _, pc := range PathPieces(typ, p, fine) {
		pts = append(pts, pc.Pts...)
		tol = math.Max(tol, pc.Tol)
	}
	return
}
