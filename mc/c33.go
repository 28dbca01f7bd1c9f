package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/math/math32"
	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"

	"vmc/core"
)

func near32(g float32, w, scale float64) bool {
	if math.IsNaN(w) || math.IsInf(w, 0) {
		return math.IsNaN(w) && g != g || float64(g) == w
	}
	return math.Abs(float64(g)-w) <= 4e-7*math.Max(math.Abs(w), scale)+1e-30
}

func init() {
	register("C33", "one execution = one pair of vectors (or numbers); every operation on them is compared with double-precision plane geometry", func(th bool) []core.Scenario {
		vals := []float32{0, 1, -1, 0.5, -3, 0.001, -0.004, 100, -256.25, 511.9, 12345.678}
		if th {
			vals = append(vals, 3, -0.5, 1e-6, 384, 1e6, -77.7)
		}
		is := func(x *core.X, what string, g float32, w, scale float64) {
			x.Op(1)
			x.Trace(1)
			x.Assert(near32(g, w, scale), "%s is %v, want %v", what, g, w)
		}
		ang := func(x *core.X, what string, g float32, w float64) {
			x.Op(1)
			x.Trace(1)
			x.Assert(math.Abs(math.Remainder(float64(g)-w, 2*math.Pi)) <= 1e-6, "%s is %v, want %v", what, g, w)
		}
		vec := func(x *core.X, what string, g vector.Vector2f, wx, wy, scale float64) {
			x.Op(1)
			x.Trace(1)
			x.Assert(near32(g.X, wx, scale) && near32(g.Y, wy, scale), "%s is %v, want %vx%v", what, g, wx, wy)
		}
		return []core.Scenario{
			{Name: "pairs", Bound: fmt.Sprintf("all pairs of vectors with coordinates out of %v x every vector operation x 9 interpolation parameters and scales x 25 rotations", vals), Body: func(x *core.X) {
				n := len(vals)
				a := vector.NewVec2f(vals[x.Choose(n)], vals[x.Choose(n)])
				b := vector.NewVec2f(vals[x.Choose(n)], vals[x.Choose(n)])
				ax, ay, bx, by := float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)
				a0, b0 := a, b
				x.Desc(func() string { return fmt.Sprintf("a = %v %v, b = %v %v", ax, ay, bx, by) })
				x.State(core.NewH().F(ax).F(ay).F(bx).F(by).Sum())
				m := math.Max(math.Max(math.Abs(ax), math.Abs(ay)), math.Max(math.Abs(bx), math.Abs(by)))
				vec(x, "a+b", a.Add(b), ax+bx, ay+by, m)
				vec(x, "a+(bx,by)", a.AddS(b.X, b.Y), ax+bx, ay+by, m)
				vec(x, "a-b", a.Sub(b), ax-bx, ay-by, m)
				vec(x, "a-(bx,by)", a.SubS(b.X, b.Y), ax-bx, ay-by, m)
				vec(x, "the product by coordinates", a.Mult(b), ax*bx, ay*by, 0)
				vec(x, "the middle", a.Mid(b), (ax+bx)/2, (ay+by)/2, m)
				is(x, "the dot product", a.Dot(b), ax*bx+ay*by, 2*m*m)
				d := math.Hypot(ax-bx, ay-by)
				is(x, "the distance", a.Dst(b), d, m)
				is(x, "the squared distance", a.DstSq(b), d*d, 4*m*m)
				l := math.Hypot(ax, ay)
				is(x, "the length", a.Len(), l, 0)
				is(x, "the squared length", a.LenSq(), l*l, 0)
				vec(x, "the absolute value", a.Abs(), math.Abs(ax), math.Abs(ay), 0)
				vec(x, "the copy", a.Copy(), ax, ay, 0)
				x.Assert(a.X64() == ax && a.Y64() == ay, "coordinates %v %v", a.X64(), a.Y64())
				if l > 0 {
					ang(x, "the angle", a.AngleR(), math.Atan2(ay, ax))
					is(x, "the angle in degrees", a.Angle(), math.Atan2(ay, ax)*180/math.Pi, 180)
				}
				if d > 0 && (d > 1e-3*m) {
					x.Assert(math.Abs(math.Remainder(float64(a.AngleRV(b))-math.Atan2(ay-by, ax-bx), 2*math.Pi)) < 1e-4, "the angle from b to a is %v, want %v", a.AngleRV(b), math.Atan2(ay-by, ax-bx))
				}
				if l > 0.0033 {
					vec(x, "the normalised vector", a.Nor(), ax/l, ay/l, 1)
				} else if l < 0.0031 {
					vec(x, "the normalised short vector (unchanged)", a.Nor(), ax, ay, 0)
				}
				for _, t := range []float32{0, 1, 0.5, 0.25, 0.9, -1, 2, 1e-3, 0.3333} {
					tt := float64(t)
					s := m * math.Max(1, math.Abs(tt)) * 2
					vec(x, fmt.Sprintf("the point at %v between a and b", t), a.Lerp(b, t), ax+(bx-ax)*tt, ay+(by-ay)*tt, s)
					vec(x, fmt.Sprintf("a times %v", t), a.Scl(t), ax*tt, ay*tt, 0)
				}
				for k := -12; k <= 12; k++ {
					r := float64(k) * math.Pi / 6
					c, s := math.Cos(r), math.Sin(r)
					vec(x, fmt.Sprintf("a turned by %v", r), a.Rotate(float32(r)), ax*c-ay*s, ax*s+ay*c, 4*l)
				}
				x.Assert(a == a0 && b == b0, "an operand was modified")
			}},
			{Name: "polar", Bound: "145 angles x 9 lengths", Body: func(x *core.X) {
				r := float64(x.Choose(145)-72) * math.Pi / 36
				l := []float64{0, 1, -1, 0.5, 10, 99.5, 512, 1e5, 1e-3}[x.Choose(9)]
				x.State(core.NewH().F(r).F(l).Sum())
				vec(x, "the vector of that angle and length", vector.NewVec2fRad(float32(r), float32(l)), l*math.Cos(r), l*math.Sin(r), 4*math.Abs(l))
			}},
			{Name: "straight", Bound: "all triples of points of a 7x7 lattice x 7 scales: straight or not, and the angle at the first", Body: func(x *core.X) {
				s := []float32{1, 37.5, 0.25, 0.0625, 0.03125, 1.0 / 64, 1.0 / 256}[x.Choose(7)]
				p := func() vector.Vector2f { return vector.NewVec2f(s*float32(x.Choose(7)-3), s*float32(x.Choose(7)-3)) }
				a, b, c := p(), p(), p()
				x.Desc(func() string { return fmt.Sprint(a, b, c) })
				x.State(core.NewH().S(fmt.Sprint(a, b, c)).Sum())
				x.Op(2)
				x.Trace(2)
				u, v := b.Sub(a), c.Sub(a)
				cr := float64(u.X)*float64(v.Y) - float64(u.Y)*float64(v.X)
				x.Assert(vector.IsStraightLine32(a, b, c) == (math.Abs(cr) < 1e-3), "straight line: %v", !(math.Abs(cr) < 1e-3))
				if u.Len() > 0 && v.Len() > 0 {
					w := math.Abs(math.Atan2(cr, float64(u.X)*float64(v.X)+float64(u.Y)*float64(v.Y)))
					g := float64(vector.AngleBetween32(a, b, c))
					x.Assert(math.Abs(g-w) <= 2e-3, "the angle at %v between %v and %v is %v, want %v", a, b, c, g, w)
				}
			}},
			{Name: "numbers", Bound: "all triples out of 15 numbers: minimum, maximum, clamping and interpolation; all single-number functions", Body: func(x *core.X) {
				ns := []float64{0, 1, -1, 0.5, -0.5, 1.5, 2, 2.5, -2.5, 10, -7, 384, 1e6, 3, -3}
				a, b, c := ns[x.Choose(15)], ns[x.Choose(15)], ns[x.Choose(15)]
				x.Desc(func() string { return fmt.Sprint(a, b, c) })
				x.State(core.NewH().F(a).F(b).F(c).Sum())
				x.Op(20)
				x.Trace(20)
				f := func(v float64) float32 { return float32(v) }
				i, j, k := int(a), int(b), int(c)
				x.Assert(mutils.MinI(i, j) == int(math.Min(float64(i), float64(j))) && mutils.MaxI(i, j) == int(math.Max(float64(i), float64(j))), "minimum or maximum of %v and %v", i, j)
				x.Assert(mutils.MinI64(int64(i), int64(j)) == int64(math.Min(float64(i), float64(j))) && mutils.MaxI64(int64(i), int64(j)) == int64(math.Max(float64(i), float64(j))), "64-bit minimum or maximum of %v and %v", i, j)
				if b <= c {
					w := a
					if w < b {
						w = b
					}
					if w > c {
						w = c
					}
					x.Assert(mutils.ClampF64(a, b, c) == w && mutils.ClampF32(f(a), f(b), f(c)) == f(w), "%v clamped to %v..%v is %v or %v", a, b, c, mutils.ClampF64(a, b, c), mutils.ClampF32(f(a), f(b), f(c)))
				}
				if j <= k {
					w := i
					if w < j {
						w = j
					}
					if w > k {
						w = k
					}
					x.Assert(mutils.ClampI(i, j, k) == w && mutils.ClampI64(int64(i), int64(j), int64(k)) == int64(w), "%v clamped to %v..%v", i, j, k)
				}
				x.Assert(mutils.LerpF64(a, b, c) == a+(b-a)*c && near32(mutils.LerpF32(f(a), f(b), f(c)), a+(b-a)*c, math.Max(math.Abs(a), math.Abs(b))*math.Max(1, math.Abs(c))*2), "interpolation from %v to %v at %v", a, b, c)
				x.Assert(math32.Min(f(a), f(b)) == f(math.Min(a, b)) && math32.Max(f(a), f(b)) == f(math.Max(a, b)), "32-bit minimum or maximum of %v and %v", a, b)
				for _, q := range []struct {
					n    string
					g    float32
					w, s float64
				}{
					{"Abs", math32.Abs(f(a)), math.Abs(a), 0}, {"Acos", math32.Acos(f(a)), math.Acos(a), 1}, {"Asin", math32.Asin(f(a)), math.Asin(a), 1}, {"Atan", math32.Atan(f(a)), math.Atan(a), 1},
					{"Atan2", math32.Atan2(f(a), f(b)), math.Atan2(a, b), 1}, {"Ceil", math32.Ceil(f(a)), math.Ceil(a), 0}, {"Floor", math32.Floor(f(a)), math.Floor(a), 0}, {"Round", math32.Round(f(a)), math.Floor(a + 0.5), 0},
					{"Cos", math32.Cos(f(a)), math.Cos(a), 1}, {"Sin", math32.Sin(f(a)), math.Sin(a), 1}, {"Tan", math32.Tan(f(a)), math.Tan(a), 1}, {"Sqrt", math32.Sqrt(f(a)), math.Sqrt(a), 0}, {"Mod", math32.Mod(f(a), f(b)), math.Mod(a, b), 0}, {"Pow", math32.Pow(f(a), f(b)), float64(f(math.Pow(a, b))), 0},
				} {
					x.Assert(near32(q.g, q.w, q.s), "%s of %v (and %v) is %v, want %v", q.n, a, b, q.g, q.w)
				}
				x.Assert(!math32.IsNaN(f(a)) && math32.IsNaN(math32.NaN()) && math.IsInf(float64(math32.Inf(1)), 1) && math.IsInf(float64(math32.Inf(-1)), -1), "NaN or infinity")
			}},
		}
	})
}
