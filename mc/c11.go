package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"

	"vmc/core"
	"vmc/ref"
)

func checkShape(x *core.X, typ string, pts []ref.P2, fine int) {
	x.Desc(func() string { return fmt.Sprintf("%v %s", pts[0], pathText(typ, pts)) })
	x.State(core.NewH().S(pathText(typ, pts)).F(pts[0].X).F(pts[0].Y).Sum())
	c := curves.NewMultiCurve(typ, toVec(pts))
	x.Op(1)
	x.Trace(1)
	if typ != "L" && typ != "B" && typ != "P" && typ != "C" {
		for _, t := range []float32{0, 0.5, 1} {
			x.Assert(p2(c.PointAt(t)) == pts[0] && c.GetLength() == 0, "an unknown path type leaves its first point: %v, length %v", c.PointAt(t), c.GetLength())
		}
		return
	}
	exact, tol := ref.ExactPath(typ, pts, fine)
	impl := verts(c, pts[0])
	tol += 0.05
	if len(exact) > 1 {
		if m := exact[0]; p2(c.PointAt(0)).Dist(m) > 0.02+tol/10 {
			x.Fail("the path starts at %v, the curve at %v", c.PointAt(0), m)
		}
		if m := exact[len(exact)-1]; p2(c.PointAt(1)).Dist(m) > 0.02+tol/10 {
			x.Fail("the path ends at %v, the curve at %v", c.PointAt(1), m)
		}
	}
	if !ref.FrechetWithin(impl, exact, tol) {
		e := tol
		for e < 1e5 && !ref.FrechetWithin(impl, exact, e) {
			e *= 1.2
		}
		x.Fail("the path strays about %.2f px from the exact curve (allowed %.2f)", e, tol)
	}
	// the same through the public evaluation
	L := ref.PolyLen(impl)
	n := int(L/4) + 4
	if n > 80 {
		n = 80
	}
	var smp []ref.P2
	for i := 0; i <= n; i++ {
		smp = append(smp, p2(c.PointAt(float32(i)/float32(n))))
	}
	for _, p := range smp {
		d := math.Inf(1)
		if len(exact) == 1 {
			d = p.Dist(exact[0])
		}
		for i := 1; i < len(exact); i++ {
			d = math.Min(d, segDist(p, exact[i-1], exact[i]))
		}
		x.Assert(d <= tol, "path point %v is %.3f px off the curve", p, d)
	}
}

func segDist(p, a, b ref.P2) float64 {
	d := b.Sub(a)
	if d.Dot(d) == 0 {
		return p.Dist(a)
	}
	t := math.Max(0, math.Min(1, p.Sub(a).Dot(d)/d.Dot(d)))
	return p.Dist(a.Add(d.Mul(t)))
}

func init() {
	register("C11", "one execution = one control polygon; the whole path is compared with the exact curve by the Frechet distance", func(th bool) []core.Scenario {
		types := []string{"B", "P", "C", "L"}
		scales := []float64{1, 0.04, 3.1}
		depth := 3
		fine := 120
		arcR := []float64{60, 5, 20, 150, 700, 2.2}
		if th {
			depth, fine = 4, 200
			arcR = append(arcR, 2000, 1, 10, 35, 300)
			scales = []float64{1, 0.01, 0.04, 0.13, 0.4, 3.1}
		}
		return []core.Scenario{
			{Name: "triples", Bound: fmt.Sprintf("1, 2 and all 3 control points on a 3x3 lattice (also jittered) x 7 types x %d scales", len(scales)), Body: func(x *core.X) {
				ty := []string{"B", "P", "C", "L", "", "X", "PB"}[x.Choose(7)]
				sc := scales[x.Choose(len(scales))]
				j := []float64{0, 4.3}[x.Choose(2)]
				n := 1 + x.Choose(3)
				var pts []ref.P2
				for i := 0; i < n; i++ {
					pts = append(pts, lat(x.Choose(9), sc, j*sc))
				}
				checkShape(x, ty, pts, fine)
			}},
			{Name: "polygons", Bound: fmt.Sprintf("all control polygons of %d further points on the lattice x 4 types", depth), Body: func(x *core.X) {
				ty := types[x.Choose(3)]
				pts := []ref.P2{lat(4, 1, 2.9)}
				for i := 0; i < depth; i++ {
					pts = append(pts, lat(x.Choose(9), 1, 2.9))
				}
				checkShape(x, ty, pts, fine)
			}},
			{Name: "large", Bound: "all control polygons of 3 points after the first, and a closing one, on the lattice blown up 6 and 25 times, Bezier and Catmull", Body: func(x *core.X) {
				ty := []string{"B", "C"}[x.Choose(2)]
				sc := []float64{6, 25}[x.Choose(2)]
				pts := []ref.P2{lat(4, sc, 2.9)}
				for i := 0; i < 3; i++ {
					pts = append(pts, lat(x.Choose(9), sc, 2.9))
				}
				if x.Bool() {
					pts = append(pts, lat(0, sc, 1.7))
				}
				checkShape(x, ty, pts, 6*fine)
			}},
			{Name: "doubled-points", Bound: "all sequences of up to 7 steps over {new point, repeat last point, back to start}", Body: func(x *core.X) {
				ty := types[x.Choose(len(types))]
				pts := []ref.P2{lat(0, 1, 0)}
				next := 1
				n := 1 + x.Choose(7)
				for i := 0; i < n; i++ {
					switch x.Choose(3) {
					case 0:
						pts = append(pts, lat([]int{0, 5, 6, 1, 8, 3, 2, 7}[next%8], 1, 3.3))
						next++
					case 1:
						pts = append(pts, pts[len(pts)-1])
					default:
						pts = append(pts, pts[0])
					}
				}
				checkShape(x, ty, pts, fine)
			}},
			{Name: "arcs", Bound: "arcs over 12 start directions x 23 middle x 23 end angles x radii 1..2000, both directions", Body: func(x *core.X) {
				s := float64(x.Choose(12)) * math.Pi / 6
				r := arcR[x.Choose(len(arcR))]
				a, b := 1+x.Choose(23), 1+x.Choose(23)
				if a == b {
					b = 24 // end back near the start
				}
				pt := func(k float64) ref.P2 {
					an := s + k*math.Pi/12.3
					return ref.P2{X: float64(float32(250 + r*math.Cos(an))), Y: float64(float32(190 + r*math.Sin(an)))}
				}
				checkShape(x, "P", []ref.P2{pt(0), pt(float64(a)), pt(float64(b))}, fine)
			}},
			{Name: "many-points", Bound: "1 to 24, 32, 33, 40, 41, 48, 64..68, 80, 100 and 128 control points on three patterns x 4 types", Body: func(x *core.X) {
				ty := types[x.Choose(len(types))]
				pat := x.Choose(3)
				n := 1 + x.Choose(37)
				if n > 24 {
					n = []int{32, 33, 40, 41, 48, 64, 65, 66, 67, 68, 80, 100, 128}[n-25]
				}
				var pts []ref.P2
				for i := 0; i < n; i++ {
					pts = append(pts, patPoint(pat, i))
				}
				checkShape(x, ty, pts, 3*fine)
			}},
			{Name: "bends", Bound: "Bezier curves of 4..40 control points in a line with one or two neighbouring points 30 or 90 px off it at every index, 3 spacings (also Catmull and straight segments up to 20 points)", Body: func(x *core.X) {
				n := 4 + x.Choose(37)
				at := x.Choose(n)
				sp := []float64{12, 4, 0.7}[x.Choose(3)]
				h := []float64{30, 90}[x.Choose(2)]
				two := x.Bool()
				ty := []string{"B", "C", "L"}[x.Choose(3)]
				if ty != "B" && n > 20 {
					return
				}
				var pts []ref.P2
				for i := 0; i < n; i++ {
					p := ref.P2{X: 20 + sp*float64(i), Y: 100 + 0.25*float64(i)}
					if i == at || two && i == at+1 {
						p.Y += h
					}
					pts = append(pts, p)
				}
				checkShape(x, ty, pts, 4*fine)
			}},
			{Name: "straight", Bound: "collinear point triples of every type in 16 directions", Body: func(x *core.X) {
				ty := types[x.Choose(len(types))]
				dx, dy := float64(x.Choose(7)-3)*8, float64(x.Choose(7)-3)*8
				k1, k2 := float64(x.Choose(9)-4), float64(x.Choose(9)-4)
				p := func(k float64) ref.P2 { return ref.P2{X: 200 + k*dx, Y: 200 + k*dy} }
				pts := []ref.P2{p(0), p(k1), p(k2)}
				checkShape(x, ty, pts, fine)
				c := curves.NewMultiCurve(ty, toVec(pts))
				for i := 0; i <= 10; i++ {
					q := p2(c.PointAt(float32(i) / 10)).Sub(p(0))
					x.Assert(math.Abs(q.X*dy-q.Y*dx) <= 1e-2*(1+math.Hypot(dx, dy)), "collinear control points give a path off their line at %v", q)
				}
			}},
		}
	})
	register("C12", "one execution = one curve object; evaluation, end points, length and end angles are compared with the exact curve", func(th bool) []core.Scenario {
		type curve interface {
			PointAt(t float32) vector.Vector2f
			GetStartAngle() float32
			GetEndAngle() float32
			GetLength() float32
		}
		check := func(x *core.X, name string, c curve, f ref.Fn, pts []ref.P2, scale float64) {
			x.Desc(func() string { return fmt.Sprintf("%s %v", name, pts) })
			x.State(core.NewH().S(name).S(fmt.Sprint(pts)).Sum())
			x.Op(25)
			x.Trace(1)
			tol := 1e-3 + 2e-5*scale
			for i := 0; i <= 20; i++ {
				t := float64(i) / 20
				x.Assert(p2(c.PointAt(float32(t))).Dist(f(t)) <= tol, "%s at %v is %v, want %v", name, t, c.PointAt(float32(t)), f(t))
			}
			LT, LA := 0.002, 0.05
			N := 2000
			dense := ref.Sample(f, N)
			L := ref.PolyLen(dense)
			x.Assert(math.Abs(float64(c.GetLength())-L) <= LT*L+tol*2+LA, "%s reports length %v, its curve is %v long", name, c.GetLength(), L)
			if L < 3 {
				return
			}
			secants := func(from ref.P2, at func(i int) ref.P2, got float64, what string) {
				run := 0.0
				prev := from
				for i := 1; i <= N; i++ {
					q := at(i)
					run += q.Dist(prev)
					prev = q
					if d := from.Sub(q); d.Len() > 0.005 {
						if diff := math.Abs(math.Remainder(got-d.Angle(), 2*math.Pi)); diff <= 0.05 {
							return
						}
					}
					if run > 4+L/100 {
						break
					}
				}
				x.Fail("%s: the %s angle %v does not point along the curve", name, what, got)
			}
			if dense[1].Dist(dense[0]) < L/float64(20*N) || dense[N].Dist(dense[N-1]) < L/float64(20*N) {
				return // no direction at an end where the curve stands still
			}
			secants(dense[0], func(i int) ref.P2 { return dense[i] }, float64(c.GetStartAngle()), "start")
			secants(dense[N], func(i int) ref.P2 { return dense[N-i] }, float64(c.GetEndAngle()), "end")
		}
		depth := 3
		if th {
			depth = 4
		}
		return []core.Scenario{
			{Name: "bezier", Bound: fmt.Sprintf("2 to %d control points on the lattice x 3 scales", depth+1), Body: func(x *core.X) {
				sc := []float64{1, 0.2, 3}[x.Choose(3)]
				n := 1 + x.Choose(depth)
				pts := []ref.P2{lat(x.Choose(9), sc, 3.1)}
				for i := 0; i < n; i++ {
					pts = append(pts, lat(x.Choose(9), sc, 3.1))
				}
				if ref.PolyLen(pts) < 2 {
					return
				}
				check(x, "Bezier", curves.NewBezier(toVec(pts)), ref.BezierFn(pts), pts, 200*sc)
				na := curves.NewBezierNA(toVec(pts))
				x.Assert(math.Abs(float64(na.GetLength())-ref.PolyLen(pts)) < 1e-3*ref.PolyLen(pts), "without approximation the length is that of the control polygon: %v, want %v", na.GetLength(), ref.PolyLen(pts))
			}},
			{Name: "bezier-order", Bound: "2 to 18 control points on three patterns", Body: func(x *core.X) {
				pat := x.Choose(3)
				n := 2 + x.Choose(17)
				var pts []ref.P2
				for i := 0; i < n; i++ {
					pts = append(pts, patPoint(pat, i))
				}
				check(x, "Bezier", curves.NewBezier(toVec(pts)), ref.BezierFn(pts), pts, 2000)
			}},
			{Name: "closed", Bound: "cubic and quartic Bezier curves which end 0 to 12 px from their start in 8 directions, over lattice points", Body: func(x *core.X) {
				a := lat(x.Choose(9), 2, 3.1)
				pts := []ref.P2{a}
				n := 2 + x.Choose(2)
				for i := 0; i < n; i++ {
					pts = append(pts, lat(x.Choose(9), 2, 3.1))
				}
				d, an := []float64{0, 0.4, 3, 12}[x.Choose(4)], float64(x.Choose(8))*math.Pi/4
				if d == 0 && an != 0 || ref.PolyLen(pts) < 2 {
					return
				}
				pts = append(pts, ref.P2{X: float64(float32(a.X + d*math.Cos(an))), Y: float64(float32(a.Y + d*math.Sin(an)))})
				check(x, "Bezier", curves.NewBezier(toVec(pts)), ref.BezierFn(pts), pts, 400)
			}},
			{Name: "binomial", Bound: "all n up to 40 and k from -1 to n+1", Body: func(x *core.X) {
				n := int64(x.Choose(41))
				row := []int64{1}
				for i := int64(0); i < n; i++ { // Pascal's triangle
					nr := []int64{1}
					for k := 1; k < len(row); k++ {
						nr = append(nr, row[k-1]+row[k])
					}
					row = append(nr, 1)
				}
				for k := int64(-1); k <= n+1; k++ {
					w := int64(0)
					if k >= 0 && k <= n {
						w = row[k]
					}
					x.Op(1)
					x.Assert(curves.BinomialCoefficient(n, k) == w, "binomial %d over %d is %d, want %d", n, k, curves.BinomialCoefficient(n, k), w)
				}
				x.State(uint64(n) + 7)
			}},
			{Name: "catmull", Bound: "all quadruples of lattice points x 2 scales", Body: func(x *core.X) {
				sc := []float64{1, 3}[x.Choose(2)]
				var pts []ref.P2
				for i := 0; i < 4; i++ {
					pts = append(pts, lat(x.Choose(9), sc, 3.1))
				}
				if pts[1].Dist(pts[2]) < 2 {
					return
				}
				check(x, "Catmull-Rom", curves.NewCatmull(toVec(pts)), ref.CatmullFn(pts[0], pts[1], pts[2], pts[3]), pts, 200*sc)
			}},
			{Name: "wide", Bound: "all quadruples of five lattice points blown up to curves of thousands of pixels, cubic Bezier and Catmull-Rom", Body: func(x *core.X) {
				sc := []float64{14, 40}[x.Choose(2)]
				var pts []ref.P2
				for i := 0; i < 4; i++ {
					pts = append(pts, lat([]int{0, 2, 4, 6, 8}[x.Choose(5)], sc, 3.1))
				}
				if pts[1].Dist(pts[2]) < 2 || ref.PolyLen(pts) < 2 {
					return
				}
				if x.Choose(2) == 0 {
					check(x, "Catmull-Rom", curves.NewCatmull(toVec(pts)), ref.CatmullFn(pts[0], pts[1], pts[2], pts[3]), pts, 200*sc)
					return
				}
				check(x, "Bezier", curves.NewBezier(toVec(pts)), ref.BezierFn(pts), pts, 200*sc)
			}},
			{Name: "arc", Bound: "arcs over 12 start directions x middle x end angles x radii, both directions", Body: func(x *core.X) {
				s := float64(x.Choose(12)) * math.Pi / 6
				r := []float64{60, 5, 20, 150, 700, 2}[x.Choose(6)]
				a, b := 1+x.Choose(23), 1+x.Choose(23)
				if a == b {
					b = 24
				}
				pt := func(k float64) ref.P2 {
					an := s + k*math.Pi/12.3
					return ref.P2{X: float64(float32(250 + r*math.Cos(an))), Y: float64(float32(190 + r*math.Sin(an)))}
				}
				pts := []ref.P2{pt(0), pt(float64(a)), pt(float64(b))}
				f, _, _, ok := ref.ArcFn(pts[0], pts[1], pts[2])
				if !ok {
					return
				}
				c := curves.NewCirArc(toVec(pts)[0], toVec(pts)[1], toVec(pts)[2])
				x.Assert(!c.Unstable, "an arc through three distinct points of a circle is called unstable")
				noise := ref.ArcNoise(pts[0], pts[1], pts[2])
				check(x, "arc", c, f, pts, 5*r+100+5e4*noise)
				d := math.Inf(1)
				for i := 0; i <= 400; i++ {
					d = math.Min(d, p2(c.PointAt(float32(i)/400)).Dist(pts[1]))
				}
				x.Assert(d < 0.02+0.01*r+noise, "the arc misses its middle point by %v", d)
			}},
			{Name: "arc-unstable", Bound: "all collinear lattice triples", Body: func(x *core.X) {
				p := []ref.P2{lat(x.Choose(9), 1, 0), lat(x.Choose(9), 1, 0), lat(x.Choose(9), 1, 0)}
				_, _, _, ok := ref.ArcFn(p[0], p[1], p[2])
				v := toVec(p)
				x.Op(1)
				x.State(core.NewH().S(fmt.Sprint(p)).Sum())
				x.Assert(curves.NewCirArc(v[0], v[1], v[2]).Unstable == !ok, "%v: unstable is %v", p, ok)
			}},
			{Name: "linear", Bound: "all pairs of lattice points x scales", Body: func(x *core.X) {
				sc := []float64{1, 0.05, 5}[x.Choose(3)]
				p := []ref.P2{lat(x.Choose(9), sc, 1.7), lat(x.Choose(9), sc, 1.7)}
				if p[0] == p[1] {
					x.Assert(curves.NewLinear(toVec(p)[0], toVec(p)[1]).GetLength() == 0, "length of a point")
					return
				}
				check(x, "line", curves.NewLinear(toVec(p)[0], toVec(p)[1]), ref.BezierFn(p), p, 200*sc)
			}},
		}
	})
}
