package main

import (
	"fmt"
	"math"

	"github.com/Wieku/gosu-pp/math/curves"

	"vmc/core"
	"vmc/ref"
)

// checkDirections compares the angles a path reports with the directions of its parts.
func checkDirections(x *core.X, typ string, pts []ref.P2, length float64) {
	x.Desc(func() string { return fmt.Sprintf("%v %s length %v", pts[0], pathText(typ, pts), length) })
	x.State(core.NewH().S(pathText(typ, pts)).F(length).F(pts[0].X).F(pts[0].Y).Sum())
	var c *curves.MultiCurve
	if math.IsNaN(length) {
		c = curves.NewMultiCurve(typ, toVec(pts))
	} else {
		c = curves.NewMultiCurveT(typ, toVec(pts), length)
	}
	x.Op(4)
	lines := c.GetLines()
	type part struct {
		from, to float64
		fwd      ref.P2
	}
	var parts []part
	at := 0.0
	for _, l := range lines {
		a, b := p2(l.Point1), p2(l.Point2)
		parts = append(parts, part{at, at + a.Dist(b), b.Sub(a)})
		at += a.Dist(b)
	}
	L := at
	if len(lines) == 0 {
		for _, g := range []float32{c.GetStartAngle(), c.GetEndAngle(), c.GetStartAngleAt(0.5), c.GetEndAngleAt(0.5)} {
			x.Assert(g == 0, "the path has no extent but an angle of %v", g)
		}
		return
	}
	// ok says whether the angle is the (forward or backward) direction of a part that touches position s.
	ok := func(got float32, s float64, back bool) bool {
		eps := 2e-3 + 2e-5*L
		for _, p := range parts {
			if p.to < s-eps || p.from > s+eps {
				continue
			}
			d := p.fwd
			if back {
				d = d.Mul(-1)
			}
			if d.Len() == 0 || math.Abs(math.Remainder(float64(got)-d.Angle(), 2*math.Pi)) <= 1e-4 {
				return true
			}
		}
		return false
	}
	exact := func(got float32, d ref.P2) bool {
		return d.Len() == 0 || math.Abs(math.Remainder(float64(got)-d.Angle(), 2*math.Pi)) <= 1e-4
	}
	x.Assert(exact(c.GetStartAngle(), parts[0].fwd.Mul(-1)), "the start angle is %v, but the path starts with %v", c.GetStartAngle(), parts[0].fwd)
	x.Assert(exact(c.GetEndAngle(), parts[len(parts)-1].fwd), "the end angle is %v, but the path ends with %v", c.GetEndAngle(), parts[len(parts)-1].fwd)
	for i := -2; i <= 34; i++ {
		t := float32(i) / 32
		s := math.Max(0, math.Min(1, float64(t))) * L
		x.Assert(ok(c.GetStartAngleAt(t), s, true), "the start angle at %v is %v, which is not against the path there", t, c.GetStartAngleAt(t))
		x.Assert(ok(c.GetEndAngleAt(t), s, false), "the end angle at %v is %v, which is not along the path there", t, c.GetEndAngleAt(t))
		x.Op(2)
		x.Trace(2)
	}
}

func init() {
	register("C32", "one execution = one path; its angles at both ends and at 37 parameters are compared with the directions of its parts", func(th bool) []core.Scenario {
		types := []string{"L", "B", "P", "C", "X"}
		lens := []float64{math.NaN(), 1, 60, 121.7, 400, 1500, 0}
		n3 := 3
		if th {
			n3 = 4
		}
		return []core.Scenario{
			{Name: "three-points", Bound: "all triples of control points on a 3x3 lattice x 5 path types x uncut and 6 lengths x 3 scales", Body: func(x *core.X) {
				ty := types[x.Choose(len(types))]
				sc := []float64{1, 0.1, 3}[x.Choose(3)]
				pts := []ref.P2{lat(4, sc, 0)}
				n := 1 + x.Choose(2)
				for i := 0; i < n; i++ {
					pts = append(pts, lat(x.Choose(9), sc, 0))
				}
				checkDirections(x, ty, pts, lens[x.Choose(len(lens))])
			}},
			{Name: "more-points", Bound: fmt.Sprintf("all %d further control points on the lattice x 4 types x 4 lengths", n3), Body: func(x *core.X) {
				ty := types[x.Choose(4)]
				pts := []ref.P2{lat(0, 1, 3.7)}
				for i := 0; i < n3; i++ {
					pts = append(pts, lat(x.Choose(9), 1, 3.7))
				}
				checkDirections(x, ty, pts, []float64{math.NaN(), 90, 300, 700}[x.Choose(4)])
			}},
			{Name: "every-length", Bound: "every length from 0 to 400 in steps of 0.5 on 12 paths", Body: func(x *core.X) {
				k := x.Choose(12)
				var pts []ref.P2
				for i := 0; i < []int{5, 3, 12}[k/4]; i++ {
					pts = append(pts, patPoint(k/2%3, i))
				}
				checkDirections(x, types[k%4], pts, 0.5*float64(x.Choose(801)))
			}},
			{Name: "directions", Bound: "lines of 1 to 3 parts in 72 directions and arcs through 24 x 24 points of a circle", Body: func(x *core.X) {
				pt := func(k, n int, r float64) ref.P2 {
					a := 2 * math.Pi * float64(k) / float64(n)
					return ref.P2{X: float64(float32(200 + r*math.Cos(a))), Y: float64(float32(200 + r*math.Sin(a)))}
				}
				l := []float64{math.NaN(), 40, 333}[x.Choose(3)]
				if x.Bool() {
					r := []float64{10, 90, 500}[x.Choose(3)]
					checkDirections(x, "P", []ref.P2{pt(3, 25, r), pt(x.Choose(24), 24, r), pt(x.Choose(24), 24, r)}, l)
					return
				}
				pts := []ref.P2{{X: 200, Y: 200}, pt(x.Choose(72), 72, 70)}
				if x.Bool() {
					pts = append(pts, pt(x.Choose(24), 24, 110))
				}
				checkDirections(x, types[x.Choose(4)], pts, l)
			}},
			{Name: "slivers", Bound: "paths of 1 to 4 parts, each 0.0002 to 50 px long, in 3 directions x 3 types x 4 places, uncut", Body: func(x *core.X) {
				ls := []float64{50, 0.0002, 0.002, 0.02, 0.3, 3}
				n := 1 + x.Choose(4)
				at := []ref.P2{{}, {X: 1, Y: -1}, {X: 10, Y: 10}, {X: 300, Y: 200}}[x.Choose(4)]
				ty := types[x.Choose(3)]
				pts := []ref.P2{at}
				for i := 0; i < n; i++ {
					d := []ref.P2{{X: 1}, {X: 0.6, Y: 0.8}, {X: -0.28, Y: 0.96}}[(i+x.Choose(2))%3]
					d = d.Mul(ls[x.Choose(len(ls))])
					at = ref.P2{X: float64(float32(at.X + d.X)), Y: float64(float32(at.Y + d.Y))}
					pts = append(pts, at)
					if ty == "B" && i+1 < n {
						pts = append(pts, at)
					}
				}
				checkDirections(x, ty, pts, math.NaN())
			}},
		}
	})
}
