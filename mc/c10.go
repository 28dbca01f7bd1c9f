package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"

	"vmc/core"
	"vmc/ref"
)

func p2(v vector.Vector2f) ref.P2 { return ref.P2{X: float64(v.X), Y: float64(v.Y)} }

// verts returns the polyline of a path, both ends of every line.
func verts(c *curves.MultiCurve, head ref.P2) []ref.P2 {
	out := []ref.P2{head}
	for _, l := range c.GetLines() {
		if a := p2(l.Point1); a != out[len(out)-1] {
			out = append(out, a)
		}
		out = append(out, p2(l.Point2))
	}
	return out
}

func toVec(pts []ref.P2) []vector.Vector2f {
	var out []vector.Vector2f
	for _, p := range pts {
		out = append(out, vector.NewVec2f(float32(p.X), float32(p.Y)))
	}
	return out
}

func pathText(typ string, pts []ref.P2) string {
	s := []string{typ}
	for _, p := range pts[1:] {
		s = append(s, f64(p.X)+":"+f64(p.Y))
	}
	return strings.Join(s, "|")
}

// naturalLen is the length of the uncut path, 0 if it is degenerate.
func cutExpected(natural []ref.P2, want float64) []ref.P2 {
	total := ref.PolyLen(natural)
	if total == 0 {
		return natural[:1]
	}
	if want <= 0 {
		return natural[:1]
	}
	if total >= want {
		out := []ref.P2{natural[0]}
		for i := 1; i < len(natural); i++ {
			s := natural[i].Dist(natural[i-1])
			if s >= want {
				if s > 0 {
					out = append(out, natural[i-1].Add(natural[i].Sub(natural[i-1]).Mul(want/s)))
				}
				return out
			}
			want -= s
			out = append(out, natural[i])
		}
		return out
	}
	n := len(natural) - 1
	dir := natural[n].Sub(natural[n-1])
	out := append([]ref.P2{}, natural[:n]...)
	return append(out, natural[n].Add(dir.Mul((want-total)/dir.Len())))
}

// spread is the largest magnitude that goes into the float32 computation of a path.
func spread(typ string, pts []ref.P2) (m float64) {
	for _, p := range pts {
		m = math.Max(m, math.Max(math.Abs(p.X), math.Abs(p.Y)))
	}
	if typ == "P" && len(pts) == 3 {
		a, b, c := pts[1].Sub(pts[0]), pts[2].Sub(pts[1]), pts[0].Sub(pts[2])
		if cr := math.Abs(a.X*b.Y - a.Y*b.X); cr > 0 {
			m += a.Len() * b.Len() * c.Len() / (2 * cr) // radius
		}
	}
	return m
}

func checkPath(x *core.X, typ string, pts []ref.P2, length float64) {
	x.Desc(func() string { return fmt.Sprintf("%v %s length %v", pts[0], pathText(typ, pts), length) })
	x.State(core.NewH().S(pathText(typ, pts)).F(length).F(pts[0].X).F(pts[0].Y).Sum())
	vs := toVec(pts)
	nat := curves.NewMultiCurve(typ, vs)
	cut := curves.NewMultiCurveT(typ, vs, length)
	x.Op(2)
	x.Trace(1)
	head := p2(vs[0])
	natV := verts(nat, head)
	for len(natV) > 1 && natV[len(natV)-1].Dist(natV[len(natV)-2]) == 0 { // keep a direction for extending
		natV = natV[:len(natV)-1]
	}
	natLen := ref.PolyLen(natV)
	sumErr := 1e-7 * float64(len(natV)) // lengths are summed up in float32
	x.Assert(ref.Close(float64(nat.GetLength()), natLen, 1e-4+sumErr), "natural length reported as %v but is %v", nat.GetLength(), natLen)
	// connected, starting at the head
	prev := head
	for i, l := range cut.GetLines() {
		x.Assert(p2(l.Point1).Dist(prev) <= 1e-3+1e-5*natLen+1e-6*spread(typ, pts), "line %d starts at %v, %v px from where the path was", i, l.Point1, p2(l.Point1).Dist(prev))
		prev = p2(l.Point2)
	}
	want := math.Max(0, length)
	if natLen == 0 {
		want = 0
	}
	if n := len(pts); n > 1 && pts[n-1] == pts[n-2] && want > natLen && math.Abs(float64(cut.GetLength())-natLen) < math.Abs(float64(cut.GetLength())-want) {
		want = natLen // a last segment without length gives no direction to extend along
	}
	tol := 2e-3 + (2e-5+sumErr)*(want+natLen) + 1e-6*spread(typ, pts)
	cutV := verts(cut, head)
	x.Assert(math.Abs(float64(cut.GetLength())-want) <= tol && math.Abs(ref.PolyLen(cutV)-want) <= tol, "length reported %v, measured %v, want %v", cut.GetLength(), ref.PolyLen(cutV), want)
	exp := cutExpected(natV, want)
	// constant speed
	for i := 0; i <= 24; i++ {
		t := float64(i) / 24
		x.Assert(p2(cut.PointAt(float32(t))).Dist(ref.Walk(exp, t*want)) <= 3*tol, "at parameter %v the path is at %v, want %v", t, cut.PointAt(float32(t)), ref.Walk(exp, t*want))
	}
	for _, t := range []float32{-1, 2} {
		w := exp[0]
		if t > 1 {
			w = ref.Walk(exp, want)
		}
		x.Assert(p2(cut.PointAt(t)).Dist(w) <= 3*tol, "at parameter %v the path is at %v, want %v", t, cut.PointAt(t), w)
	}
	x.Assert(p2(cut.PointAt(0)).Dist(head) <= 1e-4+1e-6*spread(typ, pts), "the path starts at %v, not at its head %v", cut.PointAt(0), head)
	x.Assert(p2(nat.PointAt(1)).Dist(natV[len(natV)-1]) <= tol, "the uncut path ends at %v, not at its last point %v", nat.PointAt(1), natV[len(natV)-1])
}

var lattice = []ref.P2{{X: 0, Y: 0}, {X: 60, Y: 0}, {X: 120, Y: 0}, {X: 0, Y: 60}, {X: 60, Y: 60}, {X: 120, Y: 60}, {X: 0, Y: 120}, {X: 60, Y: 120}, {X: 120, Y: 120}}

func lat(i int, scale, jitter float64) ref.P2 {
	p := lattice[i]
	return ref.P2{X: float64(float32(100 + p.X*scale + jitter*float64(i%3))), Y: float64(float32(80 + p.Y*scale - jitter*float64(i/2%3)))}
}

func init() {
	register("C10", "one execution = one path (type, control points, length); PointAt and slider positions are compared with an independent walk along the polyline", func(th bool) []core.Scenario {
		types := []string{"L", "B", "P", "C", "X", ""}
		lens := []float64{1, 47.3, 60, 120, 121.7, 180, 400, 1500, 0.01, 0, -20}
		if th {
			lens = append(lens, 5, 10, 33.3, 59.999, 60.001, 85, 99, 119.99, 150, 240, 300, 600, 5000)
		}
		return []core.Scenario{
			{Name: "three-points", Bound: fmt.Sprintf("all triples of control points on a 3x3 lattice x 6 path types x %d lengths x 3 scales", len(lens)), Body: func(x *core.X) {
				ty := types[x.Choose(len(types))]
				sc := []float64{1, 0.05, 3}[x.Choose(3)]
				pts := []ref.P2{lat(4, sc, 0)}
				for i := 0; i < 2; i++ {
					pts = append(pts, lat(x.Choose(9), sc, 0))
				}
				checkPath(x, ty, pts, lens[x.Choose(len(lens))])
			}},
			{Name: "four-points", Bound: "all quadruples on the lattice (jittered off it as well) x 3 types x lengths", Body: func(x *core.X) {
				ty := types[x.Choose(4)]
				j := []float64{0, 3.7}[x.Choose(2)]
				pts := []ref.P2{lat(0, 1, j)}
				for i := 0; i < 3; i++ {
					pts = append(pts, lat(x.Choose(9), 1, j))
				}
				checkPath(x, ty, pts, []float64{90, 300, 700}[x.Choose(3)])
			}},
			{Name: "many-points", Bound: "1 to 28 control points on a zigzag, spiral or repeating pattern x types x lengths in steps", Body: func(x *core.X) {
				ty := types[x.Choose(4)]
				n := 1 + x.Choose(28)
				pat := x.Choose(3)
				var pts []ref.P2
				for i := 0; i < n; i++ {
					pts = append(pts, patPoint(pat, i))
				}
				checkPath(x, ty, pts, 15*float64(1+x.Choose(60)))
			}},
			{Name: "five-points", Bound: "all quintuples on the lattice from its middle x 4 types x 3 lengths", Body: func(x *core.X) {
				ty := types[x.Choose(4)]
				pts := []ref.P2{lat(4, 1, 0)}
				for i := 0; i < 4; i++ {
					pts = append(pts, lat(x.Choose(9), 1, 0))
				}
				checkPath(x, ty, pts, []float64{60, 250, 900}[x.Choose(3)])
			}},
			{Name: "every-length", Bound: "every length from -1 to 700 in steps of 0.25 (thorough 0.05) on 12 paths", Body: func(x *core.X) {
				k := x.Choose(12)
				n := 5
				for k >= 8 {
					k, n = k-4, 12
				}
				ty := types[k%4]
				var pts []ref.P2
				for i := 0; i < n; i++ {
					pts = append(pts, patPoint(k/2%3, i))
				}
				st := 0.25
				if th {
					st = 0.05
				}
				checkPath(x, ty, pts, -1+st*float64(x.Choose(int(701/st))))
			}},
			{Name: "magnitudes", Bound: "3 and 4 control points with coordinates out of {-512,-131.5,0,0.125,7,300,512,1999.75} x 4 types x lengths up to 100000", Body: func(x *core.X) {
				ty := types[x.Choose(4)]
				cs := []float64{-512, -131.5, 0, 0.125, 7, 300, 512, 1999.75}
				pts := []ref.P2{{X: 100, Y: 80}}
				n := 2
				if th {
					n = 3
				}
				for i := 0; i < n; i++ {
					pts = append(pts, ref.P2{X: cs[x.Choose(8)], Y: cs[x.Choose(8)]})
				}
				checkPath(x, ty, pts, []float64{0.5, 100, 3333, 30000, 100000}[x.Choose(5)])
			}},
			{Name: "positions", Bound: "slider positions at 80 times in and around the slider x 21 span counts up to 9000 x paths x lengths x timings", Body: func(x *core.X) {
				pk := pathKinds[x.Choose(len(pathKinds))]
				sp := []int{1, 2, 3, 4, 7, 8, 16, 20, 33, 63, 64, 65, 66, 67, 70, 100, 129, 258, 1001, 4098, 9000}[x.Choose(21)]
				l := []float64{70, 3, 133.3, 400, 0}[x.Choose(5)]
				tp := [][][2]float64{{{0, 500}}, {{0, 500}, {1000, -60}}, {{0, 200}, {900, 350}}, {{0, 500}, {1000, math.NaN()}}}[x.Choose(4)]
				st := []float64{1000, 1000.25, -300, 654321, 0, 7.2e6, 1e8 + 0.5}[x.Choose(7)]
				line := sliderLine(100, 100, st, pk.path, sp, l)
				x.Desc(func() string { return line + fmt.Sprint(tp) })
				x.State(core.NewH().S(line).S(fmt.Sprint(tp)).Sum())
				s := mkObj(line).(*objects.Slider)
				s.SetTiming(mkTimings(1.4, 1, tp...))
				parts := strings.Split(pk.path, "|")
				pts := []vector.Vector2f{vector.NewVec2f(100, 100)}
				for _, p := range parts[1:] {
					var a, b float32
					fmt.Sscanf(p, "%f:%f", &a, &b)
					pts = append(pts, vector.NewVec2f(a, b))
				}
				mc := curves.NewMultiCurveT(parts[0], pts, l)
				poly := verts(mc, p2(pts[0]))
				L := l
				if pk.empty {
					L = 0
				}
				tm := refTiming(1.4, 1, tp...)
				end, _ := tm.SliderPoints(st, L, sp, 0)
				x.Op(60)
				x.Trace(1)
				dur := end - st
				pos := func(t float64) ref.P2 {
					if dur == 0 {
						return p2(pts[0])
					}
					f := math.Max(0, math.Min(1, (t-st)/dur)) * float64(sp)
					k := math.Min(math.Floor(f), float64(sp-1))
					f -= k
					if math.Mod(k, 2) == 1 {
						f = 1 - f
					}
					return ref.Walk(poly, f*L)
				}
				tol := 0.01 + 1e-4*L + L*1e-7*math.Abs(st)/math.Max(1, dur) + L*2e-7*float64(sp)    // the path length is a float32 ...
				tol += 2 * float64(sp) * math.Min(math.Abs(float64(mc.GetLength())-L), 1e-3+1e-5*L) // ... summed up with a small error that every span repeats
				for i := -6; i <= 73; i++ {
					t := st + dur*float64(i)/47
					if i > 53 { // within the last three spans
						t = end - dur/float64(sp)*float64(i-53)/7
					}
					if dur == 0 {
						t = st + float64(i)
					}
					x.Assert(p2(s.GetPositionAt(t)).Dist(pos(t)) <= tol, "position at %v (start %v, end %v) is %v, want %v", t, st, end, s.GetPositionAt(t), pos(t))
					if own := s.GetEndTime() - st; own > 0 { // with the slider's own end, errors do not grow with the spans
						f := math.Max(0, math.Min(1, (t-st)/own)) * float64(sp)
						k := math.Min(math.Floor(f), float64(sp-1))
						f -= k
						if math.Mod(k, 2) == 1 {
							f = 1 - f
						}
						w := ref.Walk(poly, f*float64(mc.GetLength()))
						near := 0.01 + 1e-5*L + L*4e-15*(math.Abs(st)+own)*float64(sp)/own
						x.Assert(p2(s.GetPositionAt(t)).Dist(w) <= near, "position at %v (start %v, end %v) is %v, want %v", t, st, s.GetEndTime(), s.GetPositionAt(t), w)
					}
					x.Assert(s.PositionAt(t) == s.GetPositionAt(t), "two position queries disagree")
				}
				x.Assert(p2(s.GetStartPosition()).Dist(p2(pts[0])) == 0, "start position %v", s.GetStartPosition())
				x.Assert(p2(s.GetEndPosition()).Dist(pos(end)) <= tol, "end position %v, want %v", s.GetEndPosition(), pos(end))
			}},
		}
	})
}

func patPoint(pat, i int) ref.P2 {
	f := float64(i)
	var p ref.P2
	switch pat {
	case 0:
		p = ref.P2{X: 50 + 22*f, Y: 200 + 70*float64(i%2)}
	case 1:
		p = ref.P2{X: 256 + (20+6*f)*math.Cos(f*1.1), Y: 192 + (20+6*f)*math.Sin(f*1.1)}
	default:
		p = lat([]int{0, 1, 1, 4, 4, 8, 2, 2}[i%8], 1, 0)
	}
	return ref.P2{X: float64(float32(p.X)), Y: float64(float32(p.Y))}
}
