// Package ref holds the reference models: plain restatements of the published osu!
// algorithms, written without looking at how the library organises its code.
package ref

import "math"

type V struct{ X, Y float32 }

func (a V) Sub(b V) V        { return V{a.X - b.X, a.Y - b.Y} }
func (a V) Add(b V) V        { return V{a.X + b.X, a.Y + b.Y} }
func (a V) Mul(f float32) V  { return V{a.X * f, a.Y * f} }
func (a V) Dot(b V) float32  { return a.X*b.X + a.Y*b.Y }
func (a V) Len() float32     { return float32(math.Sqrt(float64(a.X*a.X + a.Y*a.Y))) }
func (a V) Dist(b V) float32 { return b.Sub(a).Len() }

type Kind int

const (
	Circle Kind = iota
	Slider
	Spinner
)

func (k Kind) String() string { return [...]string{"circle", "slider", "spinner"}[k] }

// Close reports agreement within relative tolerance tol (absolute below 1e-9).
func Close(a, b, tol float64) bool {
	if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	m := math.Max(math.Abs(a), math.Abs(b))
	return math.Abs(a-b) <= tol*m+1e-9
}

func clamp(x, lo, hi float64) float64 {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}
