package core

import "math"

// H is a running 64-bit FNV-1a style hash.
type H uint64

func NewH() H { return 14695981039346656037 }

func (h H) U(v uint64) H {
	x := uint64(h) ^ v
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return H(x)
}
func (h H) I(v int) H       { return h.U(uint64(v)) }
func (h H) F(v float64) H   { return h.U(math.Float64bits(v)) }
func (h H) F32(v float32) H { return h.U(uint64(math.Float32bits(v))) }
func (h H) S(s string) H {
	for i := 0; i < len(s); i++ {
		h = h.U(uint64(s[i]))
	}
	return h.U(uint64(len(s)) + 0x100)
}
func (h H) Sum() uint64 { return uint64(h) }
