// Package gen draws values, messages, reads and damage from a run's choices.
package gen

import (
	"math"
	"strings"

	"verifsim/simrt"
	"verifsim/wire"
)

// Profile bounds what is drawn.
type Profile struct {
	MaxItems int
	MaxText  int
	NoNul    bool
	UTF8     bool
	BigOneIn int // 1 in n texts is big (0: never)
	Big      int
	QuietNaN bool // only the ordinary NaN
	Any      bool // the marker of anything
	Only     []wire.Kind
}

// kind draws the kind of one item.
func (p *Profile) kind(r *simrt.Run) wire.Kind {
	if len(p.Only) > 0 {
		return p.Only[r.N(len(p.Only))]
	}
	return all[r.N(len(all))]
}

// Focus lets some runs be about one or two kinds of values only, so that what
// is done at once, or one after the other, is often the same thing.
func Focus(r *simrt.Run, p *Profile) {
	for n := []int{0, 0, 1, 2}[r.N(4)]; n > 0; n-- {
		p.Only = append(p.Only, all[r.N(len(all))])
	}
}

var scalars = []wire.Kind{wire.Bool, wire.U8, wire.U16, wire.U32, wire.U64, wire.I32, wire.I64, wire.F32, wire.F64}
var all = []wire.Kind{wire.U32, wire.String, wire.Bytes, wire.I64, wire.Error, wire.Bool, wire.U8, wire.U16, wire.U64, wire.I32, wire.F32, wire.F64, wire.Nil}

func bits(r *simrt.Run, n uint) uint64 {
	mask := ^uint64(0)
	if n < 64 {
		mask = 1<<n - 1
	}
	switch r.N(7) {
	case 0:
		return uint64(r.N(4))
	case 6: // any magnitude
		return r.Raw() & mask >> r.N(int(n))
	case 1: // around a power of two
		k := uint(r.N(int(n) + 1))
		var b uint64
		if k < 64 {
			b = 1 << k
		}
		return (b + uint64(r.N(3)) - 1) & mask
	case 2: // around a varint boundary
		k := uint(7 * (1 + r.N(9)))
		var b uint64
		if k < 64 {
			b = 1 << k
		}
		return (b + uint64(r.N(3)) - 1) & mask
	case 3: // extremes
		return mask - uint64(r.N(3))
	case 4: // sign boundary
		return (1<<(n-1) + uint64(r.N(3)) - 1) & mask
	}
	return r.Raw() & mask
}

// signed draws numbers of either sign and any magnitude, as two's complement.
func signed(r *simrt.Run, n uint) uint64 {
	b := bits(r, n)
	if r.N(2) == 1 {
		// as they are encoded: the sign in the lowest bit
		return b>>1 ^ -(b & 1)
	}
	return b
}

func Text(r *simrt.Run, p Profile, utf bool) string {
	n := 0
	switch r.N(8) {
	case 0:
		n = r.N(4)
	case 1, 2, 3:
		n = r.N(24)
	case 4:
		if n = 126 + r.N(8); n > 129 { // around a power of two
			n = 1<<(2+r.N(9)) - 1 + n%3
		}
	case 5:
		n = r.N(p.MaxText + 1)
	case 6:
		n = r.N(300)
	case 7:
		n = 0
	}
	if n > p.MaxText {
		n = p.MaxText
	}
	if p.BigOneIn > 0 && r.Chance(1, p.BigOneIn) {
		switch r.N(4) {
		case 3:
			n = 1<<(10+r.N(12)) - 2 + r.N(5)
		case 0:
			n = 16382 + r.N(4)
		case 1:
			n = r.N(p.Big + 1)
		case 2:
			n = 1<<21 - 2 + r.N(4)
		}
		if n > p.Big {
			n = p.Big
		}
	}
	return Fill(r, n, utf, p.NoNul)
}

var alphabets = []string{"ab", "é→😀z", "\x00\x01\x7f", "\x80\xff\xc3\x04\x05\x0a"}

// Fill makes a text of exactly n bytes.
func Fill(r *simrt.Run, n int, utf, noNul bool) string {
	if n == 0 {
		return ""
	}
	if n > 4096 {
		// content derived from one draw
		x := r.Raw()
		var sb strings.Builder
		sb.Grow(n)
		switch style := r.N(4); {
		case style == 2:
			// characters of several bytes, at any phase
			sb.WriteString("xyz"[:r.N(4)])
			for sb.Len()+9 <= n {
				sb.WriteString("é→😀")
			}
		case style == 3 && !utf:
			for sb.Len() < n {
				x = x*6364136223846793005 + 1442695040888963407
				if c := byte(x >> 56); c != 0 || !noNul {
					sb.WriteByte(c)
				}
			}
		}
		for sb.Len() < n {
			x = x*6364136223846793005 + 1442695040888963407
			sb.WriteByte('!' + byte(x>>58))
		}
		return sb.String()
	}
	style := r.N(4)
	b := make([]byte, 0, n)
	x := r.Raw()
	for len(b) < n {
		x = x*6364136223846793005 + 1442695040888963407
		k := byte(x >> 56)
		var s string
		switch {
		case style == 0:
			s = string('a' + rune(k%26))
		case style == 1:
			s = []string{"é", "→", "😀", "z", "\u2028", "\ufeff"}[k%6]
		case style == 2 && !noNul:
			s = string([]byte{k & 15})
		case style == 3 && !utf:
			s = string([]byte{k})
			if noNul && k == 0 {
				s = "\x80"
			}
		default:
			s = string('!' + rune(k%90))
		}
		if len(b)+len(s) > n {
			s = "x"
		}
		b = append(b, s...)
	}
	return string(b)
}

// Scalar draws a value of kind k.
func Scalar(r *simrt.Run, p Profile, k wire.Kind) wire.Val {
	v := wire.Val{K: k}
	switch k {
	case wire.Bool:
		v.N = uint64(r.N(2))
	case wire.U8:
		v.N = bits(r, 8)
	case wire.U16:
		v.N = bits(r, 16)
	case wire.U32:
		v.N = bits(r, 32)
	case wire.U64:
		v.N = bits(r, 64)
	case wire.I64:
		v.N = signed(r, 64)
	case wire.I32:
		v.N = uint64(int64(int32(signed(r, 32))))
	case wire.F32:
		v.N = float32bits(r)
		if f := math.Float32frombits(uint32(v.N)); p.QuietNaN && f != f {
			v.N = 0x7fc00000
		}
	case wire.F64:
		v.N = float64bits(r)
		if p.QuietNaN && math.IsNaN(math.Float64frombits(v.N)) {
			v.N = 0x7ff8000000000000
		}
	case wire.String, wire.Error:
		v.S = Text(r, p, p.UTF8)
	case wire.Bytes:
		v.S = Text(r, Profile{MaxText: p.MaxText, BigOneIn: p.BigOneIn, Big: p.Big}, false)
	}
	return v
}

func float32bits(r *simrt.Run) uint64 {
	switch r.N(4) {
	case 3: // close to zero, to one, to infinity, or an integer
		return (uint64([]uint32{0, 0x3f800000, 0x7f000000, 0x4b000000}[r.N(4)]) + r.Raw()&0xffffff>>r.N(24)) | r.Raw()&1<<31
	case 0:
		return uint64(math.Float32bits([]float32{0, 1, -1, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), float32(math.Copysign(0, -1))}[r.N(10)]))
	case 1:
		return uint64(math.Float32bits(float32(r.N(1000000)) / 7))
	}
	return r.Raw() & 0xffffffff
}

func float64bits(r *simrt.Run) uint64 {
	switch r.N(4) {
	case 3:
		return (uint64([]uint32{0, 0x3ff00000, 0x7fe00000, 0x43300000}[r.N(4)])<<32 + r.Raw()&(1<<53-1)>>r.N(53)) | r.Raw()&1<<63
	case 0:
		return math.Float64bits([]float64{0, 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)}[r.N(10)])
	case 1:
		return math.Float64bits(float64(r.N(1000000)) / 7)
	}
	return r.Raw()
}

// Message draws a well-formed sequence of items, with nested lists and maps.
func Message(r *simrt.Run, p Profile) []wire.Val {
	var out []wire.Val
	n := 1 + r.N(p.MaxItems)
	for i := 0; i < n && len(out) < 4*p.MaxItems; i++ {
		out = item(r, p, out, 0)
	}
	return out
}

func item(r *simrt.Run, p Profile, out []wire.Val, depth int) []wire.Val {
	if depth < 3 {
		switch r.N(12) {
		case 10:
			k := all[r.N(len(all)-1)]
			n := r.N(5)
			if r.Chance(1, 10) {
				n = r.N(140)
			}
			nested := r.Chance(1, 4)
			if nested {
				k = wire.Any
				n = r.N(4)
			}
			out = append(out, wire.Val{K: wire.Slice, Sub: k, N: uint64(n)})
			for i := 0; i < n; i++ {
				if nested {
					out = item(r, p, out, depth+1)
				} else {
					out = append(out, Scalar(r, small(p), k))
				}
			}
			return out
		case 11:
			k := all[r.N(3+r.N(2)*(len(all)-4))]
			v := all[r.N(len(all)-1)]
			n := r.N(4)
			nested := r.Chance(1, 4)
			if nested {
				v = wire.Any
			}
			out = append(out, wire.Val{K: wire.Map, Key: k, Sub: v, N: uint64(n)})
			for i := 0; i < n; i++ {
				out = append(out, Scalar(r, small(p), k))
				if nested {
					out = item(r, p, out, depth+1)
				} else {
					out = append(out, Scalar(r, small(p), v))
				}
			}
			return out
		}
	}
	if depth == 0 && r.N(16) == 15 {
		// the header of something that follows elsewhere
		v := wire.Val{K: wire.Slice, Sub: all[r.N(len(all)-1)], N: bits(r, 32)}
		if r.N(2) == 1 {
			v.K, v.Key = wire.Map, all[r.N(len(all)-1)]
		}
		return append(out, v)
	}
	if p.Any && r.N(10) == 9 {
		return append(out, wire.Val{K: wire.Any})
	}
	return append(out, Scalar(r, p, p.kind(r)))
}

func small(p Profile) Profile {
	p.BigOneIn = 0
	if p.MaxText > 40 {
		p.MaxText = 40
	}
	return p
}

// AnyWant draws an arbitrary read.
func AnyWant(r *simrt.Run, p Profile) wire.Want {
	k := wire.Kind(r.N(int(wire.NKinds)))
	if k == wire.Any && !p.Any {
		k = wire.Nil
	}
	w := wire.Want{K: k}
	if k == wire.Slice || k == wire.Map {
		w.Sub = wire.Kind(r.N(int(wire.NKinds)))
	}
	if k == wire.Map {
		w.Key = wire.Kind(r.N(int(wire.NKinds)))
	}
	return w
}

// Wants is the sequence of reads matching a message.
func Wants(vs []wire.Val) []wire.Want {
	ws := make([]wire.Want, len(vs))
	for i, v := range vs {
		ws[i] = wire.WantOf(v)
	}
	return ws
}
