// Package wire is the harness's own model of the wire format: an independent
// encoder and an oracle for what a read of given bytes must do.
package wire

import (
	"fmt"
	"math"
)

type Kind uint8

const (
	Nil Kind = iota
	Slice
	Map
	Any
	Bytes
	String
	Error
	Bool
	U8
	U16
	U32
	U64
	I32
	I64
	F32
	F64
	NKinds
)

var kindNames = [...]string{"nil", "slice", "map", "any", "bytes", "string", "error", "bool", "u8", "u16", "u32", "u64", "i32", "i64", "f32", "f64"}

func (k Kind) String() string {
	if int(k) < len(kindNames) {
		return kindNames[k]
	}
	return fmt.Sprintf("kind%d", uint8(k))
}

// Val is one encoded item: a scalar, a text, a blob or the header of a list or map.
type Val struct {
	K        Kind
	Key, Sub Kind   // element kinds of a list (Sub) or map (Key, Sub)
	N        uint64 // scalar bits: unsigned value, two's complement, float bits, bool, element count
	S        string
}

func (v Val) String() string {
	switch v.K {
	case Nil:
		return "nil"
	case Slice:
		return fmt.Sprintf("slice[%d]%v", v.N, v.Sub)
	case Map:
		return fmt.Sprintf("map[%d]%v:%v", v.N, v.Key, v.Sub)
	case Bytes, String, Error:
		if len(v.S) > 24 {
			return fmt.Sprintf("%v(len %d, %q...)", v.K, len(v.S), v.S[:24])
		}
		return fmt.Sprintf("%v(%q)", v.K, v.S)
	case I32:
		return fmt.Sprintf("i32(%d)", int32(v.N))
	case I64:
		return fmt.Sprintf("i64(%d)", int64(v.N))
	case F32:
		return fmt.Sprintf("f32(%08x=%v)", uint32(v.N), math.Float32frombits(uint32(v.N)))
	case F64:
		return fmt.Sprintf("f64(%016x=%v)", v.N, math.Float64frombits(v.N))
	}
	return fmt.Sprintf("%v(%d)", v.K, v.N)
}

// Want is what a reader asks for.
type Want struct {
	K, Key, Sub Kind
}

func (w Want) String() string {
	switch w.K {
	case Slice:
		return "slice of " + w.Sub.String()
	case Map:
		return "map of " + w.Key.String() + ":" + w.Sub.String()
	}
	return w.K.String()
}

// WantOf is the read that matches v.
func WantOf(v Val) Want { return Want{v.K, v.Key, v.Sub} }

func uv(b []byte, x uint64) []byte {
	for x > 127 {
		b = append(b, byte(x%128)+128)
		x /= 128
	}
	return append(b, byte(x))
}

func be(b []byte, x uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}

// Append encodes v after b.
func Append(b []byte, v Val) []byte {
	switch v.K {
	case Nil, Any:
		return append(b, byte(v.K))
	case Slice:
		b = append(b, byte(Slice), byte(v.Sub), byte(U32))
		return uv(b, uint64(uint32(v.N)))
	case Map:
		b = append(b, byte(Map), byte(v.Key), byte(v.Sub), byte(U32))
		return uv(b, uint64(uint32(v.N)))
	case Bytes, String:
		b = append(b, byte(v.K), byte(U32))
		b = uv(b, uint64(len(v.S)))
		return append(b, v.S...)
	case Error:
		b = append(b, byte(Error), byte(String), byte(U32))
		b = uv(b, uint64(len(v.S)))
		return append(b, v.S...)
	case Bool, U8:
		return append(b, byte(v.K), byte(v.N))
	case U16, U32, U64:
		return uv(append(b, byte(v.K)), v.N)
	case I32:
		x := int64(int32(v.N))
		return uv(append(b, byte(v.K)), zig(x))
	case I64:
		return uv(append(b, byte(v.K)), zig(int64(v.N)))
	case F32:
		return be(append(b, byte(v.K)), v.N, 4)
	case F64:
		return be(append(b, byte(v.K)), v.N, 8)
	}
	panic("wire: bad kind")
}

func zig(x int64) uint64 {
	if x < 0 {
		return uint64(-(x+1))*2 + 1
	}
	return uint64(x) * 2
}

// Encode encodes a whole message.
func Encode(vs []Val) []byte {
	var b []byte
	for _, v := range vs {
		b = Append(b, v)
	}
	return b
}

// Outcome of the oracle.
type Outcome int

const (
	OK    Outcome = iota // a canonical value of the wanted type is next
	Short                // the input ends inside what could be such a value
	Wrong                // the next value is (or begins like) one of another type
	Odd                  // damaged in a way the oracle does not judge
	Unfit                // an integer, length or count that does not fit its type
)

func (o Outcome) String() string { return [...]string{"ok", "short", "wrong", "odd", "unfit"}[o] }

// uvar reads a canonical varint of at most max bits.
func uvar(b []byte, bits int) (x uint64, n int, o Outcome) {
	maxLen := (bits + 6) / 7
	for i := 0; i < maxLen; i++ {
		if i >= len(b) {
			return 0, 0, Short
		}
		c := b[i]
		if i*7+7 > bits && c < 128 && int(c)>>(uint(bits-i*7)) != 0 {
			return 0, 0, Unfit
		}
		x |= uint64(c&127) << (7 * i)
		if c < 128 {
			if i > 0 && c == 0 {
				return 0, 0, Odd // not the shortest form
			}
			return x, i + 1, OK
		}
	}
	return 0, 0, Unfit // longer than the type ever needs
}

func blob(b []byte) (s string, n int, o Outcome) {
	if len(b) == 0 {
		return "", 0, Short
	}
	if b[0] != byte(U32) {
		return "", 0, Odd
	}
	l, m, o := uvar(b[1:], 32)
	if o != OK {
		return "", 0, o
	}
	if uint64(len(b)-1-m) < l {
		return "", 0, Short
	}
	return string(b[1+m : 1+m+int(l)]), 1 + m + int(l), OK
}

// Read says what reading w at the start of b must do, and how many bytes a
// successful read takes.
func Read(b []byte, w Want) (v Val, n int, o Outcome) {
	v = Val{K: w.K, Key: w.Key, Sub: w.Sub}
	if len(b) == 0 {
		return v, 0, Short
	}
	if b[0] != byte(w.K) {
		return v, 0, Wrong
	}
	rest := b[1:]
	switch w.K {
	case Nil, Any:
		return v, 1, OK
	case Slice:
		if len(rest) < 1 {
			return v, 0, Short
		}
		if rest[0] != byte(w.Sub) {
			return v, 0, Wrong
		}
		return header(v, rest[1:], 2)
	case Map:
		if len(rest) < 1 {
			return v, 0, Short
		}
		if rest[0] != byte(w.Key) {
			return v, 0, Wrong
		}
		if len(rest) < 2 {
			return v, 0, Short
		}
		if rest[1] != byte(w.Sub) {
			return v, 0, Wrong
		}
		return header(v, rest[2:], 3)
	case Bytes, String:
		s, m, o := blob(rest)
		if o != OK {
			return v, 0, o
		}
		v.S = s
		return v, 1 + m, OK
	case Error:
		if len(rest) < 1 {
			return v, 0, Short
		}
		if rest[0] != byte(String) {
			return v, 0, Odd
		}
		s, m, o := blob(rest[1:])
		if o != OK {
			return v, 0, o
		}
		v.S = s
		return v, 2 + m, OK
	case Bool:
		if len(rest) < 1 {
			return v, 0, Short
		}
		if rest[0] > 1 {
			return v, 0, Odd
		}
		v.N = uint64(rest[0])
		return v, 2, OK
	case U8:
		if len(rest) < 1 {
			return v, 0, Short
		}
		v.N = uint64(rest[0])
		return v, 2, OK
	case U16, U32, U64, I32, I64:
		bits := map[Kind]int{U16: 16, U32: 32, U64: 64, I32: 32, I64: 64}[w.K]
		x, m, o := uvar(rest, bits)
		if o != OK {
			return v, 0, o
		}
		if w.K == I32 || w.K == I64 {
			if x%2 == 1 {
				x = ^(x >> 1)
			} else {
				x >>= 1
			}
			if w.K == I32 {
				x = uint64(int64(int32(x)))
			}
		}
		v.N = x
		return v, 1 + m, OK
	case F32, F64:
		k := 4
		if w.K == F64 {
			k = 8
		}
		if len(rest) < k {
			return v, 0, Short
		}
		for i := 0; i < k; i++ {
			v.N = v.N<<8 | uint64(rest[i])
		}
		return v, 1 + k, OK
	}
	return v, 0, Odd
}

func header(v Val, rest []byte, n int) (Val, int, Outcome) {
	if len(rest) == 0 {
		return v, 0, Short
	}
	if rest[0] != byte(U32) {
		return v, 0, Odd
	}
	x, m, o := uvar(rest[1:], 32)
	if o != OK {
		return v, 0, o
	}
	v.N = x
	return v, n + 1 + m, OK
}

// Norm gives the comparison form of a value (signed scalars as 64-bit two's complement).
func Norm(v Val) Val {
	switch v.K {
	case I32:
		v.N = uint64(int64(int32(v.N)))
	case F32, U32:
		v.N = uint64(uint32(v.N))
	}
	if v.K == Slice || v.K == Map {
		v.N = uint64(uint32(v.N))
	}
	return v
}

// Eq compares two values bit for bit, except that any NaN equals any NaN of
// the same kind when nan is set (languages may quieten a signalling NaN).
func Eq(a, b Val, nan bool) bool {
	a, b = Norm(a), Norm(b)
	if a == b {
		return true
	}
	if nan && a.K == b.K {
		if a.K == F32 {
			return isNaN32(a.N) && isNaN32(b.N)
		}
		if a.K == F64 {
			return math.IsNaN(math.Float64frombits(a.N)) && math.IsNaN(math.Float64frombits(b.N))
		}
	}
	return false
}

func isNaN32(n uint64) bool { f := math.Float32frombits(uint32(n)); return f != f }

// AppendClaim encodes v with n in place of its length or count.
func AppendClaim(b []byte, v Val, n uint64) []byte {
	switch v.K {
	case Slice:
		return uv(append(b, byte(Slice), byte(v.Sub), byte(U32)), n)
	case Map:
		return uv(append(b, byte(Map), byte(v.Key), byte(v.Sub), byte(U32)), n)
	case Bytes, String:
		return append(uv(append(b, byte(v.K), byte(U32)), n), v.S...)
	case Error:
		return append(uv(append(b, byte(Error), byte(String), byte(U32)), n), v.S...)
	}
	panic("wire: no length")
}

// IsInt tells the integers of varying length.
func IsInt(k Kind) bool {
	return k == U16 || k == U32 || k == U64 || k == I32 || k == I64
}

// Unzig undoes the zig-zag encoding.
func Unzig(x uint64) uint64 {
	if x%2 == 1 {
		return ^(x >> 1)
	}
	return x >> 1
}
