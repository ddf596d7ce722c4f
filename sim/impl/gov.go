package impl

import (
	"errors"
	"math"
	"runtime"

	p1 "verifsim/poly/v1"
	p2 "verifsim/poly/v2"
	"verifsim/simrt"
	"verifsim/wire"
)

var kinds1 = [...]p1.Kind{p1.NilKind, p1.SliceKind, p1.MapKind, p1.AnyKind, p1.BytesKind, p1.StringKind, p1.ErrorKind, p1.BoolKind, p1.Uint8Kind, p1.Uint16Kind, p1.Uint32Kind, p1.Uint64Kind, p1.Int32Kind, p1.Int64Kind, p1.Float32Kind, p1.Float64Kind}
var kinds2 = [...]p2.Kind{p2.NilKind, p2.SliceKind, p2.MapKind, p2.AnyKind, p2.BytesKind, p2.StringKind, p2.ErrorKind, p2.BoolKind, p2.Uint8Kind, p2.Uint16Kind, p2.Uint32Kind, p2.Uint64Kind, p2.Int32Kind, p2.Int64Kind, p2.Float32Kind, p2.Float64Kind}

// Put1 encodes one value with the Go v1 module.
func Put1(b *p1.Buffer, v wire.Val) {
	e := p1.Encoder(b)
	switch v.K {
	case wire.Nil:
		e.Nil()
	case wire.Slice:
		e.Slice(uint32(v.N), kinds1[v.Sub])
	case wire.Map:
		e.Map(uint32(v.N), kinds1[v.Key], kinds1[v.Sub])
	case wire.Bytes:
		e.Bytes([]byte(v.S))
	case wire.String:
		e.String(v.S)
	case wire.Error:
		e.Error(TextError(v.S))
	case wire.Bool:
		e.Bool(v.N != 0)
	case wire.U8:
		e.Uint8(uint8(v.N))
	case wire.U16:
		e.Uint16(uint16(v.N))
	case wire.U32:
		e.Uint32(uint32(v.N))
	case wire.U64:
		e.Uint64(v.N)
	case wire.I32:
		e.Int32(int32(v.N))
	case wire.I64:
		e.Int64(int64(v.N))
	case wire.F32:
		e.Float32(math.Float32frombits(uint32(v.N)))
	case wire.F64:
		e.Float64(math.Float64frombits(v.N))
	default:
		panic("harness: kind")
	}
}

// Put2 encodes one value with the Go v2 module.
func Put2(b *p2.Buffer, v wire.Val) {
	e := p2.Encoder(b)
	switch v.K {
	case wire.Nil:
		e.Nil()
	case wire.Slice:
		e.Slice(uint32(v.N), kinds2[v.Sub])
	case wire.Map:
		e.Map(uint32(v.N), kinds2[v.Key], kinds2[v.Sub])
	case wire.Bytes:
		e.Bytes([]byte(v.S))
	case wire.String:
		e.String(v.S)
	case wire.Error:
		e.Error(TextError(v.S))
	case wire.Bool:
		e.Bool(v.N != 0)
	case wire.U8:
		e.Uint8(uint8(v.N))
	case wire.U16:
		e.Uint16(uint16(v.N))
	case wire.U32:
		e.Uint32(uint32(v.N))
	case wire.U64:
		e.Uint64(v.N)
	case wire.I32:
		e.Int32(int32(v.N))
	case wire.I64:
		e.Int64(int64(v.N))
	case wire.F32:
		e.Float32(math.Float32frombits(uint32(v.N)))
	case wire.F64:
		e.Float64(math.Float64frombits(v.N))
	default:
		panic("harness: kind")
	}
}

type goDecoder interface {
	Nil() bool
	Bytes([]byte) ([]byte, error)
	String() (string, error)
	Error() (error, error)
	Bool() (bool, error)
	Uint8() (uint8, error)
	Uint16() (uint16, error)
	Uint32() (uint32, error)
	Uint64() (uint64, error)
	Int32() (int32, error)
	Int64() (int64, error)
	Float32() (float32, error)
	Float64() (float64, error)
}

func getGo(d goDecoder, w wire.Want, slice func(wire.Kind) (uint32, error), mp func(k, v wire.Kind) (uint32, error), donate []byte) (v wire.Val, err error, fail string) {
	v = wire.Val{K: w.K, Key: w.Key, Sub: w.Sub}
	switch w.K {
	case wire.Nil:
		if !d.Nil() {
			fail = "not nil"
		}
	case wire.Slice:
		var n uint32
		n, err = slice(w.Sub)
		v.N = uint64(n)
	case wire.Map:
		var n uint32
		n, err = mp(w.Key, w.Sub)
		v.N = uint64(n)
	case wire.Bytes:
		var b []byte
		b, err = d.Bytes(donate)
		v.S = string(b)
	case wire.String:
		v.S, err = d.String()
	case wire.Error:
		var e error
		e, err = d.Error()
		if err == nil {
			if e == nil {
				fail = "nil error value"
			} else {
				v.S = e.Error()
				if len(v.S) < 4096 && !onlyItself(e, v.S) {
					fail = "errors.Is does not tell it from other errors"
				}
			}
		}
	case wire.Bool:
		var x bool
		x, err = d.Bool()
		if x {
			v.N = 1
		}
	case wire.U8:
		var x uint8
		x, err = d.Uint8()
		v.N = uint64(x)
	case wire.U16:
		var x uint16
		x, err = d.Uint16()
		v.N = uint64(x)
	case wire.U32:
		var x uint32
		x, err = d.Uint32()
		v.N = uint64(x)
	case wire.U64:
		v.N, err = d.Uint64()
	case wire.I32:
		var x int32
		x, err = d.Int32()
		v.N = uint64(int64(x))
	case wire.I64:
		var x int64
		x, err = d.Int64()
		v.N = uint64(x)
	case wire.F32:
		var x float32
		x, err = d.Float32()
		v.N = uint64(math.Float32bits(x))
	case wire.F64:
		var x float64
		x, err = d.Float64()
		v.N = math.Float64bits(x)
	}
	return
}

// Get1 reads one value from a v1 decoder.
func Get1(d *p1.Decoder, w wire.Want, donate []byte) (v wire.Val, err error, fail string) {
	return getGo(d, w, func(k wire.Kind) (uint32, error) { return d.Slice(kinds1[k]) }, func(k, x wire.Kind) (uint32, error) { return d.Map(kinds1[k], kinds1[x]) }, donate)
}

// Get2 reads one value from a v2 decoder.
func Get2(d *p2.BufferDecoder, w wire.Want, donate []byte) (v wire.Val, err error, fail string) {
	return getGo(d, w, func(k wire.Kind) (uint32, error) { return d.Slice(kinds2[k]) }, func(k, x wire.Kind) (uint32, error) { return d.Map(kinds2[k], kinds2[x]) }, donate)
}

// GoImpl is one of the Go modules.
type GoImpl struct{ Ver int }

func (g *GoImpl) Name() string {
	if g.Ver == 1 {
		return "go-v1"
	}
	return "go-v2"
}
func (g *GoImpl) Caps() Caps { return Caps{} }
func (g *GoImpl) Restart()   {}

type enc1 struct{ b *p1.Buffer }

func (e *enc1) Put(v wire.Val) string {
	return callGo(len(v.S), "encode "+v.K.String(), func() { Put1(e.b, v) })
}
func (e *enc1) Bytes() []byte { return e.b.Bytes() }
func (e *enc1) Close()        {}

type enc2 struct{ b *p2.Buffer }

func (e *enc2) Put(v wire.Val) string {
	return callGo(len(v.S), "encode "+v.K.String(), func() { Put2(e.b, v) })
}
func (e *enc2) Bytes() []byte { return e.b.Bytes() }
func (e *enc2) Close()        {}

func (g *GoImpl) NewEnc() Enc {
	if g.Ver == 1 {
		return &enc1{p1.NewBuffer()}
	}
	return &enc2{p2.NewBuffer()}
}

// recv is the memory a Go receiver reads from: the input alone, or a piece of
// a larger buffer whose other bytes are somebody else's.
type recv struct {
	whole, in, want []byte
	donate          int
	scratch         []byte
}

const secret = 5 // other bytes look like encoded data

func newRecv(in []byte) *recv {
	v := &recv{donate: simrt.R.N(3)}
	pre, post := 0, 0
	if simrt.R.N(2) == 1 {
		pre, post = 8, 40
	}
	v.whole = make([]byte, pre+len(in)+post)
	for i := range v.whole {
		v.whole[i] = secret
	}
	copy(v.whole[pre:], in)
	v.want = append([]byte(nil), v.whole...)
	v.in = v.whole[pre : pre+len(in)]
	switch v.donate {
	case 1:
		v.scratch = make([]byte, 3, 300)
	case 2:
		v.scratch = make([]byte, 64)
		for i := range v.scratch {
			v.scratch[i] = 0xee
		}
	}
	return v
}

// give is what the caller offers for the next blob.
func (v *recv) give() []byte { return v.scratch }
func (v *recv) check() string {
	if string(v.whole) != string(v.want) {
		return "the input memory was modified"
	}
	return ""
}

type dec1 struct {
	d *p1.Decoder
	v *recv
}

func (x *dec1) Get(w wire.Want) (r Res) {
	r.Crash = callGo(len(x.v.in), "decode "+w.K.String(), func() {
		var err error
		r.V, err, r.Err = Get1(x.d, w, x.v.give())
		fin(&r, err)
	})
	return
}
func (x *dec1) Close() string {
	if c := callGo(0, "return", func() { x.d.Return() }); c != "" {
		return c
	}
	return x.v.check()
}

type dec2 struct {
	d *p2.BufferDecoder
	v *recv
}

func (x *dec2) Get(w wire.Want) (r Res) {
	r.Crash = callGo(len(x.v.in), "decode "+w.K.String(), func() {
		var err error
		r.V, err, r.Err = Get2(x.d, w, x.v.give())
		fin(&r, err)
	})
	return
}
func (x *dec2) Close() string { return x.v.check() }

func fin(r *Res, err error) {
	if err != nil {
		r.Err = "E:" + errStr(err)
	}
	r.OK = r.Err == ""
}

func (g *GoImpl) NewDec(in []byte) Dec {
	v := newRecv(in)
	if g.Ver == 1 {
		var d *p1.Decoder
		callGo(len(in), "GetDecoder", func() { d = p1.GetDecoder(v.in) })
		return &dec1{d, v}
	}
	return &dec2{p2.Decoder(v.in), v}
}

func (g *GoImpl) EncodeAll(vs []wire.Val) ([]byte, string) {
	e := g.NewEnc()
	for _, v := range vs {
		if c := e.Put(v); c != "" {
			return nil, c
		}
	}
	return append([]byte(nil), e.Bytes()...), ""
}

// MeasureAlloc switches allocation accounting on.
var MeasureAlloc bool

func (g *GoImpl) DecodeAll(in []byte, ws []wire.Want) (rs []Res, alloc int64, crash string) {
	rs = make([]Res, len(ws))
	alloc = -1
	var m0, m1 runtime.MemStats
	d := g.NewDec(in)
	if MeasureAlloc {
		// what the harness itself allocates per read is within the constant
		runtime.ReadMemStats(&m0)
	}
	for i, w := range ws {
		rs[i] = d.Get(w)
		if rs[i].Crash != "" {
			crash = rs[i].Crash
			break
		}
	}
	if crash == "" {
		crash = d.Close()
	}
	if MeasureAlloc {
		runtime.ReadMemStats(&m1)
		alloc = int64(m1.TotalAlloc - m0.TotalAlloc)
	}
	return
}

var _ = simrt.Yield

// onlyItself says whether an error compares as equal to one of the same text,
// and to none of other texts close to it.
func onlyItself(e error, s string) bool {
	if !errors.Is(e, TextError(s)) {
		return false
	}
	near := []string{s + "x", "x" + s, s + " ", s + s + "."}
	if n := len(s); n > 0 {
		near = append(near, s[:n-1], s[1:], s[:n/2], "", s[:n-1]+string([]byte{s[n-1] ^ 0x20}), string([]byte{s[0] ^ 0x20})+s[1:])
	}
	for _, x := range near {
		if x != s && errors.Is(e, TextError(x)) {
			return false
		}
	}
	return true
}
