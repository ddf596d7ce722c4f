package impl

import (
	"runtime"

	"verifsim/gmsg"
	p1 "verifsim/poly/v1"
	p2 "verifsim/poly/v2"
	"verifsim/simrt"
)

// GenRes is the result of one generated decode.
type GenRes struct {
	OK    bool
	M     *gmsg.Msg
	N     int // bytes consumed, -1 if the interface does not say
	Err   string
	Crash string
	Alloc int64
	Obj   any // the Go object
}

// GenImpl is generated code of one language.
type GenImpl interface {
	Name() string
	// Encode encodes m after prefix.
	Encode(s *gmsg.Schema, t int, m *gmsg.Msg, prefix []byte) (out []byte, crash string)
	// ErrorReply encodes an error in place of a message.
	ErrorReply(s *gmsg.Schema, t int, text string) (out []byte, crash string)
	// Decode decodes a message at offset at of in.
	Decode(s *gmsg.Schema, t int, in []byte, at int) GenRes
	Lax() gmsg.Lax
	Restart()
	Growth(s *gmsg.Schema) int64
}

type gen1 interface {
	Encode(*p1.Buffer)
	Decode([]byte) error
	Error(*p1.Buffer, error)
}
type gen2 interface {
	Encode(*p2.Buffer)
	Decode([]byte) error
	Error(*p2.Buffer, error)
}

// GenGo is the generated code for one of the Go modules.
type GenGo struct{ Ver int }

func (g *GenGo) Name() string { return (&GoImpl{g.Ver}).Name() }
func (g *GenGo) Restart()     {}
func (g *GenGo) Lax() gmsg.Lax {
	return gmsg.Lax{Single: g.Ver == 1, Element: true}
}
func (g *GenGo) Growth(s *gmsg.Schema) int64 { return s.Growth(g.Ver) }

func genBudget(n int) int64 { return 40000 + 2000*int64(n) }

// CallGen runs fn, describing how it crashed.
func CallGen(n int, what string, fn func()) string {
	return simrt.R.Budgeted(genBudget(n), fn)
}

// EncodeObj encodes a generated object into a buffer that holds prefix.
func (g *GenGo) EncodeObj(o any, prefix []byte, size int) (out []byte, crash string) {
	crash = CallGen(size, "generated Encode", func() {
		if g.Ver == 1 {
			b := p1.NewBuffer()
			b.Write(prefix)
			o.(gen1).Encode(b)
			out = b.Bytes()
		} else {
			b := p2.NewBuffer()
			b.Write(prefix)
			o.(gen2).Encode(b)
			out = b.Bytes()
		}
	})
	return
}

// DecodeObj decodes into a generated object.
func (g *GenGo) DecodeObj(o any, in []byte) (err string, crash string) {
	crash = CallGen(len(in), "generated Decode", func() {
		var e error
		if g.Ver == 1 {
			e = o.(gen1).Decode(in)
		} else {
			e = o.(gen2).Decode(in)
		}
		if e != nil {
			err = "E:" + e.Error()
		}
	})
	return
}

func (g *GenGo) Encode(s *gmsg.Schema, t int, m *gmsg.Msg, prefix []byte) ([]byte, string) {
	return g.EncodeObj(s.Object(g.Ver, t, m), prefix, 4*len(s.Encode(nil, t, m)))
}

func (g *GenGo) ErrorReply(s *gmsg.Schema, t int, text string) (out []byte, crash string) {
	o := s.New[g.Ver][t]()
	crash = CallGen(len(text), "generated Error", func() {
		if g.Ver == 1 {
			b := p1.NewBuffer()
			o.(gen1).Error(b, TextError(text))
			out = b.Bytes()
		} else {
			b := p2.NewBuffer()
			o.(gen2).Error(b, TextError(text))
			out = b.Bytes()
		}
	})
	return
}

func (g *GenGo) Decode(s *gmsg.Schema, t int, in []byte, at int) (r GenRes) {
	r.N, r.Alloc = -1, -1
	v := newRecv(in[at:])
	var o any
	var m0, m1 runtime.MemStats
	if MeasureAlloc {
		runtime.ReadMemStats(&m0)
	}
	if r.Crash = CallGen(0, "constructor", func() { o = s.New[g.Ver][t]() }); r.Crash == "" {
		r.Err, r.Crash = g.DecodeObj(o, v.in)
	}
	if MeasureAlloc {
		runtime.ReadMemStats(&m1)
		r.Alloc = int64(m1.TotalAlloc - m0.TotalAlloc)
	}
	if r.Crash == "" {
		r.Crash = v.check()
	}
	r.OK = r.Err == "" && r.Crash == ""
	if r.OK {
		r.M, r.Obj = s.Value(t, o), o
	}
	return
}

// GenRust is the generated Rust code, in the Rust node.
type GenRust struct{}

func (g *GenRust) Name() string                { return "rust" }
func (g *GenRust) Restart()                    { GetNode("rust").Restart() }
func (g *GenRust) Lax() gmsg.Lax               { return gmsg.Lax{} }
func (g *GenRust) Growth(s *gmsg.Schema) int64 { return s.Growth(2) }

func (n *Node) tree(s *gmsg.Schema, t int, m *gmsg.Msg) {
	one := func(f gmsg.Field, x gmsg.Node) {
		switch {
		case f.Msg >= 0:
			if x.M == nil {
				panic("harness: absent message for Rust")
			}
			n.u8(1)
			n.tree(s, f.Msg, x.M)
		case isText(f):
			n.blob(x.S)
		default:
			n.u64(x.N)
		}
	}
	for i, f := range s.Types[t].Fields {
		x := m.F[i]
		if f.Card == gmsg.One {
			one(f, x)
			continue
		}
		n.u32(uint32(len(x.L)))
		for j := range x.L {
			if f.Card == gmsg.Map {
				one(gmsg.Field{K: f.Key, Msg: -1}, x.Keys[j])
			}
			one(f, x.L[j])
		}
	}
}

func isText(f gmsg.Field) bool { return f.Msg < 0 && (f.K == 4 || f.K == 5) }

func (p *reply) tree(s *gmsg.Schema, t int) *gmsg.Msg {
	m := s.Blank(t)
	one := func(f gmsg.Field) gmsg.Node {
		switch {
		case f.Msg >= 0:
			if p.u8() == 0 {
				return gmsg.Node{}
			}
			return gmsg.Node{M: p.tree(s, f.Msg)}
		case isText(f):
			return gmsg.Node{S: string(p.blob())}
		}
		return gmsg.Node{N: p.u64()}
	}
	for i, f := range s.Types[t].Fields {
		if f.Card == gmsg.One {
			m.F[i] = one(f)
			continue
		}
		for k := p.u32(); k > 0 && !p.bad; k-- {
			if f.Card == gmsg.Map {
				m.F[i].Keys = append(m.F[i].Keys, one(gmsg.Field{K: f.Key, Msg: -1}))
			}
			m.F[i].L = append(m.F[i].L, one(f))
		}
	}
	return m
}

func (g *GenRust) Encode(s *gmsg.Schema, t int, m *gmsg.Msg, prefix []byte) ([]byte, string) {
	n := GetNode("rust")
	n.begin(cGenEnc)
	n.u8(byte(rustID(s)))
	n.u8(byte(t))
	n.u8(byte(simrt.R.N(4)))
	n.tree(s, t, m)
	n.blob(string(prefix))
	p := n.flush()
	if p.crash != "" {
		return nil, p.crash
	}
	ok, er, crash := p.status()
	if !ok {
		return nil, er + crash
	}
	return append([]byte(nil), p.blob()...), ""
}

// rustID is the number of a schema among those generated for Rust.
func rustID(s *gmsg.Schema) (n int) {
	for _, o := range gmsg.Schemas[:s.ID] {
		if o.Rust {
			n++
		}
	}
	return
}

// ErrorReply: the generated Rust code has none; servers encode the error themselves.
func (g *GenRust) ErrorReply(s *gmsg.Schema, t int, text string) ([]byte, string) {
	return (&GenGo{2}).ErrorReply(s, t, text)
}

func (g *GenRust) Decode(s *gmsg.Schema, t int, in []byte, at int) (r GenRes) {
	r.N, r.Alloc = -1, -1
	n := GetNode("rust")
	n.begin(cGenDec)
	n.u8(byte(rustID(s)))
	n.u8(byte(t))
	n.u32(uint32(at))
	n.blob(string(in))
	p := n.flush()
	if p.crash != "" {
		r.Crash = p.crash
		return
	}
	r.Alloc = int64(p.u64())
	r.OK, r.Err, r.Crash = p.status()
	if r.OK {
		r.N = int(p.u64()) - at
		if p.u8() == 1 {
			r.M = p.tree(s, t)
		}
	}
	if p.bad {
		panic("harness: short answer from node")
	}
	return
}
