package worlds

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifsim/gen"
	"verifsim/impl"
	p1 "verifsim/poly/v1"
	p2 "verifsim/poly/v2"
	"verifsim/simrt"
	"verifsim/wire"
)

// gobuf is a Go buffer of either module under one face.
type gobuf struct {
	ver   int
	b1    *p1.Buffer
	b2    *p2.Buffer
	whole []byte // memory around a caller-supplied slice
	lo    int
	hi    int
	pool  bool
}

func newGobuf(r *simrt.Run, ver int) (g *gobuf, init []byte, what string) {
	g = &gobuf{ver: ver}
	o := r.N(5)
	caps := []int{0, 1, 2, 3, 5, 8, 10, 11, 16, 31, 64, 100, 511, 512, 513}
	c := caps[r.N(len(caps))]
	supply := func() []byte {
		g.whole = make([]byte, 32+c+32)
		for i := range g.whole {
			g.whole[i] = 0x5e
		}
		g.lo, g.hi = 32, 32+c
		return g.whole[32 : 32+c : 32+c]
	}
	if ver == 1 {
		switch o {
		case 0:
			g.b1 = p1.NewBuffer()
			what = "NewBuffer()"
		case 1:
			x := make(p1.Buffer, 0, c)
			g.b1 = &x
			what = fmt.Sprintf("Buffer of capacity %d", c)
		case 2:
			g.b1 = new(p1.Buffer)
			what = "empty Buffer"
		case 3:
			x := p1.Buffer(supply()[:0])
			g.b1 = &x
			what = fmt.Sprintf("caller's slice of capacity %d", c)
		default:
			s := supply()
			k := 0
			if c > 0 {
				k = r.N(c + 1)
			}
			x := p1.Buffer(s[:k])
			init = append([]byte(nil), s[:k]...)
			g.b1 = &x
			what = fmt.Sprintf("caller's slice of length %d, capacity %d", k, c)
		}
		return
	}
	switch o {
	case 0:
		g.b2 = p2.NewBuffer()
		what = "NewBuffer()"
	case 1:
		g.b2 = p2.NewBufferSize(c)
		what = fmt.Sprintf("NewBufferSize(%d)", c)
	case 2:
		g.b2 = p2.GetBuffer()
		g.pool = true
		what = "GetBuffer()"
	case 3:
		g.b2 = p2.NewBufferFromBytes(supply())
		what = fmt.Sprintf("NewBufferFromBytes(len %d)", c)
	default:
		s := supply()
		k := 0
		if c > 0 {
			k = r.N(c + 1)
		}
		g.b2 = p2.NewBufferFromBytes(s[:k])
		what = fmt.Sprintf("NewBufferFromBytes(len %d, cap %d)", k, c)
	}
	return
}

func (g *gobuf) bytes() []byte {
	if g.ver == 1 {
		return g.b1.Bytes()
	}
	return g.b2.Bytes()
}
func (g *gobuf) length() int {
	if g.ver == 1 {
		return g.b1.Len()
	}
	return g.b2.Len()
}
func (g *gobuf) capacity() int {
	if g.ver == 1 {
		return cap(*g.b1)
	}
	return g.b2.Cap()
}
func (g *gobuf) put(v wire.Val) {
	if g.ver == 1 {
		impl.Put1(g.b1, v)
	} else {
		impl.Put2(g.b2, v)
	}
}
func (g *gobuf) write(b []byte) int {
	if g.ver == 1 {
		return g.b1.Write(b)
	}
	return g.b2.Write(b)
}

// outside tells whether the memory next to a caller's slice is untouched.
func (g *gobuf) outside() bool {
	for i, x := range g.whole {
		if (i < g.lo || i >= g.hi) && x != 0x5e {
			return false
		}
	}
	return true
}

// C08Go: histories of one Go buffer against a list of bytes.
func C08Go(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		ver := 1 + r.N(2)
		g, model, what := newGobuf(r, ver)
		who := fmt.Sprintf("go-v%d", ver)
		p := gen.Profile{MaxItems: 3, MaxText: 300, BigOneIn: 80, Big: 300000}
		gen.Focus(r, &p)
		r.Log("%s %s", who, what)
		var sample strings.Builder
		fmt.Fprintf(&sample, "%s %s:", who, what)
		steps := 1 + r.N(14)
		grew := false
		for i := 0; i < steps && !r.Failed(); i++ {
			c0 := g.capacity()
			did := ""
			crash := ""
			run := func(n int, fn func()) { crash = r.Budgeted(20000+400*int64(n), fn) }
			switch k := r.N(14); {
			case k < 5:
				for _, v := range gen.Message(r, p) {
					did = "encodes " + v.String()
					run(len(v.S), func() { g.put(v) })
					model = wire.Append(model, v)
					if crash != "" {
						break
					}
				}
			case k < 8: // up to just before, at or beyond the end of the storage
				room := c0 - g.length()
				if r.N(3) == 0 {
					t := []int{512, 1024, 2048, 4096, 16384, 65536}[r.N(6)]
					room = t - g.length()
				}
				n := room - 12 + r.N(16)
				if n < 0 || n > 200000 {
					n = r.N(30)
				}
				s := gen.Fill(r, n, false, false)
				if r.N(2) == 0 {
					did = fmt.Sprintf("writes %d raw bytes", n)
					run(n, func() {
						if m := g.write([]byte(s)); m != n {
							panic(fmt.Sprintf("Write reports %d of %d bytes", m, n))
						}
					})
					model = append(model, s...)
				} else {
					v := wire.Val{K: []wire.Kind{wire.Bytes, wire.String, wire.Error}[r.N(3)], S: s}
					did = "encodes " + v.String()
					run(n, func() { g.put(v) })
					model = wire.Append(model, v)
				}
				if crash == "" {
					v := gen.Scalar(r, p, []wire.Kind{wire.U64, wire.I64, wire.F64, wire.U32, wire.U16, wire.Nil, wire.Bool, wire.U8, wire.F32, wire.I32}[r.N(10)])
					did += " then " + v.String()
					run(0, func() { g.put(v) })
					model = wire.Append(model, v)
				}
			case k == 8:
				did = "writes raw bytes"
				s := []byte(gen.Text(r, p, false))
				keep := string(s)
				run(len(s), func() { g.write(s) })
				model = append(model, keep...)
				for j := range s { // the caller goes on using its memory
					s[j] = 0xee
				}
			case k == 9:
				did = "resets"
				run(0, func() {
					if ver == 1 {
						g.b1.Reset()
					} else {
						g.b2.Reset()
					}
				})
				model = model[:0:0]
				r.Count("resets")
			case k == 10 && ver == 2:
				n := r.N(700)
				did = fmt.Sprintf("grows by %d", n)
				run(n, func() { g.b2.Grow(n) })
				if crash == "" && g.capacity()-g.length() < n {
					r.Fail("grow", "%s: after Grow(%d) only %d bytes are free", who, n, g.capacity()-g.length())
				}
			case k == 11 && ver == 2 && len(model) > 0: // drops what it wrote last
				n := r.N(min(len(model), 40))
				did = fmt.Sprintf("moves back %d", n)
				run(0, func() { g.b2.MoveOffset(-n) })
				model = model[: len(model)-n : len(model)-n]
			case k == 12 && ver == 2 && g.pool: // gives the buffer back and takes one
				did = "returns it and takes another"
				run(0, func() { p2.PutBuffer(g.b2); g.b2 = p2.GetBuffer() })
				model = model[:0:0]
				r.Count("pool_round_trips")
			case faulty: // an encode that is aborted half-way
				before := len(model)
				did = "aborts encoding an error"
				e := &slowErr{text: "x", mode: 3, ver: ver}
				c := r.Budgeted(40000, func() {
					if ver == 1 {
						p1.Encoder(g.b1).Error(e)
					} else {
						p2.Encoder(g.b2).Error(e)
					}
				})
				r.Count("fault_caller_panic_in_encode")
				if c != "injected" {
					crash = "the caller's panic became: " + c
				}
				now := g.bytes()
				if len(now) < before || !bytes.Equal(now[:before], model) {
					r.Fail("abort", "%s: an aborted encode changed what the buffer held", who)
					return
				}
				model = append([]byte(nil), now...)
			default:
				did = "encodes nothing"
			}
			fmt.Fprintf(&sample, " %s;", did)
			r.Log("step %d: %s", i, did)
			if crash != "" {
				r.Fail(who+"-crash", "%s (%s), step %d, %s: %s", who, what, i, did, crash)
				return
			}
			if g.capacity() > c0 {
				grew = true
				r.Count("storage_growths")
			}
			r.Ev(uint64(len(model)), uint64(g.capacity()))
			if got := g.bytes(); !bytes.Equal(got, model) || g.length() != len(model) {
				r.Fail(who+"-content", "%s (%s): after it %s, it holds %s instead of %s", who, what, did, diffAt(got, model), short(model))
				return
			}
			if !g.outside() {
				r.Fail(who+"-outside", "%s (%s): when it %s, memory next to the caller's slice was overwritten", who, what, did)
				return
			}
		}
		r.EvB(model)
		r.Mark(r.Hash())
		r.Sample("%s", sample.String())
		r.NonTriv = grew || len(model) > 0
	}
}

func diffAt(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%s (first difference at byte %d)", short(got), i)
}

// C08Other: the same for the other languages' encoders.
func C08Other(r *simrt.Run) {
	m := &impl.RemoteImpl{Lang: []string{"ts", "rust", "c"}[r.N(3)]}
	who := m.Lang
	o := impl.EncOrigin{Mode: byte(r.N(3)), Cap: []uint32{0, 1, 2, 3, 5, 9, 11, 64, 511, 512, 513}[r.N(11)]}
	p := profileFor([]impl.Impl{m})
	p.MaxItems, p.MaxText, p.BigOneIn = 3, 300, 100
	gen.Focus(r, &p)
	size := int(o.Cap)
	if o.Mode == 0 {
		size = 512
	}
	r.Log("%s encoder, origin %d of %d bytes", who, o.Mode, o.Cap)
	var sample strings.Builder
	fmt.Fprintf(&sample, "%s origin %d capacity %d:", who, o.Mode, o.Cap)
	e := m.NewEncFrom(o)
	var model []byte
	pos := 0
	put := func(b []byte) {
		model = append(model[:pos:pos], append(b, model[min(len(model), pos+len(b)):]...)...)
		pos += len(b)
	}
	var cur impl.Cursored
	if who == "rust" && r.N(2) == 0 {
		cur = e.(impl.Cursored)
	}
	steps := 1 + r.N(10)
	for i := 0; i < steps; i++ {
		if cur != nil && r.N(2) == 0 {
			var c string
			if r.N(2) == 0 {
				// from here on what it holds is overwritten
				pos = []int{0, len(model), r.N(len(model) + 1)}[r.N(3)]
				r.Log("the cursor is set to %d of %d", pos, len(model))
				fmt.Fprintf(&sample, " cursor to %d", pos)
				c = cur.Seek(pos)
				r.Count("cursor_moves")
			} else {
				b := gen.Fill(r, r.N(40), false, false)
				r.Log("writes %d bytes", len(b))
				fmt.Fprintf(&sample, " raw %d", len(b))
				put([]byte(b))
				c = cur.Raw(b)
				r.Count("raw_writes")
			}
			if c != "" {
				r.Fail(who+"-crash", "%s (origin %d, %d bytes) with a cursor moved: %s", who, o.Mode, o.Cap, c)
				return
			}
		}
		var vs []wire.Val
		if r.N(2) == 0 {
			vs = gen.Message(r, p)
		} else {
			room := size - len(model)
			if r.N(3) == 0 || room < 0 {
				room = []int{512, 1024, 2048, 4096, 16384, 65536}[r.N(6)] - len(model)
			}
			n := room - 12 + r.N(16)
			if n < 0 || n > 70000 {
				n = r.N(30)
			}
			k := []wire.Kind{wire.Bytes, wire.String, wire.Error}[r.N(3)]
			vs = append(vs, wire.Val{K: k, S: gen.Fill(r, n, p.UTF8, p.NoNul)}, gen.Scalar(r, p, []wire.Kind{wire.U64, wire.I64, wire.F64, wire.U32, wire.U16, wire.Nil, wire.Bool, wire.U8, wire.F32, wire.I32}[r.N(10)]))
		}
		for _, v := range vs {
			r.Log("encodes %v", v)
			fmt.Fprintf(&sample, " %v", v)
			if c := e.Put(v); c != "" {
				r.Fail(who+"-crash", "%s (origin %d, %d bytes), with %d bytes in it: encoding %v: %s", who, o.Mode, o.Cap, len(model), v, c)
				return
			}
			put(wire.Append(nil, v))
		}
		if r.N(2) == 0 || i == steps-1 {
			if cur != nil {
				if p := cur.Pos(); p != pos {
					r.Fail(who+"-position", "%s (origin %d, %d bytes): the cursor stands at %d after values that end at %d", who, o.Mode, o.Cap, p, pos)
					return
				}
			}
			if got := e.Bytes(); !bytes.Equal(got, model) {
				r.Fail(who+"-content", "%s (origin %d, %d bytes) holds %s instead of %s", who, o.Mode, o.Cap, diffAt(got, model), short(model))
				return
			}
		}
	}
	e.Close()
	r.EvB(model)
	r.Mark(r.Hash())
	r.Sample("%s", sample.String())
	r.NonTriv = true
}

// few lets only three at a time on this machine use much memory.
func few() (done func()) {
	for {
		for i := 0; i < 3; i++ {
			lock, err := os.OpenFile(filepath.Join(os.Getenv("VERIFSIM_BUILD"), fmt.Sprintf("giant%d.lock", i)), os.O_CREATE|os.O_RDWR, 0o600)
			if err != nil {
				return func() {}
			}
			if syscall.Flock(int(lock.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil {
				return func() { lock.Close() }
			}
			lock.Close()
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// C08Giant: payloads whose length needs all bytes of the length prefix.
func C08Giant(inGo bool) func(r *simrt.Run) {
	return func(r *simrt.Run) { c08Giant(r, inGo) }
}

func c08Giant(r *simrt.Run, inGo bool) {
	defer few()()
	impl.Slow = 100 * time.Second
	defer func() { impl.Slow = 0 }()
	var all []impl.Impl
	for _, im := range impl.All() {
		if _, other := im.(*impl.RemoteImpl); other != inGo {
			all = append(all, im)
		}
	}
	im := all[r.N(len(all))]
	k := []wire.Kind{wire.Bytes, wire.String, wire.Error}[r.N(3)]
	n := 1<<28 - []int{0, 0, -1, 1}[r.N(4)]
	s := strings.Repeat("abcdefgh", n/8+1)[:n]
	r.Log("%s encodes %v of %d bytes", im.Name(), k, n)
	r.Sample("%s encodes %v of %d bytes between two integers", im.Name(), k, n)
	vals := []wire.Val{{K: wire.U32, N: 300}, {K: k, S: s}, {K: wire.I32, N: 77}}
	got, crash := im.EncodeAll(vals)
	r.Ev(uint64(len(got)), uint64(k), simrt.StrSeed(im.Name()))
	if crash != "" {
		r.Fail(im.Name()+"-giant-crash", "%s encoding %v of %d bytes: %s", im.Name(), k, n, crash)
	} else {
		head := wire.Append(nil, vals[0])
		h2 := wire.AppendClaim(head, wire.Val{K: k}, uint64(n))
		tail := wire.Append(nil, vals[2])
		if len(got) != len(h2)+n+len(tail) || !bytes.HasPrefix(got, h2) || string(got[len(h2):len(h2)+n]) != s || !bytes.HasSuffix(got, tail) {
			r.Fail(im.Name()+"-giant", "%s encodes %v of %d bytes as %s, it must begin %x and end %x", im.Name(), k, n, short(got), h2, tail)
		}
	}
	if m, ok := im.(*impl.RemoteImpl); ok {
		impl.GetNode(m.Lang).Drop()
	}
	r.Mark(simrt.Mix(simrt.StrSeed(im.Name()), uint64(k), uint64(n)))
	r.NonTriv = true
}
