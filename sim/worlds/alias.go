package worlds

import (
	"fmt"
	"strings"

	"verifsim/gen"
	"verifsim/impl"
	p1 "verifsim/poly/v1"
	p2 "verifsim/poly/v2"
	"verifsim/simrt"
	"verifsim/wire"
)

// The aliasing world: a receiver that reuses its memory for message after
// message, while an application keeps what was decoded, and a sender that goes
// on changing what it handed over for encoding. The seeded scheduler orders
// receptions, reads, overwrites, returns, encodes and changes.

// kept is a decoded value as the application got it, not copied.
type kept struct {
	what string
	str  *string
	blob []byte
	err  error
	want string
	from int
}

func (k *kept) now() string {
	switch {
	case k.str != nil:
		return *k.str
	case k.err != nil:
		return k.err.Error()
	}
	return string(k.blob)
}

type source struct {
	id    int
	mem   []byte // the input
	buf   *p2.Buffer
	d1    *p1.Decoder
	d2    *p2.BufferDecoder
	vals  []wire.Val
	at    int
	want  string // what the input must still hold
	where int    // slot in the slab, -1: elsewhere
}

func C11Go(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		ver := 1 + r.N(2)
		who := fmt.Sprintf("go-v%d", ver)
		p := gen.Profile{MaxItems: 5, MaxText: 200, BigOneIn: 100, Big: 70000}
		gen.Focus(r, &p)
		const slot = 1 << 13
		slab := make([]byte, 3*slot)
		donor := make([]byte, 4096)
		donated := 0
		var srcs []*source
		var keeps []*kept
		var hist strings.Builder
		note := func(f string, a ...any) {
			s := fmt.Sprintf(f, a...)
			r.Log("%s", s)
			if hist.Len() < 500 {
				hist.WriteString(s + "; ")
			}
		}
		id := 0
		check := func(after string) {
			for _, k := range keeps {
				if k.now() != k.want {
					r.Fail(who+"-changed", "%s: %s, decoded as %s, is now %s after it %s (%s)", who, k.what, short([]byte(k.want)), short([]byte(k.now())), after, hist.String())
					return
				}
			}
			for _, s := range srcs {
				if string(s.mem) != s.want {
					r.Fail(who+"-input", "%s: the input of message %d changed when it %s (%s)", who, s.id, after, hist.String())
					return
				}
			}
		}
		crash := func(c, what string) bool {
			if c != "" {
				r.Fail(who+"-crash", "%s %s: %s", who, what, c)
				return true
			}
			return false
		}
		drop := func(i int) {
			s := srcs[i]
			srcs = append(srcs[:i:i], srcs[i+1:]...)
			if s.d1 != nil {
				crash(r.Budgeted(9000, func() { s.d1.Return() }), "returning a decoder")
			}
			if s.buf != nil {
				crash(r.Budgeted(9000, func() { p2.PutBuffer(s.buf) }), "returning a buffer")
				r.Count("pool_round_trips")
			} else {
				for j := range s.mem {
					s.mem[j] = 0xee
				}
				r.Count("inputs_overwritten")
			}
		}
		steps := 4 + r.N(26)
		for i := 0; i < steps && !r.Failed(); i++ {
			did := ""
			switch k := r.N(10); {
			case k < 2 || len(srcs) == 0: // a message arrives
				s := &source{id: id, where: -1, vals: gen.Message(r, p)}
				id++
				in := wire.Encode(s.vals)
				how := r.N(3)
				if how == 0 && ver == 2 {
					var ok string
					ok = r.Budgeted(90000+400*int64(len(in)), func() {
						s.buf = p2.GetBuffer()
						s.buf.Write(in)
						s.mem = s.buf.Bytes()
					})
					if crash(ok, "receiving into a pooled buffer") {
						return
					}
				} else if how <= 1 && len(in) <= slot {
					w := r.N(3)
					for j := 0; j < len(srcs); j++ {
						if srcs[j].where == w { // the receiver reuses this memory
							drop(j)
							j--
						}
					}
					s.where = w
					s.mem = slab[w*slot : w*slot+len(in)]
					copy(s.mem, in)
				} else {
					s.mem = append(make([]byte, 0, len(in)+r.N(20)), in...)
				}
				s.want = string(s.mem)
				if s.want != string(in) {
					r.Fail(who+"-input", "%s: a pooled buffer does not hold what was written", who)
					return
				}
				if crash(r.Budgeted(9000, func() {
					if ver == 1 {
						s.d1 = p1.GetDecoder(s.mem)
					} else {
						s.d2 = p2.Decoder(s.mem)
					}
				}), "making a decoder") {
					return
				}
				srcs = append(srcs, s)
				did = fmt.Sprintf("receives message %d in slot %d: %v", s.id, s.where, s.vals)
			case k < 7: // a value is read and kept
				s := srcs[r.N(len(srcs))]
				if s.at >= len(s.vals) {
					drop(r.N(len(srcs)))
					did = "finishes a message"
					break
				}
				v := s.vals[s.at]
				var give []byte
				if n := len(v.S) + 1 - r.N(3); v.K == wire.Bytes && n > 0 && donated+n < len(donor) && r.N(2) == 0 {
					give = donor[donated : donated : donated+n]
					if r.N(2) == 0 {
						give = give[:n]
					}
					donated += n
				}
				kp := &kept{what: fmt.Sprintf("value %d of message %d (%v)", s.at, s.id, v), want: v.S, from: s.id}
				var got wire.Val
				var err error
				fail := ""
				c := r.Budgeted(9000+400*int64(len(v.S)), func() {
					switch v.K {
					case wire.Bytes:
						if ver == 1 {
							kp.blob, err = s.d1.Bytes(give)
						} else {
							kp.blob, err = s.d2.Bytes(give)
						}
					case wire.String:
						var t string
						if ver == 1 {
							t, err = s.d1.String()
						} else {
							t, err = s.d2.String()
						}
						kp.str = &t
					case wire.Error:
						if ver == 1 {
							kp.err, err = s.d1.Error()
						} else {
							kp.err, err = s.d2.Error()
						}
					default:
						if ver == 1 {
							got, err, fail = impl.Get1(s.d1, wire.WantOf(v), nil)
						} else {
							got, err, fail = impl.Get2(s.d2, wire.WantOf(v), nil)
						}
						if err == nil && fail == "" && !wire.Eq(got, v, false) {
							fail = "value " + got.String()
						}
					}
				})
				if crash(c, "decoding") {
					return
				}
				if err != nil || fail != "" {
					r.Fail(who+"-read", "%s cannot read %s: %v %s (%s)", who, kp.what, err, fail, hist.String())
					return
				}
				if v.K == wire.Bytes || v.K == wire.String || (v.K == wire.Error && kp.err != nil) {
					if kp.now() != v.S {
						r.Fail(who+"-read", "%s reads %s as %s (%s)", who, kp.what, short([]byte(kp.now())), hist.String())
						return
					}
					keeps = append(keeps, kp)
					r.Count("values_kept")
				}
				s.at++
				did = "reads " + kp.what
			case k == 7:
				drop(r.N(len(srcs)))
				did = "gives an input back"
			case k == 8 && faulty && len(srcs) > 0: // a read that fails
				s := srcs[r.N(len(srcs))]
				rest := wire.Encode(s.vals[s.at:])
				w, ok := probe(r, p, rest)
				if !ok {
					break
				}
				c := r.Budgeted(90000, func() {
					if ver == 1 {
						impl.Get1(s.d1, w, nil)
					} else {
						impl.Get2(s.d2, w, nil)
					}
				})
				if crash(c, "probing") {
					return
				}
				r.Count("fault_wrong_type_probe")
				did = fmt.Sprintf("tries to read %v", w)
			default: // an encode whose argument the caller changes afterwards
				n := r.N(60)
				if r.N(4) == 0 {
					n = 480 + r.N(60)
				}
				data := make([]byte, n, n+r.N(16))
				for j := range data {
					data[j] = byte(j)
				}
				was := string(data)
				raw := r.N(2) == 0
				var held []byte
				c := r.Budgeted(90000+400*int64(n), func() {
					if ver == 1 {
						b := p1.NewBuffer()
						if raw {
							b.Write(data)
						} else {
							p1.Encoder(b).Bytes(data)
						}
						held = b.Bytes()
					} else {
						b := p2.NewBuffer()
						if raw {
							b.Write(data)
						} else {
							p2.Encoder(b).Bytes(data)
						}
						held = b.Bytes()
					}
				})
				if crash(c, "encoding") {
					return
				}
				if string(data) != was {
					r.Fail(who+"-caller", "%s: encoding modified the caller's data", who)
					return
				}
				want := was
				if !raw {
					want = string(wire.Append(nil, wire.Val{K: wire.Bytes, S: was}))
				}
				for j := range data {
					data[j] = 0xdd
				}
				data = append(data, 0xdd)
				if string(held) != want {
					r.Fail(who+"-encoded", "%s: %d encoded bytes changed with the caller's data: %s", who, n, diffAt(held, []byte(want)))
					return
				}
				keeps = append(keeps, &kept{what: "an encoded value", blob: held, want: want})
				r.Count("arguments_overwritten")
				did = "encodes caller's data"
			}
			note("%s", did)
			r.Ev(uint64(len(keeps)), uint64(len(srcs)), simrt.StrSeed(did))
			check(did)
		}
		for len(srcs) > 0 && !r.Failed() {
			drop(r.N(len(srcs)))
			check("gave an input back")
		}
		r.Mark(r.Hash())
		r.Sample("%s", hist.String())
		r.NonTriv = r.Counts["values_kept"] > 0
	}
}

// C11TS: the same in the TypeScript implementation.
func C11TS(r *simrt.Run) {
	p := profileFor([]impl.Impl{&impl.RemoteImpl{Lang: "ts"}})
	p.MaxItems, p.MaxText, p.BigOneIn = 5, 200, 150
	gen.Focus(r, &p)
	type tsSrc struct {
		d    *impl.Held
		vals []wire.Val
		at   int
	}
	type tsKept struct {
		o uint16
		v wire.Val
		w wire.Want
		d *impl.Held
	}
	var srcs []*tsSrc
	var keeps []tsKept
	var hist strings.Builder
	look := func(after string) {
		for _, k := range keeps {
			x := k.d.Look(k.o, k.w)
			if !x.OK || !wire.Eq(x.V, k.v, true) {
				r.Fail("ts-changed", "ts: a value decoded as %v is %v after %s (%s)", k.v, x, after, hist.String())
				return
			}
		}
	}
	next := uint16(0)
	steps := 3 + r.N(12)
	for i := 0; i < steps && !r.Failed(); i++ {
		did := ""
		switch k := r.N(8); {
		case k < 2 || len(srcs) == 0:
			vals := gen.Message(r, p)
			srcs = append(srcs, &tsSrc{d: impl.NewHeld(wire.Encode(vals)), vals: vals})
			did = fmt.Sprintf("receives %v", vals)
		case k < 6:
			s := srcs[r.N(len(srcs))]
			if s.at < len(s.vals) {
				v := s.vals[s.at]
				next++
				x := s.d.Hold(next, wire.WantOf(v))
				if !x.OK || !wire.Eq(x.V, v, true) {
					r.Fail("ts-read", "ts reads %v as %v (%s)", v, x, hist.String())
					return
				}
				s.at++
				keeps = append(keeps, tsKept{next, v, wire.WantOf(v), s.d})
				r.Count("values_kept")
				did = fmt.Sprintf("reads %v", v)
				break
			}
			fallthrough
		default:
			j := r.N(len(srcs))
			if c := srcs[j].d.Scribble(); c != "" {
				r.Fail("ts-input", "ts: %s (%s)", c, hist.String())
				return
			}
			srcs = append(srcs[:j:j], srcs[j+1:]...)
			r.Count("inputs_overwritten")
			did = "overwrites an input"
		}
		r.Log("%s", did)
		if hist.Len() < 500 {
			hist.WriteString(did + "; ")
		}
		r.Ev(simrt.StrSeed(did))
		if strings.HasPrefix(did, "over") {
			look(did)
		}
	}
	for len(srcs) > 0 && !r.Failed() {
		if c := srcs[0].d.Scribble(); c != "" {
			r.Fail("ts-input", "ts: %s (%s)", c, hist.String())
			return
		}
		srcs = srcs[1:]
		r.Count("inputs_overwritten")
	}
	if !r.Failed() {
		look("overwriting all inputs")
	}
	r.Mark(r.Hash())
	r.Sample("ts: %s", hist.String())
	r.NonTriv = r.Counts["values_kept"] > 0
}

// C11C: objects returned through the C interface outlive their decoders.
func C11C(r *simrt.Run) {
	c := &capi{r: r}
	c.p = profileFor([]impl.Impl{&impl.RemoteImpl{Lang: "c"}})
	c.p.MaxItems, c.p.MaxText, c.p.BigOneIn = 6, 300, 150
	gen.Focus(r, &c.p)
	steps := 6 + r.N(24)
	for i := 0; i < steps && !r.Failed(); i++ {
		switch k := r.N(10); {
		case k < 2 || len(c.decs) == 0:
			c.newDec()
		case k < 6:
			c.decode()
		case k < 8:
			c.freeDec(r.N(len(c.decs)))
			r.Count("inputs_overwritten")
			for _, o := range c.objs {
				if !r.Failed() {
					c.lookAt(o)
				}
			}
		case k == 8:
			if len(c.encs) == 0 {
				c.newEnc()
			} else {
				c.encode() // the node overwrites the argument afterwards
				r.Count("arguments_overwritten")
			}
		default:
			if len(c.encs) > 0 {
				c.readEnc(c.encs[0])
			}
		}
	}
	for _, o := range c.objs {
		if !r.Failed() {
			c.lookAt(o)
		}
	}
	r.CountN("values_kept", int64(len(c.objs)))
	r.Sample("%s", c.hist.String())
	r.NonTriv = r.Counts["values_kept"] > 0
}
