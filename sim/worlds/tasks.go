package worlds

import (
	"bytes"
	"fmt"
	"math"

	"verifsim/gen"
	"verifsim/impl"
	p1 "verifsim/poly/v1"
	p2 "verifsim/poly/v2"
	"verifsim/simrt"
	"verifsim/wire"
)

// slowErr is an error value of a caller: computing its text takes time (a
// switch point), may use the library itself, and may blow up.
type slowErr struct {
	text  string
	mode  int // 0 plain, 1 yields, 2 uses the library, 3 panics, 4 yields then panics
	ver   int
	inner []wire.Val
}

func (e *slowErr) Error() string {
	switch e.mode {
	case 1:
		simrt.Yield()
	case 2:
		if e.ver == 1 {
			b := p1.NewBuffer()
			for _, v := range e.inner {
				impl.Put1(b, v)
			}
			d := p1.GetDecoder(b.Bytes())
			for _, v := range e.inner {
				impl.Get1(d, wire.WantOf(v), nil)
			}
			d.Return()
		} else {
			b := p2.GetBuffer()
			for _, v := range e.inner {
				impl.Put2(b, v)
			}
			d := p2.Decoder(b.Bytes())
			for _, v := range e.inner {
				impl.Get2(d, wire.WantOf(v), nil)
			}
			p2.PutBuffer(b)
		}
	case 3:
		panic(simrt.Injected{N: 1})
	case 4:
		simrt.Yield()
		panic(simrt.Injected{N: 2})
	}
	return e.text
}

// ops of a caller's script
const (
	opPut = iota
	opAbort
	opSlowErr
	opRaw
	opReset
	opRead
	opReadDamaged
)

type op struct {
	kind   int
	vals   []wire.Val
	err    *slowErr
	wants  []wire.Want
	cut    int
	flips  [][2]int
	donate int
	ret    bool
}

type script struct {
	ver    int
	ops    []op
	origin int
}

// drawScript draws what one caller does.
func drawScript(r *simrt.Run, p gen.Profile, faulty bool, ver int) *script {
	s := &script{ver: ver, origin: r.N(4)}
	if ver == 0 {
		s.ver = 1 + r.N(2)
	}
	n := 1 + r.N(5)
	for i := 0; i < n; i++ {
		var o op
		k := r.N(10)
		switch {
		case k < 4:
			o.kind = opPut
			o.vals = gen.Message(r, p)
		case k == 4:
			o.kind = opSlowErr
			m := 1 + r.N(2)
			if faulty {
				m = 1 + r.N(4)
			}
			o.err = &slowErr{text: gen.Text(r, p, false), mode: m, ver: s.ver}
			if m == 2 {
				o.err.inner = gen.Message(r, gen.Profile{MaxItems: 2, MaxText: 20})
			}
		case k == 5:
			o.kind = opRaw
			o.vals = []wire.Val{gen.Scalar(r, p, wire.Bytes)}
		case k == 6:
			o.kind = opReset
		case k == 7 && faulty:
			o.kind = opReadDamaged
			o.cut = r.N(4)
			for f := r.N(3); f > 0; f-- {
				o.flips = append(o.flips, [2]int{r.N(64), r.N(256)})
			}
			for w := 1 + r.N(6); w > 0; w-- {
				o.wants = append(o.wants, gen.AnyWant(r, gen.Profile{}))
			}
			o.ret = r.N(4) > 0
		default:
			o.kind = opRead
			o.donate = r.N(3)
			o.ret = r.N(4) > 0
		}
		s.ops = append(s.ops, o)
	}
	// always end by reading everything back
	s.ops = append(s.ops, op{kind: opRead, ret: true})
	return s
}

func (s *script) String() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "go-v%d:", s.ver)
	for _, o := range s.ops {
		switch o.kind {
		case opPut:
			fmt.Fprintf(&b, " put%v", o.vals)
		case opSlowErr:
			fmt.Fprintf(&b, " slow-error(mode %d, len %d)", o.err.mode, len(o.err.text))
		case opRaw:
			fmt.Fprintf(&b, " raw(len %d)", len(o.vals[0].S))
		case opReset:
			b.WriteString(" reset")
		case opRead:
			b.WriteString(" read-back")
		case opReadDamaged:
			fmt.Fprintf(&b, " read-damaged(cut %d, flips %d)", o.cut, len(o.flips))
		}
	}
	return b.String()
}

func recVal(b []byte, v wire.Val) []byte {
	b = append(b, byte(v.K), byte(v.Key), byte(v.Sub))
	for i := 0; i < 64; i += 8 {
		b = append(b, byte(v.N>>i))
	}
	b = append(b, fmt.Sprint(len(v.S))...)
	return append(append(b, ':'), v.S...)
}

// play performs a script and returns a record of every result, per op.
// Values known to be intact are also checked against the reference.
func (s *script) play(r *simrt.Run, who string, step func(i int)) (rec [][]byte) {
	var b1 *p1.Buffer
	var b2 *p2.Buffer
	get := func() []byte {
		if s.ver == 1 {
			return b1.Bytes()
		}
		return b2.Bytes()
	}
	switch {
	case s.ver == 1 && s.origin < 2:
		b1 = p1.NewBuffer()
	case s.ver == 1:
		x := make(p1.Buffer, 0, s.origin*7)
		b1 = &x
	case s.origin == 0:
		b2 = p2.NewBuffer()
	case s.origin == 1:
		b2 = p2.GetBuffer()
		defer p2.PutBuffer(b2)
	case s.origin == 2:
		b2 = p2.NewBufferSize(3)
	default:
		b2 = p2.NewBufferFromBytes(make([]byte, 11))
	}
	var model []byte     // what the buffer must hold
	var items []wire.Val // what it decodes to, if known
	intact := true
	for i := range s.ops {
		o := &s.ops[i]
		if step != nil {
			step(i)
		}
		var out []byte
		put := func(v wire.Val) {
			c := r.Budgeted(5000+400*int64(len(v.S)), func() {
				if s.ver == 1 {
					impl.Put1(b1, v)
				} else {
					impl.Put2(b2, v)
				}
			})
			out = append(out, c...)
			model = wire.Append(model, v)
			items = append(items, v)
		}
		switch o.kind {
		case opPut:
			for _, v := range o.vals {
				put(v)
			}
		case opSlowErr:
			before := len(get())
			c := r.Budgeted(40000, func() {
				if s.ver == 1 {
					p1.Encoder(b1).Error(o.err)
				} else {
					p2.Encoder(b2).Error(o.err)
				}
			})
			out = append(out, c...)
			if o.err.mode >= 3 {
				r.Count("fault_caller_panic_in_encode")
				// whatever the aborted encode left after the earlier content
				// is this caller's own business
				now := get()
				if len(now) < before || !bytes.Equal(now[:before], model) {
					r.Fail(who+"-abort", "%s: an aborted encode changed earlier content of its own buffer", who)
				}
				out = append(out, now[before:]...)
				model = append([]byte(nil), now...)
				intact = false
			} else {
				v := wire.Val{K: wire.Error, S: o.err.text}
				model = wire.Append(model, v)
				items = append(items, v)
			}
		case opRaw:
			raw := []byte(o.vals[0].S)
			c := r.Budgeted(5000+400*int64(len(raw)), func() {
				if s.ver == 1 {
					b1.Write(raw)
				} else {
					b2.Write(raw)
				}
			})
			out = append(out, c...)
			model = append(model, raw...)
			if len(raw) > 0 {
				intact = false
			}
		case opReset:
			if s.ver == 1 {
				b1.Reset()
			} else {
				b2.Reset()
			}
			model, items, intact = nil, nil, true
		case opRead, opReadDamaged:
			in := append([]byte(nil), get()...)
			wants := o.wants
			if o.kind == opRead {
				wants = gen.Wants(items)
				if !intact {
					// up to the first raw bytes the reference still tells
					wants = wants[:0]
					rest := in
					for _, v := range items {
						w := wire.WantOf(v)
						_, n, oc := wire.Read(rest, w)
						if oc != wire.OK {
							break
						}
						rest = rest[n:]
						wants = append(wants, w)
					}
				}
			} else {
				r.Count("fault_damaged_input")
				if o.cut < len(in) {
					in = in[:len(in)-o.cut]
				}
				for _, f := range o.flips {
					if len(in) > 0 {
						in[f[0]%len(in)] ^= byte(f[1])
					}
				}
			}
			ref := in
			known := true
			var d1 *p1.Decoder
			var d2 *p2.BufferDecoder
			if s.ver == 1 {
				d1 = p1.GetDecoder(in)
			} else {
				d2 = p2.Decoder(in)
			}
			for wi, w := range wants {
				var donate []byte
				if o.donate > 0 {
					donate = make([]byte, o.donate*9)
				}
				var v wire.Val
				var err error
				var fail string
				c := r.Budgeted(5000+400*int64(len(in)), func() {
					if s.ver == 1 {
						v, err, fail = impl.Get1(d1, w, donate)
					} else {
						v, err, fail = impl.Get2(d2, w, donate)
					}
				})
				if c == "" && err == nil && fail == "" {
					out = recVal(append(out, 1), v)
				} else {
					out = append(append(append(append(out, 2), c...), fail...), fmt.Sprint(err)...)
				}
				if known {
					ev, n, oc := wire.Read(ref, w)
					if oc == wire.OK {
						ref = ref[n:]
						if c != "" || err != nil || fail != "" || !wire.Eq(v, ev, false) {
							r.Fail("value", "%s: read %d of intact bytes gave %v/%v%s%s instead of %v", who, wi, v, err, fail, c, ev)
							return
						}
					} else {
						known = false
					}
				}
			}
			if s.ver == 1 && o.ret {
				d1.Return()
			}
		}
		if got := get(); !bytes.Equal(got, model) {
			r.Fail("bytes", "%s: after step %d its buffer holds %s instead of %s", who, i, short(got), short(model))
			return
		}
		rec = append(rec, append(out, get()...))
	}
	return
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x...%x (len %d)", b[:30], b[len(b)-20:], len(b))
	}
	return fmt.Sprintf("%x (len %d)", b, len(b))
}

// C01Go: many callers at once, each of whom must get what it gets alone.
func C01Go(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		n := 2 + r.N(3)
		p := gen.Profile{MaxItems: 4, MaxText: 700, BigOneIn: 100, Big: 70000}
		gen.Focus(r, &p)
		one := r.N(3) // all use one of the two versions, or any
		var ss []*script
		for i := 0; i < n; i++ {
			s := drawScript(r, p, faulty, one)
			ss = append(ss, s)
			if r.Verbose {
				r.Log("caller %d: %v", i, s)
			}
		}
		r.Sample("%d callers; first %v", n, ss[0])
		var solo [][][]byte
		alone := func() bool {
			for i, s := range ss {
				solo = append(solo, s.play(r, fmt.Sprintf("caller %d alone", i), nil))
				if r.Failed() {
					return false
				}
			}
			return true
		}
		// what they do alone comes first, when nothing is known to the library
		// yet, or last
		first := r.N(2) == 0
		if first && !alone() {
			return
		}
		slices := []int{1, 3, 12, 60}
		slice := slices[r.N(4)]
		recs := make([][][]byte, n)
		for i, s := range ss {
			r.Spawn("caller", func() {
				recs[i] = s.play(r, fmt.Sprintf("caller %d", i), func(k int) {
					if r.Verbose {
						r.Log("caller %d begins step %d", i, k)
					}
				})
			})
		}
		if !r.RunTasks(slice) {
			r.Fail("deadlock", "callers wait for each other for ever")
			return
		}
		for i, t := range r.Tasks() {
			if t.Panic != nil && !t.Extra {
				r.Fail("panic", "caller %d panics: %v at %s", i, t.Panic, t.Stack)
				return
			}
		}
		if r.Failed() || !first && !alone() {
			return
		}
		for i := range ss {
			if len(recs[i]) != len(solo[i]) {
				r.Fail("record", "caller %d performed %d steps, alone %d", i, len(recs[i]), len(solo[i]))
				return
			}
			for k := range recs[i] {
				r.EvB(recs[i][k])
				if !bytes.Equal(recs[i][k], solo[i][k]) {
					r.Fail("differs", "caller %d step %d: %s, alone %s", i, k, short(recs[i][k]), short(solo[i][k]))
					return
				}
			}
		}
		r.CountN("callers", int64(n))
		r.NonTriv = r.Switches >= 2
	}
}

var _ = math.Pi
