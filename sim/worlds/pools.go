package worlds

import (
	"bytes"
	"fmt"
	"runtime"
	"unsafe"
	"weak"

	"verifsim/gen"
	"verifsim/impl"
	p1 "verifsim/poly/v1"
	p2 "verifsim/poly/v2"
	"verifsim/simrt"
	"verifsim/wire"
)

type poolOp struct {
	get   bool // take another buffer
	which int  // index among held buffers
	kind  int  // 0 encode, 1 raw write, 2 aborted encode, 3 give back, 4 forget, 5 give back nothing, 6 explicit growth, 7 reset
	vals  []wire.Val
	n     int
	err   *slowErr
	pool  int
}

// C02: takers and returners on shared and private pools.
func C02(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		type held struct {
			b     *p2.Buffer
			model []byte
			pool  int
		}
		pools := []*p2.Pool{nil, p2.NewPool(), p2.NewPool()}
		take := func(k int) *p2.Buffer {
			if k == 0 {
				return p2.GetBuffer()
			}
			return pools[k].Get()
		}
		give := func(k int, b *p2.Buffer) {
			if k == 0 {
				p2.PutBuffer(b)
			} else {
				pools[k].Put(b)
			}
		}
		owner := map[*p2.Buffer]int{}
		before := map[*p2.Buffer]bool{}   // was taken at some time
		store := map[unsafe.Pointer]int{} // backing storage in use
		base := func(b *p2.Buffer) unsafe.Pointer {
			x := b.Bytes()
			if cap(x) == 0 {
				return nil
			}
			return unsafe.Pointer(unsafe.SliceData(x))
		}
		n := 2 + r.N(3)
		p := gen.Profile{MaxItems: 3, MaxText: 900, BigOneIn: 80, Big: 200000}
		gen.Focus(r, &p)
		scripts := make([][]poolOp, n)
		np := 1 + r.N(3)
		for i := range scripts {
			for k := 2 + r.N(9); k > 0; k-- {
				o := poolOp{get: r.N(3) == 0, which: r.N(4), kind: r.N(8), pool: r.N(np)}
				switch o.kind {
				case 0:
					o.vals = gen.Message(r, p)
				case 1:
					o.vals = []wire.Val{gen.Scalar(r, p, wire.Bytes)}
				case 2:
					m := 1
					if faulty {
						m = 1 + r.N(4)
					}
					o.err = &slowErr{text: gen.Text(r, p, false), mode: m, ver: 2}
				case 4:
					if !faulty {
						o.kind = 3
					}
				case 6:
					o.n = r.N(1500)
					if r.Chance(1, 12) {
						o.n = r.N(200000)
					}
				}
				scripts[i] = append(scripts[i], o)
			}
		}
		r.Sample("%d callers on %d pools, %d operations each at most", n, np, 11)
		var release func(i int, h held)
		body := func(i int) {
			var hs []held
			check := func(h *held, what string) bool {
				if r.Failed() {
					return false
				}
				if o, ok := owner[h.b]; !ok || o != i {
					r.Fail("owner", "caller %d lost its buffer to caller %d (%s)", i, o, what)
					return false
				}
				if h.b.Len() != len(h.model) || !bytes.Equal(h.b.Bytes(), h.model) {
					r.Fail("content", "caller %d: after %s its pooled buffer holds %s instead of %s", i, what, short(h.b.Bytes()), short(h.model))
					return false
				}
				return true
			}
			newHeld := func(pool int) bool {
				b := take(pool)
				if b == nil {
					r.Fail("nil", "taking a buffer gave nothing")
					return false
				}
				if o, ok := owner[b]; ok {
					r.Fail("two-owners", "caller %d was given the buffer caller %d still holds", i, o)
					return false
				}
				if p := base(b); p != nil {
					if o, ok := store[p]; ok {
						r.Fail("two-owners", "caller %d was given storage caller %d still uses", i, o)
						return false
					}
				}
				owner[b] = i
				if before[b] {
					r.Count("taken_again")
				}
				before[b] = true
				if b.Len() != 0 || len(b.Bytes()) != 0 {
					r.Fail("not-empty", "caller %d was given a buffer that holds %s", i, short(b.Bytes()))
					return false
				}
				if p := base(b); p != nil {
					store[p] = i
				}
				r.Count("taken")
				r.Log("caller %d takes a buffer from pool %d", i, pool)
				hs = append(hs, held{b: b, pool: pool})
				return true
			}
			for _, o := range scripts[i] {
				simrt.Yield()
				if r.Failed() {
					return
				}
				for k := range hs {
					if !check(&hs[k], "others ran") {
						return
					}
				}
				if o.get || len(hs) == 0 {
					if !newHeld(o.pool) {
						return
					}
				}
				k := o.which % len(hs)
				h := &hs[k]
				old := base(h.b)
				switch o.kind {
				case 0:
					for _, v := range o.vals {
						if c := r.Budgeted(5000, func() { impl.Put2(h.b, v) }); c != "" {
							r.Fail("crash", "caller %d: encode of %v: %s", i, v, c)
							return
						}
						h.model = wire.Append(h.model, v)
						if !check(h, "encode") {
							return
						}
					}
				case 1:
					c := r.Budgeted(5000, func() { h.b.Write([]byte(o.vals[0].S)) })
					if c != "" {
						r.Fail("crash", "caller %d: write: %s", i, c)
						return
					}
					h.model = append(h.model, o.vals[0].S...)
				case 2:
					c := r.Budgeted(40000, func() { p2.Encoder(h.b).Error(o.err) })
					if o.err.mode < 3 {
						if c != "" {
							r.Fail("crash", "caller %d: encode of an error: %s", i, c)
							return
						}
						h.model = wire.Append(h.model, wire.Val{K: wire.Error, S: o.err.text})
					} else {
						r.Count("fault_caller_panic_in_encode")
						x := h.b.Bytes()
						if len(x) < len(h.model) || !bytes.Equal(x[:len(h.model)], h.model) {
							r.Fail("content", "caller %d: an aborted encode changed what was there", i)
							return
						}
						h.model = append([]byte(nil), x...)
					}
				case 3:
					r.Log("caller %d gives its buffer back", i)
					release(i, *h)
					hs = append(hs[:k:k], hs[k+1:]...)
					continue
				case 4:
					// dropped without being given back
					r.Count("fault_buffer_never_returned")
					delete(store, base(h.b))
					delete(owner, h.b)
					hs = append(hs[:k:k], hs[k+1:]...)
					continue
				case 5:
					if c := r.Budgeted(5000, func() { give(o.pool, nil) }); c != "" {
						r.Fail("nil", "giving back nothing: %s", c)
						return
					}
				case 6:
					if c := r.Budgeted(5000, func() { h.b.Grow(o.n) }); c != "" {
						r.Fail("crash", "caller %d: Grow(%d): %s", i, o.n, c)
						return
					}
				case 7:
					h.b.Reset()
					h.model = nil
				}
				if now := base(h.b); now != old {
					if o, ok := store[now]; ok && now != nil && o != i {
						r.Fail("two-owners", "caller %d's buffer grew into storage caller %d uses", i, o)
						return
					}
					delete(store, old)
					if now != nil {
						store[now] = i
					}
				}
				if !check(h, fmt.Sprintf("operation %d", o.kind)) {
					return
				}
			}
			for len(hs) > 0 {
				if !check(&hs[0], "the last operation") {
					return
				}
				release(i, hs[0])
				hs = hs[1:]
			}
		}
		release = func(i int, h held) {
			delete(store, base(h.b))
			delete(owner, h.b)
			if c := r.Budgeted(5000, func() { give(h.pool, h.b) }); c != "" {
				r.Fail("crash", "caller %d: giving back: %s", i, c)
			}
			r.Count("given_back")
		}
		for i := 0; i < n; i++ {
			r.Spawn("taker", func() { body(i) })
		}
		finishTasks(r, []int{1, 3, 12, 60}[r.N(4)])
		r.NonTriv = r.Switches >= 2 && r.Counts["taken_again"] > 0
	}
}

func finishTasks(r *simrt.Run, slice int) {
	if !r.RunTasks(slice) {
		r.Fail("deadlock", "callers wait for each other for ever")
		return
	}
	for i, t := range r.Tasks() {
		if t.Panic != nil && !t.Extra {
			r.Fail("panic", "caller %d panics: %v at %s", i, t.Panic, t.Stack)
			return
		}
	}
}

type readOp struct {
	in    []byte
	wants []wire.Want
	ret   int // 0 d.Return, 1 ReturnDecoder, 2 never, 3 nil first
}

// C03: recycled decoders under concurrency and damaged inputs.
func C03(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		n := 2 + r.N(3)
		p := gen.Profile{MaxItems: 3, MaxText: 200, BigOneIn: 100, Big: 70000}
		gen.Focus(r, &p)
		scripts := make([][]readOp, n)
		for i := range scripts {
			for k := 1 + r.N(4); k > 0; k-- {
				vs := gen.Message(r, p)
				o := readOp{in: wire.Encode(vs), wants: gen.Wants(vs), ret: r.N(2)}
				if r.N(12) == 0 {
					o.ret = 3
				}
				if faulty {
					if r.Chance(1, 3) {
						r.Count("fault_damaged_input")
						for f := 1 + r.N(2); f > 0; f-- {
							o.in[r.N(len(o.in))] ^= byte(1 + r.N(255))
						}
					}
					if r.Chance(1, 3) {
						r.Count("fault_truncated_input")
						o.in = o.in[:r.N(len(o.in)+1)]
					}
					if r.Chance(1, 8) {
						o.ret = 2
					}
				}
				// keep reading after the end: nothing may come
				for e := r.N(3); e > 0; e-- {
					o.wants = append(o.wants, gen.AnyWant(r, gen.Profile{}))
				}
				scripts[i] = append(scripts[i], o)
			}
		}
		r.Sample("%d callers; first reads %d inputs, the first of %d bytes", n, len(scripts[0]), len(scripts[0][0].in))
		before := map[*p1.Decoder]bool{} // was obtained at some time
		play := func(i int, alone bool, own map[*p1.Decoder]int) (rec [][]byte) {
			for k, o := range scripts[i] {
				var d *p1.Decoder
				if alone {
					// a decoder of its own that was never anyone else's
					d = p1.GetDecoder(o.in)
				} else {
					if r.Failed() {
						return
					}
					d = p1.GetDecoder(o.in)
					if d == nil {
						r.Fail("nil", "obtaining a decoder gave nothing")
						return
					}
					if w, ok := own[d]; ok {
						r.Fail("two-owners", "caller %d was given the decoder caller %d still uses", i, w)
						return
					}
					own[d] = i
					if before[d] {
						r.Count("taken_again")
					}
					before[d] = true
					r.Log("caller %d obtains a decoder for input %d", i, k)
				}
				var out []byte
				ref, known := o.in, true
				for wi, w := range o.wants {
					var v wire.Val
					var err error
					var fail string
					c := r.Budgeted(5000+100*int64(len(o.in)), func() { v, err, fail = impl.Get1(d, w, nil) })
					if c == "" && err == nil && fail == "" {
						out = recVal(append(out, 1), v)
					} else {
						out = append(append(append(append(out, 2), c...), fail...), fmt.Sprint(err)...)
					}
					if known {
						ev, m, oc := wire.Read(ref, w)
						switch oc {
						case wire.OK:
							ref = ref[m:]
							if c != "" || err != nil || fail != "" || !wire.Eq(v, ev, false) {
								r.Fail("value", "caller %d input %d read %d: %v/%v%s%s instead of %v", i, k, wi, v, err, fail, c, ev)
								return
							}
						case wire.Wrong:
							if len(ref) == 0 && c == "" && err == nil && fail == "" {
								r.Fail("beyond-end", "caller %d input %d: a read past the end gave %v", i, k, v)
								return
							}
							known = len(ref) == 0 || w.K == wire.Nil && fail != ""
						default:
							if len(ref) == 0 && c == "" && err == nil && fail == "" {
								r.Fail("beyond-end", "caller %d input %d: a read past the end gave %v", i, k, v)
								return
							}
							known = len(ref) == 0
						}
					}
				}
				rec = append(rec, out)
				if !alone {
					delete(own, d)
				}
				var c string
				switch o.ret {
				case 0:
					c = r.Budgeted(5000, func() { d.Return() })
				case 1:
					c = r.Budgeted(5000, func() { p1.ReturnDecoder(d) })
				case 2:
					r.Count("fault_decoder_never_returned")
				case 3:
					c = r.Budgeted(5000, func() { p1.ReturnDecoder(nil); p1.ReturnDecoder(d) })
				}
				if c != "" {
					r.Fail("return", "returning a decoder: %s", c)
					return
				}
			}
			return
		}
		var solo [][][]byte
		for i := range scripts {
			solo = append(solo, play(i, true, nil))
			if r.Failed() {
				return
			}
		}
		own := map[*p1.Decoder]int{}
		recs := make([][][]byte, n)
		for i := range scripts {
			r.Spawn("reader", func() { recs[i] = play(i, false, own) })
		}
		finishTasks(r, []int{1, 3, 12, 60}[r.N(4)])
		if r.Failed() {
			return
		}
		for i := range recs {
			for k := range solo[i] {
				if k >= len(recs[i]) || !bytes.Equal(recs[i][k], solo[i][k]) {
					r.Fail("differs", "caller %d input %d: results differ from those alone", i, k)
					return
				}
				r.EvB(recs[i][k])
			}
		}
		r.NonTriv = r.Switches >= 2 && r.Counts["taken_again"] > 0
	}
}

//go:noinline
func useAndReturn(r *simrt.Run, in []byte, wants []wire.Want, how int, refs *[]weak.Pointer[byte]) {
	buf := make([]byte, len(in)+64)
	copy(buf, in)
	*refs = append(*refs, weak.Make(&buf[0]))
	d := p1.GetDecoder(buf)
	for _, w := range wants {
		r.Budgeted(5000+100*int64(len(in)), func() { impl.Get1(d, w, nil) })
	}
	if how == 0 {
		d.Return()
	} else {
		p1.ReturnDecoder(d)
	}
}

//go:noinline
func clobber(n int) int {
	var a [256]uintptr
	for i := range a {
		a[i] = uintptr(i * n)
	}
	return int(a[n%256])
}

// C03Release: a returned decoder lets go of its input.
func C03Release(r *simrt.Run) {
	var refs []weak.Pointer[byte]
	n := 1 + r.N(6)
	for i := 0; i < n; i++ {
		vs := gen.Message(r, gen.Profile{MaxItems: 3, MaxText: 100})
		in := wire.Encode(vs)
		ws := gen.Wants(vs)
		if r.Chance(1, 3) {
			r.Count("fault_damaged_input")
			in[r.N(len(in))] ^= byte(1 + r.N(255))
		}
		if r.Chance(1, 3) {
			ws = ws[:r.N(len(ws)+1)]
		}
		useAndReturn(r, in, ws, r.N(2), &refs)
	}
	r.Sample("%d decoders used and returned, then a collection", n)
	clobber(n)
	runtime.GC()
	for i, w := range refs {
		if w.Value() != nil {
			r.Fail("held-input", "after its return, decoder %d of %d still keeps its input alive", i, n)
			return
		}
	}
	r.Count("collections")
	r.Mark(r.Hash())
	r.Ev(uint64(n))
	r.NonTriv = true
}
