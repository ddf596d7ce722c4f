package worlds

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsim/gen"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// The C world: a caller in C with any number of encoders, decoders and
// returned objects, whose calls the seeded scheduler orders. A small model
// says what every call must report and what every handle holds.

const (
	cPass = 0
	cFail = 1
	cNull = 2
)

type capi struct {
	r    *simrt.Run
	p    gen.Profile
	bad  bool // faults are injected
	encs []*cenc
	decs []*cdec
	objs []*cobj
	next uint16
	hist strings.Builder
	sent []impl.CArgs // every call that was made
}
type cenc struct {
	h uint16
	b []byte
}
type cdec struct {
	h      uint16
	rest   []byte
	vals   []wire.Val // what was encoded, for well-meant reads
	at     int
	unsure bool // a damaged value was met: what follows is not judged
}
type cobj struct {
	slot uint16
	how  int // 0 bytes, 1 string, 2 error
	s    string
	from uint16
}

func (c *capi) fail(sig, format string, a ...any) {
	c.r.Fail(sig, "%s (history: %s)", fmt.Sprintf(format, a...), c.hist.String())
}

// call performs one call; status is what must be reported (-1: not judged, -2: a call without status).
func (c *capi) call(what string, a impl.CArgs, status int) (x impl.CRes, ok bool) {
	c.r.Log("%s", what)
	if c.hist.Len() < 600 {
		fmt.Fprintf(&c.hist, "%s; ", what)
	}
	x = impl.CallC(a)
	c.sent = append(c.sent, a)
	c.r.Count("c_calls")
	c.r.Ev(uint64(a.Fn), uint64(a.H), uint64(x.Status+1), x.Ret)
	c.r.Mark(uint64(a.Fn)<<32 | uint64(a.H))
	if x.Crash != "" {
		c.fail("crash", "%s: %s", what, x.Crash)
		return x, false
	}
	if x.Note != "" {
		c.fail("contract", "%s: %s", what, x.Note)
		return x, false
	}
	if status == -2 {
		return x, true
	}
	if x.Status < 0 {
		c.fail("status-unset", "%s does not set its status", what)
		return x, false
	}
	if x.Status > cNull {
		c.fail("status-value", "%s sets status %d", what, x.Status)
		return x, false
	}
	if status >= 0 && x.Status != status {
		c.fail("status", "%s reports status %s instead of %s", what, stName(x.Status), stName(status))
		return x, false
	}
	return x, true
}

func stName(s int) string { return []string{"pass", "failure", "null pointer"}[s] }

// cText is what a C string of these bytes is.
func cText(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	return s
}

func (c *capi) newEnc() {
	c.next++
	e := &cenc{h: c.next}
	x, ok := c.call(fmt.Sprintf("e%d = new_encoder", e.h), impl.CArgs{Fn: 0, H: e.h}, cPass)
	if ok && !x.Obj {
		c.fail("no-object", "new_encoder returns null")
	}
	c.encs = append(c.encs, e)
}

func (c *capi) newDec() {
	r := c.r
	if c.bad && r.N(8) == 0 {
		x, ok := c.call("new_decoder(null)", impl.CArgs{Fn: 30, H: 65000, Null: true, S: []string{"", "abc"}[r.N(2)]}, cNull)
		if ok && x.Obj {
			c.fail("object-on-failure", "new_decoder(null) returns a decoder")
		}
		r.Count("fault_null_pointer")
		return
	}
	c.next++
	d := &cdec{h: c.next}
	var in []byte
	if len(c.encs) > 0 && r.N(3) == 0 {
		in = append(in, c.encs[r.N(len(c.encs))].b...)
	} else {
		d.vals = gen.Message(r, c.p)
		in = wire.Encode(d.vals)
	}
	if c.bad && r.N(3) == 0 {
		cl := &cluster{r: r, msgs: []*cmsg{{bytes: in, vals: d.vals}}}
		in = cl.damage(cl.msgs[0])
	}
	d.rest = in
	// the decoder has its own copy: the caller may release its input at once
	early := r.N(2)
	x, ok := c.call(fmt.Sprintf("d%d = new_decoder(%s)%s", d.h, short(in), []string{"", ", input released"}[early]), impl.CArgs{Fn: 30, H: d.h, S: string(in), N: uint64(early)}, cPass)
	if ok && !x.Obj {
		c.fail("no-object", "new_decoder returns null")
	}
	c.decs = append(c.decs, d)
}

func (c *capi) encode() {
	r := c.r
	v := gen.Message(r, c.p)[0]
	if c.bad {
		switch {
		case r.N(10) == 0: // no handle
			c.call(fmt.Sprintf("encode %v on null", v.K), impl.CArgs{Fn: 10 + int(v.K), Key: v.Key, Sub: v.Sub, N: v.N, S: v.S}, cNull)
			r.Count("fault_null_handle")
			return
		case r.N(8) == 0 && len(c.encs) > 0: // no data
			k := []wire.Kind{wire.Bytes, wire.String, wire.Error}[r.N(3)]
			e := c.encs[r.N(len(c.encs))]
			n := ""
			if k == wire.Bytes && r.N(2) == 0 {
				n = "abc"
			}
			c.call(fmt.Sprintf("e%d encode %v of null", e.h, k), impl.CArgs{Fn: 10 + int(k), H: e.h, Null: true, S: n}, cNull)
			r.Count("fault_null_pointer")
			return
		case r.N(6) == 0:
			v = wire.Val{K: []wire.Kind{wire.String, wire.Error}[r.N(2)], S: gen.Fill(r, r.N(40), false, false)}
		}
	}
	if len(c.encs) == 0 {
		return
	}
	e := c.encs[r.N(len(c.encs))]
	status := cPass
	if v.K == wire.String || v.K == wire.Error {
		if s := cText(v.S); !utf8.ValidString(s) {
			status = cFail
			r.Count("fault_invalid_text")
		} else {
			if s != v.S {
				r.Count("fault_embedded_zero")
			}
			v.S = s
		}
	}
	_, ok := c.call(fmt.Sprintf("e%d encode %v", e.h, v), impl.CArgs{Fn: 10 + int(v.K), H: e.h, Key: v.Key, Sub: v.Sub, N: v.N, S: v.S}, status)
	if ok && status == cPass {
		e.b = wire.Append(e.b, v)
	}
}

func (c *capi) readEnc(e *cenc) {
	r := c.r
	if c.bad && r.N(6) == 0 {
		if r.N(2) == 0 {
			x, ok := c.call("size of null", impl.CArgs{Fn: 1}, cNull)
			_ = x
			_ = ok
			r.Count("fault_null_handle")
		} else {
			a := impl.CArgs{Fn: 2, H: e.h, Null: true, Size: uint32(len(e.b))}
			if r.N(2) == 0 {
				a = impl.CArgs{Fn: 2, Size: 10, Null: r.N(2) == 0}
			}
			c.call(fmt.Sprintf("buffer of handle %d, null buffer %v", a.H, a.Null), a, cNull)
			r.Count("fault_null_pointer")
		}
		if r.Failed() {
			return
		}
	}
	x, ok := c.call(fmt.Sprintf("e%d size", e.h), impl.CArgs{Fn: 1, H: e.h}, cPass)
	if !ok {
		return
	}
	if x.Ret != uint64(len(e.b)) {
		c.fail("size", "encoder %d says it holds %d bytes, it holds %d", e.h, x.Ret, len(e.b))
		return
	}
	n := len(e.b)
	want := cPass
	switch {
	case c.bad && n > 0 && r.N(5) == 0:
		n = r.N(n)
		want = cFail
		r.Count("fault_short_buffer")
	case r.N(4) == 0:
		n += 1 + r.N(50)
	}
	x, ok = c.call(fmt.Sprintf("e%d buffer of %d for %d", e.h, n, len(e.b)), impl.CArgs{Fn: 2, H: e.h, Size: uint32(n)}, want)
	if !ok || want != cPass {
		return
	}
	if !bytes.Equal(x.Blob[:len(e.b)], e.b) {
		c.fail("encoder-content", "encoder %d holds %s instead of %s", e.h, diffAt(x.Blob[:len(e.b)], e.b), short(e.b))
		return
	}
	for _, y := range x.Blob[len(e.b):] {
		if y != 0xa6 {
			c.fail("beyond", "encoder %d: buffer writes more than the size it reports", e.h)
			return
		}
	}
}

func (c *capi) decode() {
	r := c.r
	w := gen.AnyWant(r, gen.Profile{})
	if c.bad && r.N(10) == 0 {
		x, ok := c.call(fmt.Sprintf("decode %v on null", w), impl.CArgs{Fn: 40 + int(w.K), Key: w.Key, Sub: w.Sub, Aux: 65001}, cNull)
		if ok && x.Obj {
			c.fail("object-on-failure", "decode %v on null returns an object", w)
		}
		r.Count("fault_null_handle")
		return
	}
	if len(c.decs) == 0 {
		return
	}
	d := c.decs[r.N(len(c.decs))]
	if d.at < len(d.vals) && (!c.bad || r.N(5) > 0) {
		w = wire.WantOf(d.vals[d.at])
	} else if len(d.rest) > 0 && d.rest[0] < byte(wire.NKinds) && wire.Kind(d.rest[0]) != wire.Any && r.N(3) > 0 {
		w = wire.Want{K: wire.Kind(d.rest[0])}
		if len(d.rest) > 2 && d.rest[1] <= 15 && d.rest[2] <= 15 {
			w.Sub = wire.Kind(d.rest[1])
			if w.K == wire.Map {
				w.Key, w.Sub = wire.Kind(d.rest[1]), wire.Kind(d.rest[2])
			}
		}
	}
	if w.K == wire.Any { // the interface has no such call
		return
	}
	v, n, o := wire.Read(d.rest, w)
	status := -1
	switch {
	case d.unsure || o == wire.Odd || o == wire.Unfit:
	case o == wire.OK && w.K != wire.Bytes && (!utf8.ValidString(v.S) || strings.IndexByte(v.S, 0) >= 0):
		status = cFail // not a C text
		r.Count("fault_unrepresentable_text")
	case o == wire.OK:
		status = cPass
	case w.K == wire.Nil: // the result is the answer
	default:
		status = cFail
	}
	c.next++
	slot := c.next
	x, ok := c.call(fmt.Sprintf("d%d decode %v", d.h, w), impl.CArgs{Fn: 40 + int(w.K), H: d.h, Aux: slot, Key: w.Key, Sub: w.Sub}, status)
	if !ok {
		return
	}
	if x.Status == cNull {
		c.fail("status", "decode %v on a valid decoder reports a null pointer", w)
		return
	}
	obj := w.K == wire.Bytes || w.K == wire.String || w.K == wire.Error
	if obj {
		if x.Obj != (x.Status == cPass) {
			c.fail("object-status", "decode %v on decoder %d reports %s but its object is there: %v", w, d.h, stName(x.Status), x.Obj)
			return
		}
		if x.Obj {
			k := map[wire.Kind]int{wire.Bytes: 0, wire.String: 1, wire.Error: 2}[w.K]
			c.objs = append(c.objs, &cobj{slot, k, string(x.Blob), d.h})
		}
	}
	if w.K == wire.Nil && status < 0 && o != wire.OK && !d.unsure && x.Ret != 0 {
		c.fail("value", "decode none on decoder %d finds one in %s", d.h, short(d.rest))
		return
	}
	if status == cPass {
		got := wire.Val{K: w.K, Key: w.Key, Sub: w.Sub, N: x.Ret, S: string(x.Blob)}
		if w.K == wire.Nil {
			if got.N != 1 {
				c.fail("value", "decode none on decoder %d misses one", d.h)
				return
			}
			got.N = 0
		}
		if !wire.Eq(got, v, false) {
			c.fail("value", "decoder %d returns %v, the value is %v", d.h, got, v)
			return
		}
		d.rest = d.rest[n:]
		d.at++
		return
	}
	if o != wire.Wrong && !(o == wire.Short && len(d.rest) == 0) {
		d.unsure = true
	}
}

func (c *capi) lookAt(o *cobj) {
	x, ok := c.call(fmt.Sprintf("look at o%d", o.slot), impl.CArgs{Fn: 70, Aux: o.slot}, -2)
	if ok && x.Ret != 1 {
		c.fail("object-changed", "object %d (%q) changed before it was released", o.slot, short([]byte(o.s)))
	}
}

func (c *capi) freeObj(i int) {
	o := c.objs[i]
	c.lookAt(o)
	if c.r.Failed() {
		return
	}
	c.call(fmt.Sprintf("release o%d", o.slot), impl.CArgs{Fn: 60 + o.how, Aux: o.slot}, -2)
	c.objs = append(c.objs[:i:i], c.objs[i+1:]...)
}

func (c *capi) freeNull() {
	k := []int{3, 31, 60, 61, 62}[c.r.N(5)]
	c.call(fmt.Sprintf("release null (%d)", k), impl.CArgs{Fn: k}, -2)
	c.r.Count("null_releases")
}

func (c *capi) freeEnc(i int) {
	c.call(fmt.Sprintf("release e%d", c.encs[i].h), impl.CArgs{Fn: 3, H: c.encs[i].h}, -2)
	c.encs = append(c.encs[:i:i], c.encs[i+1:]...)
}
func (c *capi) freeDec(i int) {
	c.call(fmt.Sprintf("release d%d", c.decs[i].h), impl.CArgs{Fn: 31, H: c.decs[i].h}, -2)
	c.decs = append(c.decs[:i:i], c.decs[i+1:]...)
}

func C09(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		c := &capi{r: r, bad: faulty}
		c.p = profileFor([]impl.Impl{&impl.RemoteImpl{Lang: "c"}})
		c.p.MaxItems, c.p.MaxText, c.p.BigOneIn = 5, 300, 150
		gen.Focus(r, &c.p)
		steps := 4 + r.N(40)
		for i := 0; i < steps && !r.Failed(); i++ {
			switch r.N(12) {
			case 0:
				c.newEnc()
			case 1:
				c.newDec()
			case 2, 3, 4:
				if len(c.encs) == 0 {
					c.newEnc()
				} else {
					c.encode()
				}
			case 5:
				if len(c.encs) > 0 {
					c.readEnc(c.encs[r.N(len(c.encs))])
				}
			case 6, 7, 8:
				if len(c.decs) == 0 {
					c.newDec()
				} else {
					c.decode()
				}
			case 9:
				if len(c.objs) > 0 {
					c.freeObj(r.N(len(c.objs)))
				} else if faulty {
					c.freeNull()
				}
			case 10:
				switch {
				case len(c.encs) > 0 && r.N(3) == 0:
					c.freeEnc(r.N(len(c.encs)))
				case len(c.decs) > 0 && r.N(2) == 0:
					c.freeDec(r.N(len(c.decs)))
				case len(c.objs) > 0:
					c.lookAt(c.objs[r.N(len(c.objs))])
				}
			case 11:
				if faulty {
					c.freeNull()
				}
			}
		}
		// everything is released, in a drawn order
		for !r.Failed() && len(c.encs)+len(c.decs)+len(c.objs) > 0 {
			k := r.N(len(c.encs) + len(c.decs) + len(c.objs))
			switch {
			case k < len(c.encs):
				c.readEnc(c.encs[k])
				if !r.Failed() {
					c.freeEnc(k)
				}
			case k < len(c.encs)+len(c.decs):
				c.freeDec(k - len(c.encs))
			default:
				c.freeObj(k - len(c.encs) - len(c.decs))
			}
		}
		if r.Failed() {
			return
		}
		x, ok := c.call("count what is left", impl.CArgs{Fn: 71}, -2)
		if ok && x.Ret != 0 {
			c.leaks(x.Ret)
		}
		r.Sample("%s", c.hist.String())
		r.NonTriv = r.Counts["c_calls"] > 6
	}
}

// leaks tells a leak from what is kept once for all (a table filled on first
// use, released blocks kept for the next caller): the same calls are made in
// the same process again and again, and what is leaked adds up.
func (c *capi) leaks(first uint64) {
	c.r.Count("kept_after_release")
	history := c.sent
	half := first
	for i := 1; i <= 200; i++ {
		for _, a := range history {
			if x := impl.CallC(a); x.Crash != "" || x.Note != "" {
				c.fail("crash", "the same calls made again (%d): %s%s", i, x.Crash, x.Note)
				return
			}
		}
		x := impl.CallC(impl.CArgs{Fn: 71})
		if x.Crash != "" {
			c.fail("crash", "the same calls made again (%d): %s", i, x.Crash)
			return
		}
		if x.Ret <= half && i > 4 {
			return // it does not grow
		}
		if i == 100 {
			half = x.Ret
		}
		if i == 200 && x.Ret > half {
			c.fail("leak", "%d blocks of memory remain after everything was released; %d after the same calls were made 100 times, %d after 200", first, half, x.Ret)
		}
	}
}
