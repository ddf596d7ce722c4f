package worlds

import (
	"fmt"

	"verifsim/gmsg"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// Damage, cuts, memory and aliasing for generated messages.

// mangle alters an encoding the way bad links, disks and peers do.
func mangle(r *simrt.Run, b, other []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.N(3); k > 0; k-- {
		switch r.N(8) {
		case 0:
			if len(b) > 0 {
				b[r.N(len(b))] ^= 1 << r.N(8)
				r.Count("fault_bit_flip")
			}
		case 1:
			if len(b) > 0 {
				b[r.N(len(b))] = byte(r.N(256))
				r.Count("fault_byte_change")
			}
		case 2:
			if len(b) > 0 {
				b[r.N(len(b))] = byte(r.N(int(wire.NKinds)))
				r.Count("fault_kind_replaced")
			}
		case 3:
			if len(b) > 1 {
				i := r.N(len(b))
				j := i + 1 + r.N(min(16, len(b)-i))
				b = append(b[:i:i], b[min(j, len(b)):]...)
				r.Count("fault_lost_part")
			}
		case 4:
			if len(b) > 1 {
				i := r.N(len(b))
				j := min(len(b), i+1+r.N(16))
				b = append(b[:j:j], b[i:]...)
				r.Count("fault_repeated_part")
			}
		case 5:
			if len(b) > 0 && len(other) > 0 {
				b = append(b[:r.N(len(b)):len(b)], other[r.N(len(other)):]...)
				r.Count("fault_splice")
			}
		case 6:
			b = b[:r.N(len(b)+1)]
			r.Count("fault_truncate")
		case 7:
			if len(b) > 0 {
				// many absent parts
				i := r.N(len(b))
				x := append([]byte(nil), b[:i]...)
				for n := r.N(60); n > 0; n-- {
					x = append(x, byte(wire.Nil))
				}
				b = append(x, b[i:]...)
				r.Count("fault_noise")
			}
		}
	}
	return b
}

// hostileGen delivers damaged encodings to generated decoders.
func hostileGen(r *simrt.Run, judge func(im impl.GenImpl, s *gmsg.Schema, t int, in []byte, how string)) {
	s, ims, p := pickSchema(r, 3)
	p.Size = 30
	c := &gcluster{r: r, s: s, p: p}
	var prev []byte
	for k := 1 + r.N(3); k > 0 && !r.Failed(); k-- {
		t := r.N(len(s.Types))
		m := s.Draw(r, t, p)
		in := s.Encode(nil, t, m)
		r.Sample("%s %s damaged, decoded by %s", s.Types[t].Name, s.Show(t, m), ims[0].Name())
		how := "damaged"
		switch r.N(4) {
		case 0, 1:
			in = mangle(r, in, prev)
		case 2:
			in, how = c.replace(&gsend{t: t, bytes: in})
		case 3:
			in, how = c.replace(&gsend{t: t, bytes: in})
			in = mangle(r, in, prev)
		}
		prev = in
		for _, im := range ims {
			r.Log("%s decodes %s (%s) %s", im.Name(), s.Types[t].Name, how, short(in))
			r.Mark(simrt.Mix(simrt.StrSeed(im.Name()), simrt.StrSeed(string(in))))
			judge(im, s, t, in, how)
			if r.Failed() {
				return
			}
		}
		r.NonTriv = true
	}
}

// C04Gen is hostile input for generated decoders.
func C04Gen(r *simrt.Run) {
	hostileGen(r, func(im impl.GenImpl, s *gmsg.Schema, t int, in []byte, how string) {
		x := im.Decode(s, t, in, 0)
		r.Ev(b2u(x.OK))
		if x.Crash != "" {
			r.Fail("gen-crash-"+im.Name(), "generated %s decoder of %s on %s (%s): %s", im.Name(), s.Types[t].Name, short(in), how, x.Crash)
			return
		}
		if x.OK && x.M != nil {
			if n := textBytes(s, t, x.M); n > len(in) {
				r.Fail("gen-outside-"+im.Name(), "generated %s decoder of %s returns %d bytes of text from %d bytes of input", im.Name(), s.Types[t].Name, n, len(in))
			}
		}
	})
}

func textBytes(s *gmsg.Schema, t int, m *gmsg.Msg) (n int) {
	if m == nil {
		return 0
	}
	for i, f := range s.Types[t].Fields {
		x := m.F[i]
		all := x.L
		if f.Card == gmsg.One {
			all = []gmsg.Node{x}
		}
		for _, e := range all {
			n += len(e.S)
			if f.Msg >= 0 {
				n += textBytes(s, f.Msg, e.M)
			}
		}
		for _, k := range x.Keys {
			n += len(k.S)
		}
	}
	return
}

// C07Gen measures what generated decoders allocate on hostile inputs.
func C07Gen(r *simrt.Run) {
	impl.MeasureAlloc = true
	hostileGen(r, func(im impl.GenImpl, s *gmsg.Schema, t int, in []byte, how string) {
		x := im.Decode(s, t, in, 0)
		r.Ev(b2u(x.OK))
		if x.Crash != "" {
			r.Count("crashed_elsewhere")
			if im.Name() == "rust" && x.Alloc < 0 {
				r.Fail("gen-memory-death-"+im.Name(), "generated %s decoder of %s on %d bytes %s (%s): %s", im.Name(), s.Types[t].Name, len(in), short(in), how, x.Crash)
			}
			return
		}
		limit := int64(len(in))*(4*im.Growth(s)+192) + 64<<10
		if x.Alloc > limit {
			r.Fail("gen-alloc-"+im.Name(), "generated %s decoder of %s allocates %d bytes (allowed %d) for %d bytes %s (%s)", im.Name(), s.Types[t].Name, x.Alloc, limit, len(in), short(in), how)
		}
	})
}

// C05Gen cuts one generated message at every byte.
func C05Gen(r *simrt.Run) {
	s, ims, p := pickSchema(r, 1)
	im := ims[0]
	p.Size = 10
	t := r.N(len(s.Types))
	m := s.Draw(r, t, p)
	in := s.Encode(nil, t, m)
	if len(in) > 600 {
		m = s.Blank(t)
		for i, f := range s.Types[t].Fields {
			if p.NoNil && f.Card == gmsg.One && f.Msg >= 0 {
				m.F[i].M = s.Draw(r, f.Msg, gmsg.Profile{NoNil: true, Size: 1})
			}
		}
		in = s.Encode(nil, t, m)
	}
	if len(in) > 2000 {
		return
	}
	r.Sample("%s %s cut at each of %d bytes, decoded by %s", s.Types[t].Name, s.Show(t, m), len(in), im.Name())
	c := &gcluster{r: r, s: s, p: p}
	for k := 0; k < len(in) && !r.Failed(); k++ {
		r.Count("fault_truncate")
		c.refused(im, t, in[:k], fmt.Sprintf("cut at %d of %d", k, len(in)))
	}
	if !r.Failed() {
		c.intact(im, t, m, in, true, nil)
	}
	r.Mark(simrt.Mix(simrt.StrSeed(im.Name()), uint64(t), simrt.StrSeed(string(in))))
	r.NonTriv = true
}

// C11Gen keeps decoded objects and encoded bytes while their sources change.
func C11Gen(r *simrt.Run) {
	s, _, p := pickSchema(r, 0)
	p.Size = 25
	ver := 1 + r.N(2)
	g := &impl.GenGo{Ver: ver}
	type kept struct {
		t   int
		o   any
		m   *gmsg.Msg
		was string
	}
	type out struct {
		b    []byte
		want string
	}
	var objs []kept
	var outs []out
	recv := make([]byte, 0, 4096)
	check := func(after string) {
		for _, k := range objs {
			if d := s.Eq(k.t, s.Value(k.t, k.o), k.m, gmsg.Lax{}); d != "" {
				r.Fail("gen-alias-"+g.Name(), "generated %s object of %s (%s) changed after %s (difference %s)", g.Name(), s.Types[k.t].Name, k.was, after, d)
				return
			}
		}
		for _, o := range outs {
			if string(o.b) != o.want {
				r.Fail("gen-alias-out-"+g.Name(), "bytes encoded by generated %s code changed after %s", g.Name(), after)
				return
			}
		}
	}
	for k := 3 + r.N(6); k > 0 && !r.Failed(); k-- {
		switch do := r.N(5); do {
		case 0, 1, 2: // receive into reused memory
			t := r.N(len(s.Types))
			m := s.Draw(r, t, p)
			enc := s.Encode(nil, t, m)
			recv = append(recv[:0], enc...)
			o := s.New[ver][t]()
			err, crash := g.DecodeObj(o, recv)
			if crash != "" || err != "" {
				r.Fail("gen-refused-"+g.Name(), "generated %s decoder of %s: %s%s", g.Name(), s.Types[t].Name, err, crash)
				return
			}
			if string(recv) != string(enc) {
				r.Fail("gen-input-"+g.Name(), "generated %s decoder of %s changed its input", g.Name(), s.Types[t].Name)
				return
			}
			objs = append(objs, kept{t, o, s.Value(t, o), "decoded"})
			for i := range recv {
				recv[i] = byte(r.N(2)) * 0xa5
			}
			r.Log("received %s %s, then the memory was overwritten", s.Types[t].Name, s.Show(t, m))
			r.Count("overwritten_inputs")
			check("its input was overwritten")
		case 3: // encode, then change the object
			t := r.N(len(s.Types))
			m := s.Draw(r, t, p)
			o := s.Object(ver, t, m)
			b, crash := g.EncodeObj(o, nil, 8*len(s.Encode(nil, t, m)))
			if crash != "" {
				r.Fail("gen-encode-"+g.Name(), "generated %s encoder of %s: %s", g.Name(), s.Types[t].Name, crash)
				return
			}
			outs = append(outs, out{b, string(b)})
			objs = append(objs, kept{t, o, s.Value(t, o), "encoded"})
			check("it was encoded")
			if r.N(2) == 1 {
				objs = objs[:len(objs)-1]
				s.Scramble(o)
				r.Count("changed_sources")
				check("the object was changed")
			}
		case 4: // decode something else into one of the objects
			if len(objs) == 0 {
				continue
			}
			i := r.N(len(objs))
			u := objs[i]
			m := s.Vary(r, u.t, u.m, p)
			objs = append(objs[:i], objs[i+1:]...)
			in := s.Encode(nil, u.t, m)
			if _, crash := g.DecodeObj(u.o, in); crash != "" {
				r.Fail("gen-crash-"+g.Name(), "generated %s decoder of %s: %s", g.Name(), s.Types[u.t].Name, crash)
				return
			}
			check("another message was decoded into another object")
			objs = append(objs, kept{u.t, u.o, s.Value(u.t, u.o), "decoded into a used object"})
		}
		r.Mark(uint64(k))
		r.Ev(uint64(len(objs)), uint64(len(outs)))
	}
	r.NonTriv = len(objs)+len(outs) > 1
}
