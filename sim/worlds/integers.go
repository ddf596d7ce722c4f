package worlds

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verifsim/gen"
	"verifsim/gmsg"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// Damage to the encodings of integers, lengths and counts (C17).

// integer finds the integer in the encoding of v: where its bytes begin and
// how many bits it may have. bits is 0 if v holds none.
func integer(v wire.Val) (at int, bits int) {
	switch v.K {
	case wire.U16:
		return 1, 16
	case wire.U32, wire.I32:
		return 1, 32
	case wire.U64, wire.I64:
		return 1, 64
	case wire.String, wire.Bytes:
		return 2, 32
	case wire.Error, wire.Slice:
		return 3, 32
	case wire.Map:
		return 4, 32
	}
	return 0, 0
}

// swell replaces the integer in enc, the encoding of one value (n bytes of
// integer at at), by a damaged encoding.
func swell(r *simrt.Run, enc []byte, at, bits int) (out []byte, how string) {
	n := 1
	for enc[at+n-1] >= 128 {
		n++
	}
	old := append([]byte(nil), enc[at:at+n]...)
	most := (bits + 6) / 7
	last := uint(bits - 7*(most-1)) // bits of the last byte
	pad := func(to int) []byte {
		x := append([]byte(nil), old...)
		for len(x) < to {
			x[len(x)-1] |= 128
			x = append(x, 0)
		}
		return x
	}
	var x []byte
	switch k := r.N(6); k {
	case 0, 1: // the same number, and something above the type's bits
		x = pad(most)
		over := 1 + r.N(1<<(7-last)-1)
		if r.N(2) == 1 {
			over = 1 << r.N(int(7-last))
		}
		x[most-1] |= byte(over << last)
		how = "carries more bits than its type has"
		r.Count("fault_too_many_bits")
	case 2: // the longest form, of another number
		for i := 0; i < most-1; i++ {
			x = append(x, 128|byte(r.N(128)))
		}
		x = append(x, byte(r.N(128)))
		how = "is replaced by another of full length"
		r.Count("fault_integer_replaced")
	case 3: // too long
		x = pad(most + 1 + r.N(4))
		if r.N(2) == 1 {
			x[len(x)-1] = byte(r.N(128))
		}
		how = "has more bytes than its type needs"
		r.Count("fault_too_many_bytes")
	case 4: // padded
		if n == most {
			x = old
			how = "is intact"
			break
		}
		x = pad(n + 1 + r.N(most-n))
		how = "is padded"
		r.Count("fault_padded_integer")
	case 5:
		x = append([]byte(nil), old...)
		x[r.N(n)] ^= 1 << r.N(8)
		how = "has a flipped bit"
		r.Count("fault_bit_flip")
	}
	out = append(append([]byte(nil), enc[:at]...), x...)
	return append(out, enc[at+n:]...), how
}

// swollen alters one integer of a message.
func (c *cluster) swollen(vals []wire.Val) (in []byte, at int, how string) {
	r := c.r
	var cand []int
	for i, v := range vals {
		if _, b := integer(v); b > 0 {
			cand = append(cand, i)
		}
	}
	at = cand[r.N(len(cand))]
	for i, v := range vals {
		e := wire.Append(nil, v)
		if i == at {
			o, b := integer(v)
			e, how = swell(r, e, o, b)
		}
		in = append(in, e...)
	}
	return in, at, fmt.Sprintf("value %d (%v) %s", at, vals[at], how)
}

// C17 damages integers in transit and in logs.
func C17(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		rt := rates{}
		if faulty {
			rt = rates{dup: 60, delay: 50, drop: 5, crash: 5, upgrade: 60}
		}
		c := newCluster(r, "C17", rt)
		c.recv = func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool) {
			if !faulty {
				c.readIntact(n.im, in, vals, "message")
				r.NonTriv = true
				return
			}
			in, at, how := c.swollen(vals)
			c.readSwollen(n.im, in, vals, at, how)
		}
		c.addMessages(1 + r.N(5))
		r.Sample("%s", c.describe())
		c.run()
	}
}

func (c *cluster) readSwollen(im impl.Impl, in []byte, vals []wire.Val, at int, how string) {
	r := c.r
	ws := gen.Wants(vals[:at+1])
	if r.Verbose {
		r.Log("%s reads %s, where %s", im.Name(), short(in), how)
	}
	start := len(wire.Encode(vals[:at]))
	want, _, o := wire.Read(in[start:], ws[at])
	rs, _, crash := im.DecodeAll(in, ws)
	if crash != "" {
		c.fail("crash-"+im.Name(), "%s reading %s, where %s: %s", im.Name(), short(in), how, crash)
		return
	}
	for i, v := range vals[:at] {
		if !rs[i].OK || !wire.Eq(rs[i].V, v, c.nan) {
			c.fail("prefix-"+im.Name()+"-"+v.K.String(), "%s reads value %d as %v, it is %v (%s)", im.Name(), i, rs[i], v, how)
			return
		}
	}
	x := rs[at]
	kind := vals[at].K.String()
	r.Ev(uint64(o), b2u(x.OK))
	r.Mark(simrt.Mix(simrt.StrSeed(im.Name()), simrt.StrSeed(string(in[start:]))))
	switch o {
	case wire.Unfit:
		r.NonTriv = true
		r.Count("unfit_integers_read")
		if x.OK {
			c.fail("reduced-"+im.Name()+"-"+kind, "%s reads an integer that does not fit its type as %v: %x (%s)", im.Name(), x, head(in[start:]), how)
		}
	case wire.Short, wire.Wrong:
		if x.OK {
			c.fail("invented-"+im.Name()+"-"+kind, "%s reads %v from %x (%s)", im.Name(), x, head(in[start:]), how)
		}
	case wire.OK:
		switch want.K {
		case wire.String, wire.Error:
			// not every implementation can hold it
			if !utf8.ValidString(want.S) || strings.Contains(want.S, "\x00") {
				return
			}
		}
		if !x.OK || !wire.Eq(x.V, want, c.nan) {
			c.fail("misread-"+im.Name()+"-"+kind, "%s reads %x as %v, it is %v (%s)", im.Name(), head(in[start:]), x, want, how)
		}
	case wire.Odd: // not the shortest form: the number it is, or refused
		o, bits := integer(want)
		if x.OK && want.S == "" && wire.IsInt(want.K) {
			n, fits := loose(in[start+o:], bits)
			if want.K == wire.I32 || want.K == wire.I64 {
				n = wire.Unzig(n)
			}
			want.N = n
			if !fits || !wire.Eq(x.V, want, false) {
				c.fail("misread-"+im.Name()+"-"+kind, "%s reads %x as %v, it is %v (%s)", im.Name(), head(in[start:]), x, want, how)
			}
		}
	}
}

func head(b []byte) []byte { return b[:min(len(b), 24)] }

// loose reads an integer in any form.
func loose(b []byte, bits int) (x uint64, fits bool) {
	for i := 0; i < len(b) && i < 10; i++ {
		x |= uint64(b[i]&127) << (7 * i)
		if b[i] < 128 {
			return x, bits == 64 && (i < 9 || b[i] < 2) || bits < 64 && x>>bits == 0
		}
	}
	return 0, false
}

// C17Gen damages integers of generated messages.
func C17Gen(r *simrt.Run) {
	s, ims, p := pickSchema(r, 3)
	p.Size = 20
	c := &gcluster{r: r, s: s, p: p}
	for k := 1 + r.N(3); k > 0 && !r.Failed(); k-- {
		t := r.N(len(s.Types))
		m := s.Draw(r, t, p)
		b := s.Encode(nil, t, m)
		if m == nil {
			continue
		}
		m, _, _ = s.Decode(t, b)
		var cand []gmsg.Item
		for _, it := range s.Items(t, m) {
			if _, n := integer(it.V); n > 0 {
				cand = append(cand, it)
			}
		}
		if len(cand) == 0 {
			continue
		}
		it := cand[r.N(len(cand))]
		o, bits := integer(it.V)
		in, how := swell(r, b, it.At+o, bits)
		how = fmt.Sprintf("%v at byte %d %s", it.V, it.At, how)
		r.Sample("%s, %s, decoded by %s", s.Types[t].Name, how, ims[0].Name())
		for _, im := range ims {
			r.Log("generated %s decoder of %s (%s) on %s", im.Name(), s.Types[t].Name, how, short(in))
			r.Mark(simrt.Mix(simrt.StrSeed(im.Name()), simrt.StrSeed(string(in))))
			if _, _, o := s.Decode(t, in); o == wire.Unfit {
				r.NonTriv = true
				r.Count("unfit_integers_read")
				x := im.Decode(s, t, in, 0)
				r.Ev(b2u(x.OK))
				if x.Crash != "" {
					r.Fail("crash-"+im.Name(), "generated %s decoder of %s (%s) on %s: %s", im.Name(), s.Types[t].Name, how, short(in), x.Crash)
				} else if x.OK {
					r.Fail("reduced-gen-"+im.Name(), "generated %s decoder of %s accepts an integer that does not fit its type (%s): %s", im.Name(), s.Types[t].Name, how, s.Show(t, x.M))
				}
			} else {
				c.refused(im, t, in, how)
			}
			if r.Failed() {
				return
			}
		}
	}
}
