package worlds

import (
	"bytes"
	"strings"

	"verifsim/gmsg"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// Message shapes whose encodings the wire format cannot tell apart, hostile
// counts of elements that take no bytes, and very deep nesting: where the
// generated code is known to break its promises. Each way it does has its own
// signature, so that anything else that goes wrong here is still reported.

func oddSchema() *gmsg.Schema {
	if len(gmsg.Schemas) == 0 {
		panic("harness: no generated messages in this build")
	}
	return gmsg.Schemas[len(gmsg.Schemas)-1]
}

// C13Odd sends messages of such shapes once.
func C13Odd(r *simrt.Run) {
	s := oddSchema()
	ims := genImpls(s)
	p := gmsg.Profile{Size: 12}
	c := &gcluster{r: r, s: s, p: p}
	t := r.N(len(s.Types))
	m := s.Draw(r, t, p)
	from, to := ims[r.N(len(ims))], ims[r.N(len(ims))]
	r.Sample("%s from %s to %s", s.Show(t, m), from.Name(), to.Name())
	r.Log("%s sends %s to %s", from.Name(), s.Show(t, m), to.Name())
	r.NonTriv = true
	want := s.Encode(nil, t, m)
	r.Mark(simrt.StrSeed(string(want)))
	got, k, o := s.Decode(t, append(append([]byte(nil), want...), wire.Encode([]wire.Val{{K: wire.Nil}, {K: wire.U32, N: 1}})...))
	if o == wire.OK && k == len(want) && s.Eq(t, got, m, gmsg.Lax{}) == "" {
		in := c.encode(&gnode{im: from, up: true}, &gsend{t: t, m: m})
		if !r.Failed() {
			c.intact(to, t, m, in, r.N(2) == 1, nil)
		}
		return
	}
	// nothing in the bytes says what was sent
	out, crash := from.Encode(s, t, m, nil)
	if crash != "" {
		r.Fail("encode-crash-"+from.Name(), "generated %s encoder of %s fails on %s: %s", from.Name(), s.Types[t].Name, s.Show(t, m), crash)
		return
	}
	x := to.Decode(s, t, append(append([]byte(nil), out...), 0, 8, 1), 0)
	if x.Crash != "" {
		r.Fail("crash-"+to.Name(), "generated %s decoder of %s on the intact message %s = %s: %s", to.Name(), s.Types[t].Name, s.Show(t, m), short(out), x.Crash)
		return
	}
	diff := "refused: " + x.Err
	if x.OK {
		diff = s.Eq(t, x.M, m, to.Lax())
	}
	if diff == "" {
		return
	}
	sig, what := "ambiguous-no-fields", "a message without fields takes no bytes, so the byte after it decides whether it was there"
	if bytes.HasPrefix(want, []byte{0}) || beginsAbsent(s, t, m) {
		sig, what = "ambiguous-absent-first", "a message that begins with an absent message begins like an absent one"
	}
	r.Fail(sig, "%s: generated %s code sends %s as %s, generated %s code: %s", what, from.Name(), s.Show(t, m), short(out), to.Name(), diff)
}

// beginsAbsent says that m or a message in it begins with an absent message.
func beginsAbsent(s *gmsg.Schema, t int, m *gmsg.Msg) bool {
	if m == nil {
		return false
	}
	if b := s.Encode(nil, t, m); len(b) > 0 && b[0] == 0 {
		return true
	}
	for i, f := range s.Types[t].Fields {
		if f.Msg < 0 {
			continue
		}
		all := m.F[i].L
		if f.Card == gmsg.One {
			all = []gmsg.Node{m.F[i]}
		}
		for _, e := range all {
			if beginsAbsent(s, f.Msg, e.M) {
				return true
			}
		}
	}
	return false
}

// oddType finds a type of the odd schema by its name.
func oddType(s *gmsg.Schema, name string) int {
	for i, t := range s.Types {
		if t.Name == "odd."+name || t.Name == name {
			return i
		}
	}
	panic("harness: no type " + name)
}

// C07Odd claims many elements that take no bytes.
func C07Odd(r *simrt.Run) {
	impl.MeasureAlloc = true
	s := oddSchema()
	t := oddType(s, "ManyEmpty")
	ims := genImpls(s)
	im := ims[r.N(len(ims))]
	n := uint64(1) << (r.N(17) + 1)
	in := append(wire.AppendClaim(nil, wire.Val{K: wire.Slice, Sub: wire.Any}, n), wire.Encode([]wire.Val{{K: wire.U32, N: 7}})...)
	r.Mark(n)
	r.Sample("list of %d messages without fields for %s", n, im.Name())
	r.NonTriv = true
	r.Count("fault_count_replaced")
	x := im.Decode(s, t, in, 0)
	r.Ev(b2u(x.OK))
	limit := int64(len(in))*(4*im.Growth(s)+192) + 64<<10
	if x.Alloc > limit {
		r.Fail("count-of-no-bytes", "generated %s decoder of %s allocates %d bytes (allowed %d) for %d bytes that claim %d messages without fields", im.Name(), s.Types[t].Name, x.Alloc, limit, len(in), n)
	}
}

// schemaNamed finds a schema.
func schemaNamed(n string) *gmsg.Schema {
	for _, s := range gmsg.Schemas {
		if s.Name == n {
			return s
		}
	}
	panic("harness: no schema " + n)
}

// deepGen sends a message that nests very deep.
func deepGen(r *simrt.Run) {
	s := schemaNamed("rx")
	ims := genImpls(s)
	im := ims[r.N(len(ims))]
	t := 4 // Forest
	if s.Types[t].Name != "rx.Forest" && s.Types[t].Name != "Forest" {
		panic("harness: schema rx changed: " + s.Types[t].Name)
	}
	unit := s.Encode(nil, t, s.Draw(r, t, gmsg.Profile{Size: 1, NoNil: true, UTF8: true}))
	depth := 10
	for k := r.N(4); k > 0; k-- {
		depth *= 10
	}
	depth *= 1 + r.N(3)
	// count, trees and then a list of one forest, which is cut off at the innermost
	head := wire.Encode([]wire.Val{{K: wire.I32, N: 0}, {K: wire.Slice, Sub: wire.Any, N: 0}, {K: wire.Slice, Sub: wire.Any, N: 1}})
	var in []byte
	for i := 0; i < depth; i++ {
		in = append(in, head...)
	}
	if r.N(2) == 1 {
		in = append(in, unit...)
	}
	r.Mark(uint64(depth))
	r.Sample("%d forests in forests, cut off, for %s", depth, im.Name())
	r.NonTriv = true
	r.Count("fault_deep_nesting")
	x := im.Decode(s, t, in, 0)
	r.Ev(b2u(x.OK))
	if x.Crash == "" {
		return
	}
	sig := "gen-crash-" + im.Name()
	if im.Name() == "rust" && depth >= 1000 {
		sig = "deep-nesting-rust"
	}
	r.Fail(sig, "generated %s decoder of Forest on %d bytes, %d forests in forests: %s", im.Name(), len(in), depth, x.Crash)
}

// C04Odd is nesting without end, very deep nesting and noise.
func C04Odd(r *simrt.Run) {
	if r.N(4) == 3 {
		deepGen(r)
		return
	}
	s := oddSchema()
	ims := genImpls(s)
	im := ims[r.N(len(ims))]
	t := r.N(len(s.Types))
	in := make([]byte, r.N(40))
	for i := range in {
		in[i] = byte(r.N(18))
	}
	if r.N(4) == 3 {
		t = oddType(s, "ManyEmpty")
		in = append(wire.AppendClaim(nil, wire.Val{K: wire.Slice, Sub: wire.Any}, uint64(1)<<r.N(25)), in...)
	}
	r.Mark(simrt.StrSeed(string(in)))
	r.Sample("%s for %s %s", short(in), im.Name(), s.Types[t].Name)
	r.NonTriv = true
	r.Count("fault_noise")
	x := im.Decode(s, t, in, 0)
	r.Ev(b2u(x.OK))
	if x.Crash == "" {
		return
	}
	sig := "gen-crash-" + im.Name()
	if endless(s, t, map[int]bool{}) && strings.HasPrefix(x.Crash, "hang at ") {
		sig = "endless-nesting"
	} else if o := oddType(s, "ManyEmpty"); o == t {
		sig = "count-of-no-bytes"
	}
	r.Fail(sig, "generated %s decoder of %s on %s: %s", im.Name(), s.Types[t].Name, short(in), x.Crash)
}

// endless says that a message of the type may contain one that may begin with a message of its own type.
func endless(s *gmsg.Schema, t int, seen map[int]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if selfFirst(s, t, map[int]bool{}) {
		return true
	}
	for _, f := range s.Types[t].Fields {
		if f.Msg >= 0 && endless(s, f.Msg, seen) {
			return true
		}
	}
	return false
}

// selfFirst says that messages of a type may begin with a message of the same type.
func selfFirst(s *gmsg.Schema, t int, seen map[int]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	for _, i := range s.Types[t].Order() {
		f := s.Types[t].Fields[i]
		if f.Msg < 0 || f.Card != gmsg.One {
			return false
		}
		if selfFirst(s, f.Msg, seen) {
			return true
		}
		if len(s.Types[f.Msg].Fields) > 0 {
			return false
		}
	}
	return false
}
