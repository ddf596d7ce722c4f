package worlds

import (
	"container/heap"
	"encoding/binary"
	"fmt"
	"strings"

	_ "verifsim/genreg"
	"verifsim/gmsg"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// The world of generated messages: services, each running the generated code
// of one language, send each other requests, relay what they received, answer
// with error replies, and keep framed logs that survive crashes.

type gcluster struct {
	r       *simrt.Run
	s       *gmsg.Schema
	p       gmsg.Profile
	nodes   []*gnode
	q       evq
	seq     int
	rate    grates
	until   int64
	blocked map[[2]int]int64
	open    int
}

type grates struct{ drop, dup, delay, partition, crash, upgrade, cut, damage, errors int }

type gnode struct {
	id   int
	im   impl.GenImpl
	up   bool
	log  []byte
	recs []grec
	sync int
}

type grec struct {
	t   int
	m   *gmsg.Msg
	end int
}

// gsend is one message on one hop.
type gsend struct {
	id, from, to, t int
	m               *gmsg.Msg
	obj             any // the Go object to encode, if any
	objOf           string
	hops            int
	tries           int
	acked           bool
	bytes           []byte // body only
	errText         string
	isErr           bool
}

// GenImpls lists the implementations that have generated code of a schema.
func genImpls(s *gmsg.Schema) (out []impl.GenImpl) {
	if s.New[1] != nil {
		out = append(out, &impl.GenGo{Ver: 1})
	}
	if s.New[2] != nil {
		out = append(out, &impl.GenGo{Ver: 2})
	}
	if s.Rust {
		out = append(out, &impl.GenRust{})
	}
	return
}

// pickSchema draws a schema and some of its implementations.
func pickSchema(r *simrt.Run, k int) (s *gmsg.Schema, ims []impl.GenImpl, p gmsg.Profile) {
	if len(gmsg.Schemas) == 0 {
		panic("harness: no generated messages in this build")
	}
	s = gmsg.Schemas[r.N(len(gmsg.Schemas)-1)] // the last is for other purposes
	all := genImpls(s)
	for i := 0; i < k; i++ {
		ims = append(ims, all[r.N(len(all))])
	}
	p = gmsg.Profile{Size: 40, Huge: 1500}
	for _, im := range ims {
		if im.Name() == "rust" {
			p.NoNil, p.UTF8 = true, true
		}
	}
	return
}

func newGCluster(r *simrt.Run, rt grates) *gcluster {
	c := &gcluster{r: r, rate: rt, blocked: map[[2]int]int64{}, until: 400 * ms}
	s, ims, p := pickSchema(r, 2+r.N(3))
	c.s, c.p = s, p
	for i, im := range ims {
		c.nodes = append(c.nodes, &gnode{id: i, im: im, up: true})
	}
	return c
}

func (c *gcluster) at(d int64, tag uint64, do func()) {
	c.seq++
	heap.Push(&c.q, &event{c.r.Clock + d, c.seq, do, tag})
}

func (c *gcluster) chance(pct int) bool {
	return pct > 0 && c.r.Clock < c.until && c.r.Chance(pct, 100)
}

func (c *gcluster) run() {
	r := c.r
	for n := 0; len(c.q) > 0 && !r.Failed(); n++ {
		if n > 20000 {
			panic("harness: the cluster does not come to rest")
		}
		e := heap.Pop(&c.q).(*event)
		r.Clock = e.at
		r.Mark(e.tag)
		e.do()
		r.Count("events")
	}
}

func (c *gcluster) tname(t int) string { return c.s.Types[t].Name }

// encode has a node encode a message and judges the bytes.
func (c *gcluster) encode(n *gnode, g *gsend) []byte {
	r, s := c.r, c.s
	prefix := []byte{}
	if r.N(3) == 2 {
		prefix = wire.Encode([]wire.Val{{K: wire.U32, N: uint64(g.id)}, {K: wire.String, S: "call"}})
	}
	var out []byte
	var crash string
	if gg, ok := n.im.(*impl.GenGo); ok && g.obj != nil && g.objOf == n.im.Name() && r.N(2) == 1 {
		out, crash = gg.EncodeObj(g.obj, prefix, 4*len(s.Encode(nil, g.t, g.m)))
	} else {
		out, crash = n.im.Encode(s, g.t, g.m, prefix)
	}
	who := "generated " + n.im.Name() + " encoder of " + c.tname(g.t)
	if crash != "" {
		r.Fail("encode-crash-"+n.im.Name(), "%s fails on %s: %s", who, s.Show(g.t, g.m), crash)
		return nil
	}
	return judgeEncoding(r, s, n.im.Name(), who, g.t, g.m, prefix, out)
}

// judgeEncoding compares produced bytes with the reference; it returns the message's part of them.
func judgeEncoding(r *simrt.Run, s *gmsg.Schema, name, who string, t int, m *gmsg.Msg, prefix, out []byte) []byte {
	if len(out) < len(prefix) || string(out[:len(prefix)]) != string(prefix) {
		r.Fail("encode-prefix-"+name, "%s changes what the buffer held before: %s, was %s", who, short(out), short(prefix))
		return nil
	}
	body := out[len(prefix):]
	want := s.Encode(nil, t, m)
	got, k, o := s.Decode(t, body)
	diff := ""
	if o == wire.OK && k == len(body) {
		diff = s.Eq(t, got, m, gmsg.Lax{})
	}
	if o != wire.OK || k != len(body) || len(body) != len(want) || diff != "" {
		r.Fail("encode-"+name, "%s encodes %s as %s (%d bytes; the reference has %d: %s); %v %s", who, s.Show(t, m), short(body), len(body), len(want), short(want), o, diff)
		return nil
	}
	return body
}

func (c *gcluster) post(g *gsend, delay int64) {
	c.open++
	c.at(delay, 1, func() { c.send(g) })
}

func (c *gcluster) send(g *gsend) {
	if g.acked || c.r.Failed() {
		return
	}
	r := c.r
	from := c.nodes[g.from]
	if from.up {
		if g.isErr {
			var crash string
			g.bytes, crash = from.im.ErrorReply(c.s, g.t, g.errText)
			if crash != "" {
				r.Fail("error-crash-"+from.im.Name(), "generated %s error reply of %s for %q: %s", from.im.Name(), c.tname(g.t), g.errText, crash)
				return
			}
			if want := wire.Append(nil, wire.Val{K: wire.Error, S: g.errText}); string(want) != string(g.bytes) {
				r.Fail("error-bytes-"+from.im.Name(), "generated %s error reply of %s for %q is %s", from.im.Name(), c.tname(g.t), g.errText, short(g.bytes))
				return
			}
		} else {
			g.bytes = c.encode(from, g)
		}
		if r.Failed() {
			return
		}
		g.tries++
		if r.Verbose {
			r.Log("node %d (%s) sends message %d (%s, %d bytes, error %v) to node %d, try %d: %s", g.from, from.im.Name(), g.id, c.tname(g.t), len(g.bytes), g.isErr, g.to, g.tries, c.s.Show(g.t, g.m))
		}
		c.transmit(g)
	}
	c.at(int64(30+10*g.tries)*ms, 2, func() { c.send(g) })
}

func (c *gcluster) down(a, b int) bool {
	if a > b {
		a, b = b, a
	}
	return c.r.Clock < c.blocked[[2]int{a, b}]
}

func (c *gcluster) transmit(g *gsend) {
	r := c.r
	copies := 1
	if c.chance(c.rate.dup) {
		copies = 2
		r.Count("fault_duplicate")
	}
	if c.chance(c.rate.partition) {
		a, b := g.from, r.N(len(c.nodes))
		if a > b {
			a, b = b, a
		}
		c.blocked[[2]int{a, b}] = r.Clock + int64(10+r.N(60))*ms
		r.Count("fault_partition")
	}
	for i := 0; i < copies; i++ {
		if c.chance(c.rate.drop) {
			r.Count("fault_drop")
			continue
		}
		d := ms
		if c.chance(c.rate.delay) {
			d = int64(1+r.N(80)) * ms
			r.Count("fault_delay")
		}
		in, how := g.bytes, ""
		if !g.isErr && c.chance(c.rate.cut) && len(in) > 0 {
			in, how = in[:r.N(len(in))], "cut"
			r.Count("fault_truncate")
		} else if !g.isErr && c.chance(c.rate.damage) {
			in, how = c.replace(g)
		}
		c.at(d, 16+uint64(g.to), func() { c.arrive(g, in, how) })
	}
}

// replace changes one kind or one count of an encoding.
func (c *gcluster) replace(g *gsend) ([]byte, string) {
	r := c.r
	m, _, _ := c.s.Decode(g.t, g.bytes) // map entries in the order of these bytes
	items := c.s.Items(g.t, m)
	b := append([]byte(nil), g.bytes...)
	it := items[r.N(len(items))]
	if r.N(2) == 1 {
		for try := 0; try < 8; try++ {
			it = items[r.N(len(items))]
			if it.V.K == wire.Slice || it.V.K == wire.Map {
				break
			}
		}
	}
	if it.V.K == wire.Slice || it.V.K == wire.Map {
		if r.N(2) == 1 {
			old := len(wire.Append(nil, it.V))
			n := it.V.N
			switch r.N(4) {
			case 0:
				n++
			case 1:
				n += 1 + uint64(r.N(5))
			case 2:
				n = uint64(r.N(int(min(n+1, 1000))))
			case 3:
				n = hostileLen[r.N(len(hostileLen))]
			}
			x := wire.AppendClaim(append([]byte(nil), b[:it.At]...), it.V, n)
			r.Count("fault_count_replaced")
			return append(x, b[it.At+old:]...), fmt.Sprintf("count of %v at %d replaced by %d", it.V, it.At, n)
		}
		at := it.At + 1
		if it.V.K == wire.Map {
			at += r.N(2)
		}
		b[at] = byte(r.N(int(wire.NKinds)))
		r.Count("fault_element_kind_replaced")
		return b, fmt.Sprintf("element kind of %v at %d replaced by %v", it.V, it.At, wire.Kind(b[at]))
	}
	b[it.At] = byte(1 + r.N(int(wire.NKinds)-1))
	r.Count("fault_kind_replaced")
	return b, fmt.Sprintf("kind of %v at %d replaced by %v", it.V, it.At, wire.Kind(b[it.At]))
}

func (c *gcluster) arrive(g *gsend, in []byte, how string) {
	r, s := c.r, c.s
	n := c.nodes[g.to]
	if !n.up || c.down(g.from, g.to) {
		r.Count("fault_lost_to_down")
		return
	}
	r.Count("receptions")
	if r.Verbose {
		r.Log("node %d (%s) receives %d bytes of message %d (%s) %s: %s", n.id, n.im.Name(), len(in), g.id, c.tname(g.t), how, short(in))
	}
	who := "generated " + n.im.Name() + " decoder of " + c.tname(g.t)
	switch {
	case g.isErr:
		x := n.im.Decode(s, g.t, in, 0)
		r.Count("fault_error_reply")
		r.Ev(b2u(x.OK))
		if x.Crash != "" {
			r.Fail("crash-"+n.im.Name(), "%s on an error reply %s: %s", who, short(in), x.Crash)
			return
		}
		if x.OK {
			r.Fail("error-as-message-"+n.im.Name(), "%s takes the error reply %q (%s) for the message %s", who, g.errText, short(in), s.Show(g.t, x.M))
			return
		}
	case how != "":
		c.refused(n.im, g.t, in, how)
		return
	default:
		var x impl.GenRes
		if !c.intact(n.im, g.t, g.m, in, r.N(3) == 2, &x) {
			return
		}
		if !g.acked && c.chance(c.rate.errors) {
			// answers with an error, in place of the expected message
			e := &gsend{id: g.id + 1000, from: g.to, to: g.from, t: g.t, isErr: true, errText: []string{"", "boom", "not found: x", strings.Repeat("e", 130)}[r.N(4)]}
			c.post(e, ms)
		}
		if !g.acked && g.hops > 0 {
			// relays what it decoded
			f := &gsend{id: g.id + 100, from: g.to, to: r.N(len(c.nodes)), t: g.t, m: x.M, obj: x.Obj, objOf: n.im.Name(), hops: g.hops - 1}
			if f.m == nil {
				f.m = g.m
			}
			c.post(f, ms)
		}
		if !g.acked {
			var frame []byte
			frame = binary.LittleEndian.AppendUint32(frame, uint32(len(in)))
			frame = append(frame, byte(g.t))
			n.log = append(append(n.log, frame...), in...)
			n.recs = append(n.recs, grec{g.t, g.m, len(n.log)})
			if r.N(3) > 0 {
				n.sync = len(n.log)
			}
		}
	}
	if c.chance(c.rate.crash) {
		c.crash(n)
		return
	}
	if c.chance(c.rate.drop) {
		r.Count("fault_drop")
		return
	}
	g.acked = true
}

// intact decodes an intact message, alone or inside a longer stream.
func (c *gcluster) intact(im impl.GenImpl, t int, m *gmsg.Msg, in []byte, stream bool, res *impl.GenRes) bool {
	r, s := c.r, c.s
	at, whole := 0, in
	if stream {
		at = r.N(9)
		whole = make([]byte, at)
		whole = append(append(whole, in...), wire.Encode([]wire.Val{{K: wire.U32, N: 7}, {K: wire.Nil}, {K: wire.String, S: "next"}})...)
	}
	x := im.Decode(s, t, whole, at)
	who := "generated " + im.Name() + " decoder of " + s.Types[t].Name
	r.Ev(uint64(t), b2u(x.OK))
	if x.Crash != "" {
		r.Fail("crash-"+im.Name(), "%s on the intact message %s = %s: %s", who, s.Show(t, m), short(in), x.Crash)
		return false
	}
	if !x.OK {
		r.Fail("refused-"+im.Name(), "%s refuses the intact message %s = %s: %s", who, s.Show(t, m), short(in), x.Err)
		return false
	}
	if d := s.Eq(t, x.M, m, im.Lax()); d != "" {
		r.Fail("changed-"+im.Name(), "%s decodes the intact message %s as %s (difference %s)", who, s.Show(t, m), s.Show(t, x.M), d)
		return false
	}
	if x.N >= 0 && x.N != len(in) {
		r.Fail("position-"+im.Name(), "%s consumes %d of the %d bytes of %s", who, x.N, len(in), s.Show(t, m))
		return false
	}
	if res != nil {
		*res = x
	}
	return true
}

// refused decodes a damaged message and judges the result.
func (c *gcluster) refused(im impl.GenImpl, t int, in []byte, how string) {
	r, s := c.r, c.s
	x := im.Decode(s, t, in, 0)
	who := "generated " + im.Name() + " decoder of " + s.Types[t].Name
	r.Ev(b2u(x.OK))
	if x.Crash != "" {
		r.Fail("crash-"+im.Name(), "%s on a message (%s) %s: %s", who, how, short(in), x.Crash)
		return
	}
	want, k, o := s.Decode(t, in)
	switch {
	case o == wire.Short || o == wire.Wrong:
		r.Count("refusals_judged")
		if x.OK {
			r.Fail("accepted-"+im.Name(), "%s accepts bytes that are no such message (%s, %v at byte %d): %s, as %s", who, how, o, k, short(in), s.Show(t, x.M))
		}
	case o == wire.OK && x.OK:
		if want == nil {
			want = s.Blank(t)
			return
		}
		if d := s.Eq(t, x.M, want, im.Lax()); d != "" {
			r.Fail("misread-"+im.Name(), "%s reads %s (%s) as %s, it says %s (difference %s)", who, short(in), how, s.Show(t, x.M), s.Show(t, want), d)
		}
	}
}

func (c *gcluster) crash(n *gnode) {
	r := c.r
	n.up = false
	r.Count("fault_crash")
	keep := n.sync
	if lost := len(n.log) - n.sync; lost > 0 {
		keep += r.N(lost + 1)
		if keep < len(n.log) {
			r.Count("fault_lost_unsynced")
		}
	}
	r.Log("node %d (%s) crashes, %d of %d log bytes survive", n.id, n.im.Name(), keep, len(n.log))
	n.log = n.log[:keep:keep]
	n.im.Restart()
	c.at(int64(1+r.N(50))*ms, 3, func() { c.restart(n) })
}

func (c *gcluster) restart(n *gnode) {
	r := c.r
	if c.chance(c.rate.upgrade) {
		var fit []impl.GenImpl
		for _, im := range genImpls(c.s) {
			if im.Name() != "rust" || c.p.NoNil {
				fit = append(fit, im)
			}
		}
		n.im = fit[r.N(len(fit))]
		r.Count("fault_upgrade")
	}
	n.up = true
	r.Log("node %d restarts as %s", n.id, n.im.Name())
	c.readLog(n, n.im)
	for i, rec := range n.recs {
		if rec.end > len(n.log) {
			n.recs = n.recs[:i]
			break
		}
	}
	end := 0
	if len(n.recs) > 0 {
		end = n.recs[len(n.recs)-1].end
	}
	n.log = n.log[:end:end]
	n.sync = end
}

// readLog replays a log whose last frame may be torn.
func (c *gcluster) readLog(n *gnode, im impl.GenImpl) {
	r := c.r
	b, at := n.log, 0
	for i := 0; at < len(b) && !r.Failed(); i++ {
		rec := n.recs[i]
		if len(b)-at < 5 {
			return
		}
		l := int(binary.LittleEndian.Uint32(b[at:]))
		body := b[at+5:]
		if len(body) >= l {
			r.Count("log_records_read")
			c.intact(im, rec.t, rec.m, body[:l], r.N(4) == 3, nil)
			at += 5 + l
			continue
		}
		r.Count("fault_torn_write")
		c.refused(im, rec.t, body, "torn in the log")
		return
	}
}

// C13 is the cluster of generated messages.
func C13(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		rt := grates{errors: 10}
		if faulty {
			rt = grates{drop: 10, dup: 20, delay: 40, partition: 8, crash: 15, upgrade: 50, cut: 20, damage: 30, errors: 15}
		}
		c := newGCluster(r, rt)
		k := 1 + r.N(4)
		for i := 0; i < k; i++ {
			t := r.N(len(c.s.Types))
			g := &gsend{id: i, from: r.N(len(c.nodes)), to: r.N(len(c.nodes)), t: t, m: c.s.Draw(r, t, c.p), hops: r.N(3)}
			if i == 0 {
				names := ""
				for _, n := range c.nodes {
					names += n.im.Name() + " "
				}
				r.Sample("%s: %d messages, first %s %s", names, k, c.tname(t), c.s.Show(t, g.m))
			}
			c.post(g, int64(r.N(20))*ms)
		}
		c.run()
		for _, n := range c.nodes {
			if !r.Failed() {
				c.readLog(n, n.im)
			}
		}
		r.CountN("messages", int64(c.open))
		r.NonTriv = r.Counts["receptions"] > 1
	}
}

// C13Tasks interleaves generated encoders and decoders of several callers that
// share messages and inputs.
func C13Tasks(r *simrt.Run) {
	s, _, p := pickSchema(r, 0)
	p.Size = 14
	type shared struct {
		ver, t int
		m      *gmsg.Msg
		obj    any
		in     []byte
	}
	var sh []shared
	for k := 1 + r.N(3); k > 0; k-- {
		t := r.N(len(s.Types))
		x := shared{ver: 1 + r.N(2), t: t, m: s.Draw(r, t, p)}
		x.obj = s.Object(x.ver, t, x.m)
		x.in = s.Encode(nil, t, x.m)
		if len(x.in) > 3000 {
			x.m = s.Blank(t)
			x.obj = s.Object(x.ver, t, x.m)
			x.in = s.Encode(nil, t, x.m)
		}
		sh = append(sh, x)
		r.Sample("shared %s %s", s.Types[t].Name, s.Show(t, x.m))
		r.Log("shared %s (go-v%d) %s", s.Types[t].Name, x.ver, s.Show(t, x.m))
	}
	tasks := 2 + r.N(3)
	for id := 0; id < tasks; id++ {
		type op struct {
			x   *shared
			do  int
			cut int
		}
		var ops []op
		for k := 1 + r.N(3); k > 0; k-- {
			o := op{x: &sh[r.N(len(sh))], do: r.N(4)}
			if o.do == 2 {
				o.cut = r.N(len(o.x.in))
			}
			ops = append(ops, o)
		}
		id := id
		r.Spawn(fmt.Sprintf("task%d", id), func() {
			for _, o := range ops {
				g := &impl.GenGo{Ver: o.x.ver}
				s, t := s, o.x.t
				who := fmt.Sprintf("task %d, generated %s", id, g.Name())
				switch o.do {
				case 0:
					out, crash := g.EncodeObj(o.x.obj, []byte("ab"), 8*len(o.x.in))
					if crash != "" {
						r.Fail("task-crash-encode", "%s encoder of %s: %s", who, s.Types[t].Name, crash)
						return
					}
					judgeEncoding(r, s, "tasks", who+" encoder of "+s.Types[t].Name, t, o.x.m, []byte("ab"), out)
				case 1, 2, 3:
					in := o.x.in
					if o.do == 2 {
						in = in[:o.cut]
					}
					obj := s.New[o.x.ver][t]()
					err, crash := g.DecodeObj(obj, in)
					if crash != "" {
						r.Fail("task-crash-decode", "%s decoder of %s: %s", who, s.Types[t].Name, crash)
						return
					}
					if o.do == 2 {
						if err == "" {
							r.Fail("task-accepted", "%s decoder of %s accepts the first %d of %d bytes", who, s.Types[t].Name, o.cut, len(o.x.in))
						}
						continue
					}
					if err != "" {
						r.Fail("task-refused", "%s decoder of %s refuses an intact message: %s", who, s.Types[t].Name, err)
						return
					}
					if d := s.Eq(t, s.Value(t, obj), o.x.m, g.Lax()); d != "" {
						r.Fail("task-changed", "%s decoder of %s: decoded %s, sent %s (difference %s)", who, s.Types[t].Name, s.Show(t, s.Value(t, obj)), s.Show(t, o.x.m), d)
						return
					}
				}
			}
		})
	}
	if !r.RunTasks(60) {
		r.Fail("deadlock", "tasks wait for each other for ever")
		return
	}
	for _, x := range sh {
		if r.Failed() {
			return
		}
		if d := s.Eq(x.t, s.Value(x.t, x.obj), x.m, gmsg.Lax{}); d != "" {
			r.Fail("task-modified", "encoding %s concurrently modified it (difference %s)", s.Show(x.t, x.m), d)
		}
	}
	r.NonTriv = r.Switches > 1
}

// C12 decodes a history of messages into the same objects.
func C12(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		s, _, p := pickSchema(r, 0)
		p.Size = 30
		ver := 1 + r.N(2)
		g := &impl.GenGo{Ver: ver}
		type used struct {
			t    int
			o    any
			last *gmsg.Msg
		}
		var objs []*used
		for k := 1 + r.N(2); k > 0; k-- {
			t := r.N(len(s.Types))
			u := &used{t: t, o: s.New[ver][t]()}
			if r.N(4) == 3 {
				// filled by the application
				u.last = s.Draw(r, t, p)
				u.o = s.Object(ver, t, u.last)
			}
			objs = append(objs, u)
		}
		helper := &gcluster{r: r, s: s, p: p}
		for k := 2 + r.N(7); k > 0 && !r.Failed(); k-- {
			u := objs[r.N(len(objs))]
			var m *gmsg.Msg
			switch r.N(6) {
			case 0, 1:
				m = s.Draw(r, u.t, p)
			case 2, 3, 4:
				m = s.Vary(r, u.t, u.last, p)
			case 5:
				if r.N(3) == 2 {
					m = nil
				} else {
					m = s.Blank(u.t)
				}
			}
			how := ""
			if r.N(3) == 2 {
				gmsg.NoMap = func() bool {
					if r.N(2) == 1 {
						how = "absent maps"
						r.Count("absent_maps")
						return true
					}
					return false
				}
			}
			in := s.Encode(nil, u.t, m)
			gmsg.NoMap = nil
			if faulty && r.N(3) == 2 && len(in) > 1 {
				switch r.N(3) {
				case 0:
					in, how = in[:r.N(len(in))], "cut"
					r.Count("fault_truncate")
				case 1:
					if how == "" {
						in, how = helper.replace(&gsend{t: u.t, bytes: in})
					}
				case 2:
					in, how = wire.Append(nil, wire.Val{K: wire.Error, S: "boom"}), "error reply"
					r.Count("fault_error_reply")
				}
			}
			r.Log("decode %s %s (%s) into the same object: %s", s.Types[u.t].Name, s.Show(u.t, m), how, short(in))
			err, crash := g.DecodeObj(u.o, in)
			r.Ev(uint64(u.t), b2u(err == ""))
			who := "generated " + g.Name() + " decoder of " + s.Types[u.t].Name
			if crash != "" {
				r.Fail("crash-"+g.Name(), "%s into a used object, %s: %s", who, short(in), crash)
				return
			}
			u.last = m
			r.Mark(simrt.Mix(uint64(u.t), simrt.StrSeed(string(in))))
			fresh := s.New[ver][u.t]()
			ferr, crash := g.DecodeObj(fresh, in)
			if crash != "" {
				r.Fail("crash-"+g.Name(), "%s, %s: %s", who, short(in), crash)
				return
			}
			if (err == "") != (ferr == "") {
				r.Fail("outcome-"+g.Name(), "%s: decoding %s (%s) gives %q into a used object and %q into a new one", who, short(in), how, err, ferr)
				return
			}
			if err != "" {
				r.Count("failed_decodes")
				continue
			}
			r.Count("reused_decodes")
			a, b := s.Value(u.t, u.o), s.Value(u.t, fresh)
			if d := s.Eq(u.t, a, b, gmsg.Lax{}); d != "" {
				r.Fail("stale-"+g.Name(), "%s: decoding %s (%s) into a used object gives %s, into a new one %s (difference %s)", who, short(in), how, s.Show(u.t, a), s.Show(u.t, b), d)
				return
			}
			if how == "" {
				want := m
				if want == nil {
					want = s.Blank(u.t)
				}
				if d := s.Eq(u.t, a, want, g.Lax()); d != "" {
					r.Fail("wrong-"+g.Name(), "%s: decoding %s into a used object gives %s (difference %s)", who, s.Show(u.t, m), s.Show(u.t, a), d)
					return
				}
			}
			if r.N(3) == 2 {
				out, crash := g.EncodeObj(u.o, nil, 4*len(in))
				if crash != "" {
					r.Fail("encode-crash-"+g.Name(), "encoding a reused %s: %s", s.Types[u.t].Name, crash)
					return
				}
				judgeEncoding(r, s, g.Name(), "generated "+g.Name()+" encoder of a reused "+s.Types[u.t].Name, u.t, a, nil, out)
			}
		}
		r.NonTriv = r.Counts["reused_decodes"] > 1
	}
}
