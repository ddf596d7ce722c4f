package worlds

import (
	"container/heap"
	"fmt"
	"sort"
	"strings"

	"verifsim/gen"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// The cluster world: processes, each running one implementation, exchange
// encoded messages over a simulated network and keep what they received in a
// log on a simulated disk. The seeded scheduler decides delays, losses,
// duplicates, partitions, damage, crashes, what survives them on disk, and
// which implementation a process comes back with.

type rates struct {
	drop, dup, delay, partition, crash, upgrade, lie int // percent
	cut, damage, misroute                            int
}

// checks that a property asks for at each reception
type receiver func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool)

type cluster struct {
	r       *simrt.Run
	prop    string
	nodes   []*cnode
	msgs    []*cmsg
	q       evq
	seq     int
	rate    rates
	until   int64 // faults stop here
	blocked map[[2]int]int64
	p       gen.Profile
	nan     bool
	recv    receiver
	logs    bool
	strict  bool // a failed read of the cut value is part of the property
}

type cnode struct {
	id    int
	im    impl.Impl
	up    bool
	log   []byte // what the process wrote
	sync  int    // how much of it is on disk for sure
	recs  []crec // records in log
	seen  map[int]bool
	downs int
}

type crec struct {
	msg  *cmsg
	vals []wire.Val
	end  int
}

type cmsg struct {
	id, from, to int
	vals         []wire.Val
	bytes        []byte
	acked        bool
	tries        int
	reads        int
}

type event struct {
	at  int64
	seq int
	do  func()
	tag uint64
}
type evq []*event

func (q evq) Len() int { return len(q) }
func (q evq) Less(a, b int) bool {
	if q[a].at != q[b].at {
		return q[a].at < q[b].at
	}
	return q[a].seq < q[b].seq
}
func (q evq) Swap(a, b int) { q[a], q[b] = q[b], q[a] }
func (q *evq) Push(x any)   { *q = append(*q, x.(*event)) }
func (q *evq) Pop() any     { o := *q; x := o[len(o)-1]; *q = o[:len(o)-1]; return x }

const ms = int64(1e6)

func (c *cluster) at(d int64, tag uint64, do func()) {
	c.seq++
	heap.Push(&c.q, &event{c.r.Clock + d, c.seq, do, tag})
}

func (c *cluster) chance(pct int) bool {
	return pct > 0 && c.r.Clock < c.until && c.r.Chance(pct, 100)
}

// implsFor draws the implementations of a deployment and what values all of
// them can carry.
func implsFor(r *simrt.Run, n int) (ims []impl.Impl, p gen.Profile, nan bool) {
	all := impl.All()
	same := r.N(10) == 9 // all alike
	for i := 0; i < n; i++ {
		k := r.N(len(all))
		if same && i > 0 {
			ims = append(ims, ims[0])
			continue
		}
		ims = append(ims, all[k])
	}
	return ims, profileFor(ims), nanFor(ims)
}

func profileFor(ims []impl.Impl) (p gen.Profile) {
	p = gen.Profile{MaxItems: 6, MaxText: 400, BigOneIn: 60, Big: 70000}
	p.Any = true
	for _, im := range ims {
		c := im.Caps()
		p.Any = p.Any && c.Any
		p.UTF8 = p.UTF8 || c.UTF8Only
		p.NoNul = p.NoNul || c.NoNulText
		p.QuietNaN = p.QuietNaN || c.QuietNaN
	}
	return
}

func nanFor(ims []impl.Impl) bool {
	for _, im := range ims {
		if im.Caps().QuietNaN {
			return true
		}
	}
	return false
}

func newCluster(r *simrt.Run, prop string, rt rates) *cluster {
	c := &cluster{r: r, prop: prop, rate: rt, blocked: map[[2]int]int64{}}
	// all implementations a process may ever run, so that values suit them
	n := 2 + r.N(3)
	ims, p, nan := implsFor(r, n)
	c.p, c.nan = p, nan
	gen.Focus(r, &c.p)
	for i, im := range ims {
		c.nodes = append(c.nodes, &cnode{id: i, im: im, up: true, seen: map[int]bool{}})
	}
	c.until = 400 * ms
	return c
}

// suits tells whether an implementation can carry this deployment's values.
func (c *cluster) suits(im impl.Impl) bool {
	k := im.Caps()
	return (c.p.UTF8 || !k.UTF8Only) && (c.p.NoNul || !k.NoNulText) && (c.p.QuietNaN || !k.QuietNaN) && (!c.p.Any || k.Any)
}

func (c *cluster) fail(sig, format string, a ...any) { c.r.Fail(sig, format, a...) }

// run processes events until none is left.
func (c *cluster) run() {
	r := c.r
	for n := 0; len(c.q) > 0 && !r.Failed(); n++ {
		if n > 20000 {
			panic("harness: the cluster does not come to rest")
		}
		e := heap.Pop(&c.q).(*event)
		r.Clock = e.at
		r.Mark(e.tag)
		e.do()
		r.Count("events")
	}
}

// encode has node n encode vals.
func (c *cluster) encode(n *cnode, vals []wire.Val) []byte {
	want := wire.Encode(vals)
	if c.prop != "C10" {
		return want
	}
	got, crash := n.im.EncodeAll(vals)
	if crash != "" {
		c.fail("encode-"+n.im.Name(), "%s cannot encode %v: %s", n.im.Name(), vals, crash)
		return want
	}
	if string(got) != string(want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.fail("bytes-"+n.im.Name(), "%s encodes %v as %s, every other implementation as %s (first difference at byte %d)", n.im.Name(), vals, short(got), short(want), i)
	}
	return got
}

func (c *cluster) addMessages(k int) {
	r := c.r
	for i := 0; i < k; i++ {
		m := &cmsg{id: i, from: r.N(len(c.nodes)), to: r.N(len(c.nodes))}
		m.vals = append([]wire.Val{{K: wire.U32, N: uint64(i)}}, gen.Message(r, c.p)...)
		c.msgs = append(c.msgs, m)
		c.at(int64(r.N(20))*ms, 1, func() { c.send(m) })
	}
}

func (c *cluster) send(m *cmsg) {
	if m.acked || c.r.Failed() {
		return
	}
	from := c.nodes[m.from]
	if from.up {
		if m.bytes == nil || m.tries > 0 {
			// a sender that restarted encodes again
			m.bytes = c.encode(from, m.vals)
		}
		m.tries++
		if c.r.Verbose {
			c.r.Log("node %d (%s) sends message %d (%d bytes) to node %d, try %d: %v", m.from, from.im.Name(), m.id, len(m.bytes), m.to, m.tries, m.vals)
		}
		c.transmit(m)
	}
	// until acknowledged
	c.at(int64(30+10*m.tries)*ms, 2, func() { c.send(m) })
}

func (c *cluster) linkDown(a, b int) bool {
	if a > b {
		a, b = b, a
	}
	return c.r.Clock < c.blocked[[2]int{a, b}]
}

func (c *cluster) transmit(m *cmsg) {
	r := c.r
	copies := 1
	if c.chance(c.rate.dup) {
		copies = 2
		r.Count("fault_duplicate")
	}
	if c.chance(c.rate.partition) {
		a, b := m.from, r.N(len(c.nodes))
		if a > b {
			a, b = b, a
		}
		c.blocked[[2]int{a, b}] = r.Clock + int64(10+r.N(60))*ms
		r.Count("fault_partition")
		r.Log("link %d-%d is down", a, b)
	}
	for i := 0; i < copies; i++ {
		if c.chance(c.rate.drop) {
			r.Count("fault_drop")
			continue
		}
		to := m.to
		if c.chance(c.rate.misroute) {
			to = r.N(len(c.nodes))
			r.Count("fault_misroute")
		}
		d := ms
		if c.chance(c.rate.delay) {
			d = int64(1+r.N(80)) * ms
			r.Count("fault_delay")
		}
		in, damaged := m.bytes, false
		if c.chance(c.rate.damage) {
			in = c.damage(m)
			damaged = true
		} else if c.chance(c.rate.cut) && len(in) > 0 {
			in = in[:r.N(len(in))]
			damaged = true
			r.Count("fault_truncate")
		}
		c.at(d, 16+uint64(to), func() { c.arrive(m, to, in, damaged) })
	}
}

func (c *cluster) arrive(m *cmsg, to int, in []byte, damaged bool) {
	r := c.r
	n := c.nodes[to]
	if !n.up || (to != m.from && c.linkDown(m.from, to)) {
		r.Count("fault_lost_to_down")
		return
	}
	if r.Verbose {
		r.Log("node %d (%s) receives %d bytes of message %d, damaged %v: %s", to, n.im.Name(), len(in), m.id, damaged, short(in))
	}
	r.Count("receptions")
	m.reads++
	c.recv(c, n, in, m.vals, damaged)
	if damaged || to != m.to || r.Failed() {
		return
	}
	if c.logs && !n.seen[m.id] {
		n.seen[m.id] = true
		n.log = append(n.log, in...)
		n.recs = append(n.recs, crec{m, m.vals, len(n.log)})
	}
	if c.logs && !c.chance(c.rate.lie) && (r.Clock >= c.until || r.N(3) > 0) {
		n.sync = len(n.log)
	}
	if c.chance(c.rate.crash) {
		c.crash(n)
		return
	}
	if c.logs && n.sync < len(n.log) {
		return // acknowledged only when it is on disk
	}
	// the acknowledgement travels too, losses included
	if c.chance(c.rate.drop) {
		r.Count("fault_drop")
		return
	}
	m.acked = true
}

func (c *cluster) crash(n *cnode) {
	r := c.r
	n.up = false
	n.downs++
	r.Count("fault_crash")
	keep := n.sync
	if lost := len(n.log) - n.sync; lost > 0 {
		keep += r.N(lost + 1)
		if keep < len(n.log) {
			r.Count("fault_lost_unsynced")
		}
	}
	torn := false
	for _, rec := range n.recs {
		if rec.end == keep {
			torn = false
			break
		}
		if rec.end > keep {
			torn = true
			break
		}
	}
	if torn {
		r.Count("fault_torn_write")
	}
	r.Log("node %d (%s) crashes, %d of %d log bytes survive", n.id, n.im.Name(), keep, len(n.log))
	n.log = n.log[:keep:keep]
	n.im.Restart()
	c.at(int64(1+r.N(50))*ms, 3, func() { c.restart(n) })
}

func (c *cluster) restart(n *cnode) {
	r := c.r
	if c.chance(c.rate.upgrade) {
		all := impl.All()
		im := all[r.N(len(all))]
		if c.suits(im) {
			n.im = im
			r.Count("fault_upgrade")
		}
	}
	n.up = true
	r.Log("node %d restarts as %s and reads its log of %d bytes", n.id, n.im.Name(), len(n.log))
	var kept []crec
	var ws []wire.Want
	var all []wire.Val
	for _, rec := range n.recs {
		all = append(all, rec.vals...)
		ws = append(ws, gen.Wants(rec.vals)...)
		if rec.end <= len(n.log) {
			kept = append(kept, rec)
			continue
		}
		delete(n.seen, rec.msg.id)
		rec.msg.acked = rec.msg.acked && rec.msg.to != n.id
	}
	if len(kept) == len(n.recs) {
		c.readIntact(n.im, n.log, all, "log")
	} else {
		// the record that was being written, and then the ones lost with it
		c.readTorn(n.im, n.log, all, "log")
	}
	n.recs = kept
	end := 0
	if len(kept) > 0 {
		end = kept[len(kept)-1].end
	}
	n.log = n.log[:end:end]
	n.sync = end
	// senders find out by themselves: whoever is not acknowledged sends again
}

func (c *cluster) readIntact(im impl.Impl, in []byte, vals []wire.Val, what string) {
	rs, _, crash := im.DecodeAll(in, gen.Wants(vals))
	if crash != "" {
		c.fail("crash-"+im.Name(), "%s reading an intact %s %s: %s", im.Name(), what, short(in), crash)
		return
	}
	for i, v := range vals {
		c.r.Ev(uint64(v.K))
		if !rs[i].OK || !wire.Eq(rs[i].V, v, c.nan) {
			c.fail("value-"+im.Name()+"-"+v.K.String(), "%s reads value %d of an intact %s as %v, it was %v", im.Name(), i, what, rs[i], v)
			return
		}
	}
}

// readTorn reads a prefix of the encoding of vals.
func (c *cluster) readTorn(im impl.Impl, in []byte, vals []wire.Val, what string) {
	ws := gen.Wants(vals)
	// what the reference says
	rest := in
	complete := 0
	for complete < len(vals) {
		_, k, o := wire.Read(rest, ws[complete])
		if o != wire.OK {
			break
		}
		rest = rest[k:]
		complete++
	}
	if complete < len(vals) {
		ws = ws[:complete+1]
	}
	rs, _, crash := im.DecodeAll(in, ws)
	if crash != "" {
		c.fail("crash-"+im.Name(), "%s reading a cut %s (%d of %d values complete) %s: %s", im.Name(), what, complete, len(vals), short(in), crash)
		return
	}
	for i := 0; i < complete; i++ {
		if !rs[i].OK || !wire.Eq(rs[i].V, vals[i], c.nan) {
			c.fail("prefix-"+im.Name()+"-"+vals[i].K.String(), "%s reads value %d of a cut %s, which is complete, as %v, it was %v", im.Name(), i, what, rs[i], vals[i])
			return
		}
	}
	if complete < len(vals) && c.strict {
		c.r.Count("cut_values_checked")
		c.r.Ev(uint64(vals[complete].K), uint64(len(rest)))
		if rs[complete].OK {
			c.fail("invented-"+im.Name()+"-"+vals[complete].K.String(), "%s invents %v from the first %d bytes (%x) of %v", im.Name(), rs[complete], len(rest), rest, vals[complete])
		}
	}
}

// finish reads every log again with every implementation of the deployment.
func (c *cluster) finish() {
	for _, n := range c.nodes {
		var all []wire.Val
		for _, rec := range n.recs {
			all = append(all, rec.vals...)
		}
		for _, o := range c.nodes {
			if c.r.Failed() {
				return
			}
			if o.im.Name() != n.im.Name() || o == n {
				c.readIntact(o.im, n.log, all, "log")
			}
		}
		ids := map[int]int{}
		for _, rec := range n.recs {
			ids[rec.msg.id]++
		}
		for _, m := range c.msgs {
			if m.to == n.id && ids[m.id] != 1 {
				panic(fmt.Sprintf("harness: message %d is %d times in the log", m.id, ids[m.id]))
			}
		}
	}
}

func (c *cluster) describe() string {
	s := ""
	for _, n := range c.nodes {
		s += n.im.Name() + " "
	}
	return fmt.Sprintf("%s; %d messages, first %v", s, len(c.msgs), c.msgs[0].vals)
}

// ---------------------------------------------------------------- C10

func C10(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		rt := rates{}
		if faulty {
			rt = rates{drop: 15, dup: 20, delay: 50, partition: 8, crash: 20, upgrade: 50, lie: 20}
		}
		c := newCluster(r, "C10", rt)
		c.logs = true
		c.recv = func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool) {
			c.readIntact(n.im, in, vals, "message")
		}
		c.addMessages(1 + r.N(5))
		r.Sample("%s", c.describe())
		c.run()
		if !r.Failed() {
			c.finish()
		}
		r.CountN("messages", int64(len(c.msgs)))
		names := map[string]bool{}
		for _, n := range c.nodes {
			names[n.im.Name()] = true
		}
		r.NonTriv = len(names) > 1
	}
}

// C10Big sends large payloads around length-prefix boundaries through every
// implementation.
func C10Big(r *simrt.Run) {
	all := impl.All()
	n := []int{1<<14 - 1, 1 << 14, 1<<16 + 1, 1<<20 - 1, 1<<21 - 1, 1 << 21, 1<<21 + 5}[r.N(7)]
	k := []wire.Kind{wire.Bytes, wire.String, wire.Error}[r.N(3)]
	a, b := all[r.N(len(all))], all[r.N(len(all))]
	c := &cluster{r: r, prop: "C10", nan: true, p: gen.Profile{UTF8: true, NoNul: true}}
	vals := []wire.Val{{K: wire.U8, N: 1}, {K: k, S: gen.Fill(r, n, true, true)}, {K: wire.I64, N: r.Raw()}}
	r.Sample("%s sends %v to %s", a.Name(), vals, b.Name())
	r.Log("%s sends %v to %s", a.Name(), vals, b.Name())
	x := &cnode{im: a}
	in := c.encode(x, vals)
	if r.Failed() {
		return
	}
	c.readIntact(b, in, vals, "message")
	r.Mark(simrt.Mix(uint64(n), uint64(k), simrt.StrSeed(a.Name()+b.Name())))
	r.NonTriv = true
	r.Ev(uint64(len(in)))
}

// C10Huge sends a payload whose length prefix has its greatest size, from one
// Go version to another.
func C10Huge(r *simrt.Run) {
	var all []impl.Impl
	for _, im := range impl.All() {
		if strings.HasPrefix(im.Name(), "go-") {
			all = append(all, im)
		}
	}
	n := 1<<28 + r.N(3) + r.N(4)<<21
	k := []wire.Kind{wire.Bytes, wire.String, wire.Error}[r.N(3)]
	a, b := all[r.N(len(all))], all[r.N(len(all))]
	c := &cluster{r: r, prop: "C10", nan: true, p: gen.Profile{UTF8: true, NoNul: true}}
	vals := []wire.Val{{K: k, S: strings.Repeat("0123456789abcdef", n/16+1)[:n]}, {K: wire.U8, N: 1}}
	r.Sample("%s sends %v of %d to %s", a.Name(), k, n, b.Name())
	r.Log("%s sends %v of %d to %s", a.Name(), k, n, b.Name())
	in := c.encode(&cnode{im: a}, vals)
	if r.Failed() {
		return
	}
	c.readIntact(b, in, vals, "message")
	r.Mark(simrt.Mix(uint64(n), uint64(k), simrt.StrSeed(a.Name()+b.Name())))
	r.NonTriv = true
	r.Ev(uint64(len(in)))
}

// ---------------------------------------------------------------- C05

func C05(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		rt := rates{}
		if faulty {
			rt = rates{drop: 5, dup: 20, delay: 30, crash: 35, upgrade: 40, lie: 60, cut: 60}
		}
		c := newCluster(r, "C05", rt)
		c.logs = true
		c.strict = true
		c.recv = func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool) {
			c.readTorn(n.im, in, vals, "message")
		}
		c.addMessages(1 + r.N(5))
		r.Sample("%s", c.describe())
		c.run()
		r.NonTriv = r.Counts["cut_values_checked"] > 0 || !faulty
	}
}

// C05Every cuts one message at every byte, for one implementation.
func C05Every(r *simrt.Run) {
	all := impl.All()
	im := all[r.N(len(all))]
	ims := []impl.Impl{im}
	p := profileFor(ims)
	p.MaxItems, p.MaxText, p.BigOneIn = 3, 140, 0
	c := &cluster{r: r, prop: "C05", strict: true, nan: nanFor(ims), p: p}
	vals := gen.Message(r, p)
	in := wire.Encode(vals)
	r.Sample("%s: %v cut at each of %d bytes", im.Name(), vals, len(in))
	r.Log("%s: %v", im.Name(), vals)
	if len(in) > 900 {
		return
	}
	for k := 0; k <= len(in) && !r.Failed(); k++ {
		r.Count("fault_truncate")
		r.Log("cut at %d", k)
		c.readTorn(im, in[:k], vals, "message")
	}
	r.Mark(simrt.Mix(simrt.StrSeed(im.Name()), uint64(len(in)), simrt.StrSeed(string(in))))
	r.NonTriv = true
}

// ---------------------------------------------------------------- C06

// probe draws a read that must fail at the start of rest.
func probe(r *simrt.Run, p gen.Profile, rest []byte) (wire.Want, bool) {
	for try := 0; try < 4; try++ {
		w := gen.AnyWant(r, p)
		if len(rest) > 1 && (rest[0] == byte(wire.Slice) || rest[0] == byte(wire.Map)) && r.N(2) == 1 {
			// the right outer type with another element type
			w = wire.Want{K: wire.Kind(rest[0]), Sub: wire.Kind(r.N(int(wire.NKinds)))}
			if w.K == wire.Map {
				w.Key, w.Sub = wire.Kind(rest[1]), wire.Kind(r.N(int(wire.NKinds)))
				if r.N(2) == 1 && len(rest) > 2 {
					w.Key, w.Sub = wire.Kind(r.N(int(wire.NKinds))), wire.Kind(rest[2])
				}
			}
		}
		_, _, o := wire.Read(rest, w)
		if o == wire.Wrong || (o == wire.Short && len(rest) == 0) {
			return w, true
		}
	}
	return wire.Want{}, false
}

// readProbed reads an intact message with wrong reads in between.
func (c *cluster) readProbed(im impl.Impl, in []byte, vals []wire.Val, chance int) {
	r := c.r
	var ws []wire.Want
	var right []int // index of the value a read must return, -1 for a probe
	rest := in
	for i, v := range vals {
		for k := 0; k < 3 && r.Chance(chance, 100); k++ {
			if w, ok := probe(r, c.p, rest); ok {
				ws = append(ws, w)
				right = append(right, -1)
				r.Count("fault_wrong_type_probe")
			}
		}
		ws = append(ws, wire.WantOf(v))
		right = append(right, i)
		_, n, _ := wire.Read(rest, wire.WantOf(v))
		rest = rest[n:]
	}
	for k := 0; k < 3; k++ {
		if r.N(2) == 1 {
			if w, ok := probe(r, c.p, rest); ok {
				ws = append(ws, w)
				right = append(right, -1)
				r.Count("fault_read_past_end")
			}
		}
	}
	rs, _, crash := im.DecodeAll(in, ws)
	if crash != "" {
		c.fail("crash-"+im.Name(), "%s reading an intact message with probes %v of %v: %s", im.Name(), ws, vals, crash)
		return
	}
	var last wire.Want
	for i, w := range ws {
		r.Ev(uint64(w.K), uint64(right[i]))
		if right[i] < 0 {
			last = w
			if rs[i].OK {
				c.fail("mistaken-"+im.Name()+"-"+w.K.String(), "%s reads %v where there is none: %v in %v", im.Name(), w, rs[i], vals)
				return
			}
			continue
		}
		v := vals[right[i]]
		if !rs[i].OK || !wire.Eq(rs[i].V, v, c.nan) {
			if i > 0 && right[i-1] < 0 {
				c.fail("lost-"+im.Name()+"-"+last.K.String(), "%s: after the wrong read of %v, value %d is read as %v, it is %v", im.Name(), last, right[i], rs[i], v)
			} else if i == 0 || firstProbe(right) > i {
				// not a matter of wrong types
			} else {
				c.fail("lost-"+im.Name()+"-later", "%s: after wrong reads, value %d is read as %v, it is %v", im.Name(), right[i], rs[i], v)
			}
			return
		}
	}
}

func firstProbe(right []int) int {
	for i, x := range right {
		if x < 0 {
			return i
		}
	}
	return len(right)
}

func C06(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		rt := rates{}
		chance := 25
		if faulty {
			rt = rates{dup: 30, delay: 50, misroute: 40, crash: 10, upgrade: 60}
			chance = 60
		}
		c := newCluster(r, "C06", rt)
		c.recv = func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool) {
			c.readProbed(n.im, in, vals, chance)
		}
		c.addMessages(1 + r.N(5))
		r.Sample("%s", c.describe())
		c.run()
		r.NonTriv = r.Counts["fault_wrong_type_probe"] > 0
	}
}

// ---------------------------------------------------------------- C04, C07

var hostileLen = []uint64{1<<32 - 1, 1 << 31, 1<<31 - 1, 1 << 28, 1<<24 + 1, 1 << 21, 100000, 65536}

// damage alters a message the way bad links, disks and peers do.
func (c *cluster) damage(m *cmsg) []byte {
	r := c.r
	b := append([]byte(nil), m.bytes...)
	for k := 1 + r.N(3); k > 0; k-- {
		switch r.N(10) {
		case 0:
			if len(b) > 0 {
				b[r.N(len(b))] ^= 1 << r.N(8)
				r.Count("fault_bit_flip")
			}
		case 1:
			if len(b) > 0 {
				b[r.N(len(b))] = byte(r.N(256))
				r.Count("fault_byte_change")
			}
		case 2:
			if len(b) > 0 {
				b = b[:r.N(len(b))]
				r.Count("fault_truncate")
			}
		case 3: // a part is missing
			if len(b) > 1 {
				i := r.N(len(b))
				j := i + 1 + r.N(min(16, len(b)-i))
				b = append(b[:i:i], b[min(j, len(b)):]...)
				r.Count("fault_lost_part")
			}
		case 4: // a part arrives twice
			if len(b) > 1 {
				i := r.N(len(b))
				j := min(len(b), i+1+r.N(16))
				b = append(b[:j:j], b[i:]...)
				r.Count("fault_repeated_part")
			}
		case 5: // two messages spliced
			o := c.msgs[r.N(len(c.msgs))].bytes
			if len(o) > 0 && len(b) > 0 {
				b = append(b[:r.N(len(b)):len(b)], o[r.N(len(o)):]...)
				r.Count("fault_splice")
			}
		case 6, 7: // a length that is not true
			b = c.hostile(m)
			r.Count("fault_hostile_length")
		case 8: // an integer that does not end
			n := 1 + r.N(14)
			i := 0
			if len(b) > 0 {
				i = r.N(len(b))
			}
			x := append([]byte(nil), b[:i]...)
			x = append(x, byte(9+r.N(5)))
			for ; n > 0; n-- {
				x = append(x, 0x80|byte(r.N(128)))
			}
			if r.N(2) == 1 {
				x = append(x, b[i:]...)
			}
			b = x
			r.Count("fault_endless_integer")
		case 9: // noise
			n := r.N(40)
			x := make([]byte, n)
			for i := range x {
				if r.N(2) == 0 {
					x[i] = byte(r.N(16))
				} else {
					x[i] = byte(r.N(256))
				}
			}
			b = x
			r.Count("fault_noise")
		}
	}
	return b
}

// hostile encodes a message anew with one length or count replaced.
func (c *cluster) hostile(m *cmsg) []byte {
	r := c.r
	var cand []int
	for i, v := range m.vals {
		switch v.K {
		case wire.String, wire.Bytes, wire.Error, wire.Slice, wire.Map:
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		k := []wire.Kind{wire.String, wire.Bytes, wire.Error}[r.N(3)]
		return lie(r, wire.Encode(m.vals), wire.Val{K: k, S: "abc"})
	}
	at := cand[r.N(len(cand))]
	var b []byte
	for i, v := range m.vals {
		if i == at {
			b = lie(r, b, v)
			continue
		}
		b = wire.Append(b, v)
	}
	if r.N(2) == 1 {
		b = b[:len(b)-r.N(min(len(b), 6))]
	}
	return b
}

func lie(r *simrt.Run, b []byte, v wire.Val) []byte {
	n := uint64(len(v.S))
	switch r.N(4) {
	case 0:
		n += 1 + uint64(r.N(3))
	case 1:
		n = uint64(r.N(1 << 20))
	default:
		n = hostileLen[r.N(len(hostileLen))]
	}
	return wire.AppendClaim(b, v, n)
}

// hostileReads draws what a receiver tries on a damaged input.
func hostileReads(r *simrt.Run, p gen.Profile, vals []wire.Val) (ws []wire.Want) {
	full := gen.Wants(vals)
	for i := 0; i < len(full) && len(ws) < 40; i++ {
		switch r.N(8) {
		case 6: // skips ahead
		case 7:
			ws = append(ws, gen.AnyWant(r, p), full[i])
		default:
			ws = append(ws, full[i])
		}
	}
	for k := r.N(6); k > 0; k-- {
		ws = append(ws, gen.AnyWant(r, p))
	}
	return
}

func C04(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		rt := rates{}
		if faulty {
			rt = rates{dup: 60, delay: 50, drop: 5, crash: 5, upgrade: 60, damage: 85}
		}
		c := newCluster(r, "C04", rt)
		c.recv = func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool) {
			ws := hostileReads(r, c.p, vals)
			if r.Verbose {
				r.Log("reads %v", ws)
			}
			rs, _, crash := n.im.DecodeAll(in, ws)
			if crash != "" {
				c.fail("crash-"+n.im.Name()+"-"+lastKind(ws, rs), "%s reading %v from %s: %s", n.im.Name(), ws, short(in), crash)
				return
			}
			c.plausible(n.im, in, ws, rs)
			if damaged {
				r.NonTriv = true
			}
		}
		c.addMessages(1 + r.N(5))
		r.Sample("%s", c.describe())
		c.run()
		if !faulty {
			r.NonTriv = true
		}
	}
}

// plausible checks that reads return nothing that is not in the input.
func (c *cluster) plausible(im impl.Impl, in []byte, ws []wire.Want, rs []impl.Res) {
	total := 0
	for i, x := range rs {
		c.r.Ev(uint64(ws[i].K), b2u(x.OK))
		if !x.OK {
			continue
		}
		n := len(x.V.S)
		// replacement characters may take more room than what they replace
		if im.Name() == "ts" && ws[i].K != wire.Bytes {
			n /= 3
		}
		total += 1 + n
		if total > len(in) {
			c.fail("outside-"+im.Name(), "%s: reads %v of the %d bytes %s returned more than there is: %v", im.Name(), ws[:i+1], len(in), short(in), x)
			return
		}
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func lastKind(ws []wire.Want, rs []impl.Res) string {
	for i, x := range rs {
		if x.Crash != "" {
			return ws[i].K.String()
		}
	}
	return "?"
}

// C07 measures what reads of hostile inputs allocate.
func C07(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		impl.MeasureAlloc = true
		rt := rates{}
		if faulty {
			rt = rates{dup: 60, delay: 30, damage: 90}
		}
		c := newCluster(r, "C07", rt)
		c.p.BigOneIn = 200
		c.recv = func(c *cluster, n *cnode, in []byte, vals []wire.Val, damaged bool) {
			ws := hostileReads(r, c.p, vals)
			if r.Verbose {
				r.Log("reads %v", ws)
			}
			rs, alloc, crash := n.im.DecodeAll(in, ws)
			if crash != "" {
				// a crash is another property's business, unless memory ran out
				r.Count("crashed_elsewhere")
				if alloc < 0 {
					c.fail("memory-death-"+n.im.Name(), "%s reading %v from %d bytes %s: %s", n.im.Name(), ws, len(in), short(in), crash)
				}
				return
			}
			for i := range rs {
				r.Ev(b2u(rs[i].OK))
			}
			if limit := memLimit(len(in), len(ws)); alloc > limit {
				c.fail("alloc-"+n.im.Name(), "%s allocates %d bytes (allowed %d) reading %v from %d bytes %s", n.im.Name(), alloc, limit, ws, len(in), short(in))
			}
			if damaged {
				r.NonTriv = true
			}
		}
		c.addMessages(1 + r.N(3))
		r.Sample("%s", c.describe())
		c.run()
		if !faulty {
			r.NonTriv = true
		}
	}
}

// memLimit is the property's "fixed multiple plus a constant".
func memLimit(in, reads int) int64 { return int64(64*in) + 64<<10 + int64(2048*reads) }

var _ = sort.Ints
