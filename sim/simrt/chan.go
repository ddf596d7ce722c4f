package simrt

import (
	"iter"
	"reflect"
	"sync"
	"time"
	"unsafe"
)

// Channels of instrumented code keep their identity, but what is sent through
// them, who waits on them and whether they are closed is kept here, so that
// every wait is one of the scheduler's.

type chanEnt struct {
	capn   int
	own    bool // made by instrumented code
	early  bool // made before the first run
	closed bool
	buf    []any
	recvq  []*sub
	sendq  []*sub
	keep   any
}

type waiter struct {
	fired bool
	idx   int
	val   any
	ok    bool
	shut  bool // a send on a channel that was closed
}

type sub struct {
	w   *waiter
	idx int
	val any
}

var (
	chans  = map[unsafe.Pointer]*chanEnt{}
	chanMu sync.Mutex
	began  bool
)

// forgetChans drops the channels of the run before.
func forgetChans() {
	chanMu.Lock()
	for k, e := range chans {
		if !e.early {
			delete(chans, k)
		}
	}
	began = true
	chanMu.Unlock()
}

func entOf(p unsafe.Pointer, capn int, keep any) *chanEnt {
	e := chans[p]
	if e == nil {
		e = &chanEnt{capn: capn, early: !began, keep: keep}
		chans[p] = e
	}
	return e
}

// MakeChan is what make of a channel becomes.
func MakeChan[C any](c C) C {
	v := reflect.ValueOf(c)
	chanMu.Lock()
	entOf(v.UnsafePointer(), v.Cap(), c).own = true
	chanMu.Unlock()
	return c
}

// Case is one case of a select.
type Case interface {
	ready() bool
	perform() // if ready
	enqueue(w *waiter, i int)
	dequeue(w *waiter)
	take(w *waiter)
}

type RCase[T any] struct {
	V    T
	OK   bool
	e    *chanEnt
	c    <-chan T
	have bool
}

func RecvCase[T any](c <-chan T) *RCase[T] {
	rc := &RCase[T]{c: c}
	if c != nil {
		chanMu.Lock()
		rc.e = entOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), c)
		chanMu.Unlock()
	}
	return rc
}

func (rc *RCase[T]) ready() bool {
	e := rc.e
	if e == nil {
		return false
	}
	if len(e.buf) > 0 || len(e.sendq) > 0 || e.closed || rc.have {
		return true
	}
	if !e.own {
		// someone else's channel: what it has is kept until it is asked for
		select {
		case v, ok := <-rc.c:
			if ok {
				e.buf = append(e.buf, v)
			} else {
				e.closed = true
			}
			return true
		default:
		}
	}
	return false
}

func (rc *RCase[T]) set(v any, ok bool) {
	var z T
	rc.V = z
	if t, is := v.(T); is {
		rc.V = t
	}
	rc.OK = ok
}

func (rc *RCase[T]) perform() {
	e := rc.e
	switch {
	case len(e.buf) > 0:
		rc.set(e.buf[0], true)
		e.buf = e.buf[1:]
		if len(e.sendq) > 0 {
			s := e.sendq[0]
			e.sendq = e.sendq[1:]
			e.buf = append(e.buf, s.val)
			s.w.fired, s.w.idx = true, s.idx
			e.drop(s.w)
		}
	case len(e.sendq) > 0:
		s := e.sendq[0]
		e.sendq = e.sendq[1:]
		rc.set(s.val, true)
		s.w.fired, s.w.idx = true, s.idx
		e.drop(s.w)
	default:
		rc.set(nil, false)
	}
}

func (rc *RCase[T]) enqueue(w *waiter, i int) {
	if rc.e != nil {
		rc.e.recvq = append(rc.e.recvq, &sub{w: w, idx: i})
	}
}
func (rc *RCase[T]) dequeue(w *waiter) {
	if rc.e != nil {
		rc.e.drop(w)
	}
}
func (rc *RCase[T]) take(w *waiter) { rc.set(w.val, w.ok) }

type SCase[T any] struct {
	v T
	e *chanEnt
}

func SendCase[T any](c chan<- T) func(T) *SCase[T] {
	sc := &SCase[T]{}
	if c != nil {
		chanMu.Lock()
		sc.e = entOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), c)
		chanMu.Unlock()
	}
	return func(v T) *SCase[T] { sc.v = v; return sc }
}

func (sc *SCase[T]) ready() bool {
	e := sc.e
	return e != nil && (e.closed || e.waiting() || len(e.buf) < e.capn)
}

func (sc *SCase[T]) perform() {
	e := sc.e
	if e.closed {
		panic("send on closed channel")
	}
	for len(e.recvq) > 0 {
		s := e.recvq[0]
		e.recvq = e.recvq[1:]
		if s.w.fired {
			continue
		}
		s.w.fired, s.w.idx, s.w.val, s.w.ok = true, s.idx, any(sc.v), true
		e.drop(s.w)
		return
	}
	e.buf = append(e.buf, any(sc.v))
}

func (sc *SCase[T]) enqueue(w *waiter, i int) {
	if sc.e != nil {
		sc.e.sendq = append(sc.e.sendq, &sub{w: w, idx: i, val: any(sc.v)})
	}
}
func (sc *SCase[T]) dequeue(w *waiter) {
	if sc.e != nil {
		sc.e.drop(w)
	}
}
func (sc *SCase[T]) take(w *waiter) {
	if w.shut {
		panic("send on closed channel")
	}
}

func (e *chanEnt) waiting() bool {
	for _, s := range e.recvq {
		if !s.w.fired {
			return true
		}
	}
	return false
}

// drop takes a waiter out of the queues; senders that were served through
// another case must not be seen any more.
func (e *chanEnt) drop(w *waiter) {
	f := func(q []*sub) []*sub {
		out := q[:0:0]
		for _, s := range q {
			if s.w != w && !s.w.fired {
				out = append(out, s)
			}
		}
		return out
	}
	e.recvq, e.sendq = f(e.recvq), f(e.sendq)
}

// Select is what a select statement becomes: the number of the case taken, -1
// for the default.
func Select(hasDefault bool, cs ...Case) int {
	Yield()
	for {
		chanMu.Lock()
		var can []int
		for i, c := range cs {
			if c.ready() {
				can = append(can, i)
			}
		}
		if len(can) > 0 {
			k := can[0]
			if len(can) > 1 && R != nil {
				k = can[R.N(len(can))]
			}
			func() { defer chanMu.Unlock(); cs[k].perform() }()
			return k
		}
		if hasDefault {
			chanMu.Unlock()
			return -1
		}
		w := &waiter{}
		for i, c := range cs {
			c.enqueue(w, i)
		}
		chanMu.Unlock()
		Block(func() bool {
			chanMu.Lock()
			defer chanMu.Unlock()
			if w.fired {
				return true
			}
			for _, c := range cs {
				if f, ok := c.(interface{ foreign() bool }); ok && f.foreign() && c.ready() {
					return true
				}
			}
			return false
		})
		chanMu.Lock()
		for _, c := range cs {
			c.dequeue(w)
		}
		chanMu.Unlock()
		if w.fired {
			cs[w.idx].take(w)
			return w.idx
		}
	}
}

func (rc *RCase[T]) foreign() bool { return rc.e != nil && !rc.e.own }

// Recv, Recv2, SendTo, Close, ChanLen, ChanCap and ChanRange are what channel
// operations become.
func Recv[T any](c <-chan T) T {
	rc := RecvCase(c)
	Select(false, rc)
	return rc.V
}

func Recv2[T any](c <-chan T) (T, bool) {
	rc := RecvCase(c)
	Select(false, rc)
	return rc.V, rc.OK
}

func SendTo[T any](c chan<- T) func(T) {
	f := SendCase(c)
	return func(v T) { Select(false, f(v)) }
}

// Offer sends if that needs no waiting, without a switch.
func Offer[T any](c chan<- T, v T) {
	sc := SendCase(c)(v)
	chanMu.Lock()
	defer chanMu.Unlock()
	if sc.ready() {
		sc.perform()
	}
}

func Close[T any](c chan<- T) {
	Yield()
	if c == nil {
		panic("close of nil channel")
	}
	chanMu.Lock()
	defer chanMu.Unlock()
	e := entOf(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), c)
	if e.closed {
		panic("close of closed channel")
	}
	e.closed = true
	if !e.own {
		close(c)
	}
	for _, s := range e.recvq {
		if !s.w.fired {
			s.w.fired, s.w.idx = true, s.idx
		}
	}
	for _, s := range e.sendq {
		if !s.w.fired {
			s.w.fired, s.w.idx, s.w.shut = true, s.idx, true
		}
	}
	e.recvq, e.sendq = nil, nil
}

func ChanLen[T any](c <-chan T) int {
	Yield()
	if c == nil {
		return 0
	}
	rc := RecvCase(c)
	chanMu.Lock()
	defer chanMu.Unlock()
	rc.ready()
	return len(rc.e.buf)
}

func ChanRange[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- timers

// Timer calls F once the simulated clock reaches At; nothing else running is
// what makes the clock jump there.
type Timer struct {
	At      int64
	F       func()
	stopped bool
}

// AddTimer starts a timer.
func AddTimer(d time.Duration, f func()) *Timer {
	r := R
	if r == nil {
		return &Timer{stopped: true}
	}
	t := &Timer{At: r.Clock + max(0, int64(d)), F: f}
	r.timers = append(r.timers, t)
	return t
}

// Stop tells whether the timer was still to fire.
func (t *Timer) Stop() bool {
	if t.stopped {
		return false
	}
	t.stopped = true
	return true
}

func (r *Run) fireTimer() bool {
	k := -1
	live := r.timers[:0]
	for _, t := range r.timers {
		if !t.stopped {
			live = append(live, t)
		}
	}
	r.timers = live
	for i, t := range r.timers {
		if k < 0 || t.At < r.timers[k].At {
			k = i
		}
	}
	if k < 0 {
		return false
	}
	t := r.timers[k]
	t.stopped = true
	if t.At > r.Clock {
		r.Clock = t.At
	}
	r.Count("timer_fired")
	t.F()
	return true
}

// Sleep waits for the simulated clock.
func Sleep(d time.Duration) {
	r := R
	if r == nil {
		return
	}
	woken := false
	AddTimer(d, func() { woken = true })
	Block(func() bool { return woken })
}
