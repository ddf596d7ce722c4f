// Package simrt is the deterministic simulation runtime: one choice source
// decides every value, schedule and fault of a run, so a run is a function of
// its choice sequence. Code under test is instrumented to call Y before each
// statement, which is where the cooperative scheduler may switch tasks.
package simrt

import (
	"fmt"
	"hash/maphash"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"
)

var _ = maphash.Comparable[int]

// ---------------------------------------------------------------- choices

// Src yields the choices of a run: from a seeded generator while searching,
// from a recorded list while replaying.
type Src struct {
	s0, s1, s2, s3 uint64
	Rec            []uint64
	list           []uint64
	replay         bool
	pos            int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix hashes numbers into a seed.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h ^= x
		h = splitmix(&h)
	}
	return h
}

// StrSeed hashes a string into a number.
func StrSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func NewSrc(seed uint64) *Src {
	x := seed
	return &Src{s0: splitmix(&x), s1: splitmix(&x), s2: splitmix(&x), s3: splitmix(&x)}
}

func ReplaySrc(list []uint64) *Src { return &Src{list: list, replay: true} }

func (s *Src) next() uint64 {
	r := s.s1 * 5
	r = (r<<7 | r>>57) * 9
	t := s.s1 << 17
	s.s2 ^= s.s0
	s.s3 ^= s.s1
	s.s1 ^= s.s2
	s.s0 ^= s.s3
	s.s2 ^= t
	s.s3 = s.s3<<45 | s.s3>>19
	return r
}

// Raw draws 64 free bits.
func (s *Src) Raw() uint64 {
	var v uint64
	if s.replay {
		if s.pos < len(s.list) {
			v = s.list[s.pos]
		}
		s.pos++
	} else {
		v = s.next()
	}
	s.Rec = append(s.Rec, v)
	return v
}

// N draws from [0,n). 0 is always the plainest alternative.
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.replay {
		if s.pos < len(s.list) {
			v = s.list[s.pos] % uint64(n)
		}
		s.pos++
	} else {
		v = s.next() % uint64(n)
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Chance is true with probability num/den; the plain alternative is false.
func (s *Src) Chance(num, den int) bool { return s.N(den) >= den-num }

// ---------------------------------------------------------------- run

type Violation struct {
	Sig string // stable class of what failed
	Msg string
}

type Run struct {
	*Src
	Prop     string
	Config   string
	Seed     uint64
	Verbose  bool
	Lines    []string
	Viol     *Violation
	hash     uint64
	Clock    int64 // simulated nanoseconds
	Steps    int64 // instrumented statements executed
	Switches int64
	Counts   map[string]int64
	Samples  []string
	swHash   uint64
	Pairs    map[uint64]struct{}
	NonTriv  bool

	tasks  []*Task
	main   *Task
	cur    *Task
	slice  int64
	maxSl  int
	inRun  bool // the main task is in RunTasks
	timers []*Timer
	marks  []mark

	KnownSigs    map[string]bool // listed findings: noted, not failed
	KnownHit     map[string]string
	HarnessPanic string
	WantSample   bool
	Processes    bool   // tasks are processes: what a goroutine's panic means is for the world to say
	StateMark    uint64 // hash of the states or orders reached, where there are no task switches
}

// StopRun is thrown to end a run early.
type StopRun struct{}

type Task struct {
	ID     int
	Name   string
	Group  int  // the task that began it all: a process, where tasks are processes
	Extra  bool // started by the code under test
	ch     chan struct{}
	fn     func()
	done   bool
	cond   func() bool
	stall  int64 // slow until then, by the run's count of steps
	Budget int64
	Panic  any
	Stack  string
}

// R is the run in progress; simulation is single-threaded by construction.
var R *Run

var resetHooks []func()

// OnReset registers a function that clears package state between runs.
func OnReset(f func()) { resetHooks = append(resetHooks, f) }

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func NewRun(prop, config string, seed uint64, src *Src) *Run {
	r := &Run{Src: src, Prop: prop, Config: config, Seed: seed, hash: 0xcbf29ce484222325, Counts: map[string]int64{}, Pairs: map[uint64]struct{}{}, swHash: 0xcbf29ce484222325}
	r.main = &Task{ID: -1, Group: -1, Name: "main", Budget: 1 << 62, ch: make(chan struct{})}
	r.maxSl = 20
	r.cur = r.main
	r.slice = 1 << 62
	R = r
	ResetAll()
	return r
}

// ResetAll gives the package variables of instrumented code their initial
// values, as in a process that just started.
func ResetAll() {
	forgetChans()
	for _, f := range resetHooks {
		f()
	}
}

// keyName orders map keys the same way in every process.
func keyName(k any) string {
	v := reflect.ValueOf(k)
	if v.IsValid() && (v.Kind() == reflect.Pointer || v.Kind() == reflect.Struct || v.Kind() == reflect.Interface) {
		if m := v.MethodByName("FullName"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			return fmt.Sprint(m.Call(nil)[0])
		}
		if s, ok := k.(fmt.Stringer); ok {
			return s.String()
		}
	}
	return fmt.Sprintf("%#v", k)
}

func (r *Run) Count(k string)           { r.Counts[k]++ }
func (r *Run) CountN(k string, n int64) { r.Counts[k] += n }
func (r *Run) Hash() uint64             { return r.hash }
func (r *Run) Interleaving() uint64     { return r.swHash }
func (r *Run) mix(x uint64)             { r.hash = (r.hash ^ x) * 1099511628211 }
func (r *Run) mixs(s string) {
	h := r.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r.hash = h
}

// Log adds an event to the run's history (always hashed, kept when verbose).
func (r *Run) Log(format string, a ...any) {
	if r.Verbose {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		r.Lines = append(r.Lines, fmt.Sprintf("t=%d %s", r.Clock, s))
	}
	r.mixs(format)
}

// Mark folds a reached state or order into the run's state measure.
func (r *Run) Mark(x uint64) { r.StateMark = Mix(r.StateMark, x) }

// Sample keeps a written-out case for the evidence.
func (r *Run) Sample(format string, a ...any) {
	if r.WantSample && len(r.Samples) == 0 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
}

// Ev hashes numbers into the history.
func (r *Run) Ev(xs ...uint64) {
	for _, x := range xs {
		r.mix(x)
	}
}

// EvB hashes bytes into the history.
func (r *Run) EvB(b []byte) {
	h := r.hash
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r.hash = h
}

// Failed tells whether the run has a violation already.
func (r *Run) Failed() bool { return r.Viol != nil }

// Fail records the first violation of the run. Listed findings are only noted.
func (r *Run) Fail(sig, format string, a ...any) {
	if r.KnownSigs[sig] {
		if r.KnownHit == nil {
			r.KnownHit = map[string]string{}
		}
		r.KnownHit[sig] = fmt.Sprintf(format, a...)
		return
	}
	if r.Viol == nil {
		r.Viol = &Violation{Sig: sig, Msg: fmt.Sprintf(format, a...)}
		r.Log("VIOLATION %s: %s", sig, r.Viol.Msg)
	}
}

// ---------------------------------------------------------------- scheduler

type hangT struct{}

func (hangT) Error() string { return "step budget exceeded" }

// Hang is the panic value thrown when instrumented code exceeds its budget.
var Hang = hangT{}

// Injected is a panic thrown on purpose by a simulated caller.
type Injected struct{ N int }

// Y is called before every statement of instrumented code.
func Y(site int) {
	r := R
	if r == nil {
		return
	}
	r.Steps++
	t := r.cur
	t.Budget--
	if t.Budget < 0 {
		t.Budget = 1 << 40
		panic(Hang)
	}
	r.slice--
	if r.slice > 0 {
		return
	}
	r.resched(uint64(site))
}

// Yield is a switch point in harness code.
func Yield() { Y(0) }

func (r *Run) runnable(buf []*Task) []*Task {
	n := len(r.tasks)
	start := 0
	if r.cur != r.main {
		start = r.cur.ID
	} else if r.main.cond == nil || r.main.cond() {
		buf = append(buf, r.main)
	}
	stalled := false
	for i := 0; i < n; i++ {
		t := r.tasks[(start+i)%n]
		if t.done {
			continue
		}
		if t.cond != nil && !t.cond() {
			continue
		}
		if t.stall > r.Steps {
			stalled = true
			continue
		}
		buf = append(buf, t)
	}
	if len(buf) == 0 && stalled {
		// only slow tasks can go on, so they do
		for _, t := range r.tasks {
			t.stall = 0
		}
		return r.runnable(buf)
	}
	if r.cur != r.main && !r.inRun && (r.main.cond == nil || r.main.cond()) {
		buf = append(buf, r.main)
	}
	return buf
}

// resched lets a task of the run's choice go on. It reports false to the main
// task if nothing can.
func (r *Run) resched(site uint64) bool {
	me := r.cur
	ends := me.done // after the turn was handed on, others may end this task
	if me == r.main && len(r.tasks) == 0 && len(r.timers) == 0 {
		r.slice = 1 << 62
		return me.cond == nil || me.cond()
	}
	if me != r.main && r.inRun && r.main.cond() {
		// all is done
		r.cur = r.main
		r.main.ch <- struct{}{}
		if !ends {
			<-me.ch
		}
		return true
	}
	var arr [16]*Task
	ts := r.runnable(arr[:0])
	for len(ts) == 0 && r.fireTimer() {
		ts = r.runnable(arr[:0])
	}
	if len(ts) == 0 {
		if me == r.main {
			return false
		}
		// every task is blocked or finished: hand back to the main task
		r.cur = r.main
		r.main.ch <- struct{}{}
		if !ends {
			<-me.ch
		}
		return true
	}
	if len(ts) == 1 && ts[0] == me {
		// no one else can
		r.slice = int64(r.maxSl)
		me.cond = nil
		return true
	}
	r.slice = int64(1 + r.N(r.maxSl))
	t := ts[r.N(len(ts))]
	if t == me {
		t.cond = nil
		return true
	}
	r.Switches++
	r.swHash = (r.swHash ^ (site<<8 + uint64(t.ID))) * 1099511628211
	r.Pairs[site<<16|uint64(t.ID)] = struct{}{}
	r.mix(site<<8 + uint64(t.ID))
	r.cur = t
	t.cond = nil
	t.ch <- struct{}{}
	if !ends {
		<-me.ch
	}
	return true
}

// Block suspends the current task until cond holds.
func Block(cond func() bool) {
	r := R
	if r == nil {
		// before any run: initialisation
		for i := 0; !cond(); i++ {
			if i > 50000 {
				panic("simrt: deadlock before the first run")
			}
			time.Sleep(100 * time.Microsecond)
		}
		return
	}
	me := r.cur
	for !cond() {
		me.cond = cond
		if me == r.main {
			if !r.resched(1) && !cond() {
				me.cond = nil
				panic("deadlock: waits for something that cannot happen any more")
			}
			continue
		}
		r.resched(1)
	}
	me.cond = nil
}

// InTask tells whether a simulated task is running.
func InTask() bool { return R != nil && R.cur != R.main }

// Cur is the identity of the running task (-1 for the main one).
func Cur() int {
	if R == nil {
		return -1
	}
	return R.cur.ID
}

// Group is the identity of the process or caller the running task belongs to.
func Group() int {
	if R == nil {
		return -1
	}
	return R.cur.Group
}

// Spawn adds a task; it starts when RunTasks schedules it.
func (r *Run) Spawn(name string, fn func()) *Task {
	t := &Task{ID: len(r.tasks), Group: len(r.tasks), Name: name, ch: make(chan struct{}), fn: fn, Budget: 1 << 40}
	r.tasks = append(r.tasks, t)
	go func() {
		<-t.ch
		defer func() {
			if p := recover(); p != nil {
				t.Panic = p
				t.Stack = Stack()
				if t.Extra && !r.Processes && R == r {
					r.Fail("goroutine-panic", "a goroutine of the code dies: %v at %s", p, t.Stack)
				}
			}
			t.done = true
			if R == r {
				r.resched(2)
			}
		}()
		t.fn()
	}()
	return t
}

// Go is what a go statement in instrumented code becomes.
func Go(fn func()) {
	GoQuiet(fn)
	Yield()
}

// GoQuiet is Go where no switch may happen.
func GoQuiet(fn func()) {
	r := R
	if r == nil {
		go fn()
		return
	}
	t := r.Spawn("go", fn)
	t.Extra = true
	t.Group = r.cur.Group
	t.Budget = 2_000_000
	r.Count("goroutines")
	r.slice = min(r.slice, int64(r.maxSl))
}

// KillGroup ends the other tasks of a group, as the end of a process does.
func (r *Run) KillGroup(g int) {
	for _, t := range r.tasks {
		if t.Group == g && t != r.cur {
			t.done = true
		}
	}
}

// RunTasks runs all tasks to completion, and what they leave behind for a
// while. It reports whether they all finished; goroutines the code under test
// started may go on waiting.
func (r *Run) RunTasks(maxSlice int) bool {
	r.maxSl = maxSlice
	drain := 300
	over := func() bool {
		for _, t := range r.tasks {
			if !t.done && !t.Extra {
				return false
			}
		}
		if drain--; drain <= 0 {
			return true
		}
		for _, t := range r.tasks {
			if !t.done && (t.cond == nil || t.cond()) {
				return false
			}
		}
		return true
	}
	me := r.main
	r.inRun = true
	for {
		r.cur = me
		me.cond = over
		if over() || !r.resched(3) {
			break
		}
	}
	me.cond = nil
	r.inRun = false
	r.cur = me
	r.slice = 1 << 62
	ok := true
	for _, t := range r.tasks {
		if t.done {
			continue
		}
		if t.Extra {
			r.slice = int64(r.maxSl)
		} else {
			ok = false
		}
	}
	return ok
}

// Tasks returns the spawned tasks.
func (r *Run) Tasks() []*Task { return r.tasks }

// ClearTasks forgets finished tasks.
func (r *Run) ClearTasks() { r.tasks, r.timers = nil, nil }

// SetBudget limits the statements the current task may execute.
func (r *Run) SetBudget(n int64) { r.cur.Budget = n }

// Call runs fn, returning a description of a panic if there was one.
func (r *Run) Call(budget int64, fn func()) (p any, stack string) {
	t := r.cur
	old := t.Budget
	t.Budget = budget
	defer func() {
		t.Budget = old
		if e := recover(); e != nil {
			p = e
			if _, ok := e.(Injected); !ok {
				stack = Stack()
			}
		}
	}()
	fn()
	return
}

// Budgeted runs fn and describes how it crashed, "" if it did not. An
// injected panic is described as such.
func (r *Run) Budgeted(budget int64, fn func()) string {
	p, st := r.Call(budget, fn)
	if p == nil {
		return ""
	}
	if _, ok := p.(Injected); ok {
		return "injected"
	}
	if p == any(Hang) {
		return "hang at " + st
	}
	return fmt.Sprintf("panic: %v at %s", p, st)
}

// Stack is the current stack, reduced to function names.
func Stack() string {
	buf := make([]byte, 16384)
	n := runtime.Stack(buf, false)
	var out []string
	for _, l := range strings.Split(string(buf[:n]), "\n") {
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "simrt.") {
			continue
		}
		out = append(out, l)
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// mark says that a task is about to use a map.
type mark struct {
	m     unsafe.Pointer
	t     *Task
	write bool
}

// touch is one use of a map by one task. The switch point in it is where
// another task may come to use the same map: if nothing orders the two and one
// writes, Go's runtime ends the process or the map is corrupted.
func (r *Run) touch(m unsafe.Pointer, write bool) {
	t := r.cur
	for _, k := range r.marks {
		if k.m == m && k.t != t && !k.t.done && (write || k.write) && (!r.Processes || k.t.Group == t.Group) {
			r.Fail("concurrent-map", "two goroutines use the same map at once, and one of them writes to it (%s and %s)", k.t.Name, t.Name)
		}
	}
	r.marks = append(r.marks, mark{m, t, write})
	if r.N(4) == 3 {
		// the task is slow just here
		t.stall = r.Steps + 1 + int64(r.N(600))
		r.slice = 1
		r.Count("sched.slow-task")
	}
	defer func() {
		for i := len(r.marks) - 1; i >= 0; i-- {
			if k := r.marks[i]; k.m == m && k.t == t {
				r.marks = append(r.marks[:i], r.marks[i+1:]...)
				break
			}
		}
	}()
	Y(0)
}

func used[M ~map[K]V, K comparable, V any](m M, write bool) M {
	if r := R; r != nil && m != nil && r.cur != r.main && len(r.tasks) > 1 {
		r.touch(*(*unsafe.Pointer)(unsafe.Pointer(&m)), write)
	}
	return m
}

// MapRead and MapWrite stand around a map that instrumented code reads from or
// writes to.
func MapRead[M ~map[K]V, K comparable, V any](m M) M { return used(m, false) }

func MapWrite[M ~map[K]V, K comparable, V any](m M) M { return used(m, true) }

// MapIter replaces a range over a map in instrumented code: the order is a
// choice of the run.
func MapIter[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		MapRead(m)
		if R == nil || len(m) < 2 {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := make([]K, 0, len(m))
		names := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		for _, k := range keys {
			names = append(names, keyName(k))
		}
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
		for i := 0; i < len(idx)-1; i++ {
			j := i + R.N(len(idx)-i)
			idx[i], idx[j] = idx[j], idx[i]
		}
		for n, i := range idx {
			if n > 0 {
				MapRead(m)
			}
			v, ok := m[keys[i]]
			if !ok {
				continue
			}
			if !yield(keys[i], v) {
				return
			}
		}
	}
}

// Done says that a task ended.
func (t *Task) Done() bool { return t.done }
