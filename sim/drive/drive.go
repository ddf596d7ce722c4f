// Package drive searches seeded runs in worker processes, confirms and
// minimises what they find, replays it, and writes the evidence.
package drive

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Config is one way of running a property's scenario.
type Config struct {
	Name     string
	Faulty   bool // faults may be injected
	Quick    int  // runs
	Thorough int
	Batch    int
	Run      func(r *simrt.Run)
}

// Prop is one property's search.
type Prop struct {
	ID       string
	Configs  []Config
	Rule     string
	Measure  string // what a distinct interleaving or state is
	Real     []string
	Stub     []string
	Workers  int
	MemLimit uint64 // address space of a worker, bytes
	Assume   []string
	// Between is called between runs with the number of the run; it isolates
	// runs from each other.
	Finish func()
}

// ---------------------------------------------------------------- protocol

type job struct {
	Cfg      string
	Start, N int
	Announce bool
	Choices  []uint64 `json:",omitempty"`
	Replay   bool
	Verbose  bool
	Known    []string `json:",omitempty"`
	Want     []int    `json:",omitempty"` // runs whose hash to return
}

type found struct {
	Run     int
	Sig     string
	Msg     string
	Choices []uint64
	Hash    string
	Trace   []string `json:",omitempty"`
}

type result struct {
	Runs     int
	Steps    int64
	Switches int64
	Clock    int64
	Counts   map[string]int64
	Hashes   []uint64 // of nontrivial runs
	Inter    []uint64
	Pairs    []uint64 // new in this worker
	Found    []found
	Known    map[string]int64
	KnownMsg map[string]string
	Sample   []string
	Progress int // announce only: run about to start
	HashOf   map[int]string
	Harness  string // the harness did not get through a run
	Done     bool
}

func seedOf(base uint64, prop, cfg string, run int) uint64 {
	return simrt.Mix(base, simrt.StrSeed(prop), simrt.StrSeed(cfg), uint64(run))
}

func one(p *Prop, c *Config, base uint64, run int, choices []uint64, replay, verbose, sample bool, known map[string]bool) *simrt.Run {
	seed := seedOf(base, p.ID, c.Name, run)
	src := simrt.NewSrc(seed)
	if replay {
		src = simrt.ReplaySrc(choices)
	}
	r := simrt.NewRun(p.ID, c.Name, seed, src)
	r.Verbose = verbose
	r.KnownSigs = known
	r.WantSample = sample
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(simrt.StopRun); ok {
					return
				}
				st := simrt.Stack()
				if codeDied(st) {
					// in a call that no world expects to fail
					r.Fail("code-panic", "panic: %v at %s", e, st)
					return
				}
				r.HarnessPanic = fmt.Sprintf("%v at %s", e, st)
			}
		}()
		c.Run(r)
	}()
	simrt.R = nil
	return r
}

// codeDied tells whether a panic comes from the code under test.
func codeDied(stack string) bool {
	for _, f := range strings.Split(stack, " < ")[1:] { // the first is the one that asks
		switch {
		case strings.HasPrefix(f, "verifsim/poly/"), strings.HasPrefix(f, "verifsim/gen1/"), strings.HasPrefix(f, "verifsim/gen2/"):
			return true
		case strings.HasPrefix(f, "verifsim/simsync"), strings.HasPrefix(f, "verifsim/simatomic"), strings.HasPrefix(f, "verifsim/simos"):
		case strings.HasPrefix(f, "verifsim/"):
			return false
		}
	}
	return false
}

func child(p *Prop, base uint64) {
	if p.MemLimit > 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: p.MemLimit, Max: p.MemLimit})
	}
	debug.SetMemoryLimit(2 << 30)
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	out := json.NewEncoder(w)
	pairs := map[uint64]struct{}{}
	send := func(x *result) {
		if err := out.Encode(x); err != nil {
			os.Exit(3)
		}
		w.Flush()
	}
	for {
		var j job
		if err := in.Decode(&j); err != nil {
			if p.Finish != nil {
				p.Finish()
			}
			return
		}
		c := p.config(j.Cfg)
		known := map[string]bool{}
		for _, k := range j.Known {
			known[k] = true
		}
		want := map[int]bool{}
		for _, x := range j.Want {
			want[x] = true
		}
		res := &result{Counts: map[string]int64{}, Known: map[string]int64{}, KnownMsg: map[string]string{}, HashOf: map[int]string{}}
		for i := j.Start; i < j.Start+j.N; i++ {
			if j.Announce {
				send(&result{Progress: i})
			}
			r := one(p, c, base, i, j.Choices, j.Replay, j.Verbose, len(res.Sample) < 2, known)
			if r.HarnessPanic != "" {
				// what is left of this process is not trusted any more
				res.Harness = fmt.Sprintf("%s run %d: %s", c.Name, i, r.HarnessPanic)
				break
			}
			res.Runs++
			res.Steps += r.Steps
			res.Switches += r.Switches
			res.Clock += r.Clock
			for k, v := range r.Counts {
				res.Counts[k] += v
			}
			if r.NonTriv {
				res.Hashes = append(res.Hashes, r.Hash())
			}
			if r.Switches > 0 || r.StateMark != 0 {
				res.Inter = append(res.Inter, r.Interleaving()^r.StateMark)
			}
			for k := range r.Pairs {
				if _, ok := pairs[k]; !ok {
					pairs[k] = struct{}{}
					res.Pairs = append(res.Pairs, k)
				}
			}
			for k, m := range r.KnownHit {
				res.Known[k]++
				res.KnownMsg[k] = m
			}
			if want[i] {
				res.HashOf[i] = hx(r.Hash())
			}
			if len(r.Samples) > 0 && len(res.Sample) < 2 {
				res.Sample = append(res.Sample, r.Samples...)
			}
			if r.Viol != nil {
				f := found{Run: i, Sig: r.Viol.Sig, Msg: r.Viol.Msg, Choices: r.Rec, Hash: hx(r.Hash())}
				if j.Verbose {
					f.Trace = r.Lines
				}
				res.Found = append(res.Found, f)
				if !j.Replay {
					break
				}
			} else if j.Verbose {
				res.Found = append(res.Found, found{Run: i, Hash: hx(r.Hash()), Trace: r.Lines, Choices: r.Rec})
			}
		}
		res.Done = true
		send(res)
	}
}

func hx(h uint64) string { return strconv.FormatUint(h, 16) }

func (p *Prop) config(name string) *Config {
	for i := range p.Configs {
		if p.Configs[i].Name == name {
			return &p.Configs[i]
		}
	}
	fmt.Fprintln(os.Stderr, "no such config:", name)
	os.Exit(4)
	return nil
}

// ---------------------------------------------------------------- parent

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(append([]byte(nil), t.b[:1<<14]...), t.b[len(t.b)-(1<<14):]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func spawn(p *Prop, base uint64) *worker {
	cmd := exec.Command("/proc/self/exe", "-prop", p.ID, "-seed", strconv.FormatUint(base, 10), "-child")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, err := cmd.StdinPipe()
	die(err)
	out, err := cmd.StdoutPipe()
	die(err)
	t := &tail{}
	cmd.Stderr = t
	die(cmd.Start())
	return &worker{cmd, in, json.NewEncoder(in), json.NewDecoder(bufio.NewReaderSize(out, 1<<20)), t}
}

func (w *worker) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Wait()
}

func (w *worker) close() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
}

// cpu is the CPU time a process has used.
func cpu(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 14 {
		return 0
	}
	a, _ := strconv.ParseInt(f[11], 10, 64)
	c, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(a+c) * 10 * time.Millisecond
}

const hangCPU = 60 * time.Second

// do runs one job; ok is false if the worker died or hung.
func (w *worker) do(j *job, progress func(int)) (res *result, ok bool, why string) {
	if w.enc.Encode(j) != nil {
		w.kill()
		return nil, false, w.death("died")
	}
	type msg struct {
		r   *result
		err error
	}
	ch := make(chan msg, 16)
	go func() {
		for {
			r := &result{}
			err := w.dec.Decode(r)
			ch <- msg{r, err}
			if err != nil || r.Done {
				return
			}
		}
	}()
	start := cpu(w.cmd.Process.Pid)
	wall := time.Now()
	for {
		select {
		case m := <-ch:
			if m.err != nil {
				w.kill()
				return nil, false, w.death("died")
			}
			if m.r.Done {
				return m.r, true, ""
			}
			if progress != nil {
				progress(m.r.Progress)
			}
			start = cpu(w.cmd.Process.Pid)
			wall = time.Now()
		case <-time.After(500 * time.Millisecond):
			if cpu(w.cmd.Process.Pid)-start > hangCPU {
				w.kill()
				return nil, false, "hang"
			}
			if time.Since(wall) > 400*time.Second {
				w.kill()
				return nil, false, "stuck"
			}
		}
	}
}

func (w *worker) death(what string) string {
	if ws, ok := w.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Exited() && ws.ExitStatus() == 4 {
		fmt.Fprintln(os.Stderr, w.err.String())
		os.Exit(2)
	}
	s := w.err.String()
	var first string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") {
			first = l
			break
		}
	}
	return what + ": " + first
}

// Replay is what a replay file holds.
type Replay struct {
	Property  string   `json:"property"`
	Config    string   `json:"config"`
	Seed      uint64   `json:"verif_seed"`
	Run       int      `json:"run"`
	RunSeed   string   `json:"run_seed"`
	Signature string   `json:"signature"`
	Message   string   `json:"message"`
	Choices   []uint64 `json:"choices"`
	Original  int      `json:"choices_before_minimisation"`
	Hash      string   `json:"history_hash"`
	Batch     int      `json:"batch_start,omitempty"` // replay needs the runs batch_start..run in one process
	Whole     bool     `json:"needs_batch,omitempty"`
	Trace     []string `json:"trace"`
	Tier      string   `json:"tier"`
}

var (
	fProp    = flag.String("prop", "", "property")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fTier    = flag.String("tier", "quick", "tier")
	fChild   = flag.Bool("child", false, "worker")
	fReplay  = flag.String("replay", "", "replay file")
	fEvid    = flag.String("evidence", "", "evidence file")
	fRepDir  = flag.String("replays", "", "where replay files go")
	fKnown   = flag.String("known", "", "known findings")
	fCap     = flag.Int("cap", 400, "seconds")
	fWorkers = flag.Int("workers", 0, "workers")
	fRecheck = flag.Int("recheck", 0, "how many runs of each configuration to execute again (0: 20, thorough 100)")
	fScale   = flag.Float64("scale", 1, "multiply run counts")
	fOnly    = flag.String("config", "", "only this config")
	fVerbose = flag.Bool("v", false, "verbose")
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}

// Main is the driver.
func Main(props []*Prop) {
	flag.Parse()
	var p *Prop
	for _, q := range props {
		if q.ID == *fProp {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *fProp)
		os.Exit(2)
	}
	if *fChild {
		child(p, *fSeed)
		return
	}
	if *fReplay != "" {
		replay(p)
		return
	}
	search(p)
}

type totals struct {
	result
	hashes, inter, pairs map[uint64]struct{}
}

func (t *totals) add(r *result) {
	t.Runs += r.Runs
	t.Steps += r.Steps
	t.Switches += r.Switches
	t.Clock += r.Clock
	for k, v := range r.Counts {
		t.Counts[k] += v
	}
	for _, h := range r.Hashes {
		t.hashes[h] = struct{}{}
	}
	for _, h := range r.Inter {
		t.inter[h] = struct{}{}
	}
	for _, h := range r.Pairs {
		t.pairs[h] = struct{}{}
	}
	for k, v := range r.Known {
		t.Known[k] += v
		t.KnownMsg[k] = r.KnownMsg[k]
	}
	if len(t.Sample) < 6 {
		t.Sample = append(t.Sample, r.Sample...)
	}
}

type hit struct {
	cfg   string
	start int
	f     found
	crash string
}

func loadKnown(prop string) (sigs []string, text map[string]string) {
	text = map[string]string{}
	if *fKnown == "" {
		return
	}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return
	}
	// lines: "finding: property=<id> sig=<signature> <what fails>"
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="+prop+" "), " ", 2)
		s := strings.TrimPrefix(f[0], "sig=")
		sigs = append(sigs, s)
		if len(f) > 1 {
			text[s] = f[1]
		}
	}
	return
}

func search(p *Prop) {
	begin := time.Now()
	nw := runtime.NumCPU()
	if p.Workers > 0 && p.Workers < nw {
		nw = p.Workers
	}
	if *fWorkers > 0 {
		nw = *fWorkers
	}
	known, ktext := loadKnown(p.ID)
	type unit struct {
		cfg      string
		start, n int
	}
	var units []unit
	per := map[string]int{}
	var lists [][]unit
	for _, c := range p.Configs {
		if *fOnly != "" && c.Name != *fOnly {
			continue
		}
		n := c.Quick
		if *fTier == "thorough" {
			n = c.Thorough
			if n == 0 {
				n = c.Quick * 20
			}
		}
		n = int(float64(n) * *fScale)
		b := c.Batch
		if b == 0 {
			b = 50
		}
		per[c.Name] = n
		var l []unit
		for s := 0; s < n; s += b {
			k := b
			if s+k > n {
				k = n - s
			}
			l = append(l, unit{c.Name, s, k})
		}
		lists = append(lists, l)
	}
	// interleave configs proportionally so that a time cap cuts them evenly
	idx := make([]int, len(lists))
	total := 0
	for _, l := range lists {
		total += len(l)
	}
	for len(units) < total {
		best, bf := -1, 2.0
		for i, l := range lists {
			if idx[i] < len(l) {
				f := float64(idx[i]) / float64(len(l))
				if f < bf {
					best, bf = i, f
				}
			}
		}
		units = append(units, lists[best][idx[best]])
		idx[best]++
	}
	deadline := begin.Add(time.Duration(*fCap) * time.Second)
	var mu sync.Mutex
	tot := &totals{hashes: map[uint64]struct{}{}, inter: map[uint64]struct{}{}, pairs: map[uint64]struct{}{}}
	tot.Counts, tot.Known, tot.KnownMsg = map[string]int64{}, map[string]int64{}, map[string]string{}
	tot.HashOf = map[int]string{}
	cfgRuns := map[string]int{}
	var hits []hit
	var broken []string // runs the harness itself did not get through
	next := 0
	stop := false
	sampleRuns := map[string]map[int]string{}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := spawn(p, *fSeed)
			defer func() { w.close() }()
			for {
				mu.Lock()
				if stop || next >= len(units) || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				u := units[next]
				next++
				mu.Unlock()
				j := &job{Cfg: u.cfg, Start: u.start, N: u.n, Known: known}
				if u.start == 0 || u.start%(u.n*37) == 0 {
					j.Want = []int{u.start, u.start + u.n/2}
				}
				accept := func(res *result) {
					if res.Harness != "" {
						w.close()
						w = spawn(p, *fSeed)
					}
					mu.Lock()
					if res.Harness != "" {
						if broken = append(broken, res.Harness); len(broken) >= 20 {
							stop = true
						}
					}
					tot.add(res)
					cfgRuns[u.cfg] += res.Runs
					for k, h := range res.HashOf {
						if sampleRuns[u.cfg] == nil {
							sampleRuns[u.cfg] = map[int]string{}
						}
						sampleRuns[u.cfg][k] = h
					}
					for _, f := range res.Found {
						hits = append(hits, hit{u.cfg, u.start, f, ""})
						stop = true
					}
					mu.Unlock()
				}
				res, ok, why := w.do(j, nil)
				if ok {
					accept(res)
					continue
				}
				// the worker died: find the run that did it
				w = spawn(p, *fSeed)
				last := -1
				j.Announce = true
				res, ok, why2 := w.do(j, func(k int) { last = k })
				if ok {
					// something outside stopped it
					fmt.Fprintf(os.Stderr, "a worker %s in %s runs %d..%d, not reproduced\n", why, u.cfg, u.start, u.start+u.n)
					accept(res)
					continue
				}
				mu.Lock()
				hits = append(hits, hit{u.cfg, u.start, found{Run: last, Sig: crashSig(why2), Msg: "the process running the code under test " + why2}, why2})
				stop = true
				mu.Unlock()
				w = spawn(p, *fSeed)
			}
		}()
	}
	wg.Wait()
	searchTime := time.Since(begin)
	for i, h := range broken {
		if i < 3 {
			fmt.Fprintf(os.Stderr, "harness error in %s\n", h)
		}
	}

	if len(hits) > 0 {
		// the lowest-numbered hits first, one per signature
		sort.SliceStable(hits, func(a, b int) bool { return hits[a].f.Run < hits[b].f.Run })
		seen := map[string]bool{}
		viol := 0
		for _, h := range hits {
			if seen[h.f.Sig] || viol >= 3 {
				continue
			}
			seen[h.f.Sig] = true
			viol++
			path := report(p, h, known)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		evidence(p, tot, cfgRuns, per, begin, searchTime, 0, 0, viol)
		os.Exit(1)
	}

	if len(broken) > 0 {
		die(fmt.Errorf("%d runs were not carried out", len(broken)))
	}

	// determinism: re-execute sampled runs in fresh processes, in reverse order
	checked, diff := 0, 0
	again := *fRecheck
	if again == 0 {
		again = 20
		if *fTier == "thorough" {
			again = 100
		}
	}
	w := spawn(p, *fSeed)
	var cn []string
	for c := range sampleRuns {
		cn = append(cn, c)
	}
	sort.Strings(cn)
	for _, c := range cn {
		var ks []int
		for k := range sampleRuns[c] {
			ks = append(ks, k)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(ks)))
		for n, k := range ks {
			if n >= again {
				break
			}
			again := &job{Cfg: c, Start: k, N: 1, Known: known, Want: []int{k}}
			res, ok, why := w.do(again, nil)
			if !ok { // once more: something outside may have stopped it
				w = spawn(p, *fSeed)
				res, ok, why = w.do(again, nil)
			}
			if !ok || res.Harness != "" {
				die(fmt.Errorf("re-execution failed: %s%s", why, res.Harness))
			}
			checked++
			if res.HashOf[k] != sampleRuns[c][k] {
				diff++
				fmt.Fprintf(os.Stderr, "not deterministic: %s run %d\n", c, k)
			}
		}
	}
	w.close()
	if diff > 0 && os.Getenv("VERIF_STRICT") != "" {
		die(fmt.Errorf("%d of %d re-executed runs differ", diff, checked))
	}
	for _, k := range known {
		if tot.Known[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (signature %s, seen in %d runs)\n", p.ID, ktext[k], k, tot.Known[k])
		}
	}
	evidence(p, tot, cfgRuns, per, begin, searchTime, checked, diff, 0)
	fmt.Printf("%s: held on %d runs (%d distinct non-trivial, %d distinct interleavings) in %.1fs\n", p.ID, tot.Runs, len(tot.hashes), len(tot.inter), time.Since(begin).Seconds())
}

func crashSig(why string) string {
	if strings.HasPrefix(why, "hang") || why == "stuck" {
		return "process-hang"
	}
	return "process-death"
}

// report confirms and minimises a hit and writes its replay file.
func report(p *Prop, h hit, known []string) string {
	rp := &Replay{Property: p.ID, Config: h.cfg, Seed: *fSeed, Run: h.f.Run, RunSeed: hx(seedOf(*fSeed, p.ID, h.cfg, h.f.Run)), Signature: h.f.Sig, Message: h.f.Msg, Tier: *fTier, Batch: h.start}
	w := spawn(p, *fSeed)
	alive := true
	eval := func(ch []uint64, verbose bool) (*found, bool) {
		if !alive {
			w = spawn(p, *fSeed)
			alive = true
		}
		res, ok, why := w.do(&job{Cfg: h.cfg, Start: h.f.Run, N: 1, Choices: ch, Replay: true, Verbose: verbose, Known: known}, nil)
		if !ok {
			alive = false
			return &found{Sig: crashSig(why), Msg: why}, true
		}
		if res.Harness != "" {
			w.close()
			alive = false
			return nil, false
		}
		if len(res.Found) == 0 {
			return nil, false
		}
		return &res.Found[0], res.Found[0].Sig != ""
	}
	fresh := func() {
		if alive {
			w.close()
		}
		w = spawn(p, *fSeed)
		alive = true
	}
	best := h.f.Choices
	if h.crash != "" {
		// the choices of a run that kills its process are unknown to us: run
		// it by seed and keep that as the replay
		rp.Whole = true
		rp.Batch = h.f.Run
		if alive {
			w.close()
		}
	} else {
		rp.Original = len(best)
		f, ok := eval(best, false)
		if !ok || f.Sig != h.f.Sig {
			// depends on earlier runs of the same process
			rp.Whole = true
			if alive {
				w.close()
			}
			for _, k := range []int{1, 2, 4, 8, 16, 32, 64, 128} {
				if h.f.Run-k < h.start {
					break
				}
				if wholeRun(p, h.cfg, h.f.Run-k, h.f.Run, h.f.Sig, known) {
					rp.Batch = h.f.Run - k
					break
				}
			}
		} else {
			best = shrink(best, func(c []uint64) bool {
				f, ok := eval(c, false)
				return ok && f.Sig == h.f.Sig
			}, 25*time.Second)
			fresh()
			f, ok := eval(best, true)
			if ok {
				rp.Message, rp.Hash, rp.Trace = f.Msg, f.Hash, f.Trace
			}
			if alive {
				w.close()
			}
		}
	}
	rp.Choices = best
	if len(rp.Trace) > 400 {
		rp.Trace = append(rp.Trace[:200:200], append([]string{"..."}, rp.Trace[len(rp.Trace)-200:]...)...)
	}
	b, _ := json.MarshalIndent(rp, "", " ")
	dir := *fRepDir
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%s.json", p.ID, h.cfg, h.f.Run, hx(simrt.StrSeed(h.f.Sig)&0xffff)))
	die(os.WriteFile(path, b, 0o644))
	fmt.Printf("%s [%s run %d] %s: %s (%d choices, minimised from %d)\n", p.ID, h.cfg, h.f.Run, rp.Signature, rp.Message, len(rp.Choices), rp.Original)
	for i, l := range rp.Trace {
		if i > 60 {
			fmt.Println("    ...")
			break
		}
		fmt.Println("   ", l)
	}
	return path
}

func wholeRun(p *Prop, cfg string, from, to int, sig string, known []string) bool {
	w := spawn(p, *fSeed)
	res, ok, why := w.do(&job{Cfg: cfg, Start: from, N: to - from + 1, Known: known}, nil)
	if !ok {
		return crashSig(why) == sig
	}
	w.close()
	for _, f := range res.Found {
		if f.Sig == sig && f.Run == to {
			return true
		}
	}
	return false
}

// shrink minimises a choice list while ok holds.
func shrink(c []uint64, ok func([]uint64) bool, limit time.Duration) []uint64 {
	end := time.Now().Add(limit)
	cur := append([]uint64(nil), c...)
	try := func(x []uint64) bool {
		if time.Now().After(end) {
			return false
		}
		if ok(x) {
			cur = append([]uint64(nil), x...)
			return true
		}
		return false
	}
	// trailing choices that do not matter
	lo, hi := 0, len(cur)
	for lo < hi && time.Now().Before(end) {
		m := (lo + hi) / 2
		if try(cur[:m:m]) {
			hi = m
			if len(cur) < hi {
				hi = len(cur)
			}
		} else {
			lo = m + 1
		}
	}
	for pass := 0; pass < 6 && time.Now().Before(end); pass++ {
		before := fmt.Sprint(cur)
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur) && time.Now().Before(end); {
				x := append(append([]uint64(nil), cur[:i]...), cur[i+size:]...)
				if try(x) {
					continue
				}
				nz := false
				for _, v := range cur[i : i+size] {
					if v != 0 {
						nz = true
					}
				}
				if nz {
					x = append([]uint64(nil), cur...)
					for k := i; k < i+size; k++ {
						x[k] = 0
					}
					try(x)
				}
				i += size
			}
		}
		for i := 0; i < len(cur) && time.Now().Before(end); i++ {
			lo, hi := uint64(0), cur[i]
			for lo < hi && time.Now().Before(end) {
				m := lo + (hi-lo)/2
				x := append([]uint64(nil), cur...)
				x[i] = m
				if try(x) {
					hi = m
				} else {
					lo = m + 1
				}
			}
		}
		if fmt.Sprint(cur) == before {
			break
		}
	}
	return cur
}

func replay(p *Prop) {
	b, err := os.ReadFile(*fReplay)
	die(err)
	var rp Replay
	die(json.Unmarshal(b, &rp))
	*fSeed = rp.Seed
	known, _ := loadKnown(p.ID)
	w := spawn(p, rp.Seed)
	if rp.Whole {
		last := -1
		res, ok, why := w.do(&job{Cfg: rp.Config, Start: rp.Batch, N: rp.Run - rp.Batch + 1, Known: known, Announce: true}, func(k int) { last = k })
		if !ok {
			fmt.Printf("run %d: the process %s\n", last, why)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
			os.Exit(1)
		}
		w.close()
		for _, f := range res.Found {
			fmt.Printf("run %d: %s: %s\n", f.Run, f.Sig, f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		return
	}
	res, ok, why := w.do(&job{Cfg: rp.Config, Start: rp.Run, N: 1, Choices: rp.Choices, Replay: true, Verbose: true, Known: known}, nil)
	if !ok {
		fmt.Println("the process", why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
		os.Exit(1)
	}
	w.close()
	f := res.Found[0]
	for _, l := range f.Trace {
		fmt.Println(l)
	}
	same := "identical to the recorded one"
	if f.Hash != rp.Hash {
		same = "DIFFERENT from the recorded " + rp.Hash
	}
	fmt.Printf("history hash %s, %s\n", f.Hash, same)
	if f.Sig != "" {
		fmt.Printf("%s: %s\n", f.Sig, f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
		os.Exit(1)
	}
	fmt.Println("no violation on this tree")
}

func evidence(p *Prop, t *totals, cfgRuns, per map[string]int, begin time.Time, searchTime time.Duration, checked, diff, viol int) {
	if *fEvid == "" {
		return
	}
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.Counts {
		if strings.HasPrefix(k, "fault_") {
			faults[strings.TrimPrefix(k, "fault_")] = v
		} else {
			other[k] = v
		}
	}
	hours := searchTime.Hours()
	cfgs := map[string]any{}
	for _, c := range p.Configs {
		cfgs[c.Name] = map[string]any{"runs": cfgRuns[c.Name], "planned": per[c.Name], "faults_enabled": c.Faulty}
	}
	samples := t.Sample
	if len(samples) > 5 {
		samples = samples[:5]
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     len(t.hashes),
		"rule":                    p.Rule,
		"samples":                 samples,
		"simulated_runs":          t.Runs,
		"seeds_per_hour":          int64(float64(t.Runs) / hours),
		"runs_per_config":         cfgs,
		"simulated_time_s":        float64(t.Clock) / 1e9,
		"instrumented_steps":      t.Steps,
		"task_switches":           t.Switches,
		"faults_injected":         faults,
		"events":                  other,
		"distinct_interleavings":  len(t.inter),
		"interleaving_measure":    p.Measure,
		"switch_point_task_pairs": len(t.pairs),
		"determinism":             map[string]int{"re_executed": checked, "differing": diff},
		"components_real":         p.Real,
		"components_stubbed":      p.Stub,
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(begin).Seconds(), "violations": viol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	os.MkdirAll(filepath.Dir(*fEvid), 0o755)
	die(os.WriteFile(*fEvid, append(b, '\n'), 0o644))
}
