// Package simos is the operating system of simulated processes: standard
// streams with faults, the environment, the clock and helper programs.
package simos

import (
	"bytes"
	"context"
	"encoding/base32"
	"errors"
	"fmt"
	"io"
	"iter"
	"math/rand"
	rand2 "math/rand/v2"
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Helper is how a helper program behaves.
type Helper struct {
	Missing  bool   // not installed
	Denied   bool   // cannot be started
	Exit     int    // exit status
	Killed   bool   // dies from a signal
	At       int    // a failing helper writes this many bytes of its output, -1 for all
	Complain string // what it writes to standard error
	Late     bool   // complains after its output
	Echo     bool   // complains with what it was given as well
	Leave    int    // stops reading its input after so many bytes, -1 for never
	Slow     int64  // simulated time it takes
}

// Quiet is a helper that works.
func Quiet() Helper { return Helper{At: -1, Leave: -1} }

func (h Helper) fails() bool { return h.Missing || h.Denied || h.Exit != 0 || h.Killed }

// Fails says that a helper behaving like this cannot have done its work.
func (h Helper) Fails() bool { return h.fails() }

// Proc is a simulated process.
type Proc struct {
	In      []byte // standard input
	Chunks  []int  // sizes of successive reads, the last repeats
	ReadErr error  // after the input
	NoInput bool   // standard input is not open

	OutLimit int   // bytes standard output accepts
	OutErr   error // what further writes return; EPIPE kills the process

	Helpers []Helper // of successive helper runs, the last repeats
	Env     uint64   // what the environment looks like

	Out, Err []byte
	Dead     bool
	Status   int
	Runs     int // helper runs
	Rejected int // helper runs that failed
	Waiting  int // helper runs that take long and are not done
	ReadsAt  int
	InEnd    bool // the error or end of input was reported
	OutFail  bool // a write failed
	Blocked  string
	reads    int
}

// Cur is the process running now, nil between processes.
var Cur *Proc

// Default is the environment outside of processes.
var Default = &Proc{OutLimit: 1 << 30, Helpers: []Helper{Quiet()}}

// Tasks are the processes of tasks, where several run at once.
var Tasks = map[int]*Proc{}

func cur() *Proc {
	if p := Tasks[simrt.Group()]; p != nil {
		return p
	}
	if Cur != nil {
		return Cur
	}
	return Default
}

func (p *Proc) stop(status int) {
	if !p.Dead {
		p.Dead = true
		p.Status = status
	}
	if simrt.R != nil {
		simrt.R.KillGroup(simrt.Group())
	}
	runtime.Goexit()
}

// File is an open file of a process.
type File struct {
	fd   int
	name string
	gone bool
}

var (
	Stdin  = &File{0, "/dev/stdin", false}
	Stdout = &File{1, "/dev/stdout", false}
	Stderr = &File{2, "/dev/stderr", false}
	Args   = []string{"protoc-gen-polyglot"}
)

// Reopen gives the process of a run its streams.
func Reopen() {
	Stdin, Stdout, Stderr = &File{0, "/dev/stdin", false}, &File{1, "/dev/stdout", false}, &File{2, "/dev/stderr", false}
	Args = []string{"protoc-gen-polyglot"}
}

func (f *File) perr(op string, err error) error { return &os.PathError{Op: op, Path: f.name, Err: err} }

func (f *File) Read(b []byte) (int, error) {
	simrt.Yield()
	p := cur()
	if f.gone || f.fd != 0 || p.NoInput {
		return 0, f.perr("read", os.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if p.ReadsAt >= len(p.In) {
		p.InEnd = true
		if p.ReadErr != nil {
			return 0, f.perr("read", p.ReadErr)
		}
		return 0, io.EOF
	}
	n := len(p.In) - p.ReadsAt
	if len(p.Chunks) > 0 {
		n = min(n, p.Chunks[min(p.reads, len(p.Chunks)-1)])
	}
	n = min(n, len(b))
	p.reads++
	copy(b, p.In[p.ReadsAt:p.ReadsAt+n])
	p.ReadsAt += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	simrt.Yield()
	p := cur()
	switch {
	case p.Dead:
		return len(b), nil
	case f.gone || f.fd == 0:
		return 0, f.perr("write", os.ErrClosed)
	case f.fd == 2:
		p.Err = append(p.Err, b...)
		return len(b), nil
	}
	n := min(len(b), p.OutLimit-len(p.Out))
	p.Out = append(p.Out, b[:n]...)
	if n < len(b) {
		p.OutFail = true
		if p.OutErr == syscall.EPIPE {
			p.stop(141)
		}
		return n, f.perr("write", p.OutErr)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Close() error {
	if f.gone {
		return f.perr("close", os.ErrClosed)
	}
	f.gone = true
	return nil
}
func (f *File) Sync() error {
	if p := cur(); f.fd == 1 && len(p.Out) >= p.OutLimit && p.OutErr != nil {
		return f.perr("sync", p.OutErr)
	}
	return nil
}
func (f *File) Fd() uintptr  { return uintptr(f.fd) }
func (f *File) Name() string { return f.name }
func (f *File) Stat() (os.FileInfo, error) {
	return nil, f.perr("stat", syscall.EACCES)
}

// Exit ends the process.
func Exit(code int) {
	if Cur == nil {
		panic("exit outside of a process")
	}
	Cur.stop(code)
}

// ---------------------------------------------------------------- environment

func draw(name string, n uint64) uint64 { return simrt.Mix(cur().Env, simrt.StrSeed(name)) % n }

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}
func LookupEnv(k string) (string, bool) {
	switch draw("env "+k, 4) {
	case 0:
		return "", false
	case 1:
		return "", true
	case 2:
		return "1", true
	}
	return fmt.Sprintf("value-%d", draw("val "+k, 1000)), true
}
func Environ() []string {
	var out []string
	for _, k := range []string{"HOME", "PATH", "LANG", "TZ", "DEBUG", "USER"} {
		if v, ok := LookupEnv(k); ok {
			out = append(out, k+"="+v)
		}
	}
	return out
}
func Hostname() (string, error)   { return fmt.Sprintf("host%d", draw("host", 100)), nil }
func Getpid() int                 { return 2 + int(draw("pid", 30000)) }
func Getppid() int                { return 2 + int(draw("ppid", 30000)) }
func Getwd() (string, error)      { return fmt.Sprintf("/work/%d", draw("wd", 100)), nil }
func Executable() (string, error) { return fmt.Sprintf("/opt/%d/plugin", draw("exe", 100)), nil }

var begin = time.Date(2024, 2, 28, 23, 59, 58, 0, time.UTC)

func Now() time.Time {
	r := simrt.R
	if r == nil {
		return begin
	}
	r.Clock += int64(1 + draw("tick", 1e9))
	return begin.Add(time.Duration(r.Clock) + time.Duration(draw("skew", 1e18)))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Yield(); simrt.Sleep(d) }

// Timer and Ticker stand in for those of package time.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *simrt.Timer
}

func (t *Timer) start(d time.Duration) {
	t.t = simrt.AddTimer(d, func() {
		if t.f != nil {
			simrt.GoQuiet(t.f)
		} else {
			simrt.Offer(t.c, Now())
		}
	})
}
func NewTimer(d time.Duration) *Timer {
	c := simrt.MakeChan(make(chan time.Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func (t *Timer) Stop() bool { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	was := t.t.Stop()
	t.start(d)
	return was
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *simrt.Timer
	n int
}

func (t *Ticker) start(d time.Duration) {
	t.t = simrt.AddTimer(d, func() {
		simrt.Offer(t.c, Now())
		// a clock that ticks for ever would hide that everything is stuck
		if t.n++; t.n < 50 {
			t.start(d)
		}
	})
}
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := simrt.MakeChan(make(chan time.Time, 1))
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}
func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.start(d) }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func Print(a ...any) (int, error)                                  { return Stdout.WriteString(fmt.Sprint(a...)) }
func Println(a ...any) (int, error)                                { return Stdout.WriteString(fmt.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error)                       { return Stdout.WriteString(fmt.Sprintf(f, a...)) }
func LogPrint(a ...any)                                            { Stderr.WriteString(fmt.Sprint(a...) + "\n") }
func LogPrintln(a ...any)                                          { Stderr.WriteString(fmt.Sprintln(a...)) }
func LogPrintf(f string, a ...any)                                 { Stderr.WriteString(fmt.Sprintf(f, a...) + "\n") }
func LogFatal(a ...any)                                            { LogPrint(a...); Exit(1) }
func LogFatalln(a ...any)                                          { LogPrintln(a...); Exit(1) }
func LogFatalf(f string, a ...any)                                 { LogPrintf(f, a...); Exit(1) }
func BuiltinPrintln(a ...any)                                      { Stderr.WriteString(fmt.Sprintln(a...)) }
func BuiltinPrint(a ...any)                                        { Stderr.WriteString(fmt.Sprint(a...)) }
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return simrt.MapIter(m) }
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.MapIter(m) {
			if !yield(k) {
				return
			}
		}
	}
}
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.MapIter(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func rnd() *rand.Rand {
	var n uint64
	if r := simrt.R; r != nil {
		n = r.Raw()
	}
	return rand.New(rand.NewSource(int64(n)))
}
func RandInt() int                        { return rnd().Int() }
func RandIntn(n int) int                  { return rnd().Intn(n) }
func RandInt31n(n int32) int32            { return rnd().Int31n(n) }
func RandInt63() int64                    { return rnd().Int63() }
func RandInt63n(n int64) int64            { return rnd().Int63n(n) }
func RandUint32() uint32                  { return rnd().Uint32() }
func RandUint64() uint64                  { return rnd().Uint64() }
func RandFloat64() float64                { return rnd().Float64() }
func RandPerm(n int) []int                { return rnd().Perm(n) }
func RandInt31() int32                    { return rnd().Int31() }
func RandFloat32() float32                { return rnd().Float32() }
func RandShuffle(n int, f func(i, j int)) { rnd().Shuffle(n, f) }

func rnd2() *rand2.Rand {
	var n uint64
	if r := simrt.R; r != nil {
		n = r.Raw()
	}
	return rand2.New(rand2.NewPCG(n, n))
}
func Rand2Int() int                        { return rnd2().Int() }
func Rand2IntN(n int) int                  { return rnd2().IntN(n) }
func Rand2Int32() int32                    { return rnd2().Int32() }
func Rand2Int32N(n int32) int32            { return rnd2().Int32N(n) }
func Rand2Int64() int64                    { return rnd2().Int64() }
func Rand2Int64N(n int64) int64            { return rnd2().Int64N(n) }
func Rand2Uint32() uint32                  { return rnd2().Uint32() }
func Rand2Uint32N(n uint32) uint32         { return rnd2().Uint32N(n) }
func Rand2Uint64() uint64                  { return rnd2().Uint64() }
func Rand2Uint64N(n uint64) uint64         { return rnd2().Uint64N(n) }
func Rand2UintN(n uint) uint               { return rnd2().UintN(n) }
func Rand2Float32() float32                { return rnd2().Float32() }
func Rand2Float64() float64                { return rnd2().Float64() }
func Rand2Perm(n int) []int                { return rnd2().Perm(n) }
func Rand2Shuffle(n int, f func(i, j int)) { rnd2().Shuffle(n, f) }
func Rand2N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(rnd2().Uint64N(uint64(n)))
}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) { return rnd().Read(b) }

// CryptoReader is what crypto/rand reads from.
var CryptoReader io.Reader = cryptoReader{}

func CryptoRead(b []byte) (int, error) { return CryptoReader.Read(b) }
func CryptoText() string {
	b := make([]byte, 16)
	CryptoRead(b)
	return base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(b)
}

func RuntimeNumCPU() int        { return 1 + int(draw("cpus", 64)) }
func RuntimeNumGoroutine() int  { return 1 + int(draw("goroutines", 64)) }
func RuntimeGOMAXPROCS(int) int { return 1 + int(draw("procs", 64)) }

func Getuid() int  { return int(draw("uid", 3000)) }
func Geteuid() int { return Getuid() }
func Getgid() int  { return int(draw("gid", 3000)) }
func Getegid() int { return Getgid() }

func home() (string, error) {
	if draw("home", 4) == 0 {
		return "", errors.New("$HOME is not defined")
	}
	return fmt.Sprintf("/home/user%d", draw("home name", 100)), nil
}
func UserHomeDir() (string, error) { return home() }
func UserCacheDir() (string, error) {
	h, err := home()
	return h + "/.cache", err
}
func UserConfigDir() (string, error) {
	h, err := home()
	return h + "/.config", err
}
func UserCurrent() (*user.User, error) {
	h, err := home()
	if err != nil {
		return nil, err
	}
	id := strconv.Itoa(Getuid())
	return &user.User{Uid: id, Gid: id, Username: filepath.Base(h), Name: filepath.Base(h), HomeDir: h}, nil
}

// ReadFile reads a file the process wrote, or one that happens to lie about
// where it runs.
func ReadFile(name string) ([]byte, error) {
	if strings.HasPrefix(filepath.Clean(name), os.TempDir()+string(filepath.Separator)) {
		return os.ReadFile(name)
	}
	if draw("file "+name, 2) == 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	return []byte(fmt.Sprintf("content-%d\n", draw("content "+name, 1000))), nil
}

// ---------------------------------------------------------------- helper programs

// Cmd is a helper program to run.
type Cmd struct {
	Path           string
	Args           []string
	Env            []string
	Dir            string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
	Process        *Process
	ProcessState   *os.ProcessState
	Err            error
	Cancel         func() error
	WaitDelay      time.Duration

	started, waited bool
	in              *bytes.Buffer // what arrives through StdinPipe
	open            bool          // StdinPipe not closed yet
	h               Helper
	done            bool
	ctx             context.Context
	proc            *Proc
	err             error
	outs, errs      *pipe
}

func LookPath(name string) (string, error) {
	if cur().helper(false).Missing {
		return "", &exec.Error{Name: name, Err: exec.ErrNotFound}
	}
	return "/usr/bin/" + name, nil
}

func (p *Proc) helper(next bool) Helper {
	h := p.Helpers[min(p.Runs, len(p.Helpers)-1)]
	if next {
		p.Runs++
	}
	return h
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if _, err := LookPath(name); err != nil {
		c.Err = err
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// Process is a running helper.
type Process struct {
	Pid int
	c   *Cmd
}

func (p *Process) Kill() error {
	if p.c.done {
		return os.ErrProcessDone
	}
	p.c.kill()
	return nil
}
func (p *Process) Signal(os.Signal) error { return p.Kill() }
func (p *Process) Release() error         { return nil }
func (p *Process) Wait() (*os.ProcessState, error) {
	simrt.Block(func() bool { return p.c.done })
	return p.c.ended(), nil
}

// kill ends a helper that is still at work.
func (c *Cmd) kill() {
	if !c.done {
		c.done = true
		c.h.Killed = true
		c.late(-1)
		c.proc.Rejected++
	}
}

func (c *Cmd) late(n int) {
	if c.h.Slow >= long {
		c.proc.Waiting += n
	}
}

// long is the time after which nobody has to wait for a helper any more.
const long = int64(time.Second)

var states = map[string]*os.ProcessState{}

// ended is the state of a helper that has ended, made by a real process that ended like it.
func (c *Cmd) ended() *os.ProcessState {
	how := fmt.Sprintf("exit %d", c.h.Exit)
	if c.h.Killed {
		how = "kill -9 $$"
	}
	if states[how] == nil {
		p := exec.Command("/bin/sh", "-c", how)
		p.Run()
		states[how] = p.ProcessState
	}
	return states[how]
}

// deadline is a context that ends by the simulated clock.
type deadline struct {
	context.Context
	at   time.Time
	over bool
}

func (d *deadline) Deadline() (time.Time, bool) { return d.at, true }
func (d *deadline) Err() error {
	if d.over {
		return context.DeadlineExceeded
	}
	return d.Context.Err()
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	in, cancel := context.WithCancel(parent)
	c := &deadline{Context: in, at: Now().Add(d)}
	if p, ok := parent.Deadline(); ok && p.Before(c.at) {
		c.at = p
	}
	end := func() {
		if in.Err() == nil {
			c.over = true
			cancel()
		}
	}
	if d <= 0 {
		end()
		return c, cancel
	}
	t := simrt.AddTimer(d, end)
	return c, func() { t.Stop(); cancel() }
}
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, Until(t))
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return Environ() }

type pipe struct {
	bytes.Buffer
	closed bool
}

func (p *pipe) Close() error { p.closed = true; return nil }

type inPipe struct{ c *Cmd }

func (w inPipe) Write(b []byte) (int, error) {
	simrt.Yield()
	c := w.c
	if !c.open {
		return 0, os.ErrClosed
	}
	if l := c.h.Leave; c.started && l >= 0 && c.in.Len()+len(b) > l {
		n := max(0, l-c.in.Len())
		c.in.Write(b[:n])
		return n, &os.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}
	}
	return c.in.Write(b)
}
func (w inPipe) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w inPipe) Close() error {
	c := w.c
	if !c.open {
		return nil
	}
	c.open = false
	if c.started {
		c.work()
	}
	return nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.started || c.in != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.in = &bytes.Buffer{}
	c.open = true
	return inPipe{c}, nil
}

type outPipe struct {
	c *Cmd
	p *pipe
}

func (o outPipe) Read(b []byte) (int, error) {
	simrt.Yield()
	if !o.c.done && o.p.Len() == 0 && !o.p.closed {
		if o.c.open {
			cur().Blocked = "reads the output of a helper that waits for its input"
		}
		simrt.Block(func() bool { return o.c.done || o.p.Len() > 0 || o.p.closed })
	}
	if o.p.closed {
		return 0, os.ErrClosed
	}
	if o.p.Len() == 0 {
		return 0, io.EOF
	}
	return o.p.Read(b)
}
func (o outPipe) Close() error { return o.p.Close() }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.started {
		return nil, errors.New("exec: Stdout already set")
	}
	c.outs = &pipe{}
	c.Stdout = c.outs
	return outPipe{c, c.outs}, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.started {
		return nil, errors.New("exec: Stderr already set")
	}
	c.errs = &pipe{}
	c.Stderr = c.errs
	return outPipe{c, c.errs}, nil
}

func (c *Cmd) Start() error {
	simrt.Yield()
	if c.started {
		return errors.New("exec: already started")
	}
	if c.Err != nil {
		cur().helper(true)
		cur().Rejected++
		return c.Err
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		cur().helper(true)
		cur().Rejected++
		return c.ctx.Err()
	}
	c.proc = cur()
	c.h = cur().helper(true)
	if c.h.fails() {
		cur().Rejected++
	}
	if c.h.Missing {
		return &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	if c.h.Denied {
		return &os.PathError{Op: "fork/exec", Path: "/usr/bin/" + c.Path, Err: syscall.EACCES}
	}
	c.started = true
	c.Process = &Process{4711, c}
	if c.in == nil {
		c.in = &bytes.Buffer{}
		if c.Stdin != nil {
			if c.h.Leave >= 0 {
				io.CopyN(c.in, c.Stdin, int64(c.h.Leave))
			} else if _, err := io.Copy(c.in, c.Stdin); err != nil {
				c.err = err
			}
		}
	}
	if !c.open {
		c.work()
	}
	return nil
}

// Format is what the helper makes of its input: other white space, nothing
// else. It takes all of its input before it writes anything.
func Format(in []byte) []byte {
	var out []byte
	depth := 0
	for _, l := range strings.Split(string(in), "\n") {
		l = strings.Join(strings.Fields(l), " ")
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "}") && depth > 0 {
			depth--
		}
		out = append(out, strings.Repeat("    ", min(depth, 6))+l+"\n"...)
		if strings.HasSuffix(l, "{") {
			depth++
		}
	}
	return out
}

// work is what the helper does with its input; some of its output comes at
// once, the rest when it is done.
func (c *Cmd) work() {
	out := Format(c.in.Bytes())
	if c.h.fails() && c.h.At >= 0 {
		out = out[:min(c.h.At, len(out))]
	}
	msg := []byte(c.h.Complain)
	if c.h.Echo {
		msg = append(msg, c.in.Bytes()[:min(c.in.Len(), 300)]...)
	}
	emit := func(w io.Writer, b []byte) {
		if w == nil {
			return
		}
		for len(b) > 0 {
			n := min(len(b), 32768)
			if _, err := w.Write(b[:n]); err != nil {
				if c.err == nil {
					c.err = err
				}
				return
			}
			b = b[n:]
		}
	}
	if !c.h.Late {
		emit(c.Stderr, msg)
	}
	rest := func() {
		emit(c.Stdout, out)
		if c.h.Late {
			emit(c.Stderr, msg)
		}
		c.done = true
	}
	if c.h.Slow == 0 || simrt.R == nil {
		rest()
		return
	}
	emit(c.Stdout, out[:len(out)/3])
	out = out[len(out)/3:]
	c.late(1)
	simrt.GoQuiet(func() {
		simrt.Sleep(time.Duration(c.h.Slow))
		if !c.done {
			rest()
			c.late(-1)
		}
	})
}

func (c *Cmd) Wait() error {
	simrt.Yield()
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	if !c.done {
		if c.open {
			cur().Blocked = "waits for a helper that waits for its input"
		}
		simrt.Block(func() bool { return c.done || c.ctx != nil && c.ctx.Err() != nil })
		if !c.done {
			c.kill()
		}
	}
	if c.outs != nil && c.outs.Len() > 65536 || c.errs != nil && c.errs.Len() > 65536 {
		cur().Blocked = "waits for a helper whose output nobody reads"
		simrt.Block(func() bool { return c.outs.Len() <= 65536 })
	}
	c.waited = true
	if c.outs != nil {
		c.outs.Reset() // Wait closes the pipe
		c.outs.closed = true
	}
	c.ProcessState = c.ended()
	if c.h.Exit != 0 || c.h.Killed {
		return &exec.ExitError{ProcessState: c.ProcessState}
	}
	return c.err
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, errb bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errb
	}
	err := c.Run()
	var ee *exec.ExitError
	if errors.As(err, &ee) && capture {
		ee.Stderr = errb.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
