package impl

import (
	"bufio"
	"encoding/binary"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
	"verifsim/wire"
)

// Command codes of the node protocol.
const (
	cReset    = 1
	cEncNew   = 2
	cEncPut   = 3
	cEncBytes = 4
	cEncFree  = 5
	cDecNew   = 6
	cDecGet   = 7
	cDecFree  = 8
	cMemStart = 9
	cMem      = 10
	CCall     = 20
	cEncSeek  = 20
	cEncRaw   = 21
	cEncPos   = 22
	cGenEnc   = 30
	cGenDec   = 31
)

// Node is a child process that runs another language's implementation in
// lock-step: it only computes while this process waits for its answer.
type Node struct {
	Lang string
	argv []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	raw  *os.File
	req  []byte
	errs *strings.Builder
	next uint16
	dead string
	used bool
	Flt  int64 // commands sent
}

var nodes = map[string]*Node{}

func init() {
	simrt.OnReset(func() {
		for _, n := range nodes {
			n.freshRun()
		}
	})
}

// GetNode starts (once per process) the node of a language: rust, c or ts.
func GetNode(lang string) *Node {
	n := nodes[lang]
	if n == nil {
		b := os.Getenv("VERIFSIM_BUILD")
		n = &Node{Lang: lang}
		switch lang {
		case "rust":
			n.argv = []string{filepath.Join(b, "rustnode")}
		case "c":
			n.argv = []string{filepath.Join(b, "cnode")}
		case "ts":
			n.argv = []string{"node", "--expose-gc", "--max-old-space-size=1500", filepath.Join(b, "tsnode.js")}
		}
		nodes[lang] = n
		n.start()
	}
	return n
}

func (n *Node) start() {
	n.errs = &strings.Builder{}
	n.cmd = exec.Command(n.argv[0], n.argv[1:]...)
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	// a backtrace printed while allocations are made to fail would not end
	n.cmd.Env = append(os.Environ(), "RUST_BACKTRACE=0")
	in, err := n.cmd.StdinPipe()
	if err == nil {
		var out io.ReadCloser
		out, err = n.cmd.StdoutPipe()
		if err == nil {
			n.raw, _ = out.(*os.File)
			n.out = bufio.NewReaderSize(out, 1<<16)
		}
	}
	n.cmd.Stderr = n.errs
	if err == nil {
		err = n.cmd.Start()
	}
	if err != nil {
		panic("harness: cannot start " + n.Lang + ": " + err.Error())
	}
	n.in = in
	n.dead = ""
	n.used = false
}

// freshRun gives the run a process without history.
func (n *Node) freshRun() {
	n.next = 0
	n.req = n.req[:0]
	if n.dead != "" {
		n.stop()
		n.start()
	} else if n.used {
		n.begin(cReset)
		n.flush()
		if n.dead != "" {
			n.stop()
			n.start()
		}
		n.used = false
	}
}

// Restart loses everything the process had in memory.
func (n *Node) Restart() {
	n.next = 0
	if n.dead != "" {
		n.stop()
		n.start()
		return
	}
	n.begin(cReset)
	n.flush()
}

// Drop ends the process and frees the memory held for it.
func (n *Node) Drop() {
	n.stop()
	n.req = nil
	n.start()
}

func (n *Node) stop() {
	if n.cmd != nil {
		syscall.Kill(-n.cmd.Process.Pid, syscall.SIGKILL)
		n.cmd.Wait()
	}
}

// StopNodes ends all node processes.
func StopNodes() {
	for _, n := range nodes {
		n.stop()
	}
}

func (n *Node) begin(c byte)  { n.req = append(n.req, c) }
func (n *Node) u8(x byte)     { n.req = append(n.req, x) }
func (n *Node) u16(x uint16)  { n.req = binary.LittleEndian.AppendUint16(n.req, x) }
func (n *Node) u32(x uint32)  { n.req = binary.LittleEndian.AppendUint32(n.req, x) }
func (n *Node) u64(x uint64)  { n.req = binary.LittleEndian.AppendUint64(n.req, x) }
func (n *Node) blob(s string) { n.u32(uint32(len(s))); n.req = append(n.req, s...) }
func (n *Node) val(v wire.Val) {
	n.u8(byte(v.K))
	n.u8(byte(v.Key))
	n.u8(byte(v.Sub))
	n.u64(v.N)
	n.blob(v.S)
}

const nodeHang = 4 * time.Second // CPU time for one command batch that normally takes microseconds

// Slow is set for batches that legitimately take long.
var Slow time.Duration

// flush sends the pending commands and returns their answers.
func (n *Node) flush() *reply {
	req := n.req
	n.req = n.req[:0]
	n.used = true
	if n.dead != "" {
		return &reply{crash: n.dead}
	}
	var hdr [4]byte
	binary.LittleEndian.PutUint32(hdr[:], uint32(len(req)))
	n.in.Write(hdr[:])
	n.in.Write(req)
	n.Flt++
	cmd := n.cmd
	answered := make(chan struct{})
	timer := time.AfterFunc(time.Second, func() { n.watch(cmd, answered) })
	_, err := io.ReadFull(n.out, hdr[:])
	var body []byte
	if err == nil {
		body = make([]byte, binary.LittleEndian.Uint32(hdr[:]))
		_, err = io.ReadFull(n.out, body)
	}
	timer.Stop()
	close(answered)
	if err != nil {
		syscall.Kill(-n.cmd.Process.Pid, syscall.SIGKILL)
		n.cmd.Wait()
		why := n.cmd.ProcessState.String()
		if strings.Contains(n.errs.String(), "HARNESS") {
			panic("harness: node: " + n.errs.String())
		}
		if n.dead == "" {
			n.dead = "the " + n.Lang + " process died: " + why + firstLine(n.errs.String())
		}
		return &reply{crash: n.dead}
	}
	return &reply{b: body}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if s == "" {
		return ""
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return " (" + strings.ReplaceAll(s, "\n", " | ") + ")"
}

// watch ends a node that burns CPU without answering, or sleeps for good.
func (n *Node) watch(cmd *exec.Cmd, answered chan struct{}) {
	pid := cmd.Process.Pid
	start, _ := groupCPU(pid)
	last, still := start, 0
	wall := time.Now()
	for {
		select {
		case <-answered:
			return
		case <-time.After(250 * time.Millisecond):
		}
		limit := nodeHang
		if Slow > limit {
			limit = Slow
		}
		cpu, asleep := groupCPU(pid)
		if asleep && cpu == last {
			still++
		} else {
			last, still = cpu, 0
		}
		why := ""
		if still > 32 {
			why = "is stuck"
		} else if cpu-start > limit || time.Since(wall) > 300*time.Second {
			why = "runs for ever"
		}
		if why == "" {
			continue
		}
		select {
		case <-answered:
		default:
			n.dead = "the " + n.Lang + " process " + why
			syscall.Kill(-pid, syscall.SIGKILL)
		}
		return
	}
}

// groupCPU is the CPU time used by a process group, and whether all of it sleeps.
func groupCPU(pg int) (t time.Duration, asleep bool) {
	ents, _ := os.ReadDir("/proc")
	asleep = true
	for _, e := range ents {
		if _, err := strconv.Atoi(e.Name()); err != nil {
			continue
		}
		f := statOf("/proc/" + e.Name())
		if len(f) < 14 || f[2] != strconv.Itoa(pg) {
			continue
		}
		a, _ := strconv.ParseInt(f[11], 10, 64)
		c, _ := strconv.ParseInt(f[12], 10, 64)
		t += time.Duration(a+c) * 10 * time.Millisecond
		tasks, _ := os.ReadDir("/proc/" + e.Name() + "/task")
		for _, k := range tasks {
			if g := statOf("/proc/" + e.Name() + "/task/" + k.Name()); len(g) > 0 && g[0] != "S" {
				asleep = false
			}
		}
	}
	return
}

func statOf(dir string) []string {
	b, err := os.ReadFile(dir + "/stat")
	if err != nil {
		return nil
	}
	s := string(b)
	return strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
}

type reply struct {
	b     []byte
	crash string
	bad   bool
}

func (p *reply) u8() byte {
	if len(p.b) < 1 {
		p.bad = true
		return 0
	}
	x := p.b[0]
	p.b = p.b[1:]
	return x
}
func (p *reply) u32() uint32 {
	if len(p.b) < 4 {
		p.bad = true
		return 0
	}
	x := binary.LittleEndian.Uint32(p.b)
	p.b = p.b[4:]
	return x
}
func (p *reply) u64() uint64 {
	if len(p.b) < 8 {
		p.bad = true
		return 0
	}
	x := binary.LittleEndian.Uint64(p.b)
	p.b = p.b[8:]
	return x
}
func (p *reply) blob() []byte {
	k := int(p.u32())
	if len(p.b) < k {
		p.bad = true
		return nil
	}
	x := p.b[:k:k]
	p.b = p.b[k:]
	return x
}

// status 0 is success; 1 failure with a text; 2 crash with a text
func (p *reply) status() (ok bool, err, crash string) {
	switch p.u8() {
	case 0:
		return true, "", ""
	case 1:
		return false, "E:" + string(p.blob()), ""
	case 2:
		return false, "", string(p.blob())
	}
	panic("harness: bad status from node")
}

func (p *reply) res(w wire.Want) (r Res) {
	if p.crash != "" {
		return Res{Crash: p.crash}
	}
	r.OK, r.Err, r.Crash = p.status()
	if r.OK {
		r.V = wire.Val{K: w.K, Key: w.Key, Sub: w.Sub, N: p.u64()}
		r.V.S = string(p.blob())
	}
	if p.bad {
		panic("harness: short answer from node")
	}
	return
}

// RemoteImpl is an implementation in a node process.
type RemoteImpl struct {
	Lang string
}

func (m *RemoteImpl) Name() string { return m.Lang }
func (m *RemoteImpl) Caps() Caps {
	switch m.Lang {
	case "ts":
		return Caps{UTF8Only: true, QuietNaN: true, Any: true}
	case "c":
		return Caps{UTF8Only: true, NoNulText: true}
	}
	return Caps{UTF8Only: true}
}
func (m *RemoteImpl) Restart() { GetNode(m.Lang).Restart() }

type rEnc struct {
	n *Node
	h uint16
}

// EncOrigin selects how a remote encoder's storage comes about.
type EncOrigin struct {
	Mode byte // 0 default, 1 caller-supplied of the given capacity, 2 the same inside a larger block
	Cap  uint32
}

// NewEncFrom opens an encoder over storage of a given origin.
func (m *RemoteImpl) NewEncFrom(o EncOrigin) Enc {
	n := GetNode(m.Lang)
	n.next++
	n.begin(cEncNew)
	n.u16(n.next)
	n.u8(o.Mode)
	n.u32(o.Cap)
	h := n.next
	p := n.flush()
	if p.crash == "" {
		if ok, _, crash := p.status(); !ok {
			n.dead = crash
		}
	}
	return &rEnc{n, h}
}
func (m *RemoteImpl) NewEnc() Enc { return m.NewEncFrom(EncOrigin{}) }

func (e *rEnc) Put(v wire.Val) string {
	e.n.begin(cEncPut)
	e.n.u16(e.h)
	e.n.val(v)
	p := e.n.flush()
	if p.crash != "" {
		return p.crash
	}
	ok, er, crash := p.status()
	if !ok {
		return "encode " + v.K.String() + " " + er + crash
	}
	return ""
}
func (e *rEnc) Bytes() []byte {
	e.n.begin(cEncBytes)
	e.n.u16(e.h)
	p := e.n.flush()
	if p.crash != "" {
		return nil
	}
	if ok, _, _ := p.status(); !ok {
		return nil
	}
	return p.blob()
}
func (e *rEnc) Close() {
	e.n.begin(cEncFree)
	e.n.u16(e.h)
	e.n.flush()
}

// Seek, Raw and Pos use the cursor a Rust caller passes to the encoder.
func (e *rEnc) Seek(p int) string {
	e.n.begin(cEncSeek)
	e.n.u16(e.h)
	e.n.u32(uint32(p))
	return e.done()
}
func (e *rEnc) Raw(b string) string {
	e.n.begin(cEncRaw)
	e.n.u16(e.h)
	e.n.blob(b)
	return e.done()
}
func (e *rEnc) Pos() int {
	e.n.begin(cEncPos)
	e.n.u16(e.h)
	p := e.n.flush()
	if p.crash != "" {
		return -1
	}
	p.status()
	return int(p.u64())
}
func (e *rEnc) done() string {
	p := e.n.flush()
	if p.crash != "" {
		return p.crash
	}
	_, er, crash := p.status()
	return er + crash
}

// Cursored is an encoder that writes where its caller's cursor stands.
type Cursored interface {
	Enc
	Seek(p int) string
	Raw(b string) string
	Pos() int
}

type rDec struct {
	n *Node
	h uint16
}

func (m *RemoteImpl) NewDec(in []byte) Dec {
	n := GetNode(m.Lang)
	n.next++
	n.begin(cDecNew)
	n.u16(n.next)
	n.blob(string(in))
	h := n.next
	p := n.flush()
	if p.crash == "" {
		if ok, e, crash := p.status(); !ok {
			n.dead = e + crash
		}
	}
	return &rDec{n, h}
}
func (d *rDec) Get(w wire.Want) Res {
	d.n.get(d.h, w)
	return d.n.flush().res(w)
}
func (d *rDec) Close() string {
	d.n.begin(cDecFree)
	d.n.u16(d.h)
	p := d.n.flush()
	if p.crash != "" {
		return p.crash
	}
	_, _, c := p.status()
	return c
}

func (n *Node) get(h uint16, w wire.Want) {
	n.begin(cDecGet)
	n.u16(h)
	n.u8(byte(w.K))
	n.u8(byte(w.Key))
	n.u8(byte(w.Sub))
}

func (m *RemoteImpl) EncodeAll(vs []wire.Val) ([]byte, string) {
	n := GetNode(m.Lang)
	n.next++
	h := n.next
	n.begin(cEncNew)
	n.u16(h)
	n.u8(0)
	n.u32(0)
	for _, v := range vs {
		n.begin(cEncPut)
		n.u16(h)
		n.val(v)
	}
	n.begin(cEncBytes)
	n.u16(h)
	n.begin(cEncFree)
	n.u16(h)
	p := n.flush()
	if p.crash != "" {
		return nil, p.crash
	}
	p.status()
	for _, v := range vs {
		if ok, e, crash := p.status(); !ok {
			return nil, "encode " + v.String() + ": " + e + crash
		}
	}
	ok, e, crash := p.status()
	if !ok {
		return nil, e + crash
	}
	return append([]byte(nil), p.blob()...), ""
}

func (m *RemoteImpl) DecodeAll(in []byte, ws []wire.Want) (rs []Res, alloc int64, crash string) {
	n := GetNode(m.Lang)
	n.next++
	h := n.next
	if MeasureAlloc {
		n.begin(cMemStart)
	}
	n.begin(cDecNew)
	n.u16(h)
	n.blob(string(in))
	for _, w := range ws {
		n.get(h, w)
	}
	n.begin(cDecFree)
	n.u16(h)
	if MeasureAlloc {
		n.begin(cMem)
	}
	p := n.flush()
	if p.crash != "" {
		return nil, -1, p.crash
	}
	if MeasureAlloc {
		p.status()
	}
	if ok, e, c := p.status(); !ok {
		return nil, -1, "new decoder: " + e + c
	}
	for _, w := range ws {
		r := p.res(w)
		rs = append(rs, r)
		if r.Crash != "" && crash == "" {
			crash = r.Crash
		}
	}
	if _, _, c := p.status(); c != "" && crash == "" {
		crash = c
	}
	alloc = -1
	if MeasureAlloc {
		p.status()
		alloc = int64(p.u64())
	}
	return
}

// All lists the implementations.
func All() []Impl {
	return []Impl{&GoImpl{1}, &GoImpl{2}, &RemoteImpl{"rust"}, &RemoteImpl{"c"}, &RemoteImpl{"ts"}}
}

// ByName finds one.
func ByName(s string) Impl {
	for _, i := range All() {
		if i.Name() == s {
			return i
		}
	}
	panic("harness: impl " + s)
}

// CRes is the outcome of one call through the C interface.
type CRes struct {
	Crash  string
	Status int // -1: not set
	Ret    uint64
	Obj    bool
	Blob   []byte
	Note   string
}

// CArgs are the arguments of one call through the C interface.
type CArgs struct {
	Fn       int
	H, Aux   uint16
	Key, Sub wire.Kind
	N        uint64
	Size     uint32
	Null     bool
	S        string
}

// CallC performs one call in the C node.
func CallC(a CArgs) (x CRes) {
	n := GetNode("c")
	n.begin(CCall)
	n.u8(byte(a.Fn))
	n.u16(a.H)
	n.u16(a.Aux)
	n.u8(byte(a.Key))
	n.u8(byte(a.Sub))
	n.u64(a.N)
	n.u32(a.Size)
	if a.Null {
		n.u8(1)
	} else {
		n.u8(0)
	}
	n.blob(a.S)
	p := n.flush()
	if p.crash != "" {
		return CRes{Crash: p.crash}
	}
	p.status()
	x.Status = int(p.u8())
	if x.Status == 255 {
		x.Status = -1
	}
	x.Ret = p.u64()
	x.Obj = p.u8() != 0
	x.Blob = append([]byte(nil), p.blob()...)
	x.Note = string(p.blob())
	if p.bad {
		panic("harness: short answer from the C node")
	}
	return
}

// Held is a TypeScript decoder whose results stay referenced in the node.
type Held struct{ rDec }

// NewHeld opens a decoder in the TypeScript node.
func NewHeld(in []byte) *Held {
	d := (&RemoteImpl{"ts"}).NewDec(in).(*rDec)
	return &Held{*d}
}

// Hold reads a value and keeps it, unconverted, as object o.
func (d *Held) Hold(o uint16, w wire.Want) Res {
	d.n.begin(11)
	d.n.u16(d.h)
	d.n.u16(o)
	d.n.u8(byte(w.K))
	d.n.u8(byte(w.Key))
	d.n.u8(byte(w.Sub))
	return d.n.flush().res(w)
}

// Look says what object o is now.
func (d *Held) Look(o uint16, w wire.Want) Res {
	d.n.begin(12)
	d.n.u16(o)
	return d.n.flush().res(w)
}

// Scribble overwrites the memory the decoder read from.
func (d *Held) Scribble() string {
	d.n.begin(13)
	d.n.u16(d.h)
	p := d.n.flush()
	if p.crash != "" {
		return p.crash
	}
	_, _, c := p.status()
	return c
}

// ---------------------------------------------------------------- callers

// COp is one step of a caller: Put, read back, read a given input, or begin anew.
type COp struct {
	Kind  byte // 0 put, 1 read back, 2 read input, 3 new buffer
	V     wire.Val
	Mode  byte // of an error value: 1 may be interrupted, 2 also fails; of an input: who owns it
	In    []byte
	Wants []wire.Want
}

// CScript is what one caller does.
type CScript struct {
	Cap uint32
	Ops []COp
}

// CallerRes is what one step gave.
type CallerRes struct {
	OK    bool // of a put
	Err   string
	Crash string
	Reads []Res
	After []byte // what the buffer holds afterwards
}

// Callers runs scripts at once in a node, interleaved by seed: a switch with
// chance 1 in rate at each point, at most limit of them.
func (m *RemoteImpl) Callers(ss []*CScript, seed uint64, rate, limit int) (out [][]CallerRes, switches int, hash uint64, crash string) {
	n := GetNode(m.Lang)
	code := byte(11)
	if m.Lang == "ts" {
		code = 14
	}
	n.begin(code)
	n.u64(seed)
	n.u32(uint32(rate))
	n.u32(uint32(limit))
	n.u8(byte(len(ss)))
	wants := func(ws []wire.Want) {
		n.u16(uint16(len(ws)))
		for _, w := range ws {
			n.u8(byte(w.K))
			n.u8(byte(w.Key))
			n.u8(byte(w.Sub))
		}
	}
	for _, s := range ss {
		at := len(n.req)
		n.u32(0)
		n.u32(s.Cap)
		n.u16(uint16(len(s.Ops)))
		for _, o := range s.Ops {
			n.u8(o.Kind)
			switch o.Kind {
			case 0:
				n.val(o.V)
				n.u8(o.Mode)
			case 1:
				wants(o.Wants)
			case 2:
				n.blob(string(o.In))
				wants(o.Wants)
				n.u8(o.Mode)
			}
		}
		binary.LittleEndian.PutUint32(n.req[at:], uint32(len(n.req)-at-4))
	}
	p := n.flush()
	if p.crash != "" {
		return nil, 0, 0, p.crash
	}
	if ok, e, c := p.status(); !ok {
		return nil, 0, 0, e + c
	}
	switches = int(p.u32())
	hash = p.u64()
	for _, s := range ss {
		q := &reply{b: p.blob()}
		var rs []CallerRes
		for _, o := range s.Ops {
			var x CallerRes
			switch o.Kind {
			case 0:
				x.OK, x.Err, x.Crash = q.status()
			case 1, 2:
				for _, w := range o.Wants {
					x.Reads = append(x.Reads, q.res(w))
				}
			}
			x.After = q.blob()
			rs = append(rs, x)
		}
		if q.bad || len(q.b) > 0 {
			panic("harness: bad record of a caller")
		}
		out = append(out, rs)
	}
	return
}
