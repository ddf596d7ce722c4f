//go:build gens

package worlds

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"syscall"

	"verifsim/drive"
	go1 "verifsim/poly/v1/generator/golang"
	rust1 "verifsim/poly/v1/generator/rust"
	ts1 "verifsim/poly/v1/generator/typescript"
	plugGo1 "verifsim/poly/v1/protoc-gen-go-polyglot"
	plugRs1 "verifsim/poly/v1/protoc-gen-rs-polyglot"
	plugTs1 "verifsim/poly/v1/protoc-gen-ts-polyglot"
	go2 "verifsim/poly/v2/generator/golang"
	rust2 "verifsim/poly/v2/generator/rust"
	ts2 "verifsim/poly/v2/generator/typescript"
	plugGo2 "verifsim/poly/v2/protoc-gen-go-polyglot"
	"verifsim/simos"
	"verifsim/simrt"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/pluginpb"
)

type generator interface {
	UnmarshalRequest(buf []byte) (*pluginpb.CodeGeneratorRequest, error)
	MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte, error)
	Generate(req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
	ExecuteTemplate(genFile *protogen.GeneratedFile, protoFile *protogen.File, packageName string, header bool) error
}

var genKinds = []struct {
	name string
	make func() generator
	rust bool
}{
	{"go-v1", func() generator { return go1.New() }, false},
	{"rust-v1", func() generator { return rust1.New() }, true},
	{"ts-v1", func() generator { return ts1.New() }, false},
	{"go-v2", func() generator { return go2.New() }, false},
	{"rust-v2", func() generator { return rust2.New() }, true},
	{"ts-v2", func() generator { return ts2.New() }, false},
}

// ---------------------------------------------------------------- C14

const (
	opGenerate = iota
	opDirect   // ExecuteTemplate by a program that embeds the generator
	opHelper   // the helper program fails half-way
	opHook     // a custom hook panics
	opNoise    // bytes that are no request
)

type genOp struct {
	gen, req int
	mode     int
	header   bool
	same     bool // the request object of the last time again
	garbage  []byte
	failAt   int
}

type genUse struct {
	kind   int
	custom int // which custom hooks, 0 for none
	bomb   *bool
}

type genOut struct {
	out []byte
	err string
}

func (o genOut) String() string {
	if o.err != "" {
		return "failure: " + o.err
	}
	return fmt.Sprintf("%d bytes", len(o.out))
}

// makeGen creates a generator with its hooks.
func makeGen(u *genUse) generator {
	g := genKinds[u.kind].make()
	if u.custom > 0 {
		bomb := new(bool)
		u.bomb = bomb
		id := u.custom
		for i, n := range []string{"CustomFields", "CustomEncode", "CustomDecode"} {
			if id>>i&1 == 0 {
				continue
			}
			f := reflect.ValueOf(g).Elem().FieldByName(n)
			if !f.IsValid() || f.Type() != reflect.TypeOf(func() string { return "" }) {
				continue
			}
			text := fmt.Sprintf("// %s of use %d\n", n, id)
			f.Set(reflect.ValueOf(func() string {
				if *bomb {
					panic("hook fails")
				}
				return text
			}))
		}
	}
	return g
}

// serve has a generator serve one request.
func serve(r *simrt.Run, g generator, u *genUse, op genOp, raw []byte, req **pluginpb.CodeGeneratorRequest) (o genOut) {
	p, st := r.Call(1<<40, func() {
		r.SetBudget(20_000_000)
		in := raw
		if op.mode == opNoise {
			in = op.garbage
		}
		if !op.same || *req == nil || op.mode == opNoise {
			q, err := g.UnmarshalRequest(in)
			if err != nil {
				o.err = err.Error()
				return
			}
			*req = q
		}
		q := *req
		if u.bomb != nil {
			*u.bomb = op.mode == opHook
		}
		var res *pluginpb.CodeGeneratorResponse
		var err error
		if op.mode == opDirect {
			var flags pluginFlags
			opts := protogen.Options{ParamFunc: flags.set}
			pl, e := opts.New(q)
			if e != nil {
				o.err = e.Error()
				return
			}
			for _, f := range pl.Files {
				if !f.Generate {
					continue
				}
				if e := g.ExecuteTemplate(pl.NewGeneratedFile(f.GeneratedFilenamePrefix+".txt", f.GoImportPath), f, "embedded", op.header); e != nil {
					o.err = e.Error()
					return
				}
			}
			res = pl.Response()
		} else {
			res, err = g.Generate(q)
		}
		if err != nil {
			o.err = err.Error()
			return
		}
		if res.GetError() != "" {
			o.err = "response: " + res.GetError()
			return
		}
		o.out, err = g.MarshalResponse(res)
		if err != nil {
			o.err = err.Error()
		}
	})
	if p != nil {
		o.out, o.err = nil, fmt.Sprintf("panic: %v at %s", p, st)
		if p == any(simrt.Hang) {
			o.err = "hang at " + st
		}
	}
	return
}

type pluginFlags struct{}

func (pluginFlags) set(name, value string) error { return nil }

// C14 uses generators again and again, alone or several at once.
func C14(tasks bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		simos.Cur = nil
		simos.Tasks = map[int]*simos.Proc{}
		nt := 1
		if tasks {
			nt = 2 + r.N(3)
		}
		var uses []*genUse
		if tasks {
			for i := 0; i < nt; i++ {
				uses = append(uses, &genUse{kind: r.N(len(genKinds))})
			}
			if r.N(2) == 1 {
				uses[1].kind = uses[0].kind
			}
		} else {
			for k := 1 + r.N(3); k > 0; k-- {
				uses = append(uses, &genUse{kind: r.N(len(genKinds))})
			}
		}
		for _, u := range uses {
			if r.N(3) == 2 {
				u.custom = 1 + r.N(7)
			}
		}
		rustful := false
		for _, u := range uses {
			rustful = rustful || genKinds[u.kind].rust
		}
		var reqs [][]byte
		var desc []string
		var last *pluginpb.CodeGeneratorRequest
		for k := 2 + r.N(2); k > 0; k-- {
			plain := r.N(4) != 3
			param := func() string {
				if rustful {
					return rustParam(r, plain)
				}
				return otherParam(r, plain)
			}
			var q *pluginpb.CodeGeneratorRequest
			var d string
			if last != nil && r.N(2) == 1 {
				q, d = varyRequest(r, last, param)
				r.Count("other_versions")
			} else {
				q, d = drawRequest(r, plain, param)
			}
			last = q
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(q)
			if err != nil {
				panic("harness: " + err.Error())
			}
			reqs = append(reqs, b)
			desc = append(desc, d)
		}
		// plan
		plan := make([][]genOp, nt)
		nops := 3 + r.N(6)
		if tasks {
			nops = 1 + r.N(3)
		}
		for t := range plan {
			for i := 0; i < nops; i++ {
				op := genOp{gen: t, req: r.N(len(reqs)), header: r.N(3) != 2, same: r.N(3) == 2}
				if !tasks {
					op.gen = r.N(len(uses))
				}
				switch k := r.N(12); {
				case k >= 11:
					op.mode = opNoise
					op.garbage = append([]byte(nil), reqs[op.req][:r.N(len(reqs[op.req])+1)]...)
					if len(op.garbage) > 0 {
						op.garbage[r.N(len(op.garbage))] ^= byte(1 << r.N(8))
					}
					r.Count("fault_damaged_request")
				case k >= 10 && uses[op.gen].custom > 0:
					op.mode = opHook
					r.Count("fault_hook_panics")
				case k >= 8 && genKinds[uses[op.gen].kind].rust:
					op.mode = opHelper
					op.failAt = r.N(3)
					r.Count("fault_helper_fails")
				case k >= 6:
					op.mode = opDirect
				}
				plan[t] = append(plan[t], op)
			}
		}
		r.Sample("%d tasks, requests: %s; generators %s", nt, strings.Join(desc, "; "), useNames(uses))
		// what a new generator alone makes of each
		type refKey struct {
			kind, custom, req, mode int
			header                  bool
		}
		refs := map[refKey]genOut{}
		key := func(op genOp) refKey {
			u := uses[op.gen]
			k := refKey{u.kind, u.custom, op.req, opGenerate, true}
			if op.mode == opDirect {
				k.mode, k.header = opDirect, op.header
			}
			return k
		}
		for _, ops := range plan {
			for _, op := range ops {
				k := key(op)
				if _, ok := refs[k]; ok {
					continue
				}
				simrt.ResetAll()
				u := &genUse{kind: k.kind, custom: k.custom}
				*simos.Default = simos.Proc{OutLimit: 1 << 30, Helpers: []simos.Helper{simos.Quiet()}}
				var q *pluginpb.CodeGeneratorRequest
				refs[k] = serve(r, makeGen(u), u, genOp{mode: k.mode, header: k.header}, reqs[k.req], &q)
				if strings.HasPrefix(refs[k].err, "hang") {
					r.Fail("hang-"+genKinds[k.kind].name, "%s generator does not finish on %s", genKinds[k.kind].name, desc[k.req])
					return
				}
				r.Ev(simrt.StrSeed(string(refs[k].out)), simrt.StrSeed(refs[k].err))
			}
		}
		simrt.ResetAll()
		gens := make([]generator, len(uses))
		shared := make([][]*pluginpb.CodeGeneratorRequest, len(uses))
		for i, u := range uses {
			gens[i] = makeGen(u)
			shared[i] = make([]*pluginpb.CodeGeneratorRequest, len(reqs))
		}
		type kept struct {
			out  []byte
			want string
		}
		var keep []kept
		body := func(t int) {
			env := &simos.Proc{OutLimit: 1 << 30}
			simos.Tasks[simrt.Cur()] = env
			for n, op := range plan[t] {
				if r.Failed() {
					return
				}
				u := uses[op.gen]
				env.Env = uint64(1 + r.N(1<<16))
				env.Runs, env.Rejected, env.Waiting = 0, 0, 0
				env.Helpers = []simos.Helper{simos.Quiet()}
				if r.N(4) == 3 {
					env.Helpers[0].Slow = slow(r)
				}
				if op.mode == opHelper {
					bad := simos.Quiet()
					bad.Exit, bad.At, bad.Complain = 1, r.N(400), "error: aborted"
					hs := []simos.Helper{}
					for i := 0; i < op.failAt; i++ {
						hs = append(hs, simos.Quiet())
					}
					env.Helpers = append(hs, bad)
				}
				r.Log("task %d: generator %d (%s) serves request %d (%s), mode %d header %v same object %v", t, op.gen, genKinds[u.kind].name, op.req, desc[op.req], op.mode, op.header, op.same)
				r.Mark(simrt.Mix(uint64(u.kind), uint64(u.custom), uint64(op.mode), simrt.StrSeed(string(reqs[op.req]))))
				got := serve(r, gens[op.gen], u, op, reqs[op.req], &shared[op.gen][op.req])
				r.Ev(uint64(t), uint64(n), b2u(got.err == ""), simrt.StrSeed(string(got.out)))
				name := genKinds[u.kind].name
				if strings.HasPrefix(got.err, "hang") {
					r.Fail("hang-"+name, "%s generator does not finish: %s", name, got.err)
					return
				}
				if op.mode == opNoise {
					shared[op.gen][op.req] = nil
					continue
				}
				if q := shared[op.gen][op.req]; q != nil {
					if b, err := (proto.MarshalOptions{Deterministic: true}).Marshal(q); err != nil || string(b) != string(reqs[op.req]) {
						r.Fail("request-changed-"+name, "%s generator changes the request it is given (%s)", name, desc[op.req])
						return
					}
				}
				if op.mode == opHook {
					continue
				}
				if env.Rejected > 0 || env.Waiting > 0 {
					// it may fail, or do without the helper run that failed, but not answer otherwise
					if want := refs[key(op)]; got.err == "" && (want.err != "" || string(want.out) != string(got.out)) {
						r.Fail("helper-failure-ignored-"+name, "%s generator reports success with another result although its helper failed (%s)", name, desc[op.req])
						return
					}
					continue
				}
				want := refs[key(op)]
				if (want.err == "") != (got.err == "") || string(want.out) != string(got.out) {
					r.Fail("differs-"+name, "%s generator, operation %d of its task: %v for %s, a new generator gives %v: %s", name, n, got, desc[op.req], want, firstDiff(got.out, want.out))
					return
				}
				keep = append(keep, kept{got.out, string(want.out)})
				r.Count("requests_served")
			}
			if t >= 0 {
				delete(simos.Tasks, simrt.Cur())
			}
		}
		if tasks {
			for t := 0; t < nt; t++ {
				t := t
				r.Spawn(fmt.Sprint("t", t), func() { body(t) })
			}
			done := r.RunTasks([]int{3, 20, 200}[r.N(3)])
			for _, t := range r.Tasks() {
				if t.Panic != nil && !t.Extra {
					panic(fmt.Sprintf("harness: %v %s", t.Panic, t.Stack))
				}
			}
			if !done && !r.Failed() {
				r.Fail("deadlock", "generators block each other")
			}
			r.NonTriv = r.Switches > 1
			r.ClearTasks()
		} else {
			body(0)
			r.NonTriv = len(keep) > 1
		}
		simos.Tasks = map[int]*simos.Proc{}
		for _, k := range keep {
			if !r.Failed() && string(k.out) != k.want {
				r.Fail("response-changed", "a response changes after it was returned")
			}
		}
	}
}

func useNames(us []*genUse) string {
	var out []string
	for _, u := range us {
		out = append(out, genKinds[u.kind].name)
	}
	return strings.Join(out, " ")
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string {
		return string(x[max(0, min(i, len(x))-20):min(len(x), i+40)])
	}
	return fmt.Sprintf("first difference at %d: %q, expected %q", i, cut(a), cut(b))
}

// ---------------------------------------------------------------- C15

var plugins = []struct {
	name string
	main func()
	rust bool
	ext  string
}{
	{"protoc-gen-go-polyglot", plugGo1.Main, false, ".polyglot.go"},
	{"protoc-gen-rs-polyglot", plugRs1.Main, true, ".polyglot.rs"},
	{"protoc-gen-ts-polyglot", plugTs1.Main, false, ".polyglot.ts"},
	{"v2/protoc-gen-go-polyglot", plugGo2.Main, false, ".polyglot.go"},
}

// execute runs a plugin as a process of its own.
func execute(r *simrt.Run, k int, p *simos.Proc) (hang string) {
	simos.Reopen()
	simrt.ResetAll()
	simos.Cur = p
	r.ClearTasks()
	main := r.Spawn("main", func() {
		// the process ends with its main function, whatever else still runs
		defer func() { p.Dead = true; r.KillGroup(simrt.Group()) }()
		r.SetBudget(20_000_000)
		plugins[k].main()
	})
	r.Processes = true
	r.RunTasks([]int{1 << 20, 200, 9}[r.N(3)])
	r.Processes = false
	simos.Cur = nil
	switch {
	case !main.Done():
		hang = "blocks for good: " + p.Blocked
	case main.Panic == any(simrt.Hang):
		hang = "runs forever at " + main.Stack
	case main.Panic != nil:
		p.Status = 2
		p.Err = append(p.Err, fmt.Sprintf("panic: %v at %s", main.Panic, main.Stack)...)
	}
	for _, t := range r.Tasks() {
		if t != main && t.Panic != nil && hang == "" {
			p.Status = 2
		}
	}
	r.ClearTasks()
	return
}

func normal(in []byte) *simos.Proc {
	return &simos.Proc{In: in, OutLimit: 1 << 30, Helpers: []simos.Helper{simos.Quiet()}}
}

func camel(s string) string { return strings.ToLower(strings.NewReplacer(".", "", "_", "").Replace(s)) }

// complete says what a response lacks, "" if nothing.
func complete(k int, req *pluginpb.CodeGeneratorRequest, out []byte) string {
	res := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(out, res); err != nil {
		return "it cannot be parsed: " + err.Error()
	}
	if res.GetError() != "" {
		return "error " + res.GetError()
	}
	if len(res.File) != len(req.FileToGenerate) {
		return fmt.Sprintf("%d files for %d", len(res.File), len(req.FileToGenerate))
	}
	for i, n := range req.FileToGenerate {
		f := res.File[i]
		base := strings.TrimSuffix(n[strings.LastIndexByte(n, '/')+1:], ".proto")
		if !strings.Contains(f.GetName(), base) {
			return fmt.Sprintf("file %q for %q", f.GetName(), n)
		}
		for _, x := range req.ProtoFile {
			if x.GetName() != n {
				continue
			}
			text := strings.ToLower(f.GetContent())
			for _, m := range x.MessageType {
				if !strings.Contains(text, camel(m.GetName())) {
					return "nothing about " + m.GetName()
				}
				for _, fd := range m.Field {
					if !strings.Contains(camel(text), camel(fd.GetName())) {
						return "nothing about " + m.GetName() + "." + fd.GetName()
					}
				}
			}
			for _, e := range x.EnumType {
				if !strings.Contains(text, camel(e.GetName())) {
					return "nothing about " + e.GetName()
				}
			}
		}
	}
	return ""
}

// C15 runs the plugin programs as simulated processes.
func C15(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		k := r.N(len(plugins))
		pl := plugins[k]
		plain := r.N(4) != 3
		req, desc := drawRequest(r, plain, func() string {
			if pl.rust {
				return rustParam(r, plain)
			}
			return otherParam(r, plain)
		})
		raw, err := proto.MarshalOptions{Deterministic: true}.Marshal(req)
		if err != nil {
			panic("harness: " + err.Error())
		}
		r.Sample("%s: %s", pl.name, desc)
		r.Mark(simrt.Mix(uint64(k), simrt.StrSeed(string(raw))))
		memo := map[string]*simos.Proc{}
		ref := func(in []byte) *simos.Proc {
			if p := memo[string(in)]; p != nil {
				return p
			}
			p := normal(in)
			if h := execute(r, k, p); h != "" {
				r.Fail("hang-"+pl.name, "%s %s (%s, nothing fails)", pl.name, h, desc)
			}
			memo[string(in)] = p
			return p
		}
		want := ref(raw)
		if r.Failed() {
			return
		}
		r.Ev(uint64(want.Status), simrt.StrSeed(string(want.Out)))
		if plain {
			if want.Status != 0 {
				r.Fail("fails-"+pl.name, "%s fails although nothing goes wrong (%s): %s", pl.name, desc, tail(want.Err))
				return
			}
			if lack := complete(k, req, want.Out); lack != "" {
				r.Fail("incomplete-"+pl.name, "%s succeeds with an incomplete response (%s): %s", pl.name, desc, lack)
				return
			}
		}
		r.NonTriv = want.Status == 0
		for n := 2 + r.N(5); n > 0 && !r.Failed(); n-- {
			p, in, how, excuse := drawProcess(r, pl.rust, raw, len(want.Out), faulty)
			if h := execute(r, k, p); h != "" {
				r.Fail("hang-"+pl.name, "%s %s (%s; %s)", pl.name, h, how, desc)
				return
			}
			r.Log("%s, %s: status %d, %d bytes out, %d helper runs", pl.name, how, p.Status, len(p.Out), p.Runs)
			r.Mark(simrt.StrSeed(how))
			r.Ev(uint64(p.Status), simrt.StrSeed(string(p.Out)), uint64(p.Runs))
			full := want
			if p.ReadErr == nil && !p.NoInput {
				full = ref(in)
			}
			if r.Failed() {
				return
			}
			if p.Status != 0 {
				if !excuse && !p.OutFail && p.Rejected == 0 && p.Waiting == 0 && full.Status == 0 {
					r.Fail("fails-"+pl.name, "%s fails although nothing goes wrong (%s; %s): %s", pl.name, how, desc, tail(p.Err))
				}
				continue
			}
			r.Count("successes")
			switch {
			case full.Status != 0:
				r.Fail("success-"+pl.name, "%s succeeds where it must fail (%s; %s)", pl.name, how, desc)
			case string(p.Out) != string(full.Out):
				r.Fail("altered-"+pl.name, "%s succeeds with an altered response of %d bytes, %d are complete (%s; %s): %s", pl.name, len(p.Out), len(full.Out), how, desc, firstDiff(p.Out, full.Out))
			}
		}
	}
}

func tail(b []byte) string {
	if len(b) > 300 {
		b = b[len(b)-300:]
	}
	return string(b)
}

// slow is the time a helper takes.
func slow(r *simrt.Run) int64 {
	if r.N(6) == 5 {
		r.Count("fault_helper_slow")
		return int64(1+r.N(4000)) * 1000 * ms
	}
	return int64(r.N(100)) * ms
}

// drawProcess draws what one execution meets. excuse: it may fail.
func drawProcess(r *simrt.Run, rust bool, raw []byte, outLen int, faulty bool) (p *simos.Proc, in []byte, how string, excuse bool) {
	p = normal(raw)
	in = raw
	p.Env = uint64(1 + r.N(1<<16))
	how = "whole"
	if r.N(2) == 1 {
		how = "fragmented"
		for i := 0; i < 12; i++ {
			p.Chunks = append(p.Chunks, 1+r.N([]int{1, 3, 100, 4096}[r.N(4)]))
		}
		if len(raw)/p.Chunks[11] > 3000 {
			p.Chunks[11] = 4096
		}
		r.Count("fault_fragmented")
	}
	if rust && r.N(3) == 2 {
		p.Helpers[0].Slow = slow(r)
	}
	if !faulty {
		return
	}
	switch r.N(8) {
	case 0, 1:
		in = raw[:r.N(len(raw)+1)]
		p.In = in
		how += fmt.Sprintf(", cut at %d of %d", len(in), len(raw))
		r.Count("fault_cut")
	case 2:
		p.In = raw[:r.N(len(raw)+1)]
		p.ReadErr = []error{syscall.EIO, syscall.EISDIR, syscall.EAGAIN}[r.N(3)]
		how += fmt.Sprintf(", unreadable at %d of %d (%v)", len(p.In), len(raw), p.ReadErr)
		excuse = true
		r.Count("fault_read_error")
	case 3:
		if r.N(4) == 3 {
			p.NoInput = true
			how += ", no input"
			excuse = true
			r.Count("fault_no_input")
		}
	}
	if r.N(3) == 2 {
		p.OutLimit = r.N(outLen + 1)
		if r.N(3) == 2 {
			p.OutLimit = max(0, outLen-1-r.N(5))
		}
		p.OutErr = []error{syscall.ENOSPC, syscall.EIO, syscall.EPIPE}[r.N(3)]
		how += fmt.Sprintf(", output takes %d of %d bytes (%v)", p.OutLimit, outLen, p.OutErr)
		r.Count("fault_output_error")
	}
	if rust && r.N(3) > 0 {
		p.Helpers = nil
		for i := 0; i < 3; i++ {
			h := simos.Quiet()
			h.Slow = slow(r)
			switch r.N(9) {
			case 0:
				h.Missing = true
				how += ", helper missing"
				r.Count("fault_helper_missing")
			case 1:
				h.Denied = true
				how += ", helper cannot start"
				r.Count("fault_helper_denied")
			case 2, 3:
				h.Exit = 1 + r.N(3)
				h.At = r.N(500) - 1
				h.Complain = []string{"", "error: expected item", "thread 'main' panicked"}[r.N(3)]
				h.Late = r.N(2) == 1
				how += ", helper exits with an error"
				r.Count("fault_helper_error")
			case 4:
				h.Killed = true
				h.At = r.N(500)
				how += ", helper killed"
				r.Count("fault_helper_killed")
			case 5, 6:
				h.Complain = []string{"warning: unstable option", "Warning: can't set `edition`\n", strings.Repeat("w", 70000)}[r.N(3)]
				h.Late = r.N(2) == 1
				h.Echo = r.N(3) == 2
				excuse = true
				how += ", helper complains"
				r.Count("fault_helper_complains")
			case 7:
				h.Exit, h.At = 2, 0
				h.Leave = r.N(200)
				how += ", helper leaves early"
				r.Count("fault_helper_leaves")
			}
			p.Helpers = append(p.Helpers, h)
		}
	}
	return
}

var _ = errors.New

func init() {
	stub := []string{"protocol compiler (requests are drawn as descriptors)", "rustfmt (a stand-in that changes white space only, with faults)", "process environment: standard streams, environment variables, clock, process identity, random numbers (simulated, seeded)", "goroutine scheduler (seeded, cooperative, statement granularity), map iteration order (seeded)"}
	extra = append(extra,
		&drive.Prop{ID: "C14", Configs: []drive.Config{
			{Name: "history", Faulty: true, Quick: 2500, Run: C14(false)},
			{Name: "tasks", Faulty: true, Quick: 2500, Run: C14(true)},
		},
			Rule:    "a run is 2-3 drawn requests (some broken) served 3-8 times by 1-3 generator objects, with damaged requests, failing helpers and panicking hooks in between (config tasks: 2-4 generators at once under a seeded scheduler), each result compared with that of a new generator in a fresh process state; non-trivial if two results were compared, or tasks were switched twice; distinct by the hash of the whole history",
			Measure: "hash of the sequence of (generator, request, mode) and of the task switches",
			Real:    []string{"all six code generators of the current tree with their templates (only switch points inserted, operating system and map order replaced)", "protobuf and template libraries"},
			Stub:    stub},
		&drive.Prop{ID: "C15", Configs: []drive.Config{
			{Name: "plain", Quick: 1500, Run: C15(false)},
			{Name: "faults", Faulty: true, Quick: 5000, Run: C15(true)},
		},
			Rule:    "a run is one drawn request (some broken) given to one plugin program, once with nothing failing and then 2-6 times with drawn fragmentation, cuts, read errors, output errors and helper behaviours; non-trivial if the program succeeds when nothing fails; distinct by the hash of the whole history",
			Measure: "hash of (plugin, request, sequence of fault descriptions)",
			Real:    []string{"the four plugin programs of the current tree with their generators and templates (only switch points inserted, operating system and map order replaced)", "protobuf and template libraries"},
			Stub:    stub})
}
