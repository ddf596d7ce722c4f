package worlds

import (
	"bytes"
	"fmt"
	"reflect"

	"verifsim/gen"
	"verifsim/impl"
	"verifsim/simrt"
	"verifsim/wire"
)

// Concurrent callers of the implementations in node processes.

func drawCScript(r *simrt.Run, p gen.Profile, lang string, faulty bool) *impl.CScript {
	s := &impl.CScript{Cap: []uint32{512, 0, 1, 16, 64}[r.N(5)]}
	var items []wire.Val
	known := true
	for n := 1 + r.N(5); n > 0; n-- {
		switch k := r.N(10); {
		case k < 5:
			for _, v := range gen.Message(r, p) {
				o := impl.COp{V: v}
				if v.K == wire.Error && lang != "c" {
					o.Mode = byte(r.N(2))
				}
				s.Ops = append(s.Ops, o)
				items = append(items, v)
			}
		case k == 5 && lang != "c":
			v := wire.Val{K: wire.Error, S: gen.Text(r, p, true)}
			o := impl.COp{V: v, Mode: 1}
			if faulty && r.N(2) == 1 {
				o.Mode = 2
				known = false
				r.Count("fault_caller_panic_in_encode")
			}
			s.Ops = append(s.Ops, o)
			items = append(items, v)
		case k == 6:
			s.Ops = append(s.Ops, impl.COp{Kind: 3})
			items, known = nil, true
		case k == 7 && known:
			s.Ops = append(s.Ops, impl.COp{Kind: 1, Wants: gen.Wants(items)})
		default:
			vals := gen.Message(r, p)
			in := wire.Encode(vals)
			o := impl.COp{Kind: 2, Mode: byte(r.N(3)), Wants: gen.Wants(vals)}
			if faulty && r.N(2) == 1 {
				r.Count("fault_damaged_input")
				in = mangle(r, in, nil)
				o.Wants = append(o.Wants, gen.AnyWant(r, p))
			}
			o.In = in
			s.Ops = append(s.Ops, o)
		}
	}
	if known {
		s.Ops = append(s.Ops, impl.COp{Kind: 1, Wants: gen.Wants(items)})
	}
	return s
}

func describeScript(s *impl.CScript) string {
	t := fmt.Sprintf("cap %d:", s.Cap)
	for _, o := range s.Ops {
		switch o.Kind {
		case 0:
			t += fmt.Sprintf(" put %v", o.V)
			if o.Mode > 0 {
				t += fmt.Sprintf(" (mode %d)", o.Mode)
			}
		case 1:
			t += " read-back"
		case 2:
			t += fmt.Sprintf(" read %v from %s", o.Wants, short(o.In))
		case 3:
			t += " new"
		}
	}
	return t
}

// C01Other has callers use the Rust, C and TypeScript implementations at once.
func C01Other(faulty bool) func(r *simrt.Run) {
	return func(r *simrt.Run) {
		lang := []string{"rust", "c", "ts"}[r.N(3)]
		im := &impl.RemoteImpl{Lang: lang}
		p := profileFor([]impl.Impl{im})
		p.MaxItems, p.MaxText, p.BigOneIn = 4, 700, 150
		gen.Focus(r, &p)
		nan := im.Caps().QuietNaN
		n := 2 + r.N(3)
		var ss []*impl.CScript
		for i := 0; i < n; i++ {
			s := drawCScript(r, p, lang, faulty)
			ss = append(ss, s)
			if r.Verbose {
				r.Log("%s caller %d: %s", lang, i, describeScript(s))
			}
		}
		r.Sample("%d callers of %s; first %s", n, lang, describeScript(ss[0]))
		rate := []int{1, 2, 5, 20, 100}[r.N(5)]
		limit := []int{1, 3, 10, 1000000}[r.N(4)]
		if r.N(8) == 0 {
			limit = 1 + r.N(40)
		}
		seed := r.Raw()
		var solo [][]impl.CallerRes
		alone := func() bool {
			for i, s := range ss {
				x, _, _, crash := im.Callers([]*impl.CScript{s}, 1, 1, 0)
				if crash != "" {
					r.Count("crashed_elsewhere")
					return false
				}
				solo = append(solo, x[0])
				// what is certain is compared with the reference too
				var model []byte
				sure := true
				for k, o := range s.Ops {
					switch o.Kind {
					case 0:
						if o.Mode == 2 {
							sure = false
						}
						model = wire.Append(model, o.V)
					case 3:
						model, sure = nil, true
					}
					if sure && !bytes.Equal(x[0][k].After, model) && !nan {
						r.Fail("alone-"+lang, "%s caller %d alone: after step %d its buffer holds %s instead of %s", lang, i, k, short(x[0][k].After), short(model))
						return false
					}
				}
			}
			return true
		}
		first := r.N(2) == 0
		if first && !alone() {
			return
		}
		got, switches, hash, crash := im.Callers(ss, seed, rate, limit)
		if !first && !alone() {
			return
		}
		if crash != "" {
			r.Fail("crash-"+lang, "%s dies with %d callers at once, and not with each alone: %s", lang, n, crash)
			return
		}
		r.Log("%d switches", switches)
		r.Mark(hash)
		r.Switches += int64(switches)
		for i := range ss {
			for k := range ss[i].Ops {
				a, b := got[i][k], solo[i][k]
				r.EvB(a.After)
				if !reflect.DeepEqual(a, b) {
					r.Fail("differs-"+lang, "%s caller %d step %d: %s, alone %s", lang, i, k, showCallerRes(a), showCallerRes(b))
					return
				}
			}
		}
		r.CountN("callers", int64(n))
		r.NonTriv = switches >= 2
	}
}

func showCallerRes(x impl.CallerRes) string {
	return fmt.Sprintf("%v %s%s %v buffer %s", x.OK, x.Err, x.Crash, x.Reads, short(x.After))
}
