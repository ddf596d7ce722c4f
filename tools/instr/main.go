// instr copies Go packages from a source tree into the simulator's module and
// makes them simulable, purely by text insertion so that the code itself is
// compiled as written: a switch point before every statement, package-level
// read-modify-writes split in two, sync and sync/atomic replaced by simulated
// ones, go statements turned into simulated tasks, and map iteration order
// turned into a choice of the run.
//
// usage: instr SPEC.json   with SPEC = {"root":dst,"sites":file,"rt":"verifsim/simrt",
//
//	"pkgs":[{"src":dir,"dst":dir,"path":oldImportPath,"new":newImportPath}],
//	"rewrite":{"old import prefix":"new import prefix"}, "norun": ["prefix of packages copied as they are"]}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Pkg struct {
	Src, Dst, Path, New string
	Plain               bool // copy with import rewriting only
	Sync                bool // replace sync packages
	Reset               bool // re-initialise package variables at the start of every run
	Sys                 bool // replace the operating system, helper processes and clocks; keep embedded files
}

type Spec struct {
	Sites   string
	Base    int
	RT      string
	Sim     string // import prefix of simsync and simatomic
	Pkgs    []Pkg
	Rewrite map[string]string
	AddFile map[string]string
}

type edit struct {
	off, end int
	text     string
	ord      int
	lazy     func() string // text made of the edited parts of what it replaces
}

var (
	spec  Spec
	fset  = token.NewFileSet()
	std   = importer.ForCompiler(fset, "source", nil)
	cache = map[string]*types.Package{}
	infos = map[string]*types.Info{}
	files = map[string][]*ast.File{}
	names = map[string][]string{}
	site  int
	table []string
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := cache[path]; ok {
		return p, nil
	}
	for i := range spec.Pkgs {
		if spec.Pkgs[i].Path == path {
			return check(&spec.Pkgs[i])
		}
	}
	return std.Import(path)
}

func excluded(f *ast.File, name string) bool {
	for _, suf := range []string{"_windows.go", "_darwin.go", "_plan9.go", "_js.go", "_wasm.go", "_arm64.go", "_arm.go", "_386.go"} {
		if strings.HasSuffix(name, suf) {
			return true
		}
	}
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				if e, err := constraint.Parse(c.Text); err == nil {
					if !e.Eval(func(tag string) bool {
						return tag == "linux" || tag == "amd64" || tag == "unix" || tag == "gc" || strings.HasPrefix(tag, "go1.")
					}) {
						return true
					}
				}
			}
		}
	}
	return false
}

func load(p *Pkg) []*ast.File {
	if f, ok := files[p.Path]; ok {
		return f
	}
	ents, err := os.ReadDir(p.Src)
	if err != nil {
		log.Fatal(err)
	}
	var out []*ast.File
	var nm []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		fn := filepath.Join(p.Src, n)
		f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
		if err != nil {
			log.Fatal(err)
		}
		if excluded(f, n) {
			continue
		}
		out = append(out, f)
		nm = append(nm, fn)
	}
	files[p.Path] = out
	names[p.Path] = nm
	return out
}

func check(p *Pkg) (*types.Package, error) {
	if t, ok := cache[p.Path]; ok {
		return t, nil
	}
	fs := load(p)
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}, FakeImportC: true}
	t, _ := conf.Check(p.Path, fset, fs, info)
	cache[p.Path] = t
	infos[p.Path] = info
	return t, nil
}

func rewritePath(path string) (string, bool) {
	best := ""
	for k := range spec.Rewrite {
		if (path == k || strings.HasPrefix(path, k+"/")) && len(k) > len(best) {
			best = k
		}
	}
	if best == "" {
		return path, false
	}
	return spec.Rewrite[best] + path[len(best):], true
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func instrument(p *Pkg, f *ast.File, name string) []byte {
	src, err := os.ReadFile(name)
	if err != nil {
		log.Fatal(err)
	}
	info := infos[p.Path]
	tf := fset.File(f.Pos())
	var eds []edit
	add := func(off, end int, text string) { eds = append(eds, edit{off, end, text, len(eds), nil}) }
	var build func(lo, hi, skip int) string
	addLazy := func(lo, hi int, f func(self int) string) {
		ord := len(eds)
		eds = append(eds, edit{lo, hi, "", ord, func() string { return f(ord) }})
	}
	off := func(pos token.Pos) int { return tf.Offset(pos) }
	rt := "verifsimrt_"
	used := false
	y := func(pos token.Pos) string {
		site++
		used = true
		po := fset.Position(pos)
		table = append(table, fmt.Sprintf("%s:%d", p.New+"/"+filepath.Base(po.Filename), po.Line))
		return fmt.Sprintf("%s.Y(%d);", rt, spec.Base+site)
	}
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		np, ok := rewritePath(path)
		nm := ""
		if p.Sync && path == "sync" {
			np, ok, nm = spec.Sim+"/simsync", true, "sync"
		}
		if p.Sync && path == "sync/atomic" {
			np, ok, nm = spec.Sim+"/simatomic", true, "atomic"
		}
		if ok {
			t := strconv.Quote(np)
			if is.Name == nil && nm != "" {
				t = nm + " " + t
			}
			add(off(is.Path.Pos()), off(is.Path.End()), t)
		}
	}
	if !p.Plain {
		pkgLevel := func(e ast.Expr) bool {
			id := rootIdent(e)
			if id == nil || info == nil {
				return false
			}
			v, ok := info.Uses[id].(*types.Var)
			return ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		}
		var list func(ss []ast.Stmt)
		list = func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				add(off(s.Pos()), off(s.Pos()), y(s.Pos()))
				switch x := s.(type) {
				case *ast.IncDecStmt:
					if pkgLevel(x.X) && !hasCall(x.X) {
						op := "+"
						if x.Tok == token.DEC {
							op = "-"
						}
						at := y(x.Pos())
						addLazy(off(x.Pos()), off(x.End()), func(self int) string {
							t := build(off(x.X.Pos()), off(x.X.End()), self)
							return fmt.Sprintf("{ verifsimtmp_ := %s; %s %s = verifsimtmp_ %s 1 }", t, at, t, op)
						})
					}
				case *ast.AssignStmt:
					if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && len(x.Lhs) == 1 && pkgLevel(x.Lhs[0]) && !hasCall(x.Lhs[0]) && !hasCall(x.Rhs[0]) {
						op := strings.TrimSuffix(x.Tok.String(), "=")
						at := y(x.Pos())
						addLazy(off(x.Pos()), off(x.End()), func(self int) string {
							t := build(off(x.Lhs[0].Pos()), off(x.Lhs[0].End()), self)
							r := build(off(x.Rhs[0].Pos()), off(x.Rhs[0].End()), self)
							return fmt.Sprintf("{ verifsimtmp_ := %s; %s %s = verifsimtmp_ %s (%s) }", t, at, t, op, r)
						})
					}
				case *ast.GoStmt:
					used = true
					addLazy(off(x.Pos()), off(x.End()), func(self int) string {
						sub := func(e ast.Expr) string { return build(off(e.Pos()), off(e.End()), self) }
						pre, fn := "", sub(x.Call.Fun)
						n := 0
						hold := func(t string) string {
							n++
							nm := fmt.Sprintf("verifsimgo%d_", n)
							pre += nm + " := " + t + "; "
							return nm
						}
						if info == nil {
							return "go " + build(off(x.Call.Pos()), off(x.Call.End()), self)
						}
						if tv, ok := info.Types[x.Call.Fun]; ok && tv.IsBuiltin() || ok && tv.IsType() {
							return rt + ".Go(func() { " + build(off(x.Call.Pos()), off(x.Call.End()), self) + " })"
						}
						switch f := ast.Unparen(x.Call.Fun).(type) {
						case *ast.FuncLit, *ast.IndexExpr, *ast.IndexListExpr:
						case *ast.Ident:
							if _, ok := info.Uses[f].(*types.Func); !ok {
								fn = hold(fn)
							}
						case *ast.SelectorExpr:
							if o, ok := info.Uses[f.Sel].(*types.Func); !ok || o.Type().(*types.Signature).Recv() != nil {
								fn = hold(fn)
							}
						default:
							fn = hold(fn)
						}
						var args []string
						for _, a := range x.Call.Args {
							t := sub(a)
							tv, ok := info.Types[a]
							if ok && tv.Type != nil && tv.Value == nil && !tv.IsNil() {
								_, tuple := tv.Type.(*types.Tuple)
								b, basic := tv.Type.(*types.Basic)
								if !tuple && !(basic && b.Info()&types.IsUntyped != 0) {
									t = hold(t)
								}
							}
							args = append(args, t)
						}
						dots := ""
						if x.Call.Ellipsis.IsValid() {
							dots = "..."
						}
						return "{ " + pre + rt + ".Go(func() { " + fn + "(" + strings.Join(args, ", ") + dots + ") }) }"
					})
				}
			}
		}
		isChan := func(e ast.Expr) bool {
			if info == nil {
				return false
			}
			tv, ok := info.Types[e]
			if !ok || tv.Type == nil {
				return false
			}
			_, ok = tv.Type.Underlying().(*types.Chan)
			return ok
		}
		recv := func(e ast.Expr) *ast.UnaryExpr {
			if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return u
			}
			return nil
		}
		isMap := func(e ast.Expr) bool {
			if info == nil {
				return false
			}
			tv, ok := info.Types[e]
			if !ok || tv.Type == nil || tv.IsType() {
				return false
			}
			_, ok = tv.Type.Underlying().(*types.Map)
			return ok
		}
		written := map[ast.Node]bool{} // map elements that are assigned
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					written[ast.Unparen(l)] = true
				}
			case *ast.IncDecStmt:
				written[ast.Unparen(x.X)] = true
			case *ast.RangeStmt:
				if x.Key != nil {
					written[ast.Unparen(x.Key)] = true
				}
				if x.Value != nil {
					written[ast.Unparen(x.Value)] = true
				}
			}
			return true
		})
		uses := func(m ast.Expr, write bool) {
			used = true
			fn := ".MapRead("
			if write {
				fn = ".MapWrite("
			}
			add(off(m.Pos()), off(m.Pos()), rt+fn)
			add(off(m.End()), off(m.End()), ")")
		}
		two := map[ast.Node]bool{}  // receives of two values
		comm := map[ast.Node]bool{} // what select does
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if len(x.Lhs) == 2 && len(x.Rhs) == 1 && recv(x.Rhs[0]) != nil {
					two[recv(x.Rhs[0])] = true
				}
			case *ast.ValueSpec:
				if len(x.Names) == 2 && len(x.Values) == 1 && recv(x.Values[0]) != nil {
					two[recv(x.Values[0])] = true
				}
			case *ast.CommClause:
				switch c := x.Comm.(type) {
				case *ast.SendStmt:
					comm[c] = true
				case *ast.ExprStmt:
					comm[recv(c.X)] = true
				case *ast.AssignStmt:
					comm[recv(c.Rhs[0])] = true
				}
			case *ast.SelectStmt:
				used = true
				hasDefault := false
				var vars, vals []string
				for i, cl := range x.Body.List {
					c := cl.(*ast.CommClause)
					if c.Comm == nil {
						hasDefault = true
						addLazy(off(c.Case), off(c.Colon)+1, func(int) string { return "default:" })
						continue
					}
					v := fmt.Sprintf("verifsimcase%d_", i)
					vars = append(vars, v)
					vals = append(vals, "") // filled in below
					k := len(vars) - 1
					addLazy(off(c.Case), off(c.Colon)+1, func(self int) string {
						t := fmt.Sprintf("case %d:", k)
						if a, ok := c.Comm.(*ast.AssignStmt); ok {
							l := build(off(a.Lhs[0].Pos()), off(a.Lhs[len(a.Lhs)-1].End()), self)
							t += " " + l + " " + a.Tok.String() + " " + v + ".V"
							if len(a.Lhs) == 2 {
								t += ", " + v + ".OK"
							}
							t += ";"
						}
						return t
					})
				}
				addLazy(off(x.Select), off(x.Body.Lbrace)+1, func(self int) string {
					k := 0
					for i, cl := range x.Body.List {
						c := cl.(*ast.CommClause)
						sub := func(e ast.Expr) string { return build(off(e.Pos()), off(e.End()), self) }
						switch s := c.Comm.(type) {
						case nil:
							continue
						case *ast.SendStmt:
							vals[k] = rt + ".SendCase(" + sub(s.Chan) + ")(" + sub(s.Value) + ")"
						case *ast.ExprStmt:
							vals[k] = rt + ".RecvCase(" + sub(recv(s.X).X) + ")"
						case *ast.AssignStmt:
							vals[k] = rt + ".RecvCase(" + sub(recv(s.Rhs[0]).X) + ")"
						}
						_ = i
						k++
					}
					t := "switch "
					if len(vars) > 0 {
						t += strings.Join(vars, ", ") + " := " + strings.Join(vals, ", ") + "; "
					}
					t += rt + ".Select(" + strconv.FormatBool(hasDefault)
					for _, v := range vars {
						t += ", " + v
					}
					return t + ") {"
				})
				if !hasDefault {
					add(off(x.Body.Rbrace), off(x.Body.Rbrace), "default: panic(\"select\")\n")
				}
			}
			return true
		})
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.UnaryExpr:
				if x.Op == token.ARROW && !comm[x] {
					used = true
					fn := ".Recv("
					if two[x] {
						fn = ".Recv2("
					}
					add(off(x.OpPos), off(x.OpPos)+2, rt+fn)
					add(off(x.End()), off(x.End()), ")")
				}
			case *ast.SendStmt:
				if !comm[x] {
					used = true
					add(off(x.Chan.Pos()), off(x.Chan.Pos()), rt+".SendTo(")
					add(off(x.Chan.End()), off(x.Value.Pos()), ")(")
					add(off(x.Value.End()), off(x.Value.End()), ")")
				}
			case *ast.IndexExpr:
				if isMap(x.X) {
					uses(x.X, written[x])
				}
			case *ast.CallExpr:
				id, ok := ast.Unparen(x.Fun).(*ast.Ident)
				if !ok || info == nil || len(x.Args) == 0 {
					break
				}
				if _, ok := info.Uses[id].(*types.Builtin); !ok {
					break
				}
				switch {
				case (id.Name == "delete" || id.Name == "clear") && isMap(x.Args[0]):
					uses(x.Args[0], true)
				case id.Name == "close" && isChan(x.Args[0]):
					used = true
					add(off(x.Fun.Pos()), off(x.Fun.End()), rt+".Close")
				case id.Name == "len" && isChan(x.Args[0]) && info.Types[x.Args[0]].Type.Underlying().(*types.Chan).Dir() != types.SendOnly:
					used = true
					add(off(x.Fun.Pos()), off(x.Fun.End()), rt+".ChanLen")
				case id.Name == "make" && isChan(x):
					used = true
					add(off(x.Pos()), off(x.Pos()), rt+".MakeChan(")
					add(off(x.End()), off(x.End()), ")")
				}
			case *ast.BlockStmt:
				if x == nil {
					return true
				}
				list(x.List)
				if len(x.List) == 0 {
					add(off(x.Rbrace), off(x.Rbrace), y(x.Rbrace))
				}
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.RangeStmt:
				if info != nil {
					if tv, ok := info.Types[x.X]; ok && tv.Type != nil {
						if _, ok := tv.Type.Underlying().(*types.Map); ok {
							used = true
							add(off(x.X.Pos()), off(x.X.Pos()), rt+".MapIter(")
							add(off(x.X.End()), off(x.X.End()), ")")
						}
						if _, ok := tv.Type.Underlying().(*types.Chan); ok {
							used = true
							add(off(x.X.Pos()), off(x.X.Pos()), rt+".ChanRange(")
							add(off(x.X.End()), off(x.X.End()), ")")
						}
					}
				}
			}
			return true
		})
		// switch bodies hold clauses, not statements: drop the points put before clauses
		clause := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CaseClause:
				clause[off(x.Pos())] = true
			case *ast.CommClause:
				clause[off(x.Pos())] = true
			case *ast.SwitchStmt:
				if len(x.Body.List) == 0 {
					clause[off(x.Body.Rbrace)] = true
				}
			case *ast.TypeSwitchStmt:
				if len(x.Body.List) == 0 {
					clause[off(x.Body.Rbrace)] = true
				}
			case *ast.SelectStmt:
				if len(x.Body.List) == 0 {
					clause[off(x.Body.Rbrace)] = true
				}
			}
			return true
		})
		kept := eds[:0]
		for _, e := range eds {
			if e.off == e.end && clause[e.off] && strings.HasPrefix(e.text, rt+".Y(") {
				continue
			}
			kept = append(kept, e)
		}
		eds = kept
		if p.Reset && info != nil {
			text := func() string {
				return resets(p, f, info, func(e ast.Expr) string { return build(off(e.Pos()), off(e.End()), -1) })
			}
			build = func(lo, hi, skip int) string { return string(src[lo:hi]) }
			if text() != "" {
				used = true
				addLazy(len(src), len(src), func(int) string {
					return "\nfunc init() { " + rt + ".OnReset(func() {\n" + text() + "}) }\n"
				})
			}
		}
		if p.Sys && info != nil {
			if sys(p, f, info, off, add) {
				add(off(f.Name.End()), off(f.Name.End()), "; import verifsimos_ "+strconv.Quote(spec.Sim+"/simos"))
			}
			if f.Name.Name == "main" {
				add(off(f.Name.Pos()), off(f.Name.End()), "plugin")
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						add(len(src), len(src), "\n// Main runs the program.\nfunc Main() { main() }\n")
					}
				}
			}
		}
		if used {
			add(off(f.Name.End()), off(f.Name.End()), "; import "+rt+" "+strconv.Quote(spec.RT))
		}
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		// insertions before replacements at the same offset
		a, b := eds[i].end > eds[i].off, eds[j].end > eds[j].off
		if a != b {
			return !a
		}
		return eds[i].ord < eds[j].ord
	})
	// build is the edited text of a part of the file; skip is the replacement
	// that asks for it, if one does.
	build = func(lo, hi, skip int) string {
		var out []byte
		last := lo
		for _, e := range eds {
			if e.off < last || e.end > hi || e.ord == skip {
				continue // elsewhere, or inside text already replaced
			}
			out = append(out, src[last:e.off]...)
			if e.lazy != nil {
				out = append(out, e.lazy()...)
			} else {
				out = append(out, e.text...)
			}
			last = e.end
		}
		return string(append(out, src[last:hi]...))
	}
	return []byte(build(0, len(src), -1))
}

func embeds(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed ") {
			return true
		}
	}
	return false
}

// resets lists assignments that give a file's package variables their initial values again.
func resets(p *Pkg, f *ast.File, info *types.Info, text func(ast.Expr) string) string {
	var sb strings.Builder
	inits := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			inits[l] = true
		}
	}
	// those without initialiser first
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			if embeds(g.Doc) || embeds(s.(*ast.ValueSpec).Doc) {
				continue
			}
			for _, n := range s.(*ast.ValueSpec).Names {
				if n.Name == "_" || inits[info.Defs[n]] {
					continue
				}
				fmt.Fprintf(&sb, "verifsimrt_.Zero(&%s)\n", n.Name)
			}
		}
	}
	for _, in := range info.InitOrder {
		if in.Rhs.Pos() < f.FileStart || in.Rhs.Pos() >= f.FileEnd {
			continue
		}
		var l []string
		blank := true
		for _, v := range in.Lhs {
			l = append(l, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		fmt.Fprintf(&sb, "%s = %s\n", strings.Join(l, ", "), text(in.Rhs))
	}
	return sb.String()
}

// copyOthers copies the files a package may embed.
func copyOthers(p *Pkg) {
	ents, _ := os.ReadDir(p.Src)
	for _, e := range ents {
		n := e.Name()
		if !e.Type().IsRegular() || strings.HasSuffix(n, ".go") || n == "go.mod" || n == "go.sum" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(p.Src, n))
		if err == nil {
			err = os.WriteFile(filepath.Join(p.Dst, n), b, 0o644)
		}
		if err != nil {
			log.Fatal(err)
		}
	}
}

// sysNames are what the simulator has its own version of, by import path. The
// last entry keeps the import in use when all others are replaced.
var sysNames = map[string][]string{
	"os":           {"Stdin", "Stdout", "Stderr", "Exit", "Args", "File", "Getenv", "LookupEnv", "Environ", "Hostname", "Getpid", "Getppid", "Getwd", "Executable", "Process", "UserHomeDir", "UserCacheDir", "UserConfigDir", "Getuid", "Geteuid", "Getgid", "Getegid", "ReadFile", "*DevNull"},
	"context":      {"WithTimeout", "WithDeadline", "*Background"},
	"os/exec":      {"Command", "CommandContext", "LookPath", "Cmd", "*ErrDot"},
	"time":         {"Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker", "*Second"},
	"fmt":          {"Print", "Printf", "Println", "*Sprint"},
	"log":          {"Fatal", "Fatalf", "Fatalln", "Print", "Printf", "Println", "*Ldate"},
	"maps":         {"Keys", "Values", "All", "*Copy[map[int]int, map[int]int]"},
	"math/rand":    {"Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float32", "Float64", "Perm", "Shuffle", "*NewSource"},
	"math/rand/v2": {"Int", "IntN", "Int32", "Int32N", "Int64", "Int64N", "Uint32", "Uint32N", "Uint64", "Uint64N", "UintN", "Float32", "Float64", "Perm", "Shuffle", "N", "*NewPCG"},
	"crypto/rand":  {"Read", "Reader", "Text", "*Prime"},
	"runtime":      {"NumCPU", "NumGoroutine", "GOMAXPROCS", "*GC"},
	"os/user":      {"Current", "*Lookup"},
}

var sysPrefix = map[string]string{
	"log": "Log", "math/rand": "Rand", "math/rand/v2": "Rand2", "crypto/rand": "Crypto", "maps": "Maps", "runtime": "Runtime", "os/user": "User",
}

// sys replaces uses of the operating system.
func sys(p *Pkg, f *ast.File, info *types.Info, off func(token.Pos) int, add func(int, int, string)) (used bool) {
	kept := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			for _, nm := range sysNames[pn.Imported().Path()] {
				if nm == x.Sel.Name {
					add(off(x.Pos()), off(x.End()), "verifsimos_."+sysPrefix[pn.Imported().Path()]+nm)
					used = true
					kept[id.Name+" "+pn.Imported().Path()] = true
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "println" || id.Name == "print") {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					add(off(id.Pos()), off(id.End()), "verifsimos_.Builtin"+strings.Title(id.Name))
					used = true
				}
			}
		}
		return true
	})
	var ks []string
	for k := range kept {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	end := off(f.FileEnd)
	for _, k := range ks {
		name, path, _ := strings.Cut(k, " ")
		for _, nm := range sysNames[path] {
			if nm[0] == '*' {
				add(end, end, "\nvar _ = "+name+"."+nm[1:]+"\n")
			}
		}
	}
	return used
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("instr: ")
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		log.Fatal(err)
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		log.Fatal(err)
	}
	for i := range spec.Pkgs {
		p := &spec.Pkgs[i]
		load(p)
		if !p.Plain {
			check(p)
		}
	}
	for i := range spec.Pkgs {
		p := &spec.Pkgs[i]
		if err := os.MkdirAll(p.Dst, 0o755); err != nil {
			log.Fatal(err)
		}
		if p.Sys {
			copyOthers(p)
		}
		for j, f := range files[p.Path] {
			out := instrument(p, f, names[p.Path][j])
			if err := os.WriteFile(filepath.Join(p.Dst, filepath.Base(names[p.Path][j])), out, 0o644); err != nil {
				log.Fatal(err)
			}
		}
	}
	if spec.Sites != "" {
		var sb strings.Builder
		sb.WriteString("// Package sites names the switch points.\npackage sites\n\nvar Names = []string{\n\"\",\n")
		for _, s := range table {
			fmt.Fprintf(&sb, "%q,\n", s)
		}
		sb.WriteString("}\n")
		os.MkdirAll(filepath.Dir(spec.Sites), 0o755)
		if err := os.WriteFile(spec.Sites, []byte(sb.String()), 0o644); err != nil {
			log.Fatal(err)
		}
	}
	fmt.Printf("instrumented %d packages, %d switch points\n", len(spec.Pkgs), site)
}
