#!/usr/bin/env python3
"""check.py ID [--replay FILE] [-- driver flags]

Builds the simulator for property ID from /repo's current working tree and
runs it: exit 0 if the property held, 1 with a VIOLATION line if not, 2 if the
check itself could not do its work."""
import copy, hashlib, json, os, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import rinstr
import schema
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD1 = "github.com/loopholelabs/polyglot"
MOD2 = MOD1 + "/v2"

env = dict(os.environ)
for d in ("/opt/veriftools/go1.24.13/bin", "/usr/local/go/bin", os.path.expanduser("~/.cargo/bin"), "/root/.cargo/bin"):
    if os.path.isdir(d):
        env["PATH"] = d + ":" + env["PATH"]
env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1",
           GOFLAGS_EXTRA="", CARGO_NET_OFFLINE="true", GOWORK="off")
env.pop("RUSTFLAGS", None)


class Broken(Exception):
    pass


def sh(cmd, cwd=None, timeout=800, extra=None, stdin=None):
    e = dict(env)
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    if p.returncode != 0:
        raise Broken("%s failed:\n%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:], p.stderr.decode(errors="replace")[-6000:]))
    return p.stdout


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def copytree(a, b):
    shutil.copytree(a, b, dirs_exist_ok=True)


def go_deps(directory, pats):
    """import path -> source directory of the repository's own packages that pats need."""
    out = sh(["go", "list", "-deps", "-f", "{{.ImportPath}}\t{{.Dir}}"] + pats, cwd=directory).decode()
    r = {}
    for l in out.splitlines():
        path, d = l.split("\t")
        if path == MOD1 or path.startswith(MOD1 + "/"):
            r[path] = d
    return r


def build_dir(pid):
    d = os.path.join(HERE, ".build", pid)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def newpath(p):
    if p == MOD2 or p.startswith(MOD2 + "/"):
        return "verifsim/poly/v2" + p[len(MOD2):]
    return "verifsim/poly/v1" + p[len(MOD1):]


class NoCode(Exception):
    """the generators produce no usable code for a supported schema"""
    def __init__(self, schema, what):
        self.schema, self.what = schema, what


def run_plugin(exe, req, what):
    p = subprocess.run([exe], input=req, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise NoCode(what, "exit status %d: %s" % (p.returncode, p.stderr.decode(errors="replace").strip()[:300]))
    err, files = schema.response(p.stdout)
    if err or len(files) != 1:
        raise NoCode(what, err or "%d files" % len(files))
    return list(files.values())[0]


RS2 = """package main

import (
	"io"
	"os"

	"%s/generator/rust"
)

func main() {
	gen := rust.New()
	data, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	req, err := gen.UnmarshalRequest(data)
	if err != nil {
		panic(err)
	}
	res, err := gen.Generate(req)
	if err != nil {
		panic(err)
	}
	if data, err = gen.MarshalResponse(res); err != nil {
		panic(err)
	}
	if _, err = os.Stdout.Write(data); err != nil {
		panic(err)
	}
}
""" % MOD2


def code(src):
    return [l for l in src.splitlines() if not l.lstrip().startswith("//")]


def generate(b, m, seed, thorough, rust):
    """the code of the drawn schemas, from the plugins of the current tree."""
    t0 = time.time()
    exes = {}
    for name, d, pkg in (("1", REPO, "./protoc-gen-go-polyglot"), ("2", REPO + "/v2", "./protoc-gen-go-polyglot"), ("rs", REPO, "./protoc-gen-rs-polyglot")):
        if name == "rs" and not rust:
            continue
        exes[name] = os.path.join(b, "plugin" + name)
        sh(["go", "build", "-o", exes[name], pkg], cwd=d)
    # the second Rust generator, which has no plugin of its own
    over = {}
    if rust:
        try:
            main = os.path.join(b, "rs2.go")
            write(main, RS2)
            write(os.path.join(b, "rs2.json"), json.dumps({"Replace": {REPO + "/v2/zz-rs2/main.go": main}}))
            exe = os.path.join(b, "pluginrs2")
            sh(["go", "build", "-overlay", os.path.join(b, "rs2.json"), "-o", exe, "./zz-rs2"], cwd=REPO + "/v2")
            exes["rs2"] = exe
        except Broken as ex:
            log("without the second Rust generator:", str(ex)[-300:])
    ss = schema.schemas(seed, *((10, 6) if thorough else (4, 2))) + [schema.odd()]
    per, rs, pkgs = [], [], []
    i = 0
    while i < len(ss):
        s = ss[i]
        i += 1
        vs = {}
        for v in ("1", "2"):
            vs[v] = run_plugin(exes[v], schema.request(s), s.name + " for Go v" + v)
            d = os.path.join(b, "gen%s" % v, s.name)
            write(os.path.join(d, s.name + ".go"), vs[v])
            pkgs.append({"Src": d, "Dst": os.path.join(m, "gen%s" % v, s.name), "Path": "gen%s/%s" % (v, s.name), "New": "verifsim/gen%s/%s" % (v, s.name), "Sync": True, "Reset": True})
        per.append((s, vs))
        if s.rust and rust:
            req = schema.request(s, "privacy=public")
            src = run_plugin(exes[over.get(s.name, "rs")], req, s.name + " for Rust")
            rs.append((s, src))
            if s.name not in over and s is not ss[-1] and "rs2" in exes and code(run_plugin(exes["rs2"], req, s.name + " for Rust, v2")) != code(src):
                # the generators disagree: the same messages once more, with the other's code
                again = copy.deepcopy(s)
                again.name = again.pkg = s.name + "v2"
                over[again.name] = "rs2"
                ss.insert(len(ss) - 1, again)
        elif not rust:
            s.rust = False
    write(os.path.join(m, "genreg/zz_reg.go"), schema.go_registry(per))
    if rust:
        d = os.path.join(b, "rustgen")
        write(os.path.join(d, "ext.rs"), schema.rust_glue(rs))
        for s, src in rs:
            write(os.path.join(d, "gen_%s.rs" % s.name), src)
    log("generated %d schemas in %.1fs" % (len(ss), time.time() - t0))
    return pkgs


def assemble(b, gen=None, gens=False):
    """the simulator module with an instrumented copy of both Go modules."""
    m = os.path.join(b, "m")
    copytree(os.path.join(HERE, "sim"), m)
    extra = gen(m) if gen else []
    pkgs = {}
    pkgs.update(go_deps(REPO, ["."]))
    pkgs.update(go_deps(os.path.join(REPO, "v2"), ["."]))
    if gens:
        # the generators and plugin programs, and the libraries they need
        more = {}
        for d in (REPO, os.path.join(REPO, "v2")):
            names = ["./generator/...", "./utils", "./version"] + sorted("./" + x for x in os.listdir(d) if x.startswith("protoc-gen-"))
            more.update(go_deps(d, [x for x in names if os.path.isdir(os.path.join(d, x.replace("/...", "")))]))
        pkgs.update(more)
        sums, reqs = set(), {}
        for d in (REPO, os.path.join(REPO, "v2")):
            with open(d + "/go.sum") as f:
                sums |= set(f.read().splitlines())
            for l in json.loads(sh(["go", "mod", "edit", "-json"], cwd=d))["Require"] or []:
                if not l["Path"].startswith(MOD1):
                    reqs.setdefault(l["Path"], set()).add(l["Version"])
        write(m + "/go.sum", "\n".join(sorted(sums)) + "\n")
        with open(m + "/go.mod", "a") as f:
            for k, vs in sorted(reqs.items()):
                f.write("require %s %s\n" % (k, max(vs, key=lambda v: [int(x) if x.isdigit() else 0 for x in v.lstrip("v").split(".")])))
    spec = {"Sites": m + "/sites/sites.go", "RT": "verifsim/simrt", "Sim": "verifsim", "Pkgs": [], "Rewrite": {}}
    for p, d in sorted(pkgs.items()):
        spec["Pkgs"].append({"Src": d, "Dst": m + newpath(p)[len("verifsim"):], "Path": p, "New": newpath(p), "Sync": True, "Reset": True, "Sys": True})
        spec["Rewrite"][p] = newpath(p)
    spec["Pkgs"] += extra
    write(b + "/spec.json", json.dumps(spec))
    tool = os.path.join(b, "instr")
    sh(["go", "build", "-o", tool, "."], cwd=os.path.join(HERE, "tools/instr"))
    log(sh([tool, b + "/spec.json"]).decode().strip())
    return m


def build_sim(b, gen=None, gens=False):
    m = assemble(b, gen, gens)
    exe = os.path.join(b, "verifsim")
    try:
        sh(["go", "build"] + (["-tags", "gens"] if gens else []) + ["-o", exe, "."], cwd=m)
    except Broken as ex:
        if gen and "\ngen" in "\n" + str(ex) or "/gen" in str(ex):
            raise NoCode("Go", str(ex)[-2000:])
        raise
    return exe


def build_nodes(b, langs, stops=False):
    """the other languages' implementations, each in a child process of its own."""
    jobs = []
    if "rust" in langs or "c" in langs:
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [d for d in dirs if d not in ("target", "node_modules", ".git")]
            for f in files:
                if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock"):
                    dst = os.path.join(b, "rs", os.path.relpath(root, REPO))
                    os.makedirs(dst, exist_ok=True)
                    shutil.copy(os.path.join(root, f), dst)
        if stops:
            # switch points between statements, if the code can be compiled with them
            copytree(os.path.join(b, "rs"), os.path.join(b, "rs-plain"))
            log("instrumented Rust, %d switch points" % sum(rinstr.crate(os.path.join(b, "rs", d)) for d in ("", "c_bindings")))

    def compiled(cmd, at, extra):
        try:
            sh(cmd, cwd=os.path.join(b, at), extra=extra)
        except Broken as ex:
            if not stops or "/gen_" in str(ex):
                raise
            log("without switch points between Rust statements:", str(ex)[-500:])
            copytree(os.path.join(b, "rs-plain"), os.path.join(b, "rs"))
            sh(cmd, cwd=os.path.join(b, at), extra=extra)
    if "rust" in langs:
        src = os.path.join(b, "rustnode-src")
        copytree(os.path.join(HERE, "nodes/rust"), src)
        if os.path.isdir(os.path.join(b, "rustgen")):
            copytree(os.path.join(b, "rustgen"), src + "/src")
            with open(src + "/Cargo.toml") as f:
                t = f.read()
            write(src + "/Cargo.toml", t.replace("[dependencies]\n", '[dependencies]\nnum_enum = { path = "../num_enum" }\n'))
            copytree(os.path.join(HERE, "nodes/num_enum"), os.path.join(b, "num_enum"))

        def rust():
            t = os.path.join(b, "target-rust")
            try:
                compiled(["cargo", "build", "--offline", "--quiet"], "rustnode-src", {"CARGO_TARGET_DIR": t})
            except Broken as ex:
                if "/gen_" in str(ex):
                    raise NoCode("Rust", str(ex)[-2000:])
                raise
            shutil.copy(os.path.join(t, "debug/rustnode"), os.path.join(b, "rustnode"))
        jobs.append(rust)
    if "c" in langs:
        def c():
            t = os.path.join(b, "target-c")
            compiled(["cargo", "build", "--offline", "--quiet"], "rs/c_bindings", {"CARGO_TARGET_DIR": t})
            shutil.copy(os.path.join(t, "debug/libpolyglot.so"), b)
            shutil.copy(os.path.join(REPO, "polyglot.h"), b)
            sh(["gcc", "-O1", "-w", "-fno-builtin", "-I" + b, os.path.join(HERE, "nodes/c/cnode.c"), b + "/libpolyglot.so", "-Wl,-rpath,$ORIGIN", "-rdynamic", "-o", b + "/cnode"])
        jobs.append(c)
    if "ts" in langs:
        def ts():
            # type errors are not what is decided here: only the emitted code matters
            p = subprocess.run(["tsc", "--target", "es2020", "--module", "commonjs", "--skipLibCheck", "--outDir", b + "/tsjs", REPO + "/index.ts"],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if not os.path.exists(b + "/tsjs/index.js"):
                raise Broken("tsc: " + p.stdout.decode(errors="replace")[-3000:])
            shutil.copy(os.path.join(HERE, "nodes/ts/tsnode.js"), b)
        jobs.append(ts)
    errs = []

    def guard(j):
        try:
            j()
        except BaseException as ex:
            errs.append(ex)
    ths = [threading.Thread(target=guard, args=(j,)) for j in jobs]
    for t in ths:
        t.start()
    return ths, errs


NODES = {
    "C01": ["rust", "c", "ts"],
    "C04": ["rust", "c", "ts"], "C05": ["rust", "c", "ts"], "C06": ["rust", "c", "ts"], "C07": ["rust", "c", "ts"],
    "C08": ["rust", "c", "ts"], "C09": ["c"], "C10": ["rust", "c", "ts"], "C11": ["c", "ts"], "C13": ["rust"], "C17": ["rust", "c", "ts"],
}
GENS = {"C14", "C15"}
GEN = {"C04", "C05", "C07", "C11", "C12", "C13", "C17"}


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    rep = None
    if rest[:1] == ["--replay"]:
        rep = os.path.abspath(rest[1])
        rest = rest[2:]
    if rest[:1] == ["--"]:
        rest = rest[1:]
    t0 = time.time()
    tier = env.get("VERIF_TIER", "quick")
    seed = env.get("VERIF_SEED", "1")
    if rep:
        # the schemas drawn for the run that failed
        with open(rep) as f:
            j = json.load(f)
        if "no_code" in j:
            rep = None
            rest = []
        seed, tier = str(j.get("verif_seed", seed)), j.get("tier", tier)
    b = build_dir(pid if rep is None else pid + "-replay")
    langs = NODES.get(pid, [])
    try:
        m = os.path.join(b, "m")
        gen = None
        if pid in GEN:
            os.makedirs(m)
            try:
                pk = generate(b, m, seed, tier != "quick", "rust" in langs)
                gen = lambda _: pk
            except NoCode as ex:
                if pid == "C13":
                    raise
                log("without generated messages:", ex.schema, ex.what[:500])
        def build(gen):
            ths, errs = build_nodes(b, langs, pid == "C01")
            try:
                exe = build_sim(b, gen, pid in GENS)
            finally:
                for t in ths:
                    t.join()
            if errs:
                raise errs[0]
            return exe
        try:
            exe = build(gen)
        except NoCode as ex:
            if pid in ("C12", "C13"):
                raise
            # the generated code is for C13 to judge: do the rest
            log("without generated messages:", ex.schema, ex.what[:500])
            shutil.rmtree(m)
            shutil.rmtree(os.path.join(b, "rustgen"), ignore_errors=True)
            shutil.rmtree(os.path.join(b, "rustnode-src"), ignore_errors=True)
            os.makedirs(m)
            exe = build(None)
    except NoCode as ex:
        if pid != "C13":
            raise Broken("generated code: %s %s" % (ex.schema, ex.what))
        # a supported message that cannot be sent at all
        path = os.path.join(HERE, "replays", "C13-nocode-%s.json" % hashlib.sha1((ex.schema + ex.what).encode()).hexdigest()[:10])
        write(path, json.dumps({"property": pid, "no_code": ex.schema, "what": ex.what, "verif_seed": int(seed), "tier": tier}, indent=1))
        print("the generators produce no usable code for", ex.schema + ":", ex.what)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    log("built in %.1fs" % (time.time() - t0))
    cmd = [exe, "-prop", pid, "-known", HERE + "/known-findings.txt", "-replays", HERE + "/replays"]
    if rep:
        cmd += ["-replay", rep]
    else:
        cap = 420 if tier == "quick" else 7200
        cmd += ["-seed", seed, "-tier", tier, "-evidence", HERE + "/evidence/%s.json" % pid, "-cap", str(cap)]
    e = dict(env)
    e["VERIFSIM_BUILD"] = b
    p = subprocess.run(cmd + rest, cwd=b, env=e)
    rc = p.returncode
    if rc in (0, 1) and not env.get("VERIF_KEEP"):
        shutil.rmtree(b, ignore_errors=True)
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (Broken, subprocess.TimeoutExpired) as ex:
        print("check broken:", ex, file=sys.stderr)
        sys.exit(2)
