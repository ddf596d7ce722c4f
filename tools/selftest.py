#!/usr/bin/env python3
"""Checks the simulator itself: code full of goroutines, channels, selects,
timers and package state is put into a copy of the repository and has to
behave under simulation as the language says (and to be caught when it does
not)."""
import os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def run(repo, pid):
    p = subprocess.run([sys.executable, os.path.join(HERE, "../check.py"), pid, "--", "-scale", "0.02", "-recheck", "300"],
                       env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_STRICT="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


t = tempfile.mkdtemp(prefix="selftest")
try:
    repo = os.path.join(t, "repo")
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target", "node_modules", ".git"))
    src = open(os.path.join(HERE, "selftest/torture.go.txt")).read()
    d = open(repo + "/decoder.go").read()
    a = "func GetDecoder(b []byte) (d *Decoder) {\n"
    assert a in d
    d = d.replace(a, "var tortured gosync.Once\n\n" + a + "\ttortured.Do(torture)\n").replace("package polyglot\n", "package polyglot\n\nimport gosync \"sync\"\n", 1)
    open(repo + "/decoder.go", "w").write(d)
    bad = 0
    for text, want in ((src, 0), (src.replace("sum == 285", "sum == 286"), 1), (src.replace("n == 3, ", "n == 4, "), 1)):
        open(repo + "/torture.go", "w").write(text)
        rc, out = run(repo, "C03")
        print("want", want, "got", rc)
        if rc != want:
            bad = 1
            print(out[-3000:])
    sys.exit(bad)
finally:
    shutil.rmtree(t)
