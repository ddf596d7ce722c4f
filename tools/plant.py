#!/usr/bin/env python3
"""plant.py confirm|catch ID... : confirm a planted bug (builds, tests pass, demo
quiet before and loud after) or run the check of its property against it.
Works on /repo and puts it back."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def git(*a):
    p = run(["git", "-C", REPO] + list(a))
    assert p.returncode == 0, p.stdout.decode()
    return p.stdout.decode()


def build():
    return run(["bash", "/opt/vp/build.sh"])


def demo(d):
    return run(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=300)


def stable():
    p = run(["bash", "/opt/vp/test.sh", "/tmp/plant-o.json"])
    o = json.load(open("/tmp/plant-o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return [t for t in b["stable"] if t not in o["passed"]]


def confirm(i):
    d = os.path.join(HERE, "seeded", i)
    build()
    p = demo(d)
    if p.returncode != 0:
        return "demo fails on the unchanged tree:\n" + p.stdout.decode(errors="replace")[-3000:]
    git("apply", d + "/patch.diff")
    try:
        p = build()
        if p.returncode != 0:
            return "does not build:\n" + p.stdout.decode(errors="replace")[-3000:]
        bad = stable()
        if bad:
            return "tests fail: %s" % bad[:5]
        p = demo(d)
        if p.returncode == 0:
            return "demo passes with the change"
        return "ok (demo: %s)" % p.stdout.decode(errors="replace").strip()[-300:].replace("\n", " | ")
    finally:
        git("checkout", "--", ".")
        build()


def catch(i, prop=None):
    d = os.path.join(HERE, "seeded", i)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    git("apply", d + "/patch.diff")
    try:
        t = time.time()
        p = run([HERE + "/check.py", prop], cwd=HERE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        lines = [l for l in p.stdout.decode(errors="replace").splitlines() if l.startswith("VIOLATION") or "violation" in l.lower()]
        return "%s rc=%d %.0fs %s" % (prop, p.returncode, time.time() - t, " / ".join(lines)[:400] or p.stdout.decode(errors="replace")[-300:])
    finally:
        git("checkout", "--", ".")


if __name__ == "__main__":
    for i in sys.argv[2:]:
        i, _, prop = i.partition(":")
        print(i, confirm(i) if sys.argv[1] == "confirm" else catch(i, prop), flush=True)
