"""Switch points in Rust code: a call between the statements of every function,
so that a simulated scheduler can stop a thread there. Works on tokens; knows
nothing about what the code does. Only copies are changed."""
import os, re

TOKEN = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*)
 |(?P<raw>b?r(\#*)"|c?r(\#*)")
 |(?P<str>[bc]?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\d[\w]*)
 |(?P<arrow>=>|->|::|\|\||&&|[<>=!]=)
 |(?P<p>.)
""", re.X | re.S)


def tokens(s):
    """(kind, text) of everything, comments and space included"""
    i = 0
    while i < len(s):
        m = TOKEN.match(s, i)
        k, t = m.lastgroup, m.group()
        if k is None or k.isdigit():
            k = next(n for n, v in m.groupdict().items() if v is not None)
        if t == "/*":
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            t = s[i:j]
        elif m.group("raw"):
            h = t[t.index("r") + 1:-1]
            j = s.index('"' + h, m.end()) + 1 + len(h)
            t, k = s[i:j], "str"
        yield k, t
        i += len(t)


ITEMS = {"impl", "trait", "mod", "extern", "struct", "enum", "union", "macro_rules", "match", "use"}


def points(src, call):
    """src with call after every statement of every function body"""
    ts = list(tokens(src))
    sig = [i for i, (k, _) in enumerate(ts) if k != "ws"]
    nxt = {a: b for a, b in zip(sig, sig[1:])}
    out = []
    stack = []  # 'b' block of a function, 'o' other braces, '(' '['
    fn = None  # None, or depth at which a function's signature began
    const = False
    prev = prev2 = ""
    item = None  # keyword that says what the next brace opens
    cond = None  # depth of a condition whose block is still to come
    inside = 0  # function bodies around
    for i, (k, t) in enumerate(ts):
        out.append(t)
        if k == "ws":
            continue
        insert = False
        if k == "id":
            if t == "fn" and (nxt.get(i) is not None and ts[nxt[i]][0] == "id"):
                fn = len(stack)
                const = "const" in (prev, prev2)
            elif t in ("if", "while", "for") and inside and fn is None and ts[nxt.get(i, i)][1] != "<":
                cond = len(stack)
            elif t in ITEMS and fn is None:
                item = (t, len(stack))
        elif t in ("(", "["):
            stack.append(t)
        elif t in (")", "]"):
            if stack:
                stack.pop()
        elif t == "{":
            if fn is not None and len(stack) == fn:
                stack.append("B" if not const else "C")
                inside += 1
                insert = not const
                fn = item = None
            else:
                own = item is not None and item[1] == len(stack)
                if own:
                    item = None
                    stack.append("o")
                elif prev == "!" or (stack and stack[-1] == "m"):
                    stack.append("m")
                elif inside and "C" not in stack:
                    stack.append("b")
                    insert = prev in ("=>", "else", "loop", "unsafe") or cond == len(stack) - 1
                    if cond == len(stack) - 1:
                        cond = None
                else:
                    stack.append("o")
        elif t == "}":
            if stack:
                if stack.pop() in ("B", "C"):
                    inside -= 1
        elif t == "=>":
            cond = None
        elif t == ";":
            if fn is not None and len(stack) == fn:
                fn = None  # a declaration
            if item is not None and item[1] == len(stack):
                item = None
            insert = bool(stack) and stack[-1] in ("b", "B")
        if insert and nxt.get(i) is not None and ts[nxt[i]][1] not in ("}", "#"):
            out.append(call)
        prev2, prev = prev, t
    return "".join(out)


CALL = " crate::__verif_point(); "
POINT = """
#[doc(hidden)]
#[inline(never)]
pub fn __verif_point() {
    extern "C" {
        fn verif_point();
    }
    unsafe { verif_point() }
}
"""


def crate(d):
    """instruments the crate in d"""
    with open(os.path.join(d, "Cargo.toml")) as f:
        m = re.search(r'^\[lib\][^\[]*?^path\s*=\s*"([^"]+)"', f.read(), re.M)
    root = os.path.normpath(os.path.join(d, m.group(1) if m else "src/lib.rs"))
    n = 0
    for at, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "examples", "benches") and not os.path.exists(os.path.join(at, x, "Cargo.toml")))
        for f in sorted(files):
            p = os.path.join(at, f)
            if not f.endswith(".rs") or f == "build.rs":
                continue
            with open(p) as h:
                r = points(h.read(), CALL)
            n += r.count(CALL)
            if os.path.normpath(p) == root:
                r += POINT
            with open(p, "w") as h:
                h.write(r)
    return n


if __name__ == "__main__":
    import sys
    print(points(open(sys.argv[1]).read(), " P(); "))
