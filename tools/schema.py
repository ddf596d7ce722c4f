"""Message schemas for the simulations of generated code: fixed ones and ones
drawn from a seed, the requests a protocol compiler would send the plugins for
them, and the glue that lets the simulator reach what they generate."""
import random, re, struct

# protobuf kind -> wire kind of the library
PB = {"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6, "fixed32": 7, "bool": 8, "string": 9,
      "message": 11, "bytes": 12, "uint32": 13, "enum": 14, "sfixed32": 15, "sfixed64": 16, "sint32": 17, "sint64": 18}
WIRE = {"bytes": 4, "string": 5, "bool": 7, "uint32": 10, "fixed32": 10, "uint64": 11, "fixed64": 11,
        "int32": 12, "sint32": 12, "sfixed32": 12, "int64": 13, "sint64": 13, "sfixed64": 13, "float": 14, "double": 15, "enum": 10, "message": 3}
SCALARS = [k for k in PB if k not in ("message", "enum", "bytes")]
KEYS = [k for k in SCALARS if k not in ("float", "double")]


class Field:
    def __init__(self, name, card, kind, ref=None, key=None):
        self.name, self.card, self.kind, self.ref, self.key = name, card, kind, ref, key


class Message:
    def __init__(self, name, fields, parent=None):
        self.name, self.fields, self.parent = name, fields, parent  # parent: index of the enclosing message


class Enum:
    def __init__(self, name, values, parent=None):
        self.name, self.values, self.parent = name, values, parent


class Schema:
    def __init__(self, name, msgs, enums, rust):
        self.name, self.msgs, self.enums, self.rust = name, msgs, enums, rust
        self.pkg = name

    def full(self, m):
        return (self.pkg if m.parent is None else self.full(self.msgs[m.parent])) + "." + m.name


# ------------------------------------------------------------ fixed schemas

def F(name, card, kind, ref=None, key=None):
    return Field(name, card, kind, ref, key)


# more values than a byte or a one-byte varint can tell apart
WIDE = Enum("Wide", ["W%d" % i for i in range(300)])


def fixed_go():
    """every kind, cardinality, nesting and recursion the Go generators support"""
    m = [
        Message("Scalars", [F("b", "one", "bool"), F("d", "one", "double"), F("f_l", "one", "float"), F("i32", "one", "int32"),
                            F("i64", "one", "int64"), F("u32", "one", "uint32"), F("u64", "one", "uint64"), F("s32", "one", "sint32"),
                            F("s64", "one", "sint64"), F("fx32", "one", "fixed32"), F("fx64", "one", "fixed64"), F("sf32", "one", "sfixed32"),
                            F("sf64", "one", "sfixed64"), F("text_value", "one", "string"), F("raw_bytes_2", "one", "bytes"), F("color", "one", "enum", 0)]),
        Message("Lists", [F(k + "s", "list", k) for k in SCALARS] + [F("blobs", "list", "bytes"), F("colors", "list", "enum", 0)]),
        Message("Tree", [F("left", "one", "message", 2), F("value", "one", "int64"), F("right", "one", "message", 2), F("kids", "list", "message", 2),
                         F("by_name", "map", "message", 2, "string")]),
        Message("Maps", [F("m1", "map", "string", None, "string"), F("m2", "map", "uint32", None, "int32"), F("m3", "map", "message", 0, "uint64"),
                         F("m4", "map", "enum", 0, "bool"), F("m5", "map", "double", None, "int64"), F("m6", "map", "message", 4, "string"),
                         F("m7", "map", "bool", None, "fixed32"), F("m8", "map", "float", None, "sint64"), F("m9", "map", "int64", None, "uint32"),
                         F("m10", "map", "bytes", None, "string")]),
        Message("Small", [F("id", "one", "uint32")]),
        Message("Outer", [F("name", "one", "string"), F("in_one", "one", "message", 6), F("ins", "list", "message", 6), F("mode", "one", "enum", 1),
                          F("small", "one", "message", 4), F("blob", "one", "bytes"), F("lists", "one", "message", 1), F("tail", "one", "message", 4)]),
        Message("Inner", [F("key", "one", "string"), F("maps", "one", "message", 3), F("bits", "list", "uint64"), F("s", "one", "message", 4),
                          F("grade", "one", "enum", 3), F("core", "one", "message", 13)], 5),
        Message("Batch", [F("items", "list", "message", 5), F("count", "one", "uint32"), F("smalls", "list", "message", 4), F("scalars", "one", "message", 0),
                          F("index", "map", "message", 6, "int32"), F("end_mark", "one", "message", 4)]),
        Message("Blobs", [F("first", "one", "bytes"), F("names", "list", "string"), F("second", "one", "bytes"), F("third", "one", "bytes")]),
        Message("ByKey", [F("k_" + k, "map", "uint32", None, k) for k in KEYS]),
        Message("ByValue", [F("v_" + k, "map", k, None, "uint32") for k in SCALARS + ["bytes"]]),
        Message("Codes", [F("one", "one", "enum", 2), F("by_code", "map", "enum", 2, "string")]),
        Message("MapFirst", [F("attrs", "map", "string", None, "string"), F("next", "one", "message", 12), F("small", "one", "message", 4)]),
        Message("Core", [F("heat", "one", "enum", 4), F("grades", "map", "enum", 3, "string"), F("heats", "map", "enum", 4, "uint32")], 6),
    ]
    e = [Enum("Color", ["RED", "GREEN", "BLUE", "ULTRA_VIOLET"]), Enum("Mode", ["OFF", "ON"], 5), WIDE, Enum("Grade", ["LOW", "MID", "HIGH"], 6),
         Enum("Heat", ["COOL", "WARM"], 13)]
    return Schema("fx", m, e, False)


def fixed_rust():
    """what the Rust generator's output supports as well"""
    m = [
        Message("Leaf", [F("id", "one", "uint32"), F("name", "one", "string"), F("data", "one", "bytes"), F("hue", "one", "enum", 0)]),
        Message("Numbers", [F(k + "_v", "one", k) for k in SCALARS]),
        Message("Branch", [F("leaf", "one", "message", 0), F("label", "one", "string"), F("leaves", "list", "message", 0), F("tags", "list", "string")]),
        Message("Index", [F("by_name", "map", "message", 0, "string"), F("sizes", "map", "uint64", None, "string"), F("hues", "map", "enum", 0, "string"),
                          F("on", "map", "bool", None, "string"), F("temps", "map", "double", None, "string")]),
        Message("Forest", [F("trees", "list", "message", 2), F("count", "one", "sint32"), F("index", "one", "message", 3), F("numbers", "one", "message", 1),
                           F("forests", "list", "message", 4)]),
        Message("ByValue", [F("v_" + k, "map", k, None, "string") for k in SCALARS + ["bytes"]]),
        Message("Codes", [F("one", "one", "enum", 1), F("by_code", "map", "enum", 1, "string"), F("codes", "list", "enum", 1)]),
        Message("Lists", [F(k + "s", "list", k) for k in SCALARS] + [F("blobs", "list", "bytes"), F("shades", "list", "enum", 2)]),
        Message("ByKey", [F("k_" + k, "map", "uint32", None, k) for k in KEYS] + [F("s", "map", "string", None, "string"), F("b", "map", "bytes", None, "uint64")]),
        Message("Shelf", [F("shade", "one", "enum", 2), F("lists", "one", "message", 7), F("keys", "list", "message", 8)]),
        Message("Box", [F("shape", "one", "enum", 3), F("shades", "map", "enum", 2, "int32")], 9),
    ]
    return Schema("rx", m, [Enum("Hue", ["WARM", "COLD", "GREY"]), WIDE, Enum("Shade", ["DARK", "LIGHT"], 9), Enum("Shape", ["ROUND", "FLAT", "LONG"], 10)], True)


def fixed_nested():
    """enums and maps that only nested messages have"""
    m = [
        Message("Wheel", [F("name", "one", "string"), F("spin", "one", "enum", 0), F("n", "one", "uint32")]),
        Message("Spoke", [F("tension", "one", "enum", 1), F("length", "one", "double")], 0),
        Message("Nipple", [F("sizes", "map", "sint64", None, "string"), F("id", "one", "uint64")], 1),
    ]
    return Schema("nx", m, [Enum("Spin", ["LEFT", "RIGHT"], 0), Enum("Tension", ["LOOSE", "OK", "TIGHT"], 1)], True)


# ------------------------------------------------------------ drawn schemas

NAMES = ["alpha", "beta_two", "gamma", "delta_x", "eps", "zeta_9", "eta", "theta_long_name", "iota", "kappa", "lam", "mu_3", "nu", "xi_o", "omi"]
TYPES = ["Order", "LineItem", "Account", "Event", "Payload", "Config", "Route", "Node"]


def ok_first(fields):
    """the first encoded part of a message must not be an absent message"""
    if any(f.card == "one" and f.kind != "message" for f in fields) or any(f.card == "list" for f in fields):
        return True
    rest = [f for f in fields if f.card == "map" or f.kind == "message"]
    return bool(rest) and rest[0].card == "map"


def drawn(name, seed, rust):
    g = random.Random("%s/%s/%s" % (seed, name, rust))
    n = g.randint(2, 6)
    names = g.sample(TYPES, n)
    enums = [Enum("Kind%d" % i, ["K%d_%s" % (i, c) for c in "ABCDEFG"[:g.randint(1, 7)]]) for i in range(g.randint(1, 2))]
    for i, e in enumerate(enums):
        if g.random() < 0.4:
            e.parent = g.randrange(n)
    msgs = []
    for i in range(n):
        parent = None
        if i > 0 and g.random() < 0.25:
            parent = g.randrange(i)
            if msgs[parent].parent is not None and g.random() < 0.5:
                parent = None
        while True:
            fs = []
            for f in g.sample(NAMES, g.randint(1, 7)):
                c = g.random()
                if c < 0.5:
                    k = g.choice(SCALARS + ["enum", "bytes", "string", "bytes"])
                    fs.append(F(f, "one", k, g.randrange(len(enums)) if k == "enum" else None))
                elif c < 0.65:
                    lim = i if rust else n  # recursive structs cannot be written in Rust
                    if lim:
                        fs.append(F(f, "one", "message", g.randrange(lim)))
                elif c < 0.83:
                    if g.random() < 0.5:
                        fs.append(F(f, "list", "message", g.randrange(n)))
                    else:
                        k = g.choice(SCALARS + ["enum", "bytes"])
                        fs.append(F(f, "list", k, g.randrange(len(enums)) if k == "enum" else None))
                else:
                    key = g.choice(KEYS)
                    v = g.random()
                    if v < 0.4:
                        fs.append(F(f, "map", "message", g.randrange(n), key))
                    elif v < 0.5:
                        fs.append(F(f, "map", "enum", g.randrange(len(enums)), key))
                    else:
                        fs.append(F(f, "map", g.choice(SCALARS + ["bytes"]), None, key))
            if fs and ok_first(fs):
                break
        msgs.append(Message(names[i], fs, parent))
    return Schema(name, msgs, enums, rust)


def schemas(seed, n_go, n_rust):
    out = [fixed_go(), fixed_rust(), fixed_nested()]
    out += [drawn("dg%d" % i, seed, False) for i in range(n_go)]
    out += [drawn("dr%d" % i, seed, True) for i in range(n_rust)]
    return out


def odd():
    """message shapes the format cannot tell apart (known findings only)"""
    m = [Message("OnlyNested", [F("a", "one", "message", 1), F("b", "one", "message", 1)]),
         Message("Tiny", [F("id", "one", "uint32")]),
         Message("Empty", []),
         Message("HoldsEmpty", [F("id", "one", "uint32"), F("e", "one", "message", 2), F("t", "one", "message", 1)]),
         Message("ManyEmpty", [F("es", "list", "message", 2)]),
         Message("Expr", [F("b", "one", "message", 6), F("u", "one", "message", 7)]),
         Message("Binary", [F("l", "one", "message", 5), F("r", "one", "message", 5)]),
         Message("Unary", [F("op", "one", "string"), F("x", "one", "message", 5)])]
    return Schema("odd", m, [], False)


# ------------------------------------------------------------ protobuf

def uv(x):
    b = b""
    while x > 127:
        b += bytes([x & 127 | 128])
        x >>= 7
    return b + bytes([x])


def num(tag, x):
    return uv(tag << 3) + uv(x)


def blob(tag, b):
    if isinstance(b, str):
        b = b.encode()
    return uv(tag << 3 | 2) + uv(len(b)) + b


def entry_name(f):
    return "".join(p.capitalize() for p in f.split("_")) + "Entry"


def enum_proto(e):
    return blob(1, e.name) + b"".join(blob(2, blob(1, v) + num(2, i)) for i, v in enumerate(e.values))


def enum_full(s, e):
    return (s.pkg if e.parent is None else s.full(s.msgs[e.parent])) + "." + e.name


def field_proto(name, n, label, kind, type_name, json=None):
    b = blob(1, name) + num(3, n) + num(4, label) + num(5, PB[kind])
    if type_name:
        b += blob(6, "." + type_name)
    return b + blob(10, name)


def tname(s, f):
    if f.kind == "message":
        return s.full(s.msgs[f.ref])
    if f.kind == "enum":
        return enum_full(s, s.enums[f.ref])
    return None


def msg_proto(s, i):
    m = s.msgs[i]
    b = blob(1, m.name)
    nested = b""
    for n, f in enumerate(m.fields):
        if f.card == "map":
            en = entry_name(f.name)
            nested += blob(3, blob(1, en) + blob(2, field_proto("key", 1, 1, f.key, None)) + blob(2, field_proto("value", 2, 1, f.kind, tname(s, f))) + blob(7, num(7, 1)))
            b += blob(2, field_proto(f.name, n + 1, 3, "message", s.full(m) + "." + en))
        else:
            b += blob(2, field_proto(f.name, n + 1, 3 if f.card == "list" else 1, f.kind, tname(s, f)))
    for j, k in enumerate(s.msgs):
        if k.parent == i:
            nested += blob(3, msg_proto(s, j))
    b += nested
    for e in s.enums:
        if e.parent == i:
            b += blob(4, enum_proto(e))
    return b


def file_proto(s):
    b = blob(1, s.name + ".proto") + blob(2, s.pkg)
    for i, m in enumerate(s.msgs):
        if m.parent is None:
            b += blob(4, msg_proto(s, i))
    for e in s.enums:
        if e.parent is None:
            b += blob(5, enum_proto(e))
    b += blob(8, blob(11, "example.com/%s;%s" % (s.pkg, s.pkg)))
    return b + blob(12, "proto3")


def request(s, param=""):
    b = blob(1, s.name + ".proto")
    if param:
        b += blob(2, param)
    return b + blob(15, file_proto(s))


def fields_of(b):
    i = 0
    while i < len(b):
        t = sh = 0
        while True:
            t |= (b[i] & 127) << sh
            i += 1
            sh += 7
            if b[i - 1] < 128:
                break
        w = t & 7
        v = sh = 0
        if w in (0, 2):
            while True:
                v |= (b[i] & 127) << sh
                i += 1
                sh += 7
                if b[i - 1] < 128:
                    break
        if w == 2:
            yield t >> 3, b[i:i + v]
            i += v
        elif w == 0:
            yield t >> 3, v
        else:
            raise ValueError("wire type %d" % w)


def response(b):
    """error, {file name: content}"""
    err, files = None, {}
    for t, v in fields_of(b):
        if t == 1:
            err = v.decode()
        elif t == 15:
            d = dict(fields_of(v))
            files[d.get(1, b"").decode()] = d.get(15, b"").decode()
    return err, files


# ------------------------------------------------------------ model and glue

def model(ss):
    out = []
    for s in ss:
        out.append({"Name": s.name, "Rust": s.rust, "Types": [{"Name": s.full(m), "Fields": [
            {"Name": f.name, "Card": {"one": 0, "list": 1, "map": 2}[f.card], "K": WIRE[f.kind], "Msg": f.ref if f.kind == "message" else -1,
             "Enum": len(s.enums[f.ref].values) if f.kind == "enum" else 0, "Key": WIRE[f.key] if f.key else 0} for f in m.fields]} for m in s.msgs]})
    return out


def plain(n):
    return re.sub("[^a-z0-9]", "", n.lower())


def find_names(src, pattern, s):
    """the generated type of every message, found by spelling"""
    have = {plain(x): x for x in re.findall(pattern, src, re.M)}
    out = []
    for m in s.msgs:
        n = plain(s.full(m))
        if n not in have:
            raise ValueError("no generated type for " + s.full(m))
        out.append(have[n])
    return out


def go_registry(per):
    """per: list of (schema, {version: source})"""
    import json
    imp, body = [], []
    for s, vs in per:
        for v, src in vs.items():
            ns = find_names(src, r"^type (\w+) struct", s)
            a = "%s_%s" % (s.name, v)
            imp.append('\t%s "verifsim/gen%s/%s"' % (a, v, s.name))
            body.append("\tgmsg.Register(%d, %s, []func() any{%s})" % (1 if v == "1" else 2, json.dumps(s.name), ", ".join("func() any { return %s.New%s() }" % (a, n) for n in ns)))
    return ("// Package genreg registers the generated messages.\npackage genreg\n\nimport (\n\t\"verifsim/gmsg\"\n%s\n)\n\nfunc init() {\n\tgmsg.Load(%s)\n%s\n}\n"
            % ("\n".join(imp), "`" + json.dumps(model([s for s, _ in per])) + "`", "\n".join(body)))


RK = {"bool": ("m.u64() != 0", "o(out, *x as u64)"), "float": ("f32::from_bits(m.u64() as u32)", "o(out, x.to_bits() as u64)"),
      "double": ("f64::from_bits(m.u64())", "o(out, x.to_bits())"), "string": ("String::from_utf8(m.blob()).unwrap()", "crate::blob(out, x.as_bytes())"),
      "bytes": ("m.blob()", "crate::blob(out, x)")}
for k in ("int32", "sint32", "sfixed32"):
    RK[k] = ("m.u64() as i32", "o(out, *x as i64 as u64)")
for k in ("int64", "sint64", "sfixed64"):
    RK[k] = ("m.u64() as i64", "o(out, *x as u64)")
for k in ("uint32", "fixed32"):
    RK[k] = ("m.u64() as u32", "o(out, *x as u64)")
for k in ("uint64", "fixed64"):
    RK[k] = ("m.u64()", "o(out, *x)")


def rust_glue(per):
    """per: list of (schema, source); returns ext.rs"""
    out = ["use crate::Msg;", "use std::io::Cursor;", "use std::panic::{catch_unwind, AssertUnwindSafe};", "use std::collections::HashMap;",
           "#[derive(Default)]\npub struct State {}", "// draws another iteration order for the maps to come\nfn spin(n: u8) { for _ in 0..n { let _ = std::collections::hash_map::RandomState::new(); } }",
           "fn o(out: &mut Vec<u8>, n: u64) { out.extend_from_slice(&n.to_le_bytes()) }"]
    arms_e, arms_d = [], []
    for si, (s, src) in enumerate(per):
        ns = find_names(src, r"^pub struct (\w+)", s)
        en = {plain(x): x for x in re.findall(r"^pub enum (\w+)", src, re.M)}
        q = s.name
        out.append("#[allow(warnings)]\nmod %s { include!(\"gen_%s.rs\"); }" % (q, q))
        for ti, m in enumerate(s.msgs):
            # generated field names, by spelling
            body = re.search(r"^pub struct %s \{(.*?)^\}" % ns[ti], src, re.S | re.M) or re.search(r"^pub struct %s \{(.*?)\}" % ns[ti], src, re.S | re.M)
            have = {plain(x): x for x in re.findall(r"pub (\w+):", body.group(1))}

            def rd(f):
                if f.kind == "message":
                    return "{ m.u8(); in_%s_%d(m) }" % (q, f.ref)
                if f.kind == "enum":
                    return "%s::%s::try_from(m.u64() as u32).unwrap()" % (q, en[plain(enum_full(s, s.enums[f.ref]))])
                return RK[f.kind][0]

            def wr(f):
                if f.kind == "message":
                    return "{ out.push(1); out_%s_%d(x, out) }" % (q, f.ref)
                if f.kind == "enum":
                    return "o(out, *x as u32 as u64)"
                return RK[f.kind][1]
            fi, fo = [], []
            for f in m.fields:
                n = have[plain(f.name)]
                if f.card == "one":
                    fi.append("%s: %s" % (n, rd(f)))
                    fo.append("{ let x = &v.%s; %s }" % (n, wr(f)))
                elif f.card == "list":
                    fi.append("%s: { let k = m.u32(); (0..k).map(|_| %s).collect() }" % (n, rd(f)))
                    fo.append("{ out.extend_from_slice(&(v.%s.len() as u32).to_le_bytes()); for x in &v.%s { %s } }" % (n, n, wr(f)))
                else:
                    fi.append("%s: { let k = m.u32(); let mut h = HashMap::new(); for _ in 0..k { let key = %s; let val = %s; h.insert(key, val); } h }" % (n, RK[f.key][0], rd(f)))
                    fo.append("{ out.extend_from_slice(&(v.%s.len() as u32).to_le_bytes()); for (key, x) in &v.%s { { let x = key; %s } %s } }" % (n, n, RK[f.key][1], wr(f)))
            out.append("#[allow(warnings)]\nfn in_%s_%d(m: &mut Msg) -> %s::%s {\n    %s::%s { %s }\n}" % (q, ti, q, ns[ti], q, ns[ti], ",\n        ".join(fi)))
            out.append("#[allow(warnings)]\nfn out_%s_%d(v: &%s::%s, out: &mut Vec<u8>) {\n    %s\n}" % (q, ti, q, ns[ti], "\n    ".join(fo)))
            arms_e.append("""        (%d, %d) => { spin(m.u8()); let v = in_%s_%d(m); let mut c = Cursor::new(m.blob()); let end = c.get_ref().len() as u64; c.set_position(end);
            match catch_unwind(AssertUnwindSafe(|| %s::Encode::encode(&v, &mut c).map(|_| ()).map_err(|e| e.to_string()))) {
                Ok(Ok(())) => { crate::ok(out); crate::blob(out, c.get_ref()) }
                Ok(Err(e)) => crate::fail(out, 1, &e),
                Err(p) => crate::fail(out, 2, &crate::panic_text(p)),
            } }""" % (si, ti, q, ti, q))
            arms_d.append("""        (%d, %d) => { let at = m.u32() as u64; let mut b = m.blob(); let mut c = Cursor::new(&mut b); c.set_position(at);
            let t0 = crate::total();
            let r = catch_unwind(AssertUnwindSafe(|| <%s::%s as %s::Decode>::decode(&mut c)));
            o(out, crate::total() - t0);
            match r.map(|x| x.map_err(|e| e.to_string())) {
                Ok(Ok(Some(v))) => { crate::ok(out); o(out, c.position()); out.push(1); out_%s_%d(&v, out) }
                Ok(Ok(None)) => { crate::ok(out); o(out, c.position()); out.push(0) }
                Ok(Err(e)) => crate::fail(out, 1, &e),
                Err(p) => crate::fail(out, 2, &crate::panic_text(p)),
            } }""" % (si, ti, q, ns[ti], q, q, ti))
    out.append("""#[allow(warnings)]
pub fn command(_st: &mut State, c: u8, m: &mut Msg, out: &mut Vec<u8>) {
    let (s, t) = (m.u8(), m.u8());
    match c {
        30 => match (s, t) {
%s
            _ => unsafe { crate::_exit(9) },
        },
        31 => match (s, t) {
%s
            _ => unsafe { crate::_exit(9) },
        },
        _ => { eprintln!("HARNESS: command {c}"); unsafe { crate::_exit(9) } }
    }
}""" % ("\n".join(arms_e), "\n".join(arms_d)))
    return "\n".join(out) + "\n"
