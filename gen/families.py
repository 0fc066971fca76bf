"""The enumerated families of schemas, per property."""
import itertools
from model import *

SCALARS = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
ALIASES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


class Help:
    """types to refer to; a fresh copy for each schema file"""

    def __init__(self):
        self.e = Enum("E", "byte", [("A", -3), "B", ("C", 100)])
        self.e16 = Enum("Es", "ushort", ["P", ("Q", 513), ("R", 65535)])
        self.e64 = Enum("El", "long", [("X", -9223372036854775808), ("Y", 0), ("Z", 9223372036854775807)])
        self.l = Table("L", [F("v", "int"), F("s", "string")])
        self.m = Table("M", [F("x", "ubyte"), F("w", Vec("ushort"))])
        self.z = Table("Zero", [])
        self.u = Union("U", [self.l, self.m])
        self.items = [self.e, self.e16, self.e64, self.l, self.m, self.z, self.u]

    def types(self):
        """27 field types"""
        s = SCALARS + [self.e, self.e64, "string", self.l, self.u]
        s += [Vec("bool"), Vec("ubyte"), Vec("short"), Vec("int"), Vec("double"), Vec("string"), Vec(self.e), Vec(self.e16), Vec(self.l), Vec(Vec("ushort")), Vec(Vec("string"))]
        assert len(s) == 27
        return s

    def few(self):
        return ["ubyte", "ulong", self.e, "string", self.l, self.u, Vec("ushort"), Vec("string")]

    def some(self):
        return self.few() + ["bool", "short", "double", Vec(self.l)]

    def all(self):
        """every type there is, vectors up to six times nested"""
        base = SCALARS + ALIASES + [self.e, self.e16, self.e64, "string", self.l, self.m, self.z]
        return base + [self.u] + [Vec(t) for t in base] + [Vec(Vec(t)) for t in base] + [Vec(Vec(Vec(t))) for t in ["bool", "double", "string", self.e16, self.l]] + \
            [Vec(Vec(Vec(Vec(t)))) for t in ["ubyte", "string", self.e, self.l]] + [Vec(Vec(Vec(Vec(Vec(t))))) for t in ["ushort", "string"]] + [Vec(Vec(Vec(Vec(Vec(Vec("int"))))))]


def chunked(name, group, make, n, per):
    """schema files with `per` tables each; make(help, i) -> fields of table i"""
    out = []
    for k, lo in enumerate(range(0, n, per)):
        h = Help()
        ts = [Table("T%d" % i, make(h, i), group=group) for i in range(lo, min(n, lo + per))]
        out.append(Schema("%s%d" % (name, k), h.items + ts))
    return out


def singles():
    n = len(Help().all())

    def make(h, i):
        return [F("f", h.all()[i // 2], req=i % 2 == 1)]
    return chunked("single", "single", make, 2 * n, 30)


BASES = ["byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def bases():
    """an enum of every base, alone, between other fields and in vectors"""
    out = []
    for k, b in enumerate(BASES):
        bits = 8 * SIZE[SC[b][0]]
        lo, hi = (0, (1 << bits) - 1) if SC[b][0][0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        e = Enum("E", b, [("A", lo), ("B", (lo + hi) // 2), ("C", hi)])
        shapes = [[F("f", e)], [F("f", e, req=True)], [F("f", e, default="C")], [F("f", Vec(e))], [F("f", Vec(e), req=True)], [F("f", Vec(Vec(e)))],
                  [F("x", "ubyte"), F("f", e)], [F("f", e), F("x", "ubyte")], [F("f", e), F("g", e, default="B")], [F("x", "ubyte"), F("f", e), F("v", Vec(e)), F("y", "ulong")]]
        out.append(Schema("base%d" % k, [e] + [Table("T%d" % i, fs, group="single") for i, fs in enumerate(shapes)]))
    return out


def pairs(tier, step=1):
    k = len(Help().types())
    idx = [(a, b) for a in range(k) for b in range(k)]

    def make(h, i):
        a, b = idx[i]
        t = h.types()
        return [F("a", t[a]), F("b", t[b])]
    return chunked("pair", "pair", make, len(idx), 60)


def triples(tier):
    """quick: all triples of 12 types; thorough: of all 27"""
    sel = (lambda h: h.some()) if tier == "quick" else (lambda h: h.types())
    k = len(sel(Help()))
    idx = list(itertools.product(range(k), repeat=3))

    def make(h, i):
        t = sel(h)
        return [F("a", t[idx[i][0]]), F("b", t[idx[i][1]]), F("c", t[idx[i][2]])]
    return chunked("triple", "triple", make, len(idx), 60)


def wide():
    def make(h, i):
        t = h.types()
        t = t[i * 7:] + t[:i * 7]
        if i == 3:
            t.reverse()
        # some required, some with defaults
        out = []
        for k, x in enumerate(t):
            d = None
            if i % 2 and isinstance(x, str) and x not in ("string", "bool"):
                d = "7"
            out.append(F("f%d" % k, x, req=(i >= 2 and k % 5 == 2 and d is None), default=d))
        return out
    return chunked("wide", "wide", make, 4, 2)


def huge():
    """more fields than fit a byte-sized slot offset, all types in turn"""
    def make(h, i):
        t = h.types() if i < 2 else ["ubyte", "int", "string", "short", h.e]
        n = [140, 300, 1100][i]
        return [F("f%d" % k, t[(k * (5 if i == 1 else 1)) % len(t)]) for k in range(n)]
    return chunked("huge", "huge", make, 3, 1)


ODD = ["type", "aB", "a_c", "Match", "fooBarBaz", "Q2", "HttpCode", "ty", "v1", "self", "table", "value", "buf", "fbb"]


def odd():
    """names that are changed on the way, next to each other"""
    idx = [(a, b) for a in range(len(ODD)) for b in range(len(ODD)) if a != b]
    bad = {("type", "ty"), ("ty", "type")}

    def make(h, i):
        a, b = ODD[idx[i][0]], ODD[idx[i][1]]
        if (a, b) in bad:
            b = "zz"
        return [F(a, "int"), F(b, "string"), F("q", "int", default="4")]
    return chunked("odd", "odd", make, len(idx), 60)


def nest():
    a = Table("A", group="nest")
    b = Table("B", group="nest")
    u = Union("U", [a, b])
    v = Union("V", [b])
    a.fields = [F("x", "short"), F("a", a), F("b", b), F("u", u)]
    b.fields = [F("s", "string"), F("as", Vec(a)), F("v", v)]
    c = Table("C", [F("r", a, req=True), F("w", Vec(b), req=True)], group="nest")
    d = Table("D", [F("u", u, req=True), F("v", v)], group="nest")
    out = [Schema("nest0", [a, b, u, v, c, d])]
    # the same across namespaces
    a = Table("A", ns=("p",), group="nest")
    u = Union("U", [], ns=("p", "q"))
    b = Table("B", ns=("p", "q"), group="nest")
    c = Table("C", ns=("o",), group="nest")
    e = Enum("E", "short", ["K", ("L", -2)], ns=("o",))
    d = Table("D", [F("x", "short"), F("a", a)], ns=("p", "q"))
    u.__init__("U", [(d, None), (b, 7)], ns=("p", "q"))
    a.fields = [F("b", b), F("u", u), F("e", e, default="L")]
    b.fields = [F("a", a), F("cs", Vec(c)), F("es", Vec(e))]
    c.fields = [F("u", u), F("e", e)]
    out.append(Schema("nest1", [a, u, b, d, c, e]))
    return out


# ---------------------------------------------------------------- defaults

INTS = {"byte": 8, "short": 16, "int": 32, "long": 64}
INTS.update({"int8": 8, "int16": 16, "int32": 32, "int64": 64})
UINTS = {"ubyte": 8, "ushort": 16, "uint": 32, "ulong": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def literals(t):
    if t == "bool":
        return [None, "true", "false"]
    if t in INTS:
        m = 1 << (INTS[t] - 1)
        return [None, "0", "1", "-1", str(m - 1), str(-m), "-%s" % hex(5), hex(m - 1), "-" + hex(m), "+3", "042", "-0", str(m // 2), "100", "-100"]
    if t in UINTS:
        m = 1 << UINTS[t]
        return [None, "0", "1", str(m - 1), hex(m - 1), hex(m // 2), str(m // 2), str(m // 2 - 1), "+3", "007", "-0", "200"]
    fl = [None, "0", "1", "-1", "0.5", "-0.25", "1e3", "1.5e-3", "-2.5E+2", ".5", "5.", "0x1p3", "-0x1.8p1", "0x.8p0", "inf", "-inf", "+inf", "infinity", "-infinity",
          "nan", "-nan", "0.1", "3.14159265358979", "16777217", "123456789", "1e-10", "1e10"]
    if t in ("double", "float64"):
        fl += ["1.7976931348623157e308", "-1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "9007199254740993", "1e300"]
    else:
        fl += ["3.4028234663852886e38", "-3.4028234663852886e38", "1.1754943508222875e-38", "1e-45", "0.3"]
    return fl


def defaults(tier):
    idx = []
    for t in SCALARS + ALIASES:
        for l in literals(t):
            idx.append((t, l, False))
            idx.append((t, l, True))
    out = []
    for k, lo in enumerate(range(0, len(idx), 60)):
        h = Help()
        ts = [Table("T%d" % i, [F("x", t, default=l, req=r)], group="def") for i, (t, l, r) in list(enumerate(idx))[lo:lo + 60]]
        out.append(Schema("def%d" % k, ts))
    # enums: every base, every value
    ts, items = [], []
    for b, base in enumerate(list(INTS) + list(UINTS)):
        signed = base in INTS
        bits = INTS.get(base) or UINTS[base]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        e = Enum("E%d" % b, base, [("Lo", lo), ("B", lo + 5), "C", ("Z", 0) if signed else ("Z", 17), ("Hi", hi)])
        items.append(e)
        for d in [None, "Lo", "B", "C", "Z", "Hi"]:
            ts.append(Table("T%d" % len(ts), [F("x", e, default=d), F("y", "ubyte", default="9"), F("z", e, default=d)], group="def"))
        ts.append(Table("T%d" % len(ts), [F("x", e, default="B", req=True)], group="def"))
    for k, lo in enumerate(range(0, len(ts), 56)):
        use = ts[lo:lo + 56]
        es = [e for e in items if any(f.ty is e for t in use for f in t.fields)]
        out.append(Schema("defenum%d" % k, es + use))
    # many at once
    h = Help()
    fs = []
    for i, t in enumerate(SCALARS):
        ls = literals(t)
        fs.append(F("a%d" % i, t, default=ls[1]))
        fs.append(F("b%d" % i, t, default=ls[-1]))
    fs.append(F("e", h.e, default="B"))
    fs.append(F("s", "string"))
    w1 = Table("W1", fs, group="defs")
    w2 = Table("W2", [F(f.name, f.ty, default=f.default, req=f.req) for f in reversed(fs)], group="defs")
    w3 = Table("W3", [F("a", "int", default="7"), F("u", h.u), F("b", "short", default="-7"), F("l", h.l), F("c", "ubyte", default="7"), F("v", Vec("int")), F("d", "double", default="7")], group="defs")
    out.append(Schema("defs", h.items + [w1, w2, w3]))
    # many values
    for k, (b, n) in enumerate([("ubyte", 7), ("ubyte", 8), ("byte", 20), ("ushort", 60), ("int", 120)]):
        e = Enum("E", b, [(odd_value(i), i * 2 - (40 if b == "byte" else 0)) if i % 3 or not i else odd_value(i) for i in range(n)])
        out.append(Schema("defvals%d" % k, [e] + [Table("T%d" % lo, [F("f%d" % i, e, default=e.vals[i][0]) for i in range(lo, min(n, lo + 60))], group="defmany") for lo in range(0, n, 60)]))
    # many literals of each type
    for k, t in enumerate(SCALARS):
        ls = many_literals(t)
        for j, lo in enumerate(range(0, len(ls), 60)):
            out.append(Schema("defmany%d_%d" % (k, j), [Table("T", [F("f%d" % i, t, default=l) for i, l in enumerate(ls[lo:lo + 60])], group="defmany")]))
    return out


def odd_value(i):
    """names of values: in part keywords, in part long"""
    return (["A", "match", "self_", "fooBar", "type", "b_c", "X_", "_y"] + ["Val%d" % k if k % 5 else "value_with_a_long_name_that_goes_on_%d" % k for k in range(8, 300)])[i]


def many_literals(t):
    """powers of two and ten, their neighbours and negatives, numbers of many digits"""
    if t == "bool":
        return []
    xs = set()
    for k in range(64):
        xs |= {1 << k, (1 << k) - 1, (1 << k) + 1}
    for k in range(20):
        xs |= {10 ** k, 10 ** k - 1, 10 ** k + 1, int("123456789" * 3) // 10 ** k}
    xs |= {-x for x in xs}
    if t in INTS or t in UINTS:
        lo, hi = (-(1 << INTS[t] - 1), (1 << INTS[t] - 1) - 1) if t in INTS else (0, (1 << UINTS[t]) - 1)
        return [str(x) if i % 3 else ("-" if x < 0 else "") + hex(abs(x)) for i, x in enumerate(sorted(x for x in xs if lo <= x <= hi))]
    out = [str(x) for x in sorted(xs) if abs(x) < 10 ** 18][::3]
    for k in range(-12, 13):
        out += ["1e%d" % k, "-2.5e%d" % k, "%de%d" % (123456789, k)]
    for k in range(1, 22):
        d = "1234567890123456789012"[:k]
        out += ["0." + d, d + "." + d, "-." + d, "0." + "0" * k + "7", d + ".0", "0x%sp%d" % (d[:12], k - 10), "0x1.%sp-%d" % (d[:12], k)]
    return out


# ---------------------------------------------------------------- evolution

def evolution(tier):
    """pairs (old schema, new schema, [(old table, new table)])"""
    out = []
    # every field list over 8 types of length up to 3, cut everywhere
    k = 8
    seqs = [s for n in (1, 2, 3) for s in itertools.product(range(k), repeat=n)]
    if tier == "quick":
        seqs = [s for s in seqs if len(s) < 3 or len(set(s)) == 3]
    per = 60
    files = []
    for c, lo in enumerate(range(0, len(seqs), per)):
        h = Help()
        ts = {}
        for s in seqs[lo:lo + per]:
            for cut in range(0, len(s) + 1):
                if s[:cut] not in ts:
                    t = h.few()
                    ts[s[:cut]] = Table("T" + "_".join(map(str, s[:cut])), [F("f%d" % i, t[x]) for i, x in enumerate(s[:cut])], group="evo")
        sch = Schema("evo%d" % c, h.items + list(ts.values()))
        ps = [(ts[s[:cut]], ts[s]) for s in seqs[lo:lo + per] for cut in range(0, len(s))]
        files.append((sch, sch, ps))
    out += files
    # added fields with defaults, required old ones, namespaces unchanged
    h = Help()
    base = [F("a", "int", default="5"), F("r", "string", req=True), F("e", h.e, default="C")]
    more = [F("n0", "short", default="-4"), F("n1", h.e, default="B"), F("n2", h.u), F("n3", Vec(h.l)), F("n4", "double", default="nan"), F("n5", h.e16)]
    ts = [Table("D%d" % i, [F(f.name, f.ty, f.req, f.default) for f in base + more[:i]], group="evo") for i in range(len(more) + 1)]
    sch = Schema("evodef", h.items + ts)
    out.append((sch, sch, [(ts[i], ts[j]) for i in range(len(ts)) for j in range(i + 1, len(ts))]))
    # enum values and union alternatives appended, fields appended to nested tables
    for vo, vn in [(1, 2), (2, 3), (1, 3), (2, 2), (3, 3)]:
        schemas, tabs = [], []
        for ver in (vo, vn):
            n = len(schemas)
            e = Enum("E", "short", [("A", -1), ("B", 5), ("C", 300)][:ver])
            f = Enum("Q", "ubyte", ["A", "B", "C"][:ver])
            l = Table("L", [F("v", "int"), F("s", "string"), F("e", e, default="A")][:ver])
            m = Table("M", [F("x", "ubyte"), F("y", Vec(e)), F("z", "long", default="3")][:ver])
            o = Table("O", [F("q", f), F("w", Vec(l))][:max(1, ver - 1)])
            u = Union("U", [(l, None), (m, None), (o, 9)][:ver])
            w = Union("W", [o, l, m][:ver])
            t1 = Table("R1", [F("e", e), F("es", Vec(e)), F("q", f, default="A"), F("qs", Vec(f))], group="evo")
            t2 = Table("R2", [F("u", u), F("x", "int"), F("w", w)], group="evo")
            t3 = Table("R3", [F("l", l), F("ms", Vec(m)), F("ur", u, req=True), F("er", e, req=True)], group="evo")
            schemas.append(Schema("evo_%d_%d_%s" % (vo, vn, "old" if n == 0 else "new"), [e, f, l, m, o, u, w, t1, t2, t3]))
            tabs.append([t1, t2, t3])
        out.append((schemas[0], schemas[1], list(zip(*tabs))))
    # tables of many fields, extended by one, by some and by many
    for c, ns in enumerate([list(range(4, 24)), list(range(29, 37)), [61, 62, 63, 64, 65, 66], [125, 126], [127, 128], [129, 140], [253, 254], [255, 256], [257, 300]]):
        h = Help()
        t = h.few() + h.types()
        ts = [Table("W%d" % n, [F("f%d" % i, t[i % len(t)]) for i in range(n)], group="evowide") for n in ns]
        if ns[0] > 4:
            ts.insert(0, Table("W0", [F("f0", t[0])], group="evowide"))
        sch = Schema("evowide%d" % c, h.items + ts)
        out.append((sch, sch, [(ts[i], ts[j]) for i in range(len(ts)) for j in range(i + 1, len(ts)) if j == i + 1 or i == 0 or j == len(ts) - 1]))
    # enums and unions of many values, extended
    for vo, vn in [(3, 4), (7, 8), (8, 20), (20, 100), (100, 200), (126, 130)]:
        schemas, tabs = [], []
        for n, ver in enumerate((vo, vn)):
            e = Enum("E", "ubyte", ["V%d" % i for i in range(ver)])
            f = Enum("Q", "short", [("A", -100)] + ["V%d" % i for i in range(1, ver)])
            a = [Table("A%d" % i, [F("x", "int")] if i % 2 else [F("s", "string")]) for i in range(ver)]
            u = Union("U", list(a))
            t1 = Table("R1", [F("e", e), F("q", f), F("es", Vec(e)), F("qs", Vec(f))], group="evowide")
            t2 = Table("R2", [F("u", u), F("x", "int")], group="evowide")
            schemas.append(Schema("evobig_%d_%d_%s" % (vo, vn, "old" if n == 0 else "new"), [e, f] + a + [u, t1, t2]))
            tabs.append([t1, t2])
        out.append((schemas[0], schemas[1], list(zip(*tabs))))
    return out


# ---------------------------------------------------------------- enums

def enums(tier):
    files = []
    items, n = [], 0
    for base in list(INTS) + list(UINTS):
        signed = base in INTS
        bits = INTS.get(base) or UINTS[base]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        mid = (lo + hi) // 2
        lists = [
            ["A"],
            ["A", "B", "C"],
            ["A", ("B", 5), "C", "D"],
            [("A", 3), "B", ("C", 10), ("D", 11), "E"],
            [("A", lo), "B", ("C", mid), "D", ("E", hi)],
            [("A", hi)],
            [("A", lo)],
            [("A", hi - 2), "B", "C"],
            [("A", "0x10"), "B", ("C", "0x7f")],
            [("A", 1), ("B", 2), ("C", 4), ("D", 8), ("E", 16), ("F", 32), ("G", 64)],
            ["alpha_beta", "GammaDelta", "EPSILON", "zeta9"],
        ]
        if signed:
            lists += [[("A", -1), "B", "C"], [("A", -128), ("B", -2), "C", ("D", 3), "E"], [("A", -3), "B", "C", "D", "E"]]
        else:
            lists += [[("A", hi // 2), "B", "C"], [("A", 100), "B", ("C", 200), "D"]]
        # every way to give or leave out three values (quick: byte and ulong only)
        if tier != "quick" or base in ("byte", "ulong", "short", "uint"):
            steps = [None, 1, 2, 7]
            for pat in itertools.product(steps, repeat=3):
                cur, l, last = None, [], (lo if signed else 0) + 50 if bits == 8 else 50
                nxt = 0
                for i, s in enumerate(pat):
                    if s is None:
                        l.append("V%d" % i)
                        v = nxt
                    else:
                        v = (nxt - 1 if nxt else -1) + s if i or not signed else -s
                        v = max(v, nxt) if not (i == 0 and signed) else v
                        l.append(("V%d" % i, v))
                    nxt = v + 1
                lists.append(l)
        for l in lists:
            e = Enum("E%d" % n, base, l, group="enum")
            t = Table("T%d" % n, [F("x", e), F("v", Vec(e)), F("y", "ubyte")], group="enumtab")
            items += [e, t]
            n += 1
    # many values
    items.append(Enum("Big", "short", ["V%d" % i for i in range(300)], group="enum"))
    items.append(Enum("All", "ubyte", ["V%d" % i for i in range(256)], group="enum"))
    items.append(Table("TAll", [F("x", items[-1]), F("v", Vec(items[-1])), F("y", "ubyte")], group="enumtab"))
    items.append(Enum("Neg", "byte", [("V", -128)] + ["W%d" % i for i in range(255)], group="enum"))
    items.append(Enum("kw", "int", ["type", "match", "Self", "fn", "true"], group="enum"))
    items.append(Enum("InNs", "int", ["X", "Y"], group="enum", ns=("a", "B")))
    for k, lo in enumerate(range(0, len(items), 50)):
        part = items[lo:lo + 50]
        files.append(Schema("enum%d" % k, part))
    # a table and its enum may be torn apart by the chunks
    for s in files:
        pass
    return fix_chunks(files)


def fix_chunks(files):
    for i, s in enumerate(files):
        extra = []
        for it in s.items:
            if isinstance(it, Table):
                for f in it.fields:
                    b = f.ty
                    while isinstance(b, Vec):
                        b = b.of
                    if not isinstance(b, str) and b not in s.items and b not in extra:
                        extra.append(b)
        s.items = extra + s.items
    return files


# ---------------------------------------------------------------- unions

def unions(tier):
    out = []

    def alts(n):
        """n tables with different shapes"""
        ty = ["int", "string", "ubyte", Vec("short"), "double", Vec("string"), "bool", "ulong"]
        return [Table("A%d" % i, [F("f%d" % j, ty[(i + j) % len(ty)]) for j in range(i % 3 + (i != 4))]) for i in range(n)]

    # any number of alternatives
    for n in [1, 2, 3, 4, 5, 8] + ([16, 40, 255] if tier == "quick" else [6, 7] + list(range(9, 41)) + [100, 254, 255]):
        a = alts(n)
        u = Union("U", list(a))
        ts = [Table("T", [F("u", u)], group="uni"), Table("S", [F("x", "short"), F("u", u, req=True), F("y", "string")], group="uni")]
        out.append(Schema("uni%d" % n, a + [u] + ts))
    # explicit values
    pats = list(itertools.product([None, 0, 1, 5], repeat=3))
    for k, pat in enumerate(pats):
        a = alts(3)
        l, nxt = [], 1
        for t, s in zip(a, pat):
            if s is None:
                v = nxt
                l.append(t)
            else:
                v = nxt + s
                l.append((t, v))
            nxt = v + 1
        u = Union("U", l)
        out.append(Schema("unival%d" % k, a + [u, Table("T", [F("u", u)], group="uni")]))
    a = alts(4)
    out.append(Schema("unihigh", a + [Union("U", [(a[0], 250), a[1], (a[2], 254), a[3]])]))
    u = out[-1].items[-1]
    out[-1].items.append(Table("T", [F("u", u)], group="uni"))
    # a union behind many fields
    for k, n in enumerate([20, 61, 62, 63, 64, 125, 126, 127, 128, 253, 300]):
        a = alts(3)
        u = Union("U", [a[0], (a[1], 9), a[2]])
        out.append(Schema("unifar%d" % k, a + [u, Table("T", [F("f%d" % i, ["ubyte", "int", "string"][i % 3]) for i in range(n)] + [F("u", u, req=bool(k % 2)), F("w", u)], group="unifar")]))
    # several unions among other fields, in any order
    for k, order in enumerate(itertools.permutations(range(4))):
        a = alts(5)
        u, v = Union("U", [a[0], a[1], a[2]]), Union("V", [a[2], (a[3], 5), a[1]])
        fs = [F("u", u), F("v", v), F("n", "int"), F("s", "string")]
        ts = [Table("T", [fs[i] for i in order], group="uni")]
        if k % 6 == 0:
            ts.append(Table("W", [F("a", u), F("b", u), F("c", v, req=True)], group="uni"))
        out.append(Schema("unimix%d" % k, a + [u, v] + ts))
    # union and table in different namespaces
    for k, (nu, nt) in enumerate(itertools.product([("p",), ("p", "q"), ("o",), ("p", "q", "r")], repeat=2)):
        a = [Table("A%d" % i, [F("f", ["int", "string"][i])], ns=nu) for i in range(2)]
        u = Union("U", list(a), ns=nu)
        out.append(Schema("unins%d" % k, a + [u, Table("T", [F("x", "int"), F("u", u)], ns=nt, group="uni")]))
    return out


# ---------------------------------------------------------------- required

def required(tier):
    h0 = Help()
    n = len(h0.few())
    idx = [(s, r) for k in (1, 2, 3) for s in itertools.product(range(n), repeat=k) for r in itertools.product([False, True], repeat=k)]
    if tier == "quick":
        idx = [(s, r) for s, r in idx if len(s) < 3 or (s[0] < s[1] < s[2] and sum(r) >= 1)]

    def make(h, i):
        s, r = idx[i]
        t = h.few()
        return [F("f%d" % k, t[x], req=q) for k, (x, q) in enumerate(zip(s, r))]
    out = chunked("req", "req", make, len(idx), 60)
    k = len(Help().types())

    def make1(h, i):
        t = h.types()[i // 2]
        d = None
        if i % 2 and isinstance(t, str) and t not in ("string", "bool"):
            d = "3"
        if i % 2 and isinstance(t, Enum):
            d = t.vals[-1][0]
        return [F("a_b", t, req=True, default=d), F("type", "int"), F("Mixed", "short", req=bool(i % 2))]
    out += chunked("reqone", "req", make1, 2 * k, 54)

    def make2(h, i):
        n, which = [(30, 0), (70, 1), (70, 2), (140, 0), (140, 1), (140, 3), (260, 2), (260, 3), (20, 3), (40, 2)][i]
        t = h.few() + h.types()
        out = []
        for j in range(n):
            ref = not is_scalar(t[j % len(t)])
            out.append(F("f%d" % j, t[j % len(t)], req=[True, j % 3 == 1, j == n - 1, j in (n // 2, n - 3) and ref][which]))
        return out
    out += chunked("reqwide", "reqwide", make2, 10, 1)
    # among other attributes
    attrs = ["key", "x : 1", "required_ : \"s\"", "not_required", "y : 2.5", "Required : true", "id2 : -1", "z"]
    lists = [(a, b) for a in range(6) for b in range(6)]

    def make3(h, i):
        a, b = lists[i]
        t = h.few()
        return [F("f%d" % k, t[(i * 3 + k * 5) % len(t)], req=q, before=attrs[:a], after=attrs[a:a + b] if k < 2 else attrs[::-1][:b]) for k, q in enumerate([True, False, True])]
    out += chunked("reqmeta", "req", make3, len(lists), 36)
    return out


def family(prop, tier):
    """-> schemas, pairs"""
    if prop in ("C10", "C12"):
        return singles() + bases() + pairs(tier) + triples(tier) + wide() + huge() + odd() + nest(), []
    if prop == "C13":
        return defaults(tier), []
    if prop == "C14":
        ss, ps = [], []
        for old, new, l in evolution(tier):
            for s in (old, new):
                if s not in ss:
                    ss.append(s)
            ps += [(old, a, new, b) for a, b in l]
        return ss, ps
    if prop == "C15":
        return enums(tier), []
    if prop == "C16":
        return unions(tier), []
    if prop == "C17":
        ss = required(tier)
        for s in ss:
            s.parts = True
        return ss, []
    raise KeyError(prop)
