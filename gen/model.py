"""Schemas as data: text of the schema, adapters around the generated code and descriptors for
the engine (harness/gd).  Nothing here looks at the code under test."""
import struct

# schema name -> (rust type, engine type)
SC = {}
for names, rust, ty in [
    ("bool", "bool", "Bool"), ("byte int8", "i8", "I8"), ("ubyte uint8", "u8", "U8"), ("short int16", "i16", "I16"),
    ("ushort uint16", "u16", "U16"), ("int int32", "i32", "I32"), ("uint uint32", "u32", "U32"), ("long int64", "i64", "I64"),
    ("ulong uint64", "u64", "U64"), ("float float32", "f32", "F32"), ("double float64", "f64", "F64"),
]:
    for n in names.split():
        SC[n] = (rust, ty)
SIZE = {"bool": 1, "i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8}

KEYWORDS = {k: k + "_" for k in """as async await break const continue crate dyn else enum extern false fn for if impl in let loop
match mod move mut pub ref return self Self static struct super trait true unsafe use where while abstract become box do final
macro override priv try typeof unsized virtual yield""".split()}
KEYWORDS["type"] = "ty"


def fix(n):
    return KEYWORDS.get(n, n)


def snake(n):
    """for names that are snake case or CamelCase with single capitals"""
    out = ""
    for i, c in enumerate(n):
        if c.isupper():
            if i and n[i - 1] != "_":
                out += "_"
            out += c.lower()
        else:
            out += c
    return fix(out)


class Enum:
    kind = "enum"

    def __init__(self, name, base, vals, ns=(), group="", doc=""):
        self.name, self.base, self.ns, self.group = name, base, tuple(ns), group
        self.src = vals
        self.vals = []
        nxt = 0
        for v in vals:
            n, x = v if isinstance(v, tuple) else (v, None)
            if x is None:
                x = nxt
            lit = x
            x = int(x, 0) if isinstance(x, str) else x
            self.vals.append((n, x))
            nxt = x + 1

    def decl(self):
        def one(v):
            return "%s = %s" % v if isinstance(v, tuple) else v
        return "enum %s : %s { %s }" % (self.name, self.base, " , ".join(one(v) for v in self.src))


class Union:
    kind = "union"

    def __init__(self, name, alts, ns=()):
        """alts: table or (table, value)"""
        self.name, self.src, self.ns = name, alts, tuple(ns)
        self.alts = []
        nxt = 1
        for a in alts:
            t, x = a if isinstance(a, tuple) else (a, None)
            if x is None:
                x = nxt
            self.alts.append((t, x))
            nxt = x + 1

    def decl(self):
        def one(a):
            t, x = a if isinstance(a, tuple) else (a, None)
            return ref(t, self.ns) + ("" if x is None else " = %d" % x)
        return "union %s { %s }" % (self.name, " , ".join(one(a) for a in self.src))


class Table:
    kind = "table"

    def __init__(self, name, fields=(), ns=(), group="help"):
        self.name, self.ns, self.group = name, tuple(ns), group
        self.fields = list(fields)

    def decl(self):
        return "table %s { %s}" % (self.name, "".join(f.decl(self.ns) + " " for f in self.fields))


class Vec:
    kind = "vec"

    def __init__(self, of):
        self.of = of


class F:
    def __init__(self, name, ty, req=False, default=None, before=(), after=()):
        """before, after: further attributes around `required`"""
        self.name, self.ty, self.req, self.default = name, ty, req, default
        self.meta = list(before) + (["required"] if req else []) + list(after)

    def decl(self, ns):
        return "%s : %s%s%s ;" % (self.name, ref(self.ty, ns), "" if self.default is None else " = %s" % self.default, " ( %s )" % " , ".join(self.meta) if self.meta else "")


def ref(t, ns):
    if isinstance(t, str):
        return t
    if isinstance(t, Vec):
        return "[ %s ]" % ref(t.of, ns)
    if t.ns == tuple(ns):
        return t.name
    return ".".join(t.ns + (t.name,))


def is_scalar(t):
    return (isinstance(t, str) and t != "string") or isinstance(t, Enum)


def path(t, name=None):
    return "::".join(["g"] + [snake(n) for n in t.ns] + [name or fix(t.name)])


def int_lit(s):
    s = str(s)
    neg = s.startswith("-")
    s = s.lstrip("+-")
    x = int(s, 16) if s[:2].lower() == "0x" else int(s, 10)
    return -x if neg else x


def default_bits(f):
    t = f.ty
    if isinstance(t, Enum):
        if f.default is None:
            return None
        b = dict(t.vals)[f.default]
        return b & ((1 << 8 * SIZE[SC[t.base][0]]) - 1)
    if not is_scalar(t):
        return None
    rust = SC[t][0]
    d = f.default
    if d is None:
        return 0
    d = str(d)
    if rust == "bool":
        return {"true": 1, "false": 0}.get(d, None) if d in ("true", "false") else (1 if int_lit(d) else 0)
    if rust in ("f32", "f64"):
        body = d.lstrip("+-").lower()
        if body in ("inf", "infinity", "nan"):
            v = float(body)
        elif body.startswith("0x"):
            v = float.fromhex(body)
        else:
            v = float(body)
        if d.startswith("-"):
            v = -v
        if v != v:
            return 0x7FC00000 if rust == "f32" else 0x7FF8000000000000
        if rust == "f32":
            return struct.unpack("<I", to_f32(v))[0]
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    return int_lit(d) & ((1 << 8 * SIZE[rust]) - 1)


def to_f32(v):
    try:
        return struct.pack("<f", v)
    except OverflowError:
        return struct.pack("<f", float("inf") if v > 0 else float("-inf"))


class Schema:
    """One schema file.  items in the order in which they are declared."""

    def __init__(self, name, items, tail=""):
        self.name, self.items, self.tail = name, items, tail
        self.ids = {}
        self.parts = False
        self.inner = []

    def text(self):
        out, ns = [], ()
        for i in self.items:
            if i.ns != ns:
                assert i.ns, "no way back to the root"
                out.append("namespace %s ;" % ".".join(i.ns))
                ns = i.ns
            out.append(i.decl())
        return "\n".join(out) + "\n" + self.tail

    def n(self, t):
        return self.ids.setdefault(id(t), len(self.ids))

    # -------------------------------------------------------- adapters

    def mk(self, t, v):
        """expression building a reference or scalar from `v: &Val`"""
        if isinstance(t, str):
            if t == "string":
                return "fbb.create_string(text(%s))" % v
            return "sc::<%s>(%s)" % (SC[t][0], v)
        if isinstance(t, Enum):
            return "e%d(bits(%s))" % (self.n(t), v)
        if isinstance(t, Vec):
            return "{ let mut xs = Vec::new(); for w in items(%s) { xs.push(%s); } fbb.create_vector(&xs) }" % (v, self.mk(t.of, "w"))
        if isinstance(t, Table):
            return "b%d(fbb, tab(%s))" % (self.n(t), v)
        raise TypeError(t)

    def rd(self, t, x):
        """expression turning what an accessor gave into a Val"""
        if isinstance(t, str):
            return "Val::Str(%s.to_string())" % x if t == "string" else "rsc(%s)" % x
        if isinstance(t, Enum):
            return "Val::Sc(q%d(%s))" % (self.n(t), x)
        if isinstance(t, Vec):
            return "rvec(%s, |y| %s)" % (x, self.rd(t.of, "y"))
        if isinstance(t, Table):
            return "r%d(&%s)" % (self.n(t), x)
        raise TypeError(t)

    def tyd(self, t):
        if isinstance(t, str):
            return "TyD::Str" if t == "string" else "TyD::Sc(Ty::%s)" % SC[t][1]
        if isinstance(t, Enum):
            return "TyD::Enum(&E%d)" % self.n(t)
        if isinstance(t, Vec):
            return "TyD::Vec(&%s)" % self.tyd(t.of)
        if isinstance(t, Table):
            return "TyD::Tab(&T%d)" % self.n(t)
        return "TyD::Un(&U%d)" % self.n(t)

    def adapter(self):
        o = ["use gd::*;", "use gd::butte::{FlatBufferBuilder, WIPOffset};", "use gd::fbspec::Ty;"]
        for i in self.items:
            self.n(i)
        for i in self.items:
            getattr(self, "ad_" + i.kind)(i, o)
        o.append("pub static TABLES: &[&TableD] = &[%s];" % ", ".join("&T%d" % self.n(i) for i in self.items if isinstance(i, Table) and i.group != "help"))
        o.append("pub static ENUMS: &[&EnumD] = &[%s];" % ", ".join("&E%d" % self.n(i) for i in self.items if isinstance(i, Enum) and i.group))
        return "\n".join(o) + "\n"

    def ad_enum(self, e, o):
        n, p = self.n(e), path(e)
        r = SC[e.base][0]
        u = "u%d" % (8 * SIZE[r])
        lit = lambda x: "0x%x" % (x & ((1 << 8 * SIZE[r]) - 1))
        o.append("fn e%d(b: u64) -> %s { match b { %s, x => panic!(\"HARNESS: {}\", x) } }" % (n, p, ", ".join("%s => %s::%s" % (lit(x), p, fix(m)) for m, x in e.vals)))
        o.append("fn q%d(e: %s) -> u64 { match e { %s } }" % (n, p, ", ".join("%s::%s => %s" % (p, fix(m), lit(x)) for m, x in e.vals)))
        if not e.group:
            o.append('pub static E%d: EnumD = EnumD { name: "%s", group: "", decl: %s, base: Ty::%s, vals: &[%s], conv: |_| Err(String::new()), nth: |_| (0, 0, "", 0), default: || 0 };'
                     % (n, e.name, rs(e.decl()), SC[e.base][1], ", ".join('("%s", %d)' % v for v in e.vals)))
            return
        fn = "::".join(["g"] + [snake(x) for x in e.ns] + ["enum_name_" + snake(e.name)])
        conv = "|b| match <%s as std::convert::TryFrom<%s>>::try_from(b as %s) { Ok(e) => Ok((<%s as From<%s>>::from(e) as %s as u64, %s(e))), Err(e) => Err(format!(\"{:?}\", e)) }" % (p, r, r, r, p, u, fn)
        o.append("static V%d: &[%s] = &[%s];" % (n, p, ", ".join("%s::%s" % (p, fix(m)) for m, _ in e.vals)))
        nth = "|i| { let e = V%d[i]; (<%s as From<%s>>::from(e) as %s as u64, e as %s as %s as u64, %s(e), std::mem::size_of::<%s>()) }" % (n, r, p, u, r, u, fn, p)
        o.append('pub static E%d: EnumD = EnumD { name: "%s", group: "%s", decl: %s, base: Ty::%s, vals: &[%s], conv: %s, nth: %s, default: || q%d(<%s as Default>::default()) };'
                 % (n, e.name, e.group, rs(e.decl()), SC[e.base][1], ", ".join('("%s", %d)' % (fix(v[0]), v[1]) for v in e.vals), conv, nth, n, p))

    def tag_path(self, u):
        return "::".join(["g"] + [snake(n) for n in u.ns] + ["butte_gen", u.name + "Type"])

    def ad_union(self, u, o):
        n, p, tp = self.n(u), path(u), self.tag_path(u)
        o.append("fn ut%d(t: %s) -> u64 { match t { %s::None => 0, %s } }" % (n, tp, tp, ", ".join("%s::%s => %d" % (tp, fix(t.name), x) for t, x in u.alts)))
        arms = ", ".join("%d => (%s::%s, b%d(fbb, tab(x)).as_union_value())" % (k, tp, fix(t.name), self.n(t)) for k, (t, x) in enumerate(u.alts))
        o.append("fn bu%d<'b>(fbb: &mut FlatBufferBuilder<'b>, v: &Val) -> (%s, WIPOffset<gd::butte::UnionWIPOffset>) { let (i, x) = un(v); match i { %s, _ => unreachable!() } }" % (n, tp, arms))
        arms = ", ".join("%s::%s(t) => (%d, %d, r%d(&t))" % (p, fix(t.name), k, x, self.n(t)) for k, (t, x) in enumerate(u.alts))
        o.append("fn ru%d(u: %s<'_>) -> Val { let (i, t, v) = match u { %s }; if ut%d(u.get_type()) != t { return Val::Err(format!(\"get_type is {}\", ut%d(u.get_type()))); } Val::Un(i, Box::new(v)) }" % (n, p, arms, n, n))
        o.append('pub static U%d: UnionD = UnionD { name: "%s", alts: &[%s] };' % (n, u.name, ", ".join('("%s", &T%d, %d)' % (t.name, self.n(t), x) for t, x in u.alts)))

    def ad_table(self, t, o):
        n, p = self.n(t), path(t)
        args = path(t, fix(t.name) + "Args")
        can_default = all(not f.req or is_scalar(f.ty) for f in t.fields)
        pre, sets, lits, reads, fds = [], [], [], [], []
        slot = 0
        for f in t.fields:
            raw, acc = fix(f.name), snake(f.name)
            if isinstance(f.ty, Union):
                tacc = acc + "_type"
                un_ = self.n(f.ty)
                slot += 1
                pre.append("let x%d = on(&v[%d], |w| bu%d(fbb, w));" % (slot, slot, un_))
                none = self.tag_path(f.ty) + "::None"
                sets.append("if let Some((t, x)) = x%d { a.%s = t; a.%s = %s; }" % (slot, tacc, raw, "x" if f.req else "Some(x)"))
                if f.req:
                    lits += ["%s: x%d.unwrap().0" % (tacc, slot), "%s: x%d.unwrap().1" % (raw, slot)]
                else:
                    lits += ["%s: x%d.map(|x| x.0).unwrap_or(%s)" % (tacc, slot, none), "%s: x%d.map(|x| x.1)" % (raw, slot)]
                g = "rreq" if f.req else "ropt"
                reads.append("%s(t.%s(), |x| Val::Sc(ut%d(x)))" % (g, tacc, un_))
                reads.append("%s(t.%s(), |x| ru%d(x))" % (g, acc, un_))
                fds.append('FieldD { name: "%s", ty: TyD::Tag(&U%d), req: %s, def: None }' % (tacc, un_, rb(f.req)))
                fds.append('FieldD { name: "%s", ty: TyD::Un(&U%d), req: %s, def: None }' % (acc, un_, rb(f.req)))
            else:
                pre.append("let x%d = on(&v[%d], |w| %s);" % (slot, slot, self.mk(f.ty, "w")))
                sc = is_scalar(f.ty)
                if sc:
                    sets.append("if let Some(x) = x%d { a.%s = x; }" % (slot, raw))
                    d = default_bits(f)
                    if isinstance(f.ty, Enum):
                        dv = "e%d(0x%x)" % (self.n(f.ty), d if d is not None else f.ty.vals[0][1] & ((1 << 8 * SIZE[SC[f.ty.base][0]]) - 1))
                    else:
                        dv = "sc::<%s>(&Val::Sc(0x%x))" % (SC[f.ty][0], d)
                    lits.append("%s: x%d.unwrap_or(%s)" % (raw, slot, dv))
                else:
                    sets.append("a.%s = x%d;" % (raw, slot))
                    lits.append("%s: x%d%s" % (raw, slot, ".unwrap()" if f.req else ""))
                reads.append("%s(t.%s(), |x| %s)" % ("rreq" if f.req else "ropt", acc, self.rd(f.ty, "x")))
                d = default_bits(f)
                fds.append('FieldD { name: "%s", ty: %s, req: %s, def: %s }' % (acc, self.tyd(f.ty), rb(f.req), "None" if d is None else "Some(0x%x)" % d))
            slot += 1
        if can_default:
            mk = "let mut a = %s::default(); %s" % (args, " ".join(sets))
        else:
            mk = "let a = %s { %s };" % (args, ", ".join(lits))
        o.append("fn b%d<'b>(fbb: &mut FlatBufferBuilder<'b>, v: &[Val]) -> WIPOffset<%s<&'b [u8]>> { %s %s <%s<&[u8]>>::create(fbb, &a) }" % (n, p, " ".join(pre), mk, p))
        o.append("fn r%d<B: AsRef<[u8]>>(t: &%s<B>) -> Val { Val::Tab(vec![%s]) }" % (n, p, ", ".join(reads)))
        bld = path(t, fix(t.name) + "Builder")
        parts = "None"
        if self.parts and not t.ns:
            # private methods of the builder, used from the module of the generated code
            parts = "Some(g::__parts%d)" % n
            adds, k = [], 0
            for f in t.fields:
                acc = fix(f.name)
                if isinstance(f.ty, Union):
                    adds.append((k, "%s_type" % snake(f.name), "x%d.as_ref().unwrap().0" % (k + 1)))
                    adds.append((k + 1, acc, "x%d.as_ref().unwrap().1" % (k + 1)))
                    k += 2
                else:
                    adds.append((k, acc, "x%d.unwrap()" % k))
                    k += 1
            one = lambda a: "if mask[%d] { b.add_%s(%s); }" % a
            self.inner.append("pub fn __parts%d<'b>(fbb: &mut gd::butte::FlatBufferBuilder<'b>, v: &[gd::Val], mask: &[bool], rev: bool) -> u32 { use super::*; %s let mut b = self::%s::new(fbb); if rev { %s } else { %s } offset(b.finish()) }"
                              % (n, " ".join(pre), fix(t.name) + "Builder", " ".join(map(one, reversed(adds))), " ".join(map(one, adds))))
        o.append('pub static T%d: TableD = TableD { name: "%s", group: "%s", decl: %s, fields: &[%s], build: |f, v| offset(b%d(f, v)), read: |b| match %s::get_root(b) { Ok(t) => match routes(b, t) { None => r%d(&t), Some(e) => e }, Err(e) => err(e) }, read_vec: |b| { let q = prefixed(&b); let x = match %s::get_root(b) { Ok(t) => r%d(&t), Err(e) => err(e) }; let y = match gd::butte::get_size_prefixed_root::<%s<Vec<u8>>, _>(q) { Ok(t) => r%d(&t), Err(e) => err(e) }; agree(x, y) }, bare: |f| offset(%s::new(f).finish()), parts: %s };'
                 % (n, t.name, t.group, rs(t.decl()), ", ".join(fds), n, p, n, p, n, p, n, bld, parts))


def rb(b):
    return "true" if b else "false"


def rs(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
