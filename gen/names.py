"""C11: schemas that could lead to code that does not compile, or without the documented names."""
import itertools
from model import *

STRICT = sorted(KEYWORDS)
WEAK = "union auto default raw macro_rules gen dyn_ safe".split()
OTHER = """Option Some None Ok Err Result Vec String Box str char bool i8 u8 i16 u16 i32 u32 i64 u64 i128 f32 f64 usize isize std core alloc butte
butte_gen B __B T A U Table Args Builder create new finish get_root follow follow_buf from into default table fbb start args builder o x
buf loc value e scalar From Into Default Follow FollowBuf TryFrom TryInto Push Copy Clone Debug PartialEq Eq PartialOrd Ord Hash VTable Vector
WIPOffset Error Inner Buf Output push convert AsRef static_ type_ ty ty_ fn_ a b bldr mut_bldr Sized Send Sync Drop Fn Iterator drop clone eq
format vec println panic derive inline allow test cfg doc repr main r self_ Self_ _ _x x_ __ _1 x1 X A1 aB AB ABc aBC a_b A_B a__b HTTPServer
TryFrom UType get_type Type type_type ubyte int string double float root_type table_ enum_name_e VT_A vt_a add_a""".split()


def uniq(l):
    return list(dict.fromkeys(l))


NAMES = uniq(STRICT + WEAK + OTHER)


def probe_ok(n):
    """names whose generated form is beyond doubt"""
    return n in KEYWORDS and n != "Self" or n.isalpha() and n.islower()


# every scalar type, with and without a default, in vectors, required
EVERY = " ".join("%s%d : %s ; %sd%d : %s = %s ; %sv%d : [ %s ] ; %sr%d : %s ( required ) ;" % ("f", i, t, "f", i, t, "true" if t == "bool" else "3", "f", i, t, "f", i, t) for i, t in enumerate("bool byte ubyte short ushort int uint long ulong float double".split())) + " fs : string ; fvs : [ string ] ;"

POS = {
    "table": lambda n: "table %s { x : int ; s : string ; }" % n,
    "table_self": lambda n: "table %s { x : %s ; v : [ %s ] ; r : %s ( required ) ; }" % (n, n, n, n),
    "field": lambda n: "table Tt { %s : int ; }" % n,
    "field_default": lambda n: "table Tt { %s : float = 2.5 ; q : bool = true ; }" % n,
    "field_ref": lambda n: "table Tt { %s : string ; r : Tt ; v : [ Tt ] ; }" % n,
    "field_req": lambda n: "table Tt { %s : [ string ] ( required ) ; k : int ( required ) ; }" % n,
    "field_union": lambda n: "table Aa { } union Uu { Aa } table Tt { %s : Uu ; }" % n,
    "field_union_req": lambda n: "table Aa { } union Uu { Aa } table Tt { %s : Uu ( required ) ; }" % n,
    "field_enum": lambda n: "enum Ee : byte { P , Q } table Tt { %s : Ee = Q ; d : Ee ; }" % n,
    "enum": lambda n: "enum %s : short { P , Q } table Tt { x : %s ; y : %s = Q ; v : [ %s ] ; z : %s ( required ) ; }" % (n, n, n, n, n),
    "value": lambda n: "enum Ee : ubyte { %s , Zz } table Tt { x : Ee ; y : Ee = %s ; }" % (n, n),
    "value2": lambda n: "enum Ee : long { Zz = -1 , %s } table Tt { y : Ee = %s ( required ) ; }" % (n, n),
    "union": lambda n: "table Aa { } table Bb { } union %s { Aa , Bb } table Tt { x : int ; u : %s ; r : %s ( required ) ; }" % (n, n, n),
    "alternative": lambda n: "table %s { x : int ; } table Bb { } union Uu { Bb , %s } table Tt { u : Uu ; r : Uu ( required ) ; }" % (n, n),
    "namespace": lambda n: "namespace %s ; table Tt { x : Tt ; } enum Ee : int { P } union Uu { Tt } table Ss { e : Ee ; u : Uu ; t : [ %s.Tt ] ; }" % (n, n),
    "namespace2": lambda n: "namespace aa.%s ; table Tt { x : Tt ; u : Uu ; } union Uu { Tt } namespace bb ; table Ss { t : aa.%s.Tt ; u : aa.%s.Uu ; }" % (n, n, n),
    "namespace_outer": lambda n: "namespace %s.cc ; table Tt { } enum Ee : int { P } namespace %s ; table Ss { t : %s.cc.Tt ; e : %s.cc.Ee = P ; }" % (n, n, n, n),
    "service": lambda n: "table Tt { } rpc_service %s { Mm ( Tt ) : Tt ; }" % n,
    "method": lambda n: "table Tt { } rpc_service Ss { %s ( Tt ) : Tt ; }" % n,
    "attribute": lambda n: "attribute \"%s\" ; table Tt { x : int ( %s ) ; }" % (n, n),
}

# beside names that generated code uses or might use for something else
BESIDE = {
    "table_every": lambda n: "table %s { %s }" % (n, EVERY),
    "table_beside": lambda n: "table %s { } table Tt { %s }" % (n, EVERY),
    "enum_beside": lambda n: "enum %s : long { P } enum Ff : ulong { P } table Tt { %s }" % (n, EVERY),
    "union_beside": lambda n: "table Aa { } union %s { Aa } table Tt { %s }" % (n, EVERY),
    "bases": lambda n: " ".join("enum E%d : %s { %s , Zz = 3 }" % (i, t, n) for i, t in enumerate(SC) if t != "bool" and SC[t] not in ("f32", "f64")) + " enum %s : byte { P }" % n,
}
USED = """Option Some None Ok Err Result Vec String Box str char bool i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 usize isize std core butte B __B
From Into Default Follow FollowBuf TryFrom Push Copy Clone Debug PartialEq Vector WIPOffset Error Self_ T Args Builder convert""".split()

PROBE = {
    "table": lambda n: "fn p(t: &g::%s<&[u8]>) { let _: Result<Option<i32>, gd::butte::Error> = t.x(); let _: Result<Option<&str>, gd::butte::Error> = t.s(); }" % fix(n),
    "field": lambda n: "fn p(t: &g::Tt<&[u8]>) { let _: Result<Option<i32>, gd::butte::Error> = t.%s(); let _ = g::TtArgs { %s: 1i32 }; }" % (snake(n), fix(n)),
    "field_ref": lambda n: "fn p(t: &g::Tt<&[u8]>) { let _: Result<Option<&str>, gd::butte::Error> = t.%s(); }" % snake(n),
    "field_union": lambda n: "fn p(t: &g::Tt<&[u8]>) { let _: Result<Option<g::Uu>, gd::butte::Error> = t.%s(); }" % snake(n),
    "enum": lambda n: "fn p(t: &g::Tt<&[u8]>) { let _: Result<Option<g::%s>, gd::butte::Error> = t.x(); let _ = g::%s::P; }" % (fix(n), fix(n)),
    "value": lambda n: "fn p() { let _ = [g::Ee::%s, g::Ee::Zz]; let _: &'static str = g::enum_name_ee(g::Ee::Zz); }" % fix(n),
    "union": lambda n: "fn p(u: g::%s) { match u { g::%s::Aa(_) => (), g::%s::Bb(_) => () } }" % (fix(n), fix(n), fix(n)),
    "alternative": lambda n: "fn p(u: g::Uu) { match u { g::Uu::Bb(_) => (), g::Uu::%s(t) => { let _ = t.x(); } } }" % fix(n),
    "namespace": lambda n: "fn p(t: &g::%s::Ss<&[u8]>) { let _: Result<Option<g::%s::Ee>, gd::butte::Error> = t.e(); }" % (snake(n), snake(n)),
    "namespace2": lambda n: "fn p(t: &g::bb::Ss<&[u8]>) { let _: Result<Option<g::aa::%s::Tt<&[u8]>>, gd::butte::Error> = t.t(); }" % snake(n),
}


def named():
    for pos, f in POS.items():
        for n in NAMES:
            probe = PROBE[pos](n) if pos in PROBE and probe_ok(n) else None
            must = n in KEYWORDS
            yield "kw_%s_%d" % (pos, NAMES.index(n)), f(n), probe, must and pos != "attribute" and not (pos in ("value", "value2") and n in ("true", "false"))


    for pos, f in BESIDE.items():
        for n in USED:
            yield "be_%s_%d" % (pos, USED.index(n)), f(n), None, False


FORMS = ["aB", "a_b", "AB", "Ab", "ab", "A_B", "_ab", "ab_", "a__b", "aB_", "type", "ty", "type_", "u", "u_type", "uType", "U_TYPE", "self", "self_"]
TYPES = ["T", "TArgs", "TBuilder", "t", "UType", "U", "u", "enum_name_t", "E", "e", "a", "b", "type", "ty", "butte_gen"]


MORE = "B __B Args Builder create new finish get_root table fbb args builder value e o Error Inner Default From Option None Some default fooBar foo_bar FooBar x1 x_1 X1 _ __ a_ _a aa Aa AA".split()


def collisions(tier="quick"):
    FORMS, TYPES = globals()["FORMS"], globals()["TYPES"]
    if tier != "quick":
        FORMS, TYPES = uniq(FORMS + MORE), uniq(TYPES + MORE[:28])
    k = 0
    for a, b in itertools.permutations(FORMS, 2):
        yield "co_f%d" % k, "table Aa { } union Uu { Aa } enum Ee : int { P } table Tt { %s : int ; %s : string ; }" % (a, b), None, False
        yield "co_g%d" % k, "table Aa { } union Uu { Aa } table Tt { %s : Uu ; %s : ubyte ; }" % (a, b), None, False
        yield "co_h%d" % k, "enum Ee : int { %s , %s } table Tt { x : Ee = %s ; }" % (a, b, b), None, False
        if k % 2 == 0:
            yield "co_i%d" % k, "table %s { } table %s { } union Uu { %s , %s } table Tt { x : Uu ; }" % (a, b, a, b), None, False
        k += 1
    kinds = [lambda n: "table %s { x : int ; }" % n, lambda n: "enum %s : int { P }" % n, lambda n: "table Z%s { } union %s { Z%s }" % (n, n, n)]
    k = 0
    for a, b in itertools.permutations(TYPES, 2):
        for i, j in itertools.product(range(3), repeat=2):
            yield "co_t%d" % k, "%s %s" % (kinds[i](a), kinds[j](b)), None, False
            k += 1
    # types and namespaces of the same name, namespaces equal but for their case
    k = 0
    for a, b in itertools.product(TYPES, repeat=2):
        for i in range(3):
            yield "co_n%d" % k, "%s namespace %s ; table Tt { }" % (kinds[i](a), b), None, False
            yield "co_m%d" % k, "namespace %s.zz ; table Tt { } namespace yy ; %s table Ww { t : %s.zz.Tt ; }" % (b, kinds[i](a), b), None, False
            yield "co_o%d" % k, "namespace yy ; %s namespace yy.%s ; table Tt { }" % (kinds[i](a), b), None, False
            k += 1
    k = 0
    ns = ["aB", "a_b", "AB", "ab", "Ab", "a.b", "A.b", "a.B", "type", "ty", "a", "A", "self", "super", "crate", "butte", "std", "butte_gen", "a.butte_gen"]
    for a, b in itertools.permutations(ns, 2):
        yield "co_s%d" % k, "namespace %s ; table Tt { } union Uu { Tt } namespace %s ; table Ss { t : %s.Tt ; u : %s.Uu ; } enum Ee : int { P }" % (a, b, a, a), None, False
        yield "co_r%d" % k, "namespace %s ; table Tt { x : %s.Ss ; } union Uu { Tt } namespace %s ; table Ss { t : %s.Tt ; } namespace %s ; table Tt2 { }" % (a, b, b, a, a), None, False
        k += 1


def relations(tier):
    parts = ["a", "b"] if tier == "quick" else ["a", "b", "cD"]
    paths = [()] + [p for n in (1, 2, 3) for p in itertools.product(parts, repeat=n)]
    k = 0
    for p, q in itertools.product(paths, repeat=2):
        if not p and q:
            order = [(p, 0), (q, 1)]
        elif not q and p:
            order = [(q, 1), (p, 0)]
        else:
            order = [(p, 0), (q, 1)]
        for shape in range(3):
            name = ["Tt", "a", "b"][shape]
            r = ".".join(q + (name,)) if p != q else name
            ns_of = lambda x: "::".join(["g"] + [snake(y) for y in x])
            decls = {
                1: "table %s { k : int ; } enum Ee : int { P , Q } union Uu { %s }" % (name, name),
                0: "table Ss { t : %s ; v : [ %s ] ; w : [ [ %s ] ] ; r : %s ( required ) ; e : %s = Q ; f : [ %s ] ; u : %s ; q : %s ( required ) ; }" % (
                    (r, r, r, r) + tuple((".".join(q + (x,)) if p != q else x) for x in ("Ee", "Ee", "Uu", "Uu"))),
            }
            text, cur = "", ()
            for n, d in order:
                if n != cur:
                    if not n:
                        text = None
                        break
                    text += "namespace %s ; " % ".".join(n)
                    cur = n
                text += decls[d] + "\n"
            if text is None:
                continue
            o = ns_of(q)
            probe = ("fn p(t: &%s::Ss<&[u8]>) { let _: Result<Option<%s::%s<&[u8]>>, gd::butte::Error> = t.t(); let _: Result<Option<%s::Ee>, gd::butte::Error> = t.e(); let _: Result<%s::Uu, gd::butte::Error> = t.q(); }"
                     % (ns_of(p), o, name, o, o))
            # a type named like a module beside it cannot be had in Rust
            yield "rel%d_%d" % (shape, k), text, probe, shape == 0 and (q or not p)
        k += 1


def shapes():
    types = list(SC) + ["string", "Ee", "Aa", "Uu"]
    k = 0
    for t in types + ["[ %s ]" % t for t in types] + ["[ [ %s ] ]" % t for t in types]:
        for attr in ["", " ( required )", " ( deprecated )", " ( id : 0 )", " ( key , required )"]:
            yield "sh%d" % k, "enum Ee : int { P , Q } table Aa { } union Uu { Aa } table Tt { x : %s%s ; y : %s ; } root_type Tt ;" % (t, attr, t), None, False
            k += 1
    for b in list(SC) + ["string", "Aa"]:
        yield "sh%d" % k, "table Aa { } enum Ee : %s { P , Q = 5 , R } table Tt { x : Ee ; y : Ee = R ; z : Ee ( required ) ; v : [ Ee ] ; }" % b, None, False
        k += 1
    for text in ["", "table T { }", "include \"a.fbs\" ; table T { }", "attribute \"x\" ; table T { } root_type T ; file_identifier \"ABCD\" ; file_extension \"bin\" ;",
                 "table T { } rpc_service S { } ", "table T { } rpc_service S { A ( T ) : T ; B ( T ) : T ( streaming : \"bidi\" ) ; }", "namespace a ; namespace b ; namespace a ; table T { }",
                 "enum E : byte { }", "union U { }", "struct S { x : int ; }", "table T { u : [ U ] ; } union U { T }", "table T { a : int ; } table S { a : T ; b : S ; } union U { T , S } root_type S ;",
                 "table T { x : int = 3 ( required ) ; y : float = nan ; z : double = -inf ; w : ubyte = 255 ; q : long = -9223372036854775808 ; r : ulong = 18446744073709551615 ; b : bool = false ; }",
                 "enum E : long { A = -9223372036854775808 , B = 9223372036854775807 }", "enum E : ulong { A = 18446744073709551615 }", "enum E : ubyte { A = 255 } table T { e : E = A ; }",
                 "/// d \" \\ \n table T { /// */ /* \n x : int ; }", "table T { %s}" % "".join("f%d : int ; " % i for i in range(300)), "enum E : short { %s }" % " , ".join("V%d" % i for i in range(300))]:
        yield "sh%d" % k, text, None, False
        k += 1


RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1)}


def edges():
    """numbers at, and one and two beyond, the limits of every type: refused, or code that compiles"""
    values = sorted({v + d for r in RANGE.values() for v in r for d in (-2, -1, 0, 1, 2)})
    k = 0
    for t in SC:
        for v in values:
            for text in ("table Tt { x : %s = %d ; }" % (t, v), "table Tt { x : %s = %d ( required ) ; }" % (t, v), "table Tt { x : %s = %d.5 ; }" % (t, v)):
                yield "ed%d" % k, text, None, False
                k += 1
            if SC[t] in RANGE:
                yield "ed%d" % k, "enum Ee : %s { A = %d }" % (t, v), None, False
                yield "ed%d" % (k + 1), "enum Ee : %s { A = %d , B }" % (t, v), None, False
                yield "ed%d" % (k + 2), "enum Ee : %s { Z , A = %d , B , C = 1 }" % (t, v), None, False
                k += 3
        for v in ["true", "false", "nan", "-nan", "inf", "-inf", "+infinity", "1e400", "-1e400", "1e-400", "0x1p2000", "1e39", "-1e39", "1e-50", "-0", "-0.0", "0x10", "-0x10", "A", "\"s\"", "x", "{ }", "[ ]", "255", "1.0"]:
            yield "ed%d" % k, "table Tt { x : %s = %s ; }" % (t, v), None, False
            k += 1
    for t in ["string", "[ int ]", "Aa", "Uu", "Ee", "[ Ee ]"]:
        for v in ["0", "1", "true", "nan", "\"s\"", "A", "P", "Q", "None", "2.5"]:
            yield "ed%d" % k, "table Aa { } union Uu { Aa } enum Ee : int { P , Q = 7 } table Tt { x : %s = %s ; }" % (t, v), None, False
            k += 1
    for v in list(range(-3, 6)) + list(range(250, 262)) + [511, 512, 65535, 65536, 2**31, 2**32, 2**63, 2**64]:
        yield "ed%d" % k, "table Aa { } table Bb { } union Uu { Aa = %d } table Tt { u : Uu ; }" % v, None, False
        yield "ed%d" % (k + 1), "table Aa { } table Bb { } union Uu { Aa = %d , Bb } table Tt { u : Uu ; }" % v, None, False
        yield "ed%d" % (k + 2), "table Aa { } table Bb { } union Uu { Bb , Aa = %d } table Tt { u : Uu ; }" % v, None, False
        k += 3
    for n in (253, 254, 255, 256, 257):
        yield "edu%d" % n, "%s union Uu { %s } table Tt { u : Uu ; }" % (" ".join("table A%d { }" % i for i in range(n)), " , ".join("A%d" % i for i in range(n))), None, False


def sizes(tier):
    """names of every length that differ in one character only, deep namespaces, deep vectors, many of everything"""
    R = "Result<Option<%s>, gd::butte::Error>"
    for n in list(range(1, 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]:
        for k, (a, b) in enumerate([("a" * n + "x", "a" * n + "y"), ("x" + "a" * n, "y" + "a" * n), ("a" * n, "a" * n + "b")]):
            A, B = a[0].upper() + a[1:], b[0].upper() + b[1:]
            yield ("lf%d_%d" % (n, k), "table Aa { } union Uu { Aa } table Tt { %s : int ; %s : string ; q%s : Uu ; }" % (a, b, a),
                   "fn p(t: &g::Tt<&[u8]>) { let _: %s = t.%s(); let _: %s = t.%s(); let _: %s = t.q%s(); }" % (R % "i32", a, R % "&str", b, R % "g::Uu", a), True)
            yield ("le%d_%d" % (n, k), "enum Ee : ubyte { %s , %s } table Tt { x : Ee = %s ; y : Ee = %s ; }" % (A, B, A, B), "fn p() { let _ = [g::Ee::%s, g::Ee::%s]; }" % (A, B), True)
            yield ("lt%d_%d" % (n, k), "table %s { x : %s ; } enum %s : int { P } table Cc%s { } union Uu%s { %s , Cc%s } table Tt { e : %s = P ; u : Uu%s ; r : %s ( required ) ; }" % (A, A, B, A, A, A, A, B, A, A),
                   "fn p(t: &g::Tt<&[u8]>) { let _: %s = t.e(); let _: %s = t.u(); }" % (R % ("g::" + B), R % ("g::Uu" + A)), True)
            yield ("ln%d_%d" % (n, k), "namespace %s.%s ; table Tt { } namespace %s ; table Tt { t : %s.%s.Tt ; } namespace %s ; table Ss { t : %s.Tt ; u : %s.%s.Tt ; }" % (a, b, b, a, b, a, b, a, b),
                   "fn p(t: &g::%s::Ss<&[u8]>) { let _: %s = t.t(); let _: %s = t.u(); }" % (a, R % ("g::%s::Tt<&[u8]>" % b), R % ("g::%s::%s::Tt<&[u8]>" % (a, b))), True)
    # namespaces: every depth, leaving each other at every depth
    for n in list(range(1, 13)) + [20, 30]:
        for m in list(range(0, 13)) + [20, 30]:
            for c in sorted({0, 1, 2, 3, min(n, m) // 2, min(n, m) - 1, min(n, m)}):
                if not 0 <= c <= min(n, m) or not m:
                    continue
                p = ["c%d" % i for i in range(c)] + ["l%d" % i for i in range(n - c)]
                q = ["c%d" % i for i in range(c)] + ["r%d" % i for i in range(m - c)]
                if p == q:
                    continue
                f = ".".join(q)
                yield ("ld%d_%d_%d" % (n, m, c), "namespace %s ; table Tt { k : int ; } enum Ee : int { P , Q } union Uu { Tt } namespace %s ; table Ss { t : %s.Tt ; v : [ %s.Tt ] ; e : %s.Ee = Q ; u : %s.Uu ; r : %s.Uu ( required ) ; }" % (f, ".".join(p), f, f, f, f, f),
                       "fn p(t: &g::%s::Ss<&[u8]>) { let _: %s = t.t(); let _: %s = t.e(); let _: Result<g::%s::Uu, gd::butte::Error> = t.r(); }" % ("::".join(p), R % ("g::%s::Tt<&[u8]>" % "::".join(q)), R % ("g::%s::Ee" % "::".join(q)), "::".join(q)), True)
    # vectors of vectors
    for d in range(1, 9):
        for k, (t, r) in enumerate([("int", "i32"), ("bool", "bool"), ("string", "&str"), ("Ee", "g::Ee"), ("Aa", "g::Aa<&[u8]>")]):
            for req in (False, True):
                get = "t.x()%s" % ("?" if req else "?.unwrap()") + ".get(0)?" * d
                yield ("lv%d_%d_%d" % (d, k, req), "enum Ee : int { P } table Aa { y : int ; } table Tt { a : %s ; x : %s%s%s%s ; b : int = 3 ; }" % (t, "[ " * d, t, " ]" * d, " ( required )" if req else ""),
                       "fn p(t: &g::Tt<&[u8]>) -> Result<(), gd::butte::Error> { let _: %s = %s; Ok(()) }" % (r, get), True)
    # attributes
    attrs = ["key", "a : 1", "b : \"s\"", "c : 2.5", "d : true", "e : -1", "f", "g"]
    for n in range(9):
        for at in range(n + 1):
            m = attrs[:at] + ["required"] + attrs[at:n]
            yield ("la%d_%d" % (n, at), "table Tt { x : string ( %s ) ; y : int = 2 ( %s ) ; z : [ Tt ] ( %s ) ; }" % (" , ".join(m), " , ".join(m), " , ".join(attrs[:n] or ["h"])),
                   "fn p(t: &g::Tt<&[u8]>) { let _: Result<&str, gd::butte::Error> = t.x(); let _: Result<i32, gd::butte::Error> = t.y(); let _: Result<Option<_>, gd::butte::Error> = t.z(); }", True)
    # many
    for n in (40, 127, 128, 129, 255, 256, 257, 600):
        yield "lm%d" % n, "table Tt { %s}" % "".join("f%d : %s ; " % (i, ["int", "string", "Tt", "[ ubyte ]"][i % 4]) for i in range(n)), "fn p(t: &g::Tt<&[u8]>) { %s }" % "".join("let _: %s = t.f%d(); " % (R % ["i32", "&str", "g::Tt<&[u8]>", "gd::butte::Vector<u8>"][i % 4], i) for i in range(n)), True
        yield "lo%d" % n, "enum Ee : short { %s } table Tt { %s}" % (" , ".join("V%d" % i for i in range(n)), "".join("f%d : Ee = V%d ; " % (i, n - 1 - i) for i in range(0, n, 7))), "fn p() { %s }" % "".join("assert!(g::Ee::V%d as i16 == %d); " % (i, i) for i in range(n)), True
        if n < 256:
            yield "lu%d" % n, "%s union Uu { %s } table Tt { u : Uu ; }" % (" ".join("table A%d { }" % i for i in range(n)), " , ".join("A%d" % i for i in range(n))), "fn p(u: g::Uu) { match u { %s } }" % ", ".join("g::Uu::A%d(_) => ()" % i for i in range(n)), True


def all_schemas(tier):
    seen = {}
    for gen in (named(), collisions(tier), relations(tier), shapes(), edges(), sizes(tier)):
        for name, text, probe, must in gen:
            if text in seen and probe is None and not must:
                continue
            seen[text] = 1
            yield name, text, probe, must
