//! C21: name resolution.  C22: invalid schemas.  C26: documentation.

use crate::c_text::judge;
use crate::comp::*;
use crate::inspect::*;
use crate::lang::*;
use crate::sem::*;
use mc::Ch;

// ---------------------------------------------------------------- C21

const NS: [&[&str]; 5] = [&[], &["a"], &["b"], &["a", "b"], &["b", "a", "b"]];

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Table,
    Enum,
    Union,
}

#[derive(Clone, Debug)]
struct D {
    k: K,
    ns: usize,
    name: &'static str,
}

fn reference(from: &D, to: &D, long: bool) -> String {
    // qualified names need two parts; a type outside of any namespace has only one
    if (from.ns == to.ns && !long) || NS[to.ns].is_empty() {
        to.name.to_string()
    } else {
        format!("{}.{}", NS[to.ns].join("."), to.name)
    }
}

fn body(i: usize, ds: &[D], long: bool) -> String {
    let d = &ds[i];
    match d.k {
        K::Table => {
            let mut f = String::new();
            for (j, o) in ds.iter().enumerate() {
                if NS[o.ns].is_empty() && d.ns != 0 {
                    continue; // cannot be named from here
                }
                let r = reference(d, o, long);
                f.push_str(&format!(" f{} : {} ;", j, r));
                if o.k != K::Union {
                    f.push_str(&format!(" v{} : [ {} ] ;", j, r));
                }
            }
            format!("table {} {{{} }}", d.name, f)
        }
        K::Enum => format!("enum {} : {} {{ P{} , Q = {} }}", d.name, ["byte", "ushort", "ulong"][i % 3], i, i + 5),
        K::Union => {
            let alts: Vec<&str> = ds.iter().filter(|o| o.k == K::Table && o.ns == d.ns).map(|o| o.name).collect();
            format!("union {} {{ {} }}", d.name, alts.join(" , "))
        }
    }
}

fn text_of(ds: &[D], order: &[usize], long: bool, restate: bool, extra: &dyn Fn(&D) -> String) -> Option<String> {
    let mut cur: Option<usize> = None;
    let mut s = String::new();
    for &i in order {
        let d = &ds[i];
        if NS[d.ns].is_empty() {
            if cur.is_some() {
                return None; // there is no way back to the root
            }
        } else if cur != Some(d.ns) || restate {
            s.push_str(&format!("namespace {} ;\n", NS[d.ns].join(".")));
            cur = Some(d.ns);
        }
        s.push_str(&body(i, ds, long));
        s.push('\n');
        s.push_str(&extra(d));
    }
    Some(s)
}

fn permutation(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = ch.choose(left.len());
        out.push(left.remove(i));
    }
    out
}

/// n declarations of every kind in every namespace, referring to each other, in every order
pub fn c21_orders(ch: &mut Ch) -> Result<(), String> {
    let n = ch.range(1, 3);
    orders(ch, n, 4)
}
/// four declarations
pub fn c21_orders4(ch: &mut Ch) -> Result<(), String> {
    let nns = ch.by_tier(1, 3);
    orders4(ch, nns)
}
fn decl_of(ch: &mut Ch, nns: usize) -> D {
    let k = *ch.pick(&[K::Table, K::Enum, K::Union]);
    let ns = ch.choose(nns);
    let name = *ch.pick(&["A", "B"]);
    D { k, ns, name }
}
fn orders(ch: &mut Ch, n: usize, nns: usize) -> Result<(), String> {
    let mut ds: Vec<D> = (0..n).map(|_| decl_of(ch, nns)).collect();
    // the same name in the same namespace only if it is the first two (a redefinition)
    if n == 3 && ds[2].ns == ds[0].ns && ds[2].name == ds[0].name {
        ds[2].name = "C";
    }
    let order = permutation(ch, n);
    let long = ch.flag();
    let restate = if n == 3 && !ch.thorough() { long } else { ch.flag() };
    let t = match text_of(&ds, &order, long, restate, &|_| String::new()) {
        Some(t) => t,
        None => return Ok(()),
    };
    judge(ch, &t)
}
fn orders4(ch: &mut Ch, nns: usize) -> Result<(), String> {
    const NAMES: [&str; 4] = ["A", "B", "C", "D"];
    let ds: Vec<D> = (0..4)
        .map(|i| {
            let k = *ch.pick(&[K::Table, K::Enum, K::Union]);
            let ns = 1 + ch.choose(nns + 1);
            D { k, ns, name: NAMES[i] }
        })
        .collect();
    let order = permutation(ch, 4);
    let t = text_of(&ds, &order, false, false, &|_| String::new()).unwrap();
    judge(ch, &t)
}

/// a root statement and a service in every place among the declarations, in every namespace
pub fn c21_uses(ch: &mut Ch) -> Result<(), String> {
    let nd = 2;
    let ds: Vec<D> = (0..nd).map(|i| D { k: if i == 1 { *ch.pick(&[K::Table, K::Enum, K::Union]) } else { K::Table }, ns: ch.choose(4), name: *ch.pick(&["A", "B"]) }).collect();
    let order = permutation(ch, nd);
    // where the statement stands: before everything, or behind a declaration, in a namespace
    let at = ch.choose(nd + 1);
    let uns = ch.choose(5);
    let target = ch.choose(nd);
    let kind = ch.choose(3);
    let long = ch.flag();
    let from = D { k: K::Table, ns: if uns == 4 { 99 } else { uns }, name: "X" };
    let mut s = String::new();
    let mut cur: Option<usize> = None;
    let stmt = |cur: &mut Option<usize>, s: &mut String| -> bool {
        // uns == 4: whatever namespace is in force
        let here = if from.ns == 99 { cur.unwrap_or(0) } else { from.ns };
        if from.ns != 99 {
            if NS[here].is_empty() {
                if cur.is_some() {
                    return false;
                }
            } else if *cur != Some(here) {
                s.push_str(&format!("namespace {} ;\n", NS[here].join(".")));
                *cur = Some(here);
            }
        }
        let f = D { ns: here, ..from.clone() };
        let r = reference(&f, &ds[target], long);
        match kind {
            0 => s.push_str(&format!("root_type {} ;\n", ds[target].name)),
            1 => s.push_str(&format!("rpc_service S {{ M ( {} ) : {} ; }}\n", r, r)),
            _ => s.push_str(&format!("table Z {{ z : {} ; }}\n", r)),
        }
        true
    };
    if at == 0 && !stmt(&mut cur, &mut s) {
        return Ok(());
    }
    for (pos, &i) in order.iter().enumerate() {
        let d = &ds[i];
        if NS[d.ns].is_empty() {
            if cur.is_some() {
                return Ok(());
            }
        } else if cur != Some(d.ns) {
            s.push_str(&format!("namespace {} ;\n", NS[d.ns].join(".")));
            cur = Some(d.ns);
        }
        s.push_str(&body(i, &ds, false));
        s.push('\n');
        if at == pos + 1 && !stmt(&mut cur, &mut s) {
            return Ok(());
        }
    }
    judge(ch, &s)
}

/// every relation between two namespaces of depth up to 3 over two names
pub fn c21_relations(ch: &mut Ch) -> Result<(), String> {
    fn ns(ch: &mut Ch) -> Vec<&'static str> {
        let n = ch.range(0, 3);
        (0..n).map(|_| *ch.pick(&["p", "q"])).collect()
    }
    let a = ns(ch);
    let b = ns(ch);
    let first = ch.flag();
    let what = ch.choose(4);
    let decl = match what {
        0 => "table T { n : int ; }".to_string(),
        1 => "enum T : short { V }".to_string(),
        2 => "table M { } union T { M }".to_string(),
        _ => "table T { t : T ; }".to_string(),
    };
    // a type of the same name in the referring namespace must not be taken
    let decoy = a != b && ch.flag();
    let refer = if b.is_empty() { "T".to_string() } else { format!("{}.T", b.join(".")) };
    let vecs = if what == 2 { "".to_string() } else { format!("y : [ {} ] ;", refer) };
    let user = format!("table U {{ x : {} ; {} }}", refer, vecs);
    let open = |n: &[&str]| if n.is_empty() { String::new() } else { format!("namespace {} ; ", n.join(".")) };
    let mut s = String::new();
    let d = if decoy { "enum T : ulong { DECOY }" } else { "" };
    if first {
        if a.is_empty() && !b.is_empty() {
            return Ok(());
        }
        s.push_str(&format!("{}{} {}{} {}", open(&b), decl, open(&a), d, user));
    } else {
        if b.is_empty() && !a.is_empty() {
            return Ok(());
        }
        s.push_str(&format!("{}{} {} {}{}", open(&a), user, d, open(&b), decl));
    }
    judge(ch, &s)
}

/// recursion: every directed graph over three tables, also through a union, in every order
pub fn c21_graphs(ch: &mut Ch) -> Result<(), String> {
    let n = 3;
    let edges = ch.choose(1 << (n * n));
    let union_ = ch.choose(3); // 0 none, 1 a union of all tables used by the first, 2 used by all
    let order = permutation(ch, n + (union_ > 0) as usize);
    let mut s = String::from("namespace g ;\n");
    for &i in &order {
        if i == n {
            s.push_str("union U { T0 , T1 , T2 }\n");
            continue;
        }
        s.push_str(&format!("table T{} {{", i));
        for j in 0..n {
            if edges >> (i * n + j) & 1 == 1 {
                s.push_str(&format!(" e{} : {}T{} ;", j, if j == 1 { "g." } else { "" }, j));
            }
        }
        if union_ == 2 || (union_ == 1 && i == 0) {
            s.push_str(" u : U ;");
        }
        s.push_str(" }\n");
    }
    judge(ch, &s)
}

/// chains of n declarations that depend on each other, in several orders, over several namespaces
pub fn c21_chains(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(40, 150);
    let i = ch.choose(top + 4);
    let n = if i < top { i + 1 } else { [130, 210, 257, 300][i - top] };
    let kind = ch.choose(4);
    let spaces = *ch.pick(&[0usize, 1, 2, 7]);
    let order: Vec<usize> = match ch.choose(4) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
    };
    // names of one or several parts, deeper and deeper
    let ns = |i: usize| -> String {
        if spaces == 0 {
            return String::new();
        }
        let k = if kind == 1 { 0 } else { i % spaces };
        (0..=k).map(|j| format!("n{}", j)).collect::<Vec<_>>().join(".")
    };
    let r = |i: usize, j: usize| if ns(i) == ns(j) { format!("T{}", j) } else { format!("{}.T{}", ns(j), j) };
    let mut s = String::new();
    let mut cur = String::new();
    for i in order {
        if ns(i) != cur {
            cur = ns(i);
            s.push_str(&format!("namespace {} ;\n", cur));
        }
        let next = (i + 1) % n;
        match kind {
            0 => s.push_str(&format!("table T{} {{ x : int ; n : {} ; }}\n", i, r(i, next))),
            // through unions
            1 => s.push_str(&format!("table T{} {{ u : U{} ; }} union U{} {{ T{} , T0 }}\n", i, i, i, if next == 0 { (n + 1) / 2 % n } else { next })),
            2 => s.push_str(&format!("table T{} {{ n : [ {} ] ; p : {} ; }}\n", i, r(i, next), r(i, (i + n - 1) % n))),
            // enums at the end of the chain, a service in the middle
            _ if i + 1 == n => s.push_str(&format!("enum T{} : byte {{ A }}\n", i)),
            _ => s.push_str(&format!("table T{} {{ n : {} ; }} rpc_service S{} {{ M ( T{} ) : T{} ; }}\n", i, r(i, next), i, i, i)),
        }
    }
    judge(ch, &s)
}

/// depth of namespaces, number of namespaces, of declarations and of references
pub fn c21_sizes(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(70, 200);
    let k = ch.choose(6);
    let i = ch.choose(top + 3);
    let n = if i < top { i + 1 } else { [255, 256, 257][i - top] };
    let s = match k {
        // a deep namespace, named from outside, from above and from itself
        0 | 1 => {
            let n = n.min(40);
            let p: Vec<String> = (0..n).map(|i| if k == 0 { format!("n{}", i) } else { s_(&["a", "b", "a"][i % 3]) }).collect();
            let full = p.join(".");
            let up = p[..(n + 1) / 2].join(".");
            format!("namespace {} ; enum D : byte {{ A }} table T {{ d : D ; e : {}.D ; }}\nnamespace {} ; table Up {{ d : {}.D ; }}\nnamespace other ; table O {{ d : {}.T ; }}", full, full, up, full, full)
        }
        // many namespaces, each with the same names
        2 => (0..n).map(|i| format!("namespace m{} ; enum E : byte {{ V{} }} table T {{ e : E ; o : m{}.T ; }}\n", i, i, (i + 1) % n)).collect(),
        // many nested namespaces
        3 => (0..n).map(|i| format!("namespace m.n{}.k ; enum E : byte {{ V{} }} table T {{ e : E ; o : m.n{}.k.T ; }}\n", i, i, (i * 3 + 1) % n)).collect(),
        // many declarations in one namespace, used from another and within
        4 => format!(
            "namespace d ;\n{}table All {{ {} }}\nnamespace u ; table All {{ {} }}",
            (0..n).map(|i| match i % 3 { 0 => format!("table T{} {{ }} ", i), 1 => format!("enum T{} : short {{ A{} }} ", i, i), _ => format!("union T{} {{ T0 }} ", i) }).collect::<String>(),
            (0..n).rev().map(|i| format!("g{} : T{} ; ", i, i)).collect::<String>(),
            (0..n).map(|i| format!("g{} : d.T{} ; ", i, i)).collect::<String>()
        ),
        // a namespace entered again and again
        _ => (0..n).map(|i| format!("namespace {} ; table T{} {{ {} }}\n", ["a", "b", "a.b"][i % 3], i, if i == 0 { s_(&"") } else { format!("p : {}.T{} ; q : {}.T0 ;", ["a", "b", "a.b"][(i - 1) % 3], i - 1, "a") })).collect(),
    };
    judge(ch, &s)
}
fn s_(x: &&str) -> String {
    x.to_string()
}

// ---------------------------------------------------------------- C22

/// the fault must be seen by the reference, and by the compiler
fn faulty(ch: &mut Ch, text: &str, must: bool) -> Result<(), String> {
    if must {
        if let Ok(_) | Err(No::Gray(_)) = understand(text) {
            return Err(format!("HARNESS: the reference accepts {:?}", text));
        }
    }
    judge(ch, text)
}

/// text before and behind the fault
const AROUND: [(&str, &str); 8] = [
    ("", ""),
    ("table P { x : int ; }\n", ""),
    ("", "table P { x : int ; }\n"),
    ("namespace n ;\n", ""),
    ("namespace n ;\ntable P { p : P ; }\nnamespace m ;\n", "namespace n ;\ntable P2 { p : P ; }\n"),
    ("enum E0 : byte { Z }\ntable P { e : E0 ; q : Q0 ; }\n", "table Q0 { p : P ; }\nunion U0 { P , Q0 }\nroot_type P ;\n"),
    ("namespace a.b ;\n", "namespace a ;\ntable P { x : int ; }\nnamespace a.b ;\ntable P { y : int ; }\n"),
    ("table P { } rpc_service S0 { M ( P ) : P ; }\n", "// end"),
];
fn around(ch: &mut Ch, s: &str) -> String {
    let (a, b) = *ch.pick(&AROUND);
    format!("{}{}\n{}", a, s, b)
}

/// two definitions of a name, of any kinds, at any distance
pub fn c22_redefine(ch: &mut Ch) -> Result<(), String> {
    const D: [&str; 6] = [
        "table X { a : int ; }",
        "table X { }",
        "enum X : byte { A }",
        "union X { M }",
        "table X { x : X ; }",
        "table X { later : L ; }",
    ];
    let a = *ch.pick(&D);
    let b = *ch.pick(&D);
    let mid = *ch.pick(&["", "table K { }", "namespace z ; table K { } namespace y ;"]);
    let tail = "table L { } table M { }";
    let s = if mid.contains("namespace") {
        format!("namespace y ; {} {} {} {}", a, mid, b, tail)
    } else {
        format!("{} {} {} {}", a, mid, b, tail)
    };
    let s = around(ch, &s);
    let same_ns = true;
    faulty(ch, &s, same_ns)
}

/// a reference to something that does not exist (there), in every kind of place
pub fn c22_undefined(ch: &mut Ch) -> Result<(), String> {
    const R: [&str; 6] = ["Nope", "q.Nope", "o.There", "There.x", "o.o.There", "There2"];
    let r = *ch.pick(&R);
    let place = ch.choose(9);
    let user = match place {
        0 => format!("table T {{ x : {} ; }}", r),
        1 => format!("table T {{ a : int ; b : string ; x : [ {} ] ; c : T ; }}", r),
        2 => format!("table T {{ x : [ [ {} ] ] ; }}", r),
        3 => format!("table T {{ x : {} ( required ) ; }}", r),
        4 => format!("table T {{ }} union W {{ T , {} }}", r),
        5 => format!("table T {{ }} root_type {} ;", r),
        6 => format!("table T {{ }} rpc_service S {{ G ( T ) : T ; H ( {} ) : T ; }}", r),
        7 => format!("table T {{ }} rpc_service S {{ G ( T ) : T ; H ( T ) : {} ; }}", r),
        _ => format!("table T {{ }} union W {{ T }} table V {{ w : W ; x : {} ; }}", r),
    };
    let s = format!("namespace o ; table There {{ }} namespace h ; {} namespace k ; table There2 {{ }}", user);
    let s = around(ch, &s);
    // one of them exists and may be used where a path is allowed
    let must = r != "o.There";
    faulty(ch, &s, must)
}

/// every base type, every value around the limits of its range, explicit and by counting
pub fn c22_enums(ch: &mut Ch) -> Result<(), String> {
    let mut bases: Vec<String> = BUILTINS.iter().map(|s| s.to_string()).collect();
    bases.push("[ byte ]".into());
    bases.push("T".into());
    let b = ch.pick(&bases).clone();
    let (lo, hi) = scalar(&b).and_then(int_range).unwrap_or((0, 100));
    let mut vals: Vec<i128> = vec![lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, hi * 2 + 1, lo * 2 - 1];
    vals.dedup();
    let first = *ch.pick(&vals);
    let rest = *ch.pick(&["", ", B", ", B , C", ", B = 0", ", B = 1 , C", ", A", ", B , A", ", B = 5 , C = 5", ", B = -1 , C", ", C = 7 , B = 6 , D"]);
    let meta = *ch.pick(&["", "( bit_flags )"]);
    let s = format!("table T {{ }} enum E : {} {} {{ A = {} {} }}", b, meta, first, rest);
    let s = around(ch, &s);
    judge(ch, &s)
}

/// every field type x every literal
pub fn c22_defaults(ch: &mut Ch) -> Result<(), String> {
    let mut tys: Vec<String> = BUILTINS.iter().map(|s| s.to_string()).collect();
    for t in ["[ int ]", "[ E ]", "E", "T", "U", "n.E", "[ string ]"] {
        tys.push(t.into());
    }
    let t = ch.pick(&tys).clone();
    const L: [&str; 52] = [
        "0", "1", "-1", "true", "false", "1.0", "-0.5", "1e3", "nan", "inf", "-inf", "infinity", "A", "B", "Q", "E", "a", "127", "128", "-128", "-129", "255",
        "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0x7f",
        "0x80", "-0x80", "0xff", "0x100", "0xffffffffffffffff", "0x10000000000000000", "0x1p4", "3.5e38", "1e308", "\"s\"",
    ];
    let l = *ch.pick(&L);
    let meta = *ch.pick(&["", "( required )"]);
    let pos = ch.choose(3);
    let f = format!("d : {} = {} {} ;", t, l, meta);
    let fields = match pos {
        0 => f,
        1 => format!("a : int ; {}", f),
        _ => format!("{} z : string ;", f),
    };
    let s = format!("namespace n ; enum E : byte {{ A , B }} table T {{ }} union U {{ T }} table W {{ {} }}", fields);
    judge(ch, &s)
}

/// fields and values of the same name at any two places
pub fn c22_duplicates(ch: &mut Ch) -> Result<(), String> {
    let n = ch.range(2, 6);
    let i = ch.choose(n);
    let j = ch.choose(n);
    if j <= i {
        return Ok(());
    }
    let kind = ch.choose(4);
    let mut names: Vec<String> = (0..n).map(|k| format!("N{}", k)).collect();
    names[j] = names[i].clone();
    let tables: String = (0..n).map(|k| format!("table N{} {{ }} ", k)).collect();
    let (s, must) = match kind {
        0 => {
            const TY: [&str; 6] = ["int", "string", "[ T ]", "T", "bool", "double"];
            (format!("table T {{ {} }}", names.iter().enumerate().map(|(k, x)| format!("{} : {} ;", x.to_lowercase(), TY[k % 6])).collect::<String>()), true)
        }
        1 => (format!("enum X : int {{ {} }}", names.join(" , ")), true),
        2 => (format!("{} union X {{ {} }}", tables, names.join(" , ")), true),
        _ => (
            format!("table T {{ }} rpc_service X {{ {} }}", names.iter().map(|x| format!("{} ( T ) : T ;", x)).collect::<String>()),
            true,
        ),
    };
    let s = around(ch, &s);
    faulty(ch, &s, must)
}

/// the fault far away from what it clashes with, or behind much that is right
pub fn c22_far(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(70, 200);
    let k = ch.choose(12);
    let i = ch.choose(top + 3);
    let n = if i < top { i + 1 } else { [255, 256, 257][i - top] };
    // the clash: with the first, with one in the middle, with the one before; or none
    let with = *ch.pick(&[Some(0), Some(n / 2), Some(n - 1), None]);
    let clash = |p: &str| with.map_or("Other".into(), |i: usize| format!("{}{}", p, i));
    let all = |f: &dyn Fn(usize) -> String| -> String { (0..n).map(|i| f(i)).collect() };
    let tables = all(&|i| format!("table T{} {{ }} ", i));
    let missing = with.is_some();
    let s = match k {
        0 => format!("table X {{ {} {} : int ; }}", all(&|i| format!("g{} : {} ; ", i, ["int", "string", "X"][i % 3])), clash("g")),
        1 => format!("enum X : int {{ {} {} }}", all(&|i| format!("V{} , ", i)), clash("V")),
        2 => format!("{} table Other {{ }} union X {{ {} {} }}", tables, all(&|i| format!("T{} , ", i)), clash("T")),
        3 => format!("table Q {{ }} rpc_service X {{ {} {} ( Q ) : Q ; }}", all(&|i| format!("M{} ( Q ) : Q ; ", i)), clash("M")),
        4 => format!("{} table {} {{ }}", tables, clash("T")),
        5 => format!("{} enum {} : byte {{ A }}", tables, clash("T")),
        // the same, with other namespaces between
        6 => format!("namespace a ; {} {} namespace a ; table {} {{ }}", tables, all(&|i| format!("namespace b{} ; table T0 {{ }} ", i)), clash("T")),
        // numbers that meet
        7 => format!("enum X : int {{ {} Y = {} }}", all(&|i| format!("V{} = {} , ", i, i * 3)), with.map_or(n * 3 + 1, |i| i * 3)),
        8 => format!("{} table Y {{ }} union X {{ {} Y = {} }}", tables, all(&|i| format!("T{} , ", i)), with.map_or(n + 1, |i| i + 1)),
        // references
        9 => format!("{} table X {{ {} l : {} ; }}", tables, all(&|i| format!("g{} : T{} ; ", i, i)), if missing { format!("T{}", n) } else { "T0".into() }),
        10 => format!("{} union X {{ {} {} }}", tables, all(&|i| format!("T{} , ", i)), if missing { format!("T{}", n) } else { "".into() }),
        _ => format!("{} rpc_service X {{ {} L ( T0 ) : {} ; }}", tables, all(&|i| format!("M{} ( T{} ) : T0 ; ", i, i)), if missing { format!("T{}", n) } else { "T0".into() }),
    };
    judge(ch, &s)
}

/// long names that are equal or differ in one place
pub fn c22_long(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(70, 200);
    let i = ch.choose(top + 3);
    let n = if i < top { i + 1 } else { [255, 256, 257][i - top] };
    let k = ch.choose(8);
    let a: String = "NamedLikeThis".chars().cycle().take(n).collect();
    let b = match ch.choose(6) {
        0 => a.clone(),
        1 => format!("{}x", &a[..n - 1]),
        2 => format!("X{}", &a[1..]),
        3 => format!("{}x{}", &a[..n / 2], &a[(n / 2 + 1).min(n)..]),
        4 => format!("{}x", a),
        _ => format!("{}_{}", &a[..n / 2], &a[n / 2..]),
    };
    if n < 2 {
        return Ok(());
    }
    let s = match k {
        0 => format!("table T {{ {} : int ; m : string ; {} : T ; }}", a, b),
        1 => format!("enum E : short {{ {} , M , {} }}", a, b),
        2 => format!("table {} {{ }} table Mm {{ }} table {} {{ }}", a, b),
        3 => format!("table {} {{ }} table Mm {{ m : {} ; }}", a, b),
        4 => format!("table {} {{ }} union Mm {{ {} , {} }}", a, a, b),
        5 => format!("table Mm {{ }} rpc_service Ss {{ {} ( Mm ) : Mm ; M ( Mm ) : Mm ; {} ( Mm ) : Mm ; }}", a, b),
        6 => format!("namespace {} ; table Mm {{ }} namespace {} ; enum Mm : int {{ A }}", a, b),
        _ => format!("enum Ee : int {{ {} }} table Mm {{ e : Ee = {} ; }} rpc_service {} {{ }} enum {} : int {{ A }}", a, b, a, b),
    };
    judge(ch, &s)
}

/// enum numbers that meet, explicitly or by counting
pub fn c22_numbers(ch: &mut Ch) -> Result<(), String> {
    let n = ch.by_tier(4, 5);
    let union_ = ch.flag();
    let mut parts = vec![];
    for k in 0..n {
        let v = *ch.pick(&["", "= 0", "= 1", "= 2", "= 3", "= 255"]);
        parts.push(format!("N{} {}", k, v));
    }
    let s = if union_ {
        format!("{} union X {{ {} }} table T {{ x : X ; }}", (0..n).map(|k| format!("table N{} {{ }} ", k)).collect::<String>(), parts.join(" , "))
    } else {
        format!("enum X : ubyte {{ {} }} table T {{ x : X ; }}", parts.join(" , "))
    };
    judge(ch, &s)
}

/// what a root, request or response may be
pub fn c22_roles(ch: &mut Ch) -> Result<(), String> {
    const T: [&str; 7] = ["T", "E", "U", "int", "string", "n.T", "n.E"];
    let t = *ch.pick(&T);
    let role = ch.choose(5);
    let stmt = match role {
        0 => format!("root_type {} ;", t),
        1 => format!("rpc_service S {{ M ( {} ) : T ; }}", t),
        2 => format!("rpc_service S {{ M ( T ) : {} ; }}", t),
        3 => format!("rpc_service S {{ L ( T ) : T ; M ( T ) : {} ; N ( T ) : T ; }}", t),
        _ => format!("root_type T ; root_type {} ;", t),
    };
    let before = ch.flag();
    let defs = "table T { } enum E : int { A } union U { T }";
    let other = *ch.pick(&["", "table O { x : int ; }", "namespace w ; table T { } namespace n ;"]);
    let s = if before { format!("namespace n ; {} {} {}", stmt, other, defs) } else { format!("namespace n ; {} {} {}", defs, other, stmt) };
    judge(ch, &s)
}

/// streaming modes
pub fn c22_streaming(ch: &mut Ch) -> Result<(), String> {
    const M: [&str; 16] = [
        "", "( )", "( streaming )", "( streaming : \"client\" )", "( streaming : \"server\" )", "( streaming : \"bidi\" )", "( streaming : \"\" )",
        "( streaming : \"Client\" )", "( streaming : \"both\" )", "( streaming : 1 )", "( streaming : true )", "( streaming : \"bidi \" )",
        "( k , streaming : \"server\" , l : 1 )", "( streams : \"x\" )", "( streaming : \"x\" , streaming : \"bidi\" )", "( streaming : 1.5 )",
    ];
    let m1 = *ch.pick(&M);
    let m2 = *ch.pick(&M);
    let s = format!("table T {{ }} rpc_service S {{ A ( T ) : T {} ; B ( T ) : T {} ; }}", m1, m2);
    let s = around(ch, &s);
    judge(ch, &s)
}

/// structs: nothing but scalars may be in one (and none is supported yet)
pub fn c22_structs(ch: &mut Ch) -> Result<(), String> {
    let mut tys: Vec<String> = BUILTINS.iter().map(|s| s.to_string()).collect();
    for t in ["[ int ]", "E", "T", "U", "S2", "Nope"] {
        tys.push(t.into());
    }
    let t = ch.pick(&tys).clone();
    let pos = ch.flag();
    let f = if pos { format!("a : int ; x : {} ;", t) } else { format!("x : {} ; a : int ;", t) };
    let s = format!("enum E : int {{ A }} table T {{ }} union U {{ T }} struct S {{ {} }} struct S2 {{ x : int ; }}", f);
    let s = around(ch, &s);
    faulty(ch, &s, true)
}

// ---------------------------------------------------------------- C26

const LINES: [&str; 10] = [
    "M", " M trailing ", " \"M\" \\ \\n {}", " M // not a comment", " \u{e9}M\u{1F600}", "\tM", " / M", " M */ /* #[doc = \"x\"]", " [M](a::b) `c`", " M ; } table Q {",
];

struct DocGen {
    n: usize,
    want: Vec<Doc>,
}
impl DocGen {
    /// documentation of the next place, and its text
    fn next(&mut self, ch: &mut Ch, style: usize) -> String {
        let k = self.n;
        self.n += 1;
        let lines = match style {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => 3,
        };
        let _ = ch;
        let d: Doc = (0..lines).map(|i| LINES[(k * 3 + i * 7) % LINES.len()].replace('M', &format!("m{}x{}", k, i))).collect();
        self.want.push(d.clone());
        d.iter().map(|l| format!("///{}\n", l)).collect()
    }
}

fn check_docs(text: &str, code: &Code, m: &Meaning, pretty: bool) -> Result<u64, String> {
    // the external formatter takes blanks off the ends of comment lines
    let t = |d: &Doc| -> Doc { if pretty { d.iter().map(|l| l.trim_end().to_string()).collect() } else { d.clone() } };
    let mut n = 0;
    let mut eq = |what: String, got: &Doc, want: &Doc| -> Result<(), String> {
        n += 1;
        if t(got) != t(want) {
            Err(format!("{} is documented as {:?}, the schema says {:?}, for {:?}", what, got, want, text))
        } else {
            Ok(())
        }
    };
    for (p, it) in &m.items {
        match it {
            Item::Table { doc, fields } => {
                let s = &code.structs[p];
                eq(format!("table {:?}", p), &s.doc, doc)?;
                for f in fields {
                    let a = s.accs.iter().find(|a| a.name == f.name).ok_or("accessor missing")?;
                    eq(format!("accessor {} of {:?}", f.name, p), &a.doc, &f.doc)?;
                }
            }
            Item::Enum { doc, vals, .. } => {
                let e = &code.enums[p];
                eq(format!("enum {:?}", p), &e.doc, doc)?;
                for (v, w) in e.vars.iter().zip(vals) {
                    eq(format!("value {} of {:?}", w.0, p), &v.doc, &w.2)?;
                }
            }
            Item::Union { doc, alts } => {
                let e = &code.enums[p];
                eq(format!("union {:?}", p), &e.doc, doc)?;
                for (v, w) in e.vars.iter().zip(alts) {
                    eq(format!("alternative {} of {:?}", w.0, p), &v.doc, &w.3)?;
                }
            }
        }
    }
    // nothing of it on any other item, and no ordinary comment anywhere
    for (w, d) in &code.other_docs {
        if d.iter().any(|l| l.contains('m') && l.chars().any(|c| c.is_ascii_digit()) && l.contains('x')) {
            return Err(format!("{} carries documentation {:?}, for {:?}", w, d, text));
        }
    }
    for (p, s) in &code.structs {
        if is_args_or_builder(code, p) && !m.items.contains_key(p) && !s.doc.is_empty() {
            return Err(format!("{:?} carries documentation {:?}, for {:?}", p, s.doc, text));
        }
    }
    Ok(n)
}

fn docs_of(ch: &mut Ch, text: &str, pretty: bool) -> Result<(), String> {
    ch.note(|| format!("text: {:?}", text));
    let m = understand(text).map_err(|e| format!("HARNESS: {:?} for {:?}", e, text))?;
    let code = if pretty { crate::c_io::compile_pretty(text)? } else { compile(text)? };
    let code = code.map_err(|e| format!("a valid schema is refused ({}): {:?}", e, text))?;
    ch.step(1);
    if code.contains("ORDINARY") {
        return Err(format!("an ordinary comment is in the generated code, for {:?}", text));
    }
    let c = inspect(&code)?;
    compare(&c, &m).map_err(|e| format!("{} for {:?}", e, text))?;
    let n = check_docs(text, &c, &m, pretty)?;
    ch.eval(n);
    ch.state(&code);
    ch.sample(|| text.to_string());
    Ok(())
}

/// every place with 0..3 lines, every pair of places
pub fn c26_places(ch: &mut Ch) -> Result<(), String> {
    places(ch, false)
}
/// the same through the formatter (single places)
pub fn c26_formatted(ch: &mut Ch) -> Result<(), String> {
    places(ch, true)
}
fn places(ch: &mut Ch, pretty: bool) -> Result<(), String> {
    const P: usize = 17;
    let all = ch.choose(4); // the other places: 0..3 lines
    let a = ch.choose(P);
    let b = if pretty { a } else { ch.choose(P) };
    let (sa, sb) = (ch.choose(4), if pretty { 0 } else { ch.choose(4) });
    if pretty && all == 3 {
        return Ok(());
    }
    let style = |i: usize| if i == a { sa } else if i == b { sb } else { all };
    let ordinary = ch.choose(if pretty { 2 } else { 4 });
    let oc = |s: &mut String| match ordinary {
        0 => (),
        1 => s.push_str("// ORDINARY\n"),
        2 => s.push_str("//ORDINARY\n// ORDINARY /// x\n"),
        _ => s.push_str(" // / ORDINARY\n"),
    };
    let crlf = !pretty && ch.flag();
    let mut g = DocGen { n: 0, want: vec![] };
    let mut s = String::new();
    let places = [
        "table T {\n", "a : int ;", "b : [ string ] ;", "c : E = Y ;\n", "d : T ( required ) ;", "u : U ;", "w : U ( required ) ; }\n", "enum E : byte {\n", "X ,", "Y = 4 ,", "Z }\n",
        "union U {\n", "T ,", "W }\n", "table W { ", "aB : double = 2.5 ;", "z : bool ( required , k : 1 ) ; }\n",
    ];
    assert_eq!(places.len(), P);
    for (i, p) in places.iter().enumerate() {
        oc(&mut s);
        s.push('\n');
        let d = g.next(ch, style(i));
        s.push_str(&d);
        if ordinary == 3 && !d.is_empty() {
            // between the documentation and its item
            s.push_str("// ORDINARY\n");
        }
        s.push_str(p);
    }
    oc(&mut s);
    if crlf {
        s = s.replace('\n', "\r\n");
    }
    docs_of(ch, &s, pretty)
}

/// every line content alone, in every place
pub fn c26_lines(ch: &mut Ch) -> Result<(), String> {
    const C: [&str; 16] = [
        "", " ", " x", "x", "\t x", " /", " //", " \"", " \\", " \\\\", " \u{e9}", " {}", " #", " x ; }", "  indented", " * y",
    ];
    let n = ch.range(1, 2);
    let ls: Vec<&str> = (0..n).map(|_| *ch.pick(&C)).collect();
    let d: String = ls.iter().map(|l| format!("///{}\n", l)).collect();
    let k = ch.choose(6);
    let s = match k {
        0 => format!("{}table T {{ a : int ; }}", d),
        1 => format!("table T {{ z : int ; {}a : int ; }}", d),
        2 => format!("{}enum E : int {{ A }}", d),
        3 => format!("enum E : int {{ A , {}B , C }}", d),
        4 => format!("table T {{ }} {}union U {{ T }}", d),
        _ => format!("table T {{ }} table S {{ }} union U {{ S , {}T }}", d),
    };
    let s = if ch.flag() { s.replace('\n', "\r\n") } else { s };
    docs_of(ch, &s, false)
}

/// many lines, long lines, many documented items
pub fn c26_sizes(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(70, 200);
    let k = ch.choose(3);
    let i = ch.choose(top + 5);
    let n = if i < top { i + 1 } else { [255, 256, 257, 1000, 1024][i - top] };
    let place = ch.choose(7);
    if k == 2 && n > 300 {
        return Ok(());
    }
    let d: String = match k {
        0 => (0..n).map(|i| format!("/// line {}\n", i)).collect(),
        1 => format!("/// {}\n///{}\n", "x".repeat(n), "\u{e9} ".repeat(n)),
        _ => "/// just one\n".into(),
    };
    let each = |i: usize| if k == 2 { format!("/// item {}\n", i) } else if i == 1 { d.clone() } else { String::new() };
    let m = if k == 2 { n } else { 3 };
    let items = |f: &dyn Fn(usize) -> String, sep: &str| -> String { (0..m).map(|i| format!("{}{}", each(i), f(i))).collect::<Vec<_>>().join(sep) };
    let tables: String = (0..m).map(|i| format!("table T{} {{ }} ", i)).collect();
    let s = match place {
        0 => items(&|i| format!("table T{} {{ x : int ; }}\n", i), ""),
        1 => format!("{}table T {{\n{} }} union U {{ T }}", d, items(&|i| format!("g{} : {} ;\n", i, ["int", "U", "T", "[ T ]", "string"][i % 5]), "")),
        2 => items(&|i| format!("enum E{} : byte {{ A }}\n", i), ""),
        3 => format!("{}enum E : int {{\n{} }}", d, items(&|i| format!("V{}", i), " ,\n")),
        4 => format!("table T {{ }} {}", items(&|i| format!("union U{} {{ T }}\n", i), "")),
        5 if m > 255 => return Ok(()),
        5 => format!("{}{}union U {{\n{} }}", tables, d, items(&|i| format!("T{}", i), " ,\n")),
        _ => format!("{}table T {{\n{} }} union U {{ T }}", d, items(&|i| format!("g{} : {} ( required ) ;\n", i, ["int", "U", "T", "[ T ]", "string"][i % 5]), "")),
    };
    docs_of(ch, &s, false)
}
