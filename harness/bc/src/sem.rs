//! What a schema means: the reference resolver.  Nothing here uses the code under test.

use crate::lang::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum RTy {
    /// Rust scalar or `str`
    S(&'static str),
    Vec(Box<RTy>),
    /// a named type, by the path of generated names
    Path(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MField {
    /// generated accessor name
    pub name: String,
    pub ty: RTy,
    pub required: bool,
    pub union_: bool,
    pub doc: Doc,
    pub default: Option<Lit>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Table { doc: Doc, fields: Vec<MField> },
    Enum { doc: Doc, base: &'static str, vals: Vec<(String, i128, Doc)> },
    Union { doc: Doc, alts: Vec<(String, Vec<String>, i128, Doc)> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct MMethod {
    pub name: String,
    pub snake: String,
    pub req: Vec<String>,
    pub resp: Vec<String>,
    pub streaming: &'static str,
    pub doc: Doc,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MService {
    pub path: Vec<String>,
    pub doc: Doc,
    pub methods: Vec<MMethod>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Meaning {
    /// by generated path: snake case modules, then the type's own name
    pub items: BTreeMap<Vec<String>, Item>,
    pub services: Vec<MService>,
}

pub fn scalar(b: &str) -> Option<&'static str> {
    Some(match b {
        "bool" => "bool",
        "byte" | "int8" => "i8",
        "ubyte" | "uint8" => "u8",
        "short" | "int16" => "i16",
        "ushort" | "uint16" => "u16",
        "int" | "int32" => "i32",
        "uint" | "uint32" => "u32",
        "long" | "int64" => "i64",
        "ulong" | "uint64" => "u64",
        "float" | "float32" => "f32",
        "double" | "float64" => "f64",
        _ => return None,
    })
}
pub fn int_range(s: &str) -> Option<(i128, i128)> {
    Some(match s {
        "i8" => (i8::MIN as i128, i8::MAX as i128),
        "u8" => (0, u8::MAX as i128),
        "i16" => (i16::MIN as i128, i16::MAX as i128),
        "u16" => (0, u16::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "u32" => (0, u32::MAX as i128),
        "i64" => (i64::MIN as i128, i64::MAX as i128),
        "u64" => (0, u64::MAX as i128),
        _ => return None,
    })
}

/// Rust keywords and names the generated code itself may need: their treatment is another
/// property's business.
const SPECIAL: [&str; 80] = [
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl",
    "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait",
    "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try",
    "typeof", "unsized", "virtual", "yield", "gen", "union", "auto", "default", "Option", "Result", "From", "Default", "std", "butte",
    "bool", "str", "i8", "u8", "i16", "u16", "i32", "u32", "f32", "i64", "u64", "f64", "usize", "isize", "None", "Some", "Ok", "Err",
    "butte_gen",
];

/// A name whose treatment is plain.
pub fn plain(n: &str) -> Result<(), No> {
    if SPECIAL.contains(&n) || !n.is_ascii() || n.contains("__") || n.starts_with('_') || n.ends_with('_') {
        return gray(format!("special name {}", n));
    }
    snake(n).map(|_| ())
}

/// The snake case form of the names that have an undisputed one.
pub fn snake(n: &str) -> Result<String, No> {
    let c: Vec<char> = n.chars().collect();
    if !n.is_ascii() || c.is_empty() || !c[0].is_ascii_alphabetic() {
        return gray(format!("odd name {}", n));
    }
    let has_up = c.iter().any(|x| x.is_ascii_uppercase());
    let has_lo = c.iter().any(|x| x.is_ascii_lowercase());
    if !has_up {
        return Ok(n.to_string());
    }
    if !has_lo {
        return Ok(n.to_lowercase());
    }
    // words beginning with a capital that is followed by a small letter or digit or the end
    let mut out = String::new();
    for (i, x) in c.iter().enumerate() {
        if x.is_ascii_uppercase() {
            if let Some(nx) = c.get(i + 1) {
                if !nx.is_ascii_lowercase() {
                    return gray(format!("odd name {}", n));
                }
            }
            if i > 0 && c[i - 1] != '_' {
                out.push('_');
            }
            out.push(x.to_ascii_lowercase());
        } else {
            out.push(*x);
        }
    }
    let s = out;
    if SPECIAL.contains(&s.as_str()) {
        return gray(format!("special name {}", n));
    }
    Ok(s)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Table,
    Enum,
    Union,
}

fn gen_path(p: &[String]) -> Result<Vec<String>, No> {
    let mut v = vec![];
    for x in &p[..p.len() - 1] {
        v.push(snake(x)?);
    }
    v.push(p.last().unwrap().clone());
    Ok(v)
}

/// Collects: a certain error wins over a doubtful one.
struct Acc {
    gray: Option<String>,
}
impl Acc {
    fn soft(&mut self, r: Result<(), No>) -> Result<(), No> {
        match r {
            Err(No::Gray(s)) => {
                self.gray.get_or_insert(s);
                Ok(())
            }
            r => r,
        }
    }
    fn gray(&mut self, s: impl Into<String>) {
        self.gray.get_or_insert(s.into());
    }
}

pub fn meaning(s: &Schema) -> Result<Meaning, No> {
    let mut acc = Acc { gray: None };
    let mut ns: Vec<String> = vec![];
    let mut placed: Vec<(Vec<String>, &Decl)> = vec![];
    let mut kinds: BTreeMap<Vec<String>, (Kind, &Decl)> = BTreeMap::new();
    let mut namespaces: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut service_names: BTreeSet<Vec<String>> = BTreeSet::new();
    for d in &s.decls {
        if let Decl::Namespace { path, .. } = d {
            ns = path.clone();
            for p in path {
                acc.soft(plain(p))?;
                if p != &p.to_lowercase() {
                    // casing of namespaces is another property's business
                    acc.soft(snake(p).map(|_| ()))?;
                }
            }
            continue;
        }
        placed.push((ns.clone(), d));
        let (name, kind) = match d {
            Decl::Table { name, .. } => (name, Kind::Table),
            Decl::Enum { name, .. } => (name, Kind::Enum),
            Decl::Union { name, .. } => (name, Kind::Union),
            Decl::Struct { .. } => return bad("structs are not supported"),
            Decl::FileExt { .. } | Decl::FileId { .. } | Decl::Attr(_) | Decl::Object { .. } => return bad("unsupported declaration"),
            Decl::Rpc { name, .. } => {
                let mut p = ns.clone();
                p.push(name.clone());
                if !service_names.insert(p.clone()) {
                    return bad(format!("service {:?} twice", p));
                }
                acc.soft(plain(name))?;
                for i in 1..p.len() {
                    namespaces.insert(p[..i].to_vec());
                }
                continue;
            }
            Decl::Root(_) | Decl::Namespace { .. } => continue,
        };
        let mut p = ns.clone();
        p.push(name.clone());
        acc.soft(plain(name))?;
        if BUILTINS.contains(&name.as_str()) {
            acc.gray("a type named like a built-in type");
        }
        for i in 1..p.len() {
            namespaces.insert(p[..i].to_vec());
        }
        if kinds.insert(p.clone(), (kind, d)).is_some() {
            return bad(format!("{:?} defined twice", p));
        }
    }
    // names that meet only in the generated code
    let mut modules: BTreeMap<Vec<String>, Vec<String>> = BTreeMap::new();
    for p in &namespaces {
        let mut g = vec![];
        for x in p {
            match snake(x) {
                Ok(x) => g.push(x),
                Err(_) => g.push(x.clone()),
            }
        }
        if let Some(o) = modules.insert(g.clone(), p.clone()) {
            acc.gray(format!("modules {:?} and {:?} meet", o, p));
        }
    }
    let mut names: BTreeSet<Vec<String>> = BTreeSet::new();
    for (p, (k, _)) in &kinds {
        let g = gen_path(p).unwrap_or_else(|_| p.clone());
        let mut mine = vec![g.clone()];
        let alt = |suffix: &str| {
            let mut q = g.clone();
            let l = q.pop().unwrap();
            q.push(format!("{}{}", l, suffix));
            q
        };
        if *k == Kind::Table {
            mine.push(alt("Args"));
            mine.push(alt("Builder"));
        }
        if *k == Kind::Enum {
            let mut q = g.clone();
            let l = q.pop().unwrap();
            q.push(format!("enum_name_{}", snake(&l).unwrap_or(l)));
            mine.push(q);
        }
        if *k == Kind::Union {
            let mut q = g.clone();
            let l = q.pop().unwrap();
            q.push("butte_gen".into());
            q.push(format!("{}Type", l));
            mine.push(q);
        }
        for m in mine {
            if modules.contains_key(&m) || !names.insert(m) {
                acc.gray("generated names meet");
            }
        }
        if service_names.contains(p) {
            acc.gray("a service named like a type");
        }
    }
    for p in &service_names {
        if modules.contains_key(p) {
            acc.gray("a service named like a module");
        }
    }
    let resolve = |ns: &[String], r: &[String]| -> Vec<String> {
        if r.len() == 1 {
            let mut v = ns.to_vec();
            v.push(r[0].clone());
            v
        } else {
            r.to_vec()
        }
    };

    let mut m = Meaning::default();
    for (ns, d) in &placed {
        match d {
            Decl::Table { doc, name, fields, .. } => {
                let mut out: Vec<MField> = vec![];
                let mut raw: BTreeSet<&str> = BTreeSet::new();
                let mut accessors: BTreeSet<String> = ["create", "get_root"].iter().map(|s| s.to_string()).collect();
                for f in fields {
                    if !raw.insert(&f.name) {
                        return bad(format!("field {} twice", f.name));
                    }
                    acc.soft(plain(&f.name))?;
                    let mut inner = &f.ty;
                    let mut depth = 0;
                    while let Ty::Vec(t) = inner {
                        inner = t;
                        depth += 1;
                    }
                    let mut enum_vals: Option<&Vec<Val>> = None;
                    let mut union_ = false;
                    let base = match inner {
                        Ty::B("string") => RTy::S("str"),
                        Ty::B(b) => RTy::S(scalar(b).unwrap()),
                        Ty::Name(r) => {
                            let p = resolve(ns, r);
                            match kinds.get(&p) {
                                None => return bad(format!("{:?} is undefined", p)),
                                Some((Kind::Enum, Decl::Enum { vals, .. })) => enum_vals = Some(vals),
                                Some((Kind::Union, _)) => union_ = true,
                                _ => (),
                            }
                            RTy::Path(gen_path(&p).unwrap_or_else(|_| p.clone()))
                        }
                        Ty::Vec(_) => unreachable!(),
                    };
                    if union_ && depth > 0 {
                        acc.gray("vector of unions");
                    }
                    let mut ty = base;
                    for _ in 0..depth {
                        ty = RTy::Vec(Box::new(ty));
                    }
                    let required = match &f.meta {
                        Some(v) => match v.iter().find(|e| e.0 == "required") {
                            None => false,
                            Some((_, None)) => true,
                            Some(_) => {
                                acc.gray("required with a value");
                                false
                            }
                        },
                        None => false,
                    };
                    if let Some(dv) = &f.default {
                        check_default(&mut acc, &ty, enum_vals.filter(|_| depth == 0), union_, dv)?;
                    }
                    let sn = snake(&f.name).unwrap_or_else(|_| f.name.clone());
                    if union_ && depth == 0 {
                        let companion = format!("{}_type", sn);
                        if !accessors.insert(companion) {
                            acc.gray("accessors meet");
                        }
                    }
                    if !accessors.insert(sn.clone()) {
                        acc.gray("accessors meet");
                    }
                    out.push(MField { name: sn, ty, required, union_: union_ && depth == 0, doc: f.doc.clone(), default: f.default.clone() });
                }
                let mut p = ns.clone();
                p.push(name.clone());
                m.items.insert(gen_path(&p).unwrap_or(p), Item::Table { doc: doc.clone(), fields: out });
            }
            Decl::Enum { doc, name, base, vals, .. } => {
                let b = match base {
                    Ty::B(b) => scalar(b),
                    _ => None,
                };
                let (b, (lo, hi)) = match b.and_then(|b| int_range(b).map(|r| (b, r))) {
                    Some(x) => x,
                    None => return bad(format!("base type of {}", name)),
                };
                let vs = values(&mut acc, vals, 0, lo, hi, &[])?;
                let mut p = ns.clone();
                p.push(name.clone());
                m.items.insert(gen_path(&p).unwrap_or(p), Item::Enum { doc: doc.clone(), base: b, vals: vs });
            }
            Decl::Union { doc, name, vals, .. } => {
                let vs = values(&mut acc, vals, 1, 0, 255, &[0])?;
                let mut alts = vec![];
                for (n, v, d) in vs {
                    let q = resolve(ns, &[n.clone()]);
                    match kinds.get(&q) {
                        None => return bad(format!("{:?} is undefined", q)),
                        Some((Kind::Table, _)) => (),
                        _ => acc.gray("union alternative that is no table"),
                    }
                    alts.push((n, gen_path(&q).unwrap_or(q), v, d));
                }
                let mut p = ns.clone();
                p.push(name.clone());
                m.items.insert(gen_path(&p).unwrap_or(p), Item::Union { doc: doc.clone(), alts });
            }
            Decl::Root(n) => {
                let p = resolve(ns, &[n.clone()]);
                match kinds.get(&p) {
                    None => return bad(format!("root {:?} is undefined", p)),
                    Some((Kind::Table, _)) => (),
                    _ => return bad("root is no table"),
                }
            }
            Decl::Rpc { doc, name, methods } => {
                let mut p = ns.clone();
                p.push(name.clone());
                let mut ms: Vec<MMethod> = vec![];
                for x in methods {
                    if ms.iter().any(|y| y.name == x.name) {
                        return bad(format!("method {} twice", x.name));
                    }
                    acc.soft(plain(&x.name))?;
                    let mut tys = vec![];
                    for r in [&x.req, &x.resp] {
                        let q = resolve(ns, r);
                        match kinds.get(&q) {
                            None => return bad(format!("{:?} is undefined", q)),
                            Some((Kind::Table, _)) => (),
                            _ => return bad("request or response is no table"),
                        }
                        tys.push(q);
                    }
                    let streaming = match x.meta.as_ref().and_then(|v| v.iter().find(|e| e.0 == "streaming")) {
                        None => "none",
                        Some((_, Some(Lit::Str(s)))) => match s.as_str() {
                            "client" => "client",
                            "server" => "server",
                            "bidi" => "bidi",
                            "none" => {
                                acc.gray("streaming none");
                                "none"
                            }
                            _ => return bad("streaming mode"),
                        },
                        Some(_) => return bad("streaming mode"),
                    };
                    ms.push(MMethod {
                        name: x.name.clone(),
                        snake: snake(&x.name).unwrap_or_default(),
                        resp: tys.pop().unwrap(),
                        req: tys.pop().unwrap(),
                        streaming,
                        doc: x.doc.clone(),
                    });
                }
                m.services.push(MService { path: p, doc: doc.clone(), methods: ms });
            }
            _ => unreachable!(),
        }
    }
    match acc.gray {
        Some(g) => gray(g),
        None => Ok(m),
    }
}

fn values(acc: &mut Acc, vals: &[Val], first: i128, lo: i128, hi: i128, taken: &[i128]) -> Result<Vec<(String, i128, Doc)>, No> {
    let mut next = first;
    let mut out: Vec<(String, i128, Doc)> = vec![];
    for v in vals {
        let x = v.value.unwrap_or(next);
        if out.iter().any(|o| o.0 == v.name) {
            return bad(format!("{} twice", v.name));
        }
        if x < lo || x > hi {
            return bad(format!("{} = {} out of range", v.name, x));
        }
        if out.iter().any(|o| o.1 == x) || taken.contains(&x) {
            return bad(format!("value {} twice", x));
        }
        acc.soft(plain(&v.name))?;
        next = x + 1;
        out.push((v.name.clone(), x, v.doc.clone()));
    }
    Ok(out)
}

fn check_default(acc: &mut Acc, ty: &RTy, enum_vals: Option<&Vec<Val>>, union_: bool, d: &Lit) -> Result<(), No> {
    if let Some(vals) = enum_vals {
        return match d {
            Lit::Ident(n) => {
                if vals.iter().any(|v| v.name == *n) {
                    Ok(())
                } else {
                    bad(format!("no value {}", n))
                }
            }
            Lit::Int(_) => {
                acc.gray("enum default given as a number");
                Ok(())
            }
            _ => bad("default of an enum"),
        };
    }
    let _ = union_;
    match ty {
        RTy::S("str") | RTy::Vec(_) | RTy::Path(_) => bad("default of a non-scalar"),
        RTy::S("bool") => match d {
            Lit::Bool(_) => Ok(()),
            Lit::Int(0) | Lit::Int(1) => {
                acc.gray("bool default given as a number");
                Ok(())
            }
            _ => bad("default of a bool"),
        },
        RTy::S(f @ ("f32" | "f64")) => match d {
            Lit::Int(_) => Ok(()),
            Lit::Float(x) => {
                if *f == "f32" && x.is_finite() && !(*x as f32).is_finite() {
                    acc.gray("float default beyond the range of 32 bits");
                }
                Ok(())
            }
            _ => bad("default of a float"),
        },
        RTy::S(i) => {
            let (lo, hi) = int_range(i).unwrap();
            match d {
                Lit::Int(x) if *x >= lo && *x <= hi => Ok(()),
                _ => bad("default of an integer"),
            }
        }
    }
}

/// parse and resolve
pub fn understand(text: &str) -> Result<Meaning, No> {
    meaning(&parse(text)?)
}
