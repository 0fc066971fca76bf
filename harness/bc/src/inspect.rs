//! Reads generated code as Rust (with an independent version of syn) and describes the items in
//! it: modules, tables with accessors, enums, unions and their documentation.

use crate::lang::Doc;
use crate::sem::{Item, Meaning, RTy};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syn2 as syn;
use syn2::spanned::Spanned;

#[derive(Clone, Debug)]
pub struct Acc {
    pub name: String,
    pub optional: bool,
    pub ty: Result<RTy, String>,
    pub doc: Doc,
}
#[derive(Clone, Debug, Default)]
pub struct StructInfo {
    pub doc: Doc,
    pub accs: Vec<Acc>,
    pub field_docs: Vec<(String, Doc)>,
}
#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub doc: Doc,
    pub disc: Option<i128>,
    pub payload: Option<Result<RTy, String>>,
}
#[derive(Clone, Debug)]
pub struct EnumInfo {
    pub doc: Doc,
    pub repr: Option<String>,
    pub vars: Vec<VarInfo>,
}
#[derive(Default, Debug)]
pub struct Code {
    pub structs: BTreeMap<Vec<String>, StructInfo>,
    pub enums: BTreeMap<Vec<String>, EnumInfo>,
    pub modules: BTreeSet<Vec<String>>,
    /// documentation of everything else
    pub other_docs: Vec<(String, Doc)>,
}

pub fn docs(attrs: &[syn::Attribute]) -> Doc {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("doc") {
            if let syn::Meta::NameValue(nv) = &a.meta {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    // one attribute may hold several lines
                    v.extend(s.value().split('\n').map(str::to_string));
                }
            }
        }
    }
    v
}

fn abs_path(module: &[String], p: &syn::Path) -> Vec<String> {
    let mut segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let mut cur: Vec<String> = module.to_vec();
    if segs.first().map(|s| s == "crate").unwrap_or(false) {
        cur.clear();
        segs.remove(0);
    }
    while let Some(f) = segs.first() {
        if f == "self" && segs.len() > 1 {
            segs.remove(0);
        } else if f == "super" {
            if cur.pop().is_none() {
                cur.push("<above the root>".into());
            }
            segs.remove(0);
        } else {
            break;
        }
    }
    cur.extend(segs);
    cur
}

fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn args(p: &syn::Path) -> Vec<&syn::Type> {
    match &p.segments.last().unwrap().arguments {
        syn::PathArguments::AngleBracketed(a) => a
            .args
            .iter()
            .filter_map(|x| match x {
                syn::GenericArgument::Type(t) => Some(t),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
fn is_runtime(p: &syn::Path, name: &str) -> bool {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    s.len() >= 2 && s[s.len() - 2] == "butte" && s[s.len() - 1] == name
}

const SCALARS: [&str; 11] = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"];

pub fn rty(module: &[String], t: &syn::Type) -> Result<RTy, String> {
    match t {
        syn::Type::Reference(r) => rty(module, &r.elem),
        syn::Type::Paren(r) => rty(module, &r.elem),
        syn::Type::Group(r) => rty(module, &r.elem),
        syn::Type::Path(tp) => {
            let p = &tp.path;
            if is_runtime(p, "ForwardsUOffset") {
                return rty(module, args(p).first().ok_or("no argument")?);
            }
            if is_runtime(p, "Vector") {
                return Ok(RTy::Vec(Box::new(rty(module, args(p).first().ok_or("no argument")?)?)));
            }
            if p.segments.len() == 1 {
                let n = last(p);
                if n == "str" {
                    return Ok(RTy::S("str"));
                }
                if let Some(s) = SCALARS.iter().find(|s| **s == n) {
                    return Ok(RTy::S(s));
                }
            }
            Ok(RTy::Path(abs_path(module, p)))
        }
        _ => Err(format!("unreadable type at {:?}", t.span())),
    }
}

/// Result<X, _> -> X
fn result_arg(t: &syn::ReturnType) -> Option<&syn::Type> {
    if let syn::ReturnType::Type(_, t) = t {
        if let syn::Type::Path(p) = &**t {
            if last(&p.path) == "Result" {
                return args(&p.path).first().copied();
            }
        }
    }
    None
}

fn lit_int(e: &syn::Expr) -> Option<i128> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_digits().parse().ok(),
        syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => lit_int(expr).map(|x| -x),
        syn::Expr::Paren(p) => lit_int(&p.expr),
        syn::Expr::Group(p) => lit_int(&p.expr),
        syn::Expr::Cast(c) => lit_int(&c.expr),
        _ => None,
    }
}

fn walk(items: &[syn::Item], module: &[String], code: &mut Code) -> Result<(), String> {
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                let mut p = module.to_vec();
                p.push(m.ident.to_string());
                if !code.modules.insert(p.clone()) {
                    return Err(format!("module {:?} twice", p));
                }
                code.other_docs.push((format!("mod {}", m.ident), docs(&m.attrs)));
                if let Some((_, items)) = &m.content {
                    walk(items, &p, code)?;
                }
            }
            syn::Item::Struct(s) => {
                let mut p = module.to_vec();
                p.push(s.ident.to_string());
                let e = code.structs.entry(p).or_default();
                e.doc = docs(&s.attrs);
                for f in &s.fields {
                    e.field_docs.push((f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), docs(&f.attrs)));
                }
            }
            syn::Item::Enum(en) => {
                let mut p = module.to_vec();
                p.push(en.ident.to_string());
                let mut repr = None;
                for a in &en.attrs {
                    if a.path().is_ident("repr") {
                        let _ = a.parse_nested_meta(|m| {
                            repr = m.path.get_ident().map(|i| i.to_string());
                            Ok(())
                        });
                    }
                }
                let mut vars = vec![];
                let mut next: Option<i128> = Some(0);
                for v in &en.variants {
                    let disc = match &v.discriminant {
                        Some((_, e)) => lit_int(e),
                        None => next,
                    };
                    next = disc.map(|d| d + 1);
                    let payload = v.fields.iter().next().map(|f| rty(module, &f.ty));
                    vars.push(VarInfo { name: v.ident.to_string(), doc: docs(&v.attrs), disc, payload });
                }
                if code.enums.insert(p.clone(), EnumInfo { doc: docs(&en.attrs), repr, vars }).is_some() {
                    return Err(format!("enum {:?} twice", p));
                }
            }
            syn::Item::Impl(im) => {
                let ty = match &*im.self_ty {
                    syn::Type::Path(p) => abs_path(module, &p.path),
                    _ => continue,
                };
                code.other_docs.push(("impl".into(), docs(&im.attrs)));
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let recv = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(_)));
                        let public = matches!(f.vis, syn::Visibility::Public(_));
                        match (im.trait_.is_none() && recv && public && f.sig.inputs.len() == 1, result_arg(&f.sig.output)) {
                            (true, Some(t)) => {
                                let (optional, inner) = match t {
                                    syn::Type::Path(p) if last(&p.path) == "Option" => (true, args(&p.path)[0]),
                                    t => (false, t),
                                };
                                code.structs.entry(ty.clone()).or_default().accs.push(Acc {
                                    name: f.sig.ident.to_string(),
                                    optional,
                                    ty: rty(module, inner),
                                    doc: docs(&f.attrs),
                                });
                            }
                            _ => code.other_docs.push((format!("fn {}", f.sig.ident), docs(&f.attrs))),
                        }
                    }
                }
            }
            syn::Item::Fn(f) => code.other_docs.push((format!("fn {}", f.sig.ident), docs(&f.attrs))),
            _ => (),
        }
    }
    Ok(())
}

/// The same code often comes out of many schema texts.
pub fn inspect(text: &str) -> Result<Rc<Code>, String> {
    thread_local!(static SEEN: RefCell<(usize, HashMap<String, Rc<Code>>)> = RefCell::default());
    if let Some(c) = SEEN.with(|s| s.borrow().1.get(text).cloned()) {
        return Ok(c);
    }
    let c = Rc::new(inspect_once(text)?);
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        s.0 += text.len();
        if s.0 > 100_000_000 {
            *s = Default::default();
        }
        s.1.insert(text.to_string(), c.clone());
    });
    Ok(c)
}

fn inspect_once(text: &str) -> Result<Code, String> {
    let f = syn::parse_file(text).map_err(|e| format!("generated code is not Rust: {}", e))?;
    let mut code = Code::default();
    walk(&f.items, &[], &mut code)?;
    Ok(code)
}

pub fn is_args_or_builder(code: &Code, p: &[String]) -> bool {
    let l = p.last().unwrap();
    ["Args", "Builder"].iter().any(|s| {
        l.strip_suffix(s)
            .map(|b| {
                let mut q = p[..p.len() - 1].to_vec();
                q.push(b.to_string());
                code.structs.contains_key(&q)
            })
            .unwrap_or(false)
    })
}

/// Does the generated code describe exactly the items of the meaning?  Compares what the code
/// offers: types, accessors with their types, values; not how it is written.
pub fn compare(code: &Code, m: &Meaning) -> Result<u64, String> {
    let mut n = 0;
    let mut expected_structs: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut expected_enums: BTreeSet<Vec<String>> = BTreeSet::new();
    for (p, it) in &m.items {
        match it {
            Item::Table { fields, .. } => {
                expected_structs.insert(p.clone());
                let s = code.structs.get(p).ok_or_else(|| format!("table {:?} is not generated", p))?;
                let mut want: BTreeMap<&str, (&RTy, bool)> = BTreeMap::new();
                for f in fields {
                    want.insert(&f.name, (&f.ty, f.required));
                }
                for f in fields {
                    let a: Vec<&Acc> = s.accs.iter().filter(|a| a.name == f.name).collect();
                    if a.len() != 1 {
                        return Err(format!("table {:?} has {} accessors {}", p, a.len(), f.name));
                    }
                    let a = a[0];
                    match &a.ty {
                        Err(_) => (),
                        Ok(t) => {
                            if *t != f.ty {
                                return Err(format!("accessor {} of {:?} has type {:?}, the schema says {:?}", f.name, p, t, f.ty));
                            }
                        }
                    }
                    if a.optional == f.required {
                        return Err(format!("accessor {} of {:?}: optional={}, required in the schema={}", f.name, p, a.optional, f.required));
                    }
                    n += 1;
                }
                for a in &s.accs {
                    let companion = fields.iter().any(|f| f.union_ && a.name == format!("{}_type", f.name));
                    if !companion && !want.contains_key(a.name.as_str()) {
                        return Err(format!("table {:?} has an accessor {} the schema does not declare", p, a.name));
                    }
                }
            }
            Item::Enum { base, vals, .. } => {
                expected_enums.insert(p.clone());
                let e = code.enums.get(p).ok_or_else(|| format!("enum {:?} is not generated", p))?;
                if let Some(r) = &e.repr {
                    if r != base {
                        return Err(format!("enum {:?} is represented as {}, the schema says {}", p, r, base));
                    }
                }
                vals_eq(p, e, vals.iter().map(|v| (v.0.as_str(), v.1)))?;
                n += vals.len() as u64;
            }
            Item::Union { alts, .. } => {
                expected_enums.insert(p.clone());
                let e = code.enums.get(p).ok_or_else(|| format!("union {:?} is not generated", p))?;
                if e.vars.len() != alts.len() {
                    return Err(format!("union {:?} has {} alternatives instead of {}", p, e.vars.len(), alts.len()));
                }
                for (v, a) in e.vars.iter().zip(alts) {
                    if v.name != a.0 {
                        return Err(format!("union {:?} has {} in place of {}", p, v.name, a.0));
                    }
                    if let Some(Ok(t)) = &v.payload {
                        if *t != RTy::Path(a.1.clone()) {
                            return Err(format!("alternative {} of {:?} holds {:?} instead of {:?}", a.0, p, t, a.1));
                        }
                    }
                    n += 1;
                }
                // companion with the tags, if it is where it is expected
                let mut q = p[..p.len() - 1].to_vec();
                q.push("butte_gen".into());
                q.push(format!("{}Type", p.last().unwrap()));
                expected_enums.insert(q.clone());
                if let Some(e) = code.enums.get(&q) {
                    vals_eq(&q, e, std::iter::once(("None", 0)).chain(alts.iter().map(|a| (a.0.as_str(), a.2))))?;
                }
            }
        }
    }
    for p in code.structs.keys() {
        if !p.iter().any(|s| s == "butte_gen") && !expected_structs.contains(p) && !is_args_or_builder(code, p) && !code.enums.contains_key(p) {
            return Err(format!("struct {:?} is generated, the schema declares no such table", p));
        }
    }
    for p in code.enums.keys() {
        if !p.iter().any(|s| s == "butte_gen") && !expected_enums.contains(p) {
            return Err(format!("enum {:?} is generated, the schema declares no such type", p));
        }
    }
    Ok(n)
}

fn vals_eq<'a>(p: &[String], e: &EnumInfo, want: impl Iterator<Item = (&'a str, i128)>) -> Result<(), String> {
    let want: Vec<(&str, i128)> = want.collect();
    let got: Vec<&str> = e.vars.iter().map(|v| v.name.as_str()).collect();
    if got != want.iter().map(|w| w.0).collect::<Vec<_>>() {
        return Err(format!("{:?} has values {:?} instead of {:?}", p, got, want));
    }
    for (v, w) in e.vars.iter().zip(&want) {
        if let Some(d) = v.disc {
            if d != w.1 {
                return Err(format!("{:?}: {} is {} instead of {}", p, v.name, d, w.1));
            }
        }
    }
    Ok(())
}
