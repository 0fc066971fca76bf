//! C18: schema text is parsed faithfully whatever its layout.  C19: literals.

use crate::conv;
use crate::lang::*;
use mc::Ch;

fn s(x: &str) -> String {
    x.to_string()
}
fn same(ch: &mut Ch, text: &str, want: &Schema) -> Result<(), String> {
    ch.note(|| format!("text: {:?}", text));
    let got = conv::parse(text).map_err(|p| format!("the parser panicked ({}) on {:?}", p, text))?;
    ch.step(1);
    ch.eval(1);
    match got {
        None => Err(format!("a schema is refused: {:?}", text)),
        Some(g) if g == *want => Ok(()),
        Some(g) => Err(format!("{:?} is read as {:?}, it says {:?}", text, g, want)),
    }
}

fn f(name: &str, ty: Ty) -> Field {
    Field { doc: vec![], name: s(name), ty, default: None, meta: None }
}
fn nm(p: &[&str]) -> Ty {
    Ty::Name(p.iter().map(|x| s(x)).collect())
}
fn v(name: &str, value: Option<i128>) -> Val {
    Val { doc: vec![], name: s(name), value }
}
fn m(x: &[(&str, Option<Lit>)]) -> Meta {
    Some(x.iter().map(|(k, v)| (s(k), v.clone())).collect())
}
fn t(name: &str, fields: Vec<Field>) -> Decl {
    Decl::Table { doc: vec![], name: s(name), meta: None, fields }
}

/// Declarations of every kind with every optional part present or not.
pub fn decls() -> Vec<Decl> {
    let d1 = || vec![s(" one")];
    let d2 = || vec![s(" first"), s(""), s("third / // ")];
    vec![
        t("A", vec![]),
        Decl::Table {
            doc: d1(),
            name: s("table_A"),
            meta: m(&[("k", None), ("l", Some(Lit::Int(-3))), ("m", Some(Lit::Str(s("x ; // y"))))]),
            fields: vec![
                Field { doc: d2(), name: s("x"), ty: Ty::B("int"), default: Some(Lit::Int(5)), meta: m(&[("id", Some(Lit::Int(0))), ("required", None)]) },
                Field { doc: vec![], name: s("y"), ty: Ty::Vec(Box::new(Ty::Vec(Box::new(nm(&["a", "b", "int"]))))), default: None, meta: None },
                Field { doc: d1(), name: s("z"), ty: nm(&["E"]), default: Some(Lit::Ident(s("nano"))), meta: None },
            ],
        },
        t("B", vec![f("a", nm(&["boolean"])), f("b", nm(&["int8x"])), f("c", nm(&["stringy"])), f("d", Ty::Vec(Box::new(Ty::B("string"))))]),
        t(
            "C",
            vec![
                Field { default: Some(Lit::Float(-1.5)), ..f("f", Ty::B("float")) },
                Field { default: Some(Lit::Bool(true)), ..f("g", Ty::B("bool")) },
                Field { default: Some(Lit::Float(f64::INFINITY)), ..f("h", Ty::B("double")) },
                Field { default: Some(Lit::Ident(s("true_"))), ..f("i", nm(&["E"])) },
                Field { default: Some(Lit::Ident(s("infinit"))), ..f("j", nm(&["E"])) },
            ],
        ),
        Decl::Struct { doc: d1(), name: s("S"), meta: m(&[("force_align", Some(Lit::Int(16)))]), fields: vec![f("x", Ty::B("ulong")), f("y", nm(&["S2"]))] },
        Decl::Enum { doc: vec![], name: s("E"), base: Ty::B("byte"), meta: None, vals: vec![v("X", None)] },
        Decl::Enum {
            doc: d2(),
            name: s("F"),
            base: Ty::B("uint64"),
            meta: m(&[("bit_flags", None)]),
            vals: vec![Val { doc: d1(), ..v("X", Some(-1)) }, Val { doc: d2(), ..v("Y", None) }, v("Z", Some(0x7fff_ffff_ffff_ffff))],
        },
        Decl::Union { doc: vec![], name: s("U"), meta: None, vals: vec![v("A", None), v("B", Some(7))] },
        Decl::Union { doc: d1(), name: s("V"), meta: m(&[("k", Some(Lit::Bool(false)))]), vals: vec![Val { doc: d2(), ..v("A", None) }] },
        Decl::Namespace { doc: vec![], path: vec![s("a")] },
        Decl::Namespace { doc: d1(), path: vec![s("a"), s("b"), s("namespace")] },
        Decl::Root(s("A")),
        Decl::FileExt { doc: d1(), ext: s("bin") },
        Decl::FileId { doc: vec![], id: s("ABCD") },
        Decl::Attr(s("prio")),
        Decl::Rpc {
            doc: d2(),
            name: s("Svc"),
            methods: vec![
                Method { doc: d1(), name: s("Get"), req: vec![s("A")], resp: vec![s("a"), s("b"), s("R")], meta: None },
                Method { doc: vec![], name: s("Put"), req: vec![s("a"), s("Q")], resp: vec![s("R")], meta: m(&[("streaming", Some(Lit::Str(s("server")))), ("x", None)]) },
            ],
        },
        Decl::Object {
            doc: d1(),
            vals: vec![
                (s("a"), JVal::Lit(Lit::Int(1))),
                (s("b"), JVal::List(vec![JVal::Lit(Lit::Str(s("q"))), JVal::List(vec![]), JVal::Obj(vec![(s("c"), JVal::Lit(Lit::Float(2.5)))])])),
            ],
        },
    ]
}

const FILL: [&str; 12] = [
    " ",
    "\t",
    "\n",
    "\r\n",
    " // c\n",
    "//\n",
    "//c\r\n",
    "// a ; } \" /// x\n",
    "\n\n\t \r\n ",
    "//one\n//two\n // three\n",
    "// \u{e9}\n",
    "     ",
];

fn render(toks: &[Tok], gaps: &dyn Fn(usize) -> Option<&'static str>) -> String {
    // gap i lies before token i; the last one behind everything
    let mut out = String::new();
    for (i, tk) in toks.iter().enumerate() {
        if i > 0 {
            if let Tok::Doc(_) = &toks[i - 1] {
                // a documentation line ends with its line break, which is not part of the gap
                out.push('\n');
            }
        }
        match gaps(i) {
            Some(g) => out.push_str(g),
            None => {
                if i > 0 && need_gap(&toks[i - 1], tk) && !matches!(toks[i - 1], Tok::Doc(_)) {
                    out.push(' ');
                }
            }
        }
        out.push_str(&tk.text());
    }
    if let Some(Tok::Doc(_)) = toks.last() {
        out.push('\n');
    }
    if let Some(g) = gaps(toks.len()) {
        out.push_str(g);
    }
    out
}

/// every declaration: no space at all, the same filler everywhere, every filler at every gap
pub fn c18_gap1(ch: &mut Ch) -> Result<(), String> {
    let ds = decls();
    let d = ch.pick(&ds).clone();
    let sc = conv::canonical(Schema { includes: vec![], decls: vec![d.clone()] });
    let toks = schema_toks(&Schema { includes: vec![], decls: vec![d] });
    let base = ch.choose(3);
    let k = ch.choose(toks.len() + 2);
    let fi = ch.choose(FILL.len() + 1);
    let uniform: Option<&'static str> = match base {
        0 => None,
        1 => Some(" "),
        _ => Some("\r\n"),
    };
    let fill: Option<&'static str> = if fi == 0 { None } else { Some(FILL[fi - 1]) };
    let text = if k == toks.len() + 1 {
        render(&toks, &|_| fill)
    } else {
        render(&toks, &|i| if i == k { fill } else { uniform })
    };
    ch.state(&text);
    ch.sample(|| text.clone());
    same(ch, &text, &sc)
}

/// every pair of gaps with every pair of fillers
pub fn c18_gap2(ch: &mut Ch) -> Result<(), String> {
    let ds = decls();
    let d = ch.pick(&ds).clone();
    let toks = schema_toks(&Schema { includes: vec![], decls: vec![d.clone()] });
    let sc = conv::canonical(Schema { includes: vec![], decls: vec![d] });
    let nf = ch.by_tier(8, FILL.len());
    let a = ch.choose(toks.len() + 1);
    let b = ch.choose(toks.len() + 1);
    if b <= a {
        return Ok(());
    }
    let fa = *ch.pick(&FILL[..nf]);
    let fb = *ch.pick(&FILL[..nf]);
    let text = render(&toks, &|i| if i == a { Some(fa) } else if i == b { Some(fb) } else { None });
    same(ch, &text, &sc)
}

/// all ordered pairs (thorough: triples) of declarations, with includes before them
pub fn c18_seqs(ch: &mut Ch) -> Result<(), String> {
    let ds = decls();
    let n = ch.by_tier(2, 3);
    let inc = ch.choose(3);
    let mut sc = Schema::default();
    for i in 0..inc {
        sc.includes.push((if i == 1 { vec![s(" doc")] } else { vec![] }, s(["a.fbs", "b/c.fbs"][i])));
    }
    for _ in 0..n {
        sc.decls.push(ch.pick(&ds).clone());
    }
    let fi = ch.choose(if n == 2 { FILL.len() + 1 } else { 3 });
    let fill: Option<&'static str> = if fi == 0 { None } else { Some(FILL[(fi - 1) * if n == 2 { 1 } else { 4 }]) };
    let text = render(&schema_toks(&sc), &|_| fill);
    ch.state(&text);
    let want = conv::canonical(sc);
    same(ch, &text, &want)
}

/// every name (keywords, names beginning with keywords and types, underscores, digits, other
/// scripts) in every position of a declaration
pub fn c18_names(ch: &mut Ch) -> Result<(), String> {
    const N: [&str; 44] = [
        "a", "Z", "_", "_x", "x_", "x9", "A_b_9", "table", "tables", "table_", "struct", "enum", "enums", "union", "namespace", "namespaces",
        "root_type", "rpc_service", "include", "includes", "attribute", "file_extension", "file_identifier", "int", "integer", "int8",
        "int88", "bool", "boolean", "string", "strings", "byte", "float", "float32", "float3", "true", "truex", "nan", "nan_", "inf",
        "infinity", "infinitys", "\u{e9}t\u{e9}", "Table",
    ];
    let a = s(ch.pick(&N));
    let b = s(ch.pick(&N));
    let k = ch.choose(9);
    let word = |x: &str| literal(x) != Ok(None);
    let d = match k {
        0 => t(&a, vec![f(&b, Ty::B("int"))]),
        1 => {
            let mk = |x: &str| match BUILTINS.iter().find(|q| **q == x) {
                Some(q) => Ty::B(q),
                None => nm(&[x]),
            };
            t("T", vec![f("x", mk(&a)), f("y", Ty::Vec(Box::new(mk(&b))))])
        }
        2 => t("T", vec![f("x", nm(&[&a, &b])), f("y", Ty::Vec(Box::new(nm(&[&b, "q", &a]))))]),
        3 => {
            let dv = |x: &str| literal(x).unwrap().unwrap_or(Lit::Ident(s(x)));
            t("T", vec![Field { default: Some(dv(&a)), ..f("x", nm(&["E"])) }, Field { default: Some(dv(&b)), meta: m(&[("k", None)]), ..f("y", nm(&["E"])) }])
        }
        4 => Decl::Enum { doc: vec![], name: a.clone(), base: Ty::B("byte"), meta: None, vals: vec![v(&b, None), v(&a, Some(3))] },
        5 => Decl::Union { doc: vec![], name: a.clone(), meta: m(&[(&b, None)]), vals: vec![v(&b, None)] },
        6 => Decl::Namespace { doc: vec![], path: vec![a.clone(), b.clone()] },
        7 => Decl::Rpc {
            doc: vec![],
            name: a.clone(),
            methods: vec![Method { doc: vec![], name: b.clone(), req: vec![b.clone()], resp: vec![a.clone(), b.clone()], meta: None }],
        },
        _ => Decl::Table { doc: vec![], name: s("T"), meta: m(&[(&a, Some(Lit::Int(1)))]), fields: vec![Field { meta: m(&[(&b, Some(Lit::Str(a.clone())))]), ..f("x", Ty::B("int")) }] },
    };
    let _ = word;
    let root = ch.flag();
    let mut sc = Schema { includes: vec![], decls: vec![d] };
    if root {
        sc.decls.push(Decl::Root(a));
    }
    let fill: Option<&'static str> = *ch.pick(&[None, Some(" "), Some("//c\n")]);
    let text = render(&schema_toks(&sc), &|_| fill);
    ch.state(&text);
    let want = conv::canonical(sc);
    same(ch, &text, &want)
}

/// fields: every type x default x attributes x documentation
pub fn c18_fields(ch: &mut Ch) -> Result<(), String> {
    let mut tys: Vec<Ty> = BUILTINS.iter().map(|b| Ty::B(b)).collect();
    tys.push(nm(&["T"]));
    tys.push(nm(&["a", "b", "T"]));
    tys.push(Ty::Vec(Box::new(Ty::B("int"))));
    tys.push(Ty::Vec(Box::new(Ty::Vec(Box::new(Ty::Vec(Box::new(nm(&["x", "Y"]))))))));
    let ty = ch.pick(&tys).clone();
    let defs = [None, Some(Lit::Int(0)), Some(Lit::Int(-128)), Some(Lit::Float(0.5)), Some(Lit::Bool(false)), Some(Lit::Ident(s("V")))];
    let default = ch.pick(&defs).clone();
    let metas = [
        None,
        Some(vec![]),
        m(&[("required", None)]),
        m(&[("a", Some(Lit::Int(1))), ("b", Some(Lit::Str(s("")))), ("c", Some(Lit::Float(1.5))), ("d", Some(Lit::Bool(true))), ("e", None)]),
    ];
    let meta = ch.pick(&metas).clone();
    let docs = [vec![], vec![s("")], vec![s(" a"), s("b"), s("\tc ")]];
    let doc = ch.pick(&docs).clone();
    let fl = Field { doc, name: s("x"), ty, default, meta };
    let two = ch.flag();
    let mut fields = vec![fl.clone()];
    if two {
        fields.push(Field { name: s("y"), ..fl });
    }
    let sc = Schema { includes: vec![], decls: vec![t("T", fields)] };
    let fi = ch.choose(FILL.len() + 1);
    let fill: Option<&'static str> = if fi == 0 { None } else { Some(FILL[fi - 1]) };
    let text = render(&schema_toks(&sc), &|_| fill);
    let want = conv::canonical(sc);
    same(ch, &text, &want)
}

/// documentation in every place that takes it, up to three lines from a list of contents
pub fn c18_docs(ch: &mut Ch) -> Result<(), String> {
    const L: [&str; 9] = ["", " x", "x", " / a", " // b", " \"q\" \\ ; }", "\t", " trailing ", " \u{e9}\u{1F600}"];
    let n = ch.range(1, 3);
    let doc: Doc = (0..n).map(|_| s(ch.pick(&L))).collect();
    let k = ch.choose(9);
    let d = match k {
        0 => Decl::Table { doc, name: s("T"), meta: None, fields: vec![] },
        1 => t("T", vec![f("w", Ty::B("int")), Field { doc, ..f("x", Ty::B("int")) }]),
        2 => Decl::Enum { doc, name: s("E"), base: Ty::B("int"), meta: None, vals: vec![v("A", None)] },
        3 => Decl::Enum { doc: vec![], name: s("E"), base: Ty::B("int"), meta: None, vals: vec![v("A", None), Val { doc, ..v("B", None) }, v("C", None)] },
        4 => Decl::Union { doc, name: s("U"), meta: None, vals: vec![v("A", None)] },
        5 => Decl::Union { doc: vec![], name: s("U"), meta: None, vals: vec![v("A", None), Val { doc, ..v("B", None) }] },
        6 => Decl::Rpc { doc, name: s("S"), methods: vec![Method { doc: vec![], name: s("M"), req: vec![s("A")], resp: vec![s("A")], meta: None }] },
        7 => Decl::Rpc { doc: vec![], name: s("S"), methods: vec![Method { doc, name: s("M"), req: vec![s("A")], resp: vec![s("A")], meta: None }] },
        _ => Decl::Namespace { doc, path: vec![s("n")] },
    };
    let sc = Schema { includes: vec![], decls: vec![t("Z", vec![]), d] };
    let fill: Option<&'static str> = *ch.pick(&[None, Some(" "), Some("\n"), Some("\t")]);
    let crlf = ch.flag();
    let mut text = render(&schema_toks(&sc), &|_| fill);
    if crlf {
        text = text.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    same(ch, &text, &sc)
}

/// everything that can be long or many, at every length
pub fn c18_lengths(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(130, 400);
    let k = ch.choose(16);
    let i = ch.choose(top + 5);
    let n = if i < top { i + 1 } else { [255, 256, 257, 1000, 1024][i - top] };
    // the parser need not take such nesting
    if k == 13 && n > 32 {
        return Ok(());
    }
    let long = |c: &str| c.repeat(n);
    let many = |p: &str| -> Vec<String> { (0..n).map(|i| format!("{}{}", p, i)).collect() };
    let mut gap: Option<String> = None;
    let tab = t("T", vec![f("x", Ty::B("int"))]);
    let d = match k {
        0 => t(&long("a"), vec![Field { meta: Some(vec![(long("k"), None)]), default: Some(Lit::Ident(long("d"))), ..f(&long("b"), nm(&[&long("c")])) }]),
        1 => Decl::Namespace { doc: vec![], path: many("n") },
        2 => t("T", vec![f("x", Ty::Name(many("n")))]),
        3 => Decl::Table { doc: vec![long("-")], name: s("T"), meta: None, fields: vec![Field { doc: vec![long("\u{e9}")], ..f("x", Ty::B("int")) }] },
        4 => Decl::Table { doc: many(" "), name: s("T"), meta: None, fields: vec![Field { doc: many(""), ..f("x", Ty::B("int")) }] },
        5 => {
            gap = Some(format!("//{}\n", long("c")));
            tab
        }
        6 => {
            gap = Some(long(" "));
            tab
        }
        7 => {
            gap = Some(long("//\n"));
            tab
        }
        8 => Decl::Table { doc: vec![], name: s("T"), meta: Some(many("k").into_iter().map(|x| (x, Some(Lit::Str(long("s"))))).take(n.min(130)).collect()), fields: vec![] },
        9 => t("T", many("f").iter().map(|x| f(x, Ty::B("int"))).collect()),
        10 => Decl::Enum { doc: vec![], name: s("E"), base: Ty::B("int"), meta: None, vals: many("V").iter().map(|x| v(x, None)).collect() },
        11 => Decl::Union { doc: vec![], name: s("U"), meta: None, vals: many("A").iter().map(|x| v(x, None)).collect() },
        12 => Decl::Rpc { doc: vec![], name: s("S"), methods: many("M").into_iter().map(|x| Method { doc: vec![], name: x, req: vec![s("A")], resp: vec![s("A")], meta: None }).collect() },
        13 => t("T", vec![f("x", (0..n).fold(Ty::B("int"), |t, _| Ty::Vec(Box::new(t))))]),
        14 => Decl::Object { doc: vec![], vals: many("o").into_iter().map(|x| (x, JVal::Lit(Lit::Int(1)))).collect() },
        _ => {
            gap = Some(long("\r\n"));
            Decl::Enum { doc: vec![], name: s("E"), base: Ty::B("int"), meta: None, vals: vec![v("A", Some(1)), v("B", None)] }
        }
    };
    let mut sc = Schema { includes: vec![], decls: vec![d] };
    // the same again behind it, and many declarations or includes
    match ch.choose(3) {
        0 => (),
        1 => sc.decls.push(t("Z", vec![f("z", Ty::B("bool"))])),
        _ => {
            if n > 130 {
                return Ok(());
            }
            for i in 0..n {
                sc.includes.push((vec![], format!("i{}.fbs", i)));
                sc.decls.push(t(&format!("Z{}", i), vec![]));
            }
        }
    }
    let gap: Option<&'static str> = gap.map(|g| &*Box::leak(g.into_boxed_str()));
    let text = render(&schema_toks(&sc), &|_| gap.or(Some(" ")));
    ch.state(&text);
    let want = conv::canonical(sc);
    match same(ch, &text, &want) {
        Err(e) if e.len() > 1500 => Err(format!("kind {} of length {}: {}...", k, n, e.chars().take(1000).collect::<String>())),
        r => r,
    }
}

/// texts that are almost schemas: accepted exactly when the reference accepts, with the same tree
pub fn both(ch: &mut Ch, text: &str) -> Result<(), String> {
    ch.note(|| format!("text: {:?}", text));
    let got = conv::parse(text).map_err(|p| format!("the parser panicked ({}) on {:?}", p, text))?;
    ch.step(1);
    ch.eval(1);
    match (parse(text), got) {
        (Ok(w), Some(g)) => {
            let w = conv::canonical(w);
            if w != g {
                return Err(format!("{:?} is read as {:?}, it says {:?}", text, g, w));
            }
            Ok(())
        }
        (Ok(_), None) => Err(format!("a schema is refused: {:?}", text)),
        (Err(No::Bad(e)), Some(g)) => Err(format!("not a schema ({}), yet read as {:?}: {:?}", e, g, text)),
        _ => Ok(()),
    }
}
pub fn c18_tokens(ch: &mut Ch) -> Result<(), String> {
    let t = crate::c_text::gen_tokens(ch);
    both(ch, &t)
}
pub fn c18_edits(ch: &mut Ch) -> Result<(), String> {
    match crate::c_text::gen_edit(ch) {
        Some(t) => both(ch, &t),
        None => Ok(()),
    }
}
pub fn c18_chars(ch: &mut Ch) -> Result<(), String> {
    match crate::c_text::gen_char(ch) {
        Some(t) => both(ch, &t),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- C19

const CTX: [(&str, &str); 10] = [
    ("table A{x:int=", ";}"),
    ("table A { x : int = ", " ; }"),
    ("table A{x:int=", "(k);}"),
    ("table A{x:int=", "// c\n;}"),
    ("enum E:int{A=", "}"),
    ("enum E:int{A=", ",B}"),
    ("table A(k:", "){}"),
    ("table A(k:", ",l){}"),
    ("{a:", "}"),
    ("{a:[", ",1]}"),
];

fn lit_at(ch: &mut Ch, k: usize, l: &str) -> Result<(), String> {
    let text = format!("{}{}{}", CTX[k].0, l, CTX[k].1);
    ch.note(|| format!("text: {:?}", text));
    let got = conv::parse(&text).map_err(|p| format!("the parser panicked ({}) on {:?}", p, text))?;
    ch.step(1);
    ch.eval(1);
    // the value, where the tree holds it
    let val: Option<Lit> = got.and_then(|g| match &g.decls[..] {
        [Decl::Table { fields, meta, .. }] => match (&fields[..], meta) {
            ([f], _) => f.default.clone(),
            (_, Some(m)) => m.iter().find(|e| e.0 == "k").and_then(|e| e.1.clone()),
            _ => None,
        },
        [Decl::Enum { vals, .. }] => vals[0].value.map(Lit::Int),
        [Decl::Object { vals, .. }] => match &vals[0].1 {
            JVal::Lit(l) => Some(l.clone()),
            JVal::List(l) => match &l[0] {
                JVal::Lit(l) => Some(l.clone()),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    });
    // the reference sees the same text, so that literals that end early are seen as such
    let want: Option<Lit> = match parse(&text) {
        Err(No::Gray(_)) => return Ok(()),
        Err(No::Bad(_)) => None,
        Ok(_) => match lex(l) {
            Ok(tk) if tk.len() == 1 => match &tk[0] {
                Tok::Num(x) | Tok::Id(x) => match literal(x) {
                    Ok(Some(v)) => Some(v),
                    Ok(None) => Some(Lit::Ident(x.clone())),
                    Err(_) => return Ok(()),
                },
                Tok::Str(x) => Some(Lit::Str(x.clone())),
                _ => return Ok(()),
            },
            _ => return Ok(()),
        },
    };
    if let Some(v) = &val {
        ch.state(format!("{:?}", v));
    }
    ch.sample(|| format!("{} = {:?}", l, val));
    if val != want {
        return Err(format!("{:?} in {:?} has the value {:?}, its notation says {:?}", l, text, val, want));
    }
    Ok(())
}

/// all short strings over the characters of literals
pub fn c19_all(ch: &mut Ch) -> Result<(), String> {
    const AB: [char; 12] = ['0', '1', '9', '.', '-', '+', 'e', 'E', 'x', 'p', 'a', 'F'];
    let k = ch.choose(CTX.len());
    let n = if k == 0 { ch.by_tier(5, 6) } else { ch.by_tier(4, 5) };
    let len = ch.range(1, n);
    let l: String = (0..len).map(|_| *ch.pick(&AB)).collect();
    lit_at(ch, k, &l)
}

/// structured literals: sign x form x mantissa x exponent
pub fn c19_floats(ch: &mut Ch) -> Result<(), String> {
    let k = ch.choose(CTX.len());
    let sign = *ch.pick(&["", "-", "+"]);
    let hex = ch.flag();
    let l = if hex {
        let m = *ch.pick(&[
            "0x0", "0x1", "0x1.8", "0X1.8", "0xA.b", "0x.8", "0xff.ff", "0x1.fffffffffffff", "0x1.fffffffffffff8", "0x1.fffffffffffffc", "0x10000000000000", "0x1.", "0x0.0000001", "0xF", "0x8000000000000000",
        ]);
        let p = *ch.pick(&["", "p", "P"]);
        if p.is_empty() {
            m.to_string()
        } else {
            let e = *ch.pick(&["0", "1", "-1", "+4", "10", "-52", "1023", "1024", "-1022", "-1074", "-1075", "-1100", "007", "", "-", "x"]);
            format!("{}{}{}", m, p, e)
        }
    } else {
        let m = *ch.pick(&[
            "0", "1", "3", "00", "007", "0.0", "0.1", ".5", "5.", "1.5", "123.456", "0.30000000000000004", "9007199254740993", "9007199254740993.0", "179769313486231570000", "4.9406564584124654",
            "2.2250738585072011", "1.7976931348623157", "1.7976931348623159", "16777217.0", "0.000001",
        ]);
        let p = *ch.pick(&["", "e", "E"]);
        if p.is_empty() {
            m.to_string()
        } else {
            let e = *ch.pick(&["0", "1", "-1", "+2", "10", "22", "-22", "23", "308", "309", "-308", "-324", "-400", "007", "", "-", "+-1", ".5"]);
            format!("{}{}{}", m, p, e)
        }
    };
    lit_at(ch, k, &format!("{}{}", sign, l))
}

/// numbers of many digits
pub fn c19_digits(ch: &mut Ch) -> Result<(), String> {
    const D: &str = "31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679821480865132823066470938446095505822317253594081284811174502841027019385211055596446229489549303819";
    let k = ch.choose(CTX.len());
    let top = ch.by_tier(60, 160);
    let n = ch.range(1, top);
    let form = ch.choose(10);
    let sign = *ch.pick(&["", "-"]);
    let d = &D[..n];
    let l = match form {
        0 => format!("{}.5", d),
        1 => format!("0.{}", d),
        2 => format!("{}.{}", d, d),
        3 => format!("{}.", d),
        4 => format!(".{}", d),
        5 => format!("{}e3", d),
        6 => format!("{}.25e-7", d),
        7 => format!("0.{}1e{}", "0".repeat(n), n),
        8 => format!("{}.0", "0".repeat(n) + "7"),
        _ => d.to_string(),
    };
    lit_at(ch, k, &format!("{}{}", sign, l))
}

/// integers around every power of two, in both notations
pub fn c19_ints(ch: &mut Ch) -> Result<(), String> {
    let k = ch.choose(CTX.len());
    let p = ch.choose(127);
    let d = ch.choose(3) as i128 - 1;
    let x: i128 = (1i128 << p) + d;
    let form = ch.choose(8);
    let l = match form {
        0 => format!("{}", x),
        1 => format!("-{}", x.unsigned_abs()),
        2 => format!("+{}", x),
        3 => format!("0x{:x}", x),
        4 => format!("-0x{:X}", x),
        5 => format!("0X{:X}", x),
        6 => format!("000{}", x),
        _ => format!("0x00{:x}", x),
    };
    lit_at(ch, k, &l)
}

/// the words, everything that begins or ends like one, and other cases
pub fn c19_words(ch: &mut Ch) -> Result<(), String> {
    const W: [&str; 14] = ["true", "false", "nan", "inf", "infinity", "True", "FALSE", "NaN", "Inf", "INFINITY", "tru", "infinit", "na", "t"];
    const S: [&str; 22] = [
        "", "_", "x", "1", "s", "ity", "true", "nan", "e1", ".0", "-", "+1", " ", " x", "/", "//", "\"", "\u{e9}", "=", ":", "_1", "inf",
    ];
    let k = ch.choose(CTX.len());
    let w = *ch.pick(&W);
    let suf = *ch.pick(&S);
    let pre = *ch.pick(&["", "-", "+", "_", "1", "x", "--", "- ", ".", "0x"]);
    lit_at(ch, k, &format!("{}{}{}", pre, w, suf))
}

/// the same literal between all kinds of neighbours
pub fn c19_around(ch: &mut Ch) -> Result<(), String> {
    const L: [&str; 18] = [
        "0", "1", "-1", "0x1F", "-0x1f", "1.5", "-1.5", ".5", "1e3", "1.5e-3", "0x1.8p1", "true", "false", "nan", "inf", "-inf", "infinity", "-infinity",
    ];
    const G: [&str; 8] = ["", " ", "\t", "\n", "\r\n", "//c\n", " // true\n", "//\r\n"];
    let l = *ch.pick(&L);
    let a = *ch.pick(&G);
    let b = *ch.pick(&G);
    let k = ch.choose(CTX.len());
    let text = format!("{}{}{}{}{}", CTX[k].0, a, l, b, CTX[k].1);
    both(ch, &text)
}
