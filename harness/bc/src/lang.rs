//! An independent description of the schema language: syntax trees, tokens, rendering, and a
//! reference lexer and parser.  Nothing here uses the code under test.

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    B(&'static str),
    Vec(Box<Ty>),
    Name(Vec<String>),
}

pub const BUILTINS: [&str; 22] = [
    "bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "long", "ulong", "double", "int8", "uint8", "int16", "uint16",
    "int32", "uint32", "int64", "uint64", "float32", "float64", "string",
];

#[derive(Clone, Debug)]
pub enum Lit {
    Int(i128),
    Float(f64),
    Bool(bool),
    Ident(String),
    Str(String),
}
impl PartialEq for Lit {
    fn eq(&self, o: &Lit) -> bool {
        match (self, o) {
            (Lit::Int(a), Lit::Int(b)) => a == b,
            // exact, with sign of zero; all NaNs are the same
            (Lit::Float(a), Lit::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Lit::Bool(a), Lit::Bool(b)) => a == b,
            (Lit::Ident(a), Lit::Ident(b)) => a == b,
            (Lit::Str(a), Lit::Str(b)) => a == b,
            _ => false,
        }
    }
}

pub type Doc = Vec<String>;
/// attributes; sorted by name when compared because their order has no meaning
pub type Meta = Option<Vec<(String, Option<Lit>)>>;

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub doc: Doc,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Lit>,
    pub meta: Meta,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub doc: Doc,
    pub name: String,
    pub value: Option<i128>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Method {
    pub doc: Doc,
    pub name: String,
    pub req: Vec<String>,
    pub resp: Vec<String>,
    pub meta: Meta,
}
#[derive(Clone, Debug, PartialEq)]
pub enum JVal {
    Lit(Lit),
    Obj(Vec<(String, JVal)>),
    List(Vec<JVal>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Decl {
    Namespace { doc: Doc, path: Vec<String> },
    Table { doc: Doc, name: String, meta: Meta, fields: Vec<Field> },
    Struct { doc: Doc, name: String, meta: Meta, fields: Vec<Field> },
    Enum { doc: Doc, name: String, base: Ty, meta: Meta, vals: Vec<Val> },
    Union { doc: Doc, name: String, meta: Meta, vals: Vec<Val> },
    Root(String),
    FileExt { doc: Doc, ext: String },
    FileId { doc: Doc, id: String },
    Attr(String),
    Rpc { doc: Doc, name: String, methods: Vec<Method> },
    Object { doc: Doc, vals: Vec<(String, JVal)> },
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    pub includes: Vec<(Doc, String)>,
    pub decls: Vec<Decl>,
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    /// a literal spelled as given
    Num(String),
    Str(String),
    P(char),
    /// the text behind `///`; ends with a line break
    Doc(String),
}
impl Tok {
    pub fn text(&self) -> String {
        match self {
            Tok::Id(s) | Tok::Num(s) => s.clone(),
            Tok::Str(s) => format!("\"{}\"", s),
            Tok::P(c) => c.to_string(),
            Tok::Doc(s) => format!("///{}", s),
        }
    }
    fn wordy(&self) -> bool {
        matches!(self, Tok::Id(_) | Tok::Num(_))
    }
}
pub fn id(s: &str) -> Tok {
    Tok::Id(s.to_string())
}
pub fn num(s: &str) -> Tok {
    Tok::Num(s.to_string())
}

/// Must something separate the two tokens?
pub fn need_gap(a: &Tok, b: &Tok) -> bool {
    match (a, b) {
        (Tok::Doc(_), _) => true,
        // keywords of declarations are followed by a space, also before a string
        (Tok::Id(k), Tok::Str(_)) => k != "file_extension" && k != "file_identifier",
        (a, b) => a.wordy() && b.wordy(),
    }
}

fn doc_toks(d: &Doc, out: &mut Vec<Tok>) {
    for l in d {
        out.push(Tok::Doc(l.clone()));
    }
}
fn path_toks(p: &[String], out: &mut Vec<Tok>) {
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            out.push(Tok::P('.'));
        }
        out.push(Tok::Id(x.clone()));
    }
}
fn ty_toks(t: &Ty, out: &mut Vec<Tok>) {
    match t {
        Ty::B(n) => out.push(id(n)),
        Ty::Vec(t) => {
            out.push(Tok::P('['));
            ty_toks(t, out);
            out.push(Tok::P(']'));
        }
        Ty::Name(p) => path_toks(p, out),
    }
}
pub fn lit_tok(l: &Lit) -> Tok {
    match l {
        Lit::Int(i) => Tok::Num(i.to_string()),
        Lit::Float(f) => {
            let s = if f.is_nan() {
                "nan".to_string()
            } else if f.is_infinite() {
                if *f > 0.0 { "inf".into() } else { "-inf".into() }
            } else {
                format!("{:?}", f)
            };
            Tok::Num(s)
        }
        Lit::Bool(b) => Tok::Num(b.to_string()),
        Lit::Ident(s) => Tok::Id(s.clone()),
        Lit::Str(s) => Tok::Str(s.clone()),
    }
}
fn meta_toks(m: &Meta, out: &mut Vec<Tok>) {
    if let Some(m) = m {
        out.push(Tok::P('('));
        for (i, (k, v)) in m.iter().enumerate() {
            if i > 0 {
                out.push(Tok::P(','));
            }
            out.push(Tok::Id(k.clone()));
            if let Some(v) = v {
                out.push(Tok::P(':'));
                out.push(lit_tok(v));
            }
        }
        out.push(Tok::P(')'));
    }
}
fn fields_toks(fields: &[Field], out: &mut Vec<Tok>) {
    out.push(Tok::P('{'));
    for f in fields {
        doc_toks(&f.doc, out);
        out.push(Tok::Id(f.name.clone()));
        out.push(Tok::P(':'));
        ty_toks(&f.ty, out);
        if let Some(d) = &f.default {
            out.push(Tok::P('='));
            out.push(lit_tok(d));
        }
        meta_toks(&f.meta, out);
        out.push(Tok::P(';'));
    }
    out.push(Tok::P('}'));
}
fn vals_toks(vals: &[Val], trailing: bool, out: &mut Vec<Tok>) {
    out.push(Tok::P('{'));
    for (i, v) in vals.iter().enumerate() {
        if i > 0 {
            out.push(Tok::P(','));
        }
        doc_toks(&v.doc, out);
        out.push(Tok::Id(v.name.clone()));
        if let Some(x) = v.value {
            out.push(Tok::P('='));
            out.push(Tok::Num(x.to_string()));
        }
    }
    if trailing {
        out.push(Tok::P(','));
    }
    out.push(Tok::P('}'));
}
fn jval_toks(v: &JVal, out: &mut Vec<Tok>) {
    match v {
        JVal::Lit(l) => out.push(lit_tok(l)),
        JVal::Obj(o) => obj_toks(o, out),
        JVal::List(l) => {
            out.push(Tok::P('['));
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    out.push(Tok::P(','));
                }
                jval_toks(x, out);
            }
            out.push(Tok::P(']'));
        }
    }
}
fn obj_toks(o: &[(String, JVal)], out: &mut Vec<Tok>) {
    out.push(Tok::P('{'));
    for (i, (k, v)) in o.iter().enumerate() {
        if i > 0 {
            out.push(Tok::P(','));
        }
        out.push(Tok::Id(k.clone()));
        out.push(Tok::P(':'));
        jval_toks(v, out);
    }
    out.push(Tok::P('}'));
}

pub fn decl_toks(d: &Decl, trailing_comma: bool, out: &mut Vec<Tok>) {
    match d {
        Decl::Namespace { doc, path } => {
            doc_toks(doc, out);
            out.push(id("namespace"));
            path_toks(path, out);
            out.push(Tok::P(';'));
        }
        Decl::Table { doc, name, meta, fields } | Decl::Struct { doc, name, meta, fields } => {
            doc_toks(doc, out);
            out.push(id(if matches!(d, Decl::Table { .. }) { "table" } else { "struct" }));
            out.push(Tok::Id(name.clone()));
            meta_toks(meta, out);
            fields_toks(fields, out);
        }
        Decl::Enum { doc, name, base, meta, vals } => {
            doc_toks(doc, out);
            out.push(id("enum"));
            out.push(Tok::Id(name.clone()));
            out.push(Tok::P(':'));
            ty_toks(base, out);
            meta_toks(meta, out);
            vals_toks(vals, trailing_comma, out);
        }
        Decl::Union { doc, name, meta, vals } => {
            doc_toks(doc, out);
            out.push(id("union"));
            out.push(Tok::Id(name.clone()));
            meta_toks(meta, out);
            vals_toks(vals, trailing_comma, out);
        }
        Decl::Root(n) => {
            out.push(id("root_type"));
            out.push(Tok::Id(n.clone()));
            out.push(Tok::P(';'));
        }
        Decl::FileExt { doc, ext } => {
            doc_toks(doc, out);
            out.push(id("file_extension"));
            out.push(Tok::Str(ext.clone()));
            out.push(Tok::P(';'));
        }
        Decl::FileId { doc, id: i } => {
            doc_toks(doc, out);
            out.push(id("file_identifier"));
            out.push(Tok::Str(i.clone()));
            out.push(Tok::P(';'));
        }
        Decl::Attr(a) => {
            out.push(id("attribute"));
            out.push(Tok::Id(a.clone()));
            out.push(Tok::P(';'));
        }
        Decl::Rpc { doc, name, methods } => {
            doc_toks(doc, out);
            out.push(id("rpc_service"));
            out.push(Tok::Id(name.clone()));
            out.push(Tok::P('{'));
            for m in methods {
                doc_toks(&m.doc, out);
                out.push(Tok::Id(m.name.clone()));
                out.push(Tok::P('('));
                path_toks(&m.req, out);
                out.push(Tok::P(')'));
                out.push(Tok::P(':'));
                path_toks(&m.resp, out);
                meta_toks(&m.meta, out);
                out.push(Tok::P(';'));
            }
            out.push(Tok::P('}'));
        }
        Decl::Object { doc, vals } => {
            doc_toks(doc, out);
            obj_toks(vals, out);
        }
    }
}
pub fn schema_toks(s: &Schema) -> Vec<Tok> {
    let mut out = vec![];
    for (d, p) in &s.includes {
        doc_toks(d, &mut out);
        out.push(id("include"));
        out.push(Tok::Str(p.clone()));
        out.push(Tok::P(';'));
    }
    for d in &s.decls {
        decl_toks(d, false, &mut out);
    }
    out
}
/// Tokens with the least or an ordinary amount of space between them.
pub fn join(toks: &[Tok], tight: bool) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            match &toks[i - 1] {
                Tok::Doc(_) => s.push('\n'),
                p if need_gap(p, t) || !tight => s.push(' '),
                _ => (),
            }
        }
        s.push_str(&t.text());
    }
    if matches!(toks.last(), Some(Tok::Doc(_))) {
        s.push('\n');
    }
    s
}
pub fn text(s: &Schema) -> String {
    join(&schema_toks(s), false)
}

// ---------------------------------------------------------------- reference lexer

/// Why a text is not a schema.
#[derive(Clone, Debug, PartialEq)]
pub enum No {
    /// certainly outside of the language
    Bad(String),
    /// the documentation does not settle it
    Gray(String),
}
pub fn bad<T>(s: impl Into<String>) -> Result<T, No> {
    Err(No::Bad(s.into()))
}
pub fn gray<T>(s: impl Into<String>) -> Result<T, No> {
    Err(No::Gray(s.into()))
}

pub fn is_id_start(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
pub fn is_id_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn lex(s: &str) -> Result<Vec<Tok>, No> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let x = c[i];
        if x == '\r' && c.get(i + 1) != Some(&'\n') {
            return gray("lone carriage return");
        }
        if " \t\r\n".contains(x) {
            i += 1;
            continue;
        }
        if x == '/' {
            if c.get(i + 1) != Some(&'/') {
                return bad("stray /");
            }
            let mut j = i + 2;
            while j < c.len() && c[j] != '\n' {
                j += 1;
            }
            let mut line: String = c[i + 2..j].iter().collect();
            if line.ends_with('\r') && j < c.len() {
                line.pop();
            }
            if line.contains('\r') {
                return gray("lone carriage return");
            }
            if let Some(l) = line.strip_prefix('/') {
                if l.starts_with('/') {
                    return gray("four slashes");
                }
                if j == c.len() {
                    return bad("documentation at the end");
                }
                out.push(Tok::Doc(l.to_string()));
            }
            i = j;
            continue;
        }
        if x == '"' {
            if i > 0 && is_id_char(c[i - 1]) && matches!(out.last(), Some(Tok::Id(k)) if k == "include" || k == "attribute") {
                // the repository's own tests want a gap after `include`; nothing documents either
                return gray("a string right after a keyword");
            }
            if matches!(out.last(), Some(Tok::Id(k)) if k == "file_identifier") && c[i + 1..].iter().take(4).any(|x| *x == '"' || *x == '\\') {
                return gray("a quote or backslash in a file identifier");
            }
            let mut j = i + 1;
            let mut t = String::new();
            loop {
                match c.get(j) {
                    None => return bad("open string"),
                    Some('"') => break,
                    Some('\\') => match c.get(j + 1) {
                        Some(e @ ('\\' | '"')) => {
                            t.push('\\');
                            t.push(*e);
                            j += 2;
                        }
                        _ => return bad("bad escape"),
                    },
                    Some(e) => {
                        t.push(*e);
                        j += 1;
                    }
                }
            }
            out.push(Tok::Str(t));
            i = j + 1;
            continue;
        }
        if is_id_start(x) {
            let mut j = i;
            while j < c.len() && is_id_char(c[j]) {
                j += 1;
            }
            out.push(Tok::Id(c[i..j].iter().collect()));
            i = j;
            continue;
        }
        let starts_num = |k: usize| -> bool {
            match c.get(k) {
                Some(d) if d.is_ascii_digit() => true,
                Some('.') => matches!(c.get(k + 1), Some(d) if d.is_ascii_digit()),
                _ => false,
            }
        };
        let signed_word = (x == '-' || x == '+') && matches!(c.get(i + 1), Some(d) if is_id_start(*d));
        if starts_num(i) || ((x == '-' || x == '+') && (starts_num(i + 1) || signed_word)) {
            let mut j = i + 1;
            // everything that can belong to a number; a sign only behind an exponent letter
            while j < c.len() {
                let d = c[j];
                if is_id_char(d) || d == '.' {
                    j += 1;
                } else if d == '-' || d == '+' {
                    let sofar: String = c[i..j].iter().collect::<String>().to_lowercase();
                    let body = sofar.trim_start_matches(['-', '+']);
                    let hex = body.starts_with("0x");
                    if (hex && body.ends_with('p')) || (!hex && body.ends_with('e') && !signed_word) {
                        j += 1;
                    } else {
                        break;
                    }
                } else {
                    break;
                }
            }
            out.push(Tok::Num(c[i..j].iter().collect()));
            i = j;
            continue;
        }
        if "{}()[]:;,.=".contains(x) {
            out.push(Tok::P(x));
            i += 1;
            continue;
        }
        return bad(format!("character {:?}", x));
    }
    Ok(out)
}

/// The value of a literal (also of the words), or None if it is not one.
pub fn literal(s: &str) -> Result<Option<Lit>, No> {
    let (neg, body) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let signed = body.len() != s.len();
    match body {
        "true" | "false" if !signed => return Ok(Some(Lit::Bool(body == "true"))),
        "nan" => return Ok(Some(Lit::Float(f64::NAN))),
        "inf" | "infinity" => return Ok(Some(Lit::Float(if neg { f64::NEG_INFINITY } else { f64::INFINITY }))),
        _ => (),
    }
    let b: Vec<char> = body.chars().collect();
    if b.len() >= 2 && b[0] == '0' && (b[1] == 'x' || b[1] == 'X') {
        let rest: String = b[2..].iter().collect();
        let (mant, exp) = match rest.find(['p', 'P']) {
            Some(k) => (rest[..k].to_string(), Some(rest[k + 1..].to_string())),
            None => (rest.clone(), None),
        };
        let dots = mant.matches('.').count();
        let (ip, fp) = match mant.split_once('.') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (mant.clone(), String::new()),
        };
        let digits = format!("{}{}", ip, fp);
        if dots > 1 || digits.is_empty() || !digits.chars().all(|c| c.is_ascii_hexdigit()) {
            return Ok(None);
        }
        if exp.is_none() && dots == 0 {
            let t = digits.trim_start_matches('0');
            if t.len() > 32 {
                return gray("integer beyond 128 bits");
            }
            let v = if t.is_empty() { 0 } else { u128::from_str_radix(t, 16).unwrap() };
            if v > i128::MAX as u128 {
                return gray("integer beyond 128 bits");
            }
            return Ok(Some(Lit::Int(if neg { -(v as i128) } else { v as i128 })));
        }
        let e: i64 = match &exp {
            None => return gray("hexadecimal fraction without exponent"),
            Some(e) => {
                let d = e.strip_prefix(['-', '+']).unwrap_or(e);
                if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                    return Ok(None);
                }
                if d.trim_start_matches('0').len() > 6 {
                    return gray("huge exponent");
                }
                e.parse().unwrap()
            }
        };
        let t = digits.trim_start_matches('0');
        if t.is_empty() {
            return Ok(Some(Lit::Float(if neg { -0.0 } else { 0.0 })));
        }
        if t.len() > 13 {
            return gray("more hexadecimal digits than a double holds");
        }
        let m = u64::from_str_radix(t, 16).unwrap();
        let e = e - 4 * fp.len() as i64;
        // m * 2^e exactly, by halving or doubling
        let mut v = m as f64;
        if e > 1100 || e < -1200 {
            return gray("exponent out of range");
        }
        let step: f64 = if e < 0 { 0.5 } else { 2.0 };
        let mut exact = true;
        for _ in 0..e.unsigned_abs() {
            let n = v * step;
            if n.is_infinite() || n / step != v {
                exact = false;
            }
            v = n;
        }
        if !exact {
            return gray("not representable");
        }
        return Ok(Some(Lit::Float(if neg { -v } else { v })));
    }
    // decimal
    if b.iter().all(|c| c.is_ascii_digit()) && !b.is_empty() {
        let t = body.trim_start_matches('0');
        if t.len() > 39 {
            return gray("integer beyond 128 bits");
        }
        let mut v: i128 = 0;
        for c in t.chars() {
            let d = c.to_digit(10).unwrap() as i128;
            v = match v.checked_mul(10).and_then(|v| if neg { v.checked_sub(d) } else { v.checked_add(d) }) {
                Some(v) => v,
                None => return gray("integer beyond 128 bits"),
            };
        }
        return Ok(Some(Lit::Int(v)));
    }
    let (mant, exp) = match body.find(['e', 'E']) {
        Some(k) => (&body[..k], Some(&body[k + 1..])),
        None => (body, None),
    };
    if let Some(e) = exp {
        let d = e.strip_prefix(['-', '+']).unwrap_or(e);
        if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
            return Ok(None);
        }
        if d.trim_start_matches('0').len() > 6 {
            return gray("huge exponent");
        }
    }
    let ok = match mant.split_once('.') {
        Some((a, b)) => {
            (!a.is_empty() || !b.is_empty()) && a.chars().all(|c| c.is_ascii_digit()) && b.chars().all(|c| c.is_ascii_digit())
        }
        None => exp.is_some() && !mant.is_empty() && mant.chars().all(|c| c.is_ascii_digit()),
    };
    if !ok {
        return Ok(None);
    }
    let v = decimal(mant, exp.unwrap_or("0"))?;
    Ok(Some(Lit::Float(if neg { -v } else { v })))
}

/// Correctly rounded value of a decimal mantissa and exponent; exact arithmetic on 128 bits
/// where that suffices, gray otherwise.
fn decimal(mant: &str, exp: &str) -> Result<f64, No> {
    let (ip, fp) = mant.split_once('.').unwrap_or((mant, ""));
    let digits = format!("{}{}", ip, fp);
    let digits = digits.trim_start_matches('0');
    let zeros = digits.len() - digits.trim_end_matches('0').len();
    let sig = digits.trim_end_matches('0');
    let e: i64 = exp.parse::<i64>().unwrap() - fp.len() as i64 + zeros as i64;
    if sig.is_empty() {
        return Ok(0.0);
    }
    if sig.len() > 17 || e.abs() > 22 {
        // beyond exact 128-bit arithmetic: take the standard library's word
        return Ok(format!("{}e{}", sig, e).parse::<f64>().unwrap());
    }
    let m: u128 = sig.parse().unwrap();
    let p: u128 = 10u128.pow(e.unsigned_abs() as u32);
    let (n, d) = if e >= 0 { (m.checked_mul(p), 1u128) } else { (Some(m), p) };
    let n = match n {
        Some(n) => n,
        None => return Ok(format!("{}e{}", sig, e).parse::<f64>().unwrap()),
    };
    Ok(ratio(n, d))
}

/// n/d rounded to nearest, ties to even (n, d > 0; results in the normal range)
fn ratio(n: u128, d: u128) -> f64 {
    // scale so that the quotient has 55 or more bits; long division bit by bit
    let mut q: u128 = n / d;
    let mut r: u128 = n % d;
    let mut e: i32 = 0;
    while q >> 60 == 0 {
        // r < d <= 10^22 < 2^74
        r <<= 1;
        let b = if r >= d { r -= d; 1 } else { 0 };
        q = (q << 1) | b;
        e -= 1;
    }
    let mut sticky = r != 0;
    while q >> 61 != 0 {
        sticky |= q & 1 == 1;
        q >>= 1;
        e += 1;
    }
    // 61 bits -> 53
    let drop = 8;
    let low = q & ((1 << drop) - 1);
    let mut m = (q >> drop) as u64;
    let half = 1u128 << (drop - 1);
    if low > half || (low == half && (sticky || m & 1 == 1)) {
        m += 1;
    }
    let mut v = m as f64;
    let mut k = e + drop as i32;
    while k > 0 {
        v *= 2.0;
        k -= 1;
    }
    while k < 0 {
        v /= 2.0;
        k += 1;
    }
    v
}

// ---------------------------------------------------------------- reference parser

pub struct Ps {
    t: Vec<Tok>,
    i: usize,
}
type R<T> = Result<T, No>;
impl Ps {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn p(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            bad(format!("expected {:?} at token {}: {:?}", c, self.i, self.peek()))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            x => bad(format!("expected a name at token {}: {:?}", self.i, x)),
        }
    }
    fn str(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Str(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            x => bad(format!("expected a string: {:?}", x)),
        }
    }
    fn doc(&mut self) -> Doc {
        let mut d = vec![];
        while let Some(Tok::Doc(l)) = self.peek() {
            d.push(l.clone());
            self.i += 1;
        }
        d
    }
    fn path(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.id()?];
        while self.is('.') {
            self.i += 1;
            v.push(self.id()?);
        }
        Ok(v)
    }
    fn ty(&mut self) -> R<Ty> {
        if self.eat('[') {
            let t = self.ty()?;
            self.p(']')?;
            return Ok(Ty::Vec(Box::new(t)));
        }
        let p = self.path()?;
        if p.len() == 1 {
            if let Some(b) = BUILTINS.iter().find(|b| **b == p[0]) {
                return Ok(Ty::B(b));
            }
        }
        Ok(Ty::Name(p))
    }
    /// a literal; names that are no literal only if allowed
    fn lit(&mut self, ident: bool, string: bool) -> R<Lit> {
        match self.peek().cloned() {
            Some(Tok::Num(s)) => {
                self.i += 1;
                match literal(&s)? {
                    Some(l) => Ok(l),
                    None => bad(format!("malformed literal {}", s)),
                }
            }
            Some(Tok::Id(s)) => {
                self.i += 1;
                match literal(&s)? {
                    Some(l) => Ok(l),
                    None if ident => Ok(Lit::Ident(s)),
                    None => bad(format!("a name is no literal: {}", s)),
                }
            }
            Some(Tok::Str(s)) if string => {
                self.i += 1;
                Ok(Lit::Str(s))
            }
            x => bad(format!("expected a literal: {:?}", x)),
        }
    }
    fn meta(&mut self) -> R<Meta> {
        if !self.eat('(') {
            return Ok(None);
        }
        let mut v: Vec<(String, Option<Lit>)> = vec![];
        if !self.is(')') {
            loop {
                let k = self.id()?;
                let x = if self.eat(':') { Some(self.lit(false, true)?) } else { None };
                // the last one of a name counts
                v.retain(|e| e.0 != k);
                v.push((k, x));
                if !self.eat(',') {
                    break;
                }
            }
        }
        self.p(')')?;
        Ok(Some(v))
    }
    fn fields(&mut self) -> R<Vec<Field>> {
        self.p('{')?;
        let mut v = vec![];
        while !self.is('}') {
            let doc = self.doc();
            let name = self.id()?;
            self.p(':')?;
            let ty = self.ty()?;
            let default = if self.eat('=') { Some(self.lit(true, false)?) } else { None };
            let meta = self.meta()?;
            self.p(';')?;
            v.push(Field { doc, name, ty, default, meta });
        }
        self.p('}')?;
        Ok(v)
    }
    fn vals(&mut self) -> R<Vec<Val>> {
        self.p('{')?;
        let mut v = vec![];
        loop {
            let doc = self.doc();
            let name = self.id()?;
            let value = if self.eat('=') {
                match self.lit(false, false)? {
                    Lit::Int(i) => Some(i),
                    _ => return bad("not an integer"),
                }
            } else {
                None
            };
            v.push(Val { doc, name, value });
            if !self.eat(',') || self.is('}') {
                break;
            }
        }
        self.p('}')?;
        Ok(v)
    }
    fn obj(&mut self) -> R<Vec<(String, JVal)>> {
        self.p('{')?;
        let mut v: Vec<(String, JVal)> = vec![];
        if !self.is('}') {
            loop {
                let k = self.id()?;
                self.p(':')?;
                let x = self.jval()?;
                v.retain(|e| e.0 != k);
                v.push((k, x));
                if !self.eat(',') {
                    break;
                }
            }
        }
        self.p('}')?;
        Ok(v)
    }
    fn jval(&mut self) -> R<JVal> {
        if self.is('{') {
            return Ok(JVal::Obj(self.obj()?));
        }
        if let Some(Tok::Doc(_)) = self.peek() {
            return gray("documentation inside data");
        }
        if self.eat('[') {
            let mut v = vec![];
            if !self.is(']') {
                loop {
                    v.push(self.jval()?);
                    if !self.eat(',') {
                        break;
                    }
                }
            }
            self.p(']')?;
            return Ok(JVal::List(v));
        }
        Ok(JVal::Lit(self.lit(false, true)?))
    }
    fn decl(&mut self, s: &mut Schema) -> R<()> {
        let doc = self.doc();
        if self.is('{') {
            let vals = self.obj()?;
            s.decls.push(Decl::Object { doc, vals });
            return Ok(());
        }
        let k = self.id()?;
        let d = match k.as_str() {
            "include" => {
                if !s.decls.is_empty() {
                    return bad("include behind declarations");
                }
                let p = self.str()?;
                let stem = p.rsplit('/').find(|x| !x.is_empty()).unwrap_or("");
                if stem.is_empty() || stem == ".." || stem == "." {
                    return gray("include without a file name");
                }
                self.p(';')?;
                s.includes.push((doc, p));
                return Ok(());
            }
            "namespace" => {
                let path = self.path()?;
                self.p(';')?;
                Decl::Namespace { doc, path }
            }
            "table" | "struct" => {
                let name = self.id()?;
                let meta = self.meta()?;
                let fields = self.fields()?;
                if k == "table" {
                    Decl::Table { doc, name, meta, fields }
                } else {
                    Decl::Struct { doc, name, meta, fields }
                }
            }
            "enum" => {
                let name = self.id()?;
                self.p(':')?;
                let base = self.ty()?;
                let meta = self.meta()?;
                let vals = self.vals()?;
                Decl::Enum { doc, name, base, meta, vals }
            }
            "union" => {
                let name = self.id()?;
                let meta = self.meta()?;
                let vals = self.vals()?;
                Decl::Union { doc, name, meta, vals }
            }
            "root_type" => {
                let n = self.id()?;
                self.p(';')?;
                Decl::Root(n)
            }
            "file_extension" => {
                let ext = self.str()?;
                self.p(';')?;
                Decl::FileExt { doc, ext }
            }
            "file_identifier" => {
                let i = self.str()?;
                if i.contains('\\') {
                    return gray("escapes in an identifier");
                }
                if i.len() != 4 {
                    return bad("identifier must be four bytes");
                }
                self.p(';')?;
                Decl::FileId { doc, id: i }
            }
            "attribute" => {
                let a = match self.peek() {
                    Some(Tok::Str(_)) => self.str()?,
                    _ => self.id()?,
                };
                self.p(';')?;
                Decl::Attr(a)
            }
            "rpc_service" => {
                let name = self.id()?;
                self.p('{')?;
                let mut methods = vec![];
                loop {
                    let doc = self.doc();
                    let name = self.id()?;
                    self.p('(')?;
                    let req = self.path()?;
                    self.p(')')?;
                    self.p(':')?;
                    let resp = self.path()?;
                    let meta = self.meta()?;
                    self.p(';')?;
                    methods.push(Method { doc, name, req, resp, meta });
                    if self.is('}') {
                        break;
                    }
                }
                self.p('}')?;
                Decl::Rpc { doc, name, methods }
            }
            _ => return bad(format!("unknown declaration {}", k)),
        };
        s.decls.push(d);
        Ok(())
    }
}

pub fn parse(text: &str) -> R<Schema> {
    let mut p = Ps { t: lex(text)?, i: 0 };
    let mut s = Schema::default();
    while p.peek().is_some() {
        p.decl(&mut s)?;
    }
    Ok(s)
}
