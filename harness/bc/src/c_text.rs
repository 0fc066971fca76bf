//! C20: every input is answered with code or an error, and success means a whole schema.

use crate::comp::*;
use crate::inspect::*;
use crate::lang::*;
use crate::sem::*;
use mc::Ch;

/// One text through the real compiler and through the reference.
pub fn judge(ch: &mut Ch, text: &str) -> Result<(), String> {
    ch.note(|| format!("text: {:?}", text));
    let r = compile(text).map_err(|p| format!("the compiler panicked ({}) on {:?}", p, text))?;
    ch.step(1);
    ch.eval(1);
    let m = understand(text);
    match (&m, &r) {
        (Ok(m), Ok(code)) => {
            ch.state(code);
            let c = inspect(code).map_err(|e| format!("{} for {:?}", e, text))?;
            let n = compare(&c, m).map_err(|e| format!("{} for {:?}", e, text))?;
            ch.eval(n);
            ch.sample(|| format!("accepted: {}", text));
        }
        (Ok(_), Err(e)) => return Err(format!("a valid schema is refused ({}): {:?}", e, text)),
        (Err(No::Bad(w)), Ok(_)) => return Err(format!("not a schema ({}), yet accepted: {:?}", w, text)),
        (Err(No::Bad(w)), Err(_)) => {
            ch.state(w.as_bytes());
        }
        (Err(No::Gray(_)), Ok(code)) => {
            inspect(code).map_err(|e| format!("{} for {:?}", e, text))?;
        }
        (Err(No::Gray(_)), Err(_)) => (),
    }
    Ok(())
}

pub fn bases() -> Vec<&'static str> {
    vec![
        "table A { x : int ; }",
        "table A { x : int = 5 ; y : [ string ] ( required ) ; b : bool = true ; }",
        "namespace a . b ; table A { } table B { a : A ; b : [ [ a . b . A ] ] ; } root_type B ;",
        "enum E : byte { X , Y = 4 , Z } table A { e : E = Y ; f : [ E ] ; }",
        "table A { } table B { } union U { A , B } table C { u : U ; n : float = - 1.5e3 ; }",
        "table Q { } table R { } rpc_service S { Get ( Q ) : R ; Put ( R ) : Q ( streaming : \"bidi\" ) ; }",
        "include \"x.fbs\" ; include \"y/z.fbs\" ; table A { x : ulong = 0xff ; }",
        "/// doc\ntable A { /// one\n/// two\nx : short ; // no\ny : string ; } // end",
        "/// e\nenum E : uint8 ( bit ) { /// x\nX , /// y\nY }",
        "table A ( k : 1 , l , m : \"s\" ) { x : double = nan ( id : 0 , deprecated ) ; y : float64 = inf ; }",
        "namespace n ; enum E : long { A = -9 } namespace m ; table T { e : n . E = A ; t : T ; } root_type T ;",
        "struct S { x : int ; }",
        "table A { } file_extension \"a\" ; file_identifier \"abcd\" ; attribute b ; { x : 1 }",
        "",
    ]
}

fn toks_of(s: &str) -> Vec<Tok> {
    lex(s).unwrap()
}

const WORDS: [&str; 24] = [
    "table", "A", "x", "{", "}", "(", ")", "[", "]", ":", ";", ",", ".", "=", "1", "-1", "1.5", "\"s\"", "int", "enum", "namespace",
    "root_type", "required", "true",
];

fn w(s: &str) -> Tok {
    if s == "///" {
        return Tok::Doc(" d".into());
    }
    let t = lex(s).unwrap();
    assert_eq!(t.len(), 1);
    t.into_iter().next().unwrap()
}

/// every one-token change of every base schema
pub fn c20_edits(ch: &mut Ch) -> Result<(), String> {
    match gen_edit(ch) {
        Some(t) => judge(ch, &t),
        None => Ok(()),
    }
}
pub fn gen_edit(ch: &mut Ch) -> Option<String> {
    let b = bases();
    let base = *ch.pick(&b);
    // the sign in a base stands alone on purpose nowhere but in one of them
    let mut t = match lex(&base.replace("- 1.5", "-1.5")) {
        Ok(t) => t,
        Err(_) => return None,
    };
    let op = ch.choose(6);
    match op {
        0 => {
            if t.is_empty() {
                return None;
            }
            let i = ch.choose(t.len());
            t.remove(i);
        }
        1 => {
            if t.is_empty() {
                return None;
            }
            let i = ch.choose(t.len());
            let x = t[i].clone();
            t.insert(i, x);
        }
        2 => {
            if t.len() < 2 {
                return None;
            }
            let i = ch.choose(t.len() - 1);
            t.swap(i, i + 1);
        }
        3 => {
            let i = ch.choose(t.len() + 1);
            let x = *ch.pick(&WORDS);
            t.insert(i, w(x));
        }
        4 => {
            if t.is_empty() {
                return None;
            }
            let i = ch.choose(t.len());
            let x = *ch.pick(&WORDS);
            t[i] = w(x);
        }
        _ => {
            let i = ch.choose(t.len() + 1);
            t.insert(i, Tok::Doc(" d".into()));
        }
    }
    let tight = ch.flag();
    Some(join(&t, tight))
}

/// every pair of token removals, and of one removal and one replacement
pub fn c20_edits2(ch: &mut Ch) -> Result<(), String> {
    let b = bases();
    let n = ch.by_tier(6, b.len());
    let base = b[ch.choose(n)];
    let mut t = toks_of(&base.replace("- 1.5", "-1.5"));
    if t.len() < 2 {
        return Ok(());
    }
    let i = ch.choose(t.len());
    t.remove(i);
    let j = ch.choose(t.len());
    if ch.flag() {
        t.remove(j);
    } else {
        let x = *ch.pick(&WORDS[..ch.by_tier(14, 24)]);
        t[j] = w(x);
    }
    judge(ch, &join(&t, false))
}

/// every prefix and every suffix of every base
pub fn c20_cuts(ch: &mut Ch) -> Result<(), String> {
    let b = bases();
    let base = *ch.pick(&b);
    let n = base.chars().count();
    let i = ch.choose(n + 1);
    let c: Vec<char> = base.chars().collect();
    let t: String = if ch.flag() { c[..i].iter().collect() } else { c[i..].iter().collect() };
    judge(ch, &t)
}

const CHARS: [char; 30] = [
    ' ', '\t', '\n', '\r', '/', '"', '\\', '{', '}', '(', ')', '[', ']', ':', ';', ',', '.', '=', '-', '+', '0', '9', 'a', 'Z', '_', 'x',
    'e', 'é', '\u{0}', '#',
];

/// every one-character change of every base
pub fn c20_chars(ch: &mut Ch) -> Result<(), String> {
    match gen_char(ch) {
        Some(t) => judge(ch, &t),
        None => Ok(()),
    }
}
pub fn gen_char(ch: &mut Ch) -> Option<String> {
    let b = bases();
    let base = *ch.pick(&b);
    let mut c: Vec<char> = base.chars().collect();
    let op = ch.choose(3);
    if op != 1 && c.is_empty() {
        return None;
    }
    let i = ch.choose(if op == 1 { c.len() + 1 } else { c.len() });
    match op {
        0 => {
            c.remove(i);
        }
        1 => {
            let x = *ch.pick(&CHARS);
            c.insert(i, x);
        }
        _ => {
            let x = *ch.pick(&CHARS);
            c[i] = x;
        }
    }
    Some(c.iter().collect::<String>())
}

/// all short strings, alone and inside declarations
pub fn c20_strings(ch: &mut Ch) -> Result<(), String> {
    const CTX: [(&str, &str); 12] = [
        ("", ""),
        ("table A { x : int", "; }"),
        ("table A { x : int =", "; }"),
        ("table A { x : ", "; }"),
        ("table A { ", "}"),
        ("table A { x : int; } ", ""),
        ("enum E : byte { A", "}"),
        ("include \"", "\";"),
        ("", "table A { x : int; }"),
        ("table A {} rpc_service S { Get(A):A (streaming:\"", "\"); }"),
        ("table A (k:", ") { x:int; }"),
        ("namespace ", "; table A {}"),
    ];
    const AB: [char; 14] = ['/', '\n', '"', '{', '}', 'a', '1', '-', '.', ';', ':', ' ', '\\', ','];
    let k = ch.choose(CTX.len());
    let n = if k == 0 { ch.by_tier(5, 6) } else { ch.by_tier(4, 5) };
    let len = ch.range(0, n);
    let mut s = String::from(CTX[k].0);
    for _ in 0..len {
        s.push(*ch.pick(&AB));
    }
    s.push_str(CTX[k].1);
    judge(ch, &s)
}

/// all token sequences, alone and inside declarations
pub fn c20_tokens(ch: &mut Ch) -> Result<(), String> {
    let t = gen_tokens(ch);
    judge(ch, &t)
}
pub fn gen_tokens(ch: &mut Ch) -> String {
    const CTX: [(&str, &str, &[&str]); 14] = [
        ("", "", &["table", "A", "{", "}", ";", "namespace", "root_type", "enum", ":", "byte", "union", ",", "///", "."]),
        ("table A {", "}", &["x", "y", ":", "int", ";", "A", "[", "]", "=", "1", "(", ")", "required", "///"]),
        ("table A { x : int", "; }", &["=", "1", "-1", "1.5", "true", "nan", "(", ")", "required", ",", ":", "\"s\"", ";", "y"]),
        ("table A { x :", "; }", &["[", "]", "A", "int", ".", "a", "string", "=", "1", "B", "(", ")"]),
        ("table A { x : int ; }", "", &["root_type", "A", ";", "namespace", "a", ".", "table", "B", "{", "}", "x", ":"]),
        ("enum E : byte {", "}", &["A", "B", ",", "=", "1", "-1", "200", "0x10", "///", "1.5", ":", ";"]),
        ("enum E", "{ A }", &[":", "byte", "(", ")", "k", ",", "float", "E", "1", "[", "]", "ulong"]),
        ("table A {} table B {} union U", "table C { u : U ; }", &["{", "}", "A", "B", ",", "=", "1", "2", "0", "(", ")", "///"]),
        ("table A {} rpc_service S {", "}", &["Get", "(", "A", ")", ":", ";", "B", ".", "///", ","]),
        ("table A {} rpc_service S { Get ( A ) : A", "; }", &["(", ")", "streaming", ":", "\"client\"", "\"x\"", "1", ",", ";", "k"]),
        ("include", "table A {}", &["\"a\"", ";", "include", "\"\"", "a", "///", "namespace"]),
        ("enum E : short { X , Y } table A { e : E", "; }", &["=", "X", "Z", "1", "true", "(", ")", "required", ".", "E", ";"]),
        ("namespace a ; table A {}", "table C { c : A ; }", &["namespace", "a", "b", ".", ";", "table", "A", "{", "}", "root_type"]),
        ("table A", "{ x : int ; }", &["(", ")", "k", ":", "1", "\"s\"", ",", "true", "nan", "{", "}", "B"]),
    ];
    let k = ch.choose(CTX.len());
    let (pre, post, ab) = CTX[k];
    let n = ch.by_tier(4, 5);
    let len = ch.range(0, n);
    let mut t = toks_of(pre);
    for _ in 0..len {
        let x = *ch.pick(ab);
        t.push(w(x));
    }
    t.extend(toks_of(post));
    join(&t, false)
}

/// input that is not text
pub fn c20_bytes(ch: &mut Ch) -> Result<(), String> {
    let b = bases();
    let base = b[ch.choose(b.len())].as_bytes().to_vec();
    let i = ch.choose(base.len() + 1);
    const BAD: [&[u8]; 6] = [&[0xff], &[0x80], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xc0, 0xaf]];
    let x = *ch.pick(&BAD);
    let mut v = base[..i].to_vec();
    v.extend_from_slice(x);
    v.extend_from_slice(&base[i..]);
    let r = compile_bytes(&v).map_err(|p| format!("the compiler panicked ({}) on {:?}", p, v))?;
    ch.step(1);
    if r.is_ok() {
        return Err(format!("accepted input that is not UTF-8: {:?}", String::from_utf8_lossy(&v)));
    }
    Ok(())
}

/// long and deep inputs
pub fn c20_big(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.pick(&[1usize, 2, 16, 64, 200, 254, 255, 256, 300]);
    let k = ch.choose(9);
    let t = match k {
        0 => format!("table A {{ {} }}", (0..n).map(|i| format!("f{}:int;", i)).collect::<String>()),
        1 => format!("enum E:byte {{ {} }}", (0..n).map(|i| format!("V{}", i)).collect::<Vec<_>>().join(",")),
        2 => format!("{} union U {{ {} }} table Z {{ u:U; }}", (0..n).map(|i| format!("table T{} {{}}", i)).collect::<String>(), (0..n).map(|i| format!("T{}", i)).collect::<Vec<_>>().join(",")),
        3 => format!("table A {{ x:{}int{}; }}", "[".repeat(n.min(64)), "]".repeat(n.min(64))),
        4 => format!("namespace {}; table A {{ x:A; }}", (0..n.min(64)).map(|i| format!("n{}", i)).collect::<Vec<_>>().join(".")),
        5 => (0..n).map(|i| format!("table T{} {{ x:T{}; }}", i, (i + 1) % n)).collect::<String>(),
        6 => format!("table A {{ {} }}", "/// d\n".repeat(n) + "x:int;"),
        7 => format!("{} table A {{ x:int; }} {}", "// c\n".repeat(n), " \n\t".repeat(n)),
        _ => format!("enum E:ubyte {{ {} }}", (0..n).map(|i| format!("V{}", i)).collect::<Vec<_>>().join(",")),
    };
    judge(ch, &t)
}
