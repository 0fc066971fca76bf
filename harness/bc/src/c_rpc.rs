//! C23: services reach the service generator.

use crate::comp::Sink;
use crate::inspect;
use crate::lang::No;
use crate::sem::*;
use butte_build::codegen::RpcGenerator;
use butte_build::ir::types as ir;
use mc::Ch;
use std::cell::RefCell;
use std::rc::Rc;

struct Cap(Rc<RefCell<Vec<MService>>>);
fn path(q: &ir::QualifiedIdent) -> Vec<String> {
    q.parts.iter().map(|p| p.raw.to_string()).collect()
}
impl RpcGenerator for Cap {
    fn generate<'a>(&mut self, rpc: &ir::Rpc<'a>, ts: &mut proc_macro2::TokenStream) {
        let p = path(&rpc.ident);
        let s = MService {
            path: p.clone(),
            doc: rpc.doc.lines.iter().map(|s| s.to_string()).collect(),
            methods: rpc
                .methods
                .iter()
                .map(|m| MMethod {
                    name: m.ident.raw.to_string(),
                    snake: m.snake_ident.raw.to_string(),
                    req: path(&m.request_type),
                    resp: path(&m.response_type),
                    streaming: match m.metadata.streaming {
                        ir::RpcStreaming::None => "none",
                        ir::RpcStreaming::Client => "client",
                        ir::RpcStreaming::Server => "server",
                        ir::RpcStreaming::Bidi => "bidi",
                    },
                    doc: m.doc.lines.iter().map(|s| s.to_string()).collect(),
                })
                .collect(),
        };
        let mut n = self.0.borrow_mut();
        n.push(s);
        // something recognisable for the generated code
        let code = format!("pub enum Marker{}{} {{ X }}", p.join("_"), "");
        ts.extend(code.parse::<proc_macro2::TokenStream>().unwrap());
    }
}

fn services(text: &str) -> Result<Result<(Vec<MService>, String), String>, String> {
    let got = Rc::new(RefCell::new(vec![]));
    let sink = Sink::default();
    let (g2, s2) = (got.clone(), sink.clone());
    let input = std::io::Cursor::new(text.as_bytes().to_vec());
    let r = mc::guard(move || butte_build::compile_fbs_generic(true, Some(Box::new(Cap(g2))), Box::new(input), Box::new(s2)).map_err(|e| e.to_string()))?;
    Ok(match r {
        Err(e) => Err(e),
        Ok(()) => {
            let out = String::from_utf8(sink.0.borrow().clone()).unwrap();
            let v = got.borrow().clone();
            Ok((v, out))
        }
    })
}

fn judge(ch: &mut Ch, text: &str) -> Result<(), String> {
    ch.note(|| format!("text: {:?}", text));
    let r = services(text).map_err(|p| format!("the compiler panicked ({}) on {:?}", p, text))?;
    ch.step(1);
    match (understand(text), r) {
        (Ok(m), Ok((mut got, code))) => {
            let mut want = m.services.clone();
            let key = |s: &MService| s.path.clone();
            want.sort_by_key(key);
            got.sort_by_key(key);
            ch.eval(1 + want.iter().map(|s| s.methods.len() as u64).sum::<u64>());
            ch.state(format!("{:?}", want));
            ch.sample(|| text.to_string());
            if got != want {
                return Err(format!("the generator received {:?}, the schema declares {:?}, for {:?}", got, want, text));
            }
            // what it emitted is in the module of the service's namespace
            let c = inspect::inspect(&code)?;
            for s in &want {
                let mut p: Vec<String> = s.path[..s.path.len() - 1].iter().map(|x| snake(x).unwrap()).collect();
                p.push(format!("Marker{}", s.path.join("_")));
                if !c.enums.contains_key(&p) {
                    return Err(format!("what the generator emitted for {:?} is not in its module, for {:?}", s.path, text));
                }
            }
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("a valid schema is refused ({}): {:?}", e, text)),
        (Err(No::Bad(w)), Ok(_)) => Err(format!("an invalid schema ({}) is accepted: {:?}", w, text)),
        _ => Ok(()),
    }
}

const MODES: [&str; 7] = [
    "", " ( streaming : \"client\" )", " ( streaming : \"server\" )", " ( streaming : \"bidi\" )", " ( k , l : 2 )", " ( a , streaming : \"server\" , l : 2 )", " ( k : \"client\" , b : 1.5 , c , streaming : \"bidi\" )",
];
const NAMES: [&str; 6] = ["Get", "SayHelloNow", "put", "do_it", "x2", "lowerCamel"];

/// one service: methods x streaming x types x documentation
pub fn methods(ch: &mut Ch) -> Result<(), String> {
    let n = ch.range(1, ch.by_tier(2, 3));
    let mut s = String::from("namespace n.m ; table A { } table B { } namespace o ; table A { }\nnamespace n.m ;\n/// svc doc\nrpc_service Svc {\n");
    let first = ch.choose(NAMES.len());
    for i in 0..n {
        let name = NAMES[(first + i) % NAMES.len()];
        let req = *ch.pick(&["A", "n.m.B", "o.A"]);
        let resp = *ch.pick(&["B", "o.A", "A"]);
        let mode = *ch.pick(&MODES[..5]);
        let doc = ch.choose(if i == 2 { 1 } else { 3 });
        for d in 0..doc {
            s.push_str(&format!("/// doc {} of {}\n", d, i));
        }
        s.push_str(&format!("{} ( {} ) : {}{} ;\n", name, req, resp, mode));
    }
    s.push('}');
    judge(ch, &s)
}

/// several services in every namespace, before and behind the types they use
pub fn several(ch: &mut Ch) -> Result<(), String> {
    const NS: [&str; 4] = ["", "a", "a.b", "CamelCase.b"];
    let n = ch.range(1, 3);
    let mut s = String::new();
    let mut cur = 0;
    let types_at = ch.choose(n + 1);
    let nst = ch.choose(4);
    let mut put_types = |s: &mut String, cur: &mut usize| -> bool {
        if nst != *cur {
            if nst == 0 {
                return false;
            }
            s.push_str(&format!("namespace {} ;\n", NS[nst]));
            *cur = nst;
        }
        s.push_str("table Q { }\ntable R { }\n");
        true
    };
    for i in 0..n {
        if i == types_at && !put_types(&mut s, &mut cur) {
            return Ok(());
        }
        let ns = ch.choose(4);
        if ns != cur {
            if ns == 0 {
                return Ok(());
            }
            s.push_str(&format!("namespace {} ;\n", NS[ns]));
            cur = ns;
        }
        let name = ["S", "T", "S"][i];
        let p = if ns == nst { String::new() } else if nst == 0 { return Ok(()) } else { format!("{}.", NS[nst]) };
        let mode = *ch.pick(&MODES[..3]);
        s.push_str(&format!("/// d{}\nrpc_service {} {{ M{} ( {}Q ) : {}R{} ; N ( {}R ) : {}Q ; }}\n", i, name, i, p, p, mode, p, p));
    }
    if types_at == n && !put_types(&mut s, &mut cur) {
        return Ok(());
    }
    judge(ch, &s)
}

/// many methods keep their order; methods of the same name in different services
pub fn order(ch: &mut Ch) -> Result<(), String> {
    let n = ch.range(1, ch.by_tier(24, 60));
    let step = ch.range(1, 7);
    let mut s = String::from("table Q { }\nrpc_service A {\n");
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..n {
        let k = (i * step * 13 + 5) % 97;
        if seen.insert(k) {
            s.push_str(&format!("M{} ( Q ) : Q{} ;\n", k, MODES[k % 7]));
        }
    }
    s.push_str("}\nrpc_service B { M5 ( Q ) : Q ; M18 ( Q ) : Q ( streaming : \"bidi\" ) ; }");
    judge(ch, &s)
}

/// everything about services that can be many, long or deep
pub fn sizes(ch: &mut Ch) -> Result<(), String> {
    let top = ch.by_tier(70, 130);
    let k = ch.choose(6);
    let i = ch.choose(top + 3);
    let n = if i < top { i + 1 } else { [255, 256, 257][i - top] };
    let s = match k {
        // methods
        0 => format!("table Q {{ }}\nrpc_service S {{ {} }}", (0..n).map(|i| format!("/// m{}\nM{} ( Q ) : Q{} ;\n", i, i, MODES[i % 7])).collect::<String>()),
        // services
        1 => format!("table Q {{ }}\n{}", (0..n).map(|i| format!("/// s{}\nrpc_service S{} {{ M ( Q ) : Q{} ; }}\n", i, i, MODES[i % 7])).collect::<String>()),
        // services in namespaces of their own
        2 => format!("namespace q ; table Q {{ }}\n{}", (0..n).map(|i| format!("namespace n{} ; rpc_service S {{ M{} ( q.Q ) : q.Q{} ; }}\n", i, i, MODES[i % 7])).collect::<String>()),
        // documentation
        3 => {
            let d: String = (0..n).map(|i| format!("/// line {}\n", i)).collect();
            format!("table Q {{ }}\n{}rpc_service S {{ A ( Q ) : Q ; {}M ( Q ) : Q ( streaming : \"server\" ) ; Z ( Q ) : Q ; }}", d, d)
        }
        // types
        4 => format!(
            "{} rpc_service S {{ {} }}",
            (0..n).map(|i| format!("table T{} {{ }} ", i)).collect::<String>(),
            (0..n).map(|i| format!("M{} ( T{} ) : T{} ;\n", i, i, (i * 7 + 1) % n)).collect::<String>()
        ),
        // depth
        _ => {
            let p: Vec<String> = (0..n.min(60)).map(|i| format!("n{}", i)).collect();
            format!("namespace {} ; table Q {{ }} rpc_service S {{ M ( Q ) : Q ; }} namespace o ; rpc_service S {{ M ( {}.Q ) : {}.Q ( streaming : \"client\" ) ; }}", p.join("."), p.join("."), p.join("."))
        }
    };
    judge(ch, &s)
}

/// any number of attributes before and behind the streaming mode
pub fn attributes(ch: &mut Ch) -> Result<(), String> {
    const A: [&str; 10] = ["k", "l : 2", "m : \"client\"", "stream : \"bidi\"", "n : true", "o : 1.5", "p : -1", "Streaming : \"server\"", "q", "streaming_"];
    let before = ch.choose(ch.by_tier(6, 9));
    let after = ch.choose(ch.by_tier(6, 9));
    let from = ch.choose(A.len());
    let mode = *ch.pick(&["", "streaming : \"client\"", "streaming : \"server\"", "streaming : \"bidi\""]);
    let mut l: Vec<&str> = (0..before).map(|i| A[(from + i) % A.len()]).collect();
    if !mode.is_empty() {
        l.push(mode);
    }
    l.extend((0..after.min(A.len() - before)).map(|i| A[(from + before + i) % A.len()]));
    if l.is_empty() {
        return Ok(());
    }
    judge(ch, &format!("table Q {{ }}\nrpc_service S {{\nA ( Q ) : Q ( streaming : \"server\" ) ; M ( Q ) : Q ( {} ) ; Z ( Q ) : Q ; }}", l.join(" , ")))
}
