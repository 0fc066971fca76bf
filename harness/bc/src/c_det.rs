//! C25: the same text gives the same code, in any process, after anything else.

use crate::comp::*;
use mc::Ch;
use std::collections::HashMap;

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Texts in which everything occurs several times, so that every unordered collection has an
/// order to get wrong.
pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = crate::c_text::bases().iter().map(|s| s.to_string()).collect();
    v.push(
        "namespace a ; table A { x : int ; b : b.A ; } enum E : byte { X , Y } union U { A }\nnamespace b ; table A { y : int ; } table B { a : A ; c : c.d.A ; }\nnamespace c.d ; table A { } enum E : short { P }\nnamespace c.e ; table A { e : c.d.E ; }\nnamespace z ; table Z { }\nnamespace a ; table C { a : A ; u : U ; }\nroot_type C ;"
            .into(),
    );
    v.push((0..12).map(|i| format!("namespace n{} ; table T{} {{ x : int ( a , b : 1 , c : \"s\" , required ) ; }} enum E{} : int {{ A , B }}\n", i * 7 % 12, i, i)).collect());
    v.push((0..8).map(|i| format!("namespace p.q{} ; table T {{ x : p.q{}.T ; }}\n", i, (i + 3) % 8)).collect());
    v.push("table A { } table B { } table C { } union U { A , B , C } union V { C , A } table D { u : U ; v : V ; }".into());
    v.push((0..10).map(|i| format!("table T{} {{ t : T{} ; }}\nrpc_service S{} {{ M ( T{} ) : T{} ; }}\nroot_type T{} ;\n", i, (i * 3 + 1) % 10, i, i, (i + 1) % 10, i)).collect());
    // refused ones: the answer must not change either
    v.push("table A { x : Nope ; y : Nope2 ; } table B { z : Nope3 ; }".into());
    v.push("table A { x : int ( a : 1 , b : 2 , c : 3 , d : 4 ) ; x : int ; y : int ; y : int ; }".into());
    v
}

/// code, or that it is refused (the wording of the error is not part of the property)
fn answer(t: &str) -> Result<u64, String> {
    Ok(match compile(t)? {
        Ok(c) => fnv(c.as_bytes()),
        Err(_) => 1,
    })
}

/// one process: prints the answer to every text
pub fn once() {
    mc::install_panic_hook();
    for t in texts() {
        match answer(&t) {
            Ok(h) => println!("{:x}", h),
            Err(p) => println!("panic {}", p.replace('\n', " ")),
        }
    }
    // how an ordinary map orders the keys in this process
    for n in 2..=4 {
        let m: HashMap<usize, ()> = (0..n).map(|i| (i, ())).collect();
        println!("order {}", m.keys().map(|k| k.to_string()).collect::<Vec<_>>().join(""));
    }
}

/// a fresh process for every seed of the hash functions
pub fn seeds(ch: &mut Ch) -> Result<(), String> {
    let seed = ch.choose(ch.by_tier(400, 4000));
    let env = ch.choose(2);
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("once").env("MC_SEED", seed.to_string());
    if let Ok(l) = std::env::var("MC_SEEDLIB") {
        c.env("LD_PRELOAD", l);
    }
    if env == 1 {
        c.env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("RUST_BACKTRACE", "1").env("SEED_PAD", "x".repeat(seed % 64)).current_dir("/");
    }
    let o = c.output().map_err(|e| format!("HARNESS: {}", e))?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let got: Vec<&str> = out.lines().filter(|l| !l.starts_with("order")).collect();
    let ts = texts();
    ch.step(ts.len() as u64);
    ch.note(|| format!("hash seed {}, environment {}: {:?}", seed, env, got));
    for l in out.lines().filter(|l| l.starts_with("order")) {
        ch.state(l);
    }
    if got.len() != ts.len() {
        return Err(format!("the process ended early ({:?}) after {} of {} texts", o.status, got.len(), ts.len()));
    }
    for (t, g) in ts.iter().zip(&got) {
        let w = format!("{:x}", answer(t).map_err(|p| format!("panic {}", p))?);
        ch.eval(1);
        if w != **g {
            return Err(format!("hash seed {}: another process gives different code ({} instead of {}) for {:?}", seed, g, w, t));
        }
    }
    Ok(())
}

/// in one process, after all sequences of other compilations
pub fn history(ch: &mut Ch) -> Result<(), String> {
    let ts = texts();
    let n = ch.by_tier(2, 3);
    let hist: Vec<usize> = (0..n).map(|_| ch.choose(ts.len())).collect();
    let k = ch.choose(ts.len());
    thread_local!(static FIRST: std::cell::RefCell<HashMap<usize, u64>> = std::cell::RefCell::new(HashMap::new()));
    for h in &hist {
        let _ = compile(&ts[*h]);
    }
    let a = answer(&ts[k])?;
    ch.step(n as u64 + 1);
    ch.note(|| format!("after texts {:?}, text {} gives {:x}", hist, k, a));
    ch.eval(1);
    ch.state(a.to_le_bytes());
    let f = FIRST.with(|f| *f.borrow_mut().entry(k).or_insert(a));
    if f != a {
        return Err(format!("after compiling {:?}, text {} gives different code: {:?}", hist, k, ts[k]));
    }
    Ok(())
}

/// in fresh threads, whose maps have seeds of their own
pub fn threads(ch: &mut Ch) -> Result<(), String> {
    let ts = texts();
    let k = ch.choose(ts.len());
    let n = ch.choose(ch.by_tier(40, 400));
    let _ = n;
    let t = ts[k].clone();
    let a = answer(&t)?;
    let b = std::thread::spawn(move || answer(&t)).join().map_err(|_| "thread panicked".to_string())??;
    ch.step(2);
    ch.eval(1);
    ch.state(a.to_le_bytes());
    if a != b {
        return Err(format!("another thread gives different code for {:?}", ts[k]));
    }
    Ok(())
}
