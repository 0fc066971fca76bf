//! The runtime library under an interpreter (Miri): every execution of small
//! scenarios, on emulated hosts of other byte orders and word sizes and with
//! the rules of the abstract machine enforced.
//!
//! Each execution gives a digest of everything that was written and read.  The
//! same program compiled natively also checks every execution against the
//! format's specification, and its digests are what the other hosts must give.

#[path = "../../rt/src/gens.rs"]
#[allow(dead_code)]
mod gens;
#[path = "../../rt/src/prog.rs"]
#[allow(dead_code)]
mod prog;
#[cfg(not(miri))]
#[path = "../../rt/src/read.rs"]
#[allow(dead_code)]
mod read;
#[cfg(feature = "gen")]
mod gen;
mod scen;

use mc::Tier;
use std::io::Write;

/// Digest of what an execution did.
pub struct H {
    pub h: u64,
    pub n: u64,
}
impl H {
    pub fn put(&mut self, x: u64) {
        self.n += 1;
        self.h = (self.h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.put(b.len() as u64);
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.put(u64::from_le_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]]));
        }
        for x in c.remainder() {
            self.put(*x as u64);
        }
    }
}

pub type Job = Box<dyn FnOnce(&mut H) -> Result<(), String>>;


/// One line per execution: a digest, or what is wrong.  Formatting is slow where
/// this runs, so it is done by hand.
fn line(out: &mut Vec<u8>, h: u64) {
    let mut x = h;
    for _ in 0..16 {
        out.push(b"0123456789abcdef"[(x >> 60) as usize]);
        x <<= 4;
    }
    out.push(b'\n');
}

fn flush(out: &mut Vec<u8>) {
    let mut o = std::io::stdout();
    let _ = o.write_all(out);
    let _ = o.flush();
    out.clear();
}

/// `mi list`, `mi trails SCENARIO TIER` (the choices of every execution),
/// `mi run SCENARIO TIER CHOICES COUNT [announce]` (COUNT executions from the one that makes CHOICES)
fn main() {
    mc::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    if arg(1) == "list" {
        for (n, _, what) in scen::ALL {
            println!("{} {}", n, what);
        }
        return;
    }
    if arg(1) == "blobs" {
        let all = scen::blobs();
        let mut at = 4 * (all.len() as u32 + 1);
        let mut out = at.to_le_bytes().to_vec();
        for b in &all {
            at += b.len() as u32;
            out.extend(at.to_le_bytes());
        }
        for b in &all {
            out.extend(b);
        }
        std::fs::write(arg(2), out).unwrap();
        return;
    }
    let f = scen::ALL.iter().find(|s| s.0 == arg(2)).expect("unknown scenario").1;
    let tier = if arg(3) == "thorough" { Tier::Thorough } else { Tier::Quick };
    if arg(1) == "trails" {
        mc::inline(tier, &[], u64::MAX, |ch| {
            let _ = f(ch);
            let v: Vec<String> = ch.made().iter().map(|x| x.to_string()).collect();
            println!("{}", v.join(","));
        });
        return;
    }
    let start: Vec<u32> = arg(4).split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let count: u64 = arg(5).parse().unwrap();
    // each execution announced before it runs, to find the one that ends the interpreter
    let announce = arg(6) == "announce";
    let mut out: Vec<u8> = vec![];
    let mut ops = 0;
    mc::inline(tier, &start, count, |ch| {
        let job = f(ch);
        if announce {
            println!("execution {:?}", ch.made());
        }
        let mut h = H { h: 0, n: 0 };
        match mc::guard(|| job(&mut h)) {
            Ok(Ok(())) => line(&mut out, h.h),
            Ok(Err(e)) => out.extend(format!("V {}\n", e.replace('\n', " ")).bytes()),
            Err(e) => out.extend(format!("V panic: {}\n", e.replace('\n', " ")).bytes()),
        }
        ops += h.n;
        if out.len() > 4000 {
            flush(&mut out);
        }
    });
    flush(&mut out);
    println!("DONE {}", ops);
}
