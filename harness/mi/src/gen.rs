//! Code generated by the real compiler from h.fbs, used on this host.

use crate::{Job, H};
use butte::*;
use mc::Ch;

#[allow(dead_code, unused_imports, unused_variables, clippy::all)]
mod m {
    include!(env!("MI_GEN"));
}
use m::h::*;

macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }
}

const E8S: [E8; 3] = [E8::A, E8::B, E8::C];
const E32S: [E32; 2] = [E32::A, E32::B];
const E64S: [E64; 3] = [E64::A, E64::B, E64::C];
const STRS: [&str; 3] = ["", "é!", "eight by"];

/// what is put in: bits of the scalars, and for each reference its length + 1, or 0 when absent
#[derive(Clone)]
struct What {
    phase: usize,
    scal: usize,
    val: usize,
    e: [usize; 3],
    refs: [usize; 9],
}

pub fn generated(ch: &mut Ch) -> Job {
    let mut w = What { phase: 0, scal: 7, val: 0, e: [0; 3], refs: [0; 9] };
    match ch.choose(3) {
        0 => {
            w.phase = ch.choose(4);
            w.e = [ch.choose(3), ch.choose(2), ch.choose(3)];
        }
        1 => {
            w.scal = ch.choose(7);
            w.val = ch.choose(3);
            w.e[1] = ch.choose(2);
        }
        _ => {
            let a = ch.choose(9);
            w.refs[a] = 1 + ch.choose(3);
            if a > 0 {
                let b = ch.choose(a + 1);
                if b < a {
                    w.refs[b] = 2;
                }
            }
        }
    }
    Box::new(move |h| run(h, &w))
}

fn run(h: &mut H, w: &What) -> Result<(), String> {
    let mut f = FlatBufferBuilder::new();
    for _ in 0..w.phase {
        f.create_vector(&[7u8]);
    }
    let u64s = [1u64, u64::MAX, 0x0102_0304_0506_0708];
    let u16s = [1u16, 0xfffe, 0x0102];
    let fs = [-1.5f64, f64::INFINITY, 1.0e-300];
    let bs = [true, false, true];
    let n = |i: usize| w.refs[i].saturating_sub(1);
    let on = |i: usize| w.refs[i] > 0;
    let mut a = TArgs { e8: E8S[w.e[0]], e32: E32S[w.e[1]], e64: E64S[w.e[2]], ..Default::default() };
    match w.scal {
        0 => a.b = w.val == 1,
        1 => a.i8f = [0, -128, 127][w.val],
        2 => a.u16f = [0, 258, 0xfedc][w.val],
        3 => a.i32f = [0, i32::MIN, 0x0102_0304][w.val],
        4 => a.u64f = [0, u64::MAX, 72623859790382856][w.val],
        5 => a.f = [0.0, 1.5, -2.5e-30][w.val],
        6 => a.d = [-0.0, 6.02e23, f64::MIN_POSITIVE][w.val],
        _ => (),
    }
    if on(0) {
        a.s = Some(f.create_string(STRS[n(0)]));
    }
    if on(1) {
        a.v16 = Some(f.create_vector(&u16s[..n(1)]));
    }
    if on(2) {
        a.v64 = Some(f.create_vector(&u64s[..n(2)]));
    }
    if on(3) {
        a.vf = Some(f.create_vector(&fs[..n(3)]));
    }
    if on(4) {
        let v: Vec<_> = STRS[..n(4)].iter().map(|s| f.create_string(s)).collect();
        a.vs = Some(f.create_vector(&v));
    }
    if on(5) {
        let v: Vec<_> = (0..n(5)).map(|i| Leaf::create(&mut f, &LeafArgs { x: i as i16 - 1, y: fs[i] })).collect();
        a.vt = Some(f.create_vector(&v));
    }
    if on(6) {
        a.vb = Some(f.create_vector(&bs[..n(6)]));
    }
    if on(7) {
        a.leaf = Some(Leaf::create(&mut f, &LeafArgs { x: [7, -2, 258][n(7)], y: fs[n(7)] }));
    }
    if on(8) {
        if n(8) < 2 {
            a.u_type = butte_gen::UType::Leaf;
            a.u = Some(Leaf::create(&mut f, &LeafArgs { x: 5, y: fs[n(8)] }).as_union_value());
        } else {
            a.u_type = butte_gen::UType::Other;
            let s = f.create_string("in");
            a.u = Some(Other::create(&mut f, &OtherArgs { s: Some(s) }).as_union_value());
        }
    }
    let t = T::create(&mut f, &a);
    f.finish_minimal(t);
    let buf = f.finished_data();
    h.bytes(buf);
    let t = T::get_root(buf).map_err(|e| format!("root: {:?}", e))?;
    ck!(t.b() == Ok(Some(a.b)) && t.i8f() == Ok(Some(a.i8f)) && t.u16f() == Ok(Some(a.u16f)) && t.i32f() == Ok(Some(a.i32f)) && t.u64f() == Ok(Some(a.u64f)), "integers read back otherwise");
    ck!(t.f().map(|x| x.map(f32::to_bits)) == Ok(Some(a.f.to_bits())) && t.d().map(|x| x.map(|x| x == a.d)) == Ok(Some(true)), "floats read back otherwise");
    ck!(t.e8() == Ok(Some(a.e8)) && t.e32() == Ok(Some(a.e32)) && t.e64() == Ok(Some(a.e64)), "enums read back otherwise");
    h.put(t.d().unwrap().unwrap().to_bits());
    ck!(t.s() == Ok(if on(0) { Some(STRS[n(0)]) } else { None }), "string");
    macro_rules! vec {
        ($i:expr, $g:ident, $xs:expr) => {
            match t.$g() {
                Ok(None) => ck!(!on($i), "{} is lost", stringify!($g)),
                Ok(Some(v)) => {
                    ck!(on($i) && v.len() == Ok(n($i)), "length of {}", stringify!($g));
                    for i in 0..n($i) {
                        ck!(v.get(i) == Ok($xs[i]), "element {} of {}", i, stringify!($g));
                    }
                }
                Err(e) => return Err(format!("{}: {:?}", stringify!($g), e)),
            }
        };
    }
    vec!(1, v16, u16s);
    vec!(2, v64, u64s);
    vec!(3, vf, fs);
    vec!(4, vs, STRS);
    vec!(6, vb, bs);
    match t.vt() {
        Ok(None) => ck!(!on(5), "vt is lost"),
        Ok(Some(v)) => {
            ck!(on(5) && v.len() == Ok(n(5)), "length of vt");
            for i in 0..n(5) {
                let l = v.get(i).map_err(|e| format!("vt: {:?}", e))?;
                ck!(l.x() == Ok(Some(i as i16 - 1)) && l.y() == Ok(Some(fs[i])), "element {} of vt", i);
            }
        }
        Err(e) => return Err(format!("vt: {:?}", e)),
    }
    match t.leaf() {
        Ok(None) => ck!(!on(7), "leaf is lost"),
        Ok(Some(l)) => ck!(on(7) && l.x() == Ok(Some([7, -2, 258][n(7)])) && l.y() == Ok(Some(fs[n(7)])), "leaf"),
        Err(e) => return Err(format!("leaf: {:?}", e)),
    }
    match t.u() {
        Ok(None) => ck!(!on(8), "u is lost"),
        Ok(Some(U::Leaf(l))) => ck!(on(8) && n(8) < 2 && l.x() == Ok(Some(5)) && l.y() == Ok(Some(fs[n(8)])), "u as Leaf"),
        Ok(Some(U::Other(o))) => ck!(n(8) == 2 && o.s() == Ok(Some("in")), "u as Other"),
        Err(e) => return Err(format!("u: {:?}", e)),
    }
    Ok(())
}
