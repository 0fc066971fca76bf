//! Families of builder programs, each enumerated completely.

use crate::prog::*;
use fbspec::*;
use mc::Ch;

pub fn boundary(t: Ty) -> Vec<u64> {
    let m = t.mask();
    match t {
        Ty::Bool => vec![0, 1],
        Ty::F32 => vec![0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fa0_1234, 0x0000_0001, 0x7f7f_ffff, 0x4049_0fdb],
        Ty::F64 => vec![
            0,
            0x8000_0000_0000_0000,
            0x3ff0_0000_0000_0000,
            0xbff0_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0x7ff4_0000_0000_1234,
            1,
            0x7fef_ffff_ffff_ffff,
            0x4009_21fb_5444_2d18,
        ],
        _ => vec![0, 1, 2, m, m - 1, m >> 1, (m >> 1) + 1, 0x0102_0304_0506_0708 & m, 0xfefd_fcfb_faf9_f8f7 & m, 0x80, 0xff & m],
    }
}

/// distinct recognisable values
pub fn val(t: Ty, i: usize) -> u64 {
    let v = 0x8182_8384_8586_8788u64.wrapping_add((i as u64 + 1).wrapping_mul(0x1111_1111_1111_1111));
    match t {
        Ty::Bool => 1 - (i as u64 & 1),
        _ => v & t.mask(),
    }
}

pub const PHASES: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];

/// k fields of every size in every slot order, after a byte string of every length mod 8
pub fn fields(ch: &mut Ch) -> P {
    let kinds: [Option<Ty>; 5] = [Some(Ty::U8), Some(Ty::U16), Some(Ty::U32), Some(Ty::U64), None];
    let kmax = ch.by_tier(5, 6);
    let k = ch.range(0, kmax);
    let phase = ch.choose(if k >= 5 { 1 } else { 4 });
    let mut p = P::new();
    let s = p.str(&"abcdefgh"[..phase]);
    let mut free: Vec<u16> = (0..=k as u16).collect();
    p.start();
    for i in 0..k {
        let kd = *ch.pick(&kinds);
        let c = ch.choose(free.len());
        let slot = free.remove(c);
        match kd {
            Some(t) => p.slot(slot, t, val(t, i)),
            None => p.slot_ref(slot, s),
        }
    }
    // keep the string referenced
    p.slot_ref(k as u16 + 2, s);
    let r = p.end();
    p.finish_min(r);
    p
}

/// every type, value and default; elided or always written; between two other fields
pub fn scalars(ch: &mut Ch) -> P {
    let t = *ch.pick(&TYS);
    let v = *ch.pick(&boundary(t));
    let mode = ch.choose(2);
    let mut p = P::new();
    p.start();
    let nb = ch.choose(3);
    if nb & 1 != 0 {
        p.slot(0, Ty::U8, 0x55);
    }
    if mode == 0 {
        p.slot(1, t, v);
    } else {
        let d = *ch.pick(&boundary(t));
        p.slot_d(1, t, v, d);
    }
    if nb & 2 != 0 {
        p.slot(2, Ty::U16, 0x7788);
    }
    let r = p.end();
    p.finish_min(r);
    p
}

pub fn text(kind: usize, n: usize) -> String {
    match kind {
        0 => (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        // multi-byte; byte length n
        1 => {
            let mut s = String::new();
            let cs = ['é', '€', '𝄞', 'x'];
            let mut i = 0;
            while s.len() < n {
                let c = cs[i % 4];
                if s.len() + c.len_utf8() <= n {
                    s.push(c)
                } else {
                    s.push('z')
                }
                i += 1;
            }
            s
        }
        // embedded zero bytes
        _ => (0..n).map(|i| if i % 3 == 1 { '\0' } else { 'q' }).collect(),
    }
}

/// strings and byte strings of every length, two in one buffer
pub fn strings(ch: &mut Ch) -> P {
    let top = ch.by_tier(600, 2100);
    let n = ch.range(0, top);
    let kind = ch.choose(4);
    let m = ch.choose(4);
    let mut p = P::new();
    let a = if kind == 3 { p.bytes(&(0..n).map(|i| 0xffu8.wrapping_sub(i as u8)).collect::<Vec<_>>()) } else { p.str(&text(kind, n)) };
    let b = p.str(&text(0, m));
    p.start();
    p.slot_ref(0, a);
    p.slot_ref(1, b);
    p.slot(2, Ty::U8, 9);
    let r = p.end();
    p.finish_min(r);
    p
}

/// vectors of every scalar type, length and construction, after every phase
pub fn vectors(ch: &mut Ch) -> P {
    let t = *ch.pick(&TYS);
    let n = ch.range(0, ch.by_tier(40, 140));
    let mode = ch.choose(3);
    let phase = *ch.pick(&PHASES);
    let mut p = P::new();
    let s = p.str(&"abcdefgh"[..phase]);
    let xs: Vec<u64> = (0..n).map(|i| val(t, i)).collect();
    let v = p.vec(t, &xs, mode);
    p.start();
    p.slot_ref(0, s);
    p.slot_ref(1, v);
    let r = p.end();
    p.finish_min(r);
    p
}

/// boundary values inside vectors
pub fn vector_values(ch: &mut Ch) -> P {
    let t = *ch.pick(&TYS);
    let mode = ch.choose(3);
    let b = boundary(t);
    let n = ch.range(0, 3);
    let xs: Vec<u64> = (0..n).map(|_| *ch.pick(&b)).collect();
    let mut p = P::new();
    let v = p.vec(t, &xs, mode);
    p.start();
    p.slot_ref(0, v);
    let r = p.end();
    p.finish_min(r);
    p
}

/// vectors of strings around the small-vector capacity
pub fn string_vectors(ch: &mut Ch) -> P {
    let n = ch.range(0, ch.by_tier(70, 140));
    let pat = ch.choose(4);
    let mode = ch.choose(3);
    let ss: Vec<String> = (0..n)
        .map(|i| {
            text(
                i % 3,
                match pat {
                    0 => 0,
                    1 => 3,
                    2 => i,
                    _ => (i * 7) % 11,
                },
            )
        })
        .collect();
    let mut p = P::new();
    let v = if mode == 0 {
        p.strs(&ss)
    } else {
        let rs: Vec<usize> = ss.iter().map(|s| p.str(s)).collect();
        p.refs(&rs, mode)
    };
    p.start();
    p.slot(0, Ty::U64, 7);
    p.slot_ref(1, v);
    let r = p.end();
    p.finish_min(r);
    p
}

/// all small object graphs: each object picks its kind and its children among the earlier ones
pub fn graphs(ch: &mut Ch) -> P {
    let kmax = ch.by_tier(4, 5);
    graphs_of(ch, kmax)
}

pub fn graphs_of(ch: &mut Ch, kmax: usize) -> P {
    let k = ch.range(0, kmax);
    let mut p = P::new();
    for i in 0..k {
        match ch.choose(if i == 0 { 4 } else { 6 }) {
            0 => {
                p.str(&"wxyz"[..(i + 1) % 4]);
            }
            1 => {
                p.vec(Ty::U16, &[0x1234, 0x5678 + i as u64, 3][..(i + 1) % 4], i % 3);
            }
            2 => {
                p.vec(Ty::F64, &[0x3ff0_0000_0000_0000][..i % 2], (i + 1) % 3);
            }
            3 => {
                p.start();
                p.slot(0, Ty::U8, 0x40 + i as u64);
                p.slot(2, Ty::U64, 0x99);
                p.end();
            }
            4 => {
                let n = ch.range(0, 2);
                let rs: Vec<usize> = (0..n).map(|_| ch.choose(i)).collect();
                p.refs(&rs, i % 3);
            }
            _ => {
                let n = ch.range(1, 2);
                let rs: Vec<usize> = (0..n).map(|_| ch.choose(i)).collect();
                p.start();
                for (j, r) in rs.iter().enumerate() {
                    p.slot_ref(j as u16, *r);
                }
                p.slot(3, Ty::U16, 5);
                p.end();
            }
        }
    }
    // the root refers to every object that has no parent, and to one more of choice
    let m = Model::of(&p.c);
    let mut has_parent = vec![false; k];
    for n in &m.regs {
        let ks: Vec<N> = match &**n {
            Node::VecRef(v) => v.clone(),
            Node::Table(t) => t.values().cloned().collect(),
            _ => vec![],
        };
        for q in ks {
            for (j, r) in m.regs.iter().enumerate() {
                if std::rc::Rc::ptr_eq(r, &q) {
                    has_parent[j] = true;
                }
            }
        }
    }
    p.start();
    let mut s = 0;
    for j in 0..k {
        if !has_parent[j] {
            p.slot_ref(s, j);
            s += 1;
        }
    }
    if k > 0 {
        let x = ch.choose(k + 1);
        if x < k {
            p.slot_ref(s + 1, x);
        }
    }
    let r = p.end();
    p.finish_min(r);
    p
}

/// many tables whose layouts repeat with a period, in one vector
pub fn many_tables(ch: &mut Ch) -> P {
    let n = ch.range(0, ch.by_tier(60, 100));
    let period = ch.range(1, ch.by_tier(16, 32));
    let filler = ch.choose(3);
    let mut p = P::new();
    let mut rs = vec![];
    for i in 0..n {
        let l = i % period;
        let f = if filler > 0 { Some(p.str(&text(0, (i * filler) % 5))) } else { None };
        p.start();
        for b in 0..4u16 {
            if (l >> b) & 1 != 0 {
                let t = [Ty::U8, Ty::U16, Ty::U32, Ty::U64][b as usize];
                p.slot(b, t, val(t, i));
            }
        }
        if let Some(f) = f {
            p.slot_ref(5, f);
        }
        rs.push(p.end());
    }
    let v = p.refs(&rs, filler);
    p.start();
    p.slot_ref(0, v);
    let r = p.end();
    p.finish_min(r);
    p
}

/// one field in a far slot, next to slot 0
pub fn high_slots(ch: &mut Ch) -> P {
    let far: Vec<u16> = (0..600).chain([1000, 4095, 4096, 8190, 16382, 16383, 16384, 32000, 32762, 32763, 32764]).collect();
    let s = *ch.pick(&far);
    let t = *ch.pick(&[Ty::U8, Ty::U64, Ty::U16]);
    let both = ch.flag();
    let mut p = P::new();
    p.start();
    if both && s != 0 {
        p.slot(0, Ty::U32, 0xdead_beef);
    }
    p.slot(s, t, val(t, s as usize));
    let r = p.end();
    p.finish_min(r);
    p
}

pub const IDENTS: [&str; 6] = ["ABCD", "abcd", "MONS", "\0\0\0\0", "é12", "~ ~\n"];

/// every way to finish, over small programs of every alignment
pub fn finishes(ch: &mut Ch) -> P {
    let mut p = P::new();
    let phase = *ch.pick(&PHASES);
    let s = p.str(&"abcdefgh"[..phase]);
    let big = ch.choose(4);
    let v = if ch.flag() { Some(p.vec(*ch.pick(&[Ty::U8, Ty::U64]), &[1, 2, 3], 0)) } else { None };
    p.start();
    match big {
        1 => p.slot(0, Ty::U16, 0xabcd),
        2 => p.slot(0, Ty::U32, 0xabcd_ef01),
        3 => p.slot(0, Ty::F64, 0x4009_21fb_5444_2d18),
        _ => {}
    }
    p.slot_ref(1, s);
    if let Some(v) = v {
        p.slot_ref(2, v);
    }
    let r = p.end();
    match ch.choose(5) {
        0 => p.finish_min(r),
        1 => p.finish(r, None, false),
        2 => p.finish(r, None, true),
        3 => {
            let i = *ch.pick(&IDENTS);
            p.finish(r, Some(i), false)
        }
        _ => {
            let i = *ch.pick(&IDENTS);
            p.finish(r, Some(i), true)
        }
    }
    p
}

/// nesting of every depth
pub fn deep(ch: &mut Ch) -> P {
    let d = ch.range(1, ch.by_tier(300, 1000));
    let kind = ch.choose(3);
    let mut p = P::new();
    let mut last = p.str("leaf");
    for i in 0..d {
        last = match (kind, i % 2) {
            (0, _) | (2, 0) => {
                p.start();
                p.slot_ref(1, last);
                p.slot(0, Ty::U16, i as u64);
                p.end()
            }
            _ => p.refs(&[last], i % 3),
        };
    }
    p.start();
    p.slot_ref(0, last);
    let r = p.end();
    p.finish_min(r);
    p
}

/// buffers and offsets beyond 16 bits
pub fn big(ch: &mut Ch) -> P {
    let kind = ch.choose(7);
    let n = *ch.pick(&[65_530usize, 65_535, 65_536, 65_537, 70_001, 131_072, 200_003]);
    let how = if kind == 1 || kind == 3 { ch.choose(3) } else { 0 };
    let mut p = big_of(kind, n, how);
    let fin = ch.choose(if how == 0 { 3 } else { 1 });
    if fin > 0 {
        let r = match p.c.pop() {
            Some(Call::FinishMin(r)) => r,
            _ => unreachable!(),
        };
        p.finish(r, if fin == 1 { Some("BIGB") } else { None }, true);
    }
    p
}

/// two tables of many fields, the second like the first except for a missing or a different field
pub fn wide(ch: &mut Ch) -> P {
    let ns: Vec<usize> = (1..=ch.by_tier(140, 300)).chain([255, 256, 257, 300, 511, 512, 1000, 3000]).collect();
    let n = *ch.pick(&ns);
    let kind = ch.choose(6);
    // which field differs in the second table
    let d = *ch.pick(&[0, n / 2, n - 1, n]);
    let how = if d < n { ch.choose(2) } else { 0 };
    let mut p = P::new();
    let s = p.str("shared");
    let mut ts = vec![];
    for second in [false, true] {
        p.start();
        for i in 0..n {
            // fields in rising, falling or interleaved order
            let i = match kind {
                0 | 1 => i,
                2 | 3 => n - 1 - i,
                _ => {
                    if i < (n + 1) / 2 {
                        2 * i
                    } else {
                        2 * (i - (n + 1) / 2) + 1
                    }
                }
            };
            let mut t = match kind % 2 {
                0 => Ty::U16,
                _ => [Ty::U8, Ty::U16, Ty::U32, Ty::U64][i % 4],
            };
            if second && i == d {
                if how == 0 {
                    continue;
                }
                t = if t == Ty::U16 { Ty::U32 } else { Ty::U16 };
            }
            if kind == 5 && i % 7 == 3 {
                p.slot_ref(i as u16, s)
            } else {
                p.slot(i as u16, t, val(t, i + second as usize))
            }
        }
        ts.push(p.end());
    }
    p.start();
    p.slot_ref(0, ts[0]);
    p.slot_ref(1, ts[1]);
    p.slot_ref(2, s);
    let r = p.end();
    p.finish_min(r);
    p
}
pub fn big_of(kind: usize, n: usize, how: usize) -> P {
    let mut p = P::new();
    match kind {
        0 => {
            // a repeated layout on both sides of a big string
            p.start();
            p.slot(0, Ty::U32, 1);
            let a = p.end();
            let s = p.str(&text(1, n));
            p.start();
            p.slot(0, Ty::U32, 2);
            let b = p.end();
            p.start();
            p.slot_ref(0, a);
            p.slot_ref(1, s);
            p.slot_ref(2, b);
        }
        1 => {
            let xs: Vec<u64> = (0..n / 8).map(|i| val(Ty::U64, i)).collect();
            let v = p.vec(Ty::U64, &xs, how);
            p.start();
            p.slot_ref(0, v);
        }
        2 => {
            let ss: Vec<String> = (0..n / 100).map(|i| text(0, i % 90)).collect();
            let v = p.strs(&ss);
            p.start();
            p.slot_ref(0, v);
        }
        5 => {
            // more elements than 16 bits count
            let ss: Vec<String> = (0..n).map(|i| text(0, i % 3)).collect();
            let v = p.strs(&ss);
            p.start();
            p.slot_ref(0, v);
        }
        6 => {
            let b: Vec<u8> = (0..n).map(|i| (i % 253) as u8).collect();
            let v = p.bytes(&b);
            p.start();
            p.slot_ref(0, v);
        }
        3 => {
            let v = p.vec(Ty::U8, &(0..n).map(|i| (i % 251) as u64).collect::<Vec<_>>(), how);
            let w = p.vec(Ty::F64, &[1, 2, 3], 0);
            p.start();
            p.slot_ref(0, w);
            p.slot_ref(1, v);
        }
        _ => {
            let mut rs = vec![];
            for i in 0..n / 40 {
                let s = p.str(&text(0, i % 30));
                p.start();
                p.slot_ref(0, s);
                p.slot((i % 7) as u16 + 1, Ty::U16, i as u64);
                rs.push(p.end());
            }
            let v = p.refs(&rs, 0);
            p.start();
            p.slot_ref(0, v);
        }
    }
    let r = p.end();
    p.finish_min(r);
    p
}

/// tables near the limit of the 16-bit table and vtable sizes; (program, bytes of field data)
pub fn near_limit(ch: &mut Ch) -> (P, usize, usize) {
    let kind = ch.choose(4);
    let d = ch.choose(14);
    let mut p = P::new();
    p.start();
    let mut bytes = 0;
    let mut slots = 0;
    match kind {
        0 => {
            // 8-byte fields
            slots = 8180 + d;
            for i in 0..slots {
                p.slot(i as u16, Ty::U64, val(Ty::U64, i));
                bytes += 8;
            }
        }
        1 => {
            // 4-byte fields, then single bytes
            slots = 16376 + d;
            for i in 0..slots {
                p.slot(i as u16, Ty::U32, val(Ty::U32, i));
                bytes += 4;
            }
        }
        2 => {
            // 2-byte fields: inline size and vtable both near the limit
            slots = 32755 + d;
            for i in 0..slots.min(32766) {
                p.slot(i as u16, Ty::U16, val(Ty::U16, i));
                bytes += 2;
            }
            slots = slots.min(32766);
        }
        _ => {
            // only the vtable is big
            let s = 32753 + d;
            if s <= 32765 {
                p.slot(s as u16, Ty::U8, 3);
                slots = s + 1;
                bytes = 1;
            }
        }
    }
    let r = p.end();
    p.finish_min(r);
    (p, bytes, slots)
}
