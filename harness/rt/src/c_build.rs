//! C01, C02, C05, C06, C07, C09: the builder.

use crate::gens;
use crate::prog::*;
use crate::read;
use fbspec::*;
use mc::{guard, Ch};
use std::collections::{BTreeSet, HashMap};

fn build(p: &[Call], cap: usize) -> Result<Vec<u8>, String> {
    guard(|| {
        let mut m = M::new(cap);
        m.run_all(p);
        m.b.finished_data().to_vec()
    })
    .map_err(|e| format!("the builder panicked: {}", e))
}

fn fmt_prog(p: &[Call]) -> String {
    let s = format!("{:?}", p);
    s.chars().take(1500).collect()
}

fn c01(ch: &mut Ch, p: P) -> Result<(), String> {
    ch.note(|| fmt_prog(&p.c));
    let model = Model::of(&p.c);
    let rootn = model.root.clone().unwrap();
    let r = guard(|| {
        let mut m = M::new(0);
        m.run_all(&p.c);
        let own = read::read_all(m.b.finished_data(), &rootn, model.sized);
        let own = match own {
            Ok(n) => n,
            Err(e) => return Err(e),
        };
        // the same bytes moved elsewhere
        let pl = read::Placed::new(m.b.finished_data(), 0);
        read::read_all(pl.get(), &rootn, model.sized)?;
        Ok((own, m.b.finished_data().to_vec()))
    });
    match r {
        Err(e) => Err(format!("panic: {}", e)),
        Ok(Err(e)) => Err(e),
        Ok(Ok((n, bytes))) => {
            ch.eval(n);
            ch.step(p.c.len() as u64);
            ch.state(&bytes);
            ch.sample(|| format!("{} -> {} bytes, {} reads agree", fmt_prog(&p.c), bytes.len(), n));
            Ok(())
        }
    }
}

fn c02(ch: &mut Ch, p: P) -> Result<(), String> {
    ch.note(|| fmt_prog(&p.c));
    let model = Model::of(&p.c);
    let bytes = build(&p.c, 0)?;
    let rep = verify(&bytes, model.root.as_ref().unwrap(), &VOpts { ident: model.ident, sized: model.sized, exact: true })
        .map_err(|e| format!("not a conforming buffer: {} ({} bytes)", e, bytes.len()))?;
    ch.eval(rep.objects as u64);
    ch.step(p.c.len() as u64);
    ch.state(&bytes);
    ch.sample(|| format!("{} -> {} bytes: {} objects, {} padding bytes", fmt_prog(&p.c), bytes.len(), rep.objects, rep.padding));
    Ok(())
}

macro_rules! both {
    ($($g:ident $a:ident $b:ident),*) => { $(
        pub fn $a(ch: &mut Ch) -> Result<(), String> { let p = gens::$g(ch); c01(ch, p) }
        pub fn $b(ch: &mut Ch) -> Result<(), String> { let p = gens::$g(ch); c02(ch, p) }
    )* }
}
both!(fields c01_fields c02_fields, scalars c01_scalars c02_scalars, strings c01_strings c02_strings,
      vectors c01_vectors c02_vectors, vector_values c01_vector_values c02_vector_values,
      string_vectors c01_string_vectors c02_string_vectors, graphs c01_graphs c02_graphs,
      many_tables c01_many_tables c02_many_tables, high_slots c01_high_slots c02_high_slots,
      finishes c01_finishes c02_finishes, deep c01_deep c02_deep, big c01_big c02_big,
      wide c01_wide c02_wide);

/// Tables at the limit of the 16-bit sizes: written correctly or refused.
pub fn c02_limit(ch: &mut Ch) -> Result<(), String> {
    let (p, bytes, slots) = gens::near_limit(ch);
    ch.step(p.c.len() as u64);
    let fits = bytes + 4 <= 65535 && 4 + 2 * slots <= 65535;
    // whatever padding a layout needs
    let surely = bytes + 12 <= 65535 && 4 + 2 * slots <= 65535;
    match build(&p.c, 0) {
        Err(e) => {
            if surely {
                return Err(format!("a table of {} data bytes in {} slots was refused: {}", bytes, slots, e));
            }
        }
        Ok(b) => {
            if !fits {
                return Err(format!("a table of {} data bytes in {} slots does not fit 16-bit sizes but was written", bytes, slots));
            }
            let model = Model::of(&p.c);
            verify(&b, model.root.as_ref().unwrap(), &VOpts { ident: None, sized: false, exact: true }).map_err(|e| format!("table of {} data bytes in {} slots: {}", bytes, slots, e))?;
            ch.state(&b);
        }
    }
    ch.eval(1);
    ch.sample(|| format!("{} data bytes in {} slots", bytes, slots));
    Ok(())
}

/// is there memory for the scenario below?
fn gigabytes() -> bool {
    let need = 10u64 << 30;
    let read = |p: &str| std::fs::read_to_string(p).unwrap_or_default();
    let avail = read("/proc/meminfo").lines().find(|l| l.starts_with("MemAvailable:")).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok()).unwrap_or(0) << 10;
    let max = read("/sys/fs/cgroup/memory.max").trim().parse::<u64>().unwrap_or(u64::MAX);
    let used = read("/sys/fs/cgroup/memory.current").trim().parse::<u64>().unwrap_or(0);
    avail >= need && max.saturating_sub(used) >= need / 2
}

/// Buffers around the format's 2 GiB: written correctly or refused.
pub fn c02_huge(ch: &mut Ch) -> Result<(), String> {
    const MAX: usize = 1 << 31;
    const SLACK: usize = 256;
    // capacity, byte strings
    let (cap, chunks): (usize, &[usize]) = *ch.pick(&[
        // the capacity allows what the format does not
        (3 << 29, &[1 << 30, 1 << 30, 4000][..]),
        (0, &[1 << 30, (1 << 30) - 2 * SLACK]),
        (MAX, &[MAX - 64]),
        (MAX, &[MAX - 40]),
        (0, &[1_100_000_000, 1_100_000_000]),
        (MAX - 1, &[MAX - SLACK - 40]),
    ]);
    let payload: usize = chunks.iter().sum();
    if !gigabytes() {
        return Ok(());
    }
    // one at a time: each takes gigabytes
    let lock = std::env::var("VERIF_DIR").map(|d| d + "/target/huge.lock").unwrap_or_else(|_| "/tmp/huge.lock".into());
    let lock = std::fs::File::create(lock).map_err(|e| e.to_string())?;
    lock.lock().map_err(|e| e.to_string())?;
    struct T;
    impl<'a> butte::Follow<'a> for T {
        type Inner = butte::Table<&'a [u8]>;
        fn follow(b: &'a [u8], l: usize) -> Result<Self::Inner, butte::Error> {
            Ok(butte::Table::new(b, l))
        }
    }
    let r = guard(|| {
        let mut b = butte::FlatBufferBuilder::new_with_capacity(cap);
        let tab = |b: &mut butte::FlatBufferBuilder<'static>, x: u32| {
            let t = b.start_table();
            b.push_slot_always::<u32>(4, x);
            b.end_table(t)
        };
        let first = tab(&mut b, 0x1122_3344);
        let zeros = vec![0u8; *chunks.iter().max().unwrap()];
        let strs: Vec<_> = chunks.iter().map(|n| b.create_byte_string(&zeros[..*n])).collect();
        drop(zeros);
        let last = tab(&mut b, 0x5566_7788);
        let t = b.start_table();
        b.push_slot_always(4, first);
        b.push_slot_always(6, last);
        for (i, s) in strs.iter().enumerate() {
            b.push_slot_always(8 + 2 * i as u16, *s);
        }
        let t = b.end_table(t);
        b.finish_minimal(t);
        let buf = b.finished_data();
        if buf.len() > MAX {
            return Err(format!("a buffer of {} bytes was written", buf.len()));
        }
        let t = butte::Table::get_root(buf).map_err(|e| format!("root: {:?}", e))?;
        for (s, x) in [(4u16, 0x1122_3344u32), (6, 0x5566_7788)] {
            let r = t.get::<butte::ForwardsUOffset<T>>(s, None).and_then(|t| t.unwrap().get::<u32>(4, None));
            if r != Ok(Some(x)) {
                return Err(format!("in a buffer of {} bytes, {:x} reads {:x?}", buf.len(), x, r));
            }
        }
        for (i, n) in chunks.iter().enumerate() {
            let r = t.get::<butte::ForwardsUOffset<butte::Vector<u8>>>(8 + 2 * i as u16, None).and_then(|v| v.unwrap().len());
            if r != Ok(*n) {
                return Err(format!("a byte string of {} has length {:?}", n, r));
            }
        }
        Ok(buf.len())
    });
    match r {
        Ok(Ok(n)) => ch.state(&n.to_le_bytes()),
        Ok(Err(e)) => return Err(e),
        Err(e) => {
            if payload + SLACK <= MAX {
                return Err(format!("{} bytes were refused: {}", payload, e));
            }
        }
    }
    ch.eval(1);
    ch.step(8);
    ch.sample(|| format!("byte strings {:?} at capacity {}", chunks, cap));
    Ok(())
}

// ---------------------------------------------------------------- C05

/// Programs that exercise every growth and padding path.
fn zoo() -> Vec<P> {
    let mut v = vec![];
    // 0: empty table
    let mut p = P::new();
    p.start();
    let r = p.end();
    p.finish_min(r);
    v.push(p);
    // 1: all sizes
    let mut p = P::new();
    let s = p.str("hey");
    p.start();
    p.slot(0, Ty::U8, 0xf1);
    p.slot(1, Ty::U64, 0xf1f2_f3f4_f5f6_f7f8);
    p.slot(3, Ty::U16, 0xf1f2);
    p.slot_ref(4, s);
    let r = p.end();
    p.finish(r, Some("ABCD"), true);
    v.push(p);
    // 2: shared vtables and vectors
    let mut p = P::new();
    let mut ts = vec![];
    for i in 0..3 {
        p.start();
        p.slot(i % 2, Ty::U32, 0xffff_0000 + i as u64);
        ts.push(p.end());
    }
    let tv = p.refs(&ts, 2);
    let sv = p.strs(&["".into(), "ab".into(), "xyz".into()]);
    let dv = p.vec(Ty::F64, &[u64::MAX >> 1, 3], 1);
    p.start();
    p.slot_ref(0, tv);
    p.slot_ref(1, sv);
    p.slot_ref(2, dv);
    let r = p.end();
    p.finish(r, None, false);
    v.push(p);
    // 3: direct and pushed vectors, byte string
    let mut p = P::new();
    let a = p.vec(Ty::U16, &[1, 2, 3], 1);
    let b = p.vec(Ty::I64, &[0x8000_0000_0000_0000], 2);
    let c = p.bytes(&[255, 254, 0, 1, 2]);
    let d = p.vec(Ty::Bool, &[1, 0, 1], 0);
    p.start();
    p.slot_d(0, Ty::F32, 0, 0);
    p.slot_ref(1, a);
    p.slot_ref(2, b);
    p.slot_ref(3, c);
    p.slot_ref(5, d);
    let r = p.end();
    p.finish(r, Some("zzzz"), false);
    v.push(p);
    // 4: same layout twice with different data
    let mut p = P::new();
    p.start();
    p.slot(0, Ty::I8, 0xaa);
    p.slot(1, Ty::I16, 0xbbbb);
    let a = p.end();
    p.start();
    p.slot(0, Ty::I8, 0xcc);
    p.slot(1, Ty::I16, 0xdddd);
    p.slot_ref(2, a);
    let r = p.end();
    p.finish(r, None, true);
    v.push(p);
    // 5: a vector as long as several doublings
    let mut p = P::new();
    let s = p.str(&gens::text(0, 37));
    let xs: Vec<u64> = (0..19).map(|i| gens::val(Ty::U32, i)).collect();
    let x = p.vec(Ty::U32, &xs, 1);
    p.start();
    p.slot_ref(0, x);
    p.slot_ref(1, s);
    let r = p.end();
    p.finish_min(r);
    v.push(p);
    v
}

fn check_same(what: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a != b {
        let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return Err(format!("{}: the output differs (lengths {} and {}, first difference at {}):\n {:02x?}\n {:02x?}", what, a.len(), b.len(), i, a, b));
    }
    Ok(())
}

/// every capacity
pub fn c05_capacity(ch: &mut Ch) -> Result<(), String> {
    let z = zoo();
    let p = ch.choose(z.len());
    let top = ch.by_tier(1200, 8192);
    let cap = ch.range(0, top);
    let base = build(&z[p].c, 0)?;
    let got = build(&z[p].c, cap)?;
    check_same(&format!("program {} with capacity {}", p, cap), &base, &got)?;
    let (v, h) = guard(|| {
        let mut m = M::new(cap);
        m.run_all(&z[p].c);
        if m.b.unfinished_data() != m.b.finished_data() {
            return Err("unfinished_data and finished_data differ on a finished buffer".to_string());
        }
        Ok(m.b.collapse())
    })
    .map_err(|e| format!("panic: {}", e))??;
    if h > v.len() {
        return Err(format!("collapse returned start {} beyond {} bytes", h, v.len()));
    }
    check_same(&format!("program {} collapsed, capacity {}", p, cap), &base, &v[h..])?;
    ch.eval(2);
    ch.step(2 * z[p].c.len() as u64);
    ch.state(&base);
    ch.sample(|| format!("program {} with capacity {}: identical {} bytes, also collapsed", p, cap, base.len()));
    Ok(())
}

/// every history stopped anywhere (finished or not), reset, then every program; twice in a row
pub fn c05_reset(ch: &mut Ch) -> Result<(), String> {
    let z = zoo();
    let cap = *ch.pick(&[0usize, 1, 16, 40, 64, 512]);
    let h = ch.choose(z.len());
    let cut = ch.range(0, z[h].c.len());
    let twice = ch.choose(z.len() + 1);
    let p = ch.choose(z.len());
    let mut cs: Vec<Call> = z[h].c[..cut].to_vec();
    cs.push(Call::Reset);
    if twice > 0 {
        let q = &z[twice - 1];
        // stop somewhere in the middle, with a table or vector open where there is one
        let mid = q.c.len() * 2 / 3;
        cs.extend_from_slice(&q.c[..mid]);
        cs.push(Call::Reset);
    }
    cs.extend_from_slice(&z[p].c);
    ch.note(|| fmt_prog(&cs));
    let base = build(&z[p].c, 0)?;
    let got = build(&cs, cap)?;
    check_same(&format!("program {} after program {} stopped at call {} and reset (capacity {})", p, h, cut, cap), &base, &got)?;
    let model = Model::of(&cs);
    verify(&got, model.root.as_ref().unwrap(), &VOpts { ident: model.ident, sized: model.sized, exact: true })?;
    ch.eval(2);
    ch.step(cs.len() as u64);
    ch.state(&got);
    ch.sample(|| format!("program {} cut at {} / reset / program {}: identical", h, cut, p));
    Ok(())
}

/// clone at any point; both copies continue in either order, possibly differently
pub fn c05_clone(ch: &mut Ch) -> Result<(), String> {
    let z = zoo();
    let cap = *ch.pick(&[0usize, 1, 7, 33, 300]);
    let p = ch.choose(z.len());
    let cut = ch.range(0, z[p].c.len());
    let other = ch.choose(z.len() + 2);
    let clone_first = ch.flag();
    let base = build(&z[p].c, 0)?;
    let (a, b) = guard(|| {
        let mut m = M::new(cap);
        m.run_all(&z[p].c[..cut]);
        let mut k = m.clone();
        if clone_first {
            run_other(&mut k, &z, p, cut, other);
            m.run_all(&z[p].c[cut..]);
        } else {
            m.run_all(&z[p].c[cut..]);
            run_other(&mut k, &z, p, cut, other);
        }
        let kb = if other == z.len() { vec![] } else { k.b.finished_data().to_vec() };
        (m.b.finished_data().to_vec(), kb)
    })
    .map_err(|e| format!("panic: {}", e))?;
    check_same(&format!("program {} cloned at {}", p, cut), &base, &a)?;
    if other < z.len() {
        check_same(&format!("clone of program {} at {}, reset, program {}", p, cut, other), &build(&z[other].c, 0)?, &b)?;
    } else if other > z.len() {
        check_same(&format!("clone of program {} at {}, continued", p, cut), &base, &b)?;
    }
    ch.eval(2);
    ch.step(2 * z[p].c.len() as u64);
    ch.state(&a);
    Ok(())
}
fn run_other(k: &mut M, z: &[P], p: usize, cut: usize, other: usize) {
    if other == z.len() {
        // dropped mid-way
        return;
    }
    if other < z.len() {
        k.run(&Call::Reset);
        k.run_all(&z[other].c);
    } else {
        k.run_all(&z[p].c[cut..]);
    }
}

/// growth at every point: graphs built at capacities around their size
pub fn c05_graphs(ch: &mut Ch) -> Result<(), String> {
    let p = gens::graphs(ch);
    let base = build(&p.c, 0)?;
    let n = base.len();
    for cap in [1, 2, 3, n / 2, n - 1, n, n + 1, n + 5, 4 * n] {
        let got = build(&p.c, cap)?;
        check_same(&format!("{} with capacity {}", fmt_prog(&p.c), cap), &base, &got)?;
        ch.eval(1);
    }
    // after itself
    let mut cs = p.c.clone();
    cs.push(Call::Reset);
    cs.extend_from_slice(&p.c);
    check_same("the same program again after reset", &base, &build(&cs, 0)?)?;
    ch.step(10 * p.c.len() as u64);
    ch.state(&base);
    Ok(())
}

/// big programs at capacities around the powers of two, also after a reset of another big program
pub fn c05_big(ch: &mut Ch) -> Result<(), String> {
    let kind = *ch.pick(&[0usize, 3, 4, 6]);
    let n = *ch.pick(&[1_000usize, 32_760, 65_536, 131_071]);
    let cap = match ch.choose(4) {
        0 => 0,
        k => (1usize << ch.range(8, 18)) + k - 2,
    };
    let pre = ch.choose(3);
    let p = gens::big_of(kind, n, 1);
    let mut cs = vec![];
    if pre > 0 {
        let q = gens::big_of(3, 50_000, pre);
        cs.extend_from_slice(&q.c[..q.c.len() - 1]);
        cs.push(Call::Reset);
    }
    cs.extend_from_slice(&p.c);
    let base = build(&p.c, 0)?;
    let got = build(&cs, cap)?;
    ch.eval(1);
    ch.step(cs.len() as u64);
    ch.state(&base);
    if base != got {
        return Err(format!("the output of big program {}/{} differs with capacity {}{}", kind, n, cap, if pre > 0 { " after a reset" } else { "" }));
    }
    Ok(())
}

/// after a reset a big previous use leaves no trace in padding
pub fn c05_dirty(ch: &mut Ch) -> Result<(), String> {
    let z = zoo();
    let fill = ch.range(0, ch.by_tier(600, 2000));
    let kind = ch.choose(3);
    let p = ch.choose(z.len());
    let mut q = P::new();
    let dirt: Vec<u8> = vec![0xEE; fill];
    match kind {
        0 => {
            let a = q.bytes(&dirt);
            q.start();
            q.slot_ref(0, a);
            let r = q.end();
            q.finish_min(r);
        }
        1 => {
            q.vec(Ty::U8, &vec![0xEE; fill], 2);
        }
        _ => {
            q.start();
            for i in 0..fill.min(200) {
                q.slot(i as u16, Ty::U64, 0xEEEE_EEEE_EEEE_EEEE);
            }
        }
    }
    let mut cs = q.c.clone();
    cs.push(Call::Reset);
    cs.extend_from_slice(&z[p].c);
    let base = build(&z[p].c, 0)?;
    let got = build(&cs, 0)?;
    check_same(&format!("program {} after a use that filled {} bytes with 0xEE", p, fill), &base, &got)?;
    ch.eval(1);
    ch.step(cs.len() as u64);
    ch.state(&got);
    Ok(())
}

// ---------------------------------------------------------------- C06

/// check sharing in a finished buffer; returns the number of distinct vtables
fn sharing(bytes: &[u8], root: &N) -> Result<usize, String> {
    let rep = verify(bytes, root, &VOpts { ident: None, sized: false, exact: true })?;
    // no alignment asks for 8 bytes: they would be what is left of a vtable
    if rep.gap >= 8 {
        return Err(format!("{} unused bytes in a row", rep.gap));
    }
    let mut by_bytes: HashMap<&[u8], usize> = HashMap::new();
    let mut by_loc: HashMap<usize, &[u8]> = HashMap::new();
    for (t, v, b) in &rep.tables {
        if let Some(l) = by_bytes.get(&b[..]) {
            if l != v {
                return Err(format!("table {} has its own vtable at {} although the vtable at {} is identical ({:02x?})", t, v, l, b));
            }
        }
        by_bytes.insert(&b[..], *v);
        by_loc.insert(*v, &b[..]);
    }
    Ok(by_bytes.len())
}

/// layouts: presence/type/order of fields
const LAYOUTS: [&[(u16, Ty)]; 9] = [
    &[],
    &[(0, Ty::U8)],
    &[(0, Ty::U16)],
    &[(1, Ty::U8)],
    &[(0, Ty::U8), (1, Ty::U8)],
    &[(1, Ty::U8), (0, Ty::U8)],
    &[(0, Ty::U32)],
    &[(0, Ty::U64)],
    &[(2, Ty::U8), (0, Ty::U16)],
];

fn lay(p: &mut P, l: usize, salt: usize) -> usize {
    p.start();
    for (i, (s, t)) in LAYOUTS[l].iter().enumerate() {
        p.slot(*s, *t, gens::val(*t, salt + i));
    }
    p.end()
}

fn run_c06(ch: &mut Ch, p: &P, pre: &[Call]) -> Result<(), String> {
    let mut cs = pre.to_vec();
    if !pre.is_empty() {
        cs.push(Call::Reset);
    }
    cs.extend_from_slice(&p.c);
    let fin = cs.pop().unwrap();
    let mut m = M::new(0);
    let mut model = Model::default();
    let (bytes, n_before) = guard(|| {
        for c in &cs {
            m.run(c);
            model.run(c);
        }
        let n = m.b.num_written_vtables();
        m.run(&fin);
        model.run(&fin);
        (m.b.finished_data().to_vec(), n)
    })
    .map_err(|e| format!("panic: {}", e))?;
    let d = sharing(&bytes, model.root.as_ref().unwrap()).map_err(|e| format!("{} in {}", e, fmt_prog(&cs)))?;
    if n_before != d {
        return Err(format!("num_written_vtables is {} but there are {} distinct layouts in {}", n_before, d, fmt_prog(&cs)));
    }
    read::read_all(&bytes, model.root.as_ref().unwrap(), false)?;
    ch.eval(2);
    ch.step(cs.len() as u64 + 1);
    ch.state(&bytes);
    ch.sample(|| format!("{} tables -> {} vtables", cs.iter().filter(|c| **c == Call::EndTable).count(), d));
    Ok(())
}

/// all sequences of layouts with or without objects between them
pub fn c06_seqs(ch: &mut Ch) -> Result<(), String> {
    let n = ch.range(1, ch.by_tier(5, 6));
    let filler = ch.choose(3);
    let mut p = P::new();
    let mut rs = vec![];
    for i in 0..n {
        let l = ch.choose(LAYOUTS.len());
        rs.push(lay(&mut p, l, i));
        match filler {
            1 => rs.push(p.str(&"abcdef"[..(i * 3) % 5])),
            2 => rs.push(p.vec(Ty::U8, &[1, 2, 3, 4, 5][..(i * 2 + 1) % 6], 1)),
            _ => {}
        }
    }
    // root has a layout of its own, or one of the used ones plus references in high slots
    p.start();
    for (i, r) in rs.iter().enumerate() {
        p.slot_ref(10 + i as u16, *r);
    }
    let r = p.end();
    p.finish_min(r);
    run_c06(ch, &p, &[])
}

/// many distinct layouts, then every one of them again, near and far
pub fn c06_many(ch: &mut Ch) -> Result<(), String> {
    let d = ch.range(1, ch.by_tier(100, 300));
    let rep = ch.range(0, 2);
    let rev = ch.flag();
    let fill = *ch.pick(&[0usize, 1, 50, 4000]);
    let mut p = P::new();
    let mut rs = vec![];
    let one = |p: &mut P, i: usize| {
        p.start();
        p.slot(i as u16, Ty::U16, i as u64);
        p.end()
    };
    for i in 0..d {
        rs.push(one(&mut p, i));
    }
    if fill > 0 {
        rs.push(p.str(&gens::text(0, fill)));
    }
    for _ in 0..rep {
        for i in 0..d {
            let j = if rev { d - 1 - i } else { i };
            rs.push(one(&mut p, j));
        }
    }
    let v = p.refs(&rs, 0);
    p.start();
    p.slot_ref(200, v);
    let r = p.end();
    p.finish_min(r);
    run_c06(ch, &p, &[])
}

/// an earlier buffer (finished or abandoned) with the same layouts must not influence sharing
pub fn c06_reset(ch: &mut Ch) -> Result<(), String> {
    let mk = |ls: &[usize]| {
        let mut p = P::new();
        let mut rs = vec![];
        for (i, l) in ls.iter().enumerate() {
            rs.push(lay(&mut p, *l, i));
        }
        let v = p.refs(&rs, 0);
        p.start();
        p.slot_ref(3, v);
        let r = p.end();
        p.finish_min(r);
        p
    };
    let a: Vec<usize> = (0..2).map(|_| ch.choose(LAYOUTS.len())).collect();
    let b: Vec<usize> = (0..2).map(|_| ch.choose(LAYOUTS.len())).collect();
    let pa = mk(&a);
    let pb = mk(&b);
    let cut = ch.range(0, pa.c.len());
    run_c06(ch, &pb, &pa.c[..cut])
}

/// nested tables: children written before their parent share with it where equal
pub fn c06_nested(ch: &mut Ch) -> Result<(), String> {
    let d = ch.range(1, ch.by_tier(7, 9));
    let mut p = P::new();
    let mut last = None;
    for i in 0..d {
        let extra = ch.choose(3);
        p.start();
        if extra == 1 {
            p.slot(1, Ty::U8, i as u64);
        } else if extra == 2 {
            p.slot(1, Ty::U16, i as u64);
        }
        if let Some(l) = last {
            p.slot_ref(0, l);
        }
        last = Some(p.end());
    }
    p.finish_min(last.unwrap());
    run_c06(ch, &p, &[])
}

/// all subsets of slots, several types: layouts compared as whole vtables
pub fn c06_pairs(ch: &mut Ch) -> Result<(), String> {
    let mut p = P::new();
    let mut rs = vec![];
    for i in 0..2 {
        let mask = ch.choose(16);
        let wide = ch.choose(3);
        p.start();
        for s in 0..4u16 {
            if (mask >> s) & 1 != 0 {
                let t = match wide {
                    0 => Ty::U8,
                    1 => Ty::U16,
                    _ => [Ty::U8, Ty::U32, Ty::U16, Ty::U64][s as usize],
                };
                p.slot(s, t, gens::val(t, i + s as usize));
            }
        }
        rs.push(p.end());
        if i == 0 && ch.flag() {
            rs.push(p.str("x"));
        }
    }
    p.start();
    for (i, r) in rs.iter().enumerate() {
        p.slot_ref(20 + i as u16, *r);
    }
    let r = p.end();
    p.finish_min(r);
    run_c06(ch, &p, &[])
}

/// two tables of many fields whose vtables differ in any two entries or in none
pub fn c06_wide(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.pick(&[6usize, 9, 17, 34, 65, 130, 300]);
    let n = if ch.thorough() { n * 2 } else { n };
    let i = ch.choose(n);
    // any other one; in big tables a near or a far one
    let j = if n <= 40 { i + ch.choose(n - i) } else { (i + *ch.pick(&[0, 1, 2, n / 2])).min(n - 1) };
    let swap = ch.flag();
    let t = *ch.pick(&[Ty::U8, Ty::U16, Ty::U64]);
    // so that both tables can have the same alignment
    let between = *ch.pick(&[None, Some(""), Some("abcd")]);
    let mut p = P::new();
    let mut rs = vec![];
    for k in 0..2 {
        if let (1, Some(b)) = (k, between) {
            p.str(b);
        }
        p.start();
        for s in 0..n {
            // exchanged places, or one of two slots left out
            let mut slot = s;
            if k == 1 && swap {
                slot = if s == i { j } else if s == j { i } else { s };
            }
            if !swap && s == (if k == 0 { i } else { j }) {
                continue;
            }
            p.slot(slot as u16, t, gens::val(t, s + k));
        }
        p.slot(n as u16, t, gens::val(t, 3));
        rs.push(p.end());
    }
    p.start();
    p.slot_ref(n as u16 + 20, rs[0]);
    p.slot_ref(n as u16 + 21, rs[1]);
    if between.is_some() {
        p.slot_ref(n as u16 + 22, 1);
    }
    let r = p.end();
    p.finish_min(r);
    run_c06(ch, &p, &[])
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Copy, PartialEq, Debug)]
enum Nest {
    No,
    Table,
    Vec,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    StartTable,
    StartVec,
    StartVec0,
    Str,
    Bytes,
    VecDirect,
    VecStrs,
    VecCreate,
    Slot(u16),
    SlotElided(u16),
    SlotAlways(u16),
    SlotRef,
    Push,
    EndTable,
    EndVec,
    Finish,
    FinishSized,
    FinishMin,
    FinishedData,
    Reset,
}
const ALPHABET: [A; 23] = [
    A::StartTable,
    A::StartVec,
    A::StartVec0,
    A::Str,
    A::Bytes,
    A::VecDirect,
    A::VecStrs,
    A::VecCreate,
    A::Slot(0),
    A::Slot(1),
    A::SlotElided(0),
    A::SlotElided(1),
    A::SlotAlways(0),
    A::SlotAlways(1),
    A::SlotRef,
    A::Push,
    A::EndTable,
    A::EndVec,
    A::Finish,
    A::FinishSized,
    A::FinishMin,
    A::FinishedData,
    A::Reset,
];

struct Proto<'a> {
    m: M<'a>,
    nest: Nest,
    finished: bool,
    fields: BTreeSet<u16>,
    dup: bool,
    pushed: usize,
    cur_vec: usize,
    log: Vec<Call>,
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Ex {
    Ok,
    Panic,
    /// the rules do not say (not explored further)
    Unspecified,
}

impl<'a> Proto<'a> {
    fn expect(&self, a: A) -> Ex {
        let nested = self.nest != Nest::No;
        match a {
            A::StartTable | A::StartVec | A::StartVec0 | A::Str | A::Bytes | A::VecDirect | A::VecStrs => {
                if nested {
                    Ex::Panic
                } else {
                    Ex::Ok
                }
            }
            A::VecCreate | A::Push if self.nest == Nest::Table => Ex::Unspecified,
            A::VecCreate => {
                if nested {
                    Ex::Unspecified
                } else {
                    Ex::Ok
                }
            }
            A::Push => match self.nest {
                Nest::Vec if self.pushed < self.cur_vec => Ex::Ok,
                _ => Ex::Unspecified,
            },
            A::Slot(_) | A::SlotElided(_) | A::SlotAlways(_) => match self.nest {
                Nest::No => Ex::Panic,
                Nest::Table => Ex::Ok,
                Nest::Vec => Ex::Unspecified,
            },
            A::SlotRef => match self.nest {
                Nest::No => Ex::Panic,
                Nest::Table if !self.m.regs.is_empty() => Ex::Ok,
                _ => Ex::Unspecified,
            },
            A::EndTable => match self.nest {
                Nest::No => Ex::Panic,
                Nest::Table if self.dup => Ex::Panic,
                Nest::Table => Ex::Ok,
                Nest::Vec => Ex::Unspecified,
            },
            A::EndVec => match self.nest {
                Nest::No => Ex::Panic,
                Nest::Vec => {
                    if self.pushed == self.cur_vec {
                        Ex::Ok
                    } else {
                        Ex::Unspecified
                    }
                }
                Nest::Table => Ex::Unspecified,
            },
            A::Finish | A::FinishSized | A::FinishMin => {
                if nested || self.finished {
                    Ex::Panic
                } else if self.m.regs.is_empty() {
                    Ex::Unspecified
                } else {
                    Ex::Ok
                }
            }
            A::FinishedData => {
                if self.finished {
                    Ex::Ok
                } else {
                    Ex::Panic
                }
            }
            A::Reset => Ex::Ok,
        }
    }
    fn call(&self, a: A) -> Option<Call> {
        Some(match a {
            A::StartTable => Call::StartTable,
            A::StartVec => Call::StartVec(El::Sc(Ty::U16), 2),
            A::StartVec0 => Call::StartVec(El::Sc(Ty::U16), 0),
            A::Str => Call::Str("s".into()),
            A::Bytes => Call::Bytes(vec![1, 2]),
            A::VecDirect => Call::VecDirect(Ty::U32, vec![5]),
            A::VecStrs => Call::VecStrs(vec!["a".into()]),
            A::VecCreate => Call::VecCreate(Ty::U16, vec![9]),
            A::Slot(s) => Call::Slot(s, Ty::U16, 7, Some(0)),
            A::SlotElided(s) => Call::Slot(s, Ty::U16, 3, Some(3)),
            A::SlotAlways(s) => Call::Slot(s, Ty::U8, 0, None),
            A::SlotRef => Call::SlotRef(2, self.m.regs.len().saturating_sub(1)),
            A::Push => Call::PushSc(Ty::U16, 4),
            A::EndTable => Call::EndTable,
            A::EndVec => Call::EndVec(El::Sc(Ty::U16), self.cur_vec),
            A::Finish => Call::Finish(self.m.regs.len().saturating_sub(1), Some("ABCD"), false),
            A::FinishSized => Call::Finish(self.m.regs.len().saturating_sub(1), None, true),
            A::FinishMin => Call::FinishMin(self.m.regs.len().saturating_sub(1)),
            A::FinishedData => return None,
            A::Reset => Call::Reset,
        })
    }
    fn update(&mut self, a: A) {
        match a {
            A::StartTable => {
                self.nest = Nest::Table;
                self.fields.clear();
                self.dup = false;
            }
            A::StartVec | A::StartVec0 => {
                self.nest = Nest::Vec;
                self.pushed = 0;
                self.cur_vec = if a == A::StartVec { 2 } else { 0 };
            }
            A::Push => self.pushed += 1,
            A::Slot(s) | A::SlotAlways(s) => {
                if !self.fields.insert(s) {
                    self.dup = true;
                }
            }
            A::SlotRef => {
                if !self.fields.insert(2) {
                    self.dup = true;
                }
            }
            A::EndTable | A::EndVec => self.nest = Nest::No,
            A::Finish | A::FinishSized | A::FinishMin => self.finished = true,
            A::Reset => {
                self.nest = Nest::No;
                self.finished = false;
                self.fields.clear();
                self.dup = false;
            }
            _ => {}
        }
    }
}

fn canary() -> P {
    let mut z = zoo();
    z.swap_remove(4)
}

fn after_reset(m: &mut M, what: &str) -> Result<(), String> {
    let p = canary();
    let base = build(&p.c, 0)?;
    let got = guard(|| {
        m.run(&Call::Reset);
        if !m.b.unfinished_data().is_empty() || m.b.num_written_vtables() != 0 {
            return Err("a reset builder still holds data".to_string());
        }
        m.run_all(&p.c);
        Ok(m.b.finished_data().to_vec())
    })
    .map_err(|e| format!("after {} and a reset, a correct program panicked: {}", what, e))??;
    check_same(&format!("after {} and a reset", what), &base, &got)
}

/// all call sequences up to the depth bound against the protocol automaton
pub fn c07_seqs(ch: &mut Ch) -> Result<(), String> {
    let depth = ch.by_tier(6, 7);
    c07(ch, depth, &[])
}

/// from inside a table or vector and from a finished buffer, deeper
pub fn c07_from(ch: &mut Ch) -> Result<(), String> {
    let pre: [&[A]; 9] = [
        &[A::Str, A::StartTable, A::Slot(0)],
        &[A::StartTable, A::EndTable, A::Finish],
        &[A::StartVec, A::Push, A::Push],
        &[A::Str, A::StartTable, A::Slot(1), A::EndTable, A::FinishSized, A::Reset],
        &[A::StartTable, A::SlotAlways(1), A::Reset],
        &[A::StartTable, A::SlotAlways(1), A::EndTable, A::StartTable],
        &[A::StartVec, A::Push, A::Push, A::EndVec, A::FinishMin],
        &[A::StartVec0],
        &[A::StartVec0, A::EndVec, A::FinishMin],
    ];
    let p = *ch.pick(&pre);
    let depth = ch.by_tier(5, 6);
    c07(ch, depth, p)
}

fn c07(ch: &mut Ch, depth: usize, pre: &[A]) -> Result<(), String> {
    let mut st = Proto { m: M::new(0), nest: Nest::No, finished: false, fields: BTreeSet::new(), dup: false, pushed: 0, cur_vec: 0, log: vec![] };
    let mut steps: Vec<A> = vec![];
    for i in 0..pre.len() + depth {
        let a = if i < pre.len() { pre[i] } else { *ch.pick(&ALPHABET) };
        let ex = st.expect(a);
        if ex == Ex::Unspecified {
            return Ok(());
        }
        steps.push(a);
        let c = st.call(a);
        let regs = st.m.regs.clone();
        let r = guard(|| match &c {
            Some(c) => {
                // out-of-protocol calls must not depend on earlier results
                let mut cc = c.clone();
                match &mut cc {
                    Call::Finish(r, _, _) | Call::FinishMin(r) | Call::SlotRef(_, r) if regs.is_empty() => {
                        st.m.regs.push(4);
                        *r = 0;
                    }
                    _ => {}
                }
                st.m.run(&cc);
            }
            None => {
                let _ = st.m.b.finished_data();
            }
        });
        ch.step(1);
        ch.eval(1);
        match (ex, r) {
            (Ex::Ok, Ok(())) => {}
            (Ex::Panic, Err(_)) => {
                ch.state(format!("{:?}{:?}{}{:?}!", st.nest, st.fields, st.finished, a));
                // rejected; a reset still brings the builder back
                st.m.regs.clear();
                return after_reset(&mut st.m, &format!("{:?} (rejected)", steps));
            }
            (Ex::Ok, Err(e)) => return Err(format!("correct call sequence {:?} was rejected: {}", steps, e)),
            (Ex::Panic, Ok(())) => return Err(format!("out-of-order call sequence {:?} was accepted", steps)),
            _ => unreachable!(),
        }
        st.update(a);
        if let Some(c) = c {
            if matches!(c, Call::Reset) {
                st.log.clear();
            } else {
                st.log.push(c);
            }
        }
        ch.state(format!("{:?}{:?}{}{}{}", st.nest, st.fields, st.finished, st.dup, st.m.regs.len().min(3)));
        if a == A::Reset && (!st.m.b.unfinished_data().is_empty() || st.m.b.num_written_vtables() != 0) {
            return Err(format!("after {:?} the reset builder still holds data", steps));
        }
    }
    // every accepted history ends in a state from which a reset is complete
    ch.sample(|| format!("{:?} accepted", steps));
    after_reset(&mut st.m, &format!("{:?}", steps))
}

/// after every accepted call sequence up to the depth bound, every kind of
/// call with other arguments: empty, long, every scalar type, any slot
pub fn c07_args(ch: &mut Ch) -> Result<(), String> {
    let depth = ch.choose(ch.by_tier(4, 5));
    let mut st = Proto { m: M::new(0), nest: Nest::No, finished: false, fields: BTreeSet::new(), dup: false, pushed: 0, cur_vec: 0, log: vec![] };
    let mut steps: Vec<String> = vec![];
    for _ in 0..depth {
        let a = *ch.pick(&ALPHABET);
        if a == A::FinishedData || st.expect(a) != Ex::Ok {
            return Ok(());
        }
        let c = st.call(a).unwrap();
        steps.push(format!("{:?}", a));
        guard(|| st.m.run(&c)).map_err(|e| format!("correct call sequence {:?} was rejected: {}", steps, e))?;
        st.update(a);
    }
    let last = st.m.regs.len().saturating_sub(1);
    let kinds = [A::StartVec, A::Str, A::Bytes, A::VecDirect, A::VecStrs, A::Slot(0), A::SlotAlways(0), A::SlotRef, A::EndVec, A::Finish];
    let a = *ch.pick(&kinds);
    let ex = st.expect(a);
    if ex == Ex::Unspecified {
        return Ok(());
    }
    let ns = [0usize, 1, 3, 40, 300];
    let c = match a {
        A::StartVec => Call::StartVec(*ch.pick(&[El::Sc(Ty::U8), El::Sc(Ty::F64), El::Sc(Ty::Bool), El::Ref]), ns[ch.choose(3)]),
        A::Str => Call::Str("e".repeat(*ch.pick(&ns))),
        A::Bytes => Call::Bytes(vec![7; *ch.pick(&ns)]),
        A::VecDirect => Call::VecDirect(*ch.pick(&[Ty::U8, Ty::I16, Ty::F32, Ty::U64]), vec![3; *ch.pick(&ns)]),
        A::VecStrs => Call::VecStrs(vec!["".into(); *ch.pick(&ns)]),
        A::Slot(_) => Call::Slot(*ch.pick(&[0, 1, 9, 600]), *ch.pick(&fbspec::TYS), ch.choose(2) as u64, Some(ch.choose(2) as u64)),
        A::SlotAlways(_) => Call::Slot(*ch.pick(&[0, 1, 9, 600]), *ch.pick(&fbspec::TYS), ch.choose(2) as u64, None),
        A::SlotRef => Call::SlotRef(*ch.pick(&[0, 1, 9, 600]), ch.choose(st.m.regs.len().max(1))),
        A::EndVec if ex == Ex::Ok => Call::EndVec(El::Sc(Ty::U16), st.cur_vec),
        A::EndVec => Call::EndVec(*ch.pick(&[El::Sc(Ty::U8), El::Sc(Ty::F64), El::Ref]), ns[ch.choose(3)]),
        _ => match ch.choose(5) {
            0 => Call::FinishMin(last),
            k => Call::Finish(last, if k & 1 == 0 { None } else { Some("wxyz") }, k > 2),
        },
    };
    steps.push(format!("{:?}", c));
    if st.m.regs.is_empty() {
        // an out-of-order call is refused whatever it is given
        st.m.regs.push(4);
    }
    let r = guard(|| st.m.run(&c));
    ch.step(1 + depth as u64);
    ch.eval(1);
    ch.state(format!("{:?}{}{:?}", st.nest, st.finished, c));
    match (ex, r) {
        (Ex::Ok, Err(e)) => Err(format!("correct call sequence {:?} was rejected: {}", steps, e)),
        (Ex::Panic, Ok(())) => Err(format!("out-of-order call sequence {:?} was accepted", steps)),
        _ => after_reset(&mut st.m, &format!("{:?}", steps)),
    }
}

/// the same field set twice among many fields, any positions, any kinds
pub fn c07_dup(ch: &mut Ch) -> Result<(), String> {
    let n = ch.range(2, ch.by_tier(9, 14)) as u16;
    let i = ch.choose(n as usize) as u16;
    let pos = ch.choose(n as usize + 1);
    let kind = ch.choose(4);
    let elide = ch.flag();
    let mut m = M::new(0);
    m.run(&Call::Str("x".into()));
    m.run(&Call::StartTable);
    let second = |m: &mut M| match (kind, elide) {
        (0, false) => m.run(&Call::Slot(i, Ty::U8, 1, None)),
        (1, false) => m.run(&Call::Slot(i, Ty::U64, 1, Some(2))),
        (2, false) => m.run(&Call::SlotRef(i, 0)),
        (_, false) => m.run(&Call::Slot(i, Ty::U16, 0, None)),
        // equal to the default: not set a second time
        (0, true) => m.run(&Call::Slot(i, Ty::U8, 1, Some(1))),
        (1, true) => m.run(&Call::Slot(i, Ty::U64, 9, Some(9))),
        (2, true) => m.run(&Call::Slot(i, Ty::Bool, 0, Some(0))),
        (_, true) => m.run(&Call::Slot(i, Ty::F32, 0, Some(0))),
    };
    let r = guard(|| {
        for s in 0..n {
            if s as usize == pos {
                second(&mut m);
            }
            m.run(&Call::Slot(s, Ty::U16, 0x100 + s as u64, Some(0)));
        }
        if pos == n as usize {
            second(&mut m);
        }
        m.run(&Call::EndTable);
    });
    ch.step(n as u64 + 3);
    ch.eval(1);
    ch.state([n as u8, i as u8, pos as u8, kind as u8, elide as u8]);
    match (elide, r) {
        (false, Ok(())) => Err(format!("field {} of {} set twice (second at position {}, kind {}) was accepted", i, n, pos, kind)),
        (true, Err(e)) => Err(format!("a default-valued second write of field {} was rejected: {}", i, e)),
        _ => after_reset(&mut m, "a table with a duplicated field"),
    }
}

// ---------------------------------------------------------------- C09

pub fn c09_ident(ch: &mut Ch) -> Result<(), String> {
    let p = gens::finishes(ch);
    ch.note(|| fmt_prog(&p.c));
    let model = Model::of(&p.c);
    let bytes = build(&p.c, 0)?;
    let rootn = model.root.as_ref().unwrap();
    verify(&bytes, rootn, &VOpts { ident: model.ident, sized: model.sized, exact: true })?;
    let data = read::Placed::new(&bytes, 0);
    let data = data.get();
    guard(|| read::read_all(data, rootn, model.sized)).map_err(|e| format!("panic reading: {}", e))??;
    let pos = if model.sized { 8 } else { 4 };
    let mut cands: Vec<String> = gens::IDENTS.iter().map(|s| s.to_string()).collect();
    if let Some(id) = model.ident {
        // every single-byte deviation that is still text
        let b = id.as_bytes();
        for i in 0..4 {
            for x in [1u8, 0x20, 0x40] {
                let mut c = b.to_vec();
                c[i] ^= x;
                if let Ok(s) = String::from_utf8(c) {
                    cands.push(s);
                }
            }
        }
        let mut c = b.to_vec();
        c.reverse();
        if let Ok(s) = String::from_utf8(c) {
            cands.push(s);
        }
    }
    for c in &cands {
        let want = bytes.get(pos..pos + 4).map(|x| x == c.as_bytes());
        let got = guard(|| butte::buffer_has_identifier(data, c, model.sized)).map_err(|e| format!("identifier test panicked: {}", e))?;
        let ok = match (want, got) {
            (Some(w), Ok(g)) => w == g,
            (None, Err(_)) => true,
            _ => false,
        };
        if !ok {
            return Err(format!("identifier test for {:?} answers {:?}, bytes say {:?}", c, got, want));
        }
        if let Some(id) = model.ident {
            if got != Ok(c == id) {
                return Err(format!("finished with {:?} but the test for {:?} answers {:?}", id, c, got));
            }
        }
        ch.eval(1);
    }
    // truncated buffers have no identifier
    for n in 0..pos + 4 {
        let r = guard(|| butte::buffer_has_identifier(&data[..n.min(data.len())], "ABCD", model.sized)).map_err(|e| format!("identifier test panicked: {}", e))?;
        if n <= data.len() && n < pos + 4 && r != Err(butte::Error::OutOfBounds) {
            return Err(format!("identifier test on {} bytes answers {:?}", n, r));
        }
    }
    ch.step(p.c.len() as u64);
    ch.state(&bytes);
    ch.sample(|| format!("ident {:?} sized {} -> {} bytes, {} identifier queries", model.ident, model.sized, bytes.len(), cands.len()));
    Ok(())
}

pub fn c09_graphs(ch: &mut Ch) -> Result<(), String> {
    let mut p = gens::graphs(ch);
    let r = match p.c.pop() {
        Some(Call::FinishMin(r)) => r,
        _ => unreachable!(),
    };
    let id = *ch.pick(&[None, Some("WXYZ")]);
    let sized = ch.flag();
    p.finish(r, id, sized);
    let model = Model::of(&p.c);
    let bytes = build(&p.c, 0)?;
    let rootn = model.root.as_ref().unwrap();
    verify(&bytes, rootn, &VOpts { ident: id, sized, exact: true })?;
    let pl = read::Placed::new(&bytes, 0);
    let n = guard(|| read::read_all(pl.get(), rootn, sized)).map_err(|e| format!("panic reading: {}", e))??;
    if id.is_some() && butte::buffer_has_identifier(pl.get(), "WXYZ", sized) != Ok(true) {
        return Err("identifier not recognised".into());
    }
    // get_root / get_size_prefixed_root as free functions
    let t = if sized { butte::get_size_prefixed_root::<butte::Table<&[u8]>, _>(pl.get()) } else { butte::get_root::<butte::Table<&[u8]>, _>(pl.get()) };
    let t2 = read::root(pl.get(), sized);
    match (t, t2) {
        (Ok(a), Ok(b)) if a.loc == b.loc => {}
        (a, b) => return Err(format!("root functions disagree: {:?} {:?}", a.map(|t| t.loc), b.map(|t| t.loc))),
    }
    ch.eval(n + 2);
    ch.step(p.c.len() as u64);
    ch.state(&bytes);
    Ok(())
}

/// the identifier test, whatever bytes the buffer holds there
pub fn c09_bytes(ch: &mut Ch) -> Result<(), String> {
    let sized = ch.flag();
    let pos = if sized { 8 } else { 4 };
    let base = *ch.pick(&[*b"ABCD", *b"aaaa", [0; 4], [0xff; 4], [0xc3, 0xa9, b'1', b'2'], [b'1', b'2', 0xc3, 0xa9]]);
    let i = ch.choose(4);
    let x = ch.choose(256) as u8;
    // a second byte changed along with it, or not
    let j = ch.choose(4);
    let y = *ch.pick(&[0u8, 0x80, 0x20, 0xff]);
    let mut id = base;
    id[i] = x;
    id[j] ^= y;
    // the bytes around must not matter
    let around = *ch.pick(&[0u8, 0x41, 0xff]);
    let mut buf = vec![around; pos];
    buf.extend_from_slice(&id);
    buf.extend_from_slice(&[around; 5]);
    for c in ["ABCD", "aaaa", "\0\0\0\0", "é12", "12é", "éé", "\u{10ffff}", "A\u{7f}\0D", "DCBA", "ABAB"] {
        let want = c.as_bytes() == id;
        let got = guard(|| butte::buffer_has_identifier(&buf[..], c, sized)).map_err(|e| format!("identifier test panicked: {}", e))?;
        if got != Ok(want) {
            return Err(format!("the bytes {:x?} tested for {:?} (size prefix: {}): {:?}", id, c, sized, got));
        }
        ch.eval(1);
    }
    ch.step(10);
    ch.state(&buf);
    ch.sample(|| format!("{:x?} sized {}", id, sized));
    Ok(())
}

/// size prefixes and identifiers of big buffers
pub fn c09_big(ch: &mut Ch) -> Result<(), String> {
    let n = if ch.flag() {
        *ch.pick(&[0usize, 200, 250, 256, 1000, 4000, 16_000, 32_700, 65_400, 65_470, 65_500, 65_530, 65_536, 65_600, 131_000, 131_072, 300_000, 16_777_000, 16_777_216])
    } else {
        65_440 + ch.choose(100)
    };
    let id = *ch.pick(&[None, Some("BIGG")]);
    let sized = ch.flag();
    let t = *ch.pick(&[Ty::U8, Ty::U64]);
    let mut p = P::new();
    let b = p.bytes(&(0..n).map(|i| (i % 253) as u8).collect::<Vec<_>>());
    p.start();
    p.slot_ref(0, b);
    p.slot(1, t, 5);
    let r = p.end();
    p.finish(r, id, sized);
    let model = Model::of(&p.c);
    let bytes = build(&p.c, 0)?;
    let rootn = model.root.as_ref().unwrap();
    verify(&bytes, rootn, &VOpts { ident: id, sized, exact: true }).map_err(|e| format!("byte string of {}, identifier {:?}, size prefix {}: {}", n, id, sized, e))?;
    let pl = read::Placed::new(&bytes, 0);
    let k = guard(|| read::read_all(pl.get(), rootn, sized)).map_err(|e| format!("panic reading: {}", e))??;
    if id.is_some() && butte::buffer_has_identifier(pl.get(), "BIGG", sized) != Ok(true) {
        return Err("identifier not recognised".into());
    }
    ch.eval(k + 1);
    ch.step(p.c.len() as u64);
    ch.state(format!("{} {:?} {} {}", n, id, sized, bytes.len()));
    ch.sample(|| format!("{} bytes, ident {:?}, sized {}", bytes.len(), id, sized));
    Ok(())
}
