//! Encode a value in any conforming layout; every freedom of the format is a choice.

use crate::*;
use std::collections::HashMap;

pub struct EncOpts {
    pub ident: Option<[u8; 4]>,
    pub sized: bool,
    /// choose the order of ready objects
    pub order: bool,
    /// choose where vtables go: just before, just after, all at the end, all at the front
    pub vt_place: bool,
    /// choose between shared and private vtables
    pub share: bool,
    /// choose extra vtable slots (0, 1, 3)
    pub vt_extra: bool,
    /// choose extra padding before objects (once for the whole buffer: 0, 8)
    pub pad: bool,
    /// choose the order of fields inside a table (forward, reverse, rotated)
    pub field_order: bool,
    /// choose trailing slack in the table's inline size
    pub slack: bool,
}

impl EncOpts {
    pub fn plain() -> Self {
        EncOpts { ident: None, sized: false, order: false, vt_place: false, share: false, vt_extra: false, pad: false, field_order: false, slack: false }
    }
    pub fn all() -> Self {
        EncOpts { ident: None, sized: false, order: true, vt_place: true, share: true, vt_extra: true, pad: true, field_order: true, slack: true }
    }
}

struct Lay {
    /// offset of each field inside the table, inline size, alignment
    offs: BTreeMap<u16, usize>,
    size: usize,
    align: usize,
    vt: Vec<u8>,
}

fn put(buf: &mut [u8], loc: usize, n: usize, v: u64) {
    for i in 0..n {
        buf[loc + i] = (v >> (8 * i)) as u8;
    }
}

pub fn encode(root: &N, o: &EncOpts, ch: &mut dyn FnMut(usize) -> usize) -> Vec<u8> {
    let vt_place = if o.vt_place { ch(4) } else { 0 };
    let share = if o.share { ch(2) == 1 } else { true };
    let extra = if o.vt_extra { [0, 1, 3][ch(3)] } else { 0 };
    let pad = if o.pad { [0, 8][ch(2)] } else { 0 };
    let forder = if o.field_order { ch(3) } else { 0 };
    let slack = if o.slack { [0, 4][ch(2)] } else { 0 };

    // objects and number of parents
    let mut objs: Vec<N> = vec![];
    let mut idx: HashMap<*const Node, usize> = HashMap::new();
    let mut parents: Vec<usize> = vec![];
    fn kids(n: &N) -> Vec<N> {
        match &**n {
            Node::VecRef(v) => v.clone(),
            Node::Table(t) => t.values().filter(|x| !matches!(***x, Node::Sc(..))).cloned().collect(),
            _ => vec![],
        }
    }
    fn collect(n: &N, objs: &mut Vec<N>, idx: &mut HashMap<*const Node, usize>, parents: &mut Vec<usize>) -> usize {
        if let Some(i) = idx.get(&Rc::as_ptr(n)) {
            return *i;
        }
        let i = objs.len();
        idx.insert(Rc::as_ptr(n), i);
        objs.push(n.clone());
        parents.push(0);
        for k in kids(n) {
            let j = collect(&k, objs, idx, parents);
            parents[j] += 1;
        }
        i
    }
    collect(root, &mut objs, &mut idx, &mut parents);

    // order: parents before children
    let mut ready = vec![0usize];
    let mut order = vec![];
    while !ready.is_empty() {
        let c = if o.order && ready.len() > 1 { ch(ready.len()) } else { 0 };
        let i = ready.remove(c);
        order.push(i);
        for k in kids(&objs[i]) {
            let j = idx[&Rc::as_ptr(&k)];
            parents[j] -= 1;
            if parents[j] == 0 {
                ready.push(j);
            }
        }
    }

    // table layouts
    let mut lays: HashMap<usize, Lay> = HashMap::new();
    for &i in &order {
        if let Node::Table(fs) = &*objs[i] {
            let mut keys: Vec<u16> = fs.keys().cloned().collect();
            match forder {
                1 => keys.reverse(),
                2 if !keys.is_empty() => {
                    let m = keys.len() / 2;
                    keys.rotate_left(m)
                }
                _ => {}
            }
            let mut off = 4;
            let mut align = 4;
            let mut offs = BTreeMap::new();
            for k in keys {
                let sz = match &*fs[&k] {
                    Node::Sc(t, _) => t.size(),
                    _ => 4,
                };
                while off % sz != 0 {
                    off += 1;
                }
                offs.insert(k, off);
                align = align.max(sz);
                off += sz;
            }
            let size = off + slack;
            let n = fs.keys().max().map(|x| *x as usize + 1).unwrap_or(0) + extra;
            let mut vt = vec![0u8; 4 + 2 * n];
            put(&mut vt, 0, 2, (4 + 2 * n) as u64);
            put(&mut vt, 2, 2, size as u64);
            for (k, v) in &offs {
                put(&mut vt, 4 + 2 * *k as usize, 2, *v as u64);
            }
            lays.insert(i, Lay { offs, size, align, vt });
        }
    }

    let mut buf: Vec<u8> = vec![];
    if o.sized {
        buf.extend([0; 4]);
    }
    let rootpos = buf.len();
    buf.extend([0; 4]);
    if let Some(i) = o.ident {
        buf.extend(i);
    }
    let mut vts: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut vtloc: HashMap<usize, usize> = HashMap::new();
    fn place_vt(buf: &mut Vec<u8>, i: usize, lays: &HashMap<usize, Lay>, vts: &mut HashMap<Vec<u8>, usize>, vtloc: &mut HashMap<usize, usize>, share: bool) {
        if let Some(l) = lays.get(&i) {
            if share {
                if let Some(p) = vts.get(&l.vt) {
                    vtloc.insert(i, *p);
                    return;
                }
            }
            while buf.len() % 2 != 0 {
                buf.push(0);
            }
            let p = buf.len();
            buf.extend(&l.vt);
            vts.insert(l.vt.clone(), p);
            vtloc.insert(i, p);
        }
    }
    if vt_place == 3 {
        for &i in &order {
            place_vt(&mut buf, i, &lays, &mut vts, &mut vtloc, share);
        }
    }
    let mut loc: HashMap<usize, usize> = HashMap::new();
    for &i in &order {
        if vt_place == 0 {
            place_vt(&mut buf, i, &lays, &mut vts, &mut vtloc, share);
        }
        buf.extend(vec![0; pad]);
        let (align, pre) = match &*objs[i] {
            Node::Table(_) => (lays[&i].align, 0),
            // the data after the length must be aligned
            Node::VecSc(t, _) => (t.size().max(4), 4),
            _ => (4, 4),
        };
        while (buf.len() + pre) % align != 0 || buf.len() % 4 != 0 {
            buf.push(0);
        }
        let p = buf.len();
        loc.insert(i, p);
        match &*objs[i] {
            Node::Table(_) => {
                buf.extend(vec![0; lays[&i].size]);
            }
            Node::Str(s) => {
                buf.extend((s.len() as u32).to_le_bytes());
                buf.extend(s.as_bytes());
                buf.push(0);
            }
            Node::Bytes(s) => {
                buf.extend((s.len() as u32).to_le_bytes());
                buf.extend(s);
                buf.push(0);
            }
            Node::VecSc(t, xs) => {
                buf.extend((xs.len() as u32).to_le_bytes());
                for x in xs {
                    buf.extend(&x.to_le_bytes()[..t.size()]);
                }
            }
            Node::VecRef(xs) => {
                buf.extend((xs.len() as u32).to_le_bytes());
                buf.extend(vec![0; 4 * xs.len()]);
            }
            Node::Sc(..) => unreachable!(),
        }
        if vt_place == 1 {
            place_vt(&mut buf, i, &lays, &mut vts, &mut vtloc, share);
        }
    }
    if vt_place == 2 {
        for &i in &order {
            place_vt(&mut buf, i, &lays, &mut vts, &mut vtloc, share);
        }
    }
    // fill references
    for &i in &order {
        let p = loc[&i];
        match &*objs[i] {
            Node::Table(fs) => {
                let d = p as i64 - vtloc[&i] as i64;
                put(&mut buf, p, 4, d as i32 as u32 as u64);
                for (k, f) in fs {
                    let q = p + lays[&i].offs[k];
                    match &**f {
                        Node::Sc(t, v) => put(&mut buf, q, t.size(), *v),
                        _ => {
                            let t = loc[&idx[&Rc::as_ptr(f)]];
                            put(&mut buf, q, 4, (t - q) as u64)
                        }
                    }
                }
            }
            Node::VecRef(xs) => {
                for (k, f) in xs.iter().enumerate() {
                    let q = p + 4 + 4 * k;
                    let t = loc[&idx[&Rc::as_ptr(f)]];
                    put(&mut buf, q, 4, (t - q) as u64)
                }
            }
            _ => {}
        }
    }
    let r = loc[&0];
    put(&mut buf, rootpos, 4, (r - rootpos) as u64);
    if o.sized {
        let n = buf.len() - 4;
        put(&mut buf, 0, 4, n as u64);
    }
    buf
}
