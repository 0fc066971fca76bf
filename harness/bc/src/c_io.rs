//! C24: faults of input, output and formatter.

use crate::comp::Sink;
use mc::Ch;
use std::cell::RefCell;
use std::io;
use std::os::unix::fs::PermissionsExt;
use std::rc::Rc;

const TEXT: &str = "// \u{e9}\u{e9}\u{1F600}\nnamespace n ;\n/// d\u{f6}c\ntable T { x : int = 5 ; s : string ; }\n";

fn err(k: io::ErrorKind) -> io::Error {
    io::Error::new(k, "injected")
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    All,
    N(usize),
    Intr,
    Zero,
    Fail(io::ErrorKind),
}

struct R {
    data: Vec<u8>,
    pos: usize,
    /// (call, event)
    plan: Vec<(usize, Ev)>,
    base: usize,
    calls: usize,
    failed: Rc<RefCell<Option<usize>>>,
    eof: Rc<RefCell<bool>>,
}
impl io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        let ev = self.plan.iter().find(|p| p.0 == c).map(|p| p.1).unwrap_or(if self.base == 0 { Ev::All } else { Ev::N(self.base) });
        let left = self.data.len() - self.pos;
        let n = match ev {
            Ev::All | Ev::Zero => left,
            Ev::N(n) => n.min(left),
            Ev::Intr => return Err(err(io::ErrorKind::Interrupted)),
            Ev::Fail(k) => {
                *self.failed.borrow_mut() = Some(c);
                return Err(err(k));
            }
        };
        let n = n.min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 && !b.is_empty() {
            *self.eof.borrow_mut() = true;
        }
        Ok(n)
    }
}

#[derive(Default)]
struct WState {
    pending: Vec<u8>,
    committed: Vec<u8>,
    failed: bool,
    writes: usize,
    flushes: usize,
}
/// A buffering writer: what was written counts only once it is flushed.
struct W {
    st: Rc<RefCell<WState>>,
    plan: Vec<(usize, Ev)>,
    base: usize,
    flush_fail: Option<io::ErrorKind>,
    buffered: bool,
}
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        let c = st.writes;
        st.writes += 1;
        let ev = self.plan.iter().find(|p| p.0 == c).map(|p| p.1).unwrap_or(if self.base == 0 { Ev::All } else { Ev::N(self.base) });
        let n = match ev {
            Ev::All => b.len(),
            Ev::N(n) => n.min(b.len()),
            Ev::Zero => {
                if !b.is_empty() {
                    st.failed = true;
                }
                0
            }
            Ev::Intr => return Err(err(io::ErrorKind::Interrupted)),
            Ev::Fail(k) => {
                st.failed = true;
                return Err(err(k));
            }
        };
        st.pending.extend_from_slice(&b[..n]);
        if !self.buffered {
            let p = std::mem::take(&mut st.pending);
            st.committed.extend(p);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut st = self.st.borrow_mut();
        st.flushes += 1;
        if let Some(k) = self.flush_fail {
            st.failed = true;
            return Err(err(k));
        }
        let p = std::mem::take(&mut st.pending);
        st.committed.extend(p);
        Ok(())
    }
}

fn baseline(text: &str) -> Vec<u8> {
    let sink = Sink::default();
    butte_build::compile_fbs_generic(true, None, Box::new(io::Cursor::new(text.as_bytes().to_vec())), Box::new(sink.clone())).unwrap();
    let v = sink.0.borrow().clone();
    v
}

struct Case {
    text: Vec<u8>,
    rplan: Vec<(usize, Ev)>,
    rbase: usize,
    wplan: Vec<(usize, Ev)>,
    wbase: usize,
    flush_fail: Option<io::ErrorKind>,
    buffered: bool,
}

fn run(ch: &mut Ch, c: Case, want: &[u8]) -> Result<(), String> {
    let failed = Rc::new(RefCell::new(None));
    let eof = Rc::new(RefCell::new(false));
    let st = Rc::new(RefCell::new(WState::default()));
    let len = c.text.len();
    let desc = format!("reads {:?} (base {}), writes {:?} (base {}), flush {:?}, buffered {}", c.rplan, c.rbase, c.wplan, c.wbase, c.flush_fail, c.buffered);
    ch.note(|| desc.clone());
    let r = R { data: c.text, pos: 0, plan: c.rplan, base: c.rbase, calls: 0, failed: failed.clone(), eof: eof.clone() };
    let w = W { st: st.clone(), plan: c.wplan, base: c.wbase, flush_fail: c.flush_fail, buffered: c.buffered };
    let res = mc::guard(move || butte_build::compile_fbs_generic(true, None, Box::new(r), Box::new(w)).map_err(|e| e.to_string()))
        .map_err(|p| format!("the compiler panicked ({}) with {}", p, desc))?;
    ch.step(1);
    ch.eval(1);
    let st = st.borrow();
    let rfail = failed.borrow().is_some();
    let _ = (len, eof);
    ch.state(format!("{:?} {} {} {}", res, rfail, st.failed, st.committed.len()));
    match res {
        Ok(()) => {
            if rfail {
                return Err(format!("success although reading failed: {}", desc));
            }
            if st.failed {
                return Err(format!("success although writing failed: {}", desc));
            }
            if st.committed != want {
                return Err(format!("success, but {} of {} bytes of the code reached the output: {}", st.committed.len(), want.len(), desc));
            }
        }
        Err(e) => {
            if !rfail && !st.failed {
                return Err(format!("failure ({}) although every fault could be recovered from: {}", e, desc));
            }
            if !want.starts_with(&st.committed) {
                return Err(format!("something else than the code was written: {}", desc));
            }
        }
    }
    Ok(())
}

const RE: [Ev; 8] = [
    Ev::N(1),
    Ev::N(2),
    Ev::N(3),
    Ev::Intr,
    Ev::Fail(io::ErrorKind::Other),
    Ev::Fail(io::ErrorKind::WouldBlock),
    Ev::Fail(io::ErrorKind::UnexpectedEof),
    Ev::Fail(io::ErrorKind::InvalidData),
];
const WE: [Ev; 8] = [
    Ev::N(1),
    Ev::N(7),
    Ev::Intr,
    Ev::Zero,
    Ev::Fail(io::ErrorKind::Other),
    Ev::Fail(io::ErrorKind::WouldBlock),
    Ev::Fail(io::ErrorKind::BrokenPipe),
    Ev::Fail(io::ErrorKind::WriteZero),
];

/// up to three events at any of the reads, over five chunk sizes
pub fn reads(ch: &mut Ch) -> Result<(), String> {
    let base = *ch.pick(&[0usize, 1, 2, 3, 16]);
    let per = if base == 0 { 4 } else { (TEXT.len() / base + 3).min(ch.by_tier(40, 110)) };
    let n = ch.choose(if base == 0 || base == 16 { 4 } else { 3 });
    let mut plan = vec![];
    let mut from = 0;
    for _ in 0..n {
        if from >= per {
            break;
        }
        let at = from + ch.choose(per - from);
        let ev = *ch.pick(&RE);
        plan.push((at, ev));
        from = at + 1;
    }
    let want = baseline(TEXT);
    // an error past the end of the input is never met
    run(ch, Case { text: TEXT.as_bytes().to_vec(), rplan: plan, rbase: base, wplan: vec![], wbase: 0, flush_fail: None, buffered: false }, &want)
}

/// up to three events at any of the writes, and the flush
pub fn writes(ch: &mut Ch) -> Result<(), String> {
    let base = *ch.pick(&[0usize, 1, 100, 1000]);
    let buffered = ch.flag();
    let flush = *ch.pick(&[None, Some(io::ErrorKind::Other), Some(io::ErrorKind::BrokenPipe), Some(io::ErrorKind::WouldBlock)]);
    let want = baseline(TEXT);
    let per = match base {
        0 => 4,
        1 => ch.by_tier(12, 60),
        b => (want.len() / b + 2).min(ch.by_tier(20, 60)),
    };
    let n = ch.choose(ch.by_tier(3, 4));
    let mut plan = vec![];
    let mut from = 0;
    for _ in 0..n {
        if from >= per {
            break;
        }
        let at = from + ch.choose(per - from);
        let ev = *ch.pick(&WE);
        plan.push((at, ev));
        from = at + 1;
    }
    run(ch, Case { text: TEXT.as_bytes().to_vec(), rplan: vec![], rbase: 0, wplan: plan, wbase: base, flush_fail: flush, buffered }, &want)
}

/// reading and writing disturbed together
pub fn both(ch: &mut Ch) -> Result<(), String> {
    let rbase = *ch.pick(&[0usize, 1, 5]);
    let wbase = *ch.pick(&[0usize, 1, 13]);
    let r = (ch.choose(4), *ch.pick(&RE));
    let w = (ch.choose(4), *ch.pick(&WE));
    let buffered = ch.flag();
    let want = baseline(TEXT);
    run(ch, Case { text: TEXT.as_bytes().to_vec(), rplan: vec![r], rbase, wplan: vec![w], wbase, flush_fail: None, buffered }, &want)
}

/// a large input and output in chunks of every size
pub fn chunks(ch: &mut Ch) -> Result<(), String> {
    thread_local!(static BIG: (String, Vec<u8>) = {
        let t: String = (0..40).map(|i| format!("/// d\u{e9}{}\ntable T{} {{ x : int = {} ; t : T{} ; }}\n", i, i, i, (i + 1) % 40)).collect();
        let b = baseline(&t);
        (t, b)
    });
    let rb = ch.choose(ch.by_tier(80, 400));
    let wb = *ch.pick(&[0usize, 1, 4096, 8191, 8192, 65536, 3]);
    let (t, want) = BIG.with(|b| b.clone());
    run(ch, Case { text: t.into_bytes(), rplan: vec![], rbase: rb, wplan: vec![], wbase: wb, flush_fail: None, buffered: true }, &want)
}

/// inputs of every size around powers of two: what lies behind any boundary counts, too
pub fn sizes(ch: &mut Ch) -> Result<(), String> {
    const A: &str = "table A { x : int = 5 ; b : B ; }\n";
    const B: &str = "/// d\u{f6}c\ntable B { s : string ; }\n";
    let e = ch.range(8, ch.by_tier(18, 22));
    let size = (1usize << e) + ch.choose(8) - 4;
    // the padding: blanks, one long comment of wide characters, many lines
    let pad = *ch.pick(&[" ", "\u{e9}", "\u{1F600}", "// x\n"]);
    let rb = *ch.pick(&[0usize, 1000, 4096, 8192, 65536]);
    // what comes last lies behind the boundary, or ends on it
    let behind = ch.flag();
    let room = size.saturating_sub(A.len() + 4 + if behind { 0 } else { B.len() });
    let mut t = String::from(A);
    t.push_str(if pad.len() == 5 || pad == " " { "" } else { "//" });
    let n = room / pad.len();
    t.push_str(&pad.repeat(n));
    t.push_str(&" ".repeat(room - n * pad.len()));
    t.push('\n');
    t.push_str(B);
    thread_local!(static WANT: Vec<u8> = baseline(&format!("{}{}", A, B)));
    let want = WANT.with(|b| b.clone());
    let desc = format!("{} bytes of input padded with {:?}", t.len(), pad);
    run(ch, Case { text: t.into_bytes(), rplan: vec![], rbase: rb, wplan: vec![], wbase: 0, flush_fail: None, buffered: true }, &want).map_err(|e| format!("{} ({})", e, desc))
}

// ---------------------------------------------------------------- formatter

pub fn scratch() -> String {
    let d = format!("{}/target/scratch-{}", std::env::var("VERIF_DIR").unwrap_or("/verif".into()), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

thread_local!(static PATH0: String = std::env::var("PATH").unwrap_or_default());

/// through the real formatter
pub fn compile_pretty(text: &str) -> Result<Result<String, String>, String> {
    PATH0.with(|p| std::env::set_var("PATH", p));
    pretty(text.as_bytes()).map(|r| r.map(|v| String::from_utf8(v).unwrap()))
}
pub fn pretty(text: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    let sink = Sink::default();
    let s2 = sink.clone();
    let input = io::Cursor::new(text.to_vec());
    let r = mc::guard(move || butte_build::compile_fbs_generic(false, None, Box::new(input), Box::new(s2)).map_err(|e| e.to_string()))?;
    Ok(r.map(|_| sink.0.borrow().clone()))
}

/// what an external formatter may do
const FMT: [(&str, &str, bool); 13] = [
    // (name, script, must fail)
    ("copies", "IFS= ; exec cat", false),
    ("exits1-silently", "cat >/dev/null ; exit 1", true),
    ("exits1-after-copy", "cat ; exit 1", true),
    ("exits1-partial", "head -c 100 ; cat >/dev/null ; exit 1", true),
    ("exits101", "cat ; exit 101", true),
    ("killed", "cat ; kill -9 $$", true),
    ("killed-term", "cat >/dev/null ; kill -15 $$", true),
    ("segfault", "head -c 10 ; cat >/dev/null ; kill -11 $$", true),
    ("exits1-at-once", "exit 1", true),
    ("complains", "cat >/dev/null ; echo 'error: x' >&2 ; exit 1", true),
    ("comments", "printf '// formatted\\n' ; cat", false),
    ("slow", "sleep 0.2 ; cat", false),
    ("stderr-but-fine", "echo 'warning' >&2 ; cat", false),
];

/// every behaviour of the formatter x small and large code x output faults
pub fn formatter(ch: &mut Ch) -> Result<(), String> {
    let k = ch.choose(FMT.len() + 3);
    let big = ch.flag();
    let wf = ch.choose(3);
    let dir = scratch();
    let text: String = if big {
        (0..60).map(|i| format!("table T{} {{ x : int = {} ; t : T{} ; }}\n", i, i, (i + 1) % 60)).collect()
    } else {
        "table T { x : int ; }".into()
    };
    let want = baseline(&text);
    let path = format!("{}/rustfmt", dir);
    let _ = std::fs::remove_file(&path);
    let (name, must_fail, expect): (&str, bool, Option<Vec<u8>>) = if k < FMT.len() {
        let (n, s, f) = FMT[k];
        if big && (n == "copies" || n == "slow" || n == "stderr-but-fine" || n == "comments") {
            // a formatter reads everything before it writes
            std::fs::write(&path, format!("#!/bin/sh\n/bin/cat > {}/in ; {}\n", dir, s.replace("cat", &format!("/bin/cat {}/in", dir)))).unwrap();
        } else if big {
            std::fs::write(&path, format!("#!/bin/sh\n/bin/cat > {}/in ; exec < {}/in ; {}\n", dir, dir, s)).unwrap();
            if n == "exits1-at-once" {
                std::fs::write(&path, "#!/bin/sh\nexit 1\n").unwrap();
            }
        } else {
            std::fs::write(&path, format!("#!/bin/sh\n{}\n", s)).unwrap();
        }
        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o755)).unwrap();
        let mut e = want.clone();
        if n == "comments" {
            let mut v = b"// formatted\n".to_vec();
            v.extend(e);
            e = v;
        }
        (n, f, if f { None } else { Some(e) })
    } else if k == FMT.len() {
        ("missing", true, None)
    } else if k == FMT.len() + 1 {
        std::fs::write(&path, "not a program").unwrap();
        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o644)).unwrap();
        ("not-executable", true, None)
    } else {
        std::fs::create_dir_all(&path).unwrap();
        ("is-a-directory", true, None)
    };
    PATH0.with(|_| ());
    // only the stand-in is found
    let tools = format!("{}/tools", dir);
    let _ = std::fs::create_dir_all(&tools);
    for t in ["cat", "head", "sleep", "sh"] {
        for d in ["/bin", "/usr/bin"] {
            if std::path::Path::new(&format!("{}/{}", d, t)).exists() {
                let _ = std::os::unix::fs::symlink(format!("{}/{}", d, t), format!("{}/{}", tools, t));
                break;
            }
        }
    }
    std::env::set_var("PATH", format!("{}:{}", dir, tools));
    let st = Rc::new(RefCell::new(WState::default()));
    let wplan = match wf {
        0 => vec![],
        1 => vec![(0, Ev::Fail(io::ErrorKind::Other))],
        _ => vec![(0, Ev::N(10)), (1, Ev::Intr), (2, Ev::N(1))],
    };
    let w = W { st: st.clone(), plan: wplan, base: 0, flush_fail: None, buffered: true };
    let t2 = text.clone();
    let res = mc::guard(move || butte_build::compile_fbs_generic(false, None, Box::new(io::Cursor::new(t2.into_bytes())), Box::new(w)).map_err(|e| e.to_string()));
    PATH0.with(|p| std::env::set_var("PATH", p));
    let _ = std::fs::remove_dir_all(&dir);
    let desc = format!("formatter {}, {} code, output fault {}", name, if big { "large" } else { "small" }, wf);
    ch.note(|| desc.clone());
    let res = res.map_err(|p| format!("the compiler panicked ({}) with {}", p, desc))?;
    ch.step(1);
    ch.eval(1);
    let st = st.borrow();
    ch.state(format!("{} {:?} {}", desc, res.is_ok(), st.committed.len()));
    ch.sample(|| format!("{}: {:?}", desc, res));
    match res {
        Ok(()) => {
            if must_fail {
                return Err(format!("success although the formatter failed: {}", desc));
            }
            if st.failed {
                return Err(format!("success although writing failed: {}", desc));
            }
            let e = expect.unwrap();
            if st.committed != e {
                return Err(format!("success, but {} bytes were written instead of the {} the formatter gave: {}", st.committed.len(), e.len(), desc));
            }
        }
        Err(e) => {
            if !must_fail && !st.failed {
                return Err(format!("failure ({}) without a cause: {}", e, desc));
            }
        }
    }
    Ok(())
}

/// compile_fbs: files that are missing, unreadable, no text, full, or fine
pub fn files(ch: &mut Ch) -> Result<(), String> {
    let inp = ch.choose(6);
    let outp = ch.choose(6);
    let name = *ch.pick(&["x.fbs", "x", "x.y.fbs", "x.rs"]);
    let dir = scratch();
    let src = format!("{}/src", dir);
    let out = format!("{}/out", dir);
    std::fs::create_dir_all(&src).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    let f = format!("{}/{}", src, name);
    let text = "table T { x : int ; }";
    match inp {
        0 => std::fs::write(&f, text).unwrap(),
        1 => (),
        2 => std::fs::create_dir_all(&f).unwrap(),
        3 => std::fs::write(&f, b"table T { x : int ; } // \xff").unwrap(),
        4 => std::fs::write(&f, "table T { x : ").unwrap(),
        _ => std::os::unix::fs::symlink("nowhere", &f).unwrap(),
    }
    let target = format!("{}/{}", out, std::path::Path::new(name).with_extension("rs").file_name().unwrap().to_str().unwrap());
    std::env::set_var("OUT_DIR", &out);
    match outp {
        0 => (),
        1 => std::env::remove_var("OUT_DIR"),
        2 => std::env::set_var("OUT_DIR", format!("{}/nowhere", dir)),
        3 => std::fs::create_dir_all(&target).unwrap(),
        4 => std::os::unix::fs::symlink("/dev/full", &target).unwrap(),
        _ => std::fs::write(&target, "x".repeat(200_000)).unwrap(),
    }
    let f2 = f.clone();
    let res = mc::guard(move || butte_build::compile_fbs(&f2).map_err(|e| e.to_string()));
    let want = pretty(text.as_bytes())?.unwrap();
    let got = if outp == 4 { None } else { std::fs::read(&target).ok() };
    std::env::remove_var("OUT_DIR");
    std::fs::remove_dir_all(&dir).unwrap();
    let desc = format!("input case {}, output case {}, name {}", inp, outp, name);
    let res = res.map_err(|p| format!("the compiler panicked ({}): {}", p, desc))?;
    ch.step(1);
    ch.eval(1);
    ch.state(format!("{} {}", desc, res.is_ok()));
    let fine = inp == 0 && (outp == 0 || outp == 5);
    match res {
        Ok(()) if !fine => Err(format!("success: {}", desc)),
        Ok(()) if got.as_deref() != Some(&want[..]) => Err(format!("success, but the file does not hold the code: {}", desc)),
        Err(e) if fine => Err(format!("failure ({}): {}", e, desc)),
        _ => Ok(()),
    }
}
