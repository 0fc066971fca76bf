//! Stateless exhaustive explorer.
//!
//! A scenario is a function of a `Ch` (chooser).  Each call of `choose(n)` is a
//! nondeterministic branch; `explore` runs the scenario once for every possible
//! sequence of answers (depth-first, complete, no sampling).  Work is sharded
//! over worker processes by a hash of the first choices.  Aborts (SIGABRT,
//! SIGSEGV, ...) and hangs of the code under test are reported by the worker
//! with the choice trail that led to them.

use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::Hasher;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub mod hash;
pub mod json;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type ScenFn = fn(&mut Ch) -> Result<(), String>;

#[derive(Clone, Copy)]
pub struct Scen {
    pub name: &'static str,
    pub f: ScenFn,
    /// number of leading choices used for sharding
    pub shard_depth: usize,
    /// only run in the thorough tier
    pub thorough_only: bool,
    pub what: &'static str,
}

pub const fn scen(name: &'static str, f: ScenFn, what: &'static str) -> Scen {
    Scen { name, f, shard_depth: 3, thorough_only: false, what }
}

impl Scen {
    pub const fn depth(mut self, d: usize) -> Self {
        self.shard_depth = d;
        self
    }
    pub const fn thorough(mut self) -> Self {
        self.thorough_only = true;
        self
    }
}

struct Skip;

pub struct Ch {
    trail: Vec<u32>,
    limits: Vec<u32>,
    pos: usize,
    shard: Option<(u64, u64, usize)>, // index, count, depth
    pub tier: Tier,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub transitions: u64,
    pub evals: u64,
    states: HashSet<u64>,
    samples: Vec<String>,
    noted: u64,
    replaying: bool,
}

static TRAIL: [AtomicU32; 8192] = [const { AtomicU32::new(0) }; 8192];
static TRAIL_LEN: AtomicUsize = AtomicUsize::new(0);
static SCEN_IDX: AtomicUsize = AtomicUsize::new(usize::MAX);
static PROGRESS: AtomicU64 = AtomicU64::new(0);

impl Ch {
    fn new(tier: Tier) -> Self {
        Ch {
            trail: vec![],
            limits: vec![],
            pos: 0,
            shard: None,
            tier,
            verbose: false,
            notes: vec![],
            transitions: 0,
            evals: 0,
            states: HashSet::new(),
            samples: vec![],
            noted: 0,
            replaying: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// choose a bound by tier
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// Nondeterministic choice of 0..n.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n < u32::MAX as usize, "choose({})", n);
        let p = self.pos;
        let v;
        if p < self.trail.len() {
            v = self.trail[p];
            if p < self.limits.len() {
                if self.limits[p] != n as u32 {
                    eprintln!("HARNESS-ERROR: divergence replaying a prefix at {} ({} vs {})", p, self.limits[p], n);
                    std::process::exit(3);
                }
            } else {
                self.limits.push(n as u32);
            }
            if v as usize >= n {
                eprintln!("HARNESS-ERROR: choice {} out of range {} at {}", v, n, p);
                std::process::exit(3);
            }
        } else {
            v = 0;
            self.trail.push(0);
            self.limits.push(n as u32);
        }
        if !cfg!(miri) && p < TRAIL.len() {
            TRAIL[p].store(v, Ordering::Relaxed);
            TRAIL_LEN.store(p + 1, Ordering::Relaxed);
        }
        self.pos += 1;
        if let Some((i, cnt, depth)) = self.shard {
            if self.pos == depth && Self::shard_of(&self.trail[..depth], cnt) != i {
                resume_unwind(Box::new(Skip));
            }
        }
        v as usize
    }
    fn shard_of(prefix: &[u32], cnt: u64) -> u64 {
        let mut h = hash::Fx::default();
        for x in prefix {
            h.write_u32(*x);
        }
        (h.finish() >> 17) % cnt
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// record an observed state (hash of a canonical form)
    pub fn state<T: AsRef<[u8]>>(&mut self, bytes: T) {
        if self.states.len() < 4_000_000 {
            let mut h = hash::Fx::default();
            h.write(bytes.as_ref());
            self.states.insert(h.finish());
        }
    }
    pub fn state_hash(&mut self, h: u64) {
        if self.states.len() < 4_000_000 {
            self.states.insert(h);
        }
    }
    /// count operations executed on the implementation
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// count one comparison of implementation and model inside an execution
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        self.noted += 1;
        if self.verbose || self.replaying {
            self.notes.push(f());
        } else if self.noted == 100 || self.noted == 5000 {
            self.sample(f);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 {
            let s = f();
            let s: String = s.chars().take(600).collect();
            self.samples.push(s);
        }
    }
    fn advance(&mut self) -> bool {
        self.trail.truncate(self.pos);
        self.limits.truncate(self.pos);
        while let Some(v) = self.trail.pop() {
            let l = self.limits[self.trail.len()];
            if v + 1 < l {
                self.trail.push(v + 1);
                return true;
            }
            self.limits.pop();
        }
        false
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run code under test; Err(message) if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.downcast_ref::<Skip>().is_some() {
                resume_unwind(e);
            }
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

fn run_one(f: ScenFn, ch: &mut Ch) -> Option<Result<(), String>> {
    ch.pos = 0;
    ch.notes.clear();
    TRAIL_LEN.store(0, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(|| f(ch))) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.downcast_ref::<Skip>().is_some() {
                None
            } else {
                Some(Err(format!("unexpected panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))))
            }
        }
    }
}

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn put(s: &[u8]) {
    unsafe {
        let _ = write(1, s.as_ptr() as *const std::ffi::c_void, s.len());
    }
}
fn put_num(mut n: usize) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    put(&b[i..]);
}
fn dump_crash(kind: &[u8]) {
    put(b"\nCRASH ");
    put(kind);
    put(b" ");
    put_num(SCEN_IDX.load(Ordering::Relaxed));
    put(b" ");
    let n = TRAIL_LEN.load(Ordering::Relaxed).min(TRAIL.len());
    for i in 0..n {
        if i > 0 {
            put(b",");
        }
        put_num(TRAIL[i].load(Ordering::Relaxed) as usize);
    }
    put(b"\n");
}
extern "C" fn on_signal(sig: i32) {
    let k: &[u8] = match sig {
        6 => b"SIGABRT",
        11 => b"SIGSEGV",
        7 => b"SIGBUS",
        4 => b"SIGILL",
        8 => b"SIGFPE",
        5 => b"SIGTRAP",
        _ => b"SIGNAL",
    };
    dump_crash(k);
    unsafe { _exit(0) }
}

fn install_signals() {
    for s in [6, 11, 7, 4, 8, 5] {
        unsafe {
            signal(s, on_signal as *const () as usize);
        }
    }
    // 6 GiB address space per worker (more when a scenario asks for it through the environment)
    let gb: u64 = std::env::var("MC_AS_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let lim = [gb << 30, gb << 30];
    unsafe {
        setrlimit(9, &lim);
    }
    std::thread::spawn(|| {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(90) && SCEN_IDX.load(Ordering::Relaxed) != usize::MAX {
                dump_crash(b"HANG");
                unsafe { _exit(0) }
            }
        }
    });
}

/// The properties a harness binary decides.
pub struct Registry {
    pub harness: &'static str,
    pub props: &'static [(&'static str, &'static [Scen])],
    pub rule: fn(&str) -> &'static str,
}

fn find<'a>(reg: &'a Registry, prop: &str) -> &'a [Scen] {
    for (p, s) in reg.props {
        if *p == prop {
            return s;
        }
    }
    eprintln!("HARNESS-ERROR: unknown property {}", prop);
    std::process::exit(3);
}

fn worker(reg: &Registry, prop: &str, tier: Tier, shard: u64, count: u64, only: Option<&str>, statefile: &str) {
    install_panic_hook();
    install_signals();
    let scens = find(reg, prop);
    let mut all_states: HashSet<u64> = HashSet::new();
    for (si, s) in scens.iter().enumerate() {
        if s.thorough_only && tier == Tier::Quick {
            continue;
        }
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        SCEN_IDX.store(si, Ordering::Relaxed);
        let t0 = Instant::now();
        let mut ch = Ch::new(tier);
        ch.shard = Some((shard, count, s.shard_depth));
        let mut execs = 0u64;
        let mut choices = 0u64;
        let mut viol: Option<String> = None;
        loop {
            let r = run_one(s.f, &mut ch);
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            if let Some(r) = r {
                let mine = ch.pos >= s.shard_depth || Ch::shard_of(&ch.trail[..ch.pos], count) == shard;
                if mine {
                    execs += 1;
                    choices += ch.pos as u64;
                }
                if let Err(m) = r {
                    let trail: Vec<String> = ch.trail[..ch.pos].iter().map(|x| x.to_string()).collect();
                    viol = Some(format!("VIOL {} {} {}", si, if trail.is_empty() { "-".into() } else { trail.join(",") }, json::esc(&m)));
                    break;
                }
            }
            if !ch.advance() {
                break;
            }
        }
        let mut out = std::io::stdout().lock();
        if let Some(v) = viol {
            let _ = writeln!(out, "\n{}", v);
            let _ = out.flush();
            break;
        }
        let samples: Vec<String> = ch.samples.iter().map(|s| json::esc(s)).collect();
        let _ = writeln!(
            out,
            "\nSTAT {} {} {} {} {} {} [{}]",
            si,
            execs,
            choices,
            ch.transitions,
            ch.evals,
            t0.elapsed().as_millis(),
            samples.join(",")
        );
        let _ = out.flush();
        all_states.extend(ch.states.drain());
    }
    let mut bytes = Vec::with_capacity(all_states.len() * 8);
    for h in &all_states {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(statefile, &bytes);
    println!("DONE");
}

fn replay_inner(reg: &Registry, prop: &str, tier: Tier, scen: &str, trail: &str) {
    install_panic_hook();
    install_signals();
    for (si, s) in find(reg, prop).iter().enumerate() {
        if s.name != scen {
            continue;
        }
        SCEN_IDX.store(si, Ordering::Relaxed);
        let mut ch = Ch::new(tier);
        ch.replaying = true;
        ch.trail = trail.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect();
        let r = run_one(s.f, &mut ch);
        for n in &ch.notes {
            println!("  {}", n);
        }
        match r {
            Some(Err(m)) => {
                println!("RESULT violation: {}", m.replace('\n', "\\n"));
            }
            _ => println!("RESULT ok"),
        }
        return;
    }
    println!("RESULT unknown scenario");
}

#[derive(Debug, Clone)]
struct V {
    scen: usize,
    trail: String,
    msg: String,
}

struct ScenStat {
    execs: u64,
    choices: u64,
    trans: u64,
    evals: u64,
    ms: u64,
    samples: Vec<String>,
}

/// Outcome of one exploration (used by `main_with` and by harnesses that add more phases).
pub struct Outcome {
    pub violation: Option<(String, String)>, // message, replay path
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub evals: u64,
    pub scen_json: Vec<String>,
    pub samples: Vec<String>,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> key=<key> <text>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                if let Some(r) = r.strip_prefix(&format!("property={} key=", prop)) {
                    if let Some((k, t)) = r.split_once(' ') {
                        v.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn check(reg: &Registry, prop: &str, tier: Tier, only: Option<&str>) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let n: u64 = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scens = find(reg, prop);
    let dir = format!("{}/target/mcstate", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    let mut kids = vec![];
    for i in 0..n {
        let sf = format!("{}/{}-{}-{}.bin", dir, reg.harness, prop, i);
        let _ = std::fs::remove_file(&sf);
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("worker").arg(prop).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).arg(format!("{}/{}", i, n)).arg(&sf);
        if let Some(o) = only {
            cmd.arg(o);
        }
        cmd.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).env("RUST_BACKTRACE", "0");
        let mut kid = cmd.spawn().unwrap();
        let out = kid.stdout.take().unwrap();
        let err = kid.stderr.take().unwrap();
        let h = std::thread::spawn(move || {
            let mut lines = vec![];
            for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
                lines.push(l);
            }
            lines
        });
        let he = std::thread::spawn(move || {
            let mut lines = vec![];
            for l in std::io::BufReader::new(err).lines().map_while(Result::ok) {
                lines.push(l);
            }
            lines
        });
        kids.push((kid, h, he, sf));
    }
    let mut viols: Vec<V> = vec![];
    let mut stats: Vec<Option<ScenStat>> = scens.iter().map(|_| None).collect();
    let mut union: HashSet<u64> = HashSet::new();
    let mut broken = vec![];
    for (mut kid, h, he, sf) in kids {
        let lines = h.join().unwrap();
        let errs = he.join().unwrap();
        let st = kid.wait().unwrap();
        let mut ok = false;
        for l in &lines {
            if l == "DONE" {
                ok = true;
            } else if let Some(r) = l.strip_prefix("VIOL ") {
                let p: Vec<&str> = r.splitn(3, ' ').collect();
                viols.push(V { scen: p[0].parse().unwrap(), trail: p[1].into(), msg: json::unesc(p[2]) });
                ok = true;
            } else if let Some(r) = l.strip_prefix("CRASH ") {
                let p: Vec<&str> = r.splitn(3, ' ').collect();
                let last = errs.iter().rev().find(|e| e.contains("panicked") || e.contains("unsafe precondition") || e.contains("misaligned")).cloned().unwrap_or_default();
                let detail = errs.iter().rev().take(6).cloned().collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
                viols.push(V {
                    scen: p[1].parse().unwrap(),
                    trail: p.get(2).copied().unwrap_or("").into(),
                    msg: format!("process terminated by {} in the code under test: {} {}", p[0], last, detail),
                });
                ok = true;
            } else if let Some(r) = l.strip_prefix("STAT ") {
                let p: Vec<&str> = r.splitn(7, ' ').collect();
                let i: usize = p[0].parse().unwrap();
                let e: Vec<u64> = p[1..6].iter().map(|x| x.parse().unwrap()).collect();
                let sm = p[6].trim_start_matches('[').trim_end_matches(']').to_string();
                let s = stats[i].get_or_insert(ScenStat { execs: 0, choices: 0, trans: 0, evals: 0, ms: 0, samples: vec![] });
                s.execs += e[0];
                s.choices += e[1];
                s.trans += e[2];
                s.evals += e[3];
                s.ms = s.ms.max(e[4]);
                if !sm.is_empty() && s.samples.is_empty() {
                    s.samples.push(sm);
                }
            }
        }
        if !ok || !st.success() {
            broken.push(format!("worker ended with {:?}; stderr: {}", st, errs.iter().rev().take(5).cloned().collect::<Vec<_>>().join(" | ")));
        }
        if let Ok(b) = std::fs::read(&sf) {
            for c in b.chunks_exact(8) {
                union.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            let _ = std::fs::remove_file(&sf);
        }
    }
    if viols.is_empty() && !broken.is_empty() {
        eprintln!("HARNESS-ERROR: {}", broken.join("; "));
        std::process::exit(3);
    }
    let mut out = Outcome { violation: None, states: union.len() as u64, transitions: 0, execs: 0, evals: 0, scen_json: vec![], samples: vec![] };
    for (i, s) in scens.iter().enumerate() {
        if let Some(st) = &stats[i] {
            out.transitions += st.trans + st.choices;
            out.execs += st.execs;
            out.evals += st.evals;
            out.scen_json.push(format!(
                "{{\"scenario\":{},\"what\":{},\"executions\":{},\"choices\":{},\"operations\":{},\"comparisons\":{},\"wall_ms\":{},\"exhausted\":true}}",
                json::esc(s.name), json::esc(s.what), st.execs, st.choices, st.trans, st.evals, st.ms
            ));
            for x in &st.samples {
                if out.samples.len() < 12 {
                    out.samples.push(x.clone());
                }
            }
        }
    }
    if !viols.is_empty() {
        viols.sort_by_key(|v| (v.scen, v.trail.split(',').count(), v.trail.len()));
        let v = viols[0].clone();
        let s = &scens[v.scen];
        // reproduce in a fresh process, twice
        let mut reps = vec![];
        for _ in 0..2 {
            let o = std::process::Command::new(&exe)
                .args(["replay1", prop, if tier == Tier::Quick { "quick" } else { "thorough" }, s.name, &v.trail])
                .env("RUST_BACKTRACE", "0")
                .output()
                .unwrap();
            reps.push(String::from_utf8_lossy(&o.stdout).to_string());
        }
        let repro = reps[0].contains("RESULT violation") || reps[0].contains("CRASH");
        let notes: Vec<String> = reps[0].lines().filter(|l| l.starts_with("  ")).map(|l| json::esc(l.trim())).collect();
        let rdir = format!("{}/replay", verif_dir());
        std::fs::create_dir_all(&rdir).unwrap();
        let path = format!("{}/{}-{}.json", rdir, prop, s.name);
        let body = format!(
            "{{\n \"property\": {},\n \"harness\": {},\n \"scenario\": {},\n \"tier\": {},\n \"trail\": {},\n \"message\": {},\n \"reproduced_in_fresh_process\": {},\n \"replays_agree\": {},\n \"steps\": [{}],\n \"how\": {}\n}}\n",
            json::esc(prop), json::esc(reg.harness), json::esc(s.name),
            json::esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
            json::esc(&v.trail), json::esc(&v.msg), repro, reps[0] == reps[1], notes.join(", "),
            json::esc(&format!("{} replay1 {} {} {} {}", exe.display(), prop, if tier == Tier::Quick { "quick" } else { "thorough" }, s.name, v.trail))
        );
        std::fs::write(&path, body).unwrap();
        eprintln!("{}: scenario {}: {}", prop, s.name, v.msg);
        for nline in reps[0].lines().take(40) {
            eprintln!("{}", nline);
        }
        out.violation = Some((v.msg, path));
    }
    out
}

pub fn write_evidence(prop: &str, tier: Tier, level: &str, out: &Outcome, wall: f64, rule: &str, extra: &str, assumptions: &[&str]) {
    let dir = std::env::var("MC_EVIDENCE_DIR").unwrap_or_else(|_| format!("{}/evidence", verif_dir()));
    std::fs::create_dir_all(&dir).unwrap();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let a: Vec<String> = assumptions.iter().map(|s| json::esc(s)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"exhaustive\": true,\n  \"rule\": {},\n  \"samples\": [{}],\n  \"scenarios\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json::esc(prop),
        json::esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed, json::esc(level), out.states, out.transitions, out.execs, out.evals, json::esc(rule),
        out.samples.join(", "), out.scen_json.join(",\n   "), extra, a.join(", "), wall,
        if out.violation.is_some() { 1 } else { 0 }
    );
    std::fs::write(format!("{}/{}.json", dir, prop), body).unwrap();
}

/// Entry point of a harness binary.
pub fn main_with(reg: &Registry) {
    let a: Vec<String> = std::env::args().collect();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let (i, n) = a[4].split_once('/').unwrap();
            worker(reg, &a[2], tier_of(&a[3]), i.parse().unwrap(), n.parse().unwrap(), a.get(6).map(|s| s.as_str()), &a[5]);
        }
        Some("replay1") => replay_inner(reg, &a[2], tier_of(&a[3]), &a[4], a.get(5).map(|s| s.as_str()).unwrap_or("")),
        Some("check") => {
            let tier = tier_of(a.get(3).map(|s| s.as_str()).unwrap_or("quick"));
            let t0 = Instant::now();
            let out = check(reg, &a[2], tier, a.get(4).map(|s| s.as_str()));
            let tag = std::env::var("MC_EVIDENCE_EXTRA").unwrap_or_default();
            let extra = if tag.is_empty() { String::new() } else { format!(",\n  {}", tag) };
            write_evidence(&a[2], tier, "model_checking", &out, t0.elapsed().as_secs_f64(), (reg.rule)(&a[2]), &extra,
                &["x86_64 little-endian host", "bounds as listed per scenario; values outside the alphabets are not covered"]);
            for s in &out.scen_json {
                eprintln!("{}", s);
            }
            eprintln!("{}: executions={} states={} transitions={} comparisons={} wall={:.1}s", a[2], out.execs, out.states, out.transitions, out.evals, t0.elapsed().as_secs_f64());
            if let Some((_, path)) = out.violation {
                println!("VIOLATION property={} replay={}", a[2], path);
                std::process::exit(1);
            }
        }
        Some("list") => {
            for (p, ss) in reg.props {
                for s in *ss {
                    println!("{} {} {}", p, s.name, s.what);
                }
            }
        }
        _ => {
            eprintln!("usage: check <prop> <tier> [scenario] | replay1 <prop> <tier> <scenario> <trail> | list");
            std::process::exit(3);
        }
    }
}

/// Explore in this thread alone, without signals, threads or clocks (this runs
/// inside an interpreter, where unwinding and formatting are dear).  `f` is
/// told the choices of each execution; the first is the one that makes `start`.
pub fn inline(tier: Tier, start: &[u32], max: u64, mut f: impl FnMut(&mut Ch)) {
    let mut ch = Ch::new(tier);
    ch.trail = start.to_vec();
    for _ in 0..max {
        ch.pos = 0;
        f(&mut ch);
        if !ch.advance() {
            return;
        }
    }
}

impl Ch {
    /// the choices of this execution so far
    pub fn made(&self) -> &[u32] {
        &self.trail[..self.pos]
    }
}
