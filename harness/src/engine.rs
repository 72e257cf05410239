//! Tape-based property testing: every random decision of a generator is one entry of a
//! tape, so any failing case can be shrunk by editing the tape and replayed exactly.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct G {
    /// write the tape to a file while it is made
    log: bool,
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: u64,
    pub tape: Vec<u32>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl G {
    pub fn seeded(seed: u64) -> Self {
        G { log: false, replay: None, pos: 0, rng: seed, tape: vec![] }
    }
    /// for cases that are decided many at a time: says which one this thread is at
    pub fn begin(&self) -> impl Drop {
        struct Done(usize);
        impl Drop for Done {
            fn drop(&mut self) {
                Slots::get().set(self.0, 0, 0);
            }
        }
        let d = Done(Slots::get().join());
        Slots::get().set(d.0, 1, self.rng);
        d
    }
    pub fn replay(tape: &[u32]) -> Self {
        G { log: false, replay: Some(tape.to_vec()), pos: 0, rng: 0, tape: vec![] }
    }
    /// Uniform value in 0..n (0 is the simplest choice)
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0) as usize % n,
            None => (splitmix(&mut self.rng) % n as u64) as usize,
        };
        self.pos += 1;
        self.tape.push(v as u32);
        if self.log {
            self.write();
        }
        v
    }
    #[cold]
    fn write(&self) {
        use std::io::Write;
        if let Ok(f) = std::env::var("VH_TAPE") {
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
                let _ = f.write_all(&self.tape[self.tape.len() - 1].to_le_bytes());
            }
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn s<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.below(xs.len())]
    }
    /// some character of a word
    pub fn wchar(&mut self) -> char {
        let (a, b) = *self.pick(&[(0x61u32, 0x7a), (0x61, 0x7a), (0x41, 0x5a), (0x30, 0x39), (0xc0, 0x17f), (0x391, 0x3c9), (0x5d0, 0x5ea), (0x4e00, 0x9fa5), (0x1f600, 0x1f64f), (0x300, 0x36f), (0x10000, 0x1004d)]);
        char::from_u32(self.range(a as usize, b as usize) as u32).unwrap_or('u')
    }
    /// a word of letters, digits and the like that begins with a letter and is no keyword
    pub fn anyword(&mut self, max: usize) -> String {
        let mut s = String::from((b'a' + self.below(26) as u8) as char);
        for _ in 0..self.small(0, max) {
            let c = self.wchar();
            s.push(c);
        }
        s
    }
    /// one of the texts given or, now and then, any other word
    pub fn w(&mut self, xs: &[&str]) -> String {
        if self.chance(1, 6) {
            self.anyword(9)
        } else {
            self.s(xs).to_string()
        }
    }
    /// weighted index
    pub fn freq(&mut self, w: &[usize]) -> usize {
        let tot: usize = w.iter().sum();
        let mut v = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// loop condition: between lo and hi rounds (evenly distributed), decided one at a time
    /// so that a round can be removed from the tape
    pub fn more(&mut self, k: &mut usize, lo: usize, hi: usize) -> bool {
        let go = *k < lo || (*k < hi && self.chance(hi - *k, hi - *k + 1));
        *k += 1;
        go
    }
    /// likewise, biased to few rounds; now and then up to eight times as many
    /// (the number of the round is `G::nth(k)`)
    pub fn more_small(&mut self, k: &mut usize, lo: usize, hi: usize) -> bool {
        const LONG: usize = 1 << 31;
        let n = *k & (LONG - 1);
        let long = *k & LONG != 0;
        let go = n < lo || (long && n < hi * 8 && self.chance(11, 12)) || (!long && n < hi && self.chance(2, 5));
        if go && n == lo.max(1) && hi > 2 && self.chance(1, 60) {
            *k |= LONG;
        }
        *k += 1;
        go
    }
    pub fn nth(k: usize) -> usize {
        (k & ((1 << 31) - 1)) - 1
    }
    /// number in lo..=hi, biased to small
    pub fn small(&mut self, lo: usize, hi: usize) -> usize {
        let mut n = lo;
        while n < hi && self.chance(2, 5) {
            n += 1;
        }
        n
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[derive(Clone, Debug)]
pub struct Case {
    /// complete human readable rendition of the generated case
    pub text: String,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub out: Result<(), Fail>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

/// Runs f, turning a panic into a failure with signature `panic`
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", format!("{} panicked: {}", what, m))
        }
    }
}

pub type CaseFn = fn(&mut G) -> Case;
pub type TextFn = fn(&str) -> Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub case: CaseFn,
    /// the same oracle on one explicit text (used for regression inputs and known findings)
    pub text: Option<TextFn>,
    pub assumptions: &'static [&'static str],
    pub threads: usize,
    /// for cases that are decided many at a time: the tapes used and the decided cases
    pub batch: Option<BatchFn>,
}

pub type BatchFn = fn(Vec<G>) -> Vec<(Vec<u32>, Case)>;

/// shrinks by deciding many candidates at a time
fn shrink_batch(f: BatchFn, tape: Vec<u32>, case: Case, sig: &str) -> (Vec<u32>, Case) {
    let (mut best, mut case) = (tape, case);
    for _ in 0..8 {
        let mut cands: Vec<Vec<u32>> = vec![];
        let mut size = best.len().max(1);
        while size >= 1 && cands.len() < 240 {
            let step = size.max(best.len() / 60).max(1);
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut t = best.clone();
                t.drain(i..end);
                cands.push(t);
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..end].iter_mut().for_each(|x| *x = 0);
                    cands.push(t);
                }
                i += step;
            }
            size /= 2;
        }
        let key = |t: &Vec<u32>| (t.len(), t.iter().map(|x| *x as u64).sum::<u64>());
        let found = f(cands.iter().map(|t| G::replay(t)).collect())
            .into_iter()
            .filter(|(_, c)| c.out.as_ref().err().map_or(false, |e| e.sig == sig))
            .map(|(mut t, c)| {
                while t.last() == Some(&0) {
                    t.pop();
                }
                (t, c)
            })
            .min_by_key(|(t, _)| key(t));
        match found {
            Some((t, c)) if key(&t) < key(&best) => {
                best = t;
                case = c;
            }
            _ => break,
        }
    }
    (best, case)
}

fn hash64(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn run_case(p: &Prop, g: &mut G) -> Case {
    let f = p.case;
    match guard("harness case", || f(g)) {
        Ok(c) => c,
        Err(e) => Case { text: String::from("<panic while building or checking the case>"), nontrivial: false, labels: vec![], out: Err(e) },
    }
}

fn shrink(p: &Prop, tape: Vec<u32>, first: Case, sig: &str, budget: usize) -> (Vec<u32>, Case) {
    let runs = AtomicUsize::new(0);
    let attempt = |t: &[u32]| -> Option<(Vec<u32>, Case)> {
        runs.fetch_add(1, Ordering::Relaxed);
        let mut g = G::replay(t);
        let c = run_case(p, &mut g);
        match &c.out {
            Err(f) if f.sig == sig => {
                let mut t = g.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some((t, c))
            }
            _ => None,
        }
    };
    let (mut best, mut case) = match (0..20).find_map(|_| attempt(&tape)) {
        Some(x) => x,
        None => return (tape, first),
    };
    loop {
        let before = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if runs.load(Ordering::Relaxed) > budget {
                    return (best, case);
                }
                let end = (i + size).min(best.len());
                let mut t = best.clone();
                t.drain(i..end);
                if let Some((t, c)) = attempt(&t) {
                    if t.len() < best.len() {
                        best = t;
                        case = c;
                        continue;
                    }
                }
                let mut t = best.clone();
                if t[i..end].iter().any(|x| *x != 0) {
                    t[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some((t, c)) = attempt(&t) {
                        if (t.len(), t.iter().map(|x| *x as u64).sum::<u64>()) < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>()) {
                            best = t;
                            case = c;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if runs.load(Ordering::Relaxed) > budget {
                    return (best, case);
                }
                if i < best.len() && nv < best[i] {
                    let mut t = best.clone();
                    t[i] = nv;
                    if let Some((t, c)) = attempt(&t) {
                        if t.len() <= best.len() {
                            best = t;
                            case = c;
                        }
                    }
                }
            }
            i += 1;
        }
        let after = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        if after >= before || runs.load(Ordering::Relaxed) > budget {
            return (best, case);
        }
    }
}

// ---------------------------------------------------------------- crashes and hangs

/// processor time that no case comes near to, in seconds
const HANG: f64 = 40.0;

extern "C" {
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}

fn cpu(clock: i32) -> f64 {
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0.0;
    }
    t[0] as f64 + t[1] as f64 * 1e-9
}

/// processor time of this thread in seconds
pub fn thread_time() -> f64 {
    cpu(3)
}

/// limits on a process: 0 is processor time in seconds, 9 is memory in bytes
pub fn limit(what: i32, n: u64) {
    unsafe { setrlimit(what, &[n, n]) };
}

/// What the threads of a worker are at, written to a file that outlives it
struct Slots {
    file: Option<std::fs::File>,
    at: Mutex<Vec<Option<(i32, f64, u64)>>>,
}

thread_local! {
    static AT: std::cell::Cell<Option<(usize, u64, u64)>> = std::cell::Cell::new(None);
}

static SLOTS: std::sync::OnceLock<Slots> = std::sync::OnceLock::new();

impl Slots {
    fn get() -> &'static Slots {
        SLOTS.get_or_init(|| Slots {
            file: std::env::var("VH_SLOTS").ok().map(|f| std::fs::OpenOptions::new().create(true).write(true).open(f).expect("slots")),
            at: Mutex::new(vec![]),
        })
    }
    fn join(&self) -> usize {
        let mut v = self.at.lock().unwrap();
        v.push(None);
        v.len() - 1
    }
    /// kind: 0 nothing, 1 a case by its seed, 2 an explicit input by its number
    fn set(&self, slot: usize, kind: u64, what: u64) {
        use std::os::unix::fs::FileExt;
        AT.with(|a| a.set(Some((slot, kind, what))));
        let mut clock = 3;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
        self.at.lock().unwrap()[slot] = if kind == 0 { None } else { Some((clock, cpu(clock), kind)) };
        if let Some(f) = &self.file {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&kind.to_le_bytes());
            b[8..].copy_from_slice(&what.to_le_bytes());
            let _ = f.write_all_at(&b, slot as u64 * 16);
        }
    }
    fn hangs(&self) -> bool {
        self.at.lock().unwrap().iter().flatten().any(|(c, from, _)| cpu(*c) - from > HANG)
    }
}

/// ends the worker when a case does not come to an end
fn watch() {
    if Slots::get().file.is_some() {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if Slots::get().hangs() {
                unsafe { _exit(97) }
            }
        });
    }
}

enum End {
    Exit(i32),
    /// it crashed or hung
    Died(String),
}

fn child(args: &[&str], env: &[(&str, &str)], input: Option<&str>, cpu_s: u64) -> End {
    use std::io::Write;
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(args).env("RUST_BACKTRACE", "0").envs(env.iter().copied());
    let memory = if input.is_some() { 6 } else { 20 };
    if input.is_some() {
        c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    unsafe {
        c.pre_exec(move || {
            limit(9, memory << 30);
            limit(4, 0);
            if cpu_s > 0 {
                limit(0, cpu_s);
            }
            Ok(())
        })
    };
    let mut h = c.spawn().expect("worker");
    if let Some(i) = input {
        let _ = h.stdin.take().unwrap().write_all(i.as_bytes());
    }
    let st = h.wait().expect("worker");
    match (st.code(), st.signal()) {
        (Some(97), _) => End::Died("does not come to an end".into()),
        (Some(n), _) => End::Exit(n),
        (_, Some(9)) if cpu_s > 0 => End::Died("does not come to an end".into()),
        (_, Some(24)) => End::Died("does not come to an end".into()),
        (_, Some(n)) => End::Died(format!("ends the whole process (signal {})", n)),
        _ => End::Died("ends the whole process".into()),
    }
}

/// Keeps the text that is parsed next where a parser that does not return cannot take it along
pub fn note(text: &str) {
    static FILE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    if let Some(f) = FILE.get_or_init(|| std::env::var("VH_TEXT").ok()) {
        let _ = std::fs::write(f, text);
    }
}

/// Decides one case in a process of its own; true if that dies
fn dies(p: &Prop, tape: &[u32]) -> Option<String> {
    let s = serde_json::to_string(tape).unwrap();
    match child(&["tape", p.id], &[], Some(&s), 10) {
        End::Died(s) => Some(s),
        _ => None,
    }
}

fn run_any(p: &Prop, mut g: G) {
    match p.batch {
        Some(f) => drop(f(vec![g])),
        None => drop(run_case(p, &mut g)),
    }
}

/// the worker's side of `dies`
pub fn tape(p: &'static Prop, tape: Vec<u32>) -> i32 {
    in_big_stack(move || run_any(p, G::replay(&tape)));
    0
}

/// The tape of a seed and the case's text, if the text can be had without running into the defect
pub fn tape_of(p: &'static Prop, seed: u64) -> i32 {
    in_big_stack(move || {
        let mut g = G::seeded(seed);
        g.log = true;
        run_any(p, g)
    });
    0
}

/// Runs a check in a process of its own, so that a case that crashes or never ends is found and
/// reported as well
pub fn supervise(p: &'static Prop, ctx: &Ctx) -> i32 {
    let t0 = std::time::Instant::now();
    let slots = std::env::temp_dir().join(format!("vh-slots-{}-{}", p.id, std::process::id()));
    let _ = std::fs::write(&slots, b"");
    let end = child(&["worker", p.id, &ctx.tier], &[("VH_SLOTS", slots.to_str().unwrap())], None, 0);
    let at = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    let why = match end {
        End::Exit(n) => return n,
        End::Died(s) => s,
    };
    eprintln!("the worker {}", why);
    let num = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    for s in at.chunks_exact(16) {
        let (kind, what) = (num(&s[..8]), num(&s[8..]));
        let (text, tape, why) = match kind {
            1 => {
                // the tape as far as the case got
                let f = std::env::temp_dir().join(format!("vh-tape-{}-{}", p.id, std::process::id()));
                let r = child(&["seed", p.id, &what.to_string()], &[("VH_TAPE", f.to_str().unwrap())], Some(""), 60);
                let b = std::fs::read(&f).unwrap_or_default();
                let _ = std::fs::remove_file(&f);
                let tape: Vec<u32> = b.chunks_exact(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
                let why = match r {
                    End::Died(s) => s,
                    End::Exit(_) => continue,
                };
                let tape = smaller(p, tape);
                let t = serde_json::to_string(&tape).unwrap();
                child(&["tape", p.id], &[("VH_TEXT", f.to_str().unwrap())], Some(&t), 10);
                let text = std::fs::read_to_string(&f).ok();
                let _ = std::fs::remove_file(&f);
                (text.unwrap_or_else(|| "(replay it by its tape)".to_string()), tape, why)
            }
            2 => match load_findings(&ctx.root).into_iter().filter(|f| f.property == p.id).nth(what as usize) {
                Some(f) => (f.input, vec![], why.clone()),
                None => continue,
            },
            _ => continue,
        };
        let dir = ctx.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("replay-{}.json", p.id));
        let v = json!({"property": p.id, "seed": ctx.seed, "origin": if kind == 2 { "repaired defect is back" } else { "generated case" }, "signature": "died", "message": why, "case": text, "tape": tape});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("FAILED {}: a case {}\n--- case\n{}\n---", p.id, why, clip(&text, 4000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let ev = json!({
            "property": p.id, "tier": if ctx.tier == "thorough" { "thorough" } else { "quick" }, "seed": ctx.seed, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [text]},
            "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
        });
        std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        return 1;
    }
    eprintln!("no single case does that");
    3
}

/// removes spans of a tape as long as the case keeps dying
fn smaller(p: &Prop, tape: Vec<u32>) -> Vec<u32> {
    let t0 = std::time::Instant::now();
    let mut best = tape;
    if dies(p, &best).is_none() {
        return best;
    }
    let mut size = best.len().max(1);
    while size >= 1 {
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed().as_secs() > 120 {
                return best;
            }
            let mut t = best.clone();
            t.drain(i..(i + size).min(best.len()));
            if dies(p, &t).is_some() {
                best = t;
            } else {
                i += size;
            }
        }
        size /= 2;
    }
    best
}

pub struct Ctx {
    pub seed: u64,
    pub tier: String,
    pub root: std::path::PathBuf,
    pub scale: f64,
}

#[derive(Clone)]
pub struct Finding {
    pub property: String,
    pub input: String,
    pub what: String,
    pub known: bool,
}

pub fn load_findings(root: &std::path::Path) -> Vec<Finding> {
    let mut out = vec![];
    let s = match std::fs::read_to_string(root.join("known_findings.json")) {
        Ok(s) => s,
        Err(_) => return out,
    };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    for (key, known) in [("known", true), ("fixed", false)] {
        for e in v[key].as_array().into_iter().flatten() {
            let inputs: Vec<String> = match &e["input"] {
                Value::String(s) => vec![s.clone()],
                Value::Array(a) => a.iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                _ => vec![],
            };
            let props: Vec<String> = match &e["property"] {
                Value::String(s) => vec![s.clone()],
                Value::Array(a) => a.iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                _ => vec![],
            };
            for p in &props {
                for input in &inputs {
                    let mut input = input.clone();
                    if let Some(x) = e["expect"].as_str() {
                        input = format!("{}\u{1}{}", input, x);
                    }
                    out.push(Finding {
                        property: p.clone(),
                        input,
                        what: e["what"].as_str().unwrap_or("").to_string(),
                        known,
                    });
                }
            }
        }
    }
    out
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}…", t)
    }
}

/// Runs what a case does on a stack of its own
pub fn in_stack<T: Send + 'static>(size: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    let at = AT.with(|a| a.get());
    let g = move || {
        if let Some((slot, kind, what)) = at {
            Slots::get().set(slot, kind, what);
        }
        f()
    };
    std::thread::Builder::new().stack_size(size).spawn(g).unwrap().join().unwrap()
}

pub fn in_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 29).spawn(f).unwrap().join().unwrap()
}

/// Runs a property; returns the exit code
pub fn run_prop(p: &'static Prop, ctx: &Ctx) -> i32 {
    let t0 = std::time::Instant::now();
    let base_n = if ctx.tier == "thorough" { p.thorough } else { p.quick };
    let n = ((base_n as f64) * ctx.scale) as usize;
    let findings: Vec<Finding> = load_findings(&ctx.root).into_iter().filter(|f| f.property == p.id).collect();
    let mut violation: Option<(String, Case, Vec<u32>)> = None;
    let mut reg_runs = 0usize;
    let mut known_hit = 0usize;
    // a machine that is too slow for all cases gets an answer for fewer of them
    let most = if ctx.tier == "thorough" { 6000 } else { 480 };
    watch();
    let slot = Slots::get().join();
    // 1. explicit inputs: regressions of repaired defects, and recorded findings
    if let Some(tf) = p.text {
        for (number, f) in findings.iter().enumerate() {
            let input = f.input.clone();
            reg_runs += 1;
            let r = in_big_stack(move || {
                Slots::get().set(slot, 2, number as u64);
                let r = guard("explicit input", || tf(&input)).and_then(|x| x);
                Slots::get().set(slot, 0, 0);
                r
            });
            match (r, f.known) {
                (Err(_), true) => {
                    known_hit += 1;
                    println!("KNOWN-FINDING: property={} {}", p.id, f.what);
                }
                (Ok(()), true) => println!("note: recorded finding no longer fails: {} {:?}", p.id, f.input),
                (Err(e), false) => {
                    if violation.is_none() {
                        violation = Some((
                            format!("repaired defect is back: {}", f.what),
                            Case { text: f.input.clone(), nontrivial: true, labels: vec![], out: Err(e) },
                            vec![],
                        ));
                    }
                }
                (Ok(()), false) => {}
            }
        }
    }
    let known_inputs: HashSet<String> = findings.iter().filter(|f| f.known).map(|f| f.input.clone()).collect();
    // 2. generated cases
    let next = AtomicUsize::new(0);
    let evald = AtomicUsize::new(0);
    let first_bad: Mutex<Option<(usize, Vec<u32>, Case)>> = Mutex::new(None);
    let unrepeated = AtomicUsize::new(0);
    let stats: Mutex<(HashSet<u64>, BTreeMap<String, usize>, BTreeMap<usize, (bool, String)>)> = Mutex::new(Default::default());
    let skip_random = violation.is_some();
    if let (false, Some(f)) = (skip_random, p.batch) {
        let mut i = 0;
        while i < n && t0.elapsed().as_secs() < most && first_bad.lock().unwrap().is_none() {
            let m = (n - i).min(p.threads * 100);
            let gs = (i..i + m)
                .map(|i| {
                    let mut s = ctx.seed ^ hash64(p.id) ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
                    G::seeded(splitmix(&mut s))
                })
                .collect();
            for (k, (tape, c)) in f(gs).into_iter().enumerate() {
                evald.fetch_add(1, Ordering::Relaxed);
                if c.out.is_err() && !known_inputs.contains(&c.text) && first_bad.lock().unwrap().is_none() {
                    *first_bad.lock().unwrap() = Some((i + k, tape, c.clone()));
                }
                let mut st = stats.lock().unwrap();
                if c.nontrivial {
                    st.0.insert(hash64(&c.text));
                }
                for l in &c.labels {
                    *st.1.entry(l.clone()).or_insert(0) += 1;
                }
                if (i + k) % (n / 40).max(1) == 0 {
                    st.2.insert(i + k, (c.nontrivial, clip(&c.text, 900)));
                }
            }
            i += m;
        }
    } else if !skip_random {
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for _ in 0..p.threads {
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(1 << 29)
                        .spawn_scoped(sc, || {
                            let slot = Slots::get().join();
                            loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || t0.elapsed().as_secs() > most {
                                break;
                            }
                            if let Some((b, _, _)) = &*first_bad.lock().unwrap() {
                                if i > *b {
                                    break;
                                }
                            }
                            let mut s = ctx.seed ^ hash64(p.id) ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
                            let seed = splitmix(&mut s);
                            let mut g = G::seeded(seed);
                            Slots::get().set(slot, 1, seed);
                            let c = run_case(p, &mut g);
                            Slots::get().set(slot, 0, 0);
                            evald.fetch_add(1, Ordering::Relaxed);
                            if c.out.is_err() && !known_inputs.contains(&c.text) {
                                // what never happens again was this machine's, unless there is more of it
                                let again = (0..20).any(|_| run_case(p, &mut G::replay(&g.tape)).out.is_err());
                                let count = if again { 0 } else { 1 + unrepeated.fetch_add(1, Ordering::Relaxed) };
                                if count > 0 {
                                    eprintln!("{}: case {} failed once and not again ({:?})", p.id, i, c.out);
                                }
                                if again || count >= 3 {
                                    let mut fb = first_bad.lock().unwrap();
                                    if fb.as_ref().map_or(true, |(b, _, _)| i < *b) {
                                        *fb = Some((i, g.tape.clone(), c.clone()));
                                    }
                                }
                            }
                            let mut st = stats.lock().unwrap();
                            if c.nontrivial {
                                st.0.insert(hash64(&c.text));
                            }
                            for l in &c.labels {
                                *st.1.entry(l.clone()).or_insert(0) += 1;
                            }
                            if i % (n / 40).max(1) == 0 {
                                st.2.insert(i, (c.nontrivial, clip(&c.text, 900)));
                            }
                            }
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                let _ = h.join();
            }
        });
    }
    if let Some((i, tape, case)) = first_bad.into_inner().unwrap() {
        let sig = case.out.as_ref().err().unwrap().sig.clone();
        let (t, c) = if sig == "compiler" {
            (tape, case)
        } else if let Some(f) = p.batch {
            shrink_batch(f, tape, case, &sig)
        } else {
            let tape = tape.clone();
            let sig = sig.clone();
            in_big_stack(move || shrink(p, tape, case, &sig, std::env::var("VH_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(6000)))
        };
        violation = Some((format!("generated case {}", i), c, t));
    }
    let (distinct, labels, samples) = stats.into_inner().unwrap();
    let samples: Vec<String> = samples.into_values().filter(|x| x.0).map(|x| x.1).take(6).collect();
    let code = if let Some((origin, c, tape)) = &violation {
        let dir = ctx.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("replay-{}.json", p.id));
        let f = c.out.as_ref().err().cloned().unwrap_or(Fail { sig: "flaky".into(), msg: "did not fail again on replay".into() });
        let v = json!({"property": p.id, "seed": ctx.seed, "origin": origin, "signature": f.sig, "message": f.msg, "case": c.text, "tape": tape});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("FAILED {} ({}): {}\n--- case\n{}\n---", p.id, origin, clip(&f.msg, 4000), clip(&c.text, 4000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    } else {
        0
    };
    let ev = json!({
        "property": p.id, "tier": if ctx.tier == "thorough" { "thorough" } else { "quick" }, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": evald.load(Ordering::Relaxed) + reg_runs,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "generated_cases": evald.load(Ordering::Relaxed),
            "explicit_regression_inputs": reg_runs,
            "known_findings_reproduced": known_hit,
            "labels": labels,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": code,
    });
    let dir = ctx.root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s, {}", p.id, ctx.tier, evald.load(Ordering::Relaxed), distinct.len(), t0.elapsed().as_secs_f64(), if code == 0 { "ok" } else { "VIOLATED" });
    code
}

/// Re-runs a replay file
pub fn replay(p: &'static Prop, v: &Value) -> i32 {
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    if tape.is_empty() && p.text.is_some() && v["origin"].as_str().map_or(false, |s| s.starts_with("repaired")) {
        let s = v["case"].as_str().unwrap().to_string();
        let tf = p.text.unwrap();
        let r = in_big_stack(move || guard("replay", || tf(&s)).and_then(|x| x));
        println!("{:?}", r);
        return if r.is_err() { 1 } else { 0 };
    }
    let c = in_big_stack(move || {
        let mut g = G::replay(&tape);
        match p.batch {
            Some(f) => f(vec![g]).remove(0).1,
            None => run_case(p, &mut g),
        }
    });
    println!("--- case\n{}\n--- {:?}", c.text, c.out);
    if c.out.is_err() {
        1
    } else {
        0
    }
}
