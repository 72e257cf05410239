//! P39: logging and the measuring of time, built with the feature `timekeeper` on
use super::cli::*;
use crate::engine::*;
use crate::gen;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};
use vimwiki::*;

/// the program built with the measuring of time
const TK: &str = "/verif/target/tk/debug/vimwiki";

// ---------------------------------------------------------------- reports

#[derive(Debug, Clone, PartialEq)]
struct Line {
    calls: u64,
    /// nanoseconds
    total: f64,
    average: f64,
}
type Report = Vec<(String, Line)>;

const HEAD: &str = "====== TIMEKEEPER REPORT ======\n";

fn time(s: &str) -> Option<f64> {
    let (n, f) = if let Some(x) = s.strip_suffix("ns") {
        (x, 1.0)
    } else if let Some(x) = s.strip_suffix("μs") {
        (x, 1e3)
    } else if let Some(x) = s.strip_suffix("ms") {
        (x, 1e6)
    } else {
        (s.strip_suffix('s')?, 1e9)
    };
    Some(n.parse::<f64>().ok()? * f)
}

/// `- NAME: (N calls, total T, average A)`
fn line(l: &str) -> Option<(String, Line)> {
    let l = l.strip_prefix("- ")?;
    let i = l.rfind(": (")?;
    let rest = l[i + 3..].strip_suffix(')')?;
    let mut p = rest.split(", ");
    let calls = p.next()?.strip_suffix(" calls")?.parse().ok()?;
    let total = time(p.next()?.strip_prefix("total ")?)?;
    let average = time(p.next()?.strip_prefix("average ")?)?;
    Some((l[..i].to_string(), Line { calls, total, average }))
}

fn report(s: &str) -> Result<Report, Fail> {
    let mut v: Report = vec![];
    let mut end = false;
    for l in s.lines() {
        if l.is_empty() {
            continue;
        }
        if l.chars().all(|c| c == '=') {
            end = true;
            continue;
        }
        match line(l) {
            Some(x) if !end => v.push(x),
            _ => return fail("report", format!("unexpected line {:?} in the report\n{}", l, s)),
        }
    }
    if !end {
        return fail("report", format!("the report does not end\n{}", s));
    }
    let names: BTreeSet<&String> = v.iter().map(|x| &x.0).collect();
    if names.len() != v.len() {
        return fail("report", format!("an entry comes twice\n{}", s));
    }
    for (n, x) in &v {
        let a = x.total / x.calls as f64;
        if x.calls == 0 || (a - x.average).abs() > 1.0 + a * 1e-6 {
            return fail("average", format!("{}: {} ns in {} calls are no average of {} ns", n, x.total, x.calls, x.average));
        }
    }
    if let Some(w) = v.windows(2).find(|w| w[0].1.average < w[1].1.average) {
        return fail("order", format!("{} with the average {} comes before {} with {}", w[0].0, w[0].1.average, w[1].0, w[1].1.average));
    }
    Ok(v)
}

fn counts(r: &Report) -> BTreeMap<String, u64> {
    r.iter().map(|(n, l)| (n.clone(), l.calls)).collect()
}

// ---------------------------------------------------------------- histories of the library

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Enable,
    Disable,
    Toggle,
    Clear,
    Report(bool),
    /// one document after another
    Parse(Vec<usize>),
    /// a thread for each
    Threads(Vec<usize>),
}

#[derive(Serialize, Deserialize)]
struct Job {
    docs: Vec<String>,
    ops: Vec<Op>,
}

fn page(s: &str) -> (String, f64) {
    let a = thread_time();
    let p = Language::from_vimwiki_str(s).parse::<Page>();
    let t = thread_time() - a;
    (match p {
        Ok(p) => crate::norm::page(&p).show(),
        Err(e) => format!("error: {}", e),
    }, t)
}

/// runs the operations given on standard input, in a process of its own since the times are kept in one place
pub fn child() -> i32 {
    let j: Job = serde_json::from_reader(std::io::stdin()).expect("job");
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for (i, op) in j.ops.iter().enumerate() {
                let mut res: Vec<(String, f64)> = vec![];
                match op {
                    Op::Enable => timekeeper::enable(),
                    Op::Disable => timekeeper::disable(),
                    Op::Toggle => timekeeper::toggle_enabled(),
                    Op::Clear => timekeeper::clear(),
                    Op::Report(c) => {
                        println!("@@report {}", i);
                        timekeeper::print_report(*c);
                    }
                    Op::Parse(v) => res.extend(v.iter().map(|d| page(&j.docs[*d]))),
                    Op::Threads(v) => {
                        let hs: Vec<_> = v
                            .iter()
                            .map(|d| {
                                let s = j.docs[*d].clone();
                                std::thread::Builder::new().stack_size(64 << 20).spawn(move || page(&s)).unwrap()
                            })
                            .collect();
                        res.extend(hs.into_iter().map(|h| h.join().unwrap()));
                    }
                }
                println!("@@done {}", serde_json::to_string(&(timekeeper::is_enabled(), res)).unwrap());
            }
        })
        .unwrap()
        .join()
        .unwrap();
    0
}

struct Step {
    report: Option<Report>,
    enabled: bool,
    pages: Vec<(String, f64)>,
}

fn history(docs: &[String], ops: &[Op]) -> Result<Vec<Step>, Fail> {
    let job = serde_json::to_string(&Job { docs: docs.to_vec(), ops: ops.to_vec() }).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            limit(0, 60);
            limit(9, 8 << 30);
            Ok(())
        })
    };
    let mut p = c.arg("watch").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().or_else(|e| fail("harness", e.to_string()))?;
    let mut i = p.stdin.take().unwrap();
    let h = std::thread::spawn(move || {
        let _ = i.write_all(job.as_bytes());
    });
    let o = p.wait_with_output().or_else(|e| fail("harness", e.to_string()))?;
    let _ = h.join();
    if !o.status.success() {
        return fail("crash", format!("ended with {:?}\n{}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let s = String::from_utf8_lossy(&o.stdout).to_string();
    let mut v = vec![];
    let mut cur: Option<String> = None;
    for l in s.split_inclusive('\n') {
        if l.starts_with("@@report ") {
            cur = Some(String::new());
        } else if let Some(x) = l.strip_prefix("@@done ") {
            let (enabled, pages): (bool, Vec<(String, f64)>) = serde_json::from_str(x).or_else(|e| fail("harness", e.to_string()))?;
            let report = match cur.take() {
                None => None,
                Some(t) => match t.strip_prefix(HEAD) {
                    Some(t) => Some(report(t)?),
                    None => return fail("report", format!("the report has no head\n{}", t)),
                },
            };
            v.push(Step { report, enabled, pages });
        } else if let Some(t) = &mut cur {
            t.push_str(l);
        } else {
            return fail("printed", format!("{:?} was printed without being asked for", l));
        }
    }
    if v.len() != ops.len() {
        return fail("harness", format!("{} of {} steps", v.len(), ops.len()));
    }
    Ok(v)
}

fn library(g: &mut G) -> Case {
    let n = g.range(1, 3);
    let docs: Vec<String> = (0..n).map(|_| if g.chance(1, 5) { gen::any_text(g) } else { gen::doc(g, &gen::ALL, 0, 3).src }).collect();
    let ops: Vec<Op> = (0..g.range(2, 10))
        .map(|_| {
            let ds = |g: &mut G| -> Vec<usize> { (0..g.small(1, 4)).map(|_| g.below(n)).collect() };
            match g.freq(&[5, 2, 2, 1, 3, 6, 2]) {
                0 => Op::Enable,
                1 => Op::Disable,
                2 => Op::Toggle,
                3 => Op::Clear,
                4 => Op::Report(g.coin()),
                5 => Op::Parse(ds(g)),
                _ => Op::Threads(ds(g)),
            }
        })
        .chain([Op::Report(true), Op::Report(false)])
        .collect();
    let text = format!("{:?}\n{}", ops, docs.iter().enumerate().map(|(i, d)| format!("--- {}\n{}", i, d)).collect::<Vec<_>>().join("\n"));
    let mut measured = 0;
    let mut unmeasured = 0;
    let out = (|| -> Result<(), Fail> {
        // what one parse of each counts as
        let mut one: Vec<BTreeMap<String, u64>> = vec![];
        for d in 0..n {
            let r = history(&docs, &[Op::Enable, Op::Parse(vec![d]), Op::Report(true)])?;
            one.push(counts(r[2].report.as_ref().unwrap()));
            if one[d].get("Page") != Some(&1) {
                return fail("page", format!("one page that was read is counted as {:?}", one[d].get("Page")));
            }
        }
        let want: Vec<String> = docs.iter().map(|d| page(d).0).collect();
        let mut on = false;
        let mut sum: BTreeMap<String, u64> = BTreeMap::new();
        let mut cpu = 0.0;
        for (i, (op, st)) in ops.iter().zip(history(&docs, &ops)?).enumerate() {
            match op {
                Op::Enable => on = true,
                Op::Disable => on = false,
                Op::Toggle => on = !on,
                Op::Clear => {
                    sum.clear();
                    cpu = 0.0;
                }
                Op::Report(c) => {
                    let r = st.report.as_ref().unwrap();
                    if counts(r) != sum {
                        let d: Vec<String> = sum.keys().chain(counts(r).keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| sum.get(*k) != counts(r).get(*k)).take(5).map(|k| format!("{}: {:?} instead of {:?}", k, counts(r).get(k), sum.get(k))).collect();
                        return fail("counts", format!("step {}: {}", i, d.join("; ")));
                    }
                    // the pages take up nearly all of the time
                    if let Some((_, p)) = r.iter().find(|x| x.0 == "Page") {
                        if p.total < cpu * 1e9 * 0.01 {
                            return fail("time", format!("step {}: {} ns are reported for pages, which took {} ns of processor time alone", i, p.total, cpu * 1e9));
                        }
                    }
                    if *c {
                        sum.clear();
                        cpu = 0.0;
                    }
                }
                Op::Parse(v) | Op::Threads(v) => {
                    for (d, got) in v.iter().zip(&st.pages) {
                        if got.0 != want[*d] {
                            return fail("tree", format!("step {}: page {} is read differently\n--- now\n{}\n--- without measuring\n{}", i, d, got.0, want[*d]));
                        }
                        if on {
                            measured += 1;
                            cpu += got.1;
                            for (k, c) in &one[*d] {
                                *sum.entry(k.clone()).or_default() += c;
                            }
                        } else {
                            unmeasured += 1;
                        }
                    }
                }
            }
            if st.enabled != on {
                return fail("enabled", format!("step {}: {} instead of {}", i, st.enabled, on));
            }
        }
        Ok(())
    })();
    let mut labels = vec!["library".to_string()];
    if ops.iter().any(|o| matches!(o, Op::Threads(v) if v.len() > 1)) {
        labels.push("threads".into());
    }
    Case { text, nontrivial: measured >= 2 && unmeasured >= 1, labels, out }
}

// ---------------------------------------------------------------- the program

fn restore(root: &std::path::Path, s: &Snap) {
    let now = snapshot(root);
    for n in now.keys() {
        if !s.contains_key(n) {
            let _ = std::fs::remove_file(root.join(n));
        }
    }
    for (n, e) in s {
        if now.get(n).map(|x| &x.data) != Some(&e.data) {
            put(root, n, &e.data);
        }
    }
}

fn program(g: &mut G) -> Case {
    let mut s = site(g, 3, false);
    let r = s.r().to_path_buf();
    // no two pages become one file
    let mut seen = BTreeSet::new();
    let all: Vec<(usize, String)> = (0..s.dirs.len()).flat_map(|w| s.pages(w).into_iter().map(move |f| (w, f))).collect();
    for (w, f) in all {
        if !seen.insert(s.output(w, &f)) {
            std::fs::remove_file(r.join(&f)).unwrap();
            s.files.remove(&f);
        }
    }
    if g.chance(1, 8) && !s.files.is_empty() {
        let k = g.below(s.files.len());
        let f = s.files.keys().nth(k).unwrap().clone();
        let d = b"a\xff\n".to_vec();
        put(&r, &f, &d);
        s.files.insert(f, d);
    }
    let kind = g.below(3);
    let mut args: Vec<String> = vec!["--cache".into(), r.join("cache").to_string_lossy().into()];
    let no_cache = g.chance(1, 3);
    if no_cache {
        args.push("--no-cache".into());
    }
    let mut written: Vec<String> = vec![];
    // the pages read, and how many of them are different texts
    let mut pages: Vec<String> = vec![];
    let mut stdout = true;
    match kind {
        0 | 1 => {
            args.extend(["--config".into(), r.join("html.toml").to_string_lossy().into()]);
            pages = (0..s.dirs.len()).flat_map(|w| s.pages(w)).collect();
            if kind == 0 {
                args.push("convert".into());
                stdout = g.chance(1, 3);
                if stdout {
                    args.push("--stdout".into());
                } else {
                    written = (0..s.dirs.len()).flat_map(|w| s.pages(w).into_iter().map(|f| s.output(w, &f)).collect::<Vec<_>>()).collect();
                }
            } else {
                args.push("inspect".into());
                args.push("$".into());
            }
        }
        _ => {
            args.push("format".into());
            stdout = g.chance(1, 3);
            if !stdout {
                args.push("--inline".into());
            }
            for f in s.files.keys() {
                if g.chance(2, 3) && pages.len() < 4 {
                    pages.push(f.clone());
                    args.push(f.clone());
                }
            }
            if g.chance(1, 8) {
                args.push("w/none.wiki".into());
            }
            if pages.is_empty() {
                std::fs::create_dir_all(r.join("empty")).unwrap();
                args.push("empty".into());
            }
            if !stdout {
                written = pages.clone();
            }
        }
    }
    // how it is watched
    let mut extra: Vec<String> = vec![];
    let mut verbose = 0;
    let quiet = g.chance(1, 3);
    if quiet {
        extra.push(g.s(&["-q", "--quiet"]).into());
    }
    match g.below(5) {
        0 => {}
        1 => {
            verbose = 1;
            extra.push("--verbose".into());
        }
        _ => {
            verbose = g.range(1, 5);
            extra.push(format!("-{}", "v".repeat(verbose)));
        }
    }
    if g.chance(1, 3) {
        extra.extend([g.s(&["-t", "--timestamp"]).to_string(), g.s(&["sec", "ms", "ns", "none"]).to_string()]);
    }
    let bin = if g.chance(1, 3) { BIN } else { TK };
    let measure = bin == TK && g.chance(3, 4);
    if measure {
        extra.push("--timekeeper".into());
    }
    let mut watched = args.clone();
    let before_sub = g.coin();
    for x in extra.iter().rev() {
        if before_sub {
            watched.insert(0, x.clone());
        } else {
            // after the subcommand, which comes before any path
            let i = watched.iter().position(|a| matches!(a.as_str(), "convert" | "inspect" | "format")).unwrap();
            watched.insert(i + 1, x.clone());
        }
    }
    let again = g.chance(1, 3);
    let text = s.hide(&format!("{:?}{}\n{:?}\n{}", watched, if again { " (cached)" } else { "" }, if bin == BIN { "as it is" } else { "with measuring" }, s.text()));
    let out = (|| -> Result<(), Fail> {
        let mut start = snapshot(&r);
        if again {
            run_bin(BIN, &r, &args)?;
            let caches = snapshot(&r);
            for (n, e) in caches {
                if n.starts_with("cache/") {
                    start.insert(n, e);
                }
            }
            restore(&r, &start);
        }
        let a = run_bin(BIN, &r, &args)?;
        let sa = snapshot(&r);
        restore(&r, &start);
        let b = run_bin(bin, &r, &watched)?;
        let sb = snapshot(&r);
        if a.code != b.code {
            return fail("status", format!("ended with {} instead of {}\n{}", b.code, a.code, b.stderr));
        }
        let ok = a.code == 0;
        // pages after one that fails may be done or not
        let names: BTreeSet<&String> = sa.keys().chain(sb.keys()).collect();
        for n in names {
            let (x, y) = (sa.get(n), sb.get(n));
            let same = if n.starts_with("cache/") { !ok || x.is_some() == y.is_some() } else { x.map(|e| (&e.data, e.mode)) == y.map(|e| (&e.data, e.mode)) || (!ok && written.contains(n)) };
            if !same {
                return fail("files", format!("{} is different when watched", n));
            }
        }
        let (mut said, mut rep) = (b.stdout.clone(), None);
        if measure {
            if let Some(i) = b.stdout.rfind(HEAD) {
                rep = Some(report(&b.stdout[i + HEAD.len()..])?);
                said = b.stdout[..i].to_string();
            } else if ok {
                return fail("report", "there is no report");
            }
        }
        let same = match kind {
            1 => match (serde_json::from_str::<Value>(&said), serde_json::from_str::<Value>(&a.stdout)) {
                (Ok(x), Ok(y)) => sorted(&x) == sorted(&y),
                (x, y) => x.is_err() && y.is_err(),
            },
            _ => lines(&said) == lines(&a.stdout) || !ok,
        };
        if !same {
            return fail("stdout", format!("--- watched\n{}\n--- otherwise\n{}", said, a.stdout));
        }
        if quiet && !b.stderr.is_empty() {
            return fail("quiet", b.stderr.clone());
        }
        if !ok && !quiet && (a.stderr.trim().is_empty() || b.stderr.trim().is_empty()) {
            return fail("silent", "it failed without a message");
        }
        if ok && !quiet && verbose >= 2 {
            for f in &written {
                let p = format!("{:?}", r.join(f));
                if !b.stderr.lines().any(|l| l.contains(&p)) {
                    return fail("log", format!("{} was written, which is not reported\n{}", p, b.stderr));
                }
            }
        }
        if let (Some(rep), true) = (rep, ok) {
            let texts: BTreeSet<&Vec<u8>> = pages.iter().map(|f| &start[f].data).collect();
            let n = counts(&rep).get("Page").copied().unwrap_or(0) as usize;
            let cached = again && !no_cache && kind != 2;
            let want = if cached { (0, 0) } else { (texts.len(), pages.len()) };
            if n < want.0 || n > want.1 {
                return fail("counts", format!("{} pages are reported, {} with {} texts were read", n, if cached { 0 } else { pages.len() }, texts.len()));
            }
        }
        Ok(())
    })();
    let mut labels = vec![["convert", "inspect", "format"][kind].to_string()];
    if quiet {
        labels.push("quiet".into());
    }
    if measure {
        labels.push("measured".into());
    }
    if verbose > 0 {
        labels.push(format!("verbosity {}", verbose));
    }
    let _ = stdout;
    Case { text, nontrivial: !pages.is_empty() && !extra.is_empty(), labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

fn p39(g: &mut G) -> Case {
    if g.coin() {
        library(g)
    } else {
        program(g)
    }
}

pub static PROPS: &[Prop] = &[Prop { id: "P39", rule: "a page is read while watched and, in histories, also while not", quick: 1500, thorough: 40000, case: p39, text: None, assumptions: &["no two pages are converted to one file"], threads: 8, batch: None }];
