//! P40: commands that cannot do their work, run on scratch directories
use super::cli::*;
use crate::engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
use vimwiki::*;

/// when something goes wrong, by the status that tells so
const SETTINGS: &[&str] = &["no configuration", "no toml", "wrong type", "relative wiki", "no such path"];
const CACHE: &[&str] = &["cache is a file", "cache is below a file"];

struct Fault {
    what: &'static str,
    /// file or directory that is in the way
    at: Option<String>,
}

/// files after which nothing else may be different
type Open = BTreeMap<String, Vec<Option<Vec<u8>>>>;

fn p40(g: &mut G) -> Case {
    let mut s = site(g, 3, false);
    let r = s.r().to_path_buf();
    let abs = |x: &str| r.join(x).to_string_lossy().to_string();
    let kind = ["convert", "inspect", "format", "serve"][g.freq(&[6, 4, 4, 1])];
    let format = kind == "format";
    let fcfg = super::format::config(g);
    put(&r, "format.toml", toml::to_string(&fcfg).unwrap().as_bytes());
    let include = if g.chance(1, 3) && !format { includes(g, &s) } else { vec![] };
    let ws = picked(&s, &include);
    let no_cache = g.chance(1, 3);
    let print = if kind == "serve" { false } else { g.chance(1, 3) };
    let css = kind == "convert" && g.chance(1, 3);
    // what is formatted: directories of wikis
    let mut given: Vec<usize> = vec![];
    if format {
        for i in 0..s.dirs.len() {
            if g.chance(2, 3) {
                given.push(i);
                std::fs::create_dir_all(r.join(&s.dirs[i])).unwrap();
            }
        }
    }
    // something goes wrong
    let mut faults: Vec<Fault> = vec![];
    let mut under = Under::default();
    let hurt = g.freq(&[2, 12, 3, 4, 4, 2]);
    for _ in 0..if hurt == 0 { 0 } else if hurt == 2 { 2 } else if hurt == 1 { 1 } else { g.freq(&[6, 1]) } {
        let w = g.below(s.dirs.len());
        let mut of = vec!["no configuration", "no toml", "wrong type", "no such path", "not utf-8", "usage"];
        if !format {
            of.extend(["relative wiki", "cache is a file", "cache is below a file"]);
        }
        if kind == "convert" {
            of.extend(["output is a directory", "output root is a file", "unknown wiki", "stylesheet is a directory"]);
        }
        if kind == "inspect" {
            of.extend(["no json path", "output is a directory", "no directory of output"]);
        }
        let what = g.s(&of);
        if faults.iter().any(|f| f.what == what) {
            continue;
        }
        let ext = s.cfg.wikis[w].ext.clone();
        let mut at = None;
        match what {
            "not utf-8" => {
                let f = format!("{}/{}{}.{}", s.dirs[w], g.s(&["", "sub/"]), g.s(&["0bad", "zbad"]), ext);
                let mut d = page_text(g).into_bytes();
                d.push(0xff);
                if add(&mut s, f.clone(), d) {
                    at = Some(f);
                }
            }
            "unknown wiki" => {
                let f = format!("{}/{}.{}", s.dirs[w], g.s(&["0far", "zfar"]), ext);
                if add(&mut s, f.clone(), format!("text [[{}:page]]\n", g.s(&["wiki99", "wn.nobody at all"])).into_bytes()) {
                    at = Some(f);
                }
            }
            "cache is a file" | "cache is below a file" => {
                put(&r, "cache", b"a file\n");
                at = Some("cache".into());
            }
            "output is a directory" if kind == "convert" => {
                let ps: Vec<String> = s.pages(w);
                if !ps.is_empty() {
                    let o = s.output(w, &ps[g.below(ps.len())]);
                    // below what is a page already, it cannot be made
                    if std::fs::create_dir_all(r.join(&o)).is_ok() {
                        at = Some(o);
                    }
                }
            }
            "output is a directory" => {
                std::fs::create_dir_all(r.join("o.json")).unwrap();
                at = Some("o.json".into());
            }
            "output root is a file" => {
                let o = s.outs[w].clone();
                if !r.join(&o).exists() {
                    put(&r, &o, b"a file\n");
                    at = Some(o);
                }
            }
            "stylesheet is a directory" => {
                let o = format!("{}/style.css", s.outs[w]);
                if std::fs::create_dir_all(r.join(&o)).is_ok() {
                    at = Some(o);
                }
            }
            _ => at = Some(String::new()),
        }
        if at.is_some() {
            faults.push(Fault { what, at });
        }
    }
    match hurt {
        3 => under.full = true,
        4 => under.most = Some((g.pick(&[0u64, 1, 2, 10, 100, 1000, 5000]) + g.below(50) as u64, g.coin())),
        5 => under.kill = Some(Duration::from_micros(g.below(12_000) as u64)),
        _ => {}
    }
    let has = |x: &str| faults.iter().any(|f| f.what == x);
    let at = |x: &str| faults.iter().find(|f| f.what == x).and_then(|f| f.at.clone());
    // the command
    let build = |broken: bool| -> Vec<String> {
        let has = |x: &str| broken && has(x);
        let mut a: Vec<String> = vec![];
        for i in &include {
            a.extend(["--include".into(), i.clone()]);
        }
        let cfg = if has("no configuration") {
            "nothing.toml"
        } else if broken && (has("no toml") || has("wrong type") || has("relative wiki")) {
            "broken.toml"
        } else if format {
            "format.toml"
        } else {
            "html.toml"
        };
        a.extend(["--config".into(), abs(cfg), "--cache".into(), abs(if has("cache is below a file") { "cache/in/it" } else { "cache" })]);
        if no_cache {
            a.push("--no-cache".into());
        }
        if has("usage") {
            a.push("--no-such-option".into());
        }
        a.push(kind.into());
        match kind {
            "convert" => {
                if print {
                    a.push("--stdout".into());
                }
                if css {
                    a.push("--include-vimwiki-css".into());
                }
            }
            "inspect" => {
                if !print {
                    a.extend(["--output".into(), abs(if has("no directory of output") { "none/o.json" } else { "o.json" })]);
                }
            }
            "format" => {
                if !print {
                    a.push("--inline".into());
                }
                for e in ["wiki", "md", "txt"] {
                    a.extend(["--ext".into(), e.into()]);
                }
            }
            _ => {}
        }
        a.push("--".into());
        if kind == "inspect" {
            a.push(if has("no json path") { "$[".into() } else { "$".into() });
        }
        for w in &given {
            a.push(abs(&s.dirs[*w]));
        }
        if has("no such path") {
            a.push(abs("nowhere"));
        }
        a
    };
    if has("no toml") {
        put(&r, "broken.toml", b"[[wikis]\npath = \n");
    } else if has("wrong type") {
        put(&r, "broken.toml", if format { b"[table]\nno_padding = 3\n" } else { b"wikis = 3\n" });
    } else if has("relative wiki") {
        put(&r, "broken.toml", b"[[wikis]]\npath = \"here/below\"\n");
    }
    // the result of an earlier run
    if kind == "inspect" && !print && !has("output is a directory") && g.coin() {
        put(&r, "o.json", b"[\"earlier\"]\n");
    }
    let args = build(true);
    let args2 = build(false);
    let mut what: Vec<String> = faults.iter().map(|f| f.what.to_string()).collect();
    if under.full {
        what.push("nothing can be printed".into());
    }
    if let Some((_, lives)) = under.most {
        what.push(format!("disk full{}", if lives { "" } else { " and killed" }));
    }
    if under.kill.is_some() {
        what.push("killed".into());
    }
    let text = s.hide(&format!("{:?}\n{:?} {:?} {:?}\n{}", args, what, under.most, under.kill, s.text()));
    // what is read and written
    let mut formatted_files: Vec<String> = vec![];
    for w in &given {
        for f in s.files.keys().filter(|f| f.starts_with(&format!("{}/", s.dirs[*w]))) {
            let name = f.rsplit('/').next().unwrap();
            if ["wiki", "md", "txt"].iter().any(|e| name.rfind('.').map_or(false, |i| i > 0 && &name[i + 1..] == *e)) {
                formatted_files.push(f.clone());
            }
        }
    }
    let bad_page = at("not utf-8");
    let out = (|| -> Result<(), Fail> {
        let before = snapshot(&r);
        let conv = conversion(&s, &ws);
        let reads_bad = bad_page.as_ref().map_or(false, |f| if format { formatted_files.contains(f) } else { ws.iter().any(|w| s.pages(*w).contains(f)) });
        let data: Option<Value> = if kind == "inspect" { tree(&s, &ws) } else { None };
        // the status
        let mut want: i32 = 0;
        let stop = |want: &mut i32, n: i32, yes: bool| {
            if *want == 0 && yes {
                *want = n;
            }
        };
        stop(&mut want, 1, has("usage"));
        for f in SETTINGS {
            stop(&mut want, 1, has(f) && (*f != "no such path" || !format));
        }
        for f in CACHE {
            stop(&mut want, 2, has(f) && !no_cache);
        }
        stop(&mut want, 2, reads_bad && !format);
        let early = want != 0;
        let selected = |w: usize| ws.contains(&w);
        let writes_out = kind == "convert" && !print;
        stop(&mut want, 3, kind == "convert" && !conv.ok);
        stop(&mut want, 3, writes_out && at("output is a directory").map_or(false, |o| conv.out.contains_key(&o)));
        stop(
            &mut want,
            3,
            writes_out && at("output root is a file").map_or(false, |o| (0..s.dirs.len()).any(|w| s.outs[w] == o && selected(w) && (css || !s.pages(w).is_empty()))),
        );
        stop(&mut want, 3, writes_out && css && at("stylesheet is a directory").map_or(false, |o| (0..s.dirs.len()).any(|w| o == format!("{}/style.css", s.outs[w]) && selected(w))));
        stop(&mut want, 3, kind == "inspect" && (has("no json path") || (!print && (has("output is a directory") || has("no directory of output")))));
        stop(&mut want, 3, format && (has("no such path") || reads_bad));
        let prints = print && match kind {
            "convert" => !conv.parts.is_empty(),
            "inspect" => true,
            _ => !formatted_files.is_empty(),
        };
        stop(&mut want, 3, under.full && prints);
        // files that cannot be written as long as they are
        let n = under.most.map_or(u64::MAX, |m| m.0);
        let long = |d: &Vec<u8>| d.len() as u64 > n;
        let mut either = under.kill.is_some();
        if let Some((_, lives)) = under.most {
            if !lives {
                // may also be killed while writing the cache
                either = true;
            }
            let too_long = match kind {
                "convert" if !print => {
                    either |= css;
                    conv.out.values().flatten().any(long)
                }
                "inspect" if !print => data.as_ref().map_or(false, |d| serde_json::to_vec_pretty(&json!([d])).unwrap().len() as u64 > n),
                "format" if !print => formatted_files.iter().any(|f| formatted(&s.files[f], &fcfg).as_ref().map_or(false, long)),
                _ => false,
            };
            stop(&mut want, 3, too_long);
        }
        let (o, signal) = run_under(BIN, &r, &args, &under)?;
        if o.code == 101 || o.stderr.contains("panicked") {
            return fail("panic", format!("{:?}\n{}", what, o.stderr));
        }
        match signal {
            Some(9) if under.kill.is_some() => {}
            Some(25) if under.most.map_or(false, |m| !m.1) => {}
            Some(x) => return fail("signal", format!("ended by signal {}\n{}", x, o.stderr)),
            None if either && o.code >= 0 && o.code <= 3 => {}
            None if o.code == want => {}
            None => return fail("status", format!("{:?} ended with {} instead of {}\n{}", what, o.code, want, o.stderr)),
        }
        let ended = signal.is_some();
        if !ended && o.code != 0 && o.stderr.trim().is_empty() {
            return fail("silent", format!("{:?} ended with {} and no message", what, o.code));
        }
        if early && !o.stdout.is_empty() {
            return fail("stdout", format!("printed before it failed\n{}", o.stdout));
        }
        if (no_cache || format) && !before.keys().any(|k| k == "cache" || k.starts_with("cache/")) && r.join("cache").exists() {
            return fail("cache", "a place for the cache was made although none is used");
        }
        // what may be there now
        let after = snapshot(&r);
        let mut open: Open = BTreeMap::new();
        let same = |n: &str| before.get(n).map(|e| e.data.clone());
        // a part of what was to be written
        let part = |d: &Vec<u8>, n: &str| -> Option<Vec<u8>> {
            let now = after.get(n)?;
            let cut = under.kill.is_some() || (d.len() as u64 > under.most?.0 && now.data.len() as u64 <= under.most?.0);
            if cut && d.starts_with(&now.data) {
                Some(now.data.clone())
            } else {
                None
            }
        };
        if !early && writes_out {
            let conv2 = conversion(&s, &ws);
            for (f, v) in conv.out.iter().chain(conv2.out.iter()) {
                let mut x: Vec<Option<Vec<u8>>> = v.iter().cloned().map(Some).collect();
                if want != 0 || ended {
                    x.push(same(f));
                    x.extend(v.iter().filter_map(|d| part(d, f)).map(Some));
                }
                open.entry(f.clone()).or_default().extend(x);
            }
        }
        if !early && format && !print {
            for f in &formatted_files {
                let mut x = vec![];
                if let Some(d) = formatted(&s.files[f], &fcfg) {
                    x.push(Some(d));
                }
                if want != 0 || ended {
                    x.push(same(f));
                }
                open.insert(f.clone(), x);
            }
        }
        let touched: BTreeSet<String> = open.keys().cloned().collect();
        compare(&before, &after, &|n| {
            let now = || Some(vec![after.get(n).map(|e| e.data.clone())]);
            if n.starts_with("cache/") && !no_cache {
                return now();
            }
            if !early && kind == "inspect" && !print && n == "o.json" && !has("no json path") && !has("output is a directory") && !has("no directory of output") {
                return now();
            }
            if !early && writes_out && css && is_css(n, &s, &ws) {
                return now();
            }
            // what a killed program was about to put in place
            if ended && format && !before.contains_key(n) {
                return now();
            }
            if touched.contains(n) {
                return open.get(n).cloned();
            }
            None
        })
        .or_else(|e| fail(&e.sig, format!("{:?}, ended with {}: {}\n{}", what, o.code, e.msg, o.stderr)))?;
        if kind == "inspect" && !print && want == 0 && !ended && !either {
            let got: Value = serde_json::from_slice(&after.get("o.json").map(|e| e.data.clone()).unwrap_or_default()).or_else(|e| fail("json", e.to_string()))?;
            if sorted(&got) != sorted(&json!([data])) {
                return fail("tree", first_diff(&sorted(&got), &sorted(&json!([data])), "$"));
            }
        }
        Ok(())
    })();
    // everything is put right
    let out = out.and_then(|_| {
        for f in &faults {
            if let Some(p) = f.at.as_ref().filter(|p| !p.is_empty()) {
                let p2 = r.join(p);
                if p2.is_dir() {
                    std::fs::remove_dir_all(&p2).unwrap();
                } else if p2.exists() {
                    std::fs::remove_file(&p2).unwrap();
                }
                s.files.remove(p);
            }
        }
        let args = args2;
        let again = (|| -> Result<(), Fail> {
            match kind {
                "convert" => converted(&s, &ws, &args, print, css, "cache/"),
                "inspect" => {
                    let (o, _) = run_under(BIN, &r, &args, &Under::default())?;
                    let got = if print { o.stdout.clone().into_bytes() } else { std::fs::read(r.join("o.json")).unwrap_or_default() };
                    let got: Value = serde_json::from_slice(&got).or_else(|e| fail("json", format!("{}\n{}", e, o.stderr)))?;
                    let e = sorted(&json!([tree(&s, &ws)]));
                    if o.code != 0 || sorted(&got) != e {
                        return fail("tree", format!("ended with {}: {}", o.code, first_diff(&sorted(&got), &e, "$")));
                    }
                    Ok(())
                }
                _ => {
                    let before = snapshot(&r);
                    let o = run_bin(BIN, &r, &args)?;
                    if o.code != 0 {
                        return fail("status", format!("ended with {}\n{}", o.code, o.stderr));
                    }
                    compare(&before, &snapshot(&r), &|n| {
                        if n.starts_with("cache/") && !format {
                            return Some(vec![snapshot(&r).get(n).map(|e| e.data.clone())]);
                        }
                        if print || !formatted_files.contains(&n.to_string()) {
                            return None;
                        }
                        before.get(n).map(|e| vec![formatted(&e.data, &fcfg)])
                    })
                }
            }
        })();
        again.or_else(|e| fail(&format!("later-{}", e.sig), format!("after {:?}: {}", what, e.msg)))
    });
    let mut labels: Vec<String> = vec![kind.to_string()];
    labels.extend(what.iter().cloned());
    Case { text, nontrivial: !what.is_empty() && !s.files.is_empty(), labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

// ---------------------------------------------------------------- P41

struct Run {
    kind: &'static str,
    ws: Vec<usize>,
    args: Vec<String>,
    print: bool,
    css: bool,
    wait: Duration,
    kill: Option<Duration>,
    cached: bool,
}

fn p41(g: &mut G) -> Case {
    let mut s = site(g, 3, false);
    for _ in 0..3 {
        let c = conversion(&s, &(0..s.dirs.len()).collect::<Vec<_>>());
        if c.ok && !s.files.is_empty() && !c.out.values().any(|v| v.len() > 1) {
            break;
        }
        s = site(g, 3, false);
    }
    let r = s.r().to_path_buf();
    let abs = |x: &str| r.join(x).to_string_lossy().to_string();
    // pages that can be written to the cache in several ways
    for i in 0..g.small(0, 3) {
        let w = g.below(s.dirs.len());
        let (rows, cols) = (g.range(2, 12), g.range(2, 9));
        let mut t = "n\n".repeat(*g.pick(&[1usize, 60, 500]));
        for y in 0..rows {
            for x in 0..cols {
                t.push('|');
                t.push((b'a' + ((x * 7 + y * 3) % 26) as u8) as char);
            }
            t.push_str("|\n");
        }
        let f = format!("{}/table{}.{}", s.dirs[w], i, s.cfg.wikis[w].ext);
        add(&mut s, f, t.into_bytes());
    }
    // the cache is empty, full, or has what does not belong
    let warm = g.freq(&[4, 1, 2, 1]);
    let mut runs: Vec<Run> = vec![];
    for i in 0..g.range(2, 5) {
        let include = if g.chance(1, 3) { includes(g, &s) } else { vec![] };
        let kind = g.s(&["convert", "inspect", "inspect"]);
        let print = kind == "convert" && g.coin();
        let css = kind == "convert" && g.chance(1, 4);
        let cached = g.chance(7, 8);
        let mut a: Vec<String> = vec![];
        for x in &include {
            a.extend(["--include".into(), x.clone()]);
        }
        a.extend(["--config".into(), abs("html.toml"), "--cache".into(), abs("cache")]);
        if !cached {
            a.push("--no-cache".into());
        }
        if g.chance(1, 3) {
            a.push("--no-prune-cache".into());
        }
        a.push(kind.into());
        if print {
            a.push("--stdout".into());
        }
        if css {
            a.push("--include-vimwiki-css".into());
        }
        if kind == "inspect" && !print {
            a.extend(["--".into(), "$".into()]);
        }
        let wait = Duration::from_micros(if g.chance(2, 3) { 0 } else { g.below(6000) as u64 });
        // never all of them
        let kill = if i > 1 && g.chance(1, 5) { Some(Duration::from_micros(g.below(12_000) as u64)) } else { None };
        runs.push(Run { kind, ws: picked(&s, &include), args: a, print, css, wait, kill, cached });
    }
    let all: Vec<usize> = (0..s.dirs.len()).collect();
    let whole = conversion(&s, &all);
    let text = s.hide(&format!("{}\ncache {}\n{}", runs.iter().map(|r| format!("{:?} after {:?}{}\n", r.args, r.wait, r.kill.map_or(String::new(), |k| format!(", killed after {:?}", k)))).collect::<String>(), warm, s.text()));
    let mut labels: Vec<String> = runs.iter().map(|r| if r.kill.is_some() { format!("{} killed", r.kind) } else { r.kind.to_string() }).collect();
    labels.push(["empty cache", "full cache", "damaged cache", "old cache"][warm].into());
    let sharing = runs.iter().filter(|r| r.cached && !r.ws.is_empty()).count();
    let same_out = whole.out.values().any(|v| v.len() > 1);
    let nontrivial = sharing > 1 && !s.files.is_empty() && whole.ok && !same_out;
    if !whole.ok || same_out {
        return Case { text, nontrivial, labels, out: Ok(()) };
    }
    let out = (|| -> Result<(), Fail> {
        let last = vec!["--config".to_string(), abs("html.toml"), "--cache".into(), abs("cache"), "inspect".into(), "--".into(), "$".into()];
        if warm > 0 {
            inspected(&s, &all, &last)?;
        }
        if warm == 2 {
            for f in s.files.values() {
                let _ = std::fs::write(r.join("cache").join(sha1(f)), &b"[[\"half"[..]);
            }
        }
        if warm == 3 {
            for i in 0..60u32 {
                std::fs::write(r.join("cache").join(sha1(&i.to_le_bytes())), b"[]").unwrap();
            }
        }
        let before = snapshot(&r);
        let got: Vec<Result<(Out, Option<i32>), Fail>> = std::thread::scope(|t| {
            let hs: Vec<_> = runs
                .iter()
                .map(|run| {
                    let r = r.clone();
                    t.spawn(move || {
                        std::thread::sleep(run.wait);
                        run_under(BIN, &r, &run.args, &Under { kill: run.kill, ..Default::default() })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let conv2 = conversion(&s, &all);
        let after = snapshot(&r);
        let mut killed = false;
        for (run, o) in runs.iter().zip(got) {
            let (o, signal) = o?;
            if signal == Some(9) && run.kill.is_some() {
                killed = true;
                continue;
            }
            if signal.is_some() || o.code != 0 || o.stderr.contains("panicked") {
                return fail("status", format!("{:?} ended with {} {:?}\n{}", run.args, o.code, signal, o.stderr));
            }
            let conv = conversion(&s, &run.ws);
            match run.kind {
                "inspect" => {
                    let got: Value = serde_json::from_str(&o.stdout).or_else(|e| fail("json", format!("{}\n{}", e, o.stdout)))?;
                    let e = sorted(&json!([tree(&s, &run.ws)]));
                    if sorted(&got) != e {
                        return fail("tree", first_diff(&sorted(&got), &e, "$"));
                    }
                }
                _ if run.print => printed(&o.stdout, &conv.parts)?,
                _ => {
                    if let Some(n) = conv.out.keys().find(|n| !after.contains_key(*n)) {
                        return fail("missing", format!("{:?} did not write {}", run.args, n));
                    }
                }
            }
        }
        compare(&before, &after, &|n| {
            let now = || Some(vec![after.get(n).map(|e| e.data.clone())]);
            if n.starts_with("cache/") || runs.iter().any(|r| r.css && is_css(n, &s, &r.ws)) {
                return now();
            }
            if !runs.iter().any(|r| r.kind == "convert" && !r.print && r.ws.iter().any(|w| n.starts_with(&format!("{}/", s.outs[*w])))) {
                return None;
            }
            let h = whole.out.get(n)?;
            let mut v: Vec<Option<Vec<u8>>> = h.iter().chain(conv2.out.get(n).into_iter().flatten()).cloned().map(Some).collect();
            let asked = runs.iter().any(|r| r.kill.is_none() && r.kind == "convert" && !r.print && conversion(&s, &r.ws).out.contains_key(n));
            if !asked {
                v.push(before.get(n).map(|e| e.data.clone()));
            }
            if killed {
                if let Some(d) = after.get(n).map(|e| e.data.clone()).filter(|d| h.iter().any(|h| h.starts_with(d))) {
                    v.push(Some(d));
                }
            }
            Some(v)
        })?;
        // and the cache they left is good
        inspected(&s, &all, &last).map(|_| ()).or_else(|e| fail(&format!("later-{}", e.sig), e.msg))
    })();
    Case { text, nontrivial, labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

pub static PROPS: &[Prop] = &[Prop {
    id: "P40",
    rule: "something goes wrong and there is a page",
    quick: 2500,
    thorough: 40_000,
    case: p40,
    text: None,
    assumptions: &[
        "commands: convert, inspect, format and serve of the vimwiki program, over one to three wikis in a scratch directory, with and without --no-cache, --include, standard output",
        "what goes wrong: no or broken configuration, wrong usage, a path that does not exist, a page that is not UTF-8, a link to an unknown wiki, a cache, output or stylesheet path that is taken, a wrong JSON path, standard output that takes nothing (/dev/full), a limit on the size of files (as a full disk) and the program killed at a size or a time",
        "which outputs were written before a failure is left open; each is as before, as it should be, or (full disk, killed) the beginning of what it should be",
    ],
    threads: 8,
    batch: None,
}, Prop {
    id: "P41",
    rule: "at least two of the commands use the cache for a page",
    quick: 1000,
    thorough: 25_000,
    case: p41,
    text: None,
    assumptions: &[
        "two to five convert and inspect commands started together or up to 6 ms apart over one to three wikis and one cache (empty, filled or damaged), some of them killed",
        "the pages stay as they are meanwhile; the schedule is the machine's",
        "no two pages to one output file",
    ],
    threads: 4,
    batch: None,
}];
