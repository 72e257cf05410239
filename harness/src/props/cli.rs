//! P25–P28: the command line program, run on scratch directories
use super::html::Scratch;
use crate::engine::*;
use crate::gen;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::process::{Command, Stdio};
use vimwiki::*;

pub const BIN: &str = "/verif/target/cli/debug/vimwiki";

pub struct Out {
    pub code: i32,
    pub stdout: String,
    pub stderr: String,
}

/// runs the program with nothing but scratch directories around it
fn run(root: &Path, args: &[String]) -> Result<Out, Fail> {
    run_bin(BIN, root, args)
}

/// no program may be started while another is being written: the new process would hold the
/// file open for a moment, and a file that is open for writing cannot be run
static WRITING: std::sync::RwLock<()> = std::sync::RwLock::new(());

/// what a program has to put up with
#[derive(Default, Clone)]
pub struct Under {
    /// nothing can be printed
    pub full: bool,
    /// files cannot get longer than this; the second says whether the program survives the attempt
    pub most: Option<(u64, bool)>,
    /// killed after this time
    pub kill: Option<std::time::Duration>,
}

extern "C" {
    fn signal(n: i32, to: usize) -> usize;
}

pub fn run_bin(bin: &str, root: &Path, args: &[String]) -> Result<Out, Fail> {
    let (out, _) = run_under(bin, root, args, &Under::default())?;
    if out.code == -1 || out.code > 3 || out.stderr.contains("panicked") {
        return fail("crash", format!("{:?} ended with {} and\n{}", args, out.code, out.stderr));
    }
    Ok(out)
}

/// also gives the signal that ended it
pub fn run_under(bin: &str, root: &Path, args: &[String], under: &Under) -> Result<(Out, Option<i32>), Fail> {
    std::fs::create_dir_all(root.join("home")).unwrap();
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut c = Command::new(bin);
    let most = under.most;
    // a run that does not come to an end is a crash
    unsafe {
        c.pre_exec(move || {
            limit(0, 30);
            limit(9, 8 << 30);
            limit(4, 0);
            if let Some((n, survives)) = most {
                limit(1, n);
                if survives {
                    signal(25, 1);
                }
            }
            Ok(())
        })
    };
    c.args(args).env_clear().env("HOME", root.join("home")).env("PATH", root.join("programs")).current_dir(root);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if under.full {
        c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
    }
    let child = {
        let _starting = WRITING.read().unwrap();
        c.spawn()
    };
    let o = child
        .and_then(|mut c| {
            if let Some(t) = under.kill {
                std::thread::sleep(t);
                let _ = c.kill();
            }
            c.wait_with_output()
        })
        .or_else(|e| fail("harness", format!("cannot run {}: {}", bin, e)))?;
    let out = Out { code: o.status.code().unwrap_or(-1), stdout: String::from_utf8_lossy(&o.stdout).into(), stderr: String::from_utf8_lossy(&o.stderr).into() };
    Ok((out, o.status.signal()))
}

#[derive(Clone, PartialEq, Eq)]
pub struct Entry {
    pub mode: u32,
    pub data: Vec<u8>,
}
pub type Snap = BTreeMap<String, Entry>;

pub fn snapshot(root: &Path) -> Snap {
    fn go(d: &Path, rel: &str, m: &mut Snap) {
        let mut es: Vec<_> = std::fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).collect()).unwrap_or_default();
        es.sort_by_key(|e: &std::fs::DirEntry| e.file_name());
        for e in es {
            let n = format!("{}{}", rel, e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                go(&e.path(), &format!("{}/", n), m);
            } else if t.is_file() {
                m.insert(n, Entry { mode: e.metadata().unwrap().permissions().mode(), data: std::fs::read(e.path()).unwrap() });
            }
        }
    }
    let mut m = Snap::new();
    go(root, "", &mut m);
    m
}

fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => format!("{:?}", b),
    }
}

/// what changed, apart from the names for which `expected` gives the acceptable contents
pub fn compare(before: &Snap, after: &Snap, expected: &dyn Fn(&str) -> Option<Vec<Option<Vec<u8>>>>) -> Result<(), Fail> {
    let names: BTreeSet<&String> = before.keys().chain(after.keys()).collect();
    for n in names {
        let (b, a) = (before.get(n), after.get(n));
        match expected(n) {
            None => {
                if b != a {
                    let k = match (b, a) {
                        (None, _) => "appeared",
                        (_, None) => "is gone",
                        _ => "was changed",
                    };
                    return fail("others", format!("{} {}\n--- now\n{}", n, k, a.map(|x| show(&x.data)).unwrap_or_default()));
                }
            }
            Some(v) => {
                if !v.iter().any(|x| x.as_ref() == a.map(|e| &e.data)) {
                    return fail(
                        "content",
                        format!("{}\n--- expected\n{}\n--- got\n{}", n, v.first().cloned().flatten().map_or("no file".into(), |x| show(&x)), a.map_or("no file".into(), |x| show(&x.data))),
                    );
                }
                if let (Some(b), Some(a)) = (b, a) {
                    if a.mode != b.mode {
                        return fail("mode", format!("{} has mode {:o} instead of {:o}", n, a.mode, b.mode));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn put(root: &Path, rel: &str, data: &[u8]) {
    let p = root.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, data).unwrap();
}

/// the lines printed, in any order
pub fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    v.sort_unstable();
    v
}

pub fn printed(got: &str, parts: &[String]) -> Result<(), Fail> {
    if parts.len() == 1 {
        if got.trim_end_matches('\n') != parts[0].trim_end_matches('\n') {
            return fail("stdout", format!("--- expected\n{}\n--- printed\n{}", parts[0], got));
        }
        return Ok(());
    }
    let all = parts.concat_lines();
    if lines(got) != lines(&all) {
        return fail("stdout", format!("--- expected (in any order)\n{}\n--- printed\n{}", all, got));
    }
    Ok(())
}
trait Cat {
    fn concat_lines(&self) -> String;
}
impl Cat for [String] {
    fn concat_lines(&self) -> String {
        self.iter().map(|p| format!("{}\n", p)).collect()
    }
}

pub fn listing(files: &[(String, Vec<u8>)]) -> String {
    files.iter().map(|(n, d)| format!("--- {}\n{}\n", n, show(d))).collect()
}

// ---------------------------------------------------------------- P25

pub fn formatted(data: &[u8], cfg: &VimwikiConfig) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(data).ok()?;
    let p = Language::from_vimwiki_str(s).parse::<Page>().ok()?;
    p.to_vimwiki_string(cfg.clone()).ok().map(String::into_bytes)
}

const DIRS: &[&str] = &["", "sub/", "sub/deep/", "My Dir/", "日本/", ".hid/", "x.wiki/", "sub2/"];
const DEEP: &str = "d1/d2/d3/d4/d5/d6/d7/d8/d9/";
const STEMS: &[&str] = &["a", "index", "My Page", "日本", "v1.2", ".hid", "b"];
const EXTS: &[&str] = &[".wiki", ".md", ".txt", ".WIKI", "", ".wiki2", ".wiki.bak", ".html"];

fn ext_of(file: &str) -> Option<&str> {
    let f = file.rsplit('/').next().unwrap();
    match f.rfind('.') {
        Some(0) | None => None,
        Some(i) => Some(&f[i + 1..]),
    }
}

fn p25(g: &mut G) -> Case {
    let root = Scratch::new();
    let r = root.0.clone();
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut fixed = true;
    let top = "w/";
    let many = if g.chance(1, 15) { 30 } else { 0 };
    for _ in 0..g.range(1, 6) + many {
        let n = format!("{}{}{}{}", top, if g.chance(1, 12) { DEEP } else { g.s(DIRS) }, g.w(STEMS), EXTS[g.freq(&[8, 3, 1, 1, 1, 1, 1, 1])]);
        if files.iter().any(|f| f.0 == n || f.0.starts_with(&format!("{}/", n)) || n.starts_with(&format!("{}/", f.0))) {
            continue;
        }
        let mut d = if g.chance(1, 6) {
            fixed = false;
            gen::any_text(g).into_bytes()
        } else {
            gen::doc(g, &gen::ALL, 0, 3).src.into_bytes()
        };
        if g.chance(1, 20) {
            d.push(0xff);
        }
        files.push((n, d));
    }
    for (n, d) in &files {
        put(&r, n, d);
        if g.chance(1, 6) {
            std::fs::set_permissions(r.join(n), std::fs::Permissions::from_mode(*g.pick(&[0o600, 0o755, 0o664]))).unwrap();
        }
    }
    let cfg = super::format::config(g);
    let mut args: Vec<String> = vec![];
    let with_cfg = g.chance(2, 3);
    if with_cfg {
        put(&r, "format.toml", toml::to_string(&cfg).unwrap().as_bytes());
        args.extend(["--config".into(), r.join("format.toml").to_string_lossy().into()]);
    }
    let cfg = if with_cfg { cfg } else { VimwikiConfig::default() };
    args.push("format".into());
    let inplace = g.chance(2, 3);
    if inplace {
        args.push(g.s(&["--inline", "-i"]).into());
    }
    let mut exts = vec!["wiki".to_string()];
    if g.chance(1, 2) {
        exts.clear();
        for _ in 0..g.small(1, 3) {
            let e = g.s(&["wiki", "md", "txt", "WIKI", "bak", "none"]).to_string();
            args.extend(["--ext".into(), e.clone()]);
            exts.push(e);
        }
    }
    args.push("--".into());
    // what is to be formatted, one group per path; within a group the order is open
    let mut groups: Vec<Vec<String>> = vec![];
    let mut missing = false;
    let mut labels = vec![];
    for _ in 0..g.small(1, 3) {
        let rel = match g.freq(&[4, 6, 1]) {
            0 => {
                let f = files[g.below(files.len())].0.clone();
                labels.push("file".to_string());
                groups.push(vec![f.clone()]);
                f
            }
            1 => {
                let mut d = files[g.below(files.len())].0.clone();
                let up = g.small(1, 3);
                for _ in 0..up {
                    if let Some(i) = d.rfind('/') {
                        d.truncate(i);
                    }
                }
                labels.push("directory".into());
                let pre = format!("{}/", d);
                groups.push(files.iter().map(|f| f.0.clone()).filter(|f| f.starts_with(&pre) && ext_of(f).map_or(false, |e| exts.iter().any(|x| x == e))).collect());
                if g.chance(1, 4) {
                    d.push('/');
                }
                d
            }
            _ if g.chance(1, 2) => {
                missing = true;
                groups.push(vec![]);
                labels.push("missing".into());
                "w/does-not-exist.wiki".into()
            }
            _ => {
                groups.push(vec![]);
                std::fs::create_dir_all(r.join("w/empty")).unwrap();
                "w/empty".into()
            }
        };
        let p = match g.below(3) {
            0 => rel,
            1 => r.join(&rel).to_string_lossy().to_string(),
            _ => format!("./w/../{}", rel),
        };
        args.push(p);
        if missing {
            break;
        }
    }
    let text = format!("{:?}\n{}\n{}", args, super::format::show_config(&cfg), listing(&files)).replace(&*r.to_string_lossy(), "SCRATCH");
    // the model
    let mut now: BTreeMap<String, Vec<u8>> = files.iter().cloned().collect();
    let mut touched: BTreeSet<String> = BTreeSet::new();
    let mut parts = vec![];
    let mut bad = missing;
    'all: for gr in &groups {
        for f in gr {
            touched.insert(f.clone());
        }
        if gr.iter().any(|f| formatted(&now[f], &cfg).is_none()) {
            bad = true;
            break 'all;
        }
        for f in gr {
            let t = formatted(&now[f], &cfg).unwrap();
            parts.push(String::from_utf8(t.clone()).unwrap());
            if inplace {
                now.insert(f.clone(), t);
            }
        }
    }
    let nontrivial = !touched.is_empty() && touched.len() < files.len();
    labels.push(if inplace { "in place".into() } else { "printed".into() });
    if bad {
        labels.push("error".into());
    }
    let out = (|| -> Result<(), Fail> {
        let before = snapshot(&r);
        let o = run(&r, &args)?;
        if (o.code != 0) != bad {
            return fail("status", format!("ended with {}\n{}", o.code, o.stderr));
        }
        let after = snapshot(&r);
        compare(&before, &after, &|n| {
            if !inplace || !touched.contains(n) {
                return None;
            }
            let orig = &before[n].data;
            if bad {
                // files up to the one that fails may be done, repeatedly when given repeatedly
                let mut v = vec![Some(orig.clone())];
                let mut t = orig.clone();
                for _ in 0..4 {
                    match formatted(&t, &cfg) {
                        Some(x) => {
                            v.push(Some(x.clone()));
                            t = x;
                        }
                        None => break,
                    }
                }
                return Some(v);
            }
            Some(vec![Some(now[n].clone())])
        })?;
        if !inplace && !bad {
            printed(&o.stdout, &parts)?;
        }
        if inplace && !bad && !o.stdout.trim().is_empty() {
            return fail("stdout", format!("printed although formatting in place: {}", o.stdout));
        }
        // neighbouring quotes are joined by the first formatting only, see P11
        let quotes = |d: &[u8]| {
            let t = String::from_utf8_lossy(d).to_string();
            let p = Language::from_vimwiki_str(&t).parse::<Page>().ok();
            p.map_or(true, |p| p.elements.windows(2).any(|w| w.iter().all(|e| matches!(e.as_inner(), BlockElement::Blockquote(_)))))
        };
        if inplace && !bad && fixed && !files.iter().any(|f| touched.contains(&f.0) && quotes(&f.1)) {
            let o = run(&r, &args)?;
            if o.code != 0 {
                return fail("again", format!("the second run ended with {}\n{}", o.code, o.stderr));
            }
            compare(&after, &snapshot(&r), &|_| None).or_else(|e| fail("again", format!("the second run: {}", e.msg)))?;
        }
        Ok(())
    })()
    .map_err(|e| Fail { sig: e.sig, msg: e.msg.replace(&*r.to_string_lossy(), "SCRATCH") });
    Case { text, nontrivial, labels, out }
}

// ---------------------------------------------------------------- wikis on disk

pub struct Site {
    root: Scratch,
    pub cfg: HtmlConfig,
    /// path of each wiki below the scratch directory
    pub dirs: Vec<String>,
    pub outs: Vec<String>,
    pub files: BTreeMap<String, Vec<u8>>,
}

impl Site {
    pub fn r(&self) -> &Path {
        &self.root.0
    }
    /// the deepest wiki that a file is in
    fn wiki_of(&self, f: &str) -> Option<usize> {
        (0..self.dirs.len()).filter(|i| f.starts_with(&format!("{}/", self.dirs[*i]))).max_by_key(|i| self.dirs[*i].matches('/').count())
    }
    pub fn pages(&self, w: usize) -> Vec<String> {
        let pre = format!("{}/", self.dirs[w]);
        self.files.keys().filter(|f| f.starts_with(&pre) && ext_of(f) == Some(&self.cfg.wikis[w].ext)).cloned().collect()
    }
    pub fn output(&self, w: usize, f: &str) -> String {
        let rel = &f[self.dirs[w].len() + 1..];
        let cut = rel.rfind('.').unwrap();
        format!("{}/{}.html", self.outs[w], &rel[..cut])
    }
    fn render(&self, w: usize, f: &str) -> Option<Vec<u8>> {
        let s = std::str::from_utf8(&self.files[f]).ok()?;
        let p = Language::from_vimwiki_str(s).parse::<Page>().ok()?;
        let mut c = self.cfg.clone();
        c.runtime = HtmlRuntimeConfig { wiki_index: Some(w), page: self.r().join(f) };
        p.to_html_page(c).ok().map(String::into_bytes)
    }
    pub fn hide(&self, s: &str) -> String {
        s.replace(&*self.r().to_string_lossy(), "SCRATCH")
    }
    pub fn text(&self) -> String {
        let fs: Vec<(String, Vec<u8>)> = self.files.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        let ws: String = (0..self.dirs.len()).map(|i| format!("wiki {} -> {} name {:?} ext {:?}\n", self.dirs[i], self.outs[i], self.cfg.wikis[i].name, self.cfg.wikis[i].ext)).collect();
        self.hide(&format!("{}{}\n{}", ws, super::html::show_config(&self.cfg), listing(&fs)))
    }
}

const WDIRS: &[&str] = &["wikis/a", "wikis/b c", "wikis/日本", "wikis/ab", "wikis/a.d", "w"];

pub fn page_text(g: &mut G) -> String {
    match g.freq(&[3, 3, 1]) {
        0 => {
            // small pages that say something about where they are
            let mut s = String::new();
            for _ in 0..g.small(0, 3) {
                s.push_str(&*g.w(&["= h =\n", "[[page]]\n", "[[wiki1:page]]\n", "[[wn.one:page]]\n", "[[/top|t]]\n", "%title t\n", "- [ ] x\n  - [X] y\n", "[[diary:2020-01-02]]\n", "text\n", ":tag:\n", "{{{rust\nfn x() {}\n}}}\n", "%% note\n", "{{img.png}}\n"]));
            }
            s
        }
        1 => gen::doc(g, &gen::ALL, 0, 3).src,
        _ => {
            let s = gen::doc(g, &gen::ALL, 0, 3).src;
            match g.below(3) {
                0 => s.replace('\n', "\r\n"),
                1 => s.trim_end_matches('\n').to_string(),
                _ => gen::any_text(g),
            }
        }
    }
}

pub fn site(g: &mut G, max: usize, nested: bool) -> Site {
    site_at(g, 1, max, nested, false)
}

/// `vim`: also wikis where they are by default
fn site_at(g: &mut G, min: usize, max: usize, nested: bool, vim: bool) -> Site {
    let root = Scratch::new();
    let r = root.0.clone();
    let n = if max >= 3 && g.chance(1, 20) { g.range(6, 12) } else { g.range(min, max) };
    let mut dirs: Vec<String> = vec![];
    let mut outs = vec![];
    let mut cfg = if vim && g.chance(1, 3) { HtmlConfig::default() } else { super::html::config(g) };
    cfg.wikis.clear();
    cfg.template.dir = r.join("templates");
    if !vim && g.chance(1, 2) {
        cfg.template.text = g.s(&["<t>%title%</t>%content%", "%root_path%%css% %wiki_path%\n%content%\n", "%content%", "<link href=\"%root_path%%css%\">%content% %encoding%"]).to_string();
    }
    for i in 0..n {
        let mut d = if vim && g.chance(1, 3) { "home/vimwiki".to_string() } else { g.s(WDIRS).to_string() };
        if nested && i > 0 && g.chance(1, 2) {
            d = format!("{}/{}", dirs[g.below(i)], g.s(&["in", "sub", "x y"]));
        }
        while dirs.contains(&d) || (!nested && dirs.iter().any(|x| x.starts_with(&format!("{}/", d)) || d.starts_with(&format!("{}/", x)))) {
            d.push_str(g.s(&["2", "-"]));
        }
        let o = if vim && g.chance(1, 3) && !outs.iter().any(|o| o == "home/vimwiki_html") {
            "home/vimwiki_html".to_string()
        } else if g.chance(1, 5) {
            format!("{}/html", d)
        } else { format!("out/{}{}", g.s(&["x", "y z", "é/deep"]), i) };
        let mut w = HtmlWikiConfig { path: r.join(&d), path_html: r.join(&o), ..Default::default() };
        w.name = if g.chance(2, 3) { Some(["one", "two", "My Wiki", "日", "one2"].get(i).map_or_else(|| format!("n{}", i), |s| s.to_string())) } else { None };
        w.ext = if nested { "wiki".into() } else { g.s(&["wiki", "wiki", "md", "txt"]).to_string() };
        w.css_name = g.s(&["style.css", "style.css", "my.css"]).to_string();
        if vim && g.chance(1, 3) {
            w.diary_rel_path = g.s(&["journal", "my/days"]).into();
        }
        cfg.wikis.push(w);
        dirs.push(d);
        outs.push(o);
    }
    let mut s = Site { root, cfg, dirs, outs, files: BTreeMap::new() };
    let many = if g.chance(1, 15) { 25 } else { 0 };
    for _ in 0..if n > 0 { g.range(0, 6) + many } else { 0 } {
        let f = some_file(g, &s);
        let t = page_text(g);
        add(&mut s, f, t.into_bytes());
    }
    put(s.r(), "html.toml", toml::to_string(&s.cfg).unwrap().as_bytes());
    s
}

fn some_file(g: &mut G, s: &Site) -> String {
    let i = g.below(s.dirs.len());
    let ext = if g.chance(5, 6) { format!(".{}", s.cfg.wikis[i].ext) } else { g.s(&[".md", ".txt", "", ".wiki", ".html"]).to_string() };
    format!("{}/{}{}{}", s.dirs[i], if g.chance(1, 15) { DEEP } else { g.s(&["", "", "sub/", "My Dir/", "diary/", "sub/deep/"]) }, g.w(&["index", "page", "My Page", "日本", "v1.2", "b", ".hid"]), ext)
}

pub fn add(s: &mut Site, f: String, d: Vec<u8>) -> bool {
    let clash = s.files.keys().any(|x| x.starts_with(&format!("{}/", f)) || f.starts_with(&format!("{}/", x)));
    if clash {
        return false;
    }
    put(s.r(), &f, &d);
    s.files.insert(f, d);
    true
}

pub fn picked(s: &Site, include: &[String]) -> Vec<usize> {
    (0..s.dirs.len())
        .filter(|i| {
            include.is_empty()
                || include.iter().any(|x| match x.parse::<usize>() {
                    Ok(n) => n == *i,
                    Err(_) => s.cfg.wikis[*i].name.as_deref() == Some(x),
                })
        })
        .collect()
}

pub fn includes(g: &mut G, s: &Site) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..g.small(1, 3) {
        let i = g.below(s.dirs.len());
        v.push(match (g.below(5), &s.cfg.wikis[i].name) {
            (0, _) => g.s(&["7", "nobody", "One"]).to_string(),
            (1 | 2, Some(n)) => n.clone(),
            _ => i.to_string(),
        });
    }
    v
}

pub struct Conv {
    /// output file -> acceptable contents
    pub out: BTreeMap<String, Vec<Vec<u8>>>,
    pub parts: Vec<String>,
    pub ok: bool,
}

/// what converting the given wikis gives
pub fn conversion(s: &Site, ws: &[usize]) -> Conv {
    let mut c = Conv { out: BTreeMap::new(), parts: vec![], ok: true };
    for w in ws {
        for f in s.pages(*w) {
            let own = s.wiki_of(&f).unwrap();
            match s.render(own, &f) {
                Some(h) => {
                    c.parts.push(String::from_utf8_lossy(&h).into());
                    c.out.entry(s.output(own, &f)).or_default().push(h);
                }
                None => c.ok = false,
            }
        }
    }
    c
}

pub fn is_css(n: &str, s: &Site, ws: &[usize]) -> bool {
    ws.iter().any(|w| n == format!("{}/style.css", s.outs[*w]))
}

/// runs one conversion and compares everything on disk
pub fn converted(s: &Site, ws: &[usize], args: &[String], stdout: bool, css: bool, cache: &str) -> Result<(), Fail> {
    conv(s, ws, &|| conversion(s, ws), args, stdout, css, cache)
}

fn conv(s: &Site, ws: &[usize], conversion: &dyn Fn() -> Conv, args: &[String], stdout: bool, css: bool, cache: &str) -> Result<(), Fail> {
    let before = snapshot(s.r());
    let exp = conversion();
    let o = run(s.r(), args)?;
    let exp2 = conversion();
    if (o.code == 0) != exp.ok {
        return fail("status", format!("ended with {} instead of {}\n{}", o.code, if exp.ok { 0 } else { 3 }, o.stderr));
    }
    let after = snapshot(s.r());
    compare(&before, &after, &|n| {
        if n.starts_with(cache) {
            return Some(vec![before.get(n).map(|e| e.data.clone()), after.get(n).map(|e| e.data.clone())]);
        }
        if stdout {
            return None;
        }
        if css && is_css(n, s, ws) {
            if exp.ok {
                return Some(vec![after.get(n).map(|e| e.data.clone()).filter(|d| d.len() > 100)]).map(|v| if v[0].is_none() { vec![Some(b"a stylesheet".to_vec())] } else { v });
            }
            return Some(vec![after.get(n).map(|e| e.data.clone())]);
        }
        let h = exp.out.get(n)?;
        let mut v: Vec<Option<Vec<u8>>> = h.iter().cloned().map(Some).collect();
        v.extend(exp2.out.get(n).into_iter().flatten().cloned().map(Some));
        if !exp.ok {
            // pages after the one that fails may be missing
            v.push(before.get(n).map(|e| e.data.clone()));
        }
        Some(v)
    })?;
    if exp.ok && css && !stdout {
        for w in ws {
            if !after.contains_key(&format!("{}/style.css", s.outs[*w])) {
                return fail("css", format!("no style.css in {}", s.outs[*w]));
            }
        }
    }
    if exp.ok && !stdout {
        if let Some(m) = exp.out.keys().find(|n| !after.contains_key(*n)) {
            return fail("missing", format!("{} was not written", m));
        }
    }
    if exp.ok && stdout {
        printed(&o.stdout, &exp.parts).or_else(|e| printed(&o.stdout, &exp2.parts).map_err(|_| e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P26

fn p26(g: &mut G) -> Case {
    let select = g.chance(1, 2);
    let nested = !select && g.chance(1, 3);
    let s = site(g, if select { 4 } else { 3 }, nested);
    let include = if select { includes(g, &s) } else { vec![] };
    let mut args: Vec<String> = vec!["--config".into(), s.r().join("html.toml").to_string_lossy().into()];
    let mut cache = "home/.cache/".to_string();
    if g.chance(4, 5) {
        cache = "cache/".into();
        args.extend(["--cache".into(), s.r().join("cache").to_string_lossy().into()]);
    }
    for f in ["--no-cache", "--no-prune-cache"] {
        if g.chance(1, 4) {
            args.push(f.into());
        }
    }
    args.push("convert".into());
    let stdout = g.chance(1, 4);
    let css = g.chance(1, 3);
    if stdout {
        args.push("--stdout".into());
    }
    if css {
        args.push("--include-vimwiki-css".into());
    }
    for i in &include {
        args.extend(["--include".into(), i.clone()]);
    }
    let ws = picked(&s, &include);
    // pages may have been converted before
    if g.chance(1, 3) {
        let old: Vec<String> = ws.iter().flat_map(|w| s.pages(*w)).filter_map(|f| s.wiki_of(&f).map(|w| s.output(w, &f))).collect();
        for o in old {
            if g.chance(2, 3) && !s.files.contains_key(&o) {
                put(s.r(), &o, "<p>old</p>\n".repeat(*g.pick(&[0, 1, 2000])).as_bytes());
            }
        }
    }
    let text = s.hide(&format!("{:?}\n{}", args, s.text()));
    let pages: usize = ws.iter().map(|w| s.pages(*w).len()).sum();
    let out = converted(&s, &ws, &args, stdout, css, &cache).and_then(|_| {
        // again, with the cache as it is now
        converted(&s, &ws, &args, stdout, css, &cache).or_else(|e| fail(&e.sig, format!("second run: {}", e.msg)))
    });
    let mut labels = vec![format!("{} of {} wikis", ws.len(), s.dirs.len()), format!("{} pages", pages.min(6))];
    if stdout {
        labels.push("stdout".into());
    }
    Case { text, nontrivial: pages >= 1 && (s.dirs.len() >= 2 || pages >= 2), labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

// ---------------------------------------------------------------- P27

pub fn sha1(data: &[u8]) -> String {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & cc) | (!b & d), 0x5A827999u32),
                1 => (b ^ cc ^ d, 0x6ED9EBA1),
                2 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().map(|x| format!("{:08x}", x)).collect()
}

fn p27(g: &mut G) -> Case {
    let mut s = site(g, 2, false);
    let cfg_arg = s.r().join("html.toml").to_string_lossy().to_string();
    let mut log: Vec<String> = vec![];
    let text0 = s.text();
    let mut commands = 0;
    let mut edits = 0;
    let mut damages = 0;
    let mut old: Vec<Vec<u8>> = s.files.values().cloned().collect();
    let mut out = Ok(());
    let cache_files = |s: &Site| -> Vec<String> { snapshot(s.r()).keys().filter(|n| n.starts_with("cache/")).cloned().collect() };
    let ops = if g.chance(1, 20) { 20 } else { g.range(2, 8) };
    for _ in 0..ops {
        match g.freq(&[3, 2, 1, 3, 1, 5]) {
            0 => {
                // write a page, perhaps with a content that was there before
                let f = if g.coin() && !s.files.is_empty() { s.files.keys().nth(g.below(s.files.len())).unwrap().clone() } else { some_file(g, &s) };
                let t = if g.chance(1, 3) && !old.is_empty() {
                    old[g.below(old.len())].clone()
                } else if g.chance(1, 4) && s.files.contains_key(&f) {
                    // a small change
                    let mut t = s.files[&f].clone();
                    t.extend_from_slice(g.s(&["\n", "x", " ", "x\n", "\r\n"]).as_bytes());
                    t
                } else {
                    page_text(g).into_bytes()
                };
                old.push(t.clone());
                log.push(format!("write {} with {:?}", f, show(&t)));
                add(&mut s, f, t);
                edits += 1;
            }
            1 if !s.files.is_empty() => {
                let f = s.files.keys().nth(g.below(s.files.len())).unwrap().clone();
                s.files.remove(&f);
                std::fs::remove_file(s.r().join(&f)).unwrap();
                log.push(format!("delete {}", f));
                edits += 1;
            }
            2 if s.files.len() >= 2 => {
                // exchange the contents of two pages
                let a = s.files.keys().nth(g.below(s.files.len())).unwrap().clone();
                let b = s.files.keys().nth(g.below(s.files.len())).unwrap().clone();
                let (x, y) = (s.files[&a].clone(), s.files[&b].clone());
                add(&mut s, a.clone(), y);
                add(&mut s, b.clone(), x);
                log.push(format!("exchange {} and {}", a, b));
                edits += 1;
            }
            3 => {
                let v = cache_files(&s);
                if v.is_empty() {
                    continue;
                }
                let n = v[g.below(v.len())].clone();
                let p = s.r().join(&n);
                let d = std::fs::read(&p).unwrap_or_default();
                damages += 1;
                let how = g.below(6);
                log.push(format!("damage {} ({})", n, ["cut off", "emptied", "garbage", "removed", "not JSON of a page", "followed by garbage"][how]));
                match how {
                    0 => std::fs::write(&p, &d[..g.below(d.len().max(1))]).unwrap(),
                    1 => std::fs::write(&p, b"").unwrap(),
                    2 => std::fs::write(&p, [0xff, 0xfe, b'{', 0]).unwrap(),
                    3 => std::fs::remove_file(&p).unwrap(),
                    4 => std::fs::write(&p, g.s(&["{}", "[]", "null", "{\"elements\": 3}", "\"x\""])).unwrap(),
                    _ => {
                        let mut d = d;
                        d.extend_from_slice(b"}}");
                        std::fs::write(&p, d).unwrap();
                    }
                }
            }
            4 => {
                let n = g.s(&["cache/stray", "cache/sub/stray", "cache/da39a3ee5e6b4b0d3255bfef95601890afd80709.tmp", "cache/.x"]);
                put(s.r(), n, b"{}");
                log.push(format!("put {}", n));
            }
            _ => {
                let no_cache = g.chance(1, 3);
                let no_prune = g.chance(1, 3);
                let mut args = vec!["--config".to_string(), cfg_arg.clone(), "--cache".into(), s.r().join("cache").to_string_lossy().into()];
                if no_cache {
                    args.push("--no-cache".into());
                }
                if no_prune {
                    args.push("--no-prune-cache".into());
                }
                let all: Vec<usize> = (0..s.dirs.len()).collect();
                let inspect = g.chance(1, 4);
                let before: Snap = snapshot(s.r()).into_iter().filter(|x| x.0.starts_with("cache/")).collect();
                if inspect {
                    args.extend(["inspect".into(), "$".into()]);
                } else {
                    args.push("convert".into());
                    if g.chance(1, 4) {
                        args.push("--stdout".into());
                    }
                }
                log.push(format!("run {}", s.hide(&format!("{:?}", args))));
                commands += 1;
                out = if inspect {
                    inspected(&s, &all, &args).map(|_| ())
                } else {
                    let stdout = args.last().unwrap() == "--stdout";
                    converted(&s, &all, &args, stdout, false, "cache/")
                };
                if out.is_err() {
                    break;
                }
                let after: Snap = snapshot(s.r()).into_iter().filter(|x| x.0.starts_with("cache/")).collect();
                let readable = s.files.values().all(|d| std::str::from_utf8(d).is_ok());
                if no_cache && before != after {
                    out = fail("no-cache", "a run without the cache changed the cache directory");
                    break;
                }
                if !no_cache && !no_prune && readable {
                    let current: BTreeSet<String> = all.iter().flat_map(|w| s.pages(*w)).map(|f| sha1(&s.files[&f])).collect();
                    if let Some(x) = after.keys().find(|n| !current.contains(n.rsplit('/').next().unwrap())) {
                        out = fail("prune", format!("{} is kept although no page has that content", x));
                        break;
                    }
                }
            }
        }
    }
    let text = s.hide(&format!("{}\n--- history\n{}", text0, log.join("\n")));
    let mut labels = vec![format!("{} commands", commands)];
    if damages > 0 {
        labels.push("damage".into());
    }
    Case { text, nontrivial: commands >= 2 && edits + damages >= 1, labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

// ---------------------------------------------------------------- P28

pub fn tree(s: &Site, ws: &[usize]) -> Option<Value> {
    let mut v = vec![];
    for w in ws {
        let mut files = vec![];
        for f in s.pages(*w) {
            let t = std::str::from_utf8(&s.files[&f]).ok()?;
            let p = Language::from_vimwiki_str(t).parse::<Page>().ok()?;
            files.push(json!({"path": s.r().join(&f), "checksum": sha1(t.as_bytes()), "data": serde_json::to_value(&p).ok()?}));
        }
        v.push(json!({"index": w, "name": s.cfg.wikis[*w].name, "path": s.cfg.wikis[*w].path, "files": files}));
    }
    Some(json!({"wikis": v}))
}

/// files of a wiki come in any order
pub fn sorted(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(sorted).collect();
            if a.iter().all(|x| x.get("checksum").is_some()) {
                a.sort_by_key(|x| x["path"].to_string());
            }
            // the cells of a table are kept in a map without an order
            if a.iter().all(|x| x.get(0).map_or(false, |x| x.get("row").is_some())) {
                a.sort_by_key(|x| x.to_string());
            }
            Value::Array(a)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), sorted(v))).collect()),
        v => v.clone(),
    }
}

fn any_order(v: &Value) -> Value {
    match sorted(v) {
        Value::Array(mut a) => {
            a.sort_by_key(|x| x.to_string());
            Value::Array(a)
        }
        v => v,
    }
}

/// runs an inspection of the whole tree
pub fn inspected(s: &Site, ws: &[usize], args: &[String]) -> Result<Value, Fail> {
    let o = run(s.r(), args)?;
    let exp = tree(s, ws);
    let exp = match exp {
        None => {
            return if o.code == 0 { fail("status", "a page that cannot be read is no error") } else { Ok(Value::Null) };
        }
        Some(e) => e,
    };
    if o.code != 0 {
        return fail("status", format!("ended with {}\n{}", o.code, o.stderr));
    }
    let got: Value = serde_json::from_str(&o.stdout).or_else(|e| fail("json", format!("{}\n{}", e, o.stdout)))?;
    let e = sorted(&json!([exp]));
    if sorted(&got) != e {
        return fail("tree", first_diff(&sorted(&got), &e, "$"));
    }
    Ok(exp)
}

pub fn first_diff(a: &Value, b: &Value, at: &str) -> String {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find(|(_, (x, y))| x != y).map(|(i, (x, y))| first_diff(x, y, &format!("{}[{}]", at, i))).unwrap_or_default(),
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => x.keys().find(|k| x[*k] != y[*k]).map(|k| first_diff(&x[k], &y[k], &format!("{}.{}", at, k))).unwrap_or_default(),
        _ => format!("{} is {} instead of {}", at, a, b),
    }
}

/// the part of JSON paths that is used here
fn select<'a>(v: &'a Value, path: &[String]) -> Vec<&'a Value> {
    match path.first().map(|s| s.as_str()) {
        None => vec![v],
        Some("*") => match v {
            Value::Array(a) => a.iter().flat_map(|x| select(x, &path[1..])).collect(),
            Value::Object(m) => m.values().flat_map(|x| select(x, &path[1..])).collect(),
            _ => vec![],
        },
        Some(k) => {
            let x = match v {
                Value::Array(a) => k.parse::<usize>().ok().and_then(|i| a.get(i)),
                Value::Object(m) => m.get(k),
                _ => None,
            };
            x.map(|x| select(x, &path[1..])).unwrap_or_default()
        }
    }
}

fn p28(g: &mut G) -> Case {
    let nested = g.chance(1, 4);
    let s = site(g, 4, nested);
    let include = if g.chance(1, 2) { includes(g, &s) } else { vec![] };
    let ws = picked(&s, &include);
    let mut base: Vec<String> = vec!["--config".into(), s.r().join("html.toml").to_string_lossy().into(), "--cache".into(), s.r().join("cache").to_string_lossy().into()];
    if g.chance(1, 4) {
        base.push("--no-cache".into());
    }
    base.push("inspect".into());
    // a path into the tree
    let i = g.below(ws.len().max(1)).to_string();
    let segs: Vec<String> = match g.below(9) {
        0 => vec![],
        1 => vec!["wikis".into()],
        2 => vec!["wikis".into(), "*".into(), g.s(&["index", "name", "path"]).into()],
        3 => vec!["wikis".into(), i, g.s(&["index", "name", "path", "files"]).into()],
        4 => vec!["wikis".into(), "*".into(), "files".into(), "*".into(), g.s(&["path", "checksum", "data"]).into()],
        5 => vec!["wikis".into(), i, "files".into(), "*".into(), g.s(&["path", "checksum", "data"]).into()],
        6 => vec!["wikis".into(), "*".into(), "files".into(), "*".into(), "data".into(), "elements".into(), "*".into()],
        7 => vec!["wikis".into(), "*".into(), "files".into()],
        _ => vec!["wikis".into(), "7".into(), "files".into()],
    };
    let path = segs.iter().fold("$".to_string(), |o, s| if s == "*" || s.parse::<usize>().is_ok() { format!("{}[{}]", o, s) } else { format!("{}.{}", o, s) });
    let old = *g.pick(&[0, 0, 10, 100_000]);
    let inc: Vec<String> = include.iter().flat_map(|i| ["--include".to_string(), i.clone()]).collect();
    let text = s.hide(&format!("{:?} {} {:?}\n{}", base, path, inc, s.text()));
    let pages: usize = ws.iter().map(|w| s.pages(*w).len()).sum();
    let out = (|| -> Result<(), Fail> {
        if old > 0 {
            put(s.r(), "o.json", &vec![b'0'; old]);
        }
        let before = snapshot(s.r());
        let mut whole = base.clone();
        whole.push("$".into());
        whole.extend(inc.clone());
        let exp = inspected(&s, &ws, &whole)?;
        if exp == Value::Null {
            return Ok(());
        }
        let mut args = base.clone();
        args.push(path.clone());
        args.extend(inc.clone());
        let o = run(s.r(), &args)?;
        if o.code != 0 {
            return fail("status", format!("ended with {}\n{}", o.code, o.stderr));
        }
        let got: Value = serde_json::from_str(&o.stdout).or_else(|e| fail("json", format!("{}\n{}", e, o.stdout)))?;
        let e = Value::Array(select(&exp, &segs).into_iter().cloned().collect());
        // where nothing is selected the answer is an empty list or null
        let none = |v: &Value| v.as_array().map_or(v.is_null(), |a| a.is_empty() || a.iter().all(|x| x.is_null()));
        if any_order(&got) != any_order(&e) && !(none(&got) && none(&e)) {
            return fail("select", format!("{}: {}", path, first_diff(&any_order(&got), &any_order(&e), "$")));
        }
        let mut args = base.clone();
        args.extend(["--output".into(), s.r().join("o.json").to_string_lossy().into(), path.clone()]);
        args.extend(inc.clone());
        let o2 = run(s.r(), &args)?;
        let f = std::fs::read_to_string(s.r().join("o.json")).unwrap_or_default();
        let same = serde_json::from_str::<Value>(&f).map_or(false, |v| any_order(&v) == any_order(&got));
        if o2.code != 0 || !same || !o2.stdout.is_empty() {
            return fail("output", format!("ended with {}\n--- in the file\n{}\n--- printed before\n{}\n--- printed\n{}", o2.code, f, o.stdout, o2.stdout));
        }
        let after = snapshot(s.r());
        compare(&before, &after, &|n| if n.starts_with("cache/") || n == "o.json" { Some(vec![after.get(n).map(|e| e.data.clone())]) } else { None })
    })();
    let labels = vec![path.clone(), format!("{} of {} wikis", ws.len(), s.dirs.len())];
    Case { text, nontrivial: pages >= 1 && (s.dirs.len() >= 2 || pages >= 2), labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

// ---------------------------------------------------------------- P33

/// how a path may be written in a setting
fn spelled(g: &mut G, root: &Path, rel: &str) -> String {
    let p = root.join(rel).to_string_lossy().to_string();
    let home = |h: &str| rel.strip_prefix("home/").map(|x| format!("{}/{}", h, x));
    let mut p = match g.below(6) {
        0 => home("~").unwrap_or(p),
        1 => home("$HOME").unwrap_or(p),
        2 => format!("{}/./{}", root.display(), rel),
        3 => format!("{}/x/../{}", root.display(), rel),
        _ => p,
    };
    if g.chance(1, 3) {
        p.push('/');
    }
    p
}

const TROUBLE: &[&str] = &["", "", "", "no vim", "no vimrc", "garbage", "0", "nothing printed", "ended with 2", "ended with 1", "relative path", "not a list", "[]"];

fn p33(g: &mut G) -> Case {
    let mut s = site_at(g, 0, 4, false, true);
    let r = s.r().to_path_buf();
    let n = s.dirs.len();
    // the first wikis are those of vim
    let k = g.range(0, n);
    let trouble = g.s(TROUBLE);
    let merge = g.chance(1, 2);
    let mut list = vec![];
    for w in 0..k {
        let c = s.cfg.wikis[w].clone();
        let mut m = serde_json::Map::new();
        if s.dirs[w] != "home/vimwiki" || g.coin() {
            m.insert("path".into(), json!(spelled(g, &r, &s.dirs[w])));
        }
        if s.outs[w] != "home/vimwiki_html" || g.coin() {
            m.insert("path_html".into(), json!(spelled(g, &r, &s.outs[w])));
        }
        if let Some(x) = &c.name {
            m.insert("name".into(), json!(x));
        } else if g.chance(1, 4) {
            m.insert("name".into(), Value::Null);
        }
        if c.ext != "wiki" || g.coin() {
            m.insert("ext".into(), json!(format!("{}{}", g.s(&["", "."]), c.ext)));
        }
        if c.css_name != "style.css" || g.coin() {
            m.insert("css_name".into(), json!(c.css_name));
        }
        if c.diary_rel_path != Path::new("diary") || g.coin() {
            m.insert("diary_rel_path".into(), json!(format!("{}{}", c.diary_rel_path.display(), g.s(&["", "/"]))));
        }
        // settings of vim only
        for (key, v) in [("auto_toc", json!(1)), ("syntax", json!("default")), ("nested_syntaxes", json!({"python": "python"})), ("index", json!("index"))] {
            if g.chance(1, 5) {
                m.insert(key.into(), v);
            }
        }
        list.push(Value::Object(m));
    }
    if trouble == "relative path" {
        list.insert(g.below(k + 1), json!({"path": "wikis/a"}));
    }
    let printed = match trouble {
        "garbage" => "E121: Undefined variable".to_string(),
        "0" => "0".into(),
        "[]" => "[]".into(),
        "nothing printed" => "".into(),
        "not a list" => "{\"path\": \"/x\"}".into(),
        _ => json!(list).to_string(),
    };
    let vim = g.s(&["vim", "nvim"]);
    let vimrc = match g.below(3) {
        0 => "home/.vimrc",
        1 => "home/.vim/vimrc",
        _ => "home/.config/nvim/init.vim",
    };
    put(&r, "programs/printed", printed.as_bytes());
    std::os::unix::fs::symlink("/bin/sh", r.join("programs/sh")).unwrap();
    if trouble != "no vim" {
        let code = match trouble {
            "ended with 2" => 2,
            "ended with 1" => 1,
            _ => 0,
        };
        // answers questions for the list of wikis only
        let t = format!("#!/bin/sh\ncase \"$*\" in *'get(g:, \"vimwiki_list\")'*) echo; /bin/cat '{}';; esac\nexit {}\n", r.join("programs/printed").display(), code);
        let _writing = WRITING.write().unwrap();
        put(&r, &format!("programs/{}", vim), t.as_bytes());
        std::fs::set_permissions(r.join("programs").join(vim), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    if trouble != "no vimrc" {
        put(&r, vimrc, b"\" settings\n");
    }
    // the rest is in the file of the configuration
    let mut file = s.cfg.clone();
    file.wikis.drain(..k);
    put(&r, "html.toml", toml::to_string(&file).unwrap().as_bytes());
    let broken = !matches!(trouble, "" | "ended with 1");
    let asked = merge || k == n;
    let from_vim = if asked && !broken { k } else { 0 };
    let mut labels = vec![];
    if from_vim == 0 {
        s.cfg.wikis.drain(..k);
        s.dirs.drain(..k);
        s.outs.drain(..k);
    }
    if from_vim > 0 {
        labels.push(format!("{} of vim's", from_vim));
    }
    if asked && !trouble.is_empty() {
        labels.push(trouble.to_string());
    }
    // standalone paths
    let mut extras: Vec<(String, Vec<usize>)> = vec![];
    let mut paths: Vec<String> = vec![];
    let inspect = g.chance(1, 3);
    let mut missing = false;
    if g.chance(1, 2) {
        let base = s.dirs.len();
        for _ in 0..g.small(1, 3) {
            if g.chance(1, 12) {
                missing = true;
                paths.push("extra/none".into());
                continue;
            }
            let d = g.s(&["extra/x", "extra/x y", "extra/日"]).to_string();
            for _ in 0..g.small(0, 3) {
                let f = format!("{}/{}{}{}", d, g.s(&["", "", "sub/", "diary/"]), g.w(&["index", "page", "My Page", "b"]), g.s(&[".wiki", ".wiki", ".wiki", ".md", ""]));
                let t = page_text(g).into_bytes();
                add(&mut s, f, t);
            }
            let _ = std::fs::create_dir_all(r.join(&d));
            let mut p = d.clone();
            let mut dir = d;
            if !inspect && g.chance(1, 3) {
                let fs: Vec<String> = s.files.keys().filter(|f| f.starts_with(&format!("{}/", dir))).cloned().collect();
                if !fs.is_empty() {
                    p = fs[g.below(fs.len())].clone();
                    dir = p[..p.rfind('/').unwrap()].to_string();
                }
            }
            extras.push((p.clone(), vec![]));
            s.dirs.push(dir.clone());
            s.outs.push("home/vimwiki_html".into());
            s.cfg.wikis.push(HtmlWikiConfig { path: r.join(&dir), path_html: r.join("home/vimwiki_html"), name: None, css_name: "style.css".into(), ext: "wiki".into(), diary_rel_path: "diary".into() });
            paths.push(match g.below(4) {
                0 => r.join(&p).to_string_lossy().to_string(),
                1 => format!("./extra/../{}", p),
                2 if !p.ends_with(".wiki") && !p.ends_with(".md") && r.join(&p).is_dir() => format!("{}/", p),
                _ => p,
            });
        }
        labels.push(format!("{} standalone", s.dirs.len() - base));
    }
    let mut args: Vec<String> = vec![];
    // without a file only where it says nothing
    let plain = HtmlConfig { template: HtmlTemplateConfig { dir: s.cfg.template.dir.clone(), ..Default::default() }, ..Default::default() };
    let says_nothing = k == n && toml::to_string(&file).ok() == toml::to_string(&plain).ok();
    if !says_nothing || g.coin() {
        args.extend(["--config".into(), r.join("html.toml").to_string_lossy().into()]);
    }
    args.extend(["--cache".into(), r.join("cache").to_string_lossy().into()]);
    if merge {
        args.push("--merge".into());
    }
    if g.chance(1, 4) {
        args.push("--no-cache".into());
    }
    let include = if g.chance(1, 3) && !s.dirs.is_empty() { includes(g, &s) } else { vec![] };
    let ws = picked(&s, &include);
    let stdout = !inspect && g.chance(1, 3);
    let css = !inspect && g.chance(1, 4);
    args.push(if inspect { "inspect" } else { "convert" }.into());
    if stdout {
        args.push("--stdout".into());
    }
    if css {
        args.push("--include-vimwiki-css".into());
    }
    for i in &include {
        args.extend(["--include".into(), i.clone()]);
    }
    if !include.is_empty() {
        args.push("--".into());
    }
    if inspect {
        args.push("$".into());
    }
    let paths_given = !paths.is_empty();
    args.extend(paths);
    let text = s.hide(&format!("{:?}\nvim: {:?} as {} prints {}\n{}", args, trouble, vim, printed, s.text()));
    let pages: usize = ws.iter().map(|w| s.pages(*w).len()).sum();
    let out = (|| -> Result<(), Fail> {
        if missing {
            let before = snapshot(&r);
            let o = run(&r, &args)?;
            if o.code == 0 {
                return fail("missing", "a path that does not exist is no error");
            }
            return compare(&before, &snapshot(&r), &|n| if n.starts_with("cache/") { Some(vec![snapshot(&r).get(n).map(|e| e.data.clone())]) } else { None });
        }
        // a page of a chosen wiki that cannot be read is an error even if only others are converted
        let unreadable = ws.iter().flat_map(|w| s.pages(*w)).any(|f| std::str::from_utf8(&s.files[&f]).is_err());
        if unreadable {
            return Ok(());
        }
        if inspect {
            return inspected(&s, &ws, &args).map(|_| ());
        }
        if !paths_given {
            return conv(&s, &ws, &|| conversion(&s, &ws), &args, stdout, css, "cache/");
        }
        let exp = || {
            let mut c = Conv { out: BTreeMap::new(), parts: vec![], ok: true };
            for (p, _) in &extras {
                for f in s.files.keys().filter(|f| (*f == p || f.starts_with(&format!("{}/", p))) && ext_of(f) == Some("wiki")) {
                    let own = s.wiki_of(f).unwrap();
                    match s.render(own, f) {
                        Some(h) => {
                            c.parts.push(String::from_utf8_lossy(&h).into());
                            c.out.entry(s.output(own, f)).or_default().push(h);
                        }
                        None => c.ok = false,
                    }
                }
            }
            c
        };
        let ours: Vec<usize> = (0..s.dirs.len()).filter(|w| s.dirs[*w].starts_with("extra/")).collect();
        conv(&s, &ours, &exp, &args, stdout, css, "cache/")
    })();
    Case { text, nontrivial: pages >= 1 && (from_vim > 0 || paths_given), labels, out: out.map_err(|e| Fail { sig: e.sig, msg: s.hide(&e.msg) }) }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P25", rule: "some but not all files are to be formatted", quick: 15000, thorough: 200000, case: p25, text: None, assumptions: &["the order of files within a directory is open"], threads: 8, batch: None },
    Prop { id: "P26", rule: "a page is converted and there are two wikis or two pages", quick: 9000, thorough: 150000, case: p26, text: None, assumptions: &["wikis inside of wikis have the same extension and are converted together"], threads: 8, batch: None },
    Prop { id: "P27", rule: "at least two commands and an edit or damage", quick: 8000, thorough: 100000, case: p27, text: None, assumptions: &["damaged entries are not valid pages"], threads: 8, batch: None },
    Prop { id: "P28", rule: "a page is reported and there are two wikis or two pages", quick: 8000, thorough: 100000, case: p28, text: None, assumptions: &["files of a wiki come in any order"], threads: 8, batch: None },
    Prop { id: "P33", rule: "a page is converted or reported and a wiki comes from vim or a standalone path is given", quick: 9000, thorough: 150000, case: p33, text: None, assumptions: &["vim is a stand-in that prints the list", "standalone paths lie outside of all configured wikis", "pages of different paths that go to the same output file: any of them"], threads: 8, batch: None },
];
