//! P23, P24: wiki lookup and configuration files
use crate::engine::*;
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use vimwiki::*;

// ---------------------------------------------------------------- P23

type Segs = Vec<String>;

fn abs(v: &[String]) -> String {
    format!("/{}", v.join("/"))
}

const NEAR: &[&str] = &["w", "wi", "wiki", "a", "a.b", "Wiki", "日本", "w d", "n", "diary"];

fn segs(g: &mut G, lo: usize, hi: usize) -> Segs {
    let mut v = vec![];
    let n = g.small(lo, hi);
    for _ in 0..n {
        v.push(g.w(NEAR));
    }
    v
}

fn page_name(g: &mut G, ext: &str) -> String {
    let stem = g.w(&["page", "index", "v1.2.3", "a.wiki", ".hid", "My Page", "日本", "html", "x.html", "100%"]);
    match g.freq(&[6, 1, 1]) {
        0 => format!("{}.{}", stem, ext),
        1 => stem,
        _ => format!("{}.{}", stem, g.s(&["md", "wiki", "txt", "html"])),
    }
}

/// the name of a file with its extension replaced
fn with_ext(file: &str, ext: &str) -> String {
    match file.rfind('.') {
        Some(i) if i > 0 => format!("{}.{}", &file[..i], ext),
        _ => format!("{}.{}", file, ext),
    }
}

struct W {
    path: Segs,
    out: Segs,
    name: Option<String>,
    ext: String,
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), Fail> {
    if got == exp {
        Ok(())
    } else {
        fail("lookup", format!("{}: got {:?}, expected {:?}", what, got, exp))
    }
}

fn p23_check(ws: &[W], cfg: &HtmlConfig, pages: &[Segs], names: &[String], ext: &str) -> Result<(), Fail> {
    for i in 0..ws.len() + 2 {
        let w = cfg.find_wiki_by_index(i);
        eq(&format!("wiki by index {}", i), w.map(|w| w.path.clone()), ws.get(i).map(|w| PathBuf::from(abs(&w.path))))?;
    }
    for n in names {
        let exp = ws.iter().position(|w| w.name.as_ref() == Some(n));
        eq(&format!("index of the wiki named {:?}", n), cfg.find_wiki_index_by_name(n), exp)?;
        let w = cfg.find_wiki_by_name(n).map(|w| w as *const HtmlWikiConfig);
        eq(&format!("wiki named {:?}", n), w, exp.map(|i| &cfg.wikis[i] as *const _))?;
    }
    for p in pages {
        let path = PathBuf::from(abs(p));
        let depth = ws.iter().filter(|w| p.starts_with(&w.path)).map(|w| w.path.len()).max();
        let got = cfg.find_wiki_index_by_path(&path);
        match (got, depth) {
            (None, None) => {}
            (Some(i), Some(d)) if i < ws.len() && p.starts_with(&ws[i].path) && ws[i].path.len() == d => {}
            x => return fail("by-path", format!("wiki of {:?} is {:?}", path, x.0)),
        }
        let w = cfg.find_wiki_by_path(&path).map(|w| w as *const HtmlWikiConfig);
        eq("wiki by path and index by path", w, got.map(|i| &cfg.wikis[i] as *const _))?;
        for (i, w) in ws.iter().enumerate() {
            let c = &cfg.wikis[i];
            let inside = p.starts_with(&w.path);
            let rel: &[String] = if inside { &p[w.path.len()..] } else { &p[..] };
            let what = |s: &str| format!("{} of {:?} in the wiki at {:?}", s, path, c.path);
            eq(&what("path within"), c.path_within(&path).map(|x| x.to_path_buf()), if inside { Some(PathBuf::from(rel.join("/"))) } else { None })?;
            let up = if inside && !rel.is_empty() { Some(PathBuf::from(vec![".."; rel.len() - 1].join("/"))) } else { None };
            eq(&what("path to root"), c.path_to_root(&path), up.clone())?;
            if rel.is_empty() {
                continue;
            }
            // output: relative path kept, extension replaced
            let mut o = w.out.clone();
            o.extend_from_slice(&rel[..rel.len() - 1]);
            o.push(with_ext(rel.last().unwrap(), ext));
            let exp = PathBuf::from(abs(&o));
            eq(&what("output"), guard("make_output_path", || c.make_output_path(&path, ext))?, exp.clone())?;
            let r = PathBuf::from(rel.join("/"));
            eq(&what("output by relative path"), guard("make_output_path", || c.make_output_path(&r, ext))?, exp.clone())?;
            // as the page being written
            let mut c2 = cfg.clone();
            c2.map_runtime(|mut r| {
                r.wiki_index = Some(i);
                r.page = path.clone();
                r
            });
            eq("active page", c2.active_page().to_path_buf(), path.clone())?;
            eq("active wiki", c2.find_active_wiki().map(|w| w.path.clone()), Some(c.path.clone()))?;
            eq("current wiki", c2.to_current_wiki().path, c.path.clone())?;
            let root = c2.to_active_page_path_to_wiki_root();
            eq(&what("root of the page"), root.clone(), up.unwrap_or_default())?;
            if inside {
                eq("page within its wiki", guard("as_active_page_path_within_wiki", || c2.as_active_page_path_within_wiki().to_path_buf())?, r)?;
                // walking up from the output arrives at the output root
                let mut at: Segs = o[..o.len() - 1].to_vec();
                for s in root.components() {
                    match s {
                        std::path::Component::ParentDir => {
                            at.pop();
                        }
                        s => return fail("root", format!("{:?} in the path to the root", s)),
                    }
                }
                eq(&what("output root reached"), at, w.out.clone())?;
            }
        }
        // without a wiki the page is alone in its directory
        if !p.is_empty() {
            let mut c2 = cfg.clone();
            c2.runtime = HtmlRuntimeConfig { wiki_index: None, page: path.clone() };
            eq("active wiki of a page without one", c2.find_active_wiki().map(|w| w.path.clone()), None)?;
            eq("wiki made for a page", c2.to_current_wiki().path, PathBuf::from(abs(&p[..p.len() - 1])))?;
            eq("root of a page without wiki", c2.to_active_page_path_to_wiki_root(), PathBuf::new())?;
            eq("page within the wiki made for it", guard("as_active_page_path_within_wiki", || c2.as_active_page_path_within_wiki().to_path_buf())?, PathBuf::from(p.last().unwrap()))?;
        }
    }
    // different pages of a wiki have different outputs
    for (i, w) in ws.iter().enumerate() {
        let of_wiki: Vec<&Segs> = pages.iter().filter(|p| p.len() > w.path.len() && p.starts_with(&w.path) && p.last().unwrap().ends_with(&format!(".{}", w.ext)) && !p.last().unwrap().starts_with('.')).collect();
        for (k, a) in of_wiki.iter().enumerate() {
            for b in &of_wiki[k + 1..] {
                let f = |p: &Segs| cfg.wikis[i].make_output_path(Path::new(&abs(p)), "html");
                if a != b && f(a) == f(b) {
                    return fail("collision", format!("{:?} and {:?} are both written to {:?}", a, b, f(a)));
                }
            }
        }
    }
    Ok(())
}

fn p23(g: &mut G) -> Case {
    let n = if g.chance(1, 15) { g.range(6, 14) } else { g.below(6) };
    let mut ws: Vec<W> = vec![];
    for i in 0..n {
        let path = if i > 0 && g.chance(1, 2) {
            // below, above or beside another wiki
            let mut p = ws[g.below(i)].path.clone();
            match g.below(4) {
                0 => p.extend(segs(g, 1, 2)),
                1 => {
                    p.pop();
                }
                2 => {
                    if let Some(l) = p.last_mut() {
                        l.push_str(g.s(&["x", ".d", " 2", "i"]));
                    }
                }
                _ => {}
            }
            p
        } else {
            segs(g, 0, 4)
        };
        let name = if g.coin() { Some(g.w(&["w", "W", "My Wiki", "my wiki", "", "0", "日本", "w "])) } else { None };
        ws.push(W { path, out: segs(g, 0, 3), name, ext: g.s(&["wiki", "md", "w"]).to_string() });
    }
    let wikis = ws
        .iter()
        .map(|w| {
            let slash = if g.chance(1, 5) && !w.path.is_empty() { "/" } else { "" };
            HtmlWikiConfig { path: PathBuf::from(format!("{}{}", abs(&w.path), slash)), path_html: PathBuf::from(abs(&w.out)), name: w.name.clone(), ext: w.ext.clone(), ..Default::default() }
        })
        .collect();
    let cfg = HtmlConfig { wikis, ..Default::default() };
    let mut pages: Vec<Segs> = vec![];
    for _ in 0..g.range(1, 6) {
        let ext;
        let mut p = if n > 0 && g.chance(4, 5) {
            let w = &ws[g.below(n)];
            ext = w.ext.clone();
            let mut p = w.path.clone();
            p.extend(segs(g, 0, 3));
            p
        } else {
            ext = "wiki".into();
            segs(g, 0, 4)
        };
        if !g.chance(1, 12) {
            p.push(page_name(g, &ext));
        }
        if g.chance(1, 6) && !pages.is_empty() {
            // nearly the same as another page
            p = pages[g.below(pages.len())].clone();
            if let Some(l) = p.last_mut() {
                *l = format!("{}{}", g.s(&["", "x", "."]), l).replacen('.', g.s(&[".", "..", "_"]), 1);
                // a name that begins with .. has no sensible extension
                while l.starts_with("..") {
                    l.remove(0);
                }
            }
        }
        pages.push(p);
    }
    let mut names: Vec<String> = ws.iter().filter_map(|w| w.name.clone()).collect();
    names.push(g.w(&["w", "W", "", "my wiki", "0", "wiki0"]));
    let ext = g.s(&["html", "x", "tar"]);
    let text = format!(
        "{}pages {:?}\nnames {:?} extension {:?}",
        ws.iter().zip(&cfg.wikis).map(|(w, c)| format!("wiki {:?} -> {} {:?} {:?}\n", c.path, abs(&w.out), w.name, w.ext)).collect::<String>(),
        pages.iter().map(|p| abs(p)).collect::<Vec<_>>(),
        names,
        ext
    );
    let out = p23_check(&ws, &cfg, &pages, &names, ext);
    let inside = pages.iter().filter(|p| ws.iter().any(|w| p.len() > w.path.len() && p.starts_with(&w.path))).count();
    Case { text, nontrivial: n >= 2 && inside >= 1, labels: vec![format!("{} wikis", n), format!("{} pages inside", inside)], out }
}

// ---------------------------------------------------------------- P24

#[derive(Clone, Copy)]
enum Ty {
    Bool,
    Str,
    Size,
    Char,
    /// absolute path that is made canonical
    Abs,
    Path,
    Uri,
    OptStr,
    OptPath,
}
use Ty::*;

fn home() -> String {
    std::env::var("HOME").unwrap_or_else(|_| "/".into())
}

/// (key, type, documented default)
type Table = Vec<(&'static str, Ty, Value)>;

fn html_table() -> Table {
    let tpl = HtmlTemplateConfig::default_text();
    vec![
        ("list.ignore_newline", Bool, json!(true)),
        ("paragraph.ignore_newline", Bool, json!(true)),
        ("link.base_url", Uri, json!("https://localhost/")),
        ("link.canonicalize", Bool, json!(false)),
        ("link.use_ugly_urls", Bool, json!(false)),
        ("header.table_of_contents", Str, json!("Contents")),
        ("code.theme", Str, json!("InspiredGitHub")),
        ("code.theme_dir", OptPath, Value::Null),
        ("code.server_side", Bool, json!(false)),
        ("code.syntax_dir", OptPath, Value::Null),
        ("comment.include", Bool, json!(false)),
        ("template.name", Str, json!("default")),
        ("template.ext", Str, json!("tpl")),
        ("template.dir", Path_, json!(format!("{}/vimwiki/templates", home()))),
        ("template.text", Str, json!(tpl)),
    ]
}
#[allow(non_upper_case_globals)]
const Path_: Ty = Ty::Path;

fn wiki_table() -> Table {
    vec![
        ("path", Abs, json!(format!("{}/vimwiki", home()))),
        ("path_html", Abs, json!(format!("{}/vimwiki_html", home()))),
        ("name", OptStr, Value::Null),
        ("css_name", Str, json!("style.css")),
        ("ext", Str, json!("wiki")),
        ("diary_rel_path", Path_, json!("diary")),
    ]
}

fn format_table() -> Table {
    vec![
        ("page.indent_str", Str, json!("    ")),
        ("page.separate_block_elements", Bool, json!(true)),
        ("blockquote.prefer_indented_blockquote", Bool, json!(false)),
        ("blockquote.trim_lines", Bool, json!(true)),
        ("comment.no_padding", Bool, json!(false)),
        ("comment.trim_content", Bool, json!(true)),
        ("definition_list.term_on_line_by_itself", Bool, json!(false)),
        ("definition_list.trim_terms", Bool, json!(true)),
        ("definition_list.trim_definitions", Bool, json!(true)),
        ("header.no_padding", Bool, json!(false)),
        ("header.trim_content", Bool, json!(true)),
        ("list.todo.incomplete_char", Char, json!(" ")),
        ("list.todo.partially_complete_1_char", Char, json!(".")),
        ("list.todo.partially_complete_2_char", Char, json!("o")),
        ("list.todo.partially_complete_3_char", Char, json!("O")),
        ("list.todo.complete_char", Char, json!("X")),
        ("list.todo.rejected_char", Char, json!("-")),
        ("paragraph.line_wrap_column", Size, json!(80)),
        ("paragraph.no_line_wrap", Bool, json!(false)),
        ("paragraph.trim_lines", Bool, json!(true)),
        ("table.no_padding", Bool, json!(false)),
    ]
}

/// the settings as the program sees them
fn html_fields(c: &HtmlConfig) -> Value {
    json!({
        "wikis": c.wikis.iter().map(wiki_fields).collect::<Vec<_>>(),
        "list": {"ignore_newline": c.list.ignore_newline},
        "paragraph": {"ignore_newline": c.paragraph.ignore_newline},
        "link": {"base_url": c.link.base_url.to_string(), "canonicalize": c.link.canonicalize, "use_ugly_urls": c.link.use_ugly_urls},
        "header": {"table_of_contents": c.header.table_of_contents},
        "code": {"theme": c.code.theme, "theme_dir": c.code.theme_dir, "server_side": c.code.server_side, "syntax_dir": c.code.syntax_dir},
        "comment": {"include": c.comment.include},
        "template": {"name": c.template.name, "ext": c.template.ext, "dir": c.template.dir, "text": c.template.text},
    })
}

fn wiki_fields(w: &HtmlWikiConfig) -> Value {
    json!({"path": w.path, "path_html": w.path_html, "name": w.name, "css_name": w.css_name, "ext": w.ext, "diary_rel_path": w.diary_rel_path})
}

fn format_fields(c: &VimwikiConfig) -> Value {
    let t = &c.list.todo;
    json!({
        "page": {"indent_str": c.page.indent_str, "separate_block_elements": c.page.separate_block_elements},
        "blockquote": {"prefer_indented_blockquote": c.blockquote.prefer_indented_blockquote, "trim_lines": c.blockquote.trim_lines},
        "comment": {"no_padding": c.comment.no_padding, "trim_content": c.comment.trim_content},
        "definition_list": {"term_on_line_by_itself": c.definition_list.term_on_line_by_itself, "trim_terms": c.definition_list.trim_terms, "trim_definitions": c.definition_list.trim_definitions},
        "header": {"no_padding": c.header.no_padding, "trim_content": c.header.trim_content},
        "list": {"todo": {"incomplete_char": t.incomplete_char, "partially_complete_1_char": t.partially_complete_1_char, "partially_complete_2_char": t.partially_complete_2_char, "partially_complete_3_char": t.partially_complete_3_char, "complete_char": t.complete_char, "rejected_char": t.rejected_char}},
        "paragraph": {"line_wrap_column": c.paragraph.line_wrap_column, "no_line_wrap": c.paragraph.no_line_wrap, "trim_lines": c.paragraph.trim_lines},
        "table": {"no_padding": c.table.no_padding},
    })
}

fn put(v: &mut Value, key: &str, x: Value) {
    let mut at = v;
    let ks: Vec<&str> = key.split('.').collect();
    for k in &ks[..ks.len() - 1] {
        at = at.as_object_mut().unwrap().entry(k.to_string()).or_insert_with(|| Value::Object(Map::new()));
    }
    at.as_object_mut().unwrap().insert(ks[ks.len() - 1].to_string(), x);
}

fn text(g: &mut G) -> String {
    match g.freq(&[4, 2]) {
        0 => g.w(&["", " ", "a b", "é日", "\"q\" \\ '", "%x%", "tab\t.", "line\nline\n", "a=b # c", "[x]", "\u{1f980}", "true", "1"]),
        _ => (0..g.small(0, 6)).map(|_| char::from_u32(g.range(0x20, 0x17f) as u32).unwrap()).filter(|c| !c.is_control()).collect(),
    }
}

/// (value to write, value it stands for)
fn value(g: &mut G, t: Ty) -> (Value, Value) {
    let one = |v: Value| (v.clone(), v);
    match t {
        Bool => one(json!(g.coin())),
        Str | OptStr => one(json!(text(g))),
        Size => one(json!(g.below(1 << 20) * *g.pick(&[1, 0, 4096]))),
        Char => one(json!(g.s(&["x", "X", " ", "✓", "é", "-", "\"", "\\", "🦀"]))),
        Ty::Path | OptPath => one(json!(g.s(&["", "rel/dir", "/abs/dir", "../up", "a b/é", "./x", "~/x", "$HOME/y", "dir/"]))),
        Uri => one(json!(g.s(&["https://example.com/", "http://h.org:8080/a/b", "https://u@h/x?q=1#f", "ftp://f.g/", "file:///x"]))),
        Abs => {
            let mut src = String::new();
            let mut v: Segs = vec![];
            match g.freq(&[5, 1, 1, 1]) {
                0 => {}
                1 => src.push('~'),
                2 => src.push_str("$HOME"),
                _ => src.push_str("${HOME}"),
            }
            if !src.is_empty() {
                v = home().split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            }
            for _ in 0..g.small(1, 5) {
                src.push('/');
                match g.freq(&[6, 1, 1, 1]) {
                    0 => {
                        let s = g.w(&["w", "My Wiki", "日本", "a.b", ".hid", "..x", "x~", "wiki.."]);
                        src.push_str(&s);
                        v.push(s);
                    }
                    1 => {
                        src.push_str("..");
                        v.pop();
                    }
                    2 => src.push('.'),
                    _ => {}
                }
            }
            if g.chance(1, 6) {
                src.push('/');
            }
            (json!(src), json!(abs(&v)))
        }
    }
}

fn fill(g: &mut G, t: &Table, file: &mut Value, exp: &mut Value) -> (usize, usize) {
    let all = g.chance(1, 10);
    let mut n = 0;
    for (k, ty, d) in t {
        put(exp, k, d.clone());
        if all || g.chance(1, 4) {
            let (a, b) = value(g, *ty);
            put(file, k, a);
            put(exp, k, b);
            n += 1;
        } else if g.chance(1, 8) {
            // the section is there but empty
            if let Some(i) = k.rfind('.') {
                let sec = &k[..i];
                if file.pointer(&format!("/{}", sec.replace('.', "/"))).is_none() {
                    put(file, sec, json!({}));
                }
            }
        }
    }
    (n, t.len())
}

fn toml_of(v: &Value) -> String {
    // tables after plain values, as TOML needs them
    fn conv(v: &Value) -> toml::Value {
        match v {
            Value::Bool(b) => toml::Value::Boolean(*b),
            Value::Number(n) => toml::Value::Integer(n.as_i64().unwrap()),
            Value::String(s) => toml::Value::String(s.clone()),
            Value::Array(a) => toml::Value::Array(a.iter().map(conv).collect()),
            Value::Object(m) => toml::Value::Table(m.iter().map(|(k, v)| (k.clone(), conv(v))).collect()),
            Value::Null => panic!("null"),
        }
    }
    toml::to_string(&conv(v)).expect("toml")
}

fn differ(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let n = Value::Null;
                if let Some(d) = differ(x.get(k).unwrap_or(&n), y.get(k).unwrap_or(&n), &format!("{}.{}", at, k)) {
                    return Some(d);
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (x, y))| differ(x, y, &format!("{}[{}]", at, i))),
        _ if a == b => None,
        _ => Some(format!("{} is {} instead of {}", at, a, b)),
    }
}

fn same(what: &str, got: &Value, exp: &Value) -> Result<(), Fail> {
    match differ(got, exp, "") {
        None => Ok(()),
        Some(d) => fail("setting", format!("{}: {}", what, d)),
    }
}

fn p24_html(file: &Value, exp: &Value) -> Result<(), Fail> {
    let t = toml_of(file);
    let c: HtmlConfig = guard("toml", || toml::from_str(&t))?.or_else(|e| fail("read", format!("TOML: {}\n{}", e, t)))?;
    same("read from TOML", &html_fields(&c), exp)?;
    let c2: HtmlConfig = guard("json", || serde_json::from_str(&file.to_string()))?.or_else(|e| fail("read", format!("JSON: {}", e)))?;
    same("read from JSON", &html_fields(&c2), exp)?;
    if c.runtime.wiki_index.is_some() {
        return fail("runtime", "the configuration file sets what is known at run time only");
    }
    let j = serde_json::to_string(&c).or_else(|e| fail("write", e.to_string()))?;
    let back: HtmlConfig = serde_json::from_str(&j).or_else(|e| fail("read", format!("own JSON: {}\n{}", e, j)))?;
    same("JSON and back", &html_fields(&back), exp)?;
    let j = toml::to_string(&c).or_else(|e| fail("write", format!("TOML: {}", e)))?;
    let back: HtmlConfig = toml::from_str(&j).or_else(|e| fail("read", format!("own TOML: {}\n{}", e, j)))?;
    same("TOML and back", &html_fields(&back), exp)
}

fn p24_format(file: &Value, exp: &Value) -> Result<(), Fail> {
    let t = toml_of(file);
    let c: VimwikiConfig = guard("toml", || toml::from_str(&t))?.or_else(|e| fail("read", format!("TOML: {}\n{}", e, t)))?;
    same("read from TOML", &format_fields(&c), exp)?;
    let c2: VimwikiConfig = guard("json", || serde_json::from_str(&file.to_string()))?.or_else(|e| fail("read", format!("JSON: {}", e)))?;
    same("read from JSON", &format_fields(&c2), exp)?;
    let j = serde_json::to_string(&c).or_else(|e| fail("write", e.to_string()))?;
    let back: VimwikiConfig = serde_json::from_str(&j).or_else(|e| fail("read", format!("own JSON: {}\n{}", e, j)))?;
    same("JSON and back", &format_fields(&back), exp)?;
    let j = toml::to_string(&c).or_else(|e| fail("write", format!("TOML: {}", e)))?;
    let back: VimwikiConfig = toml::from_str(&j).or_else(|e| fail("read", format!("own TOML: {}\n{}", e, j)))?;
    same("TOML and back", &format_fields(&back), exp)
}

fn defaults() -> Result<(), Fail> {
    let mut e = json!({"wikis": []});
    for (k, _, d) in html_table() {
        put(&mut e, k, d);
    }
    same("HtmlConfig::default()", &html_fields(&HtmlConfig::default()), &e)?;
    let mut e = json!({});
    for (k, _, d) in wiki_table() {
        put(&mut e, k, d);
    }
    same("HtmlWikiConfig::default()", &wiki_fields(&HtmlWikiConfig::default()), &e)?;
    let mut e = json!({});
    for (k, _, d) in format_table() {
        put(&mut e, k, d);
    }
    same("VimwikiConfig::default()", &format_fields(&VimwikiConfig::default()), &e)
}

fn p24(g: &mut G) -> Case {
    let mut file = json!({});
    let mut exp = json!({});
    let (n, total, out, kind);
    match g.below(5) {
        0 | 1 => {
            kind = "HTML";
            let (mut a, mut b) = fill(g, &html_table(), &mut file, &mut exp);
            let mut ws = vec![];
            let mut es = vec![];
            for _ in 0..g.small(0, 4) {
                let mut w = json!({});
                let mut e = json!({});
                let (x, y) = fill(g, &wiki_table(), &mut w, &mut e);
                a += x;
                b += y;
                ws.push(w);
                es.push(e);
            }
            if !ws.is_empty() || g.coin() {
                put(&mut file, "wikis", json!(ws));
            }
            put(&mut exp, "wikis", json!(es));
            n = a;
            total = b;
            out = defaults().and_then(|_| p24_html(&file, &exp));
        }
        2 => {
            // a path that is not absolute is refused
            kind = "relative";
            let k = g.s(&["path", "path_html"]);
            let p = g.w(&["rel", "a/b", "./x", "../x", "", ".", "a/../b", "x~/y"]);
            file = json!({"wikis": [{k: p}]});
            n = 1;
            total = 2;
            out = match toml::from_str::<HtmlConfig>(&toml_of(&file)) {
                Err(_) => Ok(()),
                Ok(c) => fail("relative", format!("relative path taken as {:?} {:?}", c.wikis[0].path, c.wikis[0].path_html)),
            };
        }
        _ => {
            kind = "format";
            let x = fill(g, &format_table(), &mut file, &mut exp);
            n = x.0;
            total = x.1;
            out = p24_format(&file, &exp);
        }
    }
    Case { text: format!("{}\n{}", kind, serde_json::to_string_pretty(&file).unwrap()), nontrivial: n > 0 && n < total, labels: vec![kind.to_string()], out }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P23", rule: "at least two wikis and a page inside one of them", quick: 550000, thorough: 8000000, case: p23, text: None, assumptions: &["paths are absolute and canonical", "names do not begin with ..", "wikis with the same path: either may be found by path"], threads: 8, batch: None },
    Prop { id: "P24", rule: "some but not all settings are given", quick: 400000, thorough: 4000000, case: p24, text: None, assumptions: &["paths without undefined variables"], threads: 8, batch: None },
];
