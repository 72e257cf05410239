//! P29: programs made of macro calls, compiled and run, against the parser at run time
use super::cli::{first_diff, sorted};
use crate::engine::*;
use crate::gen;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};
use vimwiki::*;

const BINS: &[(&str, &str)] = &[("a0", "vimwiki"), ("b0", "wk"), ("a1", "vimwiki"), ("b1", "wk"), ("a2", "vimwiki"), ("b2", "wk"), ("a3", "vimwiki"), ("b3", "wk")];
const SRC: &str = "/verif/target/macros-src";

macro_rules! kinds {
    ($($n:literal => $t:ty),* $(,)?) => {
        fn runtime(kind: &str, s: &str) -> Option<Value> {
            let l = Language::from_vimwiki_str(s);
            match kind {
                "page" => l.parse::<Page>().ok().map(|x| serde_json::to_value(&x).unwrap()),
                // an element by itself need not have room for its region
                $($n => l.parse::<$t>().ok().map(|x| serde_json::to_value((x.as_inner(), x.region())).unwrap()),)*
                _ => unreachable!("{}", kind),
            }
        }
    };
}
kinds! {
    "block_element" => Located<BlockElement>,
    "inline_element_container" => Located<InlineElementContainer>,
    "inline_element" => Located<InlineElement>,
    "blockquote" => Located<Blockquote>,
    "comment" => Located<Comment>,
    "line_comment" => Located<LineComment>,
    "multi_line_comment" => Located<MultiLineComment>,
    "definition_list" => Located<DefinitionList>,
    "divider" => Located<Divider>,
    "header" => Located<Header>,
    "link" => Located<Link>,
    "list" => Located<List>,
    "list_item" => Located<ListItem>,
    "code_inline" => Located<CodeInline>,
    "math_inline" => Located<MathInline>,
    "math_block" => Located<MathBlock>,
    "paragraph" => Located<Paragraph>,
    "placeholder" => Located<Placeholder>,
    "code_block" => Located<CodeBlock>,
    "table" => Located<Table>,
    "tags" => Located<Tags>,
    "decorated_text" => Located<DecoratedText>,
    "keyword" => Located<Keyword>,
    "text" => Located<Text>,
}

fn kind_of(g: &mut G, e: &Element) -> &'static str {
    let general = g.chance(1, 4);
    match e {
        Element::Block(_) if general => "block_element",
        Element::Inline(_) if general => "inline_element",
        Element::Block(b) => match b {
            BlockElement::Blockquote(_) => "blockquote",
            BlockElement::CodeBlock(_) => "code_block",
            BlockElement::DefinitionList(_) => "definition_list",
            BlockElement::Divider(_) => "divider",
            BlockElement::Header(_) => "header",
            BlockElement::List(_) => "list",
            BlockElement::MathBlock(_) => "math_block",
            BlockElement::Paragraph(_) => "paragraph",
            BlockElement::Placeholder(_) => "placeholder",
            BlockElement::Table(_) => "table",
        },
        Element::Inline(i) => match i {
            InlineElement::Text(_) => "text",
            InlineElement::DecoratedText(_) => "decorated_text",
            InlineElement::Keyword(_) => "keyword",
            InlineElement::Link(_) => "link",
            InlineElement::Tags(_) => "tags",
            InlineElement::Code(_) => "code_inline",
            InlineElement::Math(_) => "math_inline",
            InlineElement::Comment(c) => match (g.below(2), c) {
                (0, _) => "comment",
                (_, Comment::Line(_)) => "line_comment",
                (_, Comment::MultiLine(_)) => "multi_line_comment",
            },
        },
        Element::InlineBlock(InlineBlockElement::ListItem(_)) => "list_item",
        Element::InlineBlock(_) => "inline_element_container",
    }
}

struct Item {
    kind: &'static str,
    call: String,
    text: String,
    labels: Vec<String>,
    /// nothing where the parser rejects the text
    expect: Option<Value>,
}

fn blank(l: &str) -> bool {
    l.trim().is_empty()
}

/// the text that is parsed: no blank lines around it and, unless raw, no common indentation
fn inner(value: &str, raw: bool) -> Option<String> {
    let ls: Vec<&str> = value.lines().collect();
    let a = ls.iter().position(|l| !blank(l))?;
    let b = ls.iter().rposition(|l| !blank(l))?;
    let ls = &ls[a..=b];
    let ind = |l: &str| l.chars().take_while(|c| c.is_whitespace()).count();
    let m = if raw { 0 } else { ls.iter().filter(|l| !blank(l)).map(|l| ind(l)).min().unwrap_or(0) };
    Some(ls.iter().map(|l| l.chars().skip(m).collect::<String>()).collect::<Vec<_>>().join("\n"))
}

fn map_strings(v: &Value, f: &dyn Fn(&str) -> String) -> Value {
    match v {
        Value::String(s) => Value::String(f(s)),
        Value::Array(a) => Value::Array(a.iter().map(|x| map_strings(x, f)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (f(k), if k == "uri_ref" { v.clone() } else { map_strings(v, f) })).collect()),
        v => v.clone(),
    }
}

/// number of strings with the character, apart from addresses
fn occurrences(v: &Value, c: char) -> usize {
    match v {
        Value::String(s) => s.matches(c).count(),
        Value::Array(a) => a.iter().map(|x| occurrences(x, c)).sum(),
        Value::Object(m) => m.iter().map(|(k, v)| k.matches(c).count() + if k == "uri_ref" { 0 } else { occurrences(v, c) }).sum(),
        _ => 0,
    }
}

const NAMES: &[&str] = &["name", "x", "value2", "r"];

struct Arg {
    expr: String,
    string: Option<String>,
    int: i64,
}

fn arg(g: &mut G) -> Arg {
    match g.below(5) {
        0 => Arg { expr: "\"cool\"".into(), string: Some("cool".into()), int: 0 },
        1 => Arg { expr: "42".into(), string: None, int: 42 },
        2 => Arg { expr: "::std::string::String::from(\"a *b* {}\")".into(), string: Some("a *b* {}".into()), int: 0 },
        3 => Arg { expr: "1 + 2".into(), string: None, int: 3 },
        _ => {
            let w = g.anyword(5);
            Arg { expr: format!("{:?}", w), string: Some(w), int: 0 }
        }
    }
}

fn spec(g: &mut G, a: &Arg) -> (&'static str, String) {
    let k = g.freq(&[5, 1, 1, 1, 1, 1]);
    match &a.string {
        Some(s) => match k {
            0 => ("", s.clone()),
            1 => (":>8", format!("{:>8}", s)),
            2 => (":<6", format!("{:<6}", s)),
            3 => (":^7", format!("{:^7}", s)),
            4 => (":?", format!("{:?}", s)),
            _ => (":-^9", format!("{:-^9}", s)),
        },
        None => match k {
            0 => ("", a.int.to_string()),
            1 => (":>8", format!("{:>8}", a.int)),
            2 => (":05", format!("{:05}", a.int)),
            3 => (":+", format!("{:+}", a.int)),
            4 => (":x", format!("{:x}", a.int)),
            _ => (":?", format!("{:?}", a.int)),
        },
    }
}

/// a text with format arguments: the text, the arguments as source, what the parser gives for it
fn formatted(g: &mut G, kind: &str, text: &str) -> Option<(String, String, Value)> {
    let pos: Vec<Arg> = (0..g.small(1, 4)).map(|_| arg(g)).collect();
    let named: Vec<(&str, Arg)> = NAMES.iter().take(g.small(0, 4)).map(|n| (*n, arg(g))).collect();
    let spots: Vec<usize> = text
        .char_indices()
        .zip(text.char_indices().skip(1))
        .filter(|((_, a), (_, b))| a.is_ascii_alphabetic() && (b.is_ascii_alphabetic() || *b == ' '))
        .map(|(_, (i, _))| i)
        .collect();
    let mut at: BTreeSet<usize> = BTreeSet::new();
    if !spots.is_empty() {
        for _ in 0..g.small(1, 5) {
            at.insert(spots[g.below(spots.len())]);
        }
    }
    // the order in which elements of lists and maps use arguments is open
    let ordered = at.len() <= 1 || ["paragraph", "header", "blockquote", "text", "code_inline", "math_inline", "code_block", "math_block"].contains(&kind);
    let mut next = 0;
    let mut fills: Vec<(String, String)> = vec![];
    for _ in &at {
        let k = g.below(3);
        if k == 0 && ordered && next < pos.len() {
            let (s, v) = spec(g, &pos[next]);
            next += 1;
            fills.push((format!("{{{}}}", s), v));
        } else if k == 2 && !named.is_empty() {
            let i = g.below(named.len());
            let (s, v) = spec(g, &named[i].1);
            fills.push((format!("{{{}{}}}", named[i].0, s), v));
        } else {
            let i = g.below(pos.len());
            let (s, v) = spec(g, &pos[i]);
            fills.push((format!("{{{}{}}}", i, s), v));
        }
    }
    let mut marks: Vec<char> = vec![];
    let mut c = 0x100u32;
    while marks.len() < fills.len() {
        let x = char::from_u32(c).unwrap();
        if !text.contains(x) {
            marks.push(x);
        }
        c += 1;
    }
    let build = |f: &dyn Fn(usize) -> String| {
        let mut o = String::new();
        let mut last = 0;
        for (k, i) in at.iter().enumerate() {
            o.push_str(&text[last..*i]);
            o.push_str(&f(k));
            last = *i;
        }
        o.push_str(&text[last..]);
        o
    };
    let hole = |k: usize| fills[k].0.clone();
    // stands for the k-th argument in the same number of bytes
    let stand = |k: usize| format!("{}{}", marks[k], "z".repeat(fills[k].0.len() - 2));
    let with_holes = build(&hole);
    let with_marks = build(&stand);
    let a = runtime(kind, &inner(&with_holes, true)?)?;
    let b = runtime(kind, &inner(&with_marks, true)?)?;
    let swap = |v: &Value, f: &dyn Fn(usize) -> String| {
        map_strings(v, &|s: &str| {
            let mut o = s.to_string();
            for k in 0..marks.len() {
                o = o.replace(&stand(k), &f(k));
            }
            o
        })
    };
    if occurrences(&a, '{') != fills.len() || occurrences(&a, '}') != fills.len() || marks.iter().any(|m| occurrences(&b, *m) != 1) || sorted(&swap(&b, &hole)) != sorted(&a) {
        return None;
    }
    let mut args = String::new();
    for p in &pos {
        args.push_str(&format!(", {}", p.expr));
    }
    for (n, p) in &named {
        args.push_str(&format!(", {} = {}", n, p.expr));
    }
    Some((with_holes, args, swap(&b, &|k| fills[k].1.clone())))
}

fn item(g: &mut G) -> Item {
    let mut labels = vec![];
    let (kind, text) = match g.freq(&[3, 2, 4, 1]) {
        0 => ("page", gen::doc(g, &gen::ALL, 1, 3).src),
        k => {
            let src = gen::doc(g, &gen::ALL, 1, if k == 1 { 1 } else { 3 }).src;
            let p = Language::from_vimwiki_str(&src).parse::<Page>().map(|p| p.into_owned()).unwrap_or_default();
            let mut all: Vec<Located<Element>> = vec![];
            let mut todo: Vec<Located<Element>> = p.into_children().into_iter().map(|x| x.map(Element::from)).collect();
            while let Some(e) = todo.pop() {
                all.push(e.clone());
                if k >= 2 {
                    todo.extend(e.into_inner().into_children());
                }
            }
            if all.is_empty() {
                ("page", src)
            } else if k == 3 {
                ("inline_element_container", gen::inline_run(g, gen::PARA, &[], 2, 4).src)
            } else {
                let e = &all[g.below(all.len())];
                let r = e.region();
                (kind_of(g, e.as_inner()), src.get(r.offset()..r.offset() + r.len()).unwrap_or("").to_string())
            }
        }
    };
    let raw = g.coin();
    let mut text = text.replace('\r', "");
    let mut name = format!("vimwiki_{}{}", kind, if raw { "_raw" } else { "" });
    let mut args = String::new();
    let mut expect = None;
    if g.chance(1, 3) {
        if let Some((t, a, v)) = formatted(g, kind, &text) {
            // only where the text is parsed as it is
            if inner(&t, raw) == inner(&t, true) {
                text = t;
                args = a;
                expect = Some(v);
                name.push_str("_format");
                labels.push("format".to_string());
            }
        }
    }
    // layout of the literal in the program
    if !raw && g.coin() {
        let n = g.range(1, 8);
        let by = if g.chance(1, 8) { "\t".repeat(n) } else { " ".repeat(n) };
        text = text.split('\n').map(|l| if expect.is_none() && blank(l) && g.coin() { l.to_string() } else { format!("{}{}", by, l) }).collect::<Vec<_>>().join("\n");
        labels.push("indented".into());
    }
    if g.coin() {
        text = format!("{}{}", ["\n", "\n\n", "  \n"][g.below(3)], text);
    }
    if g.coin() {
        text = format!("{}{}", text, ["\n", "\n\n", "\n   ", "\n    \n"][g.below(4)]);
    }
    if expect.is_none() {
        expect = inner(&text, raw).and_then(|t| runtime(kind, &t));
    }
    let hashes = "#".repeat(1 + text.matches('#').count().min(200));
    let lit = match g.freq(&[6, 2, 1]) {
        1 => {
            labels.push("escapes".into());
            format!("{:?}", text)
        }
        2 if text.is_ascii() => {
            labels.push("bytes".into());
            format!("b{:?}", text)
        }
        _ => format!("r{}\"{}\"{}", hashes, text, hashes),
    };
    let comma = if g.chance(1, 6) { "," } else { "" };
    let (o, c) = *g.pick(&[("(", ")"), ("{", "}"), ("[", "]")]);
    labels.push(kind.to_string());
    Item { kind, call: format!("{}!{}{}{}{}{}", name, o, lit, args, comma, c), text, labels, expect }
}

enum Res {
    Value(Value),
    CompileError(String),
    /// the compiler does not survive the call
    Crash(String),
    /// not decided because of another call that the compiler does not survive
    Open,
    Panic,
}

fn cargo() -> Command {
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "-q", "--manifest-path", "/verif/macros/Cargo.toml", "--message-format=short"]).env("CARGO_TARGET_DIR", "/verif/target/macros").stdin(Stdio::null());
    c
}

/// writes programs made of the calls; per program the lines of each call
fn programs(calls: &BTreeMap<usize, (String, &'static str)>, left: &[usize]) -> Vec<Vec<(usize, usize, usize)>> {
    let mut spans: Vec<Vec<(usize, usize, usize)>> = vec![];
    for (b, (bin, krate)) in BINS.iter().enumerate() {
        let mut s = String::from("#![allow(warnings)]\n");
        let mut sp = vec![];
        let mine: Vec<usize> = left.iter().enumerate().filter(|(k, _)| k % BINS.len() == b).map(|x| *x.1).collect();
        let mut line = 2;
        for i in &mine {
            let f = format!("fn i{}() -> ::serde_json::Value {{\nlet v = ::{}::macros::{};\n::serde_json::to_value({}).unwrap()\n}}\n", i, krate, calls[i].0, if calls[i].1 == "page" { "&v" } else { "(v.as_inner(), v.region())" });
            let n = f.matches('\n').count();
            sp.push((line, line + n - 1, *i));
            line += n;
            s.push_str(&f);
        }
        s.push_str("fn main() {\n    ::std::panic::set_hook(Box::new(|_| {}));\n");
        for i in &mine {
            s.push_str(&format!("    run({}, i{});\n", i, i));
        }
        s.push_str("}\nfn run(i: usize, f: fn() -> ::serde_json::Value) {\n    match ::std::panic::catch_unwind(f) {\n        Ok(v) => println!(\"{}\\t{}\", i, v),\n        Err(_) => println!(\"{}\\tpanic\", i),\n    }\n}\n");
        std::fs::write(format!("{}/{}.rs", SRC, bin), s).unwrap();
        spans.push(sp);
    }
    spans
}

/// compiles and runs the programs
fn execute(calls: &BTreeMap<usize, (String, &'static str)>) -> BTreeMap<usize, Res> {
    let mut res: BTreeMap<usize, Res> = BTreeMap::new();
    std::fs::create_dir_all(SRC).unwrap();
    let mut last = String::new();
    for _ in 0..30 {
        let left: Vec<usize> = calls.keys().copied().filter(|i| !res.contains_key(i)).collect();
        let spans = programs(calls, &left);
        let o = cargo().output().expect("cargo");
        if !o.status.success() {
            last = String::from_utf8_lossy(&o.stderr).to_string();
            let mut found = false;
            for l in last.lines() {
                for (b, (bin, _)) in BINS.iter().enumerate() {
                    let mark = format!("{}.rs:", bin);
                    if let (Some(k), true) = (l.find(&mark), l.contains("error")) {
                        let at: usize = l[k + mark.len()..].split(':').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        if let Some((_, _, i)) = spans[b].iter().find(|(x, y, _)| *x <= at && at <= *y) {
                            found = true;
                            res.entry(*i).or_insert_with(|| Res::CompileError(l.to_string()));
                        }
                    }
                }
            }
            if !found {
                // the compiler itself failed: look for the call that makes it
                let fails = |of: &[usize]| {
                    programs(calls, of);
                    !cargo().output().expect("cargo").status.success()
                };
                if fails(&[]) {
                    break;
                }
                let mut of = &left[..];
                while of.len() > 1 {
                    let (a, b) = of.split_at(of.len() / 2);
                    of = if fails(a) { a } else { b };
                }
                if of.is_empty() || !fails(of) {
                    break;
                }
                res = left.iter().map(|i| (*i, Res::Open)).collect();
                res.insert(of[0], Res::Crash(last.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join("\n")));
                return res;
            }
            continue;
        }
        for (bin, _) in BINS {
            let o = Command::new(format!("/verif/target/macros/debug/{}", bin)).stdin(Stdio::null()).output().expect("program");
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                let (i, v) = l.split_once('\t').expect("line");
                let v = if v == "panic" { Res::Panic } else { Res::Value(serde_json::from_str(v).expect("json")) };
                res.insert(i.parse().unwrap(), v);
            }
        }
        return res;
    }
    eprintln!("the programs cannot be compiled:\n{}", last);
    std::process::exit(3)
}

fn batch(gs: Vec<G>) -> Vec<(Vec<u32>, Case)> {
    let items: Vec<(Vec<u32>, Item)> = in_big_stack(move || {
        gs.into_iter()
            .map(|mut g| {
                let _at = g.begin();
                let i = guard("making the call", || item(&mut g)).unwrap_or_else(|e| Item { kind: "", call: e.msg, text: String::new(), labels: vec!["panic".into()], expect: None });
                (g.tape, i)
            })
            .collect()
    });
    let calls: BTreeMap<usize, (String, &'static str)> = items.iter().enumerate().filter(|(_, i)| i.1.expect.is_some()).map(|(k, i)| (k, (i.1.call.clone(), i.1.kind))).collect();
    let mut res = if calls.is_empty() { BTreeMap::new() } else { execute(&calls) };
    items
        .into_iter()
        .enumerate()
        .map(|(k, (tape, i))| {
            let mut labels = i.labels;
            let out = match (&i.expect, res.remove(&k)) {
                (None, _) if i.kind.is_empty() => fail("panic", i.call.clone()),
                (None, _) => {
                    labels = vec!["not parsed".into()];
                    Ok(())
                }
                (_, None) => fail("no-result", "the program said nothing"),
                (_, Some(Res::Panic)) => fail("panic", "the program panicked"),
                (_, Some(Res::Crash(e))) => fail("compiler", format!("the compiler does not survive this: {}", e)),
                (_, Some(Res::Open)) => Ok(()),
                (_, Some(Res::CompileError(e))) => fail("compile", format!("not accepted by the compiler: {}", e)),
                (Some(e), Some(Res::Value(v))) => {
                    let (a, b) = (sorted(&v), sorted(e));
                    if a == b {
                        Ok(())
                    } else {
                        fail("differs", first_diff(&a, &b, "$"))
                    }
                }
            };
            let text = format!("{} // {}\n{}", i.call, i.kind, i.text.escape_debug());
            (tape, Case { text, nontrivial: i.expect.is_some(), labels, out })
        })
        .collect()
}

fn single(_: &mut G) -> Case {
    unreachable!()
}

pub static PROPS: &[Prop] = &[Prop { id: "P29", rule: "the text is accepted by the parser, so the call has to compile", quick: 12000, thorough: 40000, case: single, text: None, assumptions: &["arguments of the formatting macros only stand in plain text of the document", "empty argument references only where the order is fixed"], threads: 16, batch: Some(batch) }];
