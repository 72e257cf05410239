//! P18, P21, P22, P32: the document as a data structure
use super::format;
use super::html;
use super::parse::parse;
use crate::engine::*;
use crate::gen;
use crate::norm::{self, Tree};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vimwiki::*;

/// structure, content and complete positions
pub fn full(t: &Tree) -> String {
    fn go(t: &Tree, d: usize, o: &mut String) {
        let r = t.r.map(|r| format!("@{}+{}^{}", r.offset(), r.len(), r.depth())).unwrap_or_default();
        o.push_str(&format!("{}{} {:?} {}\n", "  ".repeat(d), t.k, t.s, r));
        for c in &t.c {
            go(c, d + 1, o);
        }
    }
    let mut o = String::new();
    go(t, 0, &mut o);
    o
}

pub fn first_line_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{} became {}", x, y);
        }
    }
    format!("{} lines became {} lines", a.lines().count(), b.lines().count())
}

// ---------------------------------------------------------------- P18

fn same(what: &str, a: &Page, b: &Page) -> Result<(), Fail> {
    let (x, y) = (full(&norm::page(a)), full(&norm::page(b)));
    if x != y {
        return fail(&format!("{}-differs", what), first_line_diff(&x, &y));
    }
    if !a.strict_eq(b) || !b.strict_eq(a) {
        return fail(&format!("{}-strict", what), "not strictly equal to the original");
    }
    if a != b || b != a {
        return fail(&format!("{}-eq", what), "not equal to the original");
    }
    Ok(())
}

/// copies of every located element of the page by itself
fn element_copies(p: &Page) -> Result<(), Fail> {
    let mut todo: Vec<Located<Element>> = p.clone().into_children().into_iter().map(|x| x.map(Element::from)).collect();
    while let Some(e) = todo.pop() {
        let borrowed = e.as_ref().map(|x| x.to_borrowed());
        let owned = e.clone().map(|x| x.into_owned());
        let t = full(&element(&e));
        for (what, c) in [("element-borrow", &borrowed), ("element-own", &owned)] {
            let y = full(&element(c));
            if t != y {
                return fail(what, first_line_diff(&t, &y));
            }
            if !e.strict_eq(c) || &e != c {
                return fail(what, "copy is not equal");
            }
        }
        let j = serde_json::to_string(&e).or_else(|x| fail("element-json", format!("{}", x)))?;
        let back: Located<Element> = serde_json::from_str(&j).or_else(|x| fail("element-json", format!("{} from {}", x, j)))?;
        if full(&element(&back)) != t || !back.strict_eq(&e) {
            return fail("element-json", format!("read back from {} differs", j));
        }
        todo.extend(e.into_inner().into_children());
    }
    Ok(())
}

fn outputs(p: &Page, f: &VimwikiConfig) -> (Result<String, String>, Result<String, String>) {
    (
        p.to_vimwiki_string(f.clone()).map_err(|e| e.to_string()),
        p.to_html_string(HtmlConfig { wikis: html::wikis(), ..Default::default() }).map_err(|e| e.to_string()),
    )
}

fn copies(src: &str, f: &VimwikiConfig) -> Result<(), Fail> {
    let p = parse(src)?;
    let clone = p.clone();
    same("clone", &p, &clone)?;
    let b = p.to_borrowed();
    same("borrow", &p, &b)?;
    let bo = b.clone().into_owned();
    same("borrow-own", &p, &bo)?;
    let owned: Page<'static> = p.clone().into_owned();
    same("own", &p, &owned)?;
    let oo = owned.clone().into_owned();
    same("own-own", &p, &oo)?;
    let j = guard("to_string", || serde_json::to_string(&p))?.or_else(|e| fail("json-write", format!("{}", e)))?;
    let back: Page = guard("from_str", || serde_json::from_str::<Page<'static>>(&j))?.or_else(|e| fail("json-read", format!("{} from {}", e, j)))?;
    same("json", &p, &back)?;
    let v = serde_json::to_value(&p).or_else(|e| fail("json-write", format!("{}", e)))?;
    let vback: Page = serde_json::from_value(v).or_else(|e| fail("json-read", format!("{}", e)))?;
    same("json-value", &p, &vback)?;
    let want = outputs(&p, f);
    for (what, c) in [("clone", &clone), ("borrow", &b), ("own", &owned), ("json", &back)] {
        if outputs(c, f) != want {
            return fail("outputs", format!("the outputs of the copy by {} differ", what));
        }
    }
    element_copies(&p)
}

pub fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// equality and strict equality against equality of structure and of positions
fn pair(a: &str, b: &str) -> Result<String, Fail> {
    let (p, q) = (parse(a)?, parse(b)?);
    compared(&p, &q, a.contains('%') || b.contains('%'))
}

/// names of variants that can stand for each other in the written form of a page
const VARIANTS: &[&[&str]] = &[
    &["bold", "italic", "strikeout", "superscript", "subscript"],
    &["incomplete", "partially_complete1", "partially_complete2", "partially_complete3", "complete", "rejected"],
    &["hyphen", "asterisk"],
    &["number", "pound", "lowercase_alphabet", "uppercase_alphabet", "lowercase_roman", "uppercase_roman"],
    &["none", "period", "paren"],
    &["none", "left", "center", "right"],
    &["from_left", "from_above"],
    &["todo", "done", "started", "fixme", "fixed", "xxx"],
    &["wiki", "transclusion", "raw"],
    &["line", "multi_line"],
    &["text", "code", "math"],
    &["title", "template"],
    &["TODO", "DONE", "STARTED", "FIXME", "FIXED", "XXX"],
];

/// a page that differs from another in one place of its written form
fn touched(g: &mut G, p: &Page) -> Result<Option<(Page<'static>, String)>, Fail> {
    use serde_json::Value;
    fn places<'v>(v: &'v mut Value, at: &str, out: &mut Vec<(String, &'v mut Value)>) {
        match v {
            Value::Array(x) => x.iter_mut().enumerate().for_each(|(i, y)| places(y, &format!("{}/{}", at, i), out)),
            Value::Object(x) => x.iter_mut().for_each(|(k, y)| places(y, &format!("{}/{}", at, k), out)),
            _ => out.push((at.to_string(), v)),
        }
    }
    let mut v = serde_json::to_value(p).or_else(|e| fail("json-write", format!("{}", e)))?;
    let mut out = vec![];
    places(&mut v, "", &mut out);
    // what is counted from the cells
    out.retain(|(at, _)| !at.ends_with("/row_cnt") && !at.ends_with("/col_cnt"));
    // positions and kinds of elements are not the most interesting places
    if !g.chance(1, 4) {
        out.retain(|(at, _)| !at.contains("/region/"));
    }
    let special = |v: &Value| v.as_str().map_or(false, |s| VARIANTS.iter().any(|x| x.contains(&s)));
    if g.coin() && out.iter().any(|(_, v)| special(v)) {
        out.retain(|(_, v)| special(v));
    }
    if out.is_empty() {
        return Ok(None);
    }
    let i = g.below(out.len());
    let (at, x) = &mut out[i];
    let y = match x {
        Value::String(s) => {
            let options: Vec<&str> = VARIANTS.iter().filter(|o| o.contains(&s.as_str())).flat_map(|o| o.iter().copied()).filter(|o| o != s).collect();
            let mut cs: Vec<char> = s.chars().collect();
            if !options.is_empty() && !g.chance(1, 6) {
                cs = g.s(&options).chars().collect();
            } else {
                match g.below(3) {
                    0 => cs.push('a'),
                    1 if !cs.is_empty() => {
                        cs.pop();
                    }
                    _ if !cs.is_empty() => {
                        let k = g.below(cs.len());
                        cs[k] = *g.pick(&['a', 'b', '1', '2', 'Z', ' ', 'é']);
                    }
                    _ => cs.push(' '),
                }
            }
            Value::String(cs.into_iter().collect())
        }
        Value::Number(n) => {
            let n = n.as_i64().unwrap_or(0);
            let m = match g.below(3) {
                0 => n + 1,
                1 => n - 1,
                _ => n + 256,
            };
            Value::from(m)
        }
        Value::Bool(b) => Value::Bool(!*b),
        _ => g.pick(&[Value::from("a"), Value::from(1), Value::from("incomplete"), Value::from(Vec::<String>::new()), serde_json::json!({})]).clone(),
    };
    let y = if g.chance(1, 12) { Value::Null } else { y };
    let what = format!("{} from {} to {}", at, x, y);
    **x = y;
    // not every such form is a page
    Ok(guard("from_value", || serde_json::from_value::<Page<'static>>(v))?.ok().map(|q| (q, what)))
}

fn compared(p: &Page, q: &Page, percent: bool) -> Result<String, Fail> {
    let (tp, tq) = (norm::page(p), norm::page(q));
    let eq = tp == tq;
    let strict = full(&tp) == full(&tq);
    let got = (p == q, q == p);
    if got.0 != got.1 {
        return fail("eq-symmetry", format!("a == b is {}, b == a is {}", got.0, got.1));
    }
    let sgot = (p.strict_eq(&q), q.strict_eq(&p));
    if sgot.0 != sgot.1 {
        return fail("strict-symmetry", format!("{:?}", sgot));
    }
    if sgot.0 && !got.0 {
        return fail("strict-not-eq", "strictly equal, but not equal");
    }
    // addresses are compared after normalisation, terms and definitions by their text
    let loose = tp.has("DefList") || tq.has("DefList") || percent;
    if eq && !got.0 || !eq && got.0 && !loose {
        return fail("eq", format!("equality is {}, the structures say {}", got.0, eq));
    }
    if strict && !sgot.0 || !strict && sgot.0 && !percent {
        return fail("strict", format!("strict equality is {}, structures and positions say {}", sgot.0, strict));
    }
    // equal inline elements have equal hashes
    let inl = |p: &Page| -> Vec<Located<InlineElement<'static>>> {
        let mut out = vec![];
        let mut todo: Vec<Located<Element>> = p.clone().into_owned().into_children().into_iter().map(|x| x.map(Element::from)).collect();
        while let Some(e) = todo.pop() {
            if let Element::Inline(x) = e.as_inner() {
                out.push(Located::new(x.clone().into_owned(), e.region()));
            }
            todo.extend(e.into_inner().into_children());
        }
        out
    };
    let (x, y) = (inl(p), inl(q));
    for (m, n) in x.iter().zip(&y).chain(x.iter().rev().zip(y.iter().rev())) {
        if m == n && h(m) != h(n) {
            return fail("hash", format!("{:?} and {:?} are equal with different hashes", m, n));
        }
        if m.as_inner() == n.as_inner() && h(m.as_inner()) != h(n.as_inner()) {
            return fail("hash", format!("{:?} and {:?} are equal with different hashes", m, n));
        }
    }
    Ok(format!("{}", if strict { "strict" } else if eq { "equal" } else { "different" }))
}

fn p18(g: &mut G) -> Case {
    match g.freq(&[3, 2, 2]) {
        2 => {
            let src = gen::doc(g, &gen::ALL, 1, 3).src;
            let mut text = src.clone();
            let mut l = "no page".to_string();
            let out = (|| {
                let p = parse(&src)?;
                if let Some((q, what)) = touched(g, &p)? {
                    text = format!("{}\u{2}{}", src, what);
                    let percent = src.contains('%') || what.contains('%') || what.contains("uri_ref") && what.contains('.');
                    l = compared(&p, &q, percent).or_else(|e| fail(&e.sig, format!("{}: {}", what, e.msg)))?;
                }
                Ok(())
            })();
            Case { text, nontrivial: l != "no page", labels: vec!["touched".into(), l], out }
        }
        0 => {
            let f = format::config(g);
            let src = if g.chance(1, 4) { gen::any_text(g) } else { gen::doc(g, &gen::ALL, 1, 5).src };
            let out = copies(&src, &f);
            let n = parse(&src).map(|p| norm::page(&p).count()).unwrap_or(0);
            Case { text: src, nontrivial: n >= 8, labels: vec!["copies".into()], out }
        }
        _ => {
            let a = if g.chance(1, 5) { gen::soup(g, 12) } else { gen::doc(g, &gen::ALL, 1, 3).src };
            let mut cs: Vec<char> = a.chars().collect();
            let n = cs.len();
            match g.below(6) {
                0 => cs.insert(0, '\n'),
                1 if n > 0 => {
                    let i = g.below(n);
                    cs[i] = *g.pick(&['a', 'b', ' ', '1', '*', 'Z', 'é']);
                }
                2 if n > 0 => {
                    let i = g.below(n);
                    cs.remove(i);
                }
                3 => {
                    let i = g.below(n + 1);
                    cs.insert(i, *g.pick(&['a', ' ', '\n', 'X', '-', '|']));
                }
                4 => {
                    // the same line in another place or a line twice
                    let mut l: Vec<&str> = a.split_inclusive('\n').collect();
                    let i = g.below(l.len().max(1));
                    if !l.is_empty() {
                        let x = l[i];
                        let j = g.below(l.len());
                        if g.coin() {
                            l.swap(i, j);
                        } else {
                            l.insert(j, x);
                        }
                    }
                    cs = l.concat().chars().collect();
                }
                _ => {}
            }
            let b: String = cs.into_iter().collect();
            let out = pair(&a, &b);
            let l = out.as_ref().map(|x| x.clone()).unwrap_or_default();
            Case { text: format!("{}\u{1}{}", a, b), nontrivial: a != b, labels: vec!["pair".into(), l], out: out.map(|_| ()) }
        }
    }
}

fn p18_text(s: &str) -> Result<(), Fail> {
    let s = &s[..s.find('\u{2}').unwrap_or(s.len())];
    match s.find('\u{1}') {
        Some(i) => pair(&s[..i], &s[i + 1..]).map(|_| ()),
        None => copies(s, &VimwikiConfig::default()),
    }
}

// ---------------------------------------------------------------- P32

/// an element in the same terms as a node of the page
fn element(e: &Located<Element>) -> Tree {
    let inner = match e.as_inner() {
        Element::Block(x) => norm::block_inner(x),
        Element::Inline(x) => norm::inline(&Located::new(x.to_borrowed(), e.region())),
        Element::InlineBlock(InlineBlockElement::ListItem(x)) => norm::item(&Located::new(x.to_borrowed(), e.region())),
        Element::InlineBlock(InlineBlockElement::Term(x)) => Tree::new("Term", vec![], norm::container(x.as_inner())),
        Element::InlineBlock(InlineBlockElement::Definition(x)) => Tree::new("Def", vec![], norm::container(x.as_inner())),
    };
    inner.at(e.region())
}

/// the nodes of a tree that are elements below an element
fn below(t: &Tree) -> Vec<&Tree> {
    match t.k {
        "Quote" | "Code" | "Math" | "Divider" | "Title" | "NoHtml" | "Template" | "Date" | "Other" => vec![],
        "Para" => t.c.iter().flat_map(|l| l.c.iter()).collect(),
        "Table" => t.c.iter().flat_map(|l| l.c.iter()).collect(),
        "DefList" => t.c.iter().flat_map(|td| std::iter::once(&td.c[0]).chain(td.c[1].c.iter())).collect(),
        _ => t.c.iter().collect(),
    }
}

macro_rules! casts {
    ($e:expr, $t:expr, $($kind:pat => $is:ident $as_:ident $into:ident,)*) => {{
        let mut yes = 0;
        $(
            let want = match $t.k { $kind => true, _ => false };
            if $e.$is() != want {
                return fail("is", format!("{} of a {} is {}", stringify!($is), $t.k, $e.$is()));
            }
            if $e.$as_().is_some() != want || $e.clone().$into().is_some() != want {
                return fail("cast", format!("{} or {} of a {}", stringify!($as_), stringify!($into), $t.k));
            }
            if want {
                yes += 1;
                let x = BlockElement::from($e.clone().$into().unwrap());
                if full(&norm::block_inner(&x)) != full(&norm::block_inner($e)) {
                    return fail("cast", format!("{} changed the {}", stringify!($into), $t.k));
                }
                if full(&norm::block_inner(&BlockElement::from($e.$as_().unwrap().clone()))) != full(&norm::block_inner($e)) {
                    return fail("cast", format!("{} changed the {}", stringify!($as_), $t.k));
                }
            }
        )*
        if yes != 1 {
            return fail("is", format!("{} kinds for a {}", yes, $t.k));
        }
    }};
}

fn block_casts(b: &BlockElement, t: &Tree) -> Result<(), Fail> {
    casts!(b, t,
        "Quote" => is_blockquote as_blockquote into_blockquote,
        "Code" => is_code_block as_code_block into_code_block,
        "DefList" => is_definition_list as_definition_list into_definition_list,
        "Divider" => is_divider as_divider into_divider,
        "Header" => is_header as_header into_header,
        "List" => is_list as_list into_list,
        "Math" => is_math_block as_math_block into_math_block,
        "Para" => is_paragraph as_paragraph into_paragraph,
        "Title" | "NoHtml" | "Template" | "Date" | "Other" => is_placeholder as_placeholder into_placeholder,
        "Table" => is_table as_table into_table,
    );
    Ok(())
}

fn visible(t: &Tree, o: &mut String) {
    match t.k {
        "Text" | "CodeI" | "MathI" | "Keyword" => o.push_str(&t.s[0]),
        "LineC" | "MultiC" => {}
        _ => t.c.iter().for_each(|c| visible(c, o)),
    }
}

fn helpers(b: &BlockElement, t: &Tree) -> Result<(), Fail> {
    match b {
        BlockElement::Blockquote(q) => {
            let want: Vec<Vec<String>> = t.s.split(|l| l.is_empty()).filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect();
            let got: Vec<Vec<String>> = q.line_groups().map(|x| x.iter().map(|l| l.to_string()).collect()).filter(|x: &Vec<String>| !x.is_empty()).collect();
            if want != got {
                return fail("line-groups", format!("{:?} instead of {:?}", got, want));
            }
            if q.line_group_cnt() != q.line_groups().count() {
                return fail("line-groups", format!("line_group_cnt is {} for {} groups", q.line_group_cnt(), q.line_groups().count()));
            }
        }
        BlockElement::Paragraph(p) => {
            let blank = |l: &Tree| l.c.iter().all(|x| match x.k {
                "LineC" | "MultiC" => true,
                "Text" => x.s[0].trim().is_empty(),
                _ => false,
            });
            let want = t.c.iter().filter(|l| !l.c.iter().all(|x| x.k == "LineC" || x.k == "MultiC")).count();
            let strict = t.c.iter().filter(|l| !blank(l)).count();
            let got = p.nonblank_lines().count();
            // whether blanks next to a comment make a line is left open
            if got > want || got < strict {
                return fail("nonblank", format!("{} lines with content, not {}..={}", got, strict, want));
            }
            if p.is_blank() != (got == 0) {
                return fail("nonblank", format!("is_blank is {} with {} lines", p.is_blank(), got));
            }
        }
        BlockElement::DefinitionList(d) => {
            let terms: Vec<Tree> = d.terms().map(|x| Tree::new("Term", vec![], norm::container(x.as_inner().as_inner())).at(x.region())).collect();
            let want: Vec<Tree> = t.c.iter().map(|td| td.c[0].clone()).collect();
            if terms != want {
                return fail("terms", format!("{:?} instead of {:?}", terms, want));
            }
            let defs: Vec<Tree> = d.definitions().map(|x| Tree::new("Def", vec![], norm::container(x.as_inner().as_inner())).at(x.region())).collect();
            let want: Vec<Tree> = t.c.iter().flat_map(|td| td.c[1].c.clone()).collect();
            if defs != want {
                return fail("definitions", format!("{:?} instead of {:?}", defs, want));
            }
            if d.iter().count() != t.c.len() {
                return fail("terms", "iter");
            }
        }
        BlockElement::List(l) => {
            if l.len() != t.c.len() || l.is_empty() != t.c.is_empty() || l.iter().count() != t.c.len() {
                return fail("list", "size");
            }
            let ord = matches!(t.c[0].s[0].as_str(), "number" | "pound" | "lower" | "upper" | "lroman" | "uroman");
            if l.is_ordered() != ord || l.is_unordered() == ord {
                return fail("list", format!("is_ordered {} is_unordered {}", l.is_ordered(), l.is_unordered()));
            }
            for (i, n) in l.iter().zip(&t.c) {
                let item = i.as_inner();
                let lists: Vec<String> = item.contents.sublist_iter().map(|x| full(&norm::block_inner(&BlockElement::List(x.clone())))).collect();
                let rest: Vec<String> = item.contents.non_sublist_iter().map(|x| full(&norm::block_inner(x))).collect();
                let strip = |t: &Tree| {
                    let mut t = t.clone();
                    t.r = None;
                    full(&t)
                };
                let wl: Vec<String> = n.c.iter().filter(|x| x.k == "List").map(strip).collect();
                let wr: Vec<String> = n.c.iter().filter(|x| x.k != "List").map(strip).collect();
                if lists != wl || rest != wr {
                    return fail("sublists", format!("{:?} and {:?} instead of {:?} and {:?}", lists, rest, wl, wr));
                }
                let todo = n.s[3].as_str();
                let got = [
                    (item.is_todo(), todo != "none"),
                    (item.is_todo_incomplete(), todo == " "),
                    (item.is_todo_partially_complete_1(), todo == "."),
                    (item.is_todo_partially_complete_2(), todo == "o"),
                    (item.is_todo_partially_complete_3(), todo == "O"),
                    (item.is_todo_partially_complete(), matches!(todo, "." | "o" | "O")),
                    (item.is_todo_complete(), todo == "X"),
                    (item.is_todo_rejected(), todo == "-"),
                    (item.is_ordered(), ord),
                    (item.is_unordered(), !ord),
                ];
                if got.iter().any(|(a, b)| a != b) {
                    return fail("todo", format!("{:?} for {:?}", got, n.s));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn check_element(e: Located<Element>, t: &Tree, n: &mut usize) -> Result<(), Fail> {
    *n += 1;
    let (x, y) = (full(t), full(&element(&e)));
    if x != y {
        return fail("element", first_line_diff(&x, &y));
    }
    let (b, i, ib) = (e.as_block_element().is_some(), e.as_inline_element().is_some(), e.as_inline_block_element().is_some());
    let want = match e.as_inner() {
        Element::Block(_) => (true, false, false),
        Element::Inline(_) => (false, true, false),
        Element::InlineBlock(_) => (false, false, true),
    };
    if (b, i, ib) != want {
        return fail("family", format!("{:?} for {}", (b, i, ib), t.k));
    }
    let into = (
        e.clone().into_inner().into_block_element().is_some(),
        e.clone().into_inner().into_inline_element().is_some(),
        e.clone().into_inner().into_inline_block_element().is_some(),
    );
    if into != want {
        return fail("family", format!("into {:?} for {}", into, t.k));
    }
    if let Some(b) = e.as_block_element() {
        block_casts(b, t)?;
        helpers(b, t)?;
        if let BlockElement::List(l) = b {
            if l.as_children_slice().len() != t.c.len() {
                return fail("slice", "children slice of a list");
            }
        }
    }
    if let Some(InlineElement::DecoratedText(d)) = e.as_inline_element() {
        if d.as_children_slice().len() != t.c.len() || d.iter().count() != t.c.len() || d.as_contents_slice().len() != t.c.len() {
            return fail("slice", "children slice of decorated text");
        }
    }
    if let Some(x) = e.as_inline_element() {
        // shown as the text that is not markup
        let mut v = String::new();
        visible(t, &mut v);
        if t.has("Link") || t.has("Tags") {
        } else if x.to_string() != v {
            return fail("display", format!("shown as {:?} instead of {:?}", x.to_string(), v));
        }
    }
    let kids = e.into_inner().into_children();
    let want = below(t);
    if kids.len() != want.len() {
        return fail("children", format!("{} children of a {} instead of {}", kids.len(), t.k, want.len()));
    }
    for (k, w) in kids.into_iter().zip(want) {
        check_element(k, w, n)?;
    }
    Ok(())
}

fn apart(src: &str) -> Result<usize, Fail> {
    let p = parse(src)?;
    let t = norm::page(&p);
    if p.elements().len() != t.c.len() || p.clone().into_elements().len() != t.c.len() {
        return fail("page", "elements");
    }
    let mut n = 0;
    let kids = p.into_children();
    for (k, w) in kids.into_iter().zip(&t.c) {
        guard("walk", || check_element(k.map(Element::from), w, &mut n))??;
    }
    Ok(n)
}

fn p32(g: &mut G) -> Case {
    let src = if g.chance(1, 4) { gen::any_text(g) } else { gen::doc(g, &gen::ALL, 1, 6).src };
    let out = apart(&src);
    Case { nontrivial: matches!(out, Ok(n) if n >= 5), text: src, labels: vec![], out: out.map(|_| ()) }
}

// ---------------------------------------------------------------- P21

fn plain_of(s: &str) -> Result<Tree, Fail> {
    Ok(norm::page(&parse(s)?))
}

fn line_endings(src: &str, variants: &[(String, &'static str)]) -> Result<usize, Fail> {
    let want = plain_of(src)?;
    for (v, what) in variants {
        let got = plain_of(v)?;
        if let Some(d) = want.diff(&got) {
            return fail(what, format!("{}\n--- variant\n{:?}", d, v));
        }
    }
    Ok(want.c.len())
}

fn variants(src: &str, g: &mut G) -> Vec<(String, &'static str)> {
    let mut v = vec![(src.replace('\n', "\r\n"), "crlf")];
    // endings mixed line by line
    let mixed: String = src.split_inclusive('\n').map(|l| if l.ends_with('\n') && g.coin() { format!("{}\r\n", &l[..l.len() - 1]) } else { l.to_string() }).collect();
    v.push((mixed, "mixed"));
    let base = src.strip_suffix('\n').unwrap_or(src);
    v.push((base.to_string(), "no final ending"));
    v.push((format!("{}\n", base), "final ending"));
    v.push((format!("{}\r\n", base.replace('\n', "\r\n")), "final crlf"));
    v.push((format!("{}\n{}", base, g.s(&["\n", "\n\n\n", "\r\n", "  \n", "\n \n", "\t\n\n", "\n  "])), "blank lines after"));
    v.push((format!("{}{}", g.s(&["\n", "\n\n\n", "\r\n", "  \n", "\n \n", "\t\r\n"]), src), "blank lines before"));
    v
}

fn p21(g: &mut G) -> Case {
    let mut src = if g.chance(1, 3) { gen::any_text(g) } else { gen::doc(g, &gen::ALL, 1, 6).src };
    // lone carriage returns are no line endings, but would become part of one
    src = src.replace('\r', "");
    if g.chance(1, 3) {
        // several lines in one paragraph
        src.push_str("alpha *b*\nbeta `c`\n%% d\ngamma");
    } else if g.chance(1, 3) {
        // the last line is one of its element's kind only by its end
        src.push_str(g.s(&["> a\n>", "> a\n> b\n>\n>", "----", "= a =", "  = a =", "- a", "- a\n-", "a::", "a:: b\n:: c", ":: c", "|a|", "|a|\n|-|", "%title a", "%% a", ":a:b:", "{{{\na\n}}}", "{{$\na\n}}$", "    a", "$a$", "%%+ a +%%", "TODO", "[[a]]", "a ", "- [ ]", "- [ ] a", "1.", "1. a\n   b", ">", "%nohtml", "%template a", "%date 2020-01-02"]));
    }
    let vs = variants(&src, g);
    let out = line_endings(&src, &vs);
    Case { nontrivial: src.matches('\n').count() >= 2, text: src, labels: vec![], out: out.map(|_| ()) }
}

fn p21_text(s: &str) -> Result<(), Fail> {
    let mut g = G::seeded(7);
    let vs: Vec<_> = (0..20).flat_map(|_| variants(s, &mut g)).collect();
    line_endings(s, &vs).map(|_| ())
}

// ---------------------------------------------------------------- P22

fn shift(t: &Tree, by: usize) -> Tree {
    let mut t = t.clone();
    t.r = t.r.map(|r| Region::new_at_depth(r.offset() + by, r.len(), r.depth()));
    t.c = t.c.iter().map(|c| shift(c, by)).collect();
    t
}

fn independent(a: &str, sep: &str, b: &str) -> Result<usize, Fail> {
    // the end of the last line belongs to its element
    let (a, sep) = (format!("{}\n", a), &sep[1..]);
    let a = a.as_str();
    let ta = plain_of(a)?;
    let ts = plain_of(sep)?;
    let tb = plain_of(b)?;
    // quotes by > go on after blank lines
    let arrow = |t: Option<&Tree>, s: &str| t.map_or(false, |t| t.k == "Quote" && s[t.r.unwrap().offset()..].trim_start().starts_with('>'));
    if ts.c.is_empty() && arrow(ta.c.last(), a) && arrow(tb.c.first(), b) {
        return Ok(0);
    }
    let src = format!("{}{}{}", a, sep, b);
    let got = plain_of(&src)?;
    let mut want: Vec<Tree> = ta.c.clone();
    want.extend(ts.c.iter().map(|c| shift(c, a.len())));
    want.extend(tb.c.iter().map(|c| shift(c, a.len() + sep.len())));
    let want = Tree::new("Page", vec![], want);
    if let Some(d) = want.diff(&got) {
        return fail("elements", d);
    }
    let (x, y) = (full(&want), full(&got));
    if x != y {
        return fail("positions", first_line_diff(&x, &y));
    }
    Ok(ta.c.len().min(tb.c.len()))
}

const SEPS: &[&str] = &["\n\n= sep =\n\n", "\n\n----\n\n", "\n\nsep\n\n", "\n\n= sep =\n", "\n\n%nohtml\n\n", "\n\n", "\n\n\n"];

fn p22(g: &mut G) -> Case {
    // what is left open in the first document may be closed by the second
    let open = |s: &str| s.contains("%%+") || s.contains("{{{") || s.contains("{{$");
    let a = if g.chance(1, 3) {
        let s = gen::any_text(g);
        if open(&s) {
            String::from("alpha")
        } else {
            s
        }
    } else {
        gen::doc(g, &gen::ALL, 1, 4).src
    };
    let b = if g.chance(1, 3) { gen::any_text(g) } else { gen::doc(g, &gen::ALL, 1, 4).src };
    let sep = g.s(SEPS);
    let out = independent(&a, sep, &b);
    Case { text: format!("{}\u{1}{}\u{1}{}", a, sep, b), nontrivial: matches!(out, Ok(n) if n >= 1), labels: vec![], out: out.map(|_| ()) }
}

fn p22_text(s: &str) -> Result<(), Fail> {
    let v: Vec<&str> = s.split('\u{1}').collect();
    independent(v[0], v[1], v[2]).map(|_| ())
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P18", rule: "the page has at least eight nodes, or the two documents of a pair differ", quick: 60000, thorough: 1500000, case: p18, text: Some(p18_text), assumptions: &["terms and definitions are equal when their text is", "addresses are equal when their normalised forms are"], threads: 8, batch: None },
    Prop { id: "P21", rule: "the document has at least three lines", quick: 12000, thorough: 1500000, case: p21, text: Some(p21_text), assumptions: &["documents without lone carriage returns"], threads: 8, batch: None },
    Prop { id: "P22", rule: "both documents have an element", quick: 40000, thorough: 2000000, case: p22, text: Some(p22_text), assumptions: &["the first document leaves no fence or comment open"], threads: 8, batch: None },
    Prop { id: "P32", rule: "at least five elements were walked", quick: 40000, thorough: 2000000, case: p32, text: Some(|s| apart(s).map(|_| ())), assumptions: &[], threads: 8, batch: None },
];
