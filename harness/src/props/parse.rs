//! P01..P09: what the parser makes of a text
use crate::engine::*;
use crate::gen;
use crate::norm::{self, Tree};
use vimwiki::*;

pub fn parse(s: &str) -> Result<Page<'_>, Fail> {
    note(s);
    let r = guard("page parser", || Language::from_vimwiki_str(s).parse::<Page>())?;
    r.or_else(|e| fail("parse-error", format!("page parser failed: {}", e)))
}

pub fn expect(src: &str, exp: &Tree) -> Result<(), Fail> {
    let p = parse(src)?;
    let got = norm::page(&p);
    match exp.diff(&got) {
        None => Ok(()),
        Some(d) => fail("tree", format!("{}\nexpected:\n{}\ngot:\n{}", d, exp.show(), got.show())),
    }
}

fn doc_case(g: &mut G, w: &gen::Weights, min: usize, max: usize, nontrivial: fn(&gen::Doc) -> bool) -> Case {
    let d = gen::doc(g, w, min, max);
    let mut labels: Vec<String> = d.kinds.iter().map(|k| k.to_string()).collect();
    labels.sort();
    labels.dedup();
    let nt = nontrivial(&d);
    let out = expect(&d.src, &d.t);
    Case { text: d.src, nontrivial: nt, labels, out }
}

// ---- P01

macro_rules! try_types {
    ($l:expr, $($t:ty),+ $(,)?) => {{
        $(
            let a = guard(concat!("parser of ", stringify!($t)), || $l.parse::<$t>().ok())?;
            let b = guard(concat!("parser of ", stringify!($t)), || $l.parse::<$t>().ok())?;
            match (&a, &b) {
                (Some(x), Some(y)) if !(x == y && x.strict_eq(y)) => return fail("nondeterministic", stringify!($t)),
                (Some(_), None) | (None, Some(_)) => return fail("nondeterministic", stringify!($t)),
                _ => {}
            }
        )+
    }};
}

macro_rules! unsupported {
    ($l:expr, $($t:ty),+ $(,)?) => {{
        $( if $l.parse::<$t>().is_ok() { return fail("unsupported", format!("{} was parsed from an unsupported language", stringify!($t))); } )+
    }};
}

pub fn p01_text(s: &str) -> Result<(), Fail> {
    let a = parse(s)?;
    let b = parse(s)?;
    if !a.strict_eq(&b) || a != b {
        return fail("nondeterministic", "two parses of the same text differ");
    }
    let l = Language::from_vimwiki_str(s);
    try_types!(
        l,
        Located<BlockElement>,
        Located<InlineElementContainer>,
        Located<InlineElement>,
        Located<Blockquote>,
        Located<CodeInline>,
        Located<Comment>,
        Located<LineComment>,
        Located<MultiLineComment>,
        Located<DefinitionList>,
        Located<Divider>,
        Located<Header>,
        Located<Link>,
        Located<List>,
        Located<ListItem>,
        Located<MathInline>,
        Located<MathBlock>,
        Located<Paragraph>,
        Located<Placeholder>,
        Located<CodeBlock>,
        Located<Table>,
        Located<Tags>,
        Located<Text>,
        Located<DecoratedText>,
        Located<Keyword>,
    );
    for l in [Language::from_markdown_str(s), Language::from_mediawiki_str(s)] {
        unsupported!(l, Page, Located<BlockElement>, Located<InlineElementContainer>, Located<InlineElement>, Located<Blockquote>, Located<CodeInline>, Located<Comment>, Located<DefinitionList>, Located<Divider>, Located<Header>, Located<Link>, Located<List>, Located<ListItem>, Located<MathInline>, Located<MathBlock>, Located<Paragraph>, Located<Placeholder>, Located<CodeBlock>, Located<Table>, Located<Tags>, Located<Text>, Located<DecoratedText>, Located<Keyword>);
    }
    let v = guard("vimwiki formatter", || a.to_vimwiki_string(VimwikiConfig::default()))?;
    if let Err(e) = v {
        return fail("format-error", format!("formatting failed: {:?}", e));
    }
    let h = guard("html renderer", || a.to_html_string(HtmlConfig::default()))?;
    if let Err(e) = h {
        // addressing another wiki that is not configured is reported as an error, not a panic
        let m = format!("{:?}", e);
        if !m.contains("Link") && !m.contains("Wiki") {
            return fail("html-error", format!("rendering failed: {:?}", e));
        }
    }
    // elements on their own can be written as well
    for e in a.elements.iter() {
        let _ = guard("formatter of one element", || e.to_vimwiki_string(VimwikiConfig::default()))?;
        let _ = guard("renderer of one element", || e.to_html_string(HtmlConfig::default()))?;
    }
    Ok(())
}

fn p01(g: &mut G) -> Case {
    let s = gen::any_text(g);
    let out = p01_text(&s);
    let nt = s.trim().chars().count() >= 3 && s.chars().any(|c| "*_~^,`$[{|%=-#:>".contains(c));
    let mut labels = vec![];
    if s.contains('\r') {
        labels.push("carriage-return".into());
    }
    if !s.is_ascii() {
        labels.push("non-ascii".into());
    }
    Case { text: s, nontrivial: nt, labels, out }
}

// ---- P02

fn flat_words(s: &str, out: &mut String) {
    out.extend(s.chars().filter(|c| !c.is_whitespace()));
}

/// every non-blank character an element carries, in source order, as far as the element
/// keeps it as text
pub fn p02_text(s: &str) -> Result<(), Fail> {
    let p = parse(s)?;
    // coverage by top-level elements
    let mut cover = vec![0u8; s.len()];
    for e in p.elements.iter() {
        let r = e.region();
        if r.offset() + r.len() > s.len() {
            return fail("region", format!("element range {}+{} beyond the source ({})", r.offset(), r.len(), s.len()));
        }
        for c in cover.iter_mut().skip(r.offset()).take(r.len()) {
            *c = c.saturating_add(1);
        }
    }
    for (i, c) in s.char_indices() {
        if (c == ' ' || c == '\t' || c == '\n' || c == '\r') && cover[i] == 0 {
            continue;
        }
        if cover[i] != 1 {
            return fail("coverage", format!("byte {} ({:?}) lies in {} top-level elements", i, c, cover[i]));
        }
    }
    let t = norm::page(&p);
    for e in &t.c {
        tiles(s, e)?;
    }
    Ok(())
}

/// inline runs tile the text they were read from and carry its words
fn tiles(s: &str, t: &Tree) -> Result<(), Fail> {
    let r = t.r.unwrap_or_default();
    let src = |t: &Tree| -> Result<String, Fail> {
        let r = t.r.unwrap();
        match s.get(r.offset()..r.offset() + r.len()) {
            Some(x) => Ok(x.to_string()),
            None => fail("region", format!("{} has a range {}+{} that is no text of the source", t.k, r.offset(), r.len())),
        }
    };
    match t.k {
        "Line" | "Header" | "Term" | "Def" => contiguous(s, &t.c, t.k)?,
        "Cell" if t.s[2] == "content" => {
            contiguous(s, &t.c, t.k)?;
            let a: usize = t.c.iter().map(|c| c.r.unwrap().len()).sum();
            if a != r.len() {
                return fail("cell-text", format!("cell {:?} of {} bytes has contents of {} bytes only: {:?}", t.s, r.len(), a, src(t)?));
            }
        }
        _ => {}
    }
    match t.k {
        "Header" => {
            // the whole of the header's text lies in its contents
            let full = src(t)?;
            let inner: String = full.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r').to_string();
            let lvl: usize = t.s[0].parse().unwrap();
            if inner.len() < 2 * lvl {
                return fail("header-text", "header shorter than its markers");
            }
            let body = inner[lvl..inner.len() - lvl].trim_matches(|c| c == ' ' || c == '\t');
            let got: usize = t.c.iter().map(|c| c.r.unwrap().len()).sum();
            if got != body.len() {
                return fail("header-text", format!("header text {:?} has contents of {} bytes only", body, got));
            }
        }
        "Para" => {
            // lines cover all non-blank text of the paragraph
            let mut cov = vec![false; r.len()];
            for l in &t.c {
                for c in &l.c {
                    let q = c.r.unwrap();
                    for i in q.offset()..q.offset() + q.len() {
                        if i >= r.offset() && i < r.offset() + r.len() {
                            cov[i - r.offset()] = true;
                        }
                    }
                }
            }
            let full = src(t)?;
            for (i, c) in full.char_indices() {
                if !(c == ' ' || c == '\t' || c == '\n' || c == '\r') && !cov[i] {
                    return fail("paragraph-text", format!("{:?} at byte {} of the paragraph {:?} is in none of its lines", c, i, full));
                }
            }
        }
        "DefList" | "Table" | "List" | "Item" => {
            // everything but markup punctuation lies within a child
            let full = src(t)?;
            let mut cov = vec![false; r.len()];
            let mut mark = |q: &Tree| {
                if let Some(q) = q.r {
                    for i in q.offset()..q.offset() + q.len() {
                        if i >= r.offset() && i < r.offset() + r.len() {
                            cov[i - r.offset()] = true;
                        }
                    }
                }
            };
            if t.k == "DefList" {
                for td in &t.c {
                    mark(&td.c[0]);
                    for d in &td.c[1].c {
                        mark(d);
                    }
                }
            } else {
                for c in &t.c {
                    mark(c);
                }
            }
            let skip = if t.k == "Item" {
                // marker and todo part
                let rest = full.as_str();
                let m = rest.find(' ').map_or(rest.len(), |i| i + 1);
                let todo = if t.s[3] != "none" { 4 } else { 0 };
                m + todo
            } else {
                0
            };
            for (i, c) in full.char_indices() {
                if i < skip || c.is_ascii_whitespace() || cov[i] {
                    continue;
                }
                if (t.k == "Table" && c == '|') || (t.k == "DefList" && c == ':') {
                    continue;
                }
                return fail("container-text", format!("{:?} at byte {} of {} {:?} is in none of its children", c, i, t.k, full));
            }
        }
        "Bold" | "Italic" | "Strike" | "Sup" | "Sub" => {
            contiguous(s, &t.c, t.k)?;
            let m = if t.k == "Strike" || t.k == "Sub" { 2 } else { 1 };
            let a: usize = t.c.iter().map(|c| c.r.unwrap().len()).sum();
            if a + 2 * m != r.len() {
                return fail("decorated-text", format!("{} {:?} has contents of {} bytes only", t.k, src(t)?, a));
            }
        }
        "Text" | "CodeI" | "MathI" | "Tags" | "Keyword" | "LineC" | "MultiC" => {
            let mut a = String::new();
            flat_words(&src(t)?, &mut a);
            let mut b = String::new();
            match t.k {
                "CodeI" => flat_words(&format!("`{}`", t.s[0]), &mut b),
                "MathI" => flat_words(&format!("${}$", t.s[0]), &mut b),
                "Tags" => flat_words(&format!(":{}:", t.s.join(":")), &mut b),
                "LineC" => flat_words(&format!("%%{}", t.s[0]), &mut b),
                "MultiC" => flat_words(&format!("%%+{}+%%", t.s.join("\n")), &mut b),
                _ => flat_words(&t.s[0], &mut b),
            }
            if a != b {
                return fail("words", format!("{} covers {:?} but carries {:?}", t.k, a, b));
            }
        }
        "Quote" | "Title" | "Template" | "Other" | "Date" => {
            let full = src(t)?;
            for l in &t.s {
                if !(full.contains(l.as_str()) || t.k == "Date" && date_in(&full, l)) {
                    return fail("words", format!("{} {:?} carries {:?}", t.k, full, l));
                }
            }
            if t.k == "Quote" {
                let mut a = String::new();
                for l in full.lines() {
                    let l = l.trim_start_matches(|c| c == ' ' || c == '\t');
                    let ind = full.lines().next().map_or(false, |f| f.starts_with("    "));
                    let l = if ind && !full.trim_start().starts_with("> ") { l } else { l.strip_prefix("> ").unwrap_or(l) };
                    flat_words(l, &mut a);
                }
                let mut b = String::new();
                for l in &t.s {
                    flat_words(l, &mut b);
                }
                let strip = |s: &str| s.replace('>', "");
                if strip(&a) != strip(&b) {
                    return fail("words", format!("quote {:?} carries {:?}", full, t.s));
                }
            }
        }
        "Code" | "Math" => {
            let full = src(t)?;
            let body: Vec<&str> = full.lines().collect();
            let mut a = String::new();
            if body.len() >= 2 {
                for l in &body[1..body.len() - 1] {
                    flat_words(l, &mut a);
                }
            }
            let mut b = String::new();
            for l in &t.c.last().unwrap().s {
                flat_words(l, &mut b);
            }
            if a != b {
                return fail("words", format!("{} body {:?} carries {:?}", t.k, a, b));
            }
            if t.k == "Code" {
                let head = body[0].trim_start();
                for w in &t.c[0].s {
                    if !head.contains(w.as_str()) {
                        return fail("words", format!("metadata {:?} is not in {:?}", w, head));
                    }
                }
            }
        }
        _ => {}
    }
    for c in &t.c {
        tiles(s, c)?;
    }
    Ok(())
}

fn contiguous(s: &str, c: &[Tree], what: &str) -> Result<(), Fail> {
    for w in c.windows(2) {
        let (a, b) = (w[0].r.unwrap(), w[1].r.unwrap());
        if a.offset() + a.len() != b.offset() {
            return fail("tiling", format!("in {}: {} ends at {} but {} starts at {} (source {:?})", what, w[0].k, a.offset() + a.len(), w[1].k, b.offset(), s));
        }
    }
    if c.is_empty() {
        return fail("tiling", format!("{} without contents", what));
    }
    Ok(())
}

fn p02(g: &mut G) -> Case {
    let s = gen::any_text(g);
    let out = p02_text(&s);
    let nt = parse(&s).map(|p| norm::page(&p).count() >= 4).unwrap_or(true);
    Case { text: s, nontrivial: nt, labels: vec![], out }
}

// ---- P03

pub fn p03_text(s: &str) -> Result<(), Fail> {
    let p = parse(s)?;
    let t = norm::page(&p);
    order(s, &t.c, (0, s.len()), 0, true, "Page")?;
    for e in &t.c {
        regions(s, e)?;
    }
    Ok(())
}

/// children in order, disjoint, inside the parent, not shallower
fn order(s: &str, c: &[Tree], within: (usize, usize), depth: u16, top: bool, what: &str) -> Result<(), Fail> {
    let mut at = within.0;
    for x in c {
        let r = match x.r {
            Some(r) => r,
            None => continue,
        };
        let end = r.offset() + r.len();
        if end > s.len() || !s.is_char_boundary(r.offset()) || !s.is_char_boundary(end) {
            return fail("boundary", format!("{} in {} has range {}..{} of {}", x.k, what, r.offset(), end, s.len()));
        }
        if r.len() == 0 {
            return fail("empty", format!("{} in {} has an empty range at {}", x.k, what, r.offset()));
        }
        if r.offset() < at || end > within.1 {
            return fail("order", format!("{} {:?} in {} has range {}..{}, expected within {}..{}", x.k, x.s, what, r.offset(), end, at, within.1));
        }
        if top {
            if r.depth() != 0 {
                return fail("depth", format!("top-level {} at depth {}", x.k, r.depth()));
            }
        } else if r.depth() < depth {
            return fail("depth", format!("{} in {} at depth {} above its parent's {}", x.k, what, r.depth(), depth));
        }
        at = end;
    }
    Ok(())
}

fn regions(s: &str, t: &Tree) -> Result<(), Fail> {
    let r = t.r.unwrap();
    let src = &s[r.offset()..r.offset() + r.len()];
    let me = (r.offset(), r.offset() + r.len());
    // children reported under this element
    let kids: Vec<Tree> = match t.k {
        "Para" => t.c.iter().flat_map(|l| l.c.iter().cloned()).collect(),
        "Code" | "Math" => vec![],
        _ => t.c.clone(),
    };
    // a block's contents are one level deeper; items, cells and terms are deeper than their list
    order(s, &kids, me, r.depth(), false, t.k)?;
    let deeper = matches!(t.k, "Para" | "Header" | "List" | "Item" | "Table" | "DefList" | "Bold" | "Italic" | "Strike" | "Sup" | "Sub");
    if deeper {
        for k in &kids {
            if k.k != "TermDefs" && k.k != "Bundle" && k.r.unwrap().depth() <= r.depth() {
                return fail("depth", format!("{} in {} is not deeper ({} vs {})", k.k, t.k, k.r.unwrap().depth(), r.depth()));
            }
        }
    }
    let want = match t.k {
        "Text" | "Keyword" => Some(t.s[0].clone()),
        "CodeI" => Some(format!("`{}`", t.s[0])),
        "MathI" => Some(format!("${}$", t.s[0])),
        "Tags" => Some(format!(":{}:", t.s.join(":"))),
        "LineC" => Some(format!("%%{}", t.s[0])),
        _ => None,
    };
    if let Some(w) = want {
        if src != w {
            return fail("slice", format!("{} {:?} is at {:?}", t.k, w, src));
        }
    }
    let edges = match t.k {
        "Bold" => Some(("*", "*")),
        "Italic" => Some(("_", "_")),
        "Strike" => Some(("~~", "~~")),
        "Sup" => Some(("^", "^")),
        "Sub" => Some((",,", ",,")),
        "MultiC" => Some(("%%+", "+%%")),
        "Link" => match t.s[0].as_str() {
            "raw" => None,
            "transclusion" => Some(("{{", "}}")),
            _ => Some(("[[", "]]")),
        },
        _ => None,
    };
    if let Some((a, b)) = edges {
        if !src.starts_with(a) || !src.ends_with(b) || src.len() < a.len() + b.len() + 1 && t.k != "MultiC" {
            return fail("slice", format!("{} is at {:?}", t.k, src));
        }
        if let (Some(f), Some(l)) = (t.c.first(), t.c.last()) {
            let (f, l) = (f.r.unwrap(), l.r.unwrap());
            if f.offset() != me.0 + a.len() || l.offset() + l.len() != me.1 - b.len() {
                return fail("slice", format!("contents of {} at {:?} span {}..{}", t.k, src, f.offset() - me.0, l.offset() + l.len() - me.0));
            }
        }
    }
    match t.k {
        "Link" if t.s[0] == "raw" => {
            if uriparse::URIReference::try_from(src).map(|u| u.to_string()).ok().as_ref() != Some(&t.s[2]) {
                return fail("slice", format!("raw link {:?} is at {:?}", t.s[2], src));
            }
        }
        "Cell" => {
            let (b, a) = (s.as_bytes().get(me.0.wrapping_sub(1)), s.as_bytes().get(me.1));
            if b != Some(&b'|') || a != Some(&b'|') || src.contains('|') {
                return fail("slice", format!("cell {:?} is at {:?}", t.s, src));
            }
            let m = src.trim();
            let ok = match t.s[2].as_str() {
                "left" => m == ">",
                "above" => m == "\\/",
                "content" => true,
                _ => m.trim_matches(':').chars().all(|c| c == '-'),
            };
            if !ok {
                return fail("slice", format!("cell {:?} is at {:?}", t.s, src));
            }
        }
        "Term" => {
            if !src.ends_with("::") {
                return fail("slice", format!("term is at {:?}", src));
            }
        }
        "Divider" => {
            if src.trim_end_matches(|c| c == '\n' || c == '\r').len() < 4 || !src.trim_end().chars().all(|c| c == '-') {
                return fail("slice", format!("divider is at {:?}", src));
            }
        }
        "Title" | "NoHtml" | "Template" | "Date" | "Other" => {
            if !src.starts_with('%') || src.contains('\n') || !t.s.iter().all(|x| src.contains(x.as_str()) || t.k == "Date" && date_in(src, x)) {
                return fail("slice", format!("{} {:?} is at {:?}", t.k, t.s, src));
            }
        }
        "Item" => {
            let first = src.chars().next().unwrap();
            if first.is_whitespace() {
                return fail("slice", format!("list item is at {:?}", src));
            }
        }
        _ => {}
    }
    // whole-line elements begin at a line start and end at a line end
    let whole_line = matches!(t.k, "Header" | "Divider") || (matches!(t.k, "Code" | "Math" | "Quote" | "Table" | "List" | "DefList" | "Para") && r.depth() == 0);
    if whole_line {
        let b0 = me.0 == 0 || s.as_bytes()[me.0 - 1] == b'\n';
        let e0 = me.1 == s.len() || s.as_bytes()[me.1 - 1] == b'\n';
        if !b0 || !e0 {
            return fail("lines", format!("{} at {}..{} is not made of whole lines", t.k, me.0, me.1));
        }
    }
    for k in &kids {
        regions(s, k)?;
    }
    Ok(())
}

fn p03(g: &mut G) -> Case {
    let s = gen::any_text(g);
    let out = p03_text(&s);
    let nt = parse(&s).map(|p| norm::page(&p).count() >= 4).unwrap_or(true);
    Case { text: s, nontrivial: nt, labels: vec![], out }
}

// ---- P04

const W04: gen::Weights = [4, 5, 3, 4, 3, 4, 8, 1, 0, 1];
fn p04(g: &mut G) -> Case {
    doc_case(g, &W04, 1, 6, |d| d.kinds.len() >= 2)
}

// ---- P05

fn p05(g: &mut G) -> Case {
    let depth = if g.chance(1, 30) { 9 } else { g.range(1, 4) };
    let ind = if g.chance(1, 4) { g.range(1, 4) } else { 0 };
    let b = gen::list(g, ind, depth, 5);
    let mut src = b.src.clone();
    let mut out = vec![b.t.clone()];
    match g.below(5) {
        0 => {
            src.push_str("after\n");
            out.push(para_of("after"));
        }
        1 => {
            src.push_str("\n\n- next\n");
            out.push(Tree::new("List", vec![], vec![Tree::new("Item", vec!["hyphen".into(), "none".into(), "0".into(), "none".into()], vec![para_of("next")])]));
        }
        2 => {
            src.insert_str(0, "before\n");
            out.insert(0, para_of("before"));
        }
        3 if ind > 0 => {
            // a less indented item is a list of its own
            src.push_str("1. next\n");
            out.push(Tree::new("List", vec![], vec![Tree::new("Item", vec!["number".into(), "period".into(), "0".into(), "none".into()], vec![para_of("next")])]));
        }
        _ => {}
    }
    let mut nt = false;
    let mut labels = vec![];
    b.t.walk(&mut |t| {
        if t.k == "Item" && t.c.len() > 1 {
            nt = true;
        }
        if t.k == "Item" {
            labels.push(t.s[0].clone());
            for c in t.c.iter().skip(1) {
                labels.push(format!("in-item-{}", c.k));
            }
        }
    });
    labels.sort();
    labels.dedup();
    let r = expect(&src, &Tree::new("Page", vec![], out));
    Case { text: src, nontrivial: nt || b.t.c.len() > 1, labels, out: r }
}

fn para_of(s: &str) -> Tree {
    Tree::new("Para", vec![], vec![Tree::new("Line", vec![], vec![Tree::leaf("Text", s)])])
}

// ---- P06

fn p06(g: &mut G) -> Case {
    let nested = g.chance(1, 4);
    let (src, exp, cells) = if nested {
        let base = g.range(1, 4);
        let b = gen::table(g, gen::TableOpts { maxr: 6, maxc: 5, base, nested: true, ragged: true });
        let n = b.t.c.len();
        let item = Tree::new("Item", vec!["hyphen".into(), "none".into(), "0".into(), "none".into()], vec![para_of("x"), b.t]);
        (format!("- x\n{}", b.src), Tree::new("Page", vec![], vec![Tree::new("List", vec![], vec![item])]), n)
    } else {
        let b = gen::table(g, gen::TableOpts { maxr: 6, maxc: 6, base: 0, nested: false, ragged: true });
        let n = b.t.c.len();
        let mut src = b.src.clone();
        let mut out = vec![b.t];
        match g.below(4) {
            0 => {
                src.insert_str(0, "before\n");
                out.insert(0, para_of("before"));
            }
            1 => {
                src.push_str("after | x |\n");
                out.push(para_of("after | x |"));
            }
            2 => {
                src.push_str("\n|y|");
                out.push(Tree::new("Table", vec!["false".into()], vec![Tree::new("Cell", vec!["0".into(), "0".into(), "content".into()], vec![Tree::leaf("Text", "y")])]));
            }
            _ => {}
        }
        (src, Tree::new("Page", vec![], out), n)
    };
    let r = expect(&src, &exp).and_then(|_| p06_lookup(&src, &exp));
    let mut labels = vec![];
    exp.walk(&mut |t| {
        if t.k == "Cell" {
            labels.push(t.s[2].clone());
        }
    });
    labels.sort();
    labels.dedup();
    Case { text: src, nontrivial: cells >= 3, labels, out: r }
}

/// the table's own accessors return the cells the source has, and nothing elsewhere
fn p06_lookup(src: &str, exp: &Tree) -> Result<(), Fail> {
    let p = parse(src)?;
    let mut exps: Vec<&Tree> = vec![];
    exp.walk(&mut |t| {
        if t.k == "Table" {
            exps.push(t)
        }
    });
    fn find<'a, 'b>(e: &'a BlockElement<'b>, out: &mut Vec<&'a Table<'b>>) {
        match e {
            BlockElement::Table(t) => out.push(t),
            BlockElement::List(l) => {
                for i in l.items.iter() {
                    for c in i.contents.iter() {
                        find(c.as_inner(), out);
                    }
                }
            }
            _ => {}
        }
    }
    let mut got = vec![];
    for e in p.elements.iter() {
        find(e.as_inner(), &mut got);
    }
    for (e, t) in exps.iter().zip(got) {
        for r in 0..8 {
            for c in 0..8 {
                let want = e.c.iter().find(|x| x.s[0] == r.to_string() && x.s[1] == c.to_string());
                match (want, t.get_cell(r, c)) {
                    (None, None) => {}
                    (Some(w), Some(x)) => {
                        let kind = match x.as_inner() {
                            Cell::Content(_) => "content",
                            Cell::Span(CellSpan::FromLeft) => "left",
                            Cell::Span(CellSpan::FromAbove) => "above",
                            Cell::Align(_) => "align",
                        };
                        if !w.s[2].starts_with(kind) {
                            return fail("lookup", format!("cell {},{} is {:?}, looked up as {}", r, c, w.s, kind));
                        }
                    }
                    (w, x) => return fail("lookup", format!("cell {},{}: written {:?}, looked up {:?}", r, c, w.map(|w| &w.s), x.is_some())),
                }
            }
        }
    }
    Ok(())
}

// ---- P07

fn plain_text(t: &Tree) -> Option<String> {
    let mut s = String::new();
    for c in &t.c {
        match c.k {
            "Text" | "Keyword" => s.push_str(&c.s[0]),
            _ => return None,
        }
    }
    Some(s)
}

fn p07(g: &mut G) -> Case {
    let base = if g.chance(1, 5) { g.range(1, 3) } else { 0 };
    let mut b = gen::deflist(g, base);
    if g.chance(1, 3) {
        // repeat an entry's term with other definitions
        b.src.push_str("dup:: one\n:: two\ndup:: three\n");
        let def = |s: &str| Tree::new("Def", vec![], vec![Tree::leaf("Text", s)]);
        let td = |d: Vec<Tree>| Tree::new("TermDefs", vec![], vec![Tree::new("Term", vec![], vec![Tree::leaf("Text", "dup")]), Tree::new("Bundle", vec![], d)]);
        b.t.c.push(td(vec![def("one"), def("two")]));
        b.t.c.push(td(vec![def("three")]));
    }
    let mut src = b.src.clone();
    let mut out = vec![b.t.clone()];
    match g.below(4) {
        0 => {
            src.push_str("after\n");
            out.push(para_of("after"));
        }
        1 => {
            src.insert_str(0, "before\n");
            out.insert(0, para_of("before"));
        }
        2 => {
            src.push_str("\nt:: d");
            out.push(Tree::new(
                "DefList",
                vec![],
                vec![Tree::new("TermDefs", vec![], vec![Tree::new("Term", vec![], vec![Tree::leaf("Text", "t")]), Tree::new("Bundle", vec![], vec![Tree::new("Def", vec![], vec![Tree::leaf("Text", "d")])])])],
            ));
        }
        _ => {}
    }
    let exp = Tree::new("Page", vec![], out);
    let r = expect(&src, &exp).and_then(|_| {
        let p = parse(&src)?;
        for (e, m) in p.elements.iter().zip(&exp.c) {
            if let BlockElement::DefinitionList(d) = e.as_inner() {
                let terms: Vec<&Tree> = m.c.iter().map(|x| &x.c[0]).collect();
                if d.terms().count() != terms.len() || d.iter().count() != terms.len() {
                    return fail("terms", "number of terms");
                }
                let ndefs: usize = m.c.iter().map(|x| x.c[1].c.len()).sum();
                if d.definitions().count() != ndefs {
                    return fail("definitions", "number of definitions");
                }
                for (i, t) in terms.iter().enumerate() {
                    if let Some(name) = plain_text(t) {
                        let first = (0..=i).find(|j| d.items[*j].term.as_inner().to_string() == name).unwrap_or(i);
                        let want = &m.c[first].c[1];
                        match d.get(&name) {
                            None => return fail("get", format!("term {:?} is not found", name)),
                            Some(b) => {
                                let got: Vec<Tree> = b.as_inner().iter().map(|x| Tree::new("Def", vec![], norm::container(x.as_inner().as_inner()))).collect();
                                if got != want.c {
                                    return fail("get", format!("term {:?} finds other definitions", name));
                                }
                            }
                        }
                    }
                }
                if d.get("no such term").is_some() {
                    return fail("get", "found a term that is not there");
                }
            }
        }
        Ok(())
    });
    let n: usize = b.t.c.iter().map(|x| x.c[1].c.len()).sum();
    Case { text: src, nontrivial: b.t.c.len() >= 2 || n >= 2, labels: vec![format!("terms-{}", b.t.c.len().min(5))], out: r }
}

// ---- P08

fn p08(g: &mut G) -> Case {
    let mut src = String::new();
    let mut out = vec![];
    match g.freq(&[8, 2, 2, 2, 2]) {
        0 => {
            let b = gen::para(g, 3);
            src = b.src;
            out.push(b.t);
        }
        1 => {
            let b = gen::header(g);
            src = b.src;
            out.push(b.t);
        }
        2 => {
            let b = gen::table(g, gen::TableOpts { maxr: 1, maxc: 3, base: 0, nested: false, ragged: false });
            src = b.src;
            out.push(b.t);
        }
        3 => {
            let b = gen::list_opts(g, 0, 1, 2, false);
            src = b.src;
            out.push(b.t);
        }
        _ => {
            let b = gen::deflist(g, 0);
            src.push_str(&b.src);
            out.push(b.t);
        }
    }
    let t = Tree::new("Page", vec![], out);
    let r = expect(&src, &t);
    let mut labels: Vec<String> = vec![];
    let mut n = 0;
    t.walk(&mut |x| {
        if matches!(x.k, "Bold" | "Italic" | "Strike" | "Sup" | "Sub" | "CodeI" | "MathI" | "Tags" | "Keyword" | "LineC" | "MultiC" | "Link") {
            n += 1;
            labels.push(x.k.to_string());
            if x.c.iter().any(|c| c.k != "Text") {
                labels.push(format!("nested-{}", x.k));
            }
        }
    });
    labels.sort();
    labels.dedup();
    Case { text: src, nontrivial: n >= 2, labels, out: r }
}

// ---- P09

/// accessors of a link agree with the written target
fn p09_access(l: &Link, kind: &str, tgt: &str) -> Result<(), Fail> {
    let d = l.data();
    let bad = |m: String| -> Result<(), Fail> { fail("accessor", format!("{} for {:?} ({})", m, tgt, kind)) };
    let (path_q, frag) = match tgt.find('#') {
        Some(i) => (&tgt[..i], Some(&tgt[i + 1..])),
        None => (tgt, None),
    };
    let scheme = path_q.find(':').map(|i| &path_q[..i]).filter(|s| ["http", "https", "ftp", "file", "local", "mailto"].contains(s));
    let want_dec = gen::decode(&gen::uri_canon(tgt));
    if kind != "diary" {
        let got = gen::decode(&d.uri_ref.to_string()).replace("%23", "#");
        if got != want_dec && gen::decode(&got) != want_dec {
            return bad(format!("decoded target {:?}", got));
        }
        if d.to_decoded_uri_string() != want_dec {
            return bad(format!("to_decoded_uri_string {:?}", d.to_decoded_uri_string()));
        }
    }
    if d.scheme().map(|s| s.as_str().to_string()) != scheme.map(|s| s.to_string()) || l.scheme().map(|s| s.as_str()) != d.scheme().map(|s| s.as_str()) {
        return bad(format!("scheme {:?}", d.scheme()));
    }
    let local = matches!(scheme, None | Some("file") | Some("local"));
    if d.is_local() != local || d.is_remote() == local {
        return bad(format!("is_local {} is_remote {}", d.is_local(), d.is_remote()));
    }
    if d.has_anchor() != frag.is_some() || l.has_anchor() != frag.is_some() || d.fragment_str().is_some() != frag.is_some() {
        return bad(format!("has_anchor {}", d.has_anchor()));
    }
    let want: Option<Vec<String>> = frag.map(|f| f.split('#').map(gen::decode).collect());
    let got: Option<Vec<String>> = l.to_anchor().map(|a| a.into_iter().map(|x| gen::decode(&x)).collect());
    if got != want {
        return bad(format!("anchor {:?}, expected {:?}", got, want));
    }
    // path
    let no_query = path_q.split('?').next().unwrap();
    let after_scheme = match scheme {
        Some(s) => &no_query[s.len() + 1..],
        None => no_query,
    };
    let path = if after_scheme.starts_with("//") {
        let rest = &after_scheme[2..];
        rest.find('/').map_or("", |i| &rest[i..])
    } else {
        after_scheme
    };
    if kind != "diary" && scheme != Some("mailto") {
        let dir = path.is_empty() || path.ends_with('/');
        if !path.is_empty() && d.is_path_dir() != dir {
            return bad(format!("is_path_dir {}", d.is_path_dir()));
        }
        let anchor_only = scheme.is_none() && path_q.is_empty() && frag.is_some();
        if d.is_local_anchor() != anchor_only {
            return bad(format!("is_local_anchor {}", d.is_local_anchor()));
        }
        if !path.is_empty() {
            let pb = d.to_path_buf();
            let got: Vec<String> = pb.to_string_lossy().split('/').filter(|s| !s.is_empty()).map(gen::decode).collect();
            let want: Vec<String> = path.split('/').filter(|s| !s.is_empty()).map(gen::decode).collect();
            if got != want || pb.is_absolute() != path.starts_with('/') {
                return bad(format!("to_path_buf {:?}, expected {:?}", got, want));
            }
        }
    }
    Ok(())
}

fn p09(g: &mut G) -> Case {
    let (src, t) = if g.chance(1, 8) { gen::raw_link(g) } else { gen::link(g, true) };
    let pre = g.s(&["", "see ", "é ", "*b* "]);
    let pre = if t.s[0] == "raw" && !pre.is_empty() && !pre.ends_with(' ') { "" } else { pre };
    let post = g.s(&["", " and", "."]);
    let post = if t.s[0] == "raw" { if post.is_empty() { "" } else { " x" } } else { post };
    let mut line = vec![];
    match pre {
        "" => {}
        "*b* " => {
            line.push(Tree::new("Bold", vec![], vec![Tree::leaf("Text", "b")]));
            line.push(Tree::leaf("Text", " "));
        }
        p => line.push(Tree::leaf("Text", p)),
    }
    line.push(t.clone());
    if !post.is_empty() {
        line.push(Tree::leaf("Text", post));
    }
    let text = format!("{}{}{}\n", pre, src, post);
    let exp = Tree::new("Page", vec![], vec![Tree::new("Para", vec![], vec![Tree::new("Line", vec![], line)])]);
    let r = if src.contains("::") { Ok(()) } else { expect(&text, &exp) }.and_then(|_| {
        let l: Located<Link> = match guard("link parser", || Language::from_vimwiki_str(&src).parse())? {
            Ok(l) => l,
            Err(e) => return fail("link", format!("{:?} does not parse as a link: {}", src, e)),
        };
        let l = l.into_inner();
        if norm::link(&l) != t {
            return fail("link", format!("expected {}got {}", t.show(), norm::link(&l).show()));
        }
        let kind = t.s[0].as_str();
        // the target as written
        let inner = match kind {
            "raw" => src.clone(),
            _ => src[2..src.len() - 2].to_string(),
        };
        let inner = match kind {
            "diary" => inner[16..].to_string(),
            "indexed" | "named" => inner[inner.find(':').unwrap() + 1..].to_string(),
            _ => inner,
        };
        let tgt = inner.split('|').next().unwrap().to_string();
        p09_access(&l, kind, &tgt)?;
        let is = [l.is_wiki(), l.is_indexed_inter_wiki(), l.is_named_inter_wiki(), l.is_diary(), l.is_raw(), l.is_transclusion()];
        let k = ["wiki", "indexed", "named", "diary", "raw", "transclusion"].iter().position(|x| *x == kind).unwrap();
        if is.iter().filter(|x| **x).count() != 1 || !is[k] {
            return fail("accessor", format!("kind tests {:?} for {}", is, kind));
        }
        if l.index().map(|x| x.to_string()).unwrap_or_default() != if kind == "indexed" { t.s[1].clone() } else { String::new() } {
            return fail("accessor", "index");
        }
        if l.name().unwrap_or("") != if kind == "named" { t.s[1].as_str() } else { "" } {
            return fail("accessor", "name");
        }
        if l.date().map(|d| d.format("%Y-%m-%d").to_string()).unwrap_or_default() != if kind == "diary" { t.s[1].clone() } else { String::new() } {
            return fail("accessor", "date");
        }
        if l.description() != l.data().description.as_ref() || l.properties() != l.data().properties.as_ref() {
            return fail("accessor", "description/properties");
        }
        if let Some(p) = l.properties() {
            for (k, v) in p {
                if l.data().get_property_str(k) != Some(v) {
                    return fail("accessor", format!("property {:?}", k));
                }
            }
        }
        if l.data().get_property_str("no-such").is_some() {
            return fail("accessor", "unknown property");
        }
        Ok(())
    });
    let nt = t.s[3] != "nodesc" || t.s[2].contains('#') || t.s[2].contains('%');
    Case { text, nontrivial: nt, labels: vec![t.s[0].clone()], out: r }
}

/// explicit input with the tree it has to have (separated by U+0001)
fn tree_text(s: &str) -> Result<(), Fail> {
    let mut it = s.splitn(2, '\u{1}');
    let src = it.next().unwrap();
    let p = parse(src)?;
    if let Some(e) = it.next() {
        let got = norm::page(&p).plain();
        if got.trim() != e.trim() {
            return fail("tree", format!("expected:\n{}\ngot:\n{}", e, got));
        }
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P01", rule: "the text has at least 3 non-blank characters and contains a markup character", quick: 60000, thorough: 1500000, case: p01, text: Some(p01_text), assumptions: &["rendering may return an error for links to wikis that are not configured, never a panic"], threads: 8, batch: None },
    Prop { id: "P02", rule: "the parsed page has at least four nodes", quick: 120000, thorough: 2000000, case: p02, text: Some(p02_text), assumptions: &["text inside a link target, description or property list is judged by P09"], threads: 8, batch: None },
    Prop { id: "P03", rule: "the parsed page has at least four nodes", quick: 120000, thorough: 2000000, case: p03, text: Some(p03_text), assumptions: &[], threads: 8, batch: None },
    Prop { id: "P04", rule: "the document has at least two blocks", quick: 150000, thorough: 1500000, case: p04, text: Some(tree_text), assumptions: &["documents stay inside the generated grammar: the model does not cover text that the syntax leaves ambiguous"], threads: 8, batch: None },
    Prop { id: "P05", rule: "the list has several items or an item with several contents", quick: 90000, thorough: 1000000, case: p05, text: Some(tree_text), assumptions: &["nesting up to nine levels"], threads: 8, batch: None },
    Prop { id: "P06", rule: "the table has at least three cells", quick: 100000, thorough: 1500000, case: p06, text: Some(tree_text), assumptions: &["up to 28 rows or 14 columns"], threads: 8, batch: None },
    Prop { id: "P07", rule: "the list has at least two terms or two definitions", quick: 180000, thorough: 1500000, case: p07, text: Some(tree_text), assumptions: &[], threads: 8, batch: None },
    Prop { id: "P08", rule: "at least two elements other than text", quick: 500000, thorough: 3000000, case: p08, text: Some(tree_text), assumptions: &["nesting of decorations up to four levels"], threads: 8, batch: None },
    Prop { id: "P09", rule: "the link has a description, anchor or encoded character", quick: 500000, thorough: 2000000, case: p09, text: Some(tree_text), assumptions: &[], threads: 8, batch: None },
];

/// `%date 970-1-2` carries the date 0970-01-02
fn date_in(src: &str, canon: &str) -> bool {
    let nums = |x: &str| -> Vec<i64> { x.split('-').filter_map(|y| y.trim().parse().ok()).collect() };
    let a = nums(src.trim_start_matches("%date").trim());
    a.len() == 3 && a == nums(canon)
}
