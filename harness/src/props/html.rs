//! P12–P17, P31: HTML
use super::parse::parse;
use crate::dom::{self, attr, el, Node, Node::*};
use crate::engine::*;
use crate::gen;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use vimwiki::*;

// ---------------------------------------------------------------- configurations

pub fn wiki(path: &str, out: &str, name: Option<&str>) -> HtmlWikiConfig {
    HtmlWikiConfig { path: PathBuf::from(path), path_html: PathBuf::from(out), name: name.map(|x| x.to_string()), ..Default::default() }
}

/// wikis for every name and most indices that generated links use
pub fn wikis() -> Vec<HtmlWikiConfig> {
    vec![wiki("/w/a", "/o/a", Some("My Wiki")), wiki("/w/b c", "/o/b c", Some("w")), wiki("/w/日", "/o/日", Some("日本")), wiki("/w/d", "/o/d", Some("a.b")), wiki("/w/e", "/o/e", Some("x-1"))]
}

pub fn config(g: &mut G) -> HtmlConfig {
    let mut c = HtmlConfig { wikis: wikis(), ..Default::default() };
    if g.chance(1, 4) {
        return c;
    }
    c.paragraph.ignore_newline = !g.chance(1, 2);
    c.list.ignore_newline = !g.chance(1, 4);
    c.comment.include = g.chance(1, 2);
    c.header.table_of_contents = g.s(&["Contents", "toc", "alpha", "b", "Mixed", "日本語", "toc2"]).to_string();
    c.code.server_side = g.chance(1, 8);
    c
}

pub fn show_config(c: &HtmlConfig) -> String {
    format!(
        "paragraph.ignore_newline={} comment.include={} toc={:?} server_side={}",
        c.paragraph.ignore_newline, c.comment.include, c.header.table_of_contents, c.code.server_side
    )
}

/// explicit inputs are `document` or `document U+0001 config as JSON`
fn split(s: &str) -> (String, HtmlConfig) {
    let mut it = s.splitn(2, '\u{1}');
    let src = it.next().unwrap().to_string();
    let c = it.next().map(|j| serde_json::from_str(j).expect("config")).unwrap_or_else(|| HtmlConfig { wikis: wikis(), ..Default::default() });
    (src, c)
}

// ---------------------------------------------------------------- reference rendering

fn t(s: &str) -> Node {
    Text(s.to_string())
}

/// Metadata and properties are attributes where their name can be one of an HTML attribute
/// and where the tag does not have that attribute already
fn add_attrs<'x>(attrs: &mut Vec<(String, String)>, more: impl Iterator<Item = (&'x str, &'x str)>) {
    let mut v: Vec<(&str, &str)> = more.collect();
    v.sort();
    for (k, v) in v {
        let bad = k.is_empty() || k.chars().any(|c| c.is_whitespace() || c.is_control() || "\"'<>/=".contains(c));
        if !bad && !attrs.iter().any(|(x, _)| x.eq_ignore_ascii_case(k)) {
            attrs.push((k.to_string(), v.to_string()));
        }
    }
}

fn props<'x>(l: &'x LinkData<'x>) -> impl Iterator<Item = (&'x str, &'x str)> {
    l.properties.iter().flatten().map(|(k, v)| (k.as_ref(), v.as_ref()))
}

/// Addresses are the business of another property: they are compared only where they are
/// prescribed to be unchanged
fn keeps_address(l: &Link) -> bool {
    matches!(l, Link::Raw { .. }) || matches!(l, Link::Transclusion { data } | Link::Wiki { data } if !data.is_local())
}

fn ref_img(data: &LinkData, address: &str) -> Node {
    let mut attrs = vec![("src".to_string(), address.to_string())];
    if let Some(d) = &data.description {
        attrs.push(("alt".into(), d.to_string()));
    }
    add_attrs(&mut attrs, props(data));
    El { tag: "img".into(), attrs, kids: vec![] }
}

fn ref_link(l: &Link) -> Node {
    let data = l.data();
    let uri = data.uri_ref.to_string();
    let address = if keeps_address(l) { uri.clone() } else { "?".to_string() };
    if let Link::Transclusion { data } = l {
        return ref_img(data, &address);
    }
    let mut attrs = vec![("href".to_string(), address)];
    add_attrs(&mut attrs, props(data));
    let kid = match (&data.description, l) {
        (Some(Description::Text(x)), _) => t(x),
        (Some(Description::TransclusionLink(x)), _) => ref_img(x, &if x.is_local() { "?".to_string() } else { x.uri_ref.to_string() }),
        (None, Link::Raw { .. }) => t(&uri),
        (None, Link::Diary { date, .. }) => t(&format!("diary:{}", date.format("%Y-%m-%d"))),
        (None, _) => t(&gen::decode(&uri)),
    };
    El { tag: "a".into(), attrs, kids: vec![kid] }
}

fn ref_keyword(k: Keyword) -> Node {
    match k {
        Keyword::Todo => el("span", &[("class", "todo")], vec![t("TODO")]),
        Keyword::Done => t("DONE"),
        Keyword::Started => t("STARTED"),
        Keyword::Fixme => t("FIXME"),
        Keyword::Fixed => t("FIXED"),
        Keyword::Xxx => t("XXX"),
    }
}

fn ref_deco(d: &DecoratedText) -> Node {
    let kids = |v: &[Located<DecoratedTextContent>]| -> Vec<Node> {
        v.iter()
            .map(|x| match x.as_inner() {
                DecoratedTextContent::Text(x) => t(x.as_str()),
                DecoratedTextContent::DecoratedText(x) => ref_deco(x),
                DecoratedTextContent::Keyword(x) => ref_keyword(*x),
                DecoratedTextContent::Link(x) => ref_link(x),
            })
            .collect()
    };
    match d {
        DecoratedText::Bold(v) => el("strong", &[], kids(v)),
        DecoratedText::Italic(v) => el("em", &[], kids(v)),
        DecoratedText::Strikeout(v) => el("del", &[], kids(v)),
        DecoratedText::Superscript(v) => el("sup", &[], vec![el("small", &[], kids(v))]),
        DecoratedText::Subscript(v) => el("sub", &[], vec![el("small", &[], kids(v))]),
    }
}

fn ref_inline(c: &InlineElementContainer, cfg: &HtmlConfig, out: &mut Vec<Node>) {
    for e in c.iter() {
        match e.as_inner() {
            InlineElement::Text(x) => out.push(t(x.as_str())),
            InlineElement::DecoratedText(x) => out.push(ref_deco(x)),
            InlineElement::Keyword(x) => out.push(ref_keyword(*x)),
            InlineElement::Link(x) => out.push(ref_link(x)),
            InlineElement::Tags(x) => x.iter().for_each(|x| out.push(el("span", &[("class", "tag")], vec![t(x.as_str())]))),
            InlineElement::Code(x) => out.push(el("code", &[], vec![t(x.as_str())])),
            InlineElement::Math(x) => out.push(t(&format!("\\({}\\)", x.as_str()))),
            InlineElement::Comment(x) if cfg.comment.include => out.push(Comment(match x {
                vimwiki::Comment::Line(x) => x.as_str().to_string(),
                vimwiki::Comment::MultiLine(x) => x.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("\n"),
            })),
            InlineElement::Comment(_) => {}
        }
    }
}

fn inl(c: &InlineElementContainer, cfg: &HtmlConfig) -> Vec<Node> {
    let mut v = vec![];
    ref_inline(c, cfg, &mut v);
    v
}

fn ref_table(x: &Table, cfg: &HtmlConfig) -> Node {
    let grid: HashMap<(usize, usize), &Cell> = x.as_data().iter().map(|(p, c)| ((p.row, p.col), c.as_inner())).collect();
    let rows = grid.keys().map(|k| k.0 + 1).max().unwrap_or(0);
    let cols = grid.keys().map(|k| k.1 + 1).max().unwrap_or(0);
    let divider = |r: usize| (0..cols).filter_map(|c| grid.get(&(r, c))).next().map_or(false, |c| matches!(c, Cell::Align(_)));
    let first = (0..rows).find(|r| divider(*r));
    let part = |tag: &str, ctag: &str, rs: Vec<usize>| -> Option<Node> {
        if rs.is_empty() {
            return None;
        }
        let mut trs = vec![];
        for r in rs {
            let mut cells = vec![];
            for c in 0..cols {
                if let Some(Cell::Content(k)) = grid.get(&(r, c)) {
                    let down = (r + 1..rows).take_while(|r| matches!(grid.get(&(*r, c)), Some(Cell::Span(CellSpan::FromAbove)))).count() + 1;
                    let right = (c + 1..cols).take_while(|c| matches!(grid.get(&(r, *c)), Some(Cell::Span(CellSpan::FromLeft)))).count() + 1;
                    let mut a = vec![];
                    if down > 1 {
                        a.push(("rowspan".to_string(), down.to_string()));
                    }
                    if right > 1 {
                        a.push(("colspan".to_string(), right.to_string()));
                    }
                    cells.push(El { tag: ctag.into(), attrs: a, kids: inl(k, cfg) });
                }
            }
            if !cells.is_empty() {
                trs.push(el("tr", &[], cells));
            }
        }
        Some(el(tag, &[], trs))
    };
    let mut kids = vec![];
    kids.extend(part("thead", "th", (0..first.unwrap_or(0)).collect()));
    kids.extend(part("tbody", "td", (first.map_or(0, |f| f + 1)..rows).filter(|r| !divider(*r)).collect()));
    el("table", if x.centered { &[("class", "center")] } else { &[] }, kids)
}

fn ref_block(b: &BlockElement, cfg: &HtmlConfig, out: &mut Vec<Node>) {
    match b {
        BlockElement::Blockquote(x) => {
            let groups: Vec<Vec<&str>> = x.lines.split(|l| l.is_empty()).filter(|l| !l.is_empty()).map(|v| v.iter().map(|l| l.trim()).collect()).collect();
            out.push(el(
                "blockquote",
                &[],
                if groups.len() > 1 { groups.iter().map(|l| el("p", &[], vec![t(&l.join(" "))])).collect() } else { vec![t(&x.lines.join("\n"))] },
            ))
        }
        BlockElement::DefinitionList(x) => {
            let mut v = vec![];
            for td in x.items.iter() {
                v.push(el("dt", &[], inl(td.term.as_inner().as_inner(), cfg)));
                for d in td.definitions.iter() {
                    v.push(el("dd", &[], inl(d.as_inner().as_inner(), cfg)));
                }
            }
            out.push(el("dl", &[], v))
        }
        BlockElement::Divider(_) => out.push(el("hr", &[], vec![])),
        BlockElement::Header(x) => {
            let tag = format!("h{}", x.level);
            let kids = inl(&x.content, cfg);
            if x.level == 1 && x.content.to_string().trim() == cfg.header.table_of_contents {
                out.push(el("div", &[("class", "toc")], vec![el(&tag, &[], kids)]))
            } else {
                out.push(el(&tag, &[("class", "header")], kids))
            }
        }
        BlockElement::List(x) => {
            let ordered = x.items.first().map_or(false, |i| matches!(i.ty, ListItemType::Ordered(_)));
            let items = x
                .items
                .iter()
                .map(|i| {
                    let mut kids = vec![];
                    i.contents.iter().for_each(|c| ref_block(c.as_inner(), cfg, &mut kids));
                    let class = match i.attributes.todo_status {
                        None => None,
                        Some(ListItemTodoStatus::Incomplete) => Some("done0"),
                        Some(ListItemTodoStatus::PartiallyComplete1) => Some("done1"),
                        Some(ListItemTodoStatus::PartiallyComplete2) => Some("done2"),
                        Some(ListItemTodoStatus::PartiallyComplete3) => Some("done3"),
                        Some(ListItemTodoStatus::Complete) => Some("done4"),
                        Some(ListItemTodoStatus::Rejected) => Some("rejected"),
                    };
                    match class {
                        Some(c) => el("li", &[("class", c)], kids),
                        None => el("li", &[], kids),
                    }
                })
                .collect();
            out.push(el(if ordered { "ol" } else { "ul" }, &[], items))
        }
        BlockElement::MathBlock(x) => {
            let (a, b) = match &x.environment {
                Some(e) => (format!("\\begin{{{}}}", e), format!("\\end{{{}}}", e)),
                None => ("\\[".to_string(), "\\]".to_string()),
            };
            out.push(t(&format!("{}\n{}\n{}", a, x.lines.join("\n"), b)))
        }
        BlockElement::Paragraph(x) => {
            let blank = x.lines.iter().all(|l| l.iter().all(|e| matches!(e.as_inner(), InlineElement::Comment(_))));
            let mut v = vec![];
            for (i, l) in x.lines.iter().enumerate() {
                if i > 0 {
                    v.push(if cfg.paragraph.ignore_newline { t(" ") } else { el("br", &[], vec![]) });
                }
                ref_inline(l, cfg, &mut v);
            }
            if blank {
                out.extend(v)
            } else {
                out.push(el("p", &[], v))
            }
        }
        BlockElement::Placeholder(_) => {}
        BlockElement::CodeBlock(x) => {
            let text = x.lines.join("\n");
            if cfg.code.server_side {
                out.push(el("pre", &[("style", "")], vec![Text(text)]));
            } else {
                let mut attrs = vec![];
                if let Some(l) = &x.language {
                    attrs.push(("class".to_string(), l.to_string()));
                }
                add_attrs(&mut attrs, x.metadata.iter().map(|(k, v)| (k.as_ref(), v.as_ref())));
                out.push(el("pre", &[], vec![El { tag: "code".into(), attrs, kids: if text.is_empty() { vec![] } else { vec![Text(text)] } }]));
            }
        }
        BlockElement::Table(x) => out.push(ref_table(x, cfg)),
    }
}

fn hide_addresses(n: &mut Vec<Node>, keep: &dyn Fn(&str) -> bool) {
    for x in n {
        if let El { tag, attrs, kids } = x {
            if tag == "a" || tag == "img" {
                if let Some((_, v)) = attrs.first_mut() {
                    if !keep(v) {
                        *v = "?".into();
                    }
                }
            }
            hide_addresses(kids, keep);
        }
    }
}

fn links(p: &Page) -> Vec<Link<'static>> {
    fn deco(d: &DecoratedText, o: &mut Vec<Link<'static>>) {
        for x in d.as_contents_slice() {
            match x.as_inner() {
                DecoratedTextContent::DecoratedText(x) => deco(x, o),
                DecoratedTextContent::Link(x) => o.push(x.clone().into_owned()),
                _ => {}
            }
        }
    }
    let mut o = vec![];
    inlines(p, &mut |e, _| match e {
        InlineElement::Link(x) => o.push(x.clone().into_owned()),
        InlineElement::DecoratedText(d) => deco(d, &mut o),
        _ => {}
    });
    o
}

/// every inline element outside of links and decorations that is part of the HTML, in order
fn inlines<'a>(p: &'a Page<'a>, f: &mut dyn FnMut(&'a InlineElement<'a>, &'a BlockElement<'a>)) {
    fn block<'a>(b: &'a BlockElement<'a>, f: &mut dyn FnMut(&'a InlineElement<'a>, &'a BlockElement<'a>)) {
        let mut each = |c: &'a InlineElementContainer<'a>| c.iter().for_each(|e| f(e.as_inner(), b));
        match b {
            BlockElement::Header(x) => each(&x.content),
            BlockElement::Paragraph(x) => x.lines.iter().for_each(|l| each(l)),
            BlockElement::DefinitionList(x) => x.items.iter().for_each(|td| {
                each(td.term.as_inner().as_inner());
                td.definitions.iter().for_each(|d| each(d.as_inner().as_inner()));
            }),
            BlockElement::Table(x) => {
                let mut v: Vec<_> = x.as_data().iter().collect();
                v.sort_by_key(|(p, _)| (p.row, p.col));
                for (_, c) in v {
                    if let Cell::Content(k) = c.as_inner() {
                        each(k);
                    }
                }
            }
            BlockElement::List(x) => {
                for i in &x.items {
                    for c in i.contents.iter() {
                        block(c.as_inner(), f);
                    }
                }
            }
            _ => {}
        }
    }
    for b in p.elements.iter() {
        block(b.as_inner(), f);
    }
}

fn missing_wiki(p: &Page, cfg: &HtmlConfig) -> bool {
    links(p).iter().any(|l| match l {
        Link::IndexedInterWiki { index, .. } => *index as usize >= cfg.wikis.len(),
        Link::NamedInterWiki { name, .. } => !cfg.wikis.iter().any(|w| w.name.as_deref() == Some(name.as_ref())),
        _ => false,
    })
}

fn render(p: &Page, cfg: &HtmlConfig) -> Result<Result<String, HtmlOutputError>, Fail> {
    guard("HTML output", || p.to_html_string(cfg.clone()))
}

/// None where rendering reports a link to a wiki that does not exist
fn html(p: &Page, cfg: &HtmlConfig) -> Result<Option<String>, Fail> {
    match render(p, cfg)? {
        Ok(h) if missing_wiki(p, cfg) => fail("missing-wiki", format!("a link to a wiki that is not configured was written as if it was\n{}", h)),
        Ok(h) => Ok(Some(h)),
        Err(_) if missing_wiki(p, cfg) => Ok(None),
        Err(e) => fail("error", format!("no HTML: {:?}", e)),
    }
}

fn reference(p: &Page, cfg: &HtmlConfig) -> Vec<Node> {
    let mut v = vec![];
    for e in p.elements.iter() {
        ref_block(e.as_inner(), cfg, &mut v);
        v.push(t("\n"));
    }
    v
}

pub fn mirrors(src: &str, cfg: &HtmlConfig) -> Result<bool, Fail> {
    mirrors_page(&parse(src)?, cfg)
}

/// false where the page has a link to a wiki that does not exist, which is reported instead
pub fn mirrors_page(p: &Page, cfg: &HtmlConfig) -> Result<bool, Fail> {
    let h = match html(p, cfg)? {
        Some(h) => h,
        None => return Ok(false),
    };
    let got = dom::read(&h).or_else(|e| fail("malformed", format!("{}\n--- html\n{}", e, h)))?;
    let mut exp = dom::norm(reference(p, cfg));
    let mut got = dom::norm(got);
    let kept: Vec<String> = links(p)
        .iter()
        .flat_map(|l| {
            let mut v = vec![];
            if keeps_address(l) {
                v.push(l.data().uri_ref.to_string());
            }
            if let Some(Description::TransclusionLink(x)) = l.description() {
                if !x.is_local() {
                    v.push(x.uri_ref.to_string());
                }
            }
            v
        })
        .collect();
    let keep = |v: &str| kept.iter().any(|k| k == v);
    hide_addresses(&mut exp, &keep);
    hide_addresses(&mut got, &keep);
    match dom::diff(&exp, &got, "") {
        None => Ok(true),
        Some(d) => fail("html", format!("{}\n--- html\n{}", d, h)),
    }
}

pub fn p12_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    mirrors(&s, &c).map(|_| ())
}

fn p12(g: &mut G) -> Case {
    let cfg = config(g);
    let d = gen::doc(g, &gen::ALL, 1, 6);
    let mut labels: Vec<String> = d.kinds.iter().map(|k| k.to_string()).collect();
    let out = mirrors(&d.src, &cfg);
    if let Ok(false) = out {
        labels.push("missing wiki reported".into());
    }
    labels.sort();
    labels.dedup();
    Case { text: format!("# {}\n{}", show_config(&cfg), d.src), nontrivial: d.t.count() >= 5 && matches!(out, Ok(true)), labels, out: out.map(|_| ()) }
}

// ---------------------------------------------------------------- P13

/// text with characters that matter to HTML sprinkled over it
fn hostile(g: &mut G) -> String {
    let s = gen::any_text(g);
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..g.small(1, 8) {
        let i = g.below(cs.len() + 1);
        let x = g.s(&["<", ">", "&", "\"", "'", "<b>", "</p>", "\" onclick=\"x", "-->", "<!--", "&lt;", "&#60;", "--!>", "`", "</code></pre>", "' x='", "]]>", "<script>", "&amp;amp;"]);
        for (k, c) in x.chars().enumerate() {
            cs.insert(i + k, c);
        }
    }
    cs.into_iter().collect()
}

fn special(s: &str) -> bool {
    s.contains(&['<', '>', '&', '"', '\''][..])
}

/// text with special characters in known positions of the document
fn placed(g: &mut G) -> (String, &'static str) {
    let x = |g: &mut G, forbid: &[char]| -> String {
        let mut o = String::from("x");
        for _ in 0..g.range(1, 4) {
            let s = match g.freq(&[4, 1, 2]) {
                0 => g.s(&["<", ">", "&", "\"", "'", "<b>", "</p>", "&lt;", "\">", "-->", "--!>", "a", "é", "</title>", "&#x27;"]).to_string(),
                1 => (g.range(0x20, 0x7e) as u8 as char).to_string(),
                _ => g.w(&["\\", "\\\\", "\\frac{1}{2}", "{", "}", "$", "%", "://", "#", "?", "=", " ", "  ", "\\(", "\\]", "&nbsp;", "&copy", "](", "\t", "@", "::", "data:", "javascript:", "`"]),
            };
            if !s.contains(forbid) {
                o.push_str(&s);
            }
        }
        o.push('y');
        o
    };
    let k = g.below(16);
    match k {
        0 => (format!("{{{{{{{}\nc\n}}}}}}\n", x(g, &[])), "language"),
        1 => (format!("{{{{{{rust k=\"{}\" z=\"1\"\n{}\n}}}}}}\n", x(g, &['"']), x(g, &[])), "code"),
        2 => (format!("{{{{$%{}%\n{}\n}}}}$\n", x(g, &['%']), x(g, &[])), "math"),
        3 => (format!("[[page|d|{}=\"{}\"]]\n", x(g, &['"', '=', ' ', '|']), x(g, &['"'])), "properties"),
        4 => (format!("{{{{https://x.y/{}|{}|k=\"{}\"}}}}\n", x(g, &[]), x(g, &[]), x(g, &['"'])), "image"),
        5 => (format!("[[{}#{}|{}]]\n", x(g, &[]), x(g, &[]), x(g, &[])), "link"),
        6 => (format!("[[{}]]\n", x(g, &[])), "link"),
        7 => (format!("= {} =\ntext *{}* :{}:\n", x(g, &['=']), x(g, &[]), x(g, &[])), "ids"),
        8 => (format!("a %% {}\n%%+ {} +%% b\n", x(g, &[]), x(g, &[])), "comments"),
        9 => (format!("`{}` ${}$ _{}_\n", x(g, &['`']), x(g, &[]), x(g, &[])), "inline"),
        10 => (format!("|{}|{}|\n|---|---|\n|{}|{}|\n", x(g, &[]), x(g, &[]), x(g, &[]), x(g, &[])), "table"),
        11 => (format!("{}:: {}\n:: {}\n", x(g, &[]), x(g, &[]), x(g, &[])), "definitions"),
        12 => (format!("> {}\n>\n> {}\n\n    {}\n", x(g, &[]), x(g, &[]), x(g, &[])), "quotes"),
        13 => (format!("- {}\n  - [ ] {}\n", x(g, &[]), x(g, &[])), "lists"),
        14 => (format!("%title {}\ntext\n", x(g, &[])), "title"),
        _ => (format!("https://x.y/{} text {}\n", x(g, &[]), x(g, &[])), "address"),
    }
}

fn escaped(src: &str, cfg: &HtmlConfig) -> Result<bool, Fail> {
    if !mirrors(src, cfg)? {
        return Ok(false);
    }
    // the title of the page
    let p = parse(src)?;
    let mut c = cfg.clone();
    c.template = HtmlTemplateConfig::from_text("<t>%title%</t>");
    c.runtime.page = PathBuf::from("/w/a/<i> & \"q\".wiki");
    let exp = p.elements.iter().filter_map(|e| match e.as_inner() {
        BlockElement::Placeholder(Placeholder::Title(x)) => Some(x.to_string()),
        _ => None,
    });
    let exp = exp.last().unwrap_or_else(|| "<i> & \"q\"".into());
    if p.elements.iter().any(|e| matches!(e.as_inner(), BlockElement::Placeholder(Placeholder::Template(_)))) {
        return Ok(true);
    }
    let h = match guard("HTML page", || p.to_html_page(c))? {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{:?}", e)),
    };
    match dom::read(&h) {
        Ok(v) if v == vec![el("t", &[], if exp.is_empty() { vec![] } else { vec![Text(exp.clone())] })] => Ok(true),
        x => fail("title", format!("title {:?} written as {} ({:?})", exp, h, x)),
    }
}

pub fn p13_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    escaped(&s, &c).map(|_| ())
}

fn p13(g: &mut G) -> Case {
    let cfg = config(g);
    let (src, l) = if g.chance(1, 3) { placed(g) } else { (hostile(g), "anywhere") };
    let out = escaped(&src, &cfg);
    Case { text: format!("# {}\n{}", show_config(&cfg), src), nontrivial: special(&src) && matches!(out, Ok(true)), labels: vec![l.to_string()], out: out.map(|_| ()) }
}

// ---------------------------------------------------------------- P14

fn idtext(s: &str) -> String {
    s.to_lowercase().split(char::is_whitespace).filter(|x| !x.is_empty()).collect::<Vec<_>>().join("-")
}

struct Req {
    base: String,
    /// the same prefixed with the headers it is below, where that differs
    full: Option<String>,
    header: bool,
    toc: bool,
}

fn requests(p: &Page, cfg: &HtmlConfig) -> Vec<Req> {
    struct S {
        seen: Vec<(usize, String)>,
        out: Vec<Req>,
    }
    fn below(s: &S, base: &str) -> Option<String> {
        if s.seen.is_empty() {
            return None;
        }
        let mut v: Vec<&str> = s.seen.iter().map(|x| x.1.as_str()).collect();
        v.push(base);
        Some(v.join("-"))
    }
    fn deco(s: &mut S, d: &DecoratedText) {
        if let DecoratedText::Bold(v) = d {
            let base = idtext(&v.iter().map(|x| x.as_inner().to_string()).collect::<String>());
            let full = below(s, &base);
            s.out.push(Req { base, full, header: false, toc: false });
        }
        for x in d.as_contents_slice() {
            if let DecoratedTextContent::DecoratedText(x) = x.as_inner() {
                deco(s, x);
            }
        }
    }
    let mut s = S { seen: vec![], out: vec![] };
    let mut last: *const BlockElement = std::ptr::null();
    // headers without inline elements do not exist, so each is met before its contents
    inlines(p, &mut |e, b| {
        if let BlockElement::Header(h) = b {
            if !std::ptr::eq(last, b) {
                last = b;
                let base = idtext(&h.content.to_string());
                let toc = h.level == 1 && h.content.to_string().trim() == cfg.header.table_of_contents;
                s.seen.retain(|x| x.0 < h.level);
                let full = if toc { None } else { below(&s, &base) };
                s.seen.push((h.level, base.clone()));
                s.out.push(Req { base, full, header: true, toc });
            }
        }
        match e {
            InlineElement::DecoratedText(d) => deco(&mut s, d),
            InlineElement::Tags(x) => {
                for x in x.iter() {
                    let base = idtext(x.as_str());
                    let full = below(&s, &base);
                    s.out.push(Req { base, full, header: false, toc: false });
                }
            }
            _ => {}
        }
    });
    s.out
}

fn numbered(id: &str, base: &str) -> bool {
    id == base || id.strip_prefix(base).map_or(false, |r| r.starts_with('-') && r[1..].split('-').all(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())))
}

pub fn ids(src: &str, cfg: &HtmlConfig) -> Result<(bool, bool), Fail> {
    let p = parse(src)?;
    let h = match html(&p, cfg)? {
        Some(h) => h,
        None => return Ok((false, false)),
    };
    let d = dom::read(&h).or_else(|e| fail("malformed", format!("{}\n{}", e, h)))?;
    let mut found: Vec<(String, String)> = vec![];
    let mut self_links: Vec<(String, String)> = vec![];
    dom::walk(&d, &mut |tag, attrs, kids| {
        if !matches!(tag, "a" | "img" | "code") {
            if let Some(id) = attr(attrs, "id") {
                found.push((tag.to_string(), id.to_string()));
            }
        }
        if tag.len() == 2 && tag.starts_with('h') && tag != "hr" && attr(attrs, "class") == Some("header") {
            if let Some(El { attrs: a, .. }) = kids.first() {
                self_links.push((attr(attrs, "id").unwrap_or("").to_string(), attr(a, "href").unwrap_or("").to_string()));
            }
        }
    });
    let bad = |sig: &str, m: String| Fail { sig: sig.to_string(), msg: format!("{}\n--- html\n{}", m, h) };
    let reqs = requests(&p, cfg);
    let mut it = found.iter();
    let mut used: Vec<String> = vec![];
    let mut repeated = false;
    let mut check = |base: &str, id: &str| -> Result<(), Fail> {
        if !numbered(id, base) {
            return Err(bad("id", format!("expected the identifier {:?} or a numbered variant, got {:?}", base, id)));
        }
        let known = used.iter().any(|x| x == id);
        if !used.iter().any(|x| x == base) && id != base {
            return Err(bad("id", format!("the first {:?} is identified by {:?}", base, id)));
        }
        if known {
            // the tests prescribe that a text which looks like a numbered variant of an earlier
            // one keeps it as its identifier the first time it occurs
            let literal = id == base && base.rsplit('-').next().map_or(false, |x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())) && base.contains('-');
            if !literal {
                return Err(bad("duplicate", format!("{:?} is used twice", id)));
            }
        }
        repeated |= id != base;
        used.push(id.to_string());
        Ok(())
    };
    let mut headers = self_links.iter();
    for r in &reqs {
        let mut next = |what: &str| it.next().ok_or_else(|| bad("id", format!("no identifier for {:?} ({})", r.base, what)));
        let full_id = match &r.full {
            Some(_) => Some(next("full")?),
            None => None,
        };
        let id = next("own")?;
        check(&r.base, &id.1)?;
        if let (Some(f), Some(x)) = (&r.full, full_id) {
            check(f, &x.1)?;
        }
        if r.header && !r.toc {
            let target = full_id.unwrap_or(id).1.clone();
            match headers.next() {
                Some((own, href)) if *own == id.1 && *href == format!("#{}", target) => {}
                x => return Err(bad("self-link", format!("header {:?} should link to #{:?}, found {:?}", id.1, target, x))),
            }
        }
    }
    if let Some(x) = it.next() {
        return Err(bad("id", format!("unexpected identifier {:?}", x)));
    }
    // what follows does not matter
    for k in 1..p.elements.len() {
        let part = Page::new(p.elements[..k].to_vec());
        if let Some(x) = html(&part, cfg)? {
            if !h.starts_with(&x) {
                return Err(bad("later", format!("the first {} elements are written differently without the rest:\n{}", k, x)));
            }
        }
    }
    Ok((true, repeated))
}

pub fn p14_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    ids(&s, &c).map(|_| ())
}

fn p14(g: &mut G) -> Case {
    let cfg = config(g);
    let src = if g.chance(1, 4) {
        gen::doc(g, &[8, 6, 0, 0, 0, 0, 0, 1, 1, 2], 2, 8).src
    } else {
        const W: &[&str] = &["a", "b", "a b", "A", "a-1", "b 1", "a-b", "a 1 1", "toc", "a-b-1", "é", "x & y", "A-1-1", "1", "a *b*", "-1", "a\u{3000}b", "ß"];
        let mut s = String::new();
        let mut k = 0;
        let hi = if g.chance(1, 15) { 60 } else { 9 };
        while g.more(&mut k, 1, hi) {
            let w = g.s(W);
            match g.freq(&[6, 2, 2, 1, 1]) {
                0 => {
                    let e = "=".repeat(g.small(1, 4));
                    s.push_str(&format!("{} {} {}\n", e, w, e));
                }
                1 => s.push_str(&format!("*{}*\n\n", w)),
                2 => s.push_str(&format!(":{}:{}:\n\n", w.replace(' ', "-").replace('*', ""), g.s(&["a", "b", "a-1", "é"]))),
                3 => s.push_str(&format!("- *{}* _x *a*_\n\n", w)),
                _ => s.push_str(&format!("|*{}*|:a:|\n\n", w)),
            }
        }
        s
    };
    let out = ids(&src, &cfg);
    let nontrivial = matches!(out, Ok((true, true)));
    Case { text: format!("# {}\n{}", show_config(&cfg), src), nontrivial, labels: vec![], out: out.map(|_| ()) }
}

// ---------------------------------------------------------------- P15

fn strip(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    format!("/{}", v.join("/"))
}

/// output file of a source path relative to the root of a wiki
fn out_file(w: &HtmlWikiConfig, rel: &str, ext: &str) -> String {
    let rel = rel.trim_matches('/');
    let (dir, file) = match rel.rfind('/') {
        Some(i) => (&rel[..i + 1], &rel[i + 1..]),
        None => ("", rel),
    };
    let stem = match file.rfind('.') {
        Some(0) | None => file,
        Some(i) => &file[..i],
    };
    strip(&format!("{}/{}{}.{}", w.path_html.display(), dir, stem, ext))
}

/// (kind, segments, trailing slash) of a link's target
struct Tgt {
    abs: bool,
    segs: Vec<String>,
    dir: bool,
}

fn own_ext(file: &str) -> Option<&str> {
    match file.rfind('.') {
        Some(0) | None => None,
        Some(i) if i + 1 == file.len() => None,
        Some(i) => Some(&file[i + 1..]),
    }
}

/// a browser's view of a reference: (path, fragment) or None for another host
fn resolve(base: &str, href: &str) -> Result<(String, Option<String>), String> {
    let (path, frag) = match href.find('#') {
        Some(i) => (&href[..i], Some(&href[i + 1..])),
        None => (href, None),
    };
    if path.contains('?') || path.starts_with("//") || path.split('/').next().map_or(false, |s| s.contains(':')) {
        return Err(format!("{:?} is not a path", href));
    }
    let joined = if path.is_empty() {
        base.to_string()
    } else if path.starts_with('/') {
        path.to_string()
    } else {
        format!("{}/{}", &base[..base.rfind('/').unwrap()], path)
    };
    let ends_dir = joined.ends_with('/');
    let mut p: String = strip(&joined);
    if ends_dir {
        p.push('/');
    }
    Ok((p.split('/').map(gen::decode).collect::<Vec<_>>().join("/"), frag.map(|f| gen::decode(f))))
}

fn only_link(h: &str) -> Result<(String, String), Fail> {
    let d = dom::read(h).or_else(|e| fail("malformed", format!("{}\n{}", e, h)))?;
    let mut v = vec![];
    dom::walk(&d, &mut |tag, attrs, _| {
        if tag == "a" {
            v.push(("a".to_string(), attr(attrs, "href").unwrap_or("").to_string()));
        }
        if tag == "img" {
            v.push(("img".to_string(), attr(attrs, "src").unwrap_or("").to_string()));
        }
    });
    match v.first() {
        Some(x) if v.len() == 1 => Ok(x.clone()),
        _ => fail("no-link", format!("expected one link in\n{}", h)),
    }
}

pub const ROOTS: &[&str] = &["/w/a", "/w/b c", "/w/日本", "/w/a/sub", "/w", "/home/u/wiki.d", "/q&a"];
pub const OUTS: &[&str] = &["/o/a", "/o/b c", "/o", "/o/a/sub", "/w/a", "/srv/é/x", "/o/h.t.m"];
pub const DIARIES: &[&str] = &["diary", "d/é x", ".", "dia.ry", "di&ary"];
const PSEGS: &[&str] = &["page", "My Page", "日本", "sub-dir", "a.b", "été", "a+b", "p(1)", "q&a", "100%", "x;y", "n:m", "@h", "e=f", "~t", "it's", "index", "diary", "#1", "v1.2.3", "c++", "a,b", "100%25", ".hid"];

fn seg(g: &mut G) -> String {
    g.s(PSEGS).to_string()
}

/// a name as it may be typed in a link: % that would read as an encoded character is encoded
fn typed(g: &mut G, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '#' || c == '%' || c == '?' {
            o.push_str(&format!("%{:02X}", c as u32));
        } else if c == ' ' && g.chance(1, 3) {
            o.push_str("%20");
        } else {
            o.push(c);
        }
    }
    o
}

fn p15(g: &mut G) -> Case {
    let n = if g.chance(1, 15) { g.range(5, 14) } else { g.small(1, 4) };
    let mut ws = vec![];
    for i in 0..n {
        let mut w = wiki(g.s(ROOTS), g.s(OUTS), None);
        if g.coin() {
            let name = if g.coin() { g.s(&["My Wiki", "my wiki", "w", "W", "w1", "My", "日", "É", "é"]).to_string() } else { format!("{}{}", g.s(&["My Wiki", "w", "日"]), i) };
            if ws.iter().all(|x: &HtmlWikiConfig| x.name.as_ref() != Some(&name)) {
                w.name = Some(name);
            }
        }
        w.ext = g.s(&["wiki", "md", "w.x"]).trim_start_matches("w.").to_string();
        w.diary_rel_path = PathBuf::from(g.s(DIARIES));
        ws.push(w);
    }
    let active = g.below(n);
    let src_wiki = ws[active].clone();
    let mut dir: Vec<String> = vec![];
    for _ in 0..g.small(0, 3) {
        dir.push(seg(g));
    }
    let stem = seg(g).replace(".hid", "hid");
    let rel = format!("{}{}.{}", dir.iter().map(|d| format!("{}/", d)).collect::<String>(), stem, src_wiki.ext);
    let cfg = HtmlConfig {
        wikis: ws.clone(),
        runtime: HtmlRuntimeConfig { wiki_index: Some(active), page: src_wiki.path.join(&rel) },
        ..Default::default()
    };
    let here = out_file(&src_wiki, &rel, "html");
    // target
    let mut tg = Tgt { abs: false, segs: vec![], dir: false };
    let mut typed_path = String::new();
    let kind = g.freq(&[10, 4, 4, 3, 4, 2, 2]);
    let anchor: Option<Vec<String>> = if g.chance(1, 3) || kind == 5 { Some(gen::anchors(g)) } else { None };
    if kind != 3 && kind != 5 && kind != 6 {
        tg.abs = g.chance(1, 4);
        if tg.abs {
            typed_path.push('/');
        }
        let mut k = 0;
        while g.more_small(&mut k, 1, 4) {
            let s = if g.chance(1, 5) { g.s(&["..", "."]).to_string() } else { seg(g) };
            tg.segs.push(s);
        }
        if matches!(tg.segs.last().map(|s| s.as_str()), Some("..") | Some(".")) {
            tg.segs.push("page".into());
        }
        if tg.segs[0].contains(':') {
            // would be a scheme
            let first = if tg.abs { "x" } else { "." };
            tg.segs.insert(0, first.into());
        }
        if g.chance(1, 4) {
            let l = tg.segs.last_mut().unwrap();
            l.push_str(g.s(&[".pdf", ".html", ".wiki", ".md", ".tar.gz", ".PNG"]));
        } else if g.chance(1, 4) && kind != 4 {
            tg.dir = true;
        }
        let v: Vec<String> = tg.segs.iter().map(|s| typed(g, s)).collect();
        typed_path.push_str(&v.join("/"));
        if tg.dir {
            typed_path.push('/');
        }
    }
    let mut anchor_src = String::new();
    for a in anchor.iter().flatten() {
        anchor_src.push('#');
        anchor_src.push_str(a);
    }
    let frag = anchor.as_ref().map(|a| a.iter().map(|x| idtext(&gen::decode(x))).collect::<Vec<_>>().join("-"));
    let base_dir = format!("{}", dir.iter().map(|d| format!("{}/", d)).collect::<String>());
    // expected output path of a page, directory or file in wiki w
    let target = |w: &HtmlWikiConfig, from: &str| -> String {
        let mut path = if tg.abs { tg.segs.join("/") } else { format!("{}{}", from, tg.segs.join("/")) };
        let file = tg.segs.last().cloned().unwrap_or_default();
        let ext = if tg.dir {
            path.push_str("/index");
            "html".to_string()
        } else {
            match own_ext(&file) {
                Some(e) if e == w.ext => "html".to_string(),
                Some(e) => e.to_string(),
                None => {
                    path.push_str(&format!(".{}", w.ext));
                    "html".into()
                }
            }
        };
        if tg.dir {
            path.push_str(".x");
        }
        out_file(w, &path, &ext)
    };
    let tail = g.s(&["", "|desc", "|d|k=\"v\""]);
    let mut raw_frag = None;
    let (src, exp, img): (String, Result<String, String>, bool) = match kind {
        0 => (format!("[[{}{}{}]]", typed_path, anchor_src, tail), Ok(target(&src_wiki, &base_dir)), false),
        1 => {
            let i = g.below(n);
            (format!("[[wiki{}:{}{}{}]]", i, typed_path, anchor_src, tail), Ok(target(&ws[i], "")), false)
        }
        2 => {
            let named: Vec<&HtmlWikiConfig> = ws.iter().filter(|w| w.name.is_some()).collect();
            if named.is_empty() {
                (format!("[[{}{}{}]]", typed_path, anchor_src, tail), Ok(target(&src_wiki, &base_dir)), false)
            } else {
                let w = named[g.below(named.len())];
                let name = w.name.clone().unwrap();
                (format!("[[wn.{}:{}{}{}]]", name, typed_path, anchor_src, tail), Ok(target(w, "")), false)
            }
        }
        3 => {
            let d = gen::date(g);
            let p = format!("{}/{}.x", src_wiki.diary_rel_path.display(), d);
            (format!("[[diary:{}{}{}]]", d, anchor_src, tail), Ok(out_file(&src_wiki, &strip(&p), "html")), false)
        }
        4 => {
            raw_frag = anchor.clone();
            let path = if tg.abs { tg.segs.join("/") } else { format!("{}{}", base_dir, tg.segs.join("/")) };
            let file = tg.segs.last().unwrap();
            let exp = match own_ext(file) {
                Some(e) => out_file(&src_wiki, &path, e),
                None => {
                    // without an extension the name stays as it is
                    let x = out_file(&src_wiki, &format!("{}.x", path), "y");
                    x[..x.len() - 2].to_string()
                }
            };
            (format!("{{{{{}{}{}}}}}", typed_path, anchor_src, g.s(&["", "|alt"])), Ok(exp), true)
        }
        5 => (format!("[[{}{}]]", anchor_src, tail), Ok(here.clone()), false),
        _ => {
            let u = g.s(&["https://example.com/a/b.html", "http://h.org/?q=1&r=2#F", "ftp://f.g/x/", "https://u@h:8080/p;v=1"]).to_string();
            match g.below(3) {
                0 => (format!("[[{}{}]]", u, tail), Err(u), false),
                1 => (u.clone(), Err(u), false),
                _ => (format!("{{{{{}}}}}", u), Err(u), true),
            }
        }
    };
    let label = ["wiki", "indexed", "named", "diary", "transclusion", "anchor", "remote"][kind];
    let mut labels = vec![label.to_string()];
    if tg.dir {
        labels.push("directory".into());
    }
    if tg.segs.iter().any(|s| s == "..") {
        labels.push("parent".into());
    }
    let shown = format!(
        "{}\npage {:?} of wiki {}\n{}",
        src,
        rel,
        active,
        ws.iter().map(|w| format!("wiki {:?} -> {:?} name {:?} ext {:?} diary {:?}\n", w.path, w.path_html, w.name, w.ext, w.diary_rel_path)).collect::<String>()
    );
    // absolute targets that name a file of the wiki by its whole path are read as that file,
    // and a path that leaves the wiki has no output file
    let excluded = match &exp {
        Ok(_) => (tg.abs && ws.iter().any(|w| Path::new("/").join(tg.segs.join("/")).starts_with(&w.path))) || escapes(&tg, if kind == 0 || kind == 4 { dir.len() } else { 0 })
            // a file cannot have the name of a directory that the page is in
            || here.starts_with(&format!("{}/", exp.as_ref().unwrap())),
        Err(_) => false,
    };
    let out = if excluded { Ok(()) } else { p15_check(&src, &cfg, &here, &exp, img, &frag, &raw_frag, matches!(exp, Ok(_)) && anchor.is_some()) };
    Case { text: shown, nontrivial: !excluded, labels, out }
}

fn escapes(tg: &Tgt, depth: usize) -> bool {
    let mut d = if tg.abs { 0 } else { depth as isize };
    for s in &tg.segs {
        match s.as_str() {
            ".." => d -= 1,
            "." => {}
            _ => d += 1,
        }
        if d < 0 {
            return true;
        }
    }
    false
}

#[allow(clippy::too_many_arguments)]
fn p15_check(src: &str, cfg: &HtmlConfig, here: &str, exp: &Result<String, String>, img: bool, frag: &Option<String>, raw_frag: &Option<Vec<String>>, anchored: bool) -> Result<(), Fail> {
    let p = parse(src)?;
    let h = match render(&p, cfg)? {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{:?}", e)),
    };
    let (tag, href) = only_link(&h)?;
    if (tag == "img") != img {
        return fail("tag", format!("written as <{}>\n{}", tag, h));
    }
    match exp {
        Err(u) => {
            if *u != href {
                return fail("remote", format!("{} was changed to {}", u, href));
            }
        }
        Ok(path) => {
            let base = here.split('/').map(enc).collect::<Vec<_>>().join("/");
            let (got, f) = resolve(&base, &href).or_else(|e| fail("reference", e))?;
            if got != *path {
                return fail("target", format!("from {} the address {} leads to {}, not to {}", here, href, got, path));
            }
            let want = if !anchored {
                None
            } else if let Some(a) = raw_frag {
                Some(gen::decode(&a.join("#")))
            } else {
                frag.clone()
            };
            // anchors of files that are no pages mean something to whatever shows them
            let ok = match (&want, &f) {
                (Some(a), Some(b)) if !path.ends_with(".html") => a == b || idtext(a).replace('#', "-") == idtext(b).replace('#', "-"),
                (a, b) => a == b,
            };
            if !ok {
                return fail("anchor", format!("the address {} should have the anchor {:?}", href, want));
            }
        }
    }
    Ok(())
}

fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect()
}

/// explicit inputs: link, page within the wiki and expected address, separated by U+0001
pub fn p15_text(s: &str) -> Result<(), Fail> {
    let v: Vec<&str> = s.split('\u{1}').collect();
    let mut ws = wikis();
    ws[0].ext = "wiki".into();
    let cfg = HtmlConfig { wikis: ws.clone(), runtime: HtmlRuntimeConfig { wiki_index: Some(0), page: ws[0].path.join(v[1]) }, ..Default::default() };
    let p = parse(v[0])?;
    let h = match render(&p, &cfg)? {
        Ok(h) => h,
        Err(e) => return fail("error", format!("{:?}", e)),
    };
    let mut first = None;
    let d = dom::read(&h).or_else(|e| fail("malformed", e))?;
    dom::walk(&d, &mut |tag, attrs, _| {
        if (tag == "a" && !attr(attrs, "href").map_or(false, |x| v.len() > 3 && x == v[3])) || tag == "img" {
            first = attr(attrs, if tag == "a" { "href" } else { "src" }).map(|x| x.to_string());
        }
    });
    if first.as_deref() != Some(v[2]) {
        return fail("address", format!("{:?} instead of {:?}", first, v[2]));
    }
    Ok(())
}

/// anchors lead to the identifiers of the headers they name
fn p15_anchor(g: &mut G) -> Case {
    const H: &[&str] = &["Alpha", "Beta two", "日本 x", "A & B", "é", "50%", "C#", "Q? yes", "a/b", "it's", "x \"y\"", "Z+", "M  N"];
    let mut left: Vec<&str> = H.to_vec();
    let mut stack: Vec<(usize, String)> = vec![];
    let mut src = String::new();
    let mut paths: Vec<Vec<String>> = vec![];
    let mut k = 0;
    while g.more(&mut k, 1, 6) {
        let l = g.range(1, 4);
        let i = g.below(left.len());
        let h = left.remove(i).to_string();
        stack.retain(|x| x.0 < l);
        stack.push((l, h.clone()));
        let e = "=".repeat(l);
        src.push_str(&format!("{} {} {}\n", e, h, e));
        paths.push(stack.iter().map(|x| x.1.clone()).collect());
    }
    let pick = paths[g.below(paths.len())].clone();
    let full = g.coin();
    let comps: Vec<String> = if full { pick.clone() } else { vec![pick.last().unwrap().clone()] };
    let enc_a = |s: &String| s.replace('%', "%25").replace('#', "%23");
    let a: String = comps.iter().map(|c| format!("#{}", enc_a(c))).collect();
    let other = g.coin();
    let link = if other { format!("[[other{}]]", a) } else { format!("[[{}]]", a) };
    let text = format!("{}\n{}\n", src, link);
    let out = (|| {
        // a # that is part of a header cannot be told from one between headers
        if comps.iter().any(|c| c.contains('#')) {
            return Ok(());
        }
        let cfg = HtmlConfig { wikis: wikis(), runtime: HtmlRuntimeConfig { wiki_index: Some(0), page: PathBuf::from("/w/a/this.wiki") }, ..Default::default() };
        let h = match html(&parse(&text)?, &cfg)? {
            Some(h) => h,
            None => return Ok(()),
        };
        let d = dom::read(&h).or_else(|e| fail("malformed", e))?;
        let mut ids: Vec<(String, String, String)> = vec![];
        let mut href = String::new();
        dom::walk(&d, &mut |tag, attrs, kids| {
            if let Some(id) = attr(attrs, "id") {
                ids.push((id.to_string(), tag.to_string(), dom::text(kids)));
            }
            if tag == "a" {
                href = attr(attrs, "href").unwrap_or("").to_string();
            }
        });
        let frag = match href.find('#') {
            Some(i) => gen::decode(&href[i + 1..]),
            None => return fail("anchor", format!("no anchor in {}", href)),
        };
        let want = comps.last().unwrap().split_whitespace().collect::<Vec<_>>().join(" ");
        match ids.iter().find(|x| x.0 == frag) {
            Some((_, _, t)) if t.split_whitespace().collect::<Vec<_>>().join(" ") == want => Ok(()),
            x => fail("anchor", format!("{} leads to {:?}\n{}", href, x, h)),
        }
    })();
    Case { text, nontrivial: true, labels: vec![if full { "stacked anchor" } else { "header anchor" }.to_string()], out }
}

fn p15_any(g: &mut G) -> Case {
    if g.chance(1, 6) {
        p15_anchor(g)
    } else {
        p15(g)
    }
}

// ---------------------------------------------------------------- P16

pub fn reproducible(src: &str, cfg: &HtmlConfig, before: &str) -> Result<(), Fail> {
    let p = parse(src)?;
    let a = render(&p, cfg)?.map_err(|e| format!("{:?}", e));
    let mut cfg2 = cfg.clone();
    cfg2.wikis = cfg.wikis.clone();
    let mut same = |what: &str, q: &Page, c: &HtmlConfig| -> Result<(), Fail> {
        let b = render(q, c)?.map_err(|e| format!("{:?}", e));
        if a != b {
            return fail("differs", format!("{} is written differently\n--- first\n{:?}\n--- then\n{:?}", what, a, b));
        }
        Ok(())
    };
    same("the same page again", &p, cfg)?;
    for _ in 0..3 {
        same("the page parsed again", &parse(src)?, cfg)?;
    }
    same("a clone", &p.clone(), &cfg2)?;
    same("an owned copy", &p.clone().into_owned(), cfg)?;
    same("a borrowed copy", &p.to_borrowed(), cfg)?;
    let j = serde_json::to_string(&p).or_else(|e| fail("json", format!("{}", e)))?;
    let q: Page = serde_json::from_str(&j).or_else(|e| fail("json", format!("{} in {}", e, j)))?;
    same("a copy read from JSON", &q, cfg)?;
    let _ = render(&parse(before)?, cfg)?;
    same("the page after another page", &p, cfg)?;
    // and so are whole pages, as long as the day does not change in between
    let page = |q: &Page| guard("HTML page", || q.to_html_page(cfg.clone())).map(|r| r.map_err(|e| format!("{:?}", e)));
    if page(&p)? != page(&q)? && page(&p)? != page(&q)? {
        return fail("page", "whole pages differ");
    }
    Ok(())
}

pub fn p16_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    (0..10).try_for_each(|_| reproducible(&s, &c, "= a =\n*a*\n"))
}

fn p16(g: &mut G) -> Case {
    let cfg = config(g);
    let mut src = gen::doc(g, &[4, 6, 0, 1, 1, 1, 4, 3, 2, 4], 1, 5).src;
    let mut many = false;
    if g.coin() {
        let m: Vec<String> = (0..g.range(2, 6)).map(|i| format!("k{}=\"{}\"", i, g.s(&["v", "a b", ""]))).collect();
        src.push_str(&format!("\n\n{{{{{{rust {}\nx\n}}}}}}\n\n[[a|b|{}]]\n", m.join(" "), m.join(" ")));
        many = true;
    }
    let before = gen::doc(g, &gen::ALL, 1, 3).src;
    let out = reproducible(&src, &cfg, &before);
    Case { text: format!("# {}\n{}", show_config(&cfg), src), nontrivial: many || src.contains("=\""), labels: vec![], out }
}

// ---------------------------------------------------------------- P17

const VARS: &[&str] = &["%title%", "%date%", "%root_path%", "%wiki_path%", "%css%", "%encoding%", "%content%"];

fn fill(t: &str, vals: &[(&str, String)]) -> String {
    let mut o = String::new();
    let mut i = 0;
    'outer: while i < t.len() {
        for (k, v) in vals {
            if t[i..].starts_with(k) {
                o.push_str(v);
                i += k.len();
                continue 'outer;
            }
        }
        let c = t[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    o
}

fn template(g: &mut G) -> String {
    let mut s = String::new();
    let mut k = 0;
    while g.more(&mut k, 1, 9) {
        s.push_str(match g.freq(&[6, 3]) {
            0 => g.s(VARS),
            _ => g.s(&["%", "%%", "title", "%title", "title%", "<html>", "\n", "é", " ", "%unknown%", "%TITLE%", "100%", "%content", "% date%", "{%css%}", "\\", "$1", "%root_path", "🦀"]),
        });
    }
    s
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn htmlesc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#x27;").replace('`', "&#x60;")
}

fn p17(g: &mut G) -> Case {
    let mut cfg = HtmlConfig { wikis: wikis(), ..Default::default() };
    let dirs = g.small(0, 3);
    let mut rel = String::new();
    for _ in 0..dirs {
        rel.push_str(g.s(&["sub", "My Dir", "日", "%css%"]));
        rel.push('/');
    }
    let stem = g.s(&["page", "My Page", "日本", "a&b", "%title%", "x.y", "<i>"]);
    rel.push_str(&format!("{}.wiki", stem));
    let in_wiki = g.chance(3, 4);
    let w = g.below(cfg.wikis.len());
    cfg.wikis[w].css_name = g.s(&["style.css", "my.css", "%title%", "é.css"]).to_string();
    cfg.runtime = HtmlRuntimeConfig { wiki_index: if in_wiki { Some(w) } else { None }, page: cfg.wikis[w].path.join(&rel) };
    let tpl = template(g);
    let body = g.s(&["hello %title% and %content%", "", "- %date%\n- x", "{{{\n%css% %root_path%\n}}}", "= %title% =", "%wiki_path%", "some text"]);
    let title = if g.coin() { Some(g.s(&["My Title", "%date%", "a & <b>", "%content%", "日本", "t %% x"])) } else { None };
    let date = if g.coin() { Some(gen::date(g)) } else { None };
    let files = [("default.tpl", template(g)), ("other", template(g)), ("other.tpl", template(g)), ("sub.x.html", template(g)), ("ext.html", template(g))];
    let named = if g.chance(1, 2) { Some(g.s(&["default", "default.tpl", "other", "sub.x", "ext", "ext.html", "missing", "sub.x.html"])) } else { None };
    let ext = g.s(&["tpl", "html"]);
    let mut src = String::new();
    let mut ph: Vec<String> = vec![];
    if let Some(t) = title {
        ph.push(format!("%title {}\n", t));
    }
    if let Some(d) = &date {
        ph.push(format!("%date {}\n", d));
    }
    if let Some(n) = named {
        ph.push(format!("%template {}\n", n));
    }
    let end = g.chance(1, 3);
    if !end {
        ph.iter().for_each(|x| src.push_str(x));
    }
    src.push_str(body);
    src.push('\n');
    if end {
        src.push('\n');
        ph.iter().for_each(|x| src.push_str(x));
    }
    let scratch = if named.is_some() { Some(Scratch::new()) } else { None };
    if let Some(s) = &scratch {
        for (n, t) in &files {
            std::fs::write(s.0.join(n), t).unwrap();
        }
        cfg.template.dir = s.0.clone();
    }
    cfg.template.ext = ext.into();
    cfg.template.text = tpl.clone();
    let find = |n: &str| files.iter().find(|f| f.0 == n).map(|f| f.1.clone());
    let used = match named {
        None => Some(tpl.clone()),
        Some(n) => find(n).or_else(|| find(&format!("{}.{}", n, ext))),
    };
    let text = format!(
        "page {:?} in wiki: {} css {:?} template ext {:?}\ntemplate {:?}\nfiles {:?}\n{}",
        rel,
        in_wiki,
        cfg.wikis[w].css_name,
        ext,
        tpl,
        if named.is_some() { &files[..] } else { &[] },
        src
    );
    let out = (|| {
        let p = parse(&src)?;
        let content = match html(&p, &cfg)? {
            Some(h) => h,
            None => return Ok(()),
        };
        let expected = |today: String| {
            let (root, path, css) = if in_wiki {
                ("../".repeat(dirs), rel.clone(), cfg.wikis[w].css_name.clone())
            } else {
                (String::new(), format!("{}.wiki", stem), "style.css".to_string())
            };
            used.as_ref().map(|u| {
                fill(
                    u,
                    &[
                        ("%title%", htmlesc(&title.map(|t| t.to_string()).unwrap_or_else(|| stem.to_string()))),
                        ("%date%", date.clone().unwrap_or(today)),
                        ("%root_path%", root),
                        ("%wiki_path%", path),
                        ("%css%", css),
                        ("%encoding%", "utf-8".into()),
                        ("%content%", content.clone()),
                    ],
                )
            })
        };
        let day = || chrono_today();
        let d1 = day();
        let got = guard("HTML page", || p.to_html_page(cfg.clone()))?;
        let d2 = day();
        match got {
            Ok(h) => {
                if Some(&h) == expected(d1).as_ref() || Some(&h) == expected(d2.clone()).as_ref() {
                    Ok(())
                } else {
                    fail("page", format!("--- expected\n{:?}\n--- got\n{:?}", expected(d2), h))
                }
            }
            Err(_) if used.is_none() => Ok(()),
            Err(e) => fail("error", format!("{:?}", e)),
        }
    })();
    let nontrivial = used.as_ref().map_or(false, |u| VARS.iter().filter(|v| u.contains(*v)).count() >= 2);
    let mut labels = vec![];
    if named.is_some() {
        labels.push(if used.is_some() { "template file" } else { "missing template" }.to_string());
    }
    Case { text, nontrivial, labels, out }
}

fn chrono_today() -> String {
    vimwiki::vendor::chrono::Local::now().naive_local().date().to_string()
}

/// explicit inputs: document, U+0001, template, U+0001, expected page
pub fn p17_text(s: &str) -> Result<(), Fail> {
    let v: Vec<&str> = s.split('\u{1}').collect();
    let mut cfg = HtmlConfig { wikis: wikis(), ..Default::default() };
    let scratch = Scratch::new();
    std::fs::write(scratch.0.join("file.tpl"), "F:%title%").unwrap();
    cfg.template.dir = scratch.0.clone();
    cfg.template.text = v[1].into();
    cfg.runtime.page = PathBuf::from("/x/<i>.wiki");
    match guard("page", || parse(v[0]).map(|p| p.to_html_page(cfg)))?? {
        Ok(h) if h == v[2] => Ok(()),
        x => fail("page", format!("{:?} instead of {:?}", x, v[2])),
    }
}

// ---------------------------------------------------------------- P31

const HIDDEN: &[&str] = &["zq", "*zq*", "zq [[zq]]", "`zq", "zq -->", "<b>zq", "_zq", "{{zq}}", "$zq$", "TODO zq", ":zq:", "zq, zq", "# zq", "https://zq.org", "= zq =", "zq <!-- zq", "--!> zq", "zq ~~", "^zq^", "[[zq|zq]", "zq %% zq", "-> zq", "日zq", "{{{zq", "&zq;", "[[a|zq"];

/// a document with n comments; each is written by `c` from its number
fn with_comments(g: &mut G, n: &std::cell::Cell<usize>) -> Vec<Piece> {
    let mut v = vec![];
    let mut k = 0;
    while g.more(&mut k, 1, 5) {
        let line = |g: &mut G, v: &mut Vec<Piece>, bar: bool, multi: bool, colon: bool| {
            let mut j = 0;
            let mut words = 0;
            while g.more(&mut j, 1, 4) {
                match g.freq(&[5, 4]) {
                    0 => {
                        v.push(Piece::Src(g.s(&["alpha ", "b", "*bold* ", "`code` ", "[[link]] ", "日本 ", "_it_", "x. ", "TODO ", "*bo", "ld*", "[[li", "[[wn.w:li", "[[wiki1:li", "[[diary:2020-01-0", "[[#an", "[[https://a.b/", "nk]]", "{{im", "ge}}", "`co", "de`", "$ma", "th$", "_", "~~", "^", ",,", ":ta", "g: ", "https://x.y/"]).to_string()));
                        words += 1;
                    }
                    _ => {
                        n.set(n.get() + 1);
                        v.push(Piece::Multi { bar, multi, colon });
                    }
                }
            }
            if words == 0 {
                v.push(Piece::Src("word".into()));
            }
        };
        let bars = |v: &mut Vec<Piece>| {
            // a description in what may be a link, where | has no other meaning
            for p in v.iter_mut() {
                if let Piece::Src(s) = p {
                    if s.starts_with("[[") && !s.ends_with("]] ") {
                        s.push('|');
                    }
                }
            }
        };
        let eol = |g: &mut G, v: &mut Vec<Piece>, bar: bool, colon: bool| {
            if g.chance(1, 3) {
                n.set(n.get() + 1);
                v.push(Piece::Src(" ".into()));
                v.push(Piece::Line { bar, colon });
            }
        };
        match g.freq(&[4, 2, 3, 2, 2, 2]) {
            0 => {
                for _ in 0..g.small(1, 3) {
                    v.push(Piece::Src("p ".into()));
                    let at = v.len();
                    line(g, &mut v, true, true, true);
                    if g.coin() {
                        let mut rest = v.split_off(at);
                        bars(&mut rest);
                        v.append(&mut rest);
                    }
                    eol(g, &mut v, true, true);
                    v.push(Piece::Src("\n".into()));
                }
                v.push(Piece::Src("\n".into()));
            }
            1 => {
                v.push(Piece::Src("= h".into()));
                line(g, &mut v, true, false, true);
                v.push(Piece::Src(" =\n".into()));
            }
            2 => {
                for _ in 0..g.small(1, 3) {
                    v.push(Piece::Src("- i".into()));
                    line(g, &mut v, true, false, true);
                    eol(g, &mut v, true, true);
                    v.push(Piece::Src("\n".into()));
                }
                v.push(Piece::Src("\n".into()));
            }
            3 => {
                v.push(Piece::Src("|c".into()));
                line(g, &mut v, false, false, true);
                v.push(Piece::Src("|".into()));
                line(g, &mut v, false, false, true);
                v.push(Piece::Src(" |\n\n".into()));
            }
            4 => {
                v.push(Piece::Src("t".into()));
                v.push(Piece::Src("erm:: d".into()));
                line(g, &mut v, true, false, false);
                v.push(Piece::Src("\n\n".into()));
            }
            _ => {
                // comments on their own
                n.set(n.get() + 1);
                if g.coin() {
                    v.push(Piece::Line { bar: true, colon: true });
                } else {
                    v.push(Piece::Multi { bar: true, multi: true, colon: true });
                }
                v.push(Piece::Src("\n\n".into()));
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Piece {
    Src(String),
    Line { bar: bool, colon: bool },
    Multi { bar: bool, multi: bool, colon: bool },
}

fn write(v: &[Piece], c: &mut dyn FnMut(bool, bool, bool, bool) -> String) -> String {
    v.iter()
        .map(|p| match p {
            Piece::Src(s) => s.clone(),
            Piece::Line { bar, colon } => format!("%% {}", c(true, *bar, *colon, false)),
            Piece::Multi { bar, colon, multi } => format!("%%+ {} +%%", c(false, *bar, *colon, *multi)),
        })
        .collect()
}

pub fn hidden(src: &str, cfg: &HtmlConfig) -> Result<String, Fail> {
    let mut c = cfg.clone();
    c.comment.include = false;
    let p = parse(src)?;
    let h = match html(&p, &c)? {
        Some(h) => h,
        None => return fail("error", "no HTML"),
    };
    if h.contains("zq") || h.contains("<!--") {
        return fail("visible", format!("a comment is visible\n--- html\n{}", h));
    }
    c.comment.include = true;
    let h2 = html(&p, &c)?.unwrap_or_default();
    let d2 = dom::read(&h2).or_else(|e| fail("escape", format!("{}\n{}", e, h2)))?;
    let d1 = dom::read(&h).or_else(|e| fail("malformed", format!("{}\n{}", e, h)))?;
    if let Some(d) = dom::diff(&dom::norm(d1), &dom::norm(dom::drop_comments(d2)), "") {
        return fail("escape", format!("comments change what is around them: {}\n{}", d, h2));
    }
    Ok(h)
}

pub fn p31_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    hidden(&s, &c).map(|_| ())
}

fn p31(g: &mut G) -> Case {
    let cfg = config(g);
    let n = std::cell::Cell::new(0);
    let v = with_comments(g, &n);
    let n = n.get();
    let mut content = |line: bool, bar: bool, colon: bool, multi: bool| -> String {
        let mut s = String::new();
        for _ in 0..g.small(1, 3) {
            let x = g.s(HIDDEN);
            if (!bar && x.contains('|')) || (!colon && x.contains(':')) || (!line && x.contains("%%")) {
                s.push_str("zq");
            } else {
                s.push_str(x);
            }
            if multi && g.chance(1, 3) {
                s.push('\n');
            } else {
                s.push(' ');
            }
        }
        s.trim_end().to_string()
    };
    let src = write(&v, &mut content);
    let plain = write(&v, &mut |_, _, _, _| "zq".to_string());
    let out = hidden(&src, &cfg).and_then(|h| {
        // with the same lines, what the comments say makes no difference
        let same_lines = src.matches('\n').count() == plain.matches('\n').count();
        let h2 = hidden(&plain, &cfg)?;
        if same_lines && h != h2 {
            return fail("effect", format!("the content of comments changes the page\n--- with it\n{}\n--- with other content\n{}\n--- other\n{}", h, h2, plain));
        }
        Ok(())
    });
    Case { text: format!("# {}\n{}", show_config(&cfg), src), nontrivial: n >= 1, labels: vec![format!("{} comments", n.min(6))], out }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P12", rule: "the document has at least five nodes and all its wikis exist", quick: 90000, thorough: 2000000, case: p12, text: Some(p12_text), assumptions: &["documents of the generated grammar", "column alignment and centered headers are not part of the HTML"], threads: 8, batch: None },
    Prop { id: "P13", rule: "the text contains < > & or quotes and HTML was produced", quick: 110000, thorough: 3000000, case: p13, text: Some(p13_text), assumptions: &["addresses are written as they are (a bare & stays one)"], threads: 8, batch: None },
    Prop { id: "P14", rule: "at least one identifier had to be numbered", quick: 110000, thorough: 2000000, case: p14, text: Some(p14_text), assumptions: &["a first text that looks like a numbered variant keeps it (prescribed by a test)"], threads: 8, batch: None },
    Prop { id: "P15", rule: "the target stays within its wiki", quick: 800000, thorough: 6000000, case: p15_any, text: Some(p15_text), assumptions: &["targets without query part", "absolute targets that do not start with the root of a wiki", "the last segment is no . or .."], threads: 8, batch: None },
    Prop { id: "P16", rule: "some code block or link has attributes", quick: 15000, thorough: 800000, case: p16, text: Some(p16_text), assumptions: &[], threads: 8, batch: None },
    Prop { id: "P17", rule: "the template has at least two variables", quick: 80000, thorough: 1500000, case: p17, text: Some(p17_text), assumptions: &["at most one title, date and template per page"], threads: 8, batch: None },
    Prop { id: "P31", rule: "there is at least one comment", quick: 90000, thorough: 2000000, case: p31, text: Some(p31_text), assumptions: &["comments without | in table cells and without : in definitions"], threads: 8, batch: None },
];
