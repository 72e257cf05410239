//! P30: the wrappers for JavaScript (built only with the feature `wasm`, against stand-ins for
//! wasm-bindgen and js-sys whose values live in this process)
use super::cli::{first_diff, sorted};
use super::html;
use super::parse::parse;
use crate::dom;
use crate::engine::*;
use crate::gen;
use js_sys::{Array, Date, Object};
use serde::Serialize;
use serde_json::Value;
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;
use vimwiki::vendor::chrono::Datelike;
use vimwiki::{self as v, vendor::uriparse::URIReference, HtmlConfig, IntoChildren, Located, ToHtmlString};
use vw as w;
use wasm_bindgen::JsValue;

type R = Result<(), Fail>;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> R {
    if got == exp {
        Ok(())
    } else {
        fail(&what.split(' ').next().unwrap().replace(':', "-"), format!("{}: the wrapper gives {:?}, the library {:?}", what, got, exp))
    }
}

fn json<S: Serialize>(x: &S) -> Value {
    sorted(&JsValue::from_serde(x).unwrap().to_json())
}

fn same<S: Serialize>(what: &str, js: JsValue, lib: &S) -> R {
    let (a, b) = (sorted(&js.to_json()), json(lib));
    if a == b {
        Ok(())
    } else {
        fail(&format!("{}-to-js", what), first_diff(&a, &b, what))
    }
}

fn same_html(what: &str, got: Result<String, JsValue>, exp: Result<String, v::HtmlOutputError>) -> R {
    match (got, exp) {
        (Ok(a), Ok(b)) => {
            if a != b {
                // attributes made of a map have no order
                let (x, y) = (dom::read(&a), dom::read(&b));
                let d = match (&x, &y) {
                    (Ok(x), Ok(y)) => dom::diff(x, y, ""),
                    _ => Some("no HTML".into()),
                };
                if let Some(d) = d {
                    return fail(&format!("{}-html", what), format!("{}\n{}\n{}", d, a, b));
                }
            }
            Ok(())
        }
        (Err(a), Err(b)) => eq(&format!("{}:html-error", what), a.as_string(), Some(b.to_string())),
        (a, b) => fail(&format!("{}-html", what), format!("the wrapper gives {:?}, the library {:?}", a, b.map_err(|x| x.to_string()))),
    }
}

fn chars(s: &str) -> Vec<char> {
    let mut c: Vec<char> = s.chars().collect();
    c.sort_unstable();
    c
}

struct Cfg {
    js: JsValue,
    lib: HtmlConfig,
}

/// what every wrapper with a region offers
macro_rules! common {
    ($what:expr, $w:expr, $l:expr, $cfg:expr) => {{
        same($what, $w.to_js(), &$l)?;
        rest!($what, $w, $l, $cfg);
    }};
}

/// strings and lists appear in the form they have as inline elements
macro_rules! common_inline {
    ($what:expr, $w:expr, $l:expr, $cfg:expr) => {{
        same($what, $w.to_js(), &$l.clone().map(v::InlineElement::from))?;
        rest!($what, $w, $l, $cfg);
    }};
}

macro_rules! rest {
    ($what:expr, $w:expr, $l:expr, $cfg:expr) => {{
        let what: &str = $what;
        let r: v::Region = $l.region();
        let x = $w.region();
        eq(&format!("{}:region", what), (x.offset(), x.len(), x.depth(), x.is_empty()), (r.offset(), r.len(), r.depth(), r.len() == 0))?;
        texts!(what, $w, $l, $cfg);
    }};
}

macro_rules! plain {
    ($what:expr, $w:expr, $l:expr, $cfg:expr) => {{
        let what: &str = $what;
        same(what, $w.to_js(), &$l)?;
        texts!(what, $w, $l, $cfg);
    }};
}

macro_rules! texts {
    ($what:expr, $w:expr, $l:expr, $cfg:expr) => {{
        let what: &str = $what;
        eq(&format!("{}:debug", what), chars(&$w.to_debug_str()), chars(&format!("{:?}", $l)))?;
        same_html(what, $w.to_html_str(&$cfg.js), $l.to_html_string($cfg.lib.clone()))?;
    }};
}

fn elements(what: &str, a: Array) -> Result<Vec<Value>, Fail> {
    let mut v = vec![];
    for x in a.to_vec() {
        let e = match x.take::<w::Element>() {
            Some(e) => e,
            None => return fail(&format!("{}-array", what), "an entry is no element"),
        };
        v.push(sorted(&e.to_js().to_json()));
    }
    Ok(v)
}

fn in_order(what: &str, got: Vec<Value>, exp: Vec<Value>, exact: bool) -> R {
    let (mut got, mut exp) = (got, exp);
    if !exact {
        got.sort_by_key(|x| x.to_string());
        exp.sort_by_key(|x| x.to_string());
    }
    if got != exp {
        return fail(what, format!("{} elements, expected {}: {}", got.len(), exp.len(), first_diff(&Value::Array(got.clone()), &Value::Array(exp.clone()), what)));
    }
    Ok(())
}

type Kids = Vec<Located<v::Element<'static>>>;

fn own<'a, E>(k: Vec<Located<E>>) -> Kids
where
    E: v::ElementLike,
    v::Element<'a>: From<E>,
{
    k.into_iter().map(|x| x.map(|x| v::Element::from(x).into_owned())).collect()
}

fn has_table(e: &v::Element) -> bool {
    matches!(e, v::Element::Block(v::BlockElement::Table(_)))
}

/// children and descendants; the cells of a table have no order
fn family(what: &str, kids: Kids, table: bool, children: Array, descendants: Array) -> R {
    in_order(&format!("{}-children", what), elements(what, children)?, kids.iter().map(json).collect(), !table)?;
    let mut exact = !table;
    let mut all = vec![];
    let mut level = kids;
    while !level.is_empty() {
        let mut next = vec![];
        for e in level {
            exact &= !has_table(e.as_inner());
            all.push(json(&e));
            next.extend(own(e.into_inner().into_children()));
        }
        level = next;
    }
    in_order(&format!("{}-descendants", what), elements(what, descendants)?, all, exact)
}

macro_rules! kids {
    ($what:expr, $w:expr, $l:expr, $table:expr) => {{
        let k: Kids = own($l.to_borrowed().into_children());
        family($what, k, $table, $w.children(), $w.descendants())?;
    }};
}

fn container(what: &str, x: &w::InlineElementContainer, l: &v::InlineElementContainer, cfg: &Cfg) -> R {
    plain!(what, x, l, cfg);
    kids!(what, x, l, false);
    eq(&format!("{}:element_cnt", what), x.element_cnt(), l.len())?;
    eq(&format!("{}:to_str", what), x.to_str(), l.to_string())?;
    for i in 0..l.len() + 1 {
        match (x.element_at(i), l.get(i)) {
            (Some(a), Some(b)) => same(&format!("{}:element_at {}", what, i), a.to_js(), b)?,
            (None, None) => {}
            (a, _) => return fail(what, format!("element_at {} is {}", i, a.is_some())),
        }
    }
    Ok(())
}

fn opt_container(what: &str, x: Option<w::InlineElementContainer>, l: Option<v::InlineElementContainer>, cfg: &Cfg) -> R {
    match (x, l) {
        (Some(x), Some(l)) => container(what, &x, &l, cfg),
        (None, None) => Ok(()),
        (x, l) => fail(what, format!("wrapper has one: {}, library has one: {}", x.is_some(), l.is_some())),
    }
}

fn lines(what: &str, l: &[Cow<str>], cnt: usize, at: impl Fn(usize) -> Option<String>) -> R {
    eq(&format!("{}:line_cnt", what), cnt, l.len())?;
    for i in 0..l.len() + 2 {
        eq(&format!("{}:line_at {}", what, i), at(i), l.get(i).map(|x| x.to_string()))?;
    }
    Ok(())
}

fn js_map(o: Option<Object>) -> Option<Value> {
    o.map(|o| JsValue::from(o).to_json())
}
fn lib_map(m: &HashMap<Cow<str>, Cow<str>>) -> Value {
    Value::Object(m.iter().map(|(k, v)| (k.to_string(), Value::String(v.to_string()))).collect())
}

fn day(d: Option<Date>) -> Option<(i32, u32, u32)> {
    d.map(|d| (d.get_utc_full_year() as i32, d.get_utc_month() + 1, d.get_utc_date()))
}

fn cell(x: &w::Cell, l: &Located<v::Cell>, cfg: &Cfg) -> R {
    let c = l.as_inner();
    let got = [x.is_span(), x.is_span_from_above(), x.is_span_from_left(), x.is_align(), x.is_align_left(), x.is_align_centered(), x.is_align_right()];
    let exp = match c {
        v::Cell::Content(_) => [false; 7],
        v::Cell::Span(v::CellSpan::FromAbove) => [true, true, false, false, false, false, false],
        v::Cell::Span(v::CellSpan::FromLeft) => [true, false, true, false, false, false, false],
        v::Cell::Align(v::ColumnAlign::Left) => [false, false, false, true, true, false, false],
        v::Cell::Align(v::ColumnAlign::Center) => [false, false, false, true, false, true, false],
        v::Cell::Align(v::ColumnAlign::Right) => [false, false, false, true, false, false, true],
        v::Cell::Align(v::ColumnAlign::None) => [false, false, false, true, false, false, false],
    };
    eq("cell:kind", got, exp)?;
    let content = match c {
        v::Cell::Content(x) => Some(x.to_borrowed().into_owned()),
        _ => None,
    };
    eq("cell:to_str", x.to_str(), content.as_ref().map(|x| x.to_string()))?;
    opt_container("cell:content", x.content(), content, cfg)
}

fn list_item(x: &w::ListItem, l: &Located<v::ListItem>, cfg: &Cfg) -> R {
    common!("list-item", x, l, cfg);
    kids!("list-item", x, l, false);
    eq("list-item:pos", x.pos(), l.pos)?;
    eq("list-item:prefix", x.prefix(), l.as_inner().to_prefix())?;
    eq("list-item:suffix", x.suffix().to_vimwiki(), Some(l.suffix))?;
    let ordered = matches!(l.ty, v::ListItemType::Ordered(_));
    eq("list-item:ordered", (x.is_ordered(), x.is_unordered()), (ordered, !ordered))?;
    let a = x.attributes();
    let t = l.attributes.todo_status;
    eq("list-item:todo_status", a.todo_status().and_then(|x| x.to_vimwiki()), t)?;
    use v::ListItemTodoStatus::*;
    let got = [a.is_todo_incomplete(), a.is_todo_partially_complete_1(), a.is_todo_partially_complete_2(), a.is_todo_partially_complete_3(), a.is_todo_complete(), a.is_todo_rejected()];
    let exp = [Incomplete, PartiallyComplete1, PartiallyComplete2, PartiallyComplete3, Complete, Rejected].map(|x| Some(x) == t);
    eq("list-item:todo", got, exp)?;
    let c = x.contents();
    let n = l.contents.len();
    eq("list-item:content_cnt", c.content_cnt(), n)?;
    for i in 0..n + 1 {
        match (c.content_at(i), l.contents.get(i)) {
            (Some(a), Some(b)) => same(&format!("list-item:content_at {}", i), a.to_js(), b)?,
            (None, None) => {}
            (a, _) => return fail("list-item-content", format!("content_at {} is {}", i, a.is_some())),
        }
    }
    Ok(())
}

fn decorated(x: &w::DecoratedText, l: &Located<v::DecoratedText>, cfg: &Cfg) -> R {
    common!("decorated", x, l, cfg);
    kids!("decorated", x, l, false);
    eq("decorated:to_str", x.to_str(), l.to_string())?;
    use v::DecoratedText::*;
    let got = [x.is_bold(), x.is_italic(), x.is_strikeout(), x.is_superscript(), x.is_subscript()];
    let (exp, c) = match l.as_inner() {
        Bold(c) => ([true, false, false, false, false], c),
        Italic(c) => ([false, true, false, false, false], c),
        Strikeout(c) => ([false, false, true, false, false], c),
        Superscript(c) => ([false, false, false, true, false], c),
        Subscript(c) => ([false, false, false, false, true], c),
    };
    eq("decorated:kind", got, exp)?;
    let d = x.contents();
    eq("decorated:len", (d.len(), d.is_empty()), (c.len(), c.is_empty()))?;
    for i in 0..c.len() + 1 {
        match (d.get(i), c.get(i)) {
            (Some(a), Some(b)) => {
                common!("decorated-content", a, b, cfg);
                kids!("decorated-content", a, b, false);
                eq("decorated-content:to_str", a.to_str(), b.to_string())?;
            }
            (None, None) => {}
            (a, _) => return fail("decorated-content", format!("content {} is {}", i, a.is_some())),
        }
    }
    Ok(())
}

fn link(x: &w::Link, l: &Located<v::Link>, cfg: &Cfg) -> R {
    common!("link", x, l, cfg);
    let d = l.data();
    eq("link:uri", x.uri(), d.uri_ref.to_string())?;
    eq("link:description", x.description(), d.description.as_ref().map(|x| x.to_string()))?;
    eq("link:properties", js_map(x.properties()), d.properties.as_ref().map(lib_map))?;
    for (k, v) in d.properties.iter().flatten() {
        eq("link:get_property", x.get_property(k), Some(v.to_string()))?;
    }
    let free = "no such property";
    if d.properties.as_ref().map_or(true, |p| !p.contains_key(free)) {
        eq("link:get_property", x.get_property(free), None)?;
    }
    eq("link:scheme", x.scheme(), l.scheme().map(|x| x.to_string()))?;
    let (date, index, name) = match l.as_inner() {
        v::Link::Diary { date, .. } => (Some(date.to_string()), None, None),
        v::Link::IndexedInterWiki { index, .. } => (None, Some(*index), None),
        v::Link::NamedInterWiki { name, .. } => (None, None, Some(name.to_string())),
        _ => (None, None, None),
    };
    eq("link:date", x.date(), date)?;
    eq("link:wiki_index", x.wiki_index(), index)?;
    eq("link:wiki_name", x.wiki_name(), name)
}

fn tags(x: &w::Tags, l: &Located<v::Tags>, cfg: &Cfg) -> R {
    common_inline!("tags", x, l, cfg);
    let t: Vec<String> = l.iter().map(|x| x.to_string()).collect();
    eq("tags:tag_cnt", x.tag_cnt(), t.len())?;
    for i in 0..t.len() + 1 {
        eq(&format!("tags:tag_at {}", i), x.tag_at(i).map(|x| x.to_str()), t.get(i).cloned())?;
    }
    eq("tags:to_str", x.to_str(), l.to_string())
}

fn comment(x: &w::Comment, l: &Located<v::Comment>, cfg: &Cfg) -> R {
    common!("comment", x, l, cfg);
    eq("comment:to_str", x.to_str(), l.to_string())?;
    match l.as_inner() {
        v::Comment::Line(c) => lines("comment", &[Cow::from(c.to_string())], x.line_cnt(), |i| x.line_at(i)),
        v::Comment::MultiLine(c) => lines("comment", &c.iter().cloned().collect::<Vec<_>>(), x.line_cnt(), |i| x.line_at(i)),
    }
}

fn table(x: &w::Table, l: &Located<v::Table>, cfg: &Cfg) -> R {
    common!("table", x, l, cfg);
    kids!("table", x, l, true);
    eq("table:size", (x.row_cnt(), x.col_cnt(), x.centered()), (l.row_cnt(), l.col_cnt(), l.centered))?;
    for r in 0..l.row_cnt() + 1 {
        for c in 0..l.col_cnt() + 1 {
            match (x.cell_at(r, c), l.get_cell(r, c)) {
                (Some(a), Some(b)) => cell(&a, b, cfg)?,
                (None, None) => {}
                (a, _) => return fail("table-cell", format!("cell {} {} is {}", r, c, a.is_some())),
            }
        }
    }
    Ok(())
}

fn at<T: v::ElementLike>(l: &Located<v::Element<'static>>, x: T) -> Located<T> {
    Located::new(x, l.region())
}

fn block(l: &Located<v::Element<'static>>, b: &v::BlockElement<'static>, cfg: &Cfg) -> R {
    let lb = at(l, b.clone());
    let make = || w::BlockElement::from(lb.clone());
    let x = make();
    common!("block", x, lb, cfg);
    kids!("block", x, lb, has_table(l.as_inner()));
    let got = [
        x.is_blockquote(), x.is_code_block(), x.is_math(), x.is_definition_list(), x.is_divider(), x.is_header(),
        x.is_list(), x.is_paragraph(), x.is_placeholder(), x.is_table(),
    ];
    use v::BlockElement::*;
    let k = match b {
        Blockquote(_) => 0,
        CodeBlock(_) => 1,
        MathBlock(_) => 2,
        DefinitionList(_) => 3,
        Divider(_) => 4,
        Header(_) => 5,
        List(_) => 6,
        Paragraph(_) => 7,
        Placeholder(_) => 8,
        Table(_) => 9,
    };
    let mut exp = [false; 10];
    exp[k] = true;
    eq("block:kind", got, exp)?;
    let some = [
        make().into_blockquote().is_some(), make().into_code_block().is_some(), make().into_math_block().is_some(),
        make().into_definition_list().is_some(), make().into_divider().is_some(), make().into_header().is_some(),
        make().into_list().is_some(), make().into_paragraph().is_some(), make().into_placeholder().is_some(), make().into_table().is_some(),
    ];
    eq("block:into", some, exp)?;
    match b {
        Blockquote(q) => {
            let (x, l) = (x.into_blockquote().unwrap(), at(l, q.clone()));
            common!("blockquote", x, l, cfg);
            lines("blockquote", &q.lines, x.line_cnt(), |i| x.line_at(i))
        }
        CodeBlock(c) => {
            let (x, l) = (x.into_code_block().unwrap(), at(l, c.clone()));
            common!("code-block", x, l, cfg);
            eq("code-block:language", x.language(), c.language.as_ref().map(|x| x.to_string()))?;
            eq("code-block:metadata", js_map(x.metadata()), Some(lib_map(&c.metadata)))?;
            lines("code-block", &c.lines, x.line_cnt(), |i| x.line_at(i))
        }
        MathBlock(m) => {
            let (x, l) = (x.into_math_block().unwrap(), at(l, m.clone()));
            common!("math-block", x, l, cfg);
            eq("math-block:environment", x.environment(), m.environment.as_ref().map(|x| x.to_string()))?;
            lines("math-block", &m.lines, x.line_cnt(), |i| x.line_at(i))
        }
        DefinitionList(d) => {
            let (x, l) = (x.into_definition_list().unwrap(), at(l, d.clone()));
            common!("definition-list", x, l, cfg);
            kids!("definition-list", x, l, false);
            let terms: Vec<String> = d.terms().map(|x| x.to_string()).collect();
            eq("definition-list:terms", x.terms().iter().map(|x| x.as_string().unwrap_or_default()).collect::<Vec<_>>(), terms.clone())?;
            eq("definition-list:counts", (x.term_cnt(), x.def_cnt()), (terms.len(), d.definitions().count()))?;
            for t in &terms {
                // the definitions of the first term of that name, one after the other
                let i = terms.iter().position(|x| x == t).unwrap();
                let all: Vec<Located<v::InlineElement>> = d
                    .iter()
                    .nth(i)
                    .unwrap()
                    .definitions
                    .iter()
                    .flat_map(|x| x.as_inner().as_inner().iter().map(|x| x.as_ref().map(|x| x.to_borrowed().into_owned())))
                    .collect();
                opt_container("definition-list:get_def", x.get_def(t), Some(v::InlineElementContainer::new(all)), cfg)?;
            }
            let free = terms.iter().fold("no".to_string(), |a, t| a + t);
            eq("definition-list:get_def", x.get_def(&free).is_some(), false)
        }
        Divider(d) => {
            let (x, l) = (x.into_divider().unwrap(), at(l, d.clone()));
            common!("divider", x, l, cfg);
            Ok(())
        }
        Header(h) => {
            let (x, l) = (x.into_header().unwrap(), at(l, h.clone()));
            common!("header", x, l, cfg);
            kids!("header", x, l, false);
            eq("header:level", (x.level(), x.centered()), (h.level, h.centered))?;
            eq("header:to_str", x.to_str(), h.content.to_string())?;
            container("header:content", &x.content(), &h.content, cfg)
        }
        List(a) => {
            let (x, l) = (x.into_list().unwrap(), at(l, a.clone()));
            common!("list", x, l, cfg);
            kids!("list", x, l, false);
            eq("list:item_cnt", x.item_cnt(), a.items.len())?;
            for i in 0..a.items.len() + 1 {
                match (x.item_at(i), a.items.get(i)) {
                    (Some(a), Some(b)) => list_item(&a, b, cfg)?,
                    (None, None) => {}
                    (a, _) => return fail("list-item", format!("item_at {} is {}", i, a.is_some())),
                }
            }
            Ok(())
        }
        Paragraph(p) => {
            let (x, l) = (x.into_paragraph().unwrap(), at(l, p.clone()));
            common!("paragraph", x, l, cfg);
            kids!("paragraph", x, l, false);
            eq("paragraph:line_cnt", x.line_cnt(), p.lines.len())?;
            let s: Vec<String> = p.lines.iter().map(|x| x.to_string()).collect();
            eq("paragraph:to_str", x.to_str(), s.join("\n"))?;
            for i in 0..p.lines.len() + 1 {
                opt_container("paragraph:line_at", x.line_at(i), p.lines.get(i).map(|x| x.to_borrowed().into_owned()), cfg)?;
            }
            Ok(())
        }
        Placeholder(p) => {
            let (x, l) = (x.into_placeholder().unwrap(), at(l, p.clone()));
            common!("placeholder", x, l, cfg);
            use v::Placeholder as P;
            let got = (x.title(), x.template(), x.other_name(), x.other_value(), x.is_no_html());
            let exp = match p {
                P::Title(t) => (Some(t.to_string()), None, None, None, false),
                P::Template(t) => (None, Some(t.to_string()), None, None, false),
                P::Other { name, value } => (None, None, Some(name.to_string()), Some(value.to_string()), false),
                P::NoHtml => (None, None, None, None, true),
                P::Date(_) => (None, None, None, None, false),
            };
            eq("placeholder:values", got, exp)?;
            match p {
                // JavaScript takes two digits of a year for one of the twentieth century
                P::Date(d) if d.year() >= 100 => eq("placeholder:date", day(x.date()), Some((d.year(), d.month(), d.day()))),
                P::Date(_) => Ok(()),
                _ => eq("placeholder:date", day(x.date()), None),
            }
        }
        Table(t) => table(&x.into_table().unwrap(), &at(l, t.clone()), cfg),
    }
}

fn inline(l: &Located<v::Element<'static>>, b: &v::InlineElement<'static>, cfg: &Cfg) -> R {
    let lb = at(l, b.clone());
    let make = || w::InlineElement::from(lb.clone());
    let x = make();
    common!("inline", x, lb, cfg);
    kids!("inline", x, lb, false);
    let got = [x.is_text(), x.is_decorated_text(), x.is_keyword(), x.is_link(), x.is_tags(), x.is_inline_code(), x.is_inline_math(), x.is_comment()];
    use v::InlineElement::*;
    let k = match b {
        Text(_) => 0,
        DecoratedText(_) => 1,
        Keyword(_) => 2,
        Link(_) => 3,
        Tags(_) => 4,
        Code(_) => 5,
        Math(_) => 6,
        Comment(_) => 7,
    };
    let mut exp = [false; 8];
    exp[k] = true;
    eq("inline:kind", got, exp)?;
    let some = [
        make().into_text().is_some(), make().into_decorated_text().is_some(), make().into_keyword().is_some(), make().into_link().is_some(),
        make().into_tags().is_some(), make().into_inline_code().is_some(), make().into_inline_math().is_some(), make().into_comment().is_some(),
    ];
    eq("inline:into", some, exp)?;
    match b {
        Text(t) => {
            let (x, l) = (x.into_text().unwrap(), at(l, t.clone()));
            common_inline!("text", x, l, cfg);
            eq("text:to_str", x.to_str(), t.to_string())
        }
        DecoratedText(t) => decorated(&x.into_decorated_text().unwrap(), &at(l, t.clone()), cfg),
        Keyword(k) => eq("keyword", x.into_keyword().unwrap().to_vimwiki(), Some(*k)),
        Link(t) => link(&x.into_link().unwrap(), &at(l, t.clone()), cfg),
        Tags(t) => tags(&x.into_tags().unwrap(), &at(l, t.clone()), cfg),
        Code(t) => {
            let (x, l) = (x.into_inline_code().unwrap(), at(l, t.clone()));
            common_inline!("code", x, l, cfg);
            eq("code:to_str", x.to_str(), t.to_string())
        }
        Math(t) => {
            let (x, l) = (x.into_inline_math().unwrap(), at(l, t.clone()));
            common_inline!("math", x, l, cfg);
            eq("math:to_str", x.to_str(), t.to_string())
        }
        Comment(t) => comment(&x.into_comment().unwrap(), &at(l, t.clone()), cfg),
    }
}

fn inline_block(l: &Located<v::Element<'static>>, b: &v::InlineBlockElement<'static>, cfg: &Cfg) -> R {
    let lb = at(l, b.clone());
    let make = || w::InlineBlockElement::from(lb.clone());
    let x = make();
    common!("inline-block", x, lb, cfg);
    kids!("inline-block", x, lb, false);
    use v::InlineBlockElement::*;
    let k = match b {
        ListItem(_) => 0,
        Term(_) => 1,
        Definition(_) => 2,
    };
    let mut exp = [false; 3];
    exp[k] = true;
    eq("inline-block:kind", [x.is_list_item(), x.is_term(), x.is_definition()], exp)?;
    eq("inline-block:into", [make().into_list_item().is_some(), make().into_term().is_some(), make().into_definition().is_some()], exp)?;
    match b {
        ListItem(i) => list_item(&x.into_list_item().unwrap(), &at(l, i.clone()), cfg),
        Term(t) => opt_container("term", x.into_term(), Some(t.as_inner().clone()), cfg),
        Definition(t) => opt_container("definition", x.into_definition(), Some(t.as_inner().clone()), cfg),
    }
}

fn element(l: &Located<v::Element<'static>>, cfg: &Cfg) -> R {
    let make = || w::Element::from(l.clone());
    let x = make();
    common!("element", x, l, cfg);
    kids!("element", x, l, has_table(l.as_inner()));
    let exp = match l.as_inner() {
        v::Element::Block(_) => [true, false, false],
        v::Element::Inline(_) => [false, true, false],
        v::Element::InlineBlock(_) => [false, false, true],
    };
    eq("element:kind", [x.is_block(), x.is_inline(), x.is_inline_block()], exp)?;
    let (a, b, c) = (make().into_block(), make().into_inline(), make().into_inline_block());
    eq("element:into", [a.is_some(), b.is_some(), c.is_some()], exp)?;
    match l.as_inner() {
        v::Element::Block(b) => {
            same("element-into-block", a.unwrap().to_js(), &at(l, b.clone()))?;
            block(l, b, cfg)
        }
        v::Element::Inline(x) => {
            same("element-into-inline", b.unwrap().to_js(), &at(l, x.clone()))?;
            inline(l, x, cfg)
        }
        v::Element::InlineBlock(x) => {
            same("element-into-inline-block", c.unwrap().to_js(), &at(l, x.clone()))?;
            inline_block(l, x, cfg)
        }
    }
}

fn wrappers(src: &str, cfg: &Cfg) -> R {
    let p: v::Page<'static> = parse(src)?.into_owned();
    let x = match w::parse_vimwiki_str(src) {
        Ok(x) => x,
        Err(e) => return fail("parse", format!("parse_vimwiki_str: {:?}", e)),
    };
    plain!("page", x, p, cfg);
    kids!("page", x, p, false);
    eq("page:element_cnt", x.element_cnt(), p.elements.len())?;
    for i in 0..p.elements.len() + 1 {
        match (x.element_at(i), p.elements.get(i)) {
            (Some(a), Some(b)) => same(&format!("page:element_at {}", i), a.to_js(), b)?,
            (None, None) => {}
            (a, _) => return fail("page-element", format!("element_at {} is {}", i, a.is_some())),
        }
    }
    let mut todo: Kids = own(p.into_children());
    while let Some(e) = todo.pop() {
        element(&e, cfg)?;
        todo.extend(own(e.into_inner().into_children()));
    }
    Ok(())
}

// ---------------------------------------------------------------- constructors

fn some_region(g: &mut G) -> (Option<(usize, usize, u16)>, v::Region) {
    if g.coin() {
        return (None, v::Region::default());
    }
    let (a, b, c) = (g.below(5000), g.below(5000), g.below(9) as u16);
    (Some((a, b, c)), v::Region::new_at_depth(a, b, c))
}
fn reg(r: Option<(usize, usize, u16)>) -> Option<w::Region> {
    r.map(|r| w::Region::new(r.0, r.1, r.2))
}

fn constructors(g: &mut G, cfg: &Cfg, shown: &mut String) -> R {
    let (r, lr) = some_region(g);
    let txt = match g.below(4) {
        0 => g.w(&["", "some text", "a*b*", "<b>&", "日本 é", "x\ty", "%% c", "a|b", "{{x}}", "[[y]]"]),
        1 => g.anyword(6),
        _ => g.w(&["word", "two words", "q\"q", "100%", "a.b#c"]),
    };
    let k = g.below(12);
    *shown = format!("constructor {} of {:?}, region {:?}", k, txt, r);
    match k {
        0 => {
            let l = Located::new(v::Text::new(Cow::from(txt.clone())), lr);
            let x = w::Text::new(&txt, reg(r));
            common_inline!("new-text", x, l, cfg);
            eq("new-text:to_str", x.to_str(), txt)
        }
        1 => {
            let l = Located::new(v::CodeInline::new(Cow::from(txt.clone())), lr);
            let x = w::CodeInline::new(&txt, reg(r));
            common_inline!("new-code", x, l, cfg);
            eq("new-code:to_str", x.to_str(), txt)
        }
        2 => {
            let l = Located::new(v::MathInline::new(Cow::from(txt.clone())), lr);
            let x = w::MathInline::new(&txt, reg(r));
            common_inline!("new-math", x, l, cfg);
            eq("new-math:to_str", x.to_str(), txt)
        }
        3 => {
            let mut all = vec![txt.clone()];
            for _ in 0..g.below(4) {
                all.push(g.w(&["", " second", "日本", "x %% y"]));
            }
            let l = Located::new(v::Comment::MultiLine(v::MultiLineComment::new(all.iter().map(|x| Cow::from(x.clone())).collect())), lr);
            let x = w::Comment::new(&all.join("\n"), true, reg(r));
            comment(&x, &l, cfg)?;
            let l = Located::new(v::Comment::Line(v::LineComment::new(Cow::from(txt.clone()))), lr);
            comment(&w::Comment::new(&txt, false, reg(r)), &l, cfg)
        }
        4 => {
            let mut all = vec![];
            for _ in 0..g.below(5) {
                all.push(g.w(&["tag", "a-b", "日本", "x"]));
            }
            eq("new-tag", w::Tag::new(&txt).to_str(), txt)?;
            let js: Vec<JsValue> = all.iter().map(|x| JsValue::from_str(x)).collect();
            let x = match w::Tags::new(js.into_boxed_slice(), reg(r)) {
                Ok(x) => x,
                Err(e) => return fail("new-tags", format!("{:?}", e)),
            };
            eq("new-tags:tag_cnt", x.tag_cnt(), all.len())?;
            tags(&x, &Located::new(v::Tags::from_iter_(&all), lr), cfg)
        }
        5 => {
            let (rows, cols, centered) = (g.below(4), g.below(4), g.coin());
            let outer = Array::new();
            let mut cells = vec![];
            for row in 0..rows {
                let a = Array::new();
                // rows need not be of one length
                for col in 0..if g.chance(1, 4) { g.below(4) } else { cols } {
                    let t = g.w(&["", "a", "b c", "日本", "<", "*x*"]);
                    let (r, lr) = some_region(g);
                    let c = match w::Cell::new(&t, reg(r)) {
                        Ok(c) => c,
                        Err(e) => return fail("new-cell", format!("{:?}", e)),
                    };
                    let inner = v::InlineElementContainer::new(vec![Located::from(v::InlineElement::Text(v::Text::new(Cow::from(t))))]);
                    cells.push((v::CellPos { row, col }, Located::new(v::Cell::Content(inner), lr)));
                    a.push(&JsValue::from(c));
                }
                outer.push(&a);
            }
            let x = match w::Table::new(outer, centered, reg(r)) {
                Ok(x) => x,
                Err(e) => return fail("new-table", format!("{:?}", e)),
            };
            eq("new-table:rows", x.row_cnt(), cells.iter().map(|c| c.0.row + 1).max().unwrap_or(0))?;
            table(&x, &Located::new(v::Table::new(cells, centered), lr), cfg)
        }
        6 | 7 => {
            let c = vec![Located::from(v::DecoratedTextContent::Text(v::Text::new(Cow::from(txt.clone()))))];
            let (x, l) = match g.below(5) {
                0 => (w::DecoratedText::new_bold_text(&txt, reg(r)), v::DecoratedText::Bold(c)),
                1 => (w::DecoratedText::new_italic_text(&txt, reg(r)), v::DecoratedText::Italic(c)),
                2 => (w::DecoratedText::new_strikeout_text(&txt, reg(r)), v::DecoratedText::Strikeout(c)),
                3 => (w::DecoratedText::new_superscript_text(&txt, reg(r)), v::DecoratedText::Superscript(c)),
                _ => (w::DecoratedText::new_subscript_text(&txt, reg(r)), v::DecoratedText::Subscript(c)),
            };
            decorated(&x, &Located::new(l, lr), cfg)
        }
        8 => {
            let y = 100 + g.below(9900) as i32;
            let m = 1 + g.below(12) as u32;
            let d = 1 + g.below(31) as u32;
            let date = match vimwiki::vendor::chrono::NaiveDate::from_ymd_opt(y, m, d) {
                Some(x) => x,
                None => return Ok(()),
            };
            let anchor = g.s(&["", "#a", "#a#b c", "#日本"]);
            *shown = format!("diary link of {}, {:?}, {:?}", date, txt, anchor);
            let x = w::Link::new_diary_link(Date::of_day(y as i64, m as i64 - 1, d as i64), &txt, anchor, reg(r));
            eq("new-diary:date", x.date(), Some(date.to_string()))?;
            let l = v::Link::new_diary_link(date, descr(&txt, &x), v::Anchor::from_uri_fragment(anchor));
            link(&x, &Located::new(l, lr), cfg)
        }
        _ => {
            let uri = gen::encode(&gen::path(g));
            let u = match URIReference::try_from(uri.as_str()) {
                Ok(u) => u,
                Err(_) => return Ok(()),
            };
            let kind = g.below(5);
            *shown = format!("link {} to {:?}, {:?}", kind, uri, txt);
            let index = g.below(70000) as u32;
            let mut props = HashMap::new();
            let js = Object::new();
            for _ in 0..g.below(3) {
                let (k, v) = (g.w(&["class", "style", "alt", "日"]), g.w(&["", "x", "a b", "\"q\""]));
                js_sys::Reflect::set(&js, &JsValue::from_str(&k), &JsValue::from_str(&v)).unwrap();
                props.insert(Cow::from(k), Cow::from(v));
            }
            let name = g.w(&["My Wiki", "w", "日本"]);
            let x = match kind {
                0 => w::Link::new_wiki_link(&uri, &txt, reg(r)),
                1 => w::Link::new_indexed_interwiki_link(index, &uri, &txt, reg(r)),
                2 => w::Link::new_named_interwiki_link(&name, &uri, &txt, reg(r)),
                3 => w::Link::new_raw_link(&uri, reg(r)),
                _ => w::Link::new_transclusion_link(&uri, &txt, &js, reg(r)),
            };
            let x = match x {
                Ok(x) => x,
                Err(e) => return fail("new-link", format!("{:?}", e)),
            };
            let d = || descr(&txt, &x);
            let l = match kind {
                0 => v::Link::new_wiki_link(u, d()),
                1 => v::Link::new_indexed_interwiki_link(index, u, d()),
                2 => v::Link::new_named_interwiki_link(name, u, d()),
                3 => v::Link::new_raw_link(u),
                _ => v::Link::new_transclusion_link(u, d(), props),
            };
            link(&x, &Located::new(l.into_owned(), lr), cfg)
        }
    }
}

trait FromTexts {
    fn from_iter_(v: &[String]) -> Self;
}
impl FromTexts for v::Tags<'static> {
    fn from_iter_(v: &[String]) -> Self {
        v.iter().map(|x| v::Tag::from(x.as_str()).into_owned()).collect::<Vec<v::Tag<'static>>>().into_iter().collect()
    }
}

/// A description that is a reference is taken for an image to embed, or for text; either is right
fn descr(txt: &str, x: &w::Link) -> v::Description<'static> {
    let text = v::Description::from(txt.to_string());
    let js = x.to_js().to_json().to_string();
    match v::Description::try_from_uri_ref_str(txt) {
        Ok(d) if js.contains("TransclusionLink") || js.contains("transclusion_link") => match d {
            v::Description::TransclusionLink(d) => v::Description::TransclusionLink(Box::new(d.into_owned())),
            _ => text,
        },
        _ => text,
    }
}

// ---------------------------------------------------------------- the check

fn cfg_of(lib: HtmlConfig, given: bool) -> Cfg {
    match given {
        true => Cfg { js: JsValue::from_serde(&lib).unwrap(), lib },
        false => Cfg { js: JsValue::UNDEFINED, lib: HtmlConfig::default() },
    }
}

fn p30_case(g: &mut G) -> Case {
    let given = g.coin();
    let cfg = html::config(g);
    if g.chance(1, 3) {
        let mut shown = String::new();
        let c = cfg_of(cfg, given);
        let out = match guard("the wrappers", || constructors(g, &c, &mut shown)) {
            Ok(r) => r,
            Err(e) => Err(e),
        };
        return Case { text: shown, nontrivial: true, labels: vec!["constructor".to_string()], out };
    }
    let d = gen::doc(g, &gen::ALL, 1, 4);
    let text = if given { format!("{}\u{1}{}", d.src, serde_json::to_string(&cfg).unwrap()) } else { d.src.clone() };
    let out = guard("the wrappers", || wrappers(&d.src, &cfg_of(cfg, given))).and_then(|x| x);
    Case { text, nontrivial: d.kinds.len() > 1, labels: d.kinds.iter().map(|x| x.to_string()).collect(), out }
}

fn p30_text(s: &str) -> R {
    let mut it = s.splitn(2, '\u{1}');
    let src = it.next().unwrap();
    let cfg = match it.next() {
        Some(j) => cfg_of(serde_json::from_str(j).expect("config"), true),
        None => cfg_of(HtmlConfig::default(), false),
    };
    guard("the wrappers", || wrappers(src, &cfg)).and_then(|x| x)
}

pub const PROPS: &[Prop] = &[Prop {
    id: "P30",
    rule: "a document of at least two kinds of element, or a value made by a constructor",
    quick: 8000,
    thorough: 600000,
    case: p30_case,
    text: Some(p30_text),
    assumptions: &[
        "the crate is compiled for this machine against stand-ins for wasm-bindgen and js-sys, whose values live in the same process and whose local time is UTC",
        "years before 100 are not claimed, as JavaScript's constructor of dates takes them for years of the twentieth century",
        "a description given to a constructor that is a reference may be taken for an image to embed or for text",
    ],
    threads: 8,
    batch: None,
}];
