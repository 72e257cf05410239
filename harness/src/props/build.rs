//! P34, P36: elements built in code, and elements read on their own
use super::format;
use super::html;
use super::parse::parse;
use super::tree::{first_line_diff, full, h};
use crate::engine::*;
use crate::gen;
use crate::norm::{self, Tree};
use std::borrow::Cow;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::iter::FromIterator;
use uriparse::URIReference;
use vimwiki::*;

// ---------------------------------------------------------------- P34

/// text that lives as long as the page built from it
#[derive(Default)]
struct Arena(RefCell<Vec<Box<str>>>);

impl Arena {
    fn keep<'a>(&'a self, s: String) -> &'a str {
        let b = s.into_boxed_str();
        let p: *const str = &*b;
        self.0.borrow_mut().push(b);
        // the box is neither moved out of nor dropped while the arena lives
        unsafe { &*p }
    }
}

struct B<'a, 'g> {
    g: &'g mut G,
    a: &'a Arena,
}

impl<'a, 'g> B<'a, 'g> {
    fn loc<T: ElementLike>(&mut self, x: T, r: Region) -> Located<T> {
        match self.g.below(4) {
            0 => Located::from(x),
            1 => Located::new(x, r),
            2 => Located::from(x).take_with_region(r),
            _ => {
                let r = Region::new_at_depth(self.g.below(5000), self.g.below(500), self.g.below(9) as u16);
                Located::new(x, r)
            }
        }
    }

    fn cow(&mut self, s: &'a str) -> Cow<'a, str> {
        if self.g.coin() {
            Cow::Borrowed(s)
        } else {
            Cow::Owned(s.to_string())
        }
    }

    /// a collection of lines in one of the ways lines are taken
    fn collect<T>(&mut self, v: &'a [Cow<'a, str>]) -> T
    where
        T: FromIterator<&'a str> + FromIterator<Cow<'a, str>>,
    {
        if self.g.coin() {
            v.iter().map(|x| x.as_ref()).collect()
        } else {
            let v: Vec<Cow<str>> = v.iter().map(|x| self.cow(x)).collect();
            v.into_iter().collect()
        }
    }

    fn text(&mut self, x: &'a Text<'a>) -> Text<'a> {
        let s = x.as_str();
        match self.g.below(3) {
            0 => Text::from(s),
            1 => Text::from(s.to_string()),
            _ => Text::new(self.cow(s)),
        }
    }

    fn uri(&mut self, u: &'a URIReference<'a>) -> URIReference<'a> {
        match self.g.below(3) {
            0 => u.clone(),
            1 => URIReference::try_from(self.a.keep(u.to_string())).unwrap(),
            _ => URIReference::try_from(u.to_string().as_str()).unwrap().into_owned(),
        }
    }

    fn data(&mut self, d: &'a LinkData<'a>) -> LinkData<'a> {
        let mut n = match self.g.below(4) {
            0 => LinkData::from(self.uri(&d.uri_ref)),
            1 => LinkData::try_from(self.a.keep(d.uri_ref.to_string())).unwrap(),
            2 => LinkData::try_from(d.uri_ref.to_string()).unwrap(),
            _ => LinkData::new(self.uri(&d.uri_ref), None, None),
        };
        n.description = self.desc(&d.description);
        n.properties = self.props(d);
        n
    }

    fn props(&mut self, d: &'a LinkData<'a>) -> Option<std::collections::HashMap<Cow<'a, str>, Cow<'a, str>>> {
        d.properties.as_ref().map(|m| {
            let mut v: Vec<_> = m.iter().map(|(k, x)| (k.as_ref(), x.as_ref())).collect();
            v.sort();
            if self.g.coin() {
                v.reverse();
            }
            v.into_iter().map(|(k, x)| (self.cow(k), self.cow(x))).collect()
        })
    }

    fn desc(&mut self, d: &'a Option<Description<'a>>) -> Option<Description<'a>> {
        Some(match d.as_ref()? {
            Description::Text(x) => match self.g.below(4) {
                0 => Description::from(x.as_ref()),
                1 => Description::from(x.to_string()),
                2 => Description::from(self.cow(x)),
                _ => Description::Text(self.cow(x)),
            },
            Description::TransclusionLink(x) => {
                if x.description.is_none() && x.properties.is_none() && self.g.coin() {
                    if self.g.coin() {
                        Description::from(self.uri(&x.uri_ref))
                    } else {
                        Description::try_from_uri_ref_str(self.a.keep(x.uri_ref.to_string())).unwrap()
                    }
                } else if self.g.coin() {
                    Description::from(self.data(x))
                } else {
                    Description::TransclusionLink(Box::new(self.data(x)))
                }
            }
        })
    }

    fn link(&mut self, l: &'a Link<'a>) -> Link<'a> {
        let d = l.data();
        let ctor = self.g.chance(3, 4);
        if ctor && (d.properties.is_none() || l.is_transclusion()) {
            let desc = self.desc(&d.description);
            let tried = self.g.coin();
            let s: &'a str = self.a.keep(d.uri_ref.to_string());
            match l {
                Link::Wiki { .. } if tried => return Link::try_new_wiki_link(s, desc).unwrap(),
                Link::Wiki { .. } => return Link::new_wiki_link(self.uri(&d.uri_ref), desc),
                Link::IndexedInterWiki { index, .. } if tried => return Link::try_new_indexed_interwiki_link(*index, s, desc).unwrap(),
                Link::IndexedInterWiki { index, .. } => return Link::new_indexed_interwiki_link(*index, self.uri(&d.uri_ref), desc),
                Link::NamedInterWiki { name, .. } if tried => return Link::try_new_named_interwiki_link(self.cow(name), s, desc).unwrap(),
                Link::NamedInterWiki { name, .. } => return Link::new_named_interwiki_link(name.to_string(), self.uri(&d.uri_ref), desc),
                Link::Diary { date, .. } => return Link::new_diary_link(*date, desc, d.to_anchor()),
                Link::Raw { .. } if d.description.is_none() && tried => return Link::try_new_raw_link(s).unwrap(),
                Link::Raw { .. } if d.description.is_none() => return Link::new_raw_link(self.uri(&d.uri_ref)),
                Link::Raw { .. } => {}
                Link::Transclusion { .. } if tried => return Link::try_new_transclusion_link(s, desc, self.props(d)).unwrap(),
                Link::Transclusion { .. } => return Link::new_transclusion_link(self.uri(&d.uri_ref), desc, self.props(d)),
            }
        }
        let data = self.data(d);
        match l {
            Link::Wiki { .. } => Link::Wiki { data },
            Link::IndexedInterWiki { index, .. } => Link::IndexedInterWiki { index: *index, data },
            Link::NamedInterWiki { name, .. } => Link::NamedInterWiki { name: self.cow(name), data },
            Link::Diary { date, .. } => Link::Diary { date: *date, data },
            Link::Raw { .. } => Link::Raw { data },
            Link::Transclusion { .. } => Link::Transclusion { data },
        }
    }

    fn tags(&mut self, x: &'a Tags<'a>) -> Tags<'a> {
        let v: Vec<&'a str> = x.iter().map(|t| t.as_str()).collect();
        let one = v.len() == 1;
        match self.g.below(7) {
            0 if one => Tags::from(v[0]),
            1 if one => Tags::from(v[0].to_string()),
            2 if one => Tags::from(Tag::from(v[0])),
            3 => v.into_iter().collect(),
            4 => v.into_iter().map(|s| self.cow(s)).collect(),
            5 => v.into_iter().map(|s| Tag::from(s.to_string())).collect(),
            6 => v.into_iter().map(|s| s.to_string()).collect(),
            _ => Tags::new(v.into_iter().map(|s| Tag::new(self.cow(s))).collect()),
        }
    }

    fn deco(&mut self, d: &'a DecoratedText<'a>) -> DecoratedText<'a> {
        let v: Vec<Located<DecoratedTextContent<'a>>> = d
            .as_contents_slice()
            .iter()
            .map(|c| {
                let x = match c.as_inner() {
                    DecoratedTextContent::Text(x) => self.text(x).into(),
                    DecoratedTextContent::DecoratedText(x) => self.deco(x).into(),
                    DecoratedTextContent::Keyword(x) => (*x).into(),
                    DecoratedTextContent::Link(x) => DecoratedTextContent::Link(self.link(x)),
                };
                self.loc(x, c.region())
            })
            .collect();
        match d {
            DecoratedText::Bold(_) => DecoratedText::Bold(v),
            DecoratedText::Italic(_) => DecoratedText::Italic(v),
            DecoratedText::Strikeout(_) => DecoratedText::Strikeout(v),
            DecoratedText::Superscript(_) => DecoratedText::Superscript(v),
            DecoratedText::Subscript(_) => DecoratedText::Subscript(v),
        }
    }

    fn inline(&mut self, e: &'a InlineElement<'a>) -> InlineElement<'a> {
        match e {
            InlineElement::Text(x) => self.text(x).into(),
            InlineElement::DecoratedText(x) => self.deco(x).into(),
            InlineElement::Keyword(x) => InlineElement::Keyword(*x),
            InlineElement::Link(x) => self.link(x).into(),
            InlineElement::Tags(x) => self.tags(x).into(),
            InlineElement::Code(x) => match self.g.below(3) {
                0 => CodeInline::from(x.as_str()),
                1 => CodeInline::from(x.as_str().to_string()),
                _ => CodeInline::new(self.cow(x.as_str())),
            }
            .into(),
            InlineElement::Math(x) => match self.g.below(3) {
                0 => MathInline::from(x.as_str()),
                1 => MathInline::from(x.as_str().to_string()),
                _ => MathInline::new(self.cow(x.as_str())),
            }
            .into(),
            InlineElement::Comment(Comment::Line(x)) => Comment::from(match self.g.below(3) {
                0 => LineComment::from(x.as_str()),
                1 => LineComment::from(x.as_str().to_string()),
                _ => LineComment::new(self.cow(x.as_str())),
            })
            .into(),
            InlineElement::Comment(Comment::MultiLine(x)) => Comment::from(match self.g.below(3) {
                0 if x.len() == 1 => MultiLineComment::from(x[0].as_ref()),
                1 if x.len() == 1 => MultiLineComment::from(x[0].to_string()),
                2 => x.iter().map(|s| s.to_string()).collect::<MultiLineComment>(),
                _ => self.collect(x),
            })
            .into(),
        }
    }

    fn container(&mut self, c: &'a InlineElementContainer<'a>) -> InlineElementContainer<'a> {
        let mut v: Vec<Located<InlineElement<'a>>> = c
            .iter()
            .map(|e| {
                let x = self.inline(e.as_inner());
                self.loc(x, e.region())
            })
            .collect();
        match self.g.below(3) {
            0 => InlineElementContainer::new(v),
            1 => v.into_iter().collect(),
            _ => {
                let w = v.split_off(self.g.below(v.len() + 1));
                vec![InlineElementContainer::new(v), InlineElementContainer::new(w)].into_iter().collect()
            }
        }
    }

    fn value(&mut self, d: &'a DefinitionListValue<'a>) -> DefinitionListValue<'a> {
        let c = d.as_inner();
        if let (1, Some(InlineElement::Text(t))) = (c.len(), c.get(0).map(|x| x.as_inner())) {
            if self.g.coin() {
                return DefinitionListValue::from(t.as_str());
            }
        }
        DefinitionListValue::new(self.container(c))
    }

    fn item(&mut self, i: &'a ListItem<'a>) -> ListItem<'a> {
        let v: Vec<Located<BlockElement<'a>>> = i.contents.iter().map(|b| self.block(b)).collect();
        let ty = match &i.ty {
            ListItemType::Unordered(UnorderedListItemType::Other(x)) => UnorderedListItemType::Other(self.cow(x)).into(),
            ListItemType::Unordered(x) => x.clone().into(),
            ListItemType::Ordered(x) => (*x).into(),
        };
        let c = if self.g.coin() { ListItemContents::new(v) } else { v.into_iter().collect() };
        ListItem::new(ty, i.suffix, i.pos, c, ListItemAttributes { todo_status: i.attributes.todo_status })
    }

    fn block(&mut self, b: &'a Located<BlockElement<'a>>) -> Located<BlockElement<'a>> {
        let r = b.region();
        macro_rules! done {
            ($x:expr) => {{
                let x = $x;
                match self.g.below(3) {
                    0 => Located::from(self.loc(x, r)),
                    1 => self.loc(x, r).map(BlockElement::from),
                    _ => self.loc(x.into(), r),
                }
            }};
        }
        match b.as_inner() {
            BlockElement::Header(x) => {
                let c = self.container(&x.content);
                done!(Header::new(c, x.level, x.centered))
            }
            BlockElement::Paragraph(x) => {
                let v: Vec<InlineElementContainer<'a>> = x.lines.iter().map(|l| self.container(l)).collect();
                done!(if self.g.coin() { Paragraph::new(v) } else { v.into_iter().collect() })
            }
            BlockElement::Blockquote(x) => done!(match self.g.below(3) {
                0 => Blockquote::new(x.lines.iter().map(|l| self.cow(l)).collect()),
                1 => x.lines.iter().map(|l| l.to_string()).collect(),
                _ => self.collect(&x.lines),
            }),
            BlockElement::CodeBlock(x) => {
                let mut c: CodeBlock<'a> = match self.g.below(4) {
                    0 => CodeBlock::from_lines(x.lines.iter().map(|l| l.as_ref())),
                    1 => x.lines.iter().map(|l| l.to_string()).collect(),
                    2 => self.collect(&x.lines),
                    _ => CodeBlock::new(None, Default::default(), x.lines.iter().map(|l| self.cow(l)).collect()),
                };
                c.language = x.language.as_ref().map(|l| self.cow(l));
                let mut m: Vec<_> = x.metadata.iter().map(|(k, v)| (k.as_ref(), v.as_ref())).collect();
                m.sort();
                if self.g.coin() {
                    m.reverse();
                }
                for (k, v) in m {
                    let e = (self.cow(k), self.cow(v));
                    c.metadata.insert(e.0, e.1);
                }
                done!(c)
            }
            BlockElement::MathBlock(x) => {
                let mut c: MathBlock<'a> = match self.g.below(4) {
                    0 => MathBlock::from_lines(x.lines.iter().map(|l| l.to_string())),
                    1 => x.lines.iter().map(|l| l.to_string()).collect(),
                    2 => self.collect(&x.lines),
                    _ => MathBlock::new(x.lines.iter().map(|l| self.cow(l)).collect(), None),
                };
                c.environment = x.environment.as_ref().map(|l| self.cow(l));
                done!(c)
            }
            BlockElement::DefinitionList(x) => {
                let mut v = vec![];
                for td in &x.items {
                    let ds: Vec<Located<Definition<'a>>> = td
                        .definitions
                        .iter()
                        .map(|d| {
                            let x = self.value(d.as_inner());
                            self.loc(x, d.region())
                        })
                        .collect();
                    let t = self.value(td.term.as_inner());
                    v.push((self.loc(t, td.term.region()), self.loc(DefinitionBundle::new(ds), td.definitions.region()), td.region()));
                }
                done!(if self.g.coin() {
                    v.into_iter().map(|(t, d, _)| (t, d)).collect()
                } else {
                    let v = v.into_iter().map(|(t, d, r)| self.loc(TermAndDefinitions::new(t, d), r)).collect();
                    DefinitionList::new(v)
                })
            }
            BlockElement::Divider(_) => done!(Divider::new()),
            BlockElement::List(x) => {
                let v: Vec<Located<ListItem<'a>>> = x
                    .items
                    .iter()
                    .map(|i| {
                        let n = self.item(i.as_inner());
                        self.loc(n, i.region())
                    })
                    .collect();
                done!(match self.g.below(3) {
                    0 => List::new(v),
                    1 => List::from(v),
                    _ => v.into_iter().collect(),
                })
            }
            BlockElement::Placeholder(x) => done!(match x {
                Placeholder::Title(s) if self.g.coin() => Placeholder::title_from_str(s),
                Placeholder::Title(s) => Placeholder::title_from_string(s.to_string()),
                Placeholder::NoHtml => Placeholder::NoHtml,
                Placeholder::Template(s) if self.g.coin() => Placeholder::template_from_str(s),
                Placeholder::Template(s) => Placeholder::template_from_string(s.to_string()),
                Placeholder::Date(d) => Placeholder::Date(*d),
                Placeholder::Other { name, value } if self.g.coin() => Placeholder::other_from_str(name, value),
                Placeholder::Other { name, value } => Placeholder::other_from_string(name.to_string(), value.to_string()),
            }),
            BlockElement::Table(x) => {
                let mut v: Vec<_> = x.as_data().iter().collect();
                v.sort_by_key(|(p, _)| (p.row, p.col));
                let mut v: Vec<(CellPos, Located<Cell<'a>>)> = v
                    .into_iter()
                    .map(|(p, c)| {
                        let n = match c.as_inner() {
                            Cell::Content(x) => Cell::from(self.container(x)),
                            Cell::Span(x) => Cell::from(*x),
                            Cell::Align(x) => Cell::from(*x),
                        };
                        (CellPos::new(p.row, p.col), self.loc(n, c.region()))
                    })
                    .collect();
                // cells come in any order
                for i in (1..v.len()).rev() {
                    if self.g.chance(1, 3) {
                        let j = self.g.below(i + 1);
                        v.swap(i, j);
                    }
                }
                done!(Table::new(v, x.centered))
            }
        }
    }

    fn page(&mut self, p: &'a Page<'a>) -> Page<'a> {
        let v: Vec<Located<BlockElement<'a>>> = p.elements.iter().map(|b| self.block(b)).collect();
        if self.g.coin() {
            Page::new(v)
        } else {
            v.into_iter().collect()
        }
    }
}

fn containers<'a>(p: &'a Page<'a>) -> Vec<&'a InlineElementContainer<'a>> {
    fn block<'a>(b: &'a BlockElement<'a>, o: &mut Vec<&'a InlineElementContainer<'a>>) {
        match b {
            BlockElement::Header(x) => o.push(&x.content),
            BlockElement::Paragraph(x) => o.extend(x.lines.iter()),
            BlockElement::DefinitionList(x) => {
                for td in &x.items {
                    o.push(td.term.as_inner().as_inner());
                    o.extend(td.definitions.iter().map(|d| d.as_inner().as_inner()));
                }
            }
            BlockElement::Table(x) => {
                let mut v: Vec<_> = x.as_data().iter().collect();
                v.sort_by_key(|(p, _)| (p.row, p.col));
                o.extend(v.into_iter().filter_map(|(_, c)| c.get_content()));
            }
            BlockElement::List(x) => x.items.iter().flat_map(|i| i.contents.iter()).for_each(|c| block(c.as_inner(), o)),
            _ => {}
        }
    }
    let mut o = vec![];
    p.elements.iter().for_each(|b| block(b.as_inner(), &mut o));
    o
}

/// as JSON, without positions and with cells in order
fn json(p: &Page) -> Result<serde_json::Value, Fail> {
    fn go(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                m.remove("region");
                if let Some(serde_json::Value::Array(c)) = m.get_mut("cells") {
                    c.iter_mut().for_each(go);
                    c.sort_by_key(|x| x.to_string());
                }
                m.values_mut().for_each(go);
            }
            serde_json::Value::Array(v) => v.iter_mut().for_each(go),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(p).or_else(|e| fail("json", e.to_string()))?;
    go(&mut v);
    Ok(v)
}

fn shown(b: &BlockElement) -> Option<String> {
    Some(match b {
        BlockElement::Header(x) => x.to_string(),
        BlockElement::Paragraph(x) => x.to_string(),
        BlockElement::Blockquote(x) => x.to_string(),
        BlockElement::CodeBlock(x) => x.to_string(),
        BlockElement::MathBlock(x) => x.to_string(),
        BlockElement::DefinitionList(x) => x.iter().map(|td| format!("{}={};", td.term, td.definitions)).collect(),
        _ => return None,
    })
}

fn built(src: &str, g: &mut G) -> Result<usize, Fail> {
    let p = parse(src)?;
    let arena = Arena::default();
    let fc = format::config(g);
    let hc = html::config(g);
    let q = guard("building the page", || B { g, a: &arena }.page(&p))?;
    let (t, u) = (norm::page(&p), norm::page(&q));
    if let Some(d) = t.diff(&u) {
        return fail("content", d);
    }
    if !(p == q && q == p) {
        return fail("equal", "the page built is not equal to the one parsed");
    }
    for (x, y) in p.elements.iter().zip(&q.elements) {
        if !(x == y && x == y.as_inner() && x.as_inner() == y.as_inner()) {
            return fail("equal", format!("{:?} and {:?}", x, y));
        }
        if shown(x) != shown(y) {
            return fail("display", format!("{:?} and {:?}", shown(x), shown(y)));
        }
    }
    let strict = full(&t) == full(&u);
    if p.strict_eq(&q) != strict || q.strict_eq(&p) != strict {
        return fail("strict", format!("strictly equal: {}, same positions: {}", p.strict_eq(&q), strict));
    }
    for (x, y) in containers(&p).into_iter().zip(containers(&q)) {
        if h(x) != h(y) {
            return fail("hash", format!("{:?} and {:?}", x, y));
        }
        if x.to_string() != y.to_string() {
            return fail("display", format!("{:?} and {:?}", x.to_string(), y.to_string()));
        }
    }
    let (x, y) = (json(&p)?, json(&q)?);
    if x != y {
        return fail("json", format!("{}\n{}", x, y));
    }
    let text = |p: &Page| guard("text", || p.to_vimwiki_string(fc.clone())).map(|r| r.map_err(|e| format!("{:?}", e)));
    let page = |p: &Page| guard("HTML", || p.to_html_string(hc.clone())).map(|r| r.map_err(|e| format!("{:?}", e)));
    for (what, x, y) in vec![("text", text(&p)?, text(&q)?), ("html", page(&p)?, page(&q)?)] {
        if x != y {
            return match (&x, &y) {
                (Ok(x), Ok(y)) => fail(what, first_line_diff(x, y)),
                _ => fail(what, format!("{:?} and {:?}", x, y)),
            };
        }
    }
    // and it does not keep what it was built from
    let j = serde_json::to_string(&q).or_else(|e| fail("json", e.to_string()))?;
    let owned = q.into_owned();
    if full(&norm::page(&owned)) != full(&u) {
        return fail("owned", "the owned copy differs");
    }
    let back: Page = serde_json::from_str(&j).or_else(|e| fail("json", e.to_string()))?;
    if full(&norm::page(&back)) != full(&u) || !back.strict_eq(&owned) {
        return fail("json", "the copy read from JSON differs");
    }
    Ok(t.count())
}

fn p34(g: &mut G) -> Case {
    let d = gen::doc(g, &gen::ALL, 1, 6);
    let out = built(&d.src, g);
    let mut labels: Vec<String> = d.kinds.iter().map(|k| k.to_string()).collect();
    labels.sort();
    labels.dedup();
    Case { nontrivial: matches!(out, Ok(n) if n >= 6), text: d.src, labels, out: out.map(|_| ()) }
}

fn p34_text(s: &str) -> Result<(), Fail> {
    (0..20).try_for_each(|i| built(s, &mut G::seeded(i)).map(|_| ()))
}

// ---------------------------------------------------------------- P36

/// what a type of its own makes of a piece of text
fn read_as<'a>(k: &str, s: &'a str) -> Option<Result<Tree, String>> {
    let l = Language::from_vimwiki_str(s);
    macro_rules! b {
        ($t:ident) => {
            l.parse::<Located<$t>>().map(|x| norm::block(&x.map(BlockElement::from))).map_err(|e| e.to_string())
        };
    }
    macro_rules! i {
        ($t:ident) => {
            l.parse::<Located<$t>>().map(|x| norm::inline(&x.map(InlineElement::from))).map_err(|e| e.to_string())
        };
    }
    Some(match k {
        "Quote" => b!(Blockquote),
        "Code" => b!(CodeBlock),
        "Math" => b!(MathBlock),
        "DefList" => b!(DefinitionList),
        "Divider" => b!(Divider),
        "Header" => b!(Header),
        "List" => b!(List),
        "Para" => b!(Paragraph),
        "Title" | "NoHtml" | "Template" | "Date" | "Other" => b!(Placeholder),
        "Table" => b!(Table),
        "Bold" | "Italic" | "Strike" | "Sup" | "Sub" => i!(DecoratedText),
        "Link" => i!(Link),
        "Tags" => i!(Tags),
        "CodeI" => i!(CodeInline),
        "MathI" => i!(MathInline),
        "LineC" | "MultiC" => i!(Comment),
        "Keyword" => i!(Keyword),
        "Text" => i!(Text),
        _ => return None,
    })
}

fn shifted(t: &Tree, by: usize) -> Tree {
    let mut t = t.clone();
    fn go(t: &mut Tree, by: usize) {
        t.r = t.r.map(|r| Region::new_at_depth(r.offset() + by, r.len(), 0));
        t.c.iter_mut().for_each(|c| go(c, by));
    }
    go(&mut t, by);
    t
}

fn alone(src: &str) -> Result<usize, Fail> {
    let p = parse(src)?;
    let t = norm::page(&p);
    let mut n = 0;
    // with whether it is a block of the page, and whether nothing around it ends where its line goes on
    let mut todo: Vec<(&Tree, bool, bool)> = t.c.iter().map(|c| (c, true, true)).collect();
    while let Some((e, top, open)) = todo.pop() {
        let inner = open && matches!(e.k, "Para" | "Line" | "List" | "Item");
        todo.extend(e.c.iter().map(|c| (c, false, inner)));
        let block = matches!(e.k, "Quote" | "Code" | "Math" | "DefList" | "Divider" | "Header" | "List" | "Para" | "Title" | "NoHtml" | "Template" | "Date" | "Other" | "Table");
        let r = match e.r {
            Some(r) if !block || top => r,
            _ => continue,
        };
        if matches!(e.k, "Text" | "Keyword") {
            continue;
        }
        let want = full(&shifted(e, 0));
        let (from, to) = (r.offset(), r.offset() + r.len());
        let line = if src[..to].ends_with('\n') { to } else { src[to..].find('\n').map_or(src.len(), |i| to + i) };
        let line = if src[to..line].ends_with('\r') { line - 1 } else { line };
        for (what, s) in vec![("alone", &src[from..to]), ("first on its line", &src[from..line]), ("first", &src[from..])] {
            // a comment runs to the end of what is left of its line
            if what != "alone" && (e.k == "LineC" || !open) {
                continue;
            }
            let got = match guard("parsing an element", || read_as(e.k, s))? {
                None => continue,
                Some(Ok(x)) => x,
                Some(Err(m)) => return fail("rejected", format!("{} {} is not read from {:?}: {}", what, e.k, s, m)),
            };
            n += 1;
            let got = full(&shifted(&got, from));
            if got != want {
                return fail("differs", format!("{}: {}\n--- text\n{:?}", what, first_line_diff(&want, &got), s));
            }
            // and as what may be any element
            let l = Language::from_vimwiki_str(s);
            let any = if block {
                l.parse::<Located<BlockElement>>().map(|x| norm::block(&x)).map_err(|e| e.to_string())
            } else {
                l.parse::<Located<InlineElement>>().map(|x| norm::inline(&x)).map_err(|e| e.to_string())
            };
            match any {
                Ok(x) => {
                    let got = full(&shifted(&x, from));
                    if got != want {
                        return fail("any", format!("{}: {}\n--- text\n{:?}", what, first_line_diff(&want, &got), s));
                    }
                }
                Err(m) => return fail("any", format!("{} {} is not read from {:?}: {}", what, e.k, s, m)),
            }
        }
    }
    Ok(n)
}

fn p36(g: &mut G) -> Case {
    let src = if g.chance(1, 5) { gen::any_text(g) } else { gen::doc(g, &gen::ALL, 1, 6).src };
    let out = alone(&src);
    Case { nontrivial: matches!(out, Ok(n) if n >= 6), text: src, labels: vec![], out: out.map(|_| ()) }
}

fn p36_text(s: &str) -> Result<(), Fail> {
    alone(s).map(|_| ())
}


// ---------------------------------------------------------------- P35

fn must<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), Fail> {
    if got == want {
        Ok(())
    } else {
        fail("law", format!("{}: {:?} instead of {:?}", what, got, want))
    }
}

fn region_laws(g: &mut G) -> Result<String, Fail> {
    let (a, b, d) = (g.below(40), g.below(40), g.below(5) as u16);
    let k = g.below(6);
    let (r, o, l) = match k {
        0 => (Region::from(a..b), a, b.saturating_sub(a)),
        1 => (Region::from(a..=b), a, (b + 1).saturating_sub(a)),
        2 => (Region::from(..b), 0, b),
        3 => (Region::from(..=b), 0, b + 1),
        4 => (Region::from((a, b)), a, b),
        _ => (Region::new(a, b), a, b),
    };
    must("offset", r.offset(), o)?;
    must("length", r.len(), l)?;
    must("depth", r.depth(), 0)?;
    must("empty", r.is_empty(), l == 0)?;
    for x in 0..100 {
        must("contains", r.contains(x), x >= o && x < o + l)?;
    }
    let q = r.with_depth(d);
    must("with depth", (q.offset(), q.len(), q.depth()), (o, l, d))?;
    must("at depth", Region::new_at_depth(o, l, d), q)?;
    must("equal", q == r, d == 0)?;
    let j = serde_json::to_string(&q).or_else(|e| fail("json", e.to_string()))?;
    must("json", serde_json::from_str::<Region>(&j).ok(), Some(q))?;

    // and what is located there
    let w = g.wchar().to_string().repeat(g.range(1, 3));
    let mut x = Located::new(Text::from(w.clone()), q);
    must("region", (x.region(), x.depth()), (q, d))?;
    must("inner", x.as_inner().as_str(), &w)?;
    must("shown", x.to_string(), w.clone())?;
    must("reference", (x.as_ref().region(), x.as_ref().into_inner().as_str().to_string()), (q, w.clone()))?;
    let up = x.clone().map(InlineElement::from);
    must("mapped", (up.region(), up.into_inner()), (q, InlineElement::Text(Text::from(w.clone()))))?;
    let moved = x.clone().take_with_region(r);
    must("moved", moved.region(), r)?;
    must("equal elsewhere", moved == x, true)?;
    must("hash elsewhere", h(&moved) == h(&x), true)?;
    must("strictly equal elsewhere", moved.strict_eq(&x), r == q)?;
    must("strictly equal", x.strict_eq(&x.clone()), true)?;
    must("equal to the element", x == Text::from(w.clone()), true)?;
    must("strictly equal to the element", x.strict_eq(&Text::from(w.clone())), true)?;
    must("different", x == Text::from(format!("{}.", w)), false)?;
    must("strictly different", x.strict_eq(&Text::from(format!("{}.", w))), false)?;
    must("default", Located::from(Text::from("a")).region(), Region::default())?;
    let some: Located<Option<Text>> = Located::new(Some(Text::from(w.clone())), q);
    must("transposed", some.transpose().map(|x| (x.region(), x.into_inner().as_str().to_string())), Some((q, w.clone())))?;
    must("transposed", Located::new(None::<Text>, q).transpose().is_none(), true)?;
    *x.as_mut().into_inner() = Text::from("new");
    must("changed", (x.as_str(), x.region()), ("new", q))?;
    *x.as_mut_inner() = Text::from("newer");
    must("changed", (x.clone().into_inner().as_str(), x.region()), ("newer", q))?;
    Ok(format!("region {} of {} and {} at {}", k, a, b, d))
}

fn anchor_laws(g: &mut G) -> Result<String, Fail> {
    let n = g.below(4);
    let parts: Vec<String> = (0..n)
        .map(|_| {
            let mut s = String::new();
            let least = g.below(6).min(1);
            for _ in 0..g.range(least, 4) {
                let x = match g.below(4) {
                    0 => g.wchar().to_string(),
                    1 => g.s(&["é", "日", "\u{301}", "🦀"]).to_string(),
                    2 => g.s(&[" ", "\"", "<", ">", "`", "[", "]", "\\", "^", "{", "|", "}", "?", "/", ":", "&", "'", "(", "\u{7f}", "\t"]).to_string(),
                    _ => g.anyword(4),
                };
                s.push_str(&x);
            }
            s.replace(&['%', '#'][..], "")
        })
        .collect();
    let plain: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    let a: Anchor = match g.below(4) {
        0 if n == 1 => Anchor::from(plain[0]),
        1 if n == 1 => Anchor::from(parts[0].clone()),
        2 => parts.iter().cloned().collect(),
        3 => plain.iter().copied().collect(),
        _ => Anchor::new(parts.iter().map(|x| Cow::from(x.as_str())).collect()),
    };
    let got = |a: &Anchor| -> Vec<String> { a.iter().map(|x| x.to_string()).collect() };
    must("parts", got(&a), parts.clone())?;
    let want: String = parts.iter().map(|x| format!("#{}", x)).collect();
    must("shown", a.to_string(), want.clone())?;
    must("borrowed", got(&a.to_borrowed()), parts.clone())?;
    must("owned", got(&a.clone().into_owned()), parts.clone())?;
    if n > 0 {
        must("read back", Anchor::from_uri_fragment(&want).map(|x| got(&x)), Some(parts.clone()))?;
        must("read without sign", Anchor::from_uri_fragment(&format!("x{}", want)).is_none(), true)?;
    }
    let f = a.to_encoded_uri_fragment();
    must("encoded", f.is_empty(), n == 0)?;
    must("encoded sign", f.matches('#').count(), (n > 0) as usize)?;
    let d = match LinkData::try_from(f.as_str()) {
        Ok(d) => d,
        Err(e) => return fail("law", format!("encoded anchor {:?}: {}", f, e)),
    };
    must("has", d.has_anchor(), n > 0)?;
    must("local", d.is_local_anchor(), n > 0)?;
    let back = d.to_anchor().map(|x| x.iter().map(|s| LinkData::decode_uri(s.as_ref())).collect::<Vec<_>>());
    must("encoded parts", back, if n > 0 { Some(parts.clone()) } else { None })?;
    let l = Link::new_diary_link(chrono_day(g), None, Some(a.clone()));
    must("link has", l.has_anchor(), n > 0)?;
    must("link", l.to_anchor().map_or(vec![], |x| x.iter().map(|s| LinkData::decode_uri(s.as_ref())).collect::<Vec<_>>()), parts.clone())?;
    must("no anchor", Link::new_diary_link(chrono_day(g), None, None).has_anchor(), false)?;
    Ok(format!("anchor {:?}", parts))
}

fn chrono_day(g: &mut G) -> vimwiki::vendor::chrono::NaiveDate {
    vimwiki::vendor::chrono::NaiveDate::from_ymd(g.range(1, 9999) as i32, g.range(1, 12) as u32, g.range(1, 28) as u32)
}

fn uri_laws(g: &mut G) -> Result<String, Fail> {
    let mut s = String::new();
    for _ in 0..g.range(0, 8) {
        let x = match g.below(5) {
            0 => g.wchar().to_string(),
            1 => g.s(&["#", "/", "%", "%4", "%41", "%C3%A9", "%zz", "%%", "%2", "%23", ".", ".."]).to_string(),
            2 => g.s(&[" ", "\"", "<", ">", "`", "[", "]", "\\", "^", "{", "|", "}", "?", ":", "&", "'", "=", "\t", "\u{7f}"]).to_string(),
            3 => g.s(&["é", "日本", "🦀"]).to_string(),
            _ => g.s(&["http:", "file:", "local:", "//", "x.y"]).to_string(),
        };
        s.push_str(&x);
    }
    let e = LinkData::encode_uri(&s);
    must("decoded", LinkData::decode_uri(&e), LinkData::decode_uri(&s))?;
    must("decoded by hand", LinkData::decode_uri(&e), gen::decode(&s))?;
    must("ascii", e.is_ascii() && !e.contains(&[' ', '"', '<', '>', '`'][..]), true)?;
    must("encoded again", LinkData::encode_uri(&e), e.clone())?;
    must("signs", e.matches('#').count(), s.contains('#') as usize)?;
    let (x, y) = (LinkData::try_from(e.as_str()), LinkData::try_from(e.clone()));
    must("read", x.is_ok(), y.is_ok())?;
    if let (Ok(x), Ok(y)) = (x, y) {
        must("same", x == y && x.strict_eq(&y) && h(&x) == h(&y), true)?;
        must("shown", x.to_string(), x.uri_ref.to_string())?;
        must("decoded address", x.to_decoded_uri_string(), LinkData::decode_uri(x.uri_ref.to_string()))?;
        must("local or remote", x.is_local() != x.is_remote(), true)?;
        let scheme = x.uri_ref.scheme().map(|s| s.as_str().to_lowercase());
        must("local", x.is_local(), scheme.as_deref().map_or(true, |s| s == "file" || s == "local"))?;
        must("scheme", x.scheme().map(|s| s.as_str().to_lowercase()), scheme)?;
        must("anchor", x.has_anchor(), s.contains('#'))?;
        must("fragment", x.fragment_str().is_some(), s.contains('#'))?;
        must("path", std::path::PathBuf::from(x.clone()), x.to_path_buf())?;
        must("no properties", x.get_property_str("a"), None)?;
        let mut z = x.clone();
        z.properties = Some(vec![(Cow::from("a"), Cow::from("1")), (Cow::from("b"), Cow::from("2"))].into_iter().collect());
        must("properties", (z.get_property_str("a"), z.get_property_str("b"), z.get_property_str("c")), (Some("1"), Some("2"), None))?;
        must("properties matter", z == x, false)?;
        let mut z = x.clone();
        z.description = Some(Description::from("d"));
        must("description matters", z == x, false)?;
        must("description is shown", z.to_string(), "d".to_string())?;
        must("text", Description::from("d").into_uri_ref().is_none(), true)?;
        must("reference", Description::from(x.clone()).into_uri_ref() == Some(x.uri_ref.clone()), true)?;
        must("kind", (Description::from(x.clone()).is_text(), Description::from(x.clone()).is_transclusion_link()), (false, true))?;
        must("kind", (Description::from("d").is_text(), Description::from("d").is_transclusion_link()), (true, false))?;
    }
    Ok(format!("address {:?}", s))
}

fn cell_laws(g: &mut G) -> Result<String, Fail> {
    let mut num = |g: &mut G| match g.below(3) {
        0 => g.below(10),
        1 => g.below(100000),
        _ => usize::MAX - g.below(2),
    };
    let p = CellPos::new(num(g), num(g));
    let s = p.to_string();
    must("shown", s.clone(), format!("{},{}", p.row, p.col))?;
    must("read", s.parse().ok(), Some(p))?;
    let b = |g: &mut G| g.s(&["", " ", "  ", "\t"]).to_string();
    let s = format!("{}{}{},{}{}{}", b(g), p.row, b(g), b(g), p.col, b(g));
    must("read with blanks", s.parse().ok(), Some(p))?;
    let bad = g.s(&["", "1", ",", "1,", ",1", "1,2,3", "a,1", "1,b", "1;2", "-1,2", "1,-2", "1.0,2", "99999999999999999999999,1", "1,99999999999999999999999"]).to_string();
    must("not read", bad.parse::<CellPos>().is_err(), true)?;
    for (bad, want) in vec![("1", ParseCellPosError::TooFewItems), ("1,2,3", ParseCellPosError::TooManyItems)] {
        must("error", bad.parse::<CellPos>().err(), Some(want))?;
    }
    must("error", matches!("a,1".parse::<CellPos>(), Err(ParseCellPosError::BadRow(_))), true)?;
    must("error", matches!("1,b".parse::<CellPos>(), Err(ParseCellPosError::BadCol(_))), true)?;
    Ok(format!("cell {}", s))
}

fn language_laws(g: &mut G) -> Result<String, Fail> {
    let s = if g.coin() { gen::doc(g, &gen::ALL, 1, 3).src } else { gen::any_text(g) };
    for k in 0..3 {
        let l = match k {
            0 => Language::from_vimwiki_str(&s),
            1 => Language::from_markdown_str(&s),
            _ => Language::from_mediawiki_str(&s),
        };
        must("kind", (l.is_vimwiki(), l.is_markdown(), l.is_mediawiki()), (k == 0, k == 1, k == 2))?;
        must("text", l.as_inner(), s.as_str())?;
        if k > 0 {
            let read = l.parse::<Page>().is_ok()
                || l.parse::<Located<BlockElement>>().is_ok()
                || l.parse::<Located<InlineElementContainer>>().is_ok()
                || l.parse::<Located<Header>>().is_ok()
                || l.parse::<Located<Paragraph>>().is_ok()
                || l.parse::<Located<Link>>().is_ok()
                || l.parse::<Located<Text>>().is_ok();
            must("read although the language is not supported", read, false)?;
        }
    }
    Ok(format!("language {:?}", s))
}

/// gives the n-th text of the page another content by what allows to change elements
struct Edit<'g> {
    g: &'g mut G,
    n: usize,
    hit: bool,
}

const CHANGED: &str = "changed text";

impl<'g> Edit<'g> {
    fn text(&mut self, t: &mut Text) {
        if self.n == 0 && !self.hit {
            *t = Text::from(CHANGED);
            self.hit = true;
        }
        self.n = self.n.wrapping_sub(1);
    }
    fn deco(&mut self, d: &mut DecoratedText) {
        let mut each = |e: &mut Self, c: &mut DecoratedTextContent| match c {
            DecoratedTextContent::Text(t) => e.text(t),
            DecoratedTextContent::DecoratedText(d) => e.deco(d),
            _ => {}
        };
        match self.g.below(3) {
            0 => d.iter_mut().for_each(|c| each(self, c.as_mut_inner())),
            1 => d.as_children_mut_slice().iter_mut().for_each(|c| each(self, c.as_mut().into_inner())),
            _ => (&mut *d).into_iter().for_each(|c| each(self, c)),
        }
    }
    fn inline(&mut self, e: &mut InlineElement) {
        match e {
            InlineElement::Text(t) => self.text(t),
            InlineElement::DecoratedText(d) => self.deco(d),
            _ => {}
        }
    }
    fn container(&mut self, c: &mut InlineElementContainer) {
        match self.g.below(3) {
            0 => c.iter_mut().for_each(|e| self.inline(e.as_mut_inner())),
            1 => (0..c.len()).for_each(|i| self.inline(&mut c[i])),
            _ => (&mut *c).into_iter().for_each(|e| self.inline(e.as_mut().into_inner())),
        }
    }
    fn value(&mut self, v: &mut DefinitionListValue) {
        match self.g.below(2) {
            0 => self.container(&mut *v),
            _ => v.iter_mut().for_each(|e| self.inline(e)),
        }
    }
    fn list(&mut self, l: &mut List) {
        match self.g.below(3) {
            0 => l.iter_mut().for_each(|i| self.item(i.as_mut_inner())),
            1 => l.as_children_mut_slice().iter_mut().for_each(|i| self.item(i)),
            _ => (0..l.len()).for_each(|i| self.item(&mut l[i])),
        }
    }
    fn item(&mut self, i: &mut ListItem) {
        match self.g.below(4) {
            0 => i.contents.iter_mut().for_each(|b| self.block(b)),
            1 => i.contents.as_children_mut_slice().iter_mut().for_each(|b| self.block(b)),
            2 => (&mut *i).into_iter().for_each(|b| self.block(b)),
            _ if i.contents.iter().all(|b| !b.is_list()) => i.contents.non_sublist_iter_mut().for_each(|b| self.block(b)),
            _ if i.contents.iter().all(|b| b.is_list()) => i.contents.sublist_iter_mut().for_each(|l| self.list(l)),
            _ => (0..i.contents.len()).for_each(|k| self.block(&mut i.contents[k])),
        }
    }
    fn block(&mut self, b: &mut BlockElement) {
        let kinds = vec![
            b.as_mut_blockquote().is_some(),
            b.as_mut_code_block().is_some(),
            b.as_mut_definition_list().is_some(),
            b.as_mut_divider().is_some(),
            b.as_mut_header().is_some(),
            b.as_mut_list().is_some(),
            b.as_mut_math_block().is_some(),
            b.as_mut_paragraph().is_some(),
            b.as_mut_placeholder().is_some(),
            b.as_mut_table().is_some(),
        ];
        if kinds.into_iter().filter(|x| *x).count() != 1 {
            self.hit = true;
            return;
        }
        if let Some(x) = b.as_mut_header() {
            self.container(&mut x.content)
        } else if let Some(x) = b.as_mut_paragraph() {
            match self.g.below(2) {
                0 => (&mut *x).into_iter().for_each(|l| self.container(l)),
                _ => (0..x.lines.len()).for_each(|i| self.container(&mut x[i])),
            }
        } else if let Some(x) = b.as_mut_definition_list() {
            for td in x.into_iter() {
                let td = td.as_mut_inner();
                self.value(td.term.as_mut_inner());
                match self.g.below(2) {
                    0 => td.definitions.iter_mut().for_each(|d| self.value(d)),
                    _ => (&mut *td.definitions).into_iter().for_each(|d| self.value(d)),
                }
            }
        } else if let Some(x) = b.as_mut_list() {
            self.list(x)
        } else if let Some(x) = b.as_mut_table() {
            for r in 0..x.row_cnt() {
                for c in 0..x.col_cnt() {
                    if let Some(Cell::Content(k)) = x.get_mut_cell(r, c).map(|c| c.as_mut_inner()) {
                        self.container(k);
                    }
                }
            }
        }
    }
}

fn edit_laws(g: &mut G) -> Result<String, Fail> {
    let src = gen::doc(g, &gen::ALL, 1, 4).src;
    let p = parse(&src)?;
    let mut want = norm::page(&p);
    let mut total = 0;
    want.walk(&mut |t| total += (t.k == "Text") as usize);
    let n = g.below(total + 1);
    fn set(t: &mut Tree, n: &mut usize) {
        if t.k == "Text" {
            if *n == 0 {
                t.s = vec![CHANGED.into()];
            }
            *n = n.wrapping_sub(1);
        }
        t.c.iter_mut().for_each(|c| set(c, n));
    }
    let mut k = n;
    set(&mut want, &mut k);
    let mut q = p.clone();
    let mut e = Edit { g, n, hit: false };
    match e.g.below(3) {
        0 => q.elements.iter_mut().for_each(|b| e.block(b)),
        1 => (&mut q).into_iter().for_each(|b| e.block(b.as_mut_inner())),
        _ => (0..q.elements().len()).for_each(|i| e.block(&mut q[i])),
    }
    let hit = e.hit;
    must("texts reached", hit, n < total)?;
    let (x, y) = (full(&want), full(&norm::page(&q)));
    if x != y {
        return fail("edit", first_line_diff(&x, &y));
    }
    must("changed pages differ", p == q, n >= total)?;
    must("changed pages differ", p.strict_eq(&q), n >= total)?;
    Ok(src)
}

/// what definition lists say of themselves
fn list_laws(g: &mut G) -> Result<String, Fail> {
    let src = gen::deflist(g, 0).src;
    let p = parse(&src)?;
    for b in &p.elements {
        if let Some(dl) = b.as_definition_list() {
            let mut n = 0;
            for (i, td) in dl.iter().enumerate() {
                let b = td.definitions.as_inner();
                must("bundle", (b.len(), b.is_empty(), b.iter().count()), (b.clone().into_definitions().len(), b.len() == 0, b.len()))?;
                for k in 0..b.len() + 2 {
                    must("definition", b.get(k).map(|d| d.region()), b.iter().nth(k).map(|d| d.region()))?;
                }
                let name = td.term.to_string();
                let first = dl.iter().position(|x| x.term.to_string() == name).unwrap();
                must("term", dl.get(&name).map(|b| b.region()), dl.items.get(first).map(|x| x.definitions.region()))?;
                must("terms", dl.terms().nth(i).map(|t| t.region()), Some(td.term.region()))?;
                must("equal to text", td.term.as_inner() == &name && td.term.as_inner() == &name.as_str(), true)?;
                must("equal to content", td.term.as_inner() == td.term.as_inner().as_inner(), true)?;
                must("different", td.term.as_inner() == &format!("{}x", name), false)?;
                n += b.len();
            }
            must("definitions", dl.definitions().count(), n)?;
            must("terms", dl.terms().count(), dl.items.len())?;
            must("no such term", dl.get("no such term\u{1}").is_none(), true)?;
        }
    }
    for c in containers(&p) {
        must("content", (c.len(), c.is_empty()), (c.iter().count(), c.iter().next().is_none()))?;
        for k in 0..c.len() + 2 {
            must("part", c.get(k).map(|d| d.region()), c.iter().nth(k).map(|d| d.region()))?;
        }
    }
    must("no definitions", (DefinitionBundle::empty().len(), DefinitionBundle::empty().is_empty()), (0, true))?;
    Ok(src)
}

/// what the two equalities say about pairs of the small parts, and serialisation
fn parts_laws(g: &mut G) -> Result<String, Fail> {
    fn all<T: StrictEq + PartialEq + Clone + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned>(what: &str, v: Vec<T>) -> Result<(), Fail> {
        for (i, x) in v.iter().enumerate() {
            for (j, y) in v.iter().enumerate() {
                must(&format!("{} {:?} and {:?}", what, x, y), (x == y, x.strict_eq(y)), (i == j, i == j))?;
            }
            let s = serde_json::to_string(x).or_else(|e| fail("json", e.to_string()))?;
            let y: T = serde_json::from_str(&s).or_else(|e| fail("json", format!("{}: {}", s, e)))?;
            must(&format!("{} read back", what), (y == *x, y.strict_eq(x)), (true, true))?;
        }
        Ok(())
    }
    let mut words: Vec<String> = (0..g.range(1, 5)).map(|_| g.anyword(6)).collect();
    words.push("a".into());
    words.push("A".into());
    words.sort();
    words.dedup();
    let cows = || words.iter().cloned().map(Cow::<'static, str>::from);
    all("keyword", vec![Keyword::Todo, Keyword::Done, Keyword::Started, Keyword::Fixme, Keyword::Fixed, Keyword::Xxx])?;
    all("suffix", vec![ListItemSuffix::None, ListItemSuffix::Period, ListItemSuffix::Paren])?;
    use ListItemTodoStatus::*;
    let todo = vec![Incomplete, PartiallyComplete1, PartiallyComplete2, PartiallyComplete3, Complete, Rejected];
    all("todo", todo.clone())?;
    let mut attrs: Vec<ListItemAttributes> = todo.into_iter().map(|t| ListItemAttributes { todo_status: Some(t) }).collect();
    attrs.push(Default::default());
    all("attributes", attrs)?;
    use OrderedListItemType::*;
    let ordered = vec![Number, Pound, LowercaseAlphabet, UppercaseAlphabet, LowercaseRoman, UppercaseRoman];
    all("ordered", ordered.clone())?;
    let mut types: Vec<ListItemType<'static>> = ordered.into_iter().map(ListItemType::from).collect();
    let mut unordered = vec![UnorderedListItemType::Hyphen, UnorderedListItemType::Asterisk];
    unordered.extend(cows().map(UnorderedListItemType::Other));
    all("unordered", unordered.clone())?;
    types.extend(unordered.into_iter().map(ListItemType::from));
    all("type", types)?;
    all("span", vec![CellSpan::FromLeft, CellSpan::FromAbove])?;
    all("alignment", vec![ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right])?;
    all("tag", cows().map(Tag::new).collect())?;
    all("text", cows().map(Text::new).collect())?;
    all("code", cows().map(CodeInline::new).collect())?;
    all("math", cows().map(MathInline::new).collect())?;
    all("line comment", cows().map(LineComment::new).collect())?;
    all("comment", cows().map(|w| MultiLineComment::new(vec![w.clone(), w])).chain(cows().map(|w| MultiLineComment::new(vec![w]))).collect())?;
    all("comments", cows().map(|w| Comment::from(LineComment::new(w))).chain(cows().map(|w| Comment::from(MultiLineComment::new(vec![w])))).collect())?;
    all("tags", cows().map(|w| vec![w].into_iter().map(Tag::new).collect::<Tags>()).chain(cows().map(|w| vec![w.clone(), w].into_iter().map(Tag::new).collect::<Tags>())).collect())?;
    all("anchor", cows().map(|w| Anchor::new(vec![w])).chain(cows().map(|w| Anchor::new(vec![w.clone(), w]))).collect())?;
    all("description", cows().map(Description::Text).collect())?;
    let mut places: Vec<Placeholder<'static>> = cows().map(Placeholder::Title).collect();
    places.extend(cows().map(Placeholder::Template));
    places.push(Placeholder::NoHtml);
    places.push(Placeholder::Date(chrono_day(g)));
    for n in &words {
        places.extend(cows().map(|value| Placeholder::Other { name: Cow::from(n.clone()), value }));
    }
    all("placeholder", places)?;
    all("divider", vec![Divider])?;
    Ok(format!("parts {:?}", words))
}

fn p35(g: &mut G) -> Case {
    type Law = fn(&mut G) -> Result<String, Fail>;
    let laws: &[(&str, Law)] = &[
        ("edit", edit_laws),
        ("region", region_laws),
        ("anchor", anchor_laws),
        ("address", uri_laws),
        ("cell position", cell_laws),
        ("language", language_laws),
        ("definitions", list_laws),
        ("parts", parts_laws),
    ];
    let (name, law) = laws[g.freq(&[6, 1, 3, 4, 1, 1, 2, 1])];
    let out = guard(name, || law(g)).and_then(|x| x);
    Case { nontrivial: out.as_ref().map_or(false, |s| s.len() > 8), text: out.clone().unwrap_or_else(|f| format!("{}: {}", name, f.msg)), labels: vec![name.to_string()], out: out.map(|_| ()) }
}


// ---------------------------------------------------------------- P37

/// elements that no text need stand for
struct Arb<'g> {
    g: &'g mut G,
}

impl<'g> Arb<'g> {
    fn s(&mut self) -> String {
        let g = &mut *self.g;
        let mut s = String::new();
        for _ in 0..g.small(0, 6) {
            let x = match g.freq(&[4, 3, 3, 1, 1]) {
                0 => g.anyword(4),
                1 => g.s(&["<", ">", "&", "\"", "'", "<b>", "</p>", "&lt;", "-->", "--!>", "</script>", "' x='", "\" onclick=\"x"]).to_string(),
                2 => g.s(&["]]", "[[", "}}", "{{", "}}}", "{{{", "%%", "+%%", "|", "`", "$", "*", "_", "~~", "^", ",,", ":", "::", "=", "- ", "1. ", "> ", "%title ", "    ", "TODO", "https://x.y"]).to_string(),
                3 => g.s(&[" ", "  ", "\t", "é", "日", "🦀", "\u{301}", "\u{a0}", "\u{200b}"]).to_string(),
                _ => g.wchar().to_string(),
            };
            s.push_str(&x);
        }
        s
    }
    fn uri(&mut self) -> URIReference<'static> {
        loop {
            let s = match self.g.below(4) {
                0 => gen::path(self.g),
                1 => format!("https://x.y/{}", LinkData::encode_uri(self.s())),
                2 => format!("#{}", LinkData::encode_uri(self.s()).replace('#', "%23")),
                _ => LinkData::encode_uri(self.s()),
            };
            if let Ok(u) = URIReference::try_from(s.as_str()) {
                return u.into_owned();
            }
            if self.g.chance(1, 2) {
                return URIReference::try_from("a").unwrap().into_owned();
            }
        }
    }
    fn props(&mut self) -> Option<std::collections::HashMap<Cow<'static, str>, Cow<'static, str>>> {
        if self.g.chance(3, 4) {
            return None;
        }
        let names = ["style", "class", "width", "a", "data-x", "z"];
        Some((0..self.g.below(3)).map(|_| (Cow::from(self.g.s(&names).to_string()), Cow::from(self.s()))).collect())
    }
    fn desc(&mut self) -> Option<Description<'static>> {
        match self.g.below(4) {
            0 => None,
            1 | 2 => Some(Description::from(self.s())),
            _ => Some(Description::from(LinkData::new(self.uri(), None, None))),
        }
    }
    fn link(&mut self) -> Link<'static> {
        let data = LinkData::new(self.uri(), self.desc(), self.props());
        match self.g.below(6) {
            0 => Link::Wiki { data },
            1 => Link::IndexedInterWiki { index: self.g.below(4) as u32, data },
            2 => Link::NamedInterWiki { name: Cow::from(self.g.s(&["a", "b c", "日本", "none"]).to_string()), data },
            3 => Link::new_diary_link(chrono_day(self.g), self.desc(), data.to_anchor().map(|a| a.into_owned())),
            4 => Link::Raw { data: LinkData::new(URIReference::try_from(format!("https://x.y/{}", self.g.anyword(3).replace(|c: char| !c.is_ascii_alphanumeric(), "")).as_str()).unwrap().into_owned(), None, None) },
            _ => Link::Transclusion { data },
        }
    }
    fn keyword(&mut self) -> Keyword {
        *self.g.pick(&[Keyword::Todo, Keyword::Done, Keyword::Started, Keyword::Fixme, Keyword::Fixed, Keyword::Xxx])
    }
    fn deco(&mut self, depth: usize) -> DecoratedText<'static> {
        let v: Vec<Located<DecoratedTextContent<'static>>> = (0..self.g.small(0, 3))
            .map(|_| match self.g.below(if depth > 0 { 4 } else { 3 }) {
                0 => DecoratedTextContent::Text(Text::from(self.s())),
                1 => DecoratedTextContent::Keyword(self.keyword()),
                2 => DecoratedTextContent::Link(self.link()),
                _ => DecoratedTextContent::DecoratedText(self.deco(depth - 1)),
            })
            .map(Located::from)
            .collect();
        match self.g.below(5) {
            0 => DecoratedText::Bold(v),
            1 => DecoratedText::Italic(v),
            2 => DecoratedText::Strikeout(v),
            3 => DecoratedText::Superscript(v),
            _ => DecoratedText::Subscript(v),
        }
    }
    fn inline(&mut self) -> InlineElement<'static> {
        match self.g.freq(&[5, 2, 1, 3, 1, 1, 1, 1]) {
            0 => Text::from(self.s()).into(),
            1 => self.deco(2).into(),
            2 => self.keyword().into(),
            3 => self.link().into(),
            4 => (0..self.g.below(4)).map(|_| self.s()).collect::<Tags>().into(),
            5 => CodeInline::from(self.s()).into(),
            6 => MathInline::from(self.s()).into(),
            _ if self.g.coin() => Comment::from(LineComment::from(self.s())).into(),
            _ => Comment::from((0..self.g.below(3)).map(|_| self.s()).collect::<MultiLineComment>()).into(),
        }
    }
    fn container(&mut self) -> InlineElementContainer<'static> {
        (0..self.g.small(0, 4)).map(|_| Located::from(self.inline())).collect()
    }
    fn strings(&mut self) -> Vec<Cow<'static, str>> {
        (0..self.g.small(0, 4)).map(|_| if self.g.chance(1, 4) { Cow::from("") } else { Cow::from(self.s()) }).collect()
    }
    fn block(&mut self, depth: usize) -> BlockElement<'static> {
        match self.g.freq(&[4, 3, 1, 2, 2, 1, 3, 1, 2, if depth > 0 { 4 } else { 0 }]) {
            0 => Paragraph::new((0..self.g.small(0, 3)).map(|_| self.container()).collect()).into(),
            1 => Header::new(self.container(), self.g.range(1, 6), self.g.coin()).into(),
            2 => Divider.into(),
            3 => Blockquote::new(self.strings()).into(),
            4 => {
                let l = if self.g.coin() { None } else { Some(Cow::from(self.s())) };
                let m = self.props().unwrap_or_default();
                CodeBlock::new(l, m, self.strings()).into()
            }
            5 => {
                let e = if self.g.coin() { None } else { Some(Cow::from(self.s())) };
                MathBlock::new(self.strings(), e).into()
            }
            6 => {
                let mut v = vec![];
                let (h, w) = (self.g.range(1, 3), self.g.range(1, 3));
                for r in 0..h {
                    // A divider is a whole row
                    let divider = self.g.chance(1, 5);
                    for c in 0..w {
                        let x = match if divider { 3 } else { self.g.freq(&[6, 1, 1, 0, 1]) } {
                            0 => Cell::Content(self.container()),
                            1 if c > 0 => Cell::Span(CellSpan::FromLeft),
                            2 if r > 0 => Cell::Span(CellSpan::FromAbove),
                            3 => Cell::Align(*self.g.pick(&[ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right])),
                            _ => Cell::Content(InlineElementContainer::new(vec![])),
                        };
                        v.push((CellPos::new(r, c), Located::from(x)));
                    }
                }
                Table::new(v, self.g.coin()).into()
            }
            7 => match self.g.below(5) {
                0 => Placeholder::title_from_string(self.s()),
                1 => Placeholder::NoHtml,
                2 => Placeholder::template_from_string(self.s()),
                3 => Placeholder::Date(chrono_day(self.g)),
                _ => Placeholder::other_from_string(self.s(), self.s()),
            }
            .into(),
            8 => {
                let v: Vec<_> = (0..self.g.small(0, 3))
                    .map(|_| {
                        let t = Located::from(Term::new(self.container()));
                        let d = (0..self.g.small(0, 2)).map(|_| Located::from(Definition::new(self.container()))).collect();
                        (t, Located::from(DefinitionBundle::new(d)))
                    })
                    .collect();
                v.into_iter().collect::<DefinitionList>().into()
            }
            _ => self.list(depth - 1).into(),
        }
    }
    fn list(&mut self, depth: usize) -> List<'static> {
        (0..self.g.small(0, 3))
            .map(|_| {
                let ty = match self.g.below(4) {
                    0 => UnorderedListItemType::Hyphen.into(),
                    1 => UnorderedListItemType::Asterisk.into(),
                    2 => UnorderedListItemType::Other(Cow::from("+")).into(),
                    _ => (*self.g.pick(&[
                        OrderedListItemType::Number,
                        OrderedListItemType::Pound,
                        OrderedListItemType::LowercaseAlphabet,
                        OrderedListItemType::UppercaseAlphabet,
                        OrderedListItemType::LowercaseRoman,
                        OrderedListItemType::UppercaseRoman,
                    ]))
                    .into(),
                };
                let suffix = *self.g.pick(&[ListItemSuffix::None, ListItemSuffix::Period, ListItemSuffix::Paren]);
                let pos = if self.g.chance(3, 4) { self.g.below(4) } else { self.g.below(5000) };
                let c = (0..self.g.small(0, 3)).map(|_| Located::from(self.block(depth))).collect();
                let a = ListItemAttributes {
                    todo_status: *self.g.pick(&[
                        None,
                        Some(ListItemTodoStatus::Incomplete),
                        Some(ListItemTodoStatus::PartiallyComplete1),
                        Some(ListItemTodoStatus::PartiallyComplete2),
                        Some(ListItemTodoStatus::PartiallyComplete3),
                        Some(ListItemTodoStatus::Complete),
                        Some(ListItemTodoStatus::Rejected),
                    ]),
                };
                Located::from(ListItem::new(ty, suffix, pos, c, a))
            })
            .collect()
    }
}

fn arbitrary(p: &Page, hc: &HtmlConfig, fc: &VimwikiConfig) -> Result<bool, Fail> {
    let shown = html::mirrors_page(p, hc)?;
    let text = match guard("text", || p.to_vimwiki_string(fc.clone()))? {
        Ok(s) => s,
        Err(e) => return fail("text", format!("no text: {:?}", e)),
    };
    // nothing written is lost
    for c in containers(p) {
        for e in c.iter() {
            if let InlineElement::Text(t) = e.as_inner() {
                let t = t.as_str().trim();
                if !text.contains(t) {
                    return fail("text", format!("{:?} is not written\n{}", t, text));
                }
            }
        }
    }
    // and the text is a text
    parse(&text)?;
    let j = serde_json::to_string(p).or_else(|e| fail("json", e.to_string()))?;
    let back: Page = serde_json::from_str(&j).or_else(|e| fail("json", format!("{} in {}", e, j)))?;
    if !back.strict_eq(p) || full(&norm::page(&back)) != full(&norm::page(p)) {
        return fail("json", "the copy read from JSON differs");
    }
    Ok(shown)
}

fn p37(g: &mut G) -> Case {
    let hc = html::config(g);
    let fc = format::config(g);
    let mut a = Arb { g };
    let p: Page = (0..a.g.range(1, 4)).map(|_| Located::from(a.block(2))).collect();
    let out = guard("page", || arbitrary(&p, &hc, &fc)).and_then(|x| x);
    let t = norm::page(&p);
    Case { nontrivial: t.count() >= 6 && matches!(out, Ok(true)), text: format!("# {}\n# {}\n{}", html::show_config(&hc), format::show_config(&fc), t.plain()), labels: vec![], out: out.map(|_| ()) }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P34", rule: "the page has at least 5 elements", quick: 30000, thorough: 600000, case: p34, text: Some(p34_text), assumptions: &[], threads: 8, batch: None },
    Prop { id: "P35", rule: "the case has more than a few characters", quick: 220000, thorough: 3000000, case: p35, text: None, assumptions: &["offsets and lengths far below the largest number"], threads: 8, batch: None },
    Prop { id: "P36", rule: "at least 6 readings of an element on its own", quick: 20000, thorough: 600000, case: p36, text: Some(p36_text), assumptions: &[], threads: 8, batch: None },
    Prop { id: "P37", rule: "at least 6 elements, all wikis known", quick: 300000, thorough: 3000000, case: p37, text: None, assumptions: &["names of attributes that HTML allows"], threads: 8, batch: None },
];
