//! An independent, position-aware view of a parsed page built only from public accessors.
use vimwiki::*;

#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub k: &'static str,
    pub s: Vec<String>,
    pub c: Vec<Tree>,
    pub r: Option<Region>,
}

impl PartialEq for Tree {
    /// Structure and content only, never positions
    fn eq(&self, o: &Tree) -> bool {
        self.k == o.k && self.s == o.s && self.c == o.c
    }
}

impl Tree {
    pub fn new(k: &'static str, s: Vec<String>, c: Vec<Tree>) -> Tree {
        Tree { k, s, c, r: None }
    }
    pub fn leaf(k: &'static str, s: &str) -> Tree {
        Tree::new(k, vec![s.to_string()], vec![])
    }
    pub fn at(mut self, r: Region) -> Tree {
        self.r = Some(r);
        self
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.show_into(0, &mut o);
        o
    }
    /// show() without positions
    pub fn plain(&self) -> String {
        let mut t = self.clone();
        fn clear(t: &mut Tree) {
            t.r = None;
            t.c.iter_mut().for_each(clear);
        }
        clear(&mut t);
        t.show()
    }
    fn show_into(&self, d: usize, o: &mut String) {
        o.push_str(&"  ".repeat(d));
        o.push_str(self.k);
        for s in &self.s {
            o.push_str(&format!(" {:?}", s));
        }
        if let Some(r) = self.r {
            o.push_str(&format!(" @{}+{}", r.offset(), r.len()));
        }
        o.push('\n');
        for c in &self.c {
            c.show_into(d + 1, o);
        }
    }
    /// All nodes, parents first
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Tree)) {
        f(self);
        for c in &self.c {
            c.walk(f);
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.k == k || self.c.iter().any(|c| c.has(k))
    }
    pub fn count(&self) -> usize {
        1 + self.c.iter().map(|c| c.count()).sum::<usize>()
    }
    /// first difference, for messages
    pub fn diff(&self, o: &Tree) -> Option<String> {
        self.diff_at(o, "")
    }
    fn diff_at(&self, o: &Tree, p: &str) -> Option<String> {
        let p = format!("{}/{}", p, self.k);
        if self.k != o.k {
            return Some(format!("at {}: expected {} {:?}, got {} {:?}", p, self.k, self.s, o.k, o.s));
        }
        if self.s != o.s {
            return Some(format!("at {}: expected {:?}, got {:?}", p, self.s, o.s));
        }
        for (i, (a, b)) in self.c.iter().zip(&o.c).enumerate() {
            if let Some(d) = a.diff_at(b, &format!("{}[{}]", p, i)) {
                return Some(d);
            }
        }
        if self.c.len() != o.c.len() {
            let f = |t: &Tree| t.c.iter().map(|c| format!("{}{:?}", c.k, c.s)).collect::<Vec<_>>().join(", ");
            return Some(format!("at {}: expected {} children [{}], got {} [{}]", p, self.c.len(), f(self), o.c.len(), f(o)));
        }
        None
    }
}

fn b(x: bool) -> String {
    (if x { "true" } else { "false" }).to_string()
}

pub fn page(p: &Page) -> Tree {
    Tree::new("Page", vec![], p.elements.iter().map(block).collect())
}

pub fn block(e: &Located<BlockElement>) -> Tree {
    block_inner(e.as_inner()).at(e.region())
}

pub fn lines(v: &[std::borrow::Cow<str>]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

pub fn block_inner(e: &BlockElement) -> Tree {
    match e {
        BlockElement::Blockquote(x) => Tree::new("Quote", lines(&x.lines), vec![]),
        BlockElement::CodeBlock(x) => {
            let mut m: Vec<(String, String)> = x.metadata.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            m.sort();
            Tree::new(
                "Code",
                vec![format!("{:?}", x.language)],
                vec![
                    Tree::new("Meta", m.into_iter().flat_map(|(k, v)| vec![k, v]).collect(), vec![]),
                    Tree::new("Lines", lines(&x.lines), vec![]),
                ],
            )
        }
        BlockElement::MathBlock(x) => Tree::new("Math", vec![format!("{:?}", x.environment)], vec![Tree::new("Lines", lines(&x.lines), vec![])]),
        BlockElement::DefinitionList(x) => Tree::new(
            "DefList",
            vec![],
            x.items
                .iter()
                .map(|td| {
                    Tree::new(
                        "TermDefs",
                        vec![],
                        vec![
                            Tree::new("Term", vec![], container(td.term.as_inner().as_inner())).at(td.term.region()),
                            Tree::new(
                                "Bundle",
                                vec![],
                                td.definitions
                                    .as_inner()
                                    .iter()
                                    .map(|d| Tree::new("Def", vec![], container(d.as_inner().as_inner())).at(d.region()))
                                    .collect(),
                            )
                            .at(td.definitions.region()),
                        ],
                    )
                    .at(td.region())
                })
                .collect(),
        ),
        BlockElement::Divider(_) => Tree::new("Divider", vec![], vec![]),
        BlockElement::Header(h) => Tree::new("Header", vec![h.level.to_string(), b(h.centered)], container(&h.content)),
        BlockElement::List(l) => Tree::new("List", vec![], l.items.iter().map(item).collect()),
        BlockElement::Paragraph(p) => Tree::new("Para", vec![], p.lines.iter().map(|l| Tree::new("Line", vec![], container(l))).collect()),
        BlockElement::Placeholder(p) => match p {
            Placeholder::Title(x) => Tree::leaf("Title", x),
            Placeholder::NoHtml => Tree::new("NoHtml", vec![], vec![]),
            Placeholder::Template(x) => Tree::leaf("Template", x),
            Placeholder::Date(x) => Tree::leaf("Date", &x.format("%Y-%m-%d").to_string()),
            Placeholder::Other { name, value } => Tree::new("Other", vec![name.to_string(), value.to_string()], vec![]),
        },
        BlockElement::Table(t) => table(t),
    }
}

pub fn table(t: &Table) -> Tree {
    let mut cells: Vec<_> = t.as_data().iter().collect();
    cells.sort_by_key(|(p, _)| (p.row, p.col));
    Tree::new(
        "Table",
        vec![b(t.centered)],
        cells
            .into_iter()
            .map(|(p, c)| {
                let (kind, ch) = match c.as_inner() {
                    Cell::Content(x) => ("content", container(x)),
                    Cell::Span(CellSpan::FromLeft) => ("left", vec![]),
                    Cell::Span(CellSpan::FromAbove) => ("above", vec![]),
                    Cell::Align(ColumnAlign::Left) => ("align-left", vec![]),
                    Cell::Align(ColumnAlign::Center) => ("align-center", vec![]),
                    Cell::Align(ColumnAlign::Right) => ("align-right", vec![]),
                    Cell::Align(ColumnAlign::None) => ("align-none", vec![]),
                };
                Tree::new("Cell", vec![p.row.to_string(), p.col.to_string(), kind.to_string()], ch).at(c.region())
            })
            .collect(),
    )
}

pub fn ty_name(t: &ListItemType) -> String {
    match t {
        ListItemType::Unordered(UnorderedListItemType::Hyphen) => "hyphen".into(),
        ListItemType::Unordered(UnorderedListItemType::Asterisk) => "asterisk".into(),
        ListItemType::Unordered(UnorderedListItemType::Other(x)) => format!("other:{}", x),
        ListItemType::Ordered(OrderedListItemType::Number) => "number".into(),
        ListItemType::Ordered(OrderedListItemType::Pound) => "pound".into(),
        ListItemType::Ordered(OrderedListItemType::LowercaseAlphabet) => "lower".into(),
        ListItemType::Ordered(OrderedListItemType::UppercaseAlphabet) => "upper".into(),
        ListItemType::Ordered(OrderedListItemType::LowercaseRoman) => "lroman".into(),
        ListItemType::Ordered(OrderedListItemType::UppercaseRoman) => "uroman".into(),
    }
}

pub fn todo_name(t: Option<ListItemTodoStatus>) -> &'static str {
    match t {
        None => "none",
        Some(ListItemTodoStatus::Incomplete) => " ",
        Some(ListItemTodoStatus::PartiallyComplete1) => ".",
        Some(ListItemTodoStatus::PartiallyComplete2) => "o",
        Some(ListItemTodoStatus::PartiallyComplete3) => "O",
        Some(ListItemTodoStatus::Complete) => "X",
        Some(ListItemTodoStatus::Rejected) => "-",
    }
}

pub fn item(i: &Located<ListItem>) -> Tree {
    let x = i.as_inner();
    let suffix = match x.suffix {
        ListItemSuffix::None => "none",
        ListItemSuffix::Period => "period",
        ListItemSuffix::Paren => "paren",
    };
    Tree::new(
        "Item",
        vec![ty_name(&x.ty), suffix.into(), x.pos.to_string(), todo_name(x.attributes.todo_status).into()],
        x.contents.iter().map(block).collect(),
    )
    .at(i.region())
}

pub fn container(c: &InlineElementContainer) -> Vec<Tree> {
    c.iter().map(inline).collect()
}

pub fn inline(e: &Located<InlineElement>) -> Tree {
    let t = match e.as_inner() {
        InlineElement::Text(x) => Tree::leaf("Text", x.as_str()),
        InlineElement::DecoratedText(x) => decorated(x),
        InlineElement::Keyword(x) => keyword(*x),
        InlineElement::Link(x) => link(x),
        InlineElement::Tags(x) => Tree::new("Tags", x.iter().map(|t| t.as_str().to_string()).collect(), vec![]),
        InlineElement::Code(x) => Tree::leaf("CodeI", x.as_str()),
        InlineElement::Math(x) => Tree::leaf("MathI", x.as_str()),
        InlineElement::Comment(Comment::Line(x)) => Tree::leaf("LineC", x.as_str()),
        InlineElement::Comment(Comment::MultiLine(x)) => Tree::new("MultiC", x.iter().map(|l| l.to_string()).collect(), vec![]),
    };
    t.at(e.region())
}

pub fn keyword(x: Keyword) -> Tree {
    Tree::leaf(
        "Keyword",
        match x {
            Keyword::Todo => "TODO",
            Keyword::Done => "DONE",
            Keyword::Started => "STARTED",
            Keyword::Fixme => "FIXME",
            Keyword::Fixed => "FIXED",
            Keyword::Xxx => "XXX",
        },
    )
}

pub fn decorated(d: &DecoratedText) -> Tree {
    let (k, v) = match d {
        DecoratedText::Bold(v) => ("Bold", v),
        DecoratedText::Italic(v) => ("Italic", v),
        DecoratedText::Strikeout(v) => ("Strike", v),
        DecoratedText::Superscript(v) => ("Sup", v),
        DecoratedText::Subscript(v) => ("Sub", v),
    };
    Tree::new(
        k,
        vec![],
        v.iter()
            .map(|c| {
                match c.as_inner() {
                    DecoratedTextContent::Text(x) => Tree::leaf("Text", x.as_str()),
                    DecoratedTextContent::DecoratedText(x) => decorated(x),
                    DecoratedTextContent::Keyword(x) => keyword(*x),
                    DecoratedTextContent::Link(x) => link(x),
                }
                .at(c.region())
            })
            .collect(),
    )
}

pub fn link_data(d: &LinkData) -> Vec<String> {
    let mut v = vec![d.uri_ref.to_string()];
    match &d.description {
        None => v.push("nodesc".into()),
        Some(Description::Text(t)) => v.push(format!("text:{}", t)),
        Some(Description::TransclusionLink(x)) => v.push(format!("transclusion:{:?}", link_data(x))),
    }
    match &d.properties {
        None => v.push("noprops".into()),
        Some(p) => {
            let mut m: Vec<(String, String)> = p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            m.sort();
            v.push(format!("{:?}", m));
        }
    }
    v
}

pub fn link(l: &Link) -> Tree {
    let (kind, extra) = match l {
        Link::Wiki { .. } => ("wiki", String::new()),
        Link::IndexedInterWiki { index, .. } => ("indexed", index.to_string()),
        Link::NamedInterWiki { name, .. } => ("named", name.to_string()),
        Link::Diary { date, .. } => ("diary", date.format("%Y-%m-%d").to_string()),
        Link::Raw { .. } => ("raw", String::new()),
        Link::Transclusion { .. } => ("transclusion", String::new()),
    };
    let mut s = vec![kind.to_string(), extra];
    s.extend(link_data(l.data()));
    Tree::new("Link", s, vec![])
}
