//! Structured document generator: produces vimwiki source together with the tree that the
//! vimwiki syntax prescribes for it, without ever consulting the parser.
use crate::engine::G;
use crate::norm::Tree;

/// What the place an inline run is written in allows
#[derive(Clone, Copy, Debug)]
pub struct Cx {
    /// `|` may be used
    pub bar: bool,
    /// run is at the start of a line that is dispatched on (must not look like another block)
    pub bol: bool,
    /// text may end in blanks
    pub trail: bool,
    /// run may not begin or end with `=`, nor have blanks at its edges
    pub header: bool,
    /// comments may be used at all
    pub comments: bool,
    /// comments may span lines
    pub multiline: bool,
    /// character before the run counts as blank (so tags and raw links may start it)
    pub blank_before: bool,
    /// character after the run is blank or end of span
    pub blank_after: bool,
    /// `:` may end the run
    pub colon_end: bool,
    pub links: bool,
}
pub const PARA: Cx = Cx { bar: true, bol: true, trail: true, header: false, comments: true, multiline: false, blank_before: true, blank_after: true, colon_end: true, links: true };
pub const HEADER: Cx = Cx { bar: true, bol: false, trail: false, header: true, comments: true, multiline: false, blank_before: false, blank_after: false, colon_end: true, links: true };
pub const CELL: Cx = Cx { bar: false, bol: false, trail: true, header: false, comments: true, multiline: false, blank_before: false, blank_after: true, colon_end: true, links: true };
pub const TERM: Cx = Cx { bar: true, bol: true, trail: false, header: false, comments: false, multiline: false, blank_before: true, blank_after: true, colon_end: false, links: true };
pub const DEF: Cx = Cx { bar: true, bol: false, trail: true, header: false, comments: true, multiline: false, blank_before: true, blank_after: true, colon_end: true, links: true };

/// words that are safe everywhere, also at the start of a line
pub const START: &[&str] = &["alpha", "b", "foo-bar", "naïve", "日本語", "🦀", "a\u{301}", "it's", "42x", "gamma", "ßx", "élan", "delta4", "(p)", "\"q\"", "<b>", "&amp;", "a/b", "q?", "x@y", "</p>", "<!-- z", "Ω", "\u{a0}w", "ab\u{2003}c", "O'Neil", "\\n", "A&B", "f(x)", "a<b>c", "toc", "Mixed"];
pub const MORE: &[&str] = &["end.", "1)", "x=y", "5%", "-", "--", "+", "3", "a,b", "note:", "#", ">", "!", "?", ";", "...", "a~b", "[x]", "{y}", "-->", "'", "\"", "&", "<", "/", "\\", "i.", "%", "=", "a|b", "|", "@", "c.", "ﬁ", "e\u{308}", "\u{3000}z", "…", "toc2", "]", "}", "a:b", "1.", "(", "[ ]"];
pub const UNI: &[&str] = &["日本語", "é", "🦀", "ß", "a\u{301}b"];

pub const DECOS: &[(&str, &str)] = &[("*", "Bold"), ("_", "Italic"), ("~~", "Strike"), ("^", "Sup"), (",,", "Sub")];
pub const KEYWORDS: &[&str] = &["TODO", "DONE", "STARTED", "FIXME", "FIXED", "XXX"];

pub struct LineB {
    pub src: String,
    pub out: Vec<Tree>,
    /// marker strings that must not be written any more on this line
    banned: Vec<&'static str>,
    closed: bool,
}

impl LineB {
    fn new() -> LineB {
        LineB { src: String::new(), out: vec![], banned: vec![], closed: false }
    }
    fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        self.src.push_str(s);
        if let Some(l) = self.out.last_mut() {
            if l.k == "Text" {
                l.s[0].push_str(s);
                return;
            }
        }
        self.out.push(Tree::leaf("Text", s));
    }
    fn el(&mut self, s: &str, t: Tree) {
        self.src.push_str(s);
        self.out.push(t);
    }
    fn ok(&self, s: &str, forbid: &[&'static str]) -> bool {
        self.banned.iter().chain(forbid.iter()).all(|m| !s.contains(m))
    }
    fn at_blank(&self, cx: &Cx) -> bool {
        match self.src.chars().last() {
            None => cx.blank_before,
            Some(c) => c == ' ',
        }
    }
}

fn word(g: &mut G, cx: &Cx, first: bool) -> String {
    if first || g.chance(3, 5) {
        if g.chance(1, 300) {
            let n = g.range(200, 400);
            return "long".repeat(n / 4);
        }
        let w = g.w(START);
        return w.to_string();
    }
    let w = g.s(MORE);
    if !cx.bar && w.contains('|') {
        return "w".into();
    }
    w.to_string()
}

/// A run of inline markup on one line
pub fn inline_run(g: &mut G, cx: Cx, forbid: &[&'static str], depth: usize, max: usize) -> LineB {
    let mut b = LineB::new();
    let mut n_k = 0usize;
    while g.more(&mut n_k, 1, max.max(1)) {
        let i = n_k - 1;
        if b.closed {
            break;
        }
        let first = b.src.is_empty();
        if !first && g.chance(3, 4) {
            if !b.src.ends_with(' ') {
                b.text(" ");
            }
        }
        let _ = i;
        piece(g, &mut b, cx, forbid, depth, first);
    }
    if b.src.is_empty() {
        b.text("a");
    }
    if !b.closed {
        if cx.header {
            if b.src.starts_with('=') || b.src.ends_with('=') {
                b.text("e");
            }
        }
        if !cx.trail && b.src.ends_with(' ') {
            b.text("t");
        }
        if !cx.colon_end && b.src.ends_with(':') {
            b.text(" k");
        }
        if cx.trail && g.chance(1, 12) {
            b.text(g.s(&[" ", "  ", "\t"]).to_string().as_str());
        }
    }
    b
}

fn piece(g: &mut G, b: &mut LineB, cx: Cx, forbid: &[&'static str], depth: usize, first: bool) {
    let top = depth == 0;
    let k = g.freq(&[10, 4, 2, 2, if top { 2 } else { 0 }, if top { 2 } else { 0 }, if top { 2 } else { 0 }, if cx.links { 3 } else { 0 }, if top && cx.links { 1 } else { 0 }, if top && cx.comments { 2 } else { 0 }, if top { 1 } else { 0 }]);
    match k {
        1 if depth < 4 => {
            // decorated text, possibly nested
            let opts: Vec<&(&str, &str)> = DECOS.iter().filter(|d| b.ok(d.0, forbid)).collect();
            if opts.is_empty() {
                return plain(g, b, cx, first, forbid);
            }
            let d = **g.pick(&opts);
            let mut f: Vec<&'static str> = forbid.to_vec();
            f.push(if d.0 == "~~" { "~" } else if d.0 == ",," { "," } else { d.0 });
            f.extend(b.banned.iter());
            let icx = Cx { trail: false, bol: false, comments: false, header: false, blank_before: false, blank_after: false, colon_end: true, multiline: false, bar: cx.bar, links: cx.links };
            let inner = inline_run(g, icx, &f, depth + 1, 3);
            if b.src.ends_with(d.0.chars().next().unwrap()) && d.0.len() == 2 {
                b.text(" ");
            }
            let src = format!("{}{}{}", d.0, inner.src, d.0);
            b.el(&src, Tree::new(d.1, vec![], inner.out));
        }
        2 => {
            let w = g.s(KEYWORDS);
            if first && cx.bol && false {
                return;
            }
            // text and keyword together must not have a keyword that starts earlier
            let at = b.src.char_indices().rev().nth(6).map_or(0, |x| x.0);
            let both = format!("{}{}", &b.src[at..], w);
            let mine = both.len() - w.len();
            if KEYWORDS.iter().any(|k| both.match_indices(k).any(|(i, _)| i < mine && i + k.len() > mine)) {
                b.text(" ");
            }
            b.el(w, Tree::leaf("Keyword", w));
        }
        3 => {
            // a marker that is never closed on the line
            let m: &'static str = g.pick(&["*", "_", "^", "$", "`", "~~", ",,", "[[", "{{"]);
            let ban: &'static str = match m {
                "~~" => "~",
                ",," => ",",
                "[[" => "]",
                "{{" => "}",
                x => x,
            };
            if !b.ok(m, forbid) || !b.ok(ban, forbid) || forbid.contains(&ban) || b.src.ends_with(|c| m.starts_with(c)) {
                return plain(g, b, cx, first, forbid);
            }
            let s = if first { format!("a{}b", m) } else { format!("{}{}", m, g.s(&["b", "é", "b "])) };
            // nothing containing the marker may follow
            b.text(&s);
            b.banned.push(ban);
            if m == "[[" {
                b.banned.push("[");
            }
            if m == "{{" {
                b.banned.push("{");
            }
        }
        4 | 5 => {
            let (m, kind) = if k == 4 { ("`", "CodeI") } else { ("$", "MathI") };
            let body = verb(g, cx, m);
            if !b.ok(m, forbid) || !b.ok(&body, forbid) {
                return plain(g, b, cx, first, forbid);
            }
            let src = format!("{}{}{}", m, body, m);
            b.el(&src, Tree::leaf(kind, &body));
        }
        6 => {
            // tags: a whole word
            if !b.at_blank(&cx) {
                if b.src.is_empty() {
                    return plain(g, b, cx, first, forbid);
                }
                b.text(" ");
            }
            let n = g.small(1, 3);
            let tags: Vec<String> = (0..n).map(|_| g.w(&["tag", "b2", "日本", "a-b", "x.y", "c/d", "toc", "a&b", "<t>", "q\"q", "é"])).collect();
            let src = format!(":{}:", tags.join(":"));
            if !b.ok(&src, forbid) {
                return plain(g, b, cx, first, forbid);
            }
            b.el(&src, Tree::new("Tags", tags, vec![]));
            if cx.header || !cx.blank_after || !cx.colon_end {
                b.text(" t");
            } else {
                b.text(" ");
                if !cx.trail {
                    b.text("t");
                }
            }
        }
        7 => {
            let (src, t) = link(g, cx.bar);
            if !b.ok(&src, forbid) || b.src.ends_with('[') || b.src.ends_with('{') || src.contains("::") {
                return plain(g, b, cx, first, forbid);
            }
            b.el(&src, t);
        }
        8 => {
            let (src, t) = raw_link(g);
            if !b.ok(&src, forbid) {
                return plain(g, b, cx, first, forbid);
            }
            if !b.at_blank(&cx) {
                if b.src.is_empty() {
                    return plain(g, b, cx, first, forbid);
                }
                b.text(" ");
            }
            b.el(&src, t);
            b.text(if cx.trail { " " } else { " t" });
        }
        9 => comment(g, b, cx, first),
        10 => {
            // decoration whose contents hold something a decoration cannot hold: it stays text
            let d = g.pick(DECOS);
            if !b.ok(d.0, forbid) || b.src.ends_with(d.0.chars().next().unwrap()) {
                return plain(g, b, cx, first, forbid);
            }
            let q = g.s(&["`", "$"]);
            let body = verb(g, cx, q);
            if body.contains(d.0.chars().next().unwrap()) || !b.ok(&body, forbid) || !b.ok(q, forbid) || d.0 == q {
                return plain(g, b, cx, first, forbid);
            }
            let ban: &'static str = match d.0 {
                "~~" => "~",
                ",," => ",",
                x => x,
            };
            if first && cx.bol {
                b.text("z ");
            }
            b.text(&format!("{}a ", d.0));
            b.el(&format!("{}{}{}", q, body, q), Tree::leaf(if q == "`" { "CodeI" } else { "MathI" }, &body));
            b.text(&format!(" c{}", d.0));
            b.banned.push(ban);
        }
        _ => plain(g, b, cx, first, forbid),
    }
}

fn plain(g: &mut G, b: &mut LineB, cx: Cx, first: bool, forbid: &[&'static str]) {
    let mut w = word(g, &cx, first && (cx.bol || cx.header || true));
    if !b.ok(&w, forbid) || (w.contains('~') && forbid.contains(&"~")) {
        w = "w".into();
    }
    // keep special characters from combining with what is already there
    let last = b.src.chars().last();
    let c = w.chars().next().unwrap();
    if let Some(l) = last {
        if (l == c && "~,[{]}%:=".contains(c)) || (l == ':' && w == "note:") || ("[{".contains(l) && "[{".contains(c)) {
            b.text(" ");
        }
        // a word such as "end." or "1)" directly after a purely alphanumeric start is a list marker
        if cx.bol && b.src.chars().all(char::is_alphanumeric) && (w.contains('.') || w.contains(')')) {
            b.text(" ");
        }
        // "x" + "://" and the like never appear; ":" words only after a blank
        if w.contains(':') && l != ' ' {
            b.text(" ");
        }
    }
    b.text(&w);
    if w.ends_with(':') || w == "a:b" {
        b.text(" ");
        if !cx.trail {
            b.text("k");
        }
    }
}

/// content of inline code or math
fn verb(g: &mut G, cx: Cx, m: &str) -> String {
    let mut s = String::new();
    for i in 0..g.range(1, 3) {
        if i > 0 && g.coin() {
            s.push(' ');
        }
        let w = &*g.w(&["x", "a b", "日", "é", "y_1", "*b*", "<i>", "&lt;", "\"", "[[l]]", "%", "\\alpha", "f(x)", "`", "$", "a|b", "~~s~~", ",,s,,", "^2^", "TODO", "https://a.b", " ", "{{t}}", "-->", "</code>", "\\)", "'"]);
        if w.contains(m) || (!cx.bar && w.contains('|')) || (s.ends_with('%') && w.starts_with('%')) {
            s.push('k');
        } else {
            s.push_str(w);
        }
    }
    s
}

fn comment_text(g: &mut G, cx: Cx) -> String {
    let mut s = String::new();
    for i in 0..g.range(0, 3) {
        if i > 0 {
            s.push(' ');
        }
        let w = &*g.w(&["note", "SECRET", "*x*", "_y_", "-->", "<b>", "`c`", "$m$", "[[l]]", "é", "日本", ":t:", "TODO", "a", "--", "b*", "c`", "d$", "e]]", "f~~", "http://x.y", "&", "\""]);
        s.push_str(w);
    }
    if cx.header && s.ends_with('=') {
        s.push('e');
    }
    s
}

fn comment(g: &mut G, b: &mut LineB, cx: Cx, first: bool) {
    if b.src.ends_with('%') {
        b.text(" ");
    }
    let _ = first;
    // an opening marker in front of a comment is not closed by the comment's text
    if g.chance(1, 6) && !b.src.is_empty() {
        let m: &'static str = g.pick(&["*", "_", "`", "$", "^"]);
        if b.banned.is_empty() && !b.src.ends_with(m) {
            b.text(&format!("{}o ", m));
            b.banned.push(m);
        }
    }
    if g.coin() {
        // comment up to the end of the line
        let mut t = comment_text(g, cx);
        if cx.header {
            t = t.trim_end().to_string();
        }
        // %% followed by + would be read as the start of a block comment
        if g.chance(1, 3) {
            t.insert(0, ' ');
            if cx.header && t.trim().is_empty() {
                t = String::from(" n");
            }
        }
        if g.chance(1, 8) {
            t.push_str(" %% more");
        }
        if cx.header && t.ends_with('=') {
            t.push('e');
        }
        let src = format!("%%{}", t);
        b.el(&src, Tree::leaf("LineC", &t));
        b.closed = true;
    } else {
        let mut lines = vec![comment_text(g, cx)];
        if cx.multiline {
            for _ in 0..g.small(0, 3) {
                let mut l = comment_text(g, cx);
                if g.chance(1, 3) {
                    l = g.s(&["= h =", "- item", "|a|b|", "{{{", "----", "%title x", "> q", "t:: d", "    q", ""]).to_string();
                }
                lines.push(l);
            }
        }
        let src = format!("%%+{}+%%", lines.join("\n"));
        let mut exp = lines;
        // the part after the last line break only counts when there is something in it
        if exp.last().map_or(false, |l| l.is_empty()) {
            exp.pop();
        }
        b.el(&src, Tree::new("MultiC", exp, vec![]));
    }
}

// ---------------------------------------------------------------- links

/// percent-encoding applied by the parser to targets that are not yet valid references
pub fn encode(s: &str) -> String {
    let mut o = String::new();
    let mut first = true;
    let bs = s.as_bytes();
    for (i, &b) in bs.iter().enumerate() {
        let stray = b == b'%' && !(i + 2 < bs.len() && bs[i + 1].is_ascii_hexdigit() && bs[i + 2].is_ascii_hexdigit());
        if b == b'#' && first {
            first = false;
            o.push('#');
        } else if b < 0x21 || b > 0x7e || b"\"<>`#".contains(&b) || stray {
            o.push_str(&format!("%{:02X}", b));
        } else {
            o.push(b as char);
        }
    }
    o
}

pub fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16);
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                o.push((h * 16 + l) as u8);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).to_string()
}

/// what the parser stores for a written target
pub fn stored_uri(s: &str) -> String {
    let valid = s.bytes().all(|b| b > 0x20 && b < 0x7f && !b"\"<>`".contains(&b)) && s.matches('#').count() <= 1
        && s.match_indices('%').all(|(i, _)| s.len() > i + 2 && s.as_bytes()[i + 1].is_ascii_hexdigit() && s.as_bytes()[i + 2].is_ascii_hexdigit());
    uri_canon(&if valid { s.to_string() } else { encode(s) })
}

/// a URI with an authority always has a path (RFC 3986 section 6.2.3)
pub fn uri_canon(s: &str) -> String {
    if let Some(i) = s.find("//") {
        let scheme = &s[..i];
        let is_scheme = scheme.is_empty()
            || (scheme.ends_with(':') && scheme[..scheme.len() - 1].chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)));
        if is_scheme {
            let rest = &s[i + 2..];
            let end = rest.find(&['/', '?', '#'][..]).unwrap_or(rest.len());
            if end > 0 && !rest[end..].starts_with('/') {
                return format!("{}{}/{}", scheme.to_string() + "//", &rest[..end], &rest[end..]);
            }
        }
    }
    s.to_string()
}

#[derive(Clone, Debug)]
pub struct Target {
    pub src: String,
    pub anchor: Option<Vec<String>>,
}

pub const SEGS: &[&str] = &["page", "My Page", "日本", "sub-dir", "a.b", "x_y", "été", "n1", "A", "it's", "a+b", "p(1)", "50%25", "a%20b", "q&a", "100%", "a%23b", "%zz", "e=f", "~h", "toc", "\"z\"", "<k>"];
pub const ANCH: &[&str] = &["top", "Sec One", "日", "a-b", "x1", "é f", "q?", "h/i", "TODO", "s%20t", "\"d\"", "A&B"];

pub fn anchors(g: &mut G) -> Vec<String> {
    (0..g.small(1, 3)).map(|_| g.w(ANCH)).collect()
}

pub fn path(g: &mut G) -> String {
    let mut s = String::new();
    match g.freq(&[8, 1, 1, 1]) {
        1 => s.push('/'),
        2 => s.push_str("../"),
        3 => s.push_str("./"),
        _ => {}
    }
    let n = g.small(1, 3);
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        s.push_str(&g.w(SEGS));
    }
    if g.chance(1, 5) {
        s.push_str(g.s(&[".txt", ".html", ".pdf", ".png", ".wiki"]));
    } else if g.chance(1, 5) {
        s.push('/');
    }
    s
}

pub fn target(g: &mut G, kinds: bool) -> Target {
    let k = if kinds { g.freq(&[10, 2, 2, 1, 1]) } else { g.freq(&[10, 2]) };
    let mut s = match k {
        0 => path(g),
        1 => String::new(),
        2 => format!("{}{}", g.s(&["https://example.com/", "http://h.org", "ftp://f.g/x/", "https://u@h:8080/p"]), if g.coin() { "p/q?x=1&y=2" } else { "" }),
        3 => format!("file:{}", g.s(&["/abs/p.txt", "/etc/x", "/dir/"])),
        _ => format!("local:{}", g.s(&["/abs/p.txt", "rel/x", "dir/"])),
    };
    if s.ends_with(|c: char| c.is_alphanumeric()) && s.contains("h.org") && s.contains("orgp") {
        s = s.replace("orgp", "org/p");
    }
    let anchor = if k == 1 || g.chance(1, 3) {
        let a = anchors(g);
        s.push('#');
        s.push_str(&a.join("#"));
        Some(a)
    } else {
        None
    };
    Target { src: s, anchor }
}

pub const DESCS: &[&str] = &["desc", "My Desc", "日本", "a *b* c", "", " padded ", "`c`", "x_y_z", "<b>", "A & B", "q\"q", "é", "]x", "[y] z", "TODO", "a:b", "{z} y", "$m$", "--"];

fn props(g: &mut G) -> (String, Vec<(String, String)>) {
    let mut m: Vec<(String, String)> = vec![];
    let mut s = vec![];
    for _ in 0..g.small(1, 3) {
        let k = g.s(&["style", "class", "alt-x", "k", "K", "width", "data-é"]).to_string();
        let v = g.w(&["", "v", "a b", "color:red", "日本", "x=y", "<i>", "it's", "A&B", "5px;"]);
        s.push(format!("{}=\"{}\"", k, v));
        m.retain(|x| x.0 != k);
        m.push((k, v));
    }
    m.sort();
    (s.join(g.s(&[" ", "  ", "\t"])), m)
}

/// `|description|properties` part: source, description and properties entries of the model
fn tail(g: &mut G, bar: bool, allow_trans: bool) -> (String, String, String) {
    if !bar || g.coin() {
        return (String::new(), "nodesc".into(), "noprops".into());
    }
    let (mut src, desc) = if allow_trans && g.chance(1, 5) {
        let t = target(g, true);
        let (ts, td, tp) = tail(g, bar, false);
        let uri = stored_uri(&t.src);
        (format!("|{{{{{}{}}}}}", t.src, ts), format!("transclusion:{:?}", vec![uri, td, tp]))
    } else {
        let d = &*g.w(DESCS);
        (format!("|{}", d), format!("text:{}", d))
    };
    let mut pr = "noprops".to_string();
    if g.chance(1, 3) {
        let (ps, m) = props(g);
        src.push('|');
        src.push_str(&ps);
        pr = format!("{:?}", m);
    }
    (src, desc, pr)
}

pub fn date(g: &mut G) -> String {
    format!("{:04}-{:02}-{:02}", g.range(1970, 2099), g.range(1, 12), g.range(1, 28))
}

pub fn link(g: &mut G, bar: bool) -> (String, Tree) {
    let k = g.freq(&[8, 2, 2, 2, 3]);
    if k == 1 {
        let d = date(g);
        let mut src = d.clone();
        let mut uri = String::new();
        if g.coin() {
            let a: Vec<String> = anchors(g);
            let s = format!("#{}", a.join("#"));
            uri = stored_uri(&s);
            src.push_str(&s);
        }
        let (ts, desc, pr) = tail(g, bar, true);
        return (format!("[[diary:{}{}]]", src, ts), Tree::new("Link", vec!["diary".into(), d, uri, desc, pr], vec![]));
    }
    let t = target(g, true);
    let uri = stored_uri(&t.src);
    match k {
        2 => {
            let i = &*if g.chance(1, 4) { (g.below(1 << 16) * g.pick(&[1, 7, 65535])).to_string() } else { g.s(&["0", "1", "2", "17", "4294967295"]).to_string() };
            let (ts, d, p) = tail(g, bar, true);
            (format!("[[wiki{}:{}{}]]", i, t.src, ts), Tree::new("Link", vec!["indexed".into(), i.into(), uri, d, p], vec![]))
        }
        3 => {
            let i = &*g.w(&["My Wiki", "w", "日本", "a.b", "x-1"]);
            let (ts, d, p) = tail(g, bar, true);
            (format!("[[wn.{}:{}{}]]", i, t.src, ts), Tree::new("Link", vec!["named".into(), i.into(), uri, d, p], vec![]))
        }
        4 => {
            let (ts, d, p) = tail(g, bar, false);
            (format!("{{{{{}{}}}}}", t.src, ts), Tree::new("Link", vec!["transclusion".into(), String::new(), uri, d, p], vec![]))
        }
        _ => {
            let (ts, d, p) = tail(g, bar, true);
            (format!("[[{}{}]]", t.src, ts), Tree::new("Link", vec!["wiki".into(), String::new(), uri, d, p], vec![]))
        }
    }
}

pub fn raw_link(g: &mut G) -> (String, Tree) {
    let u = g.s(&["https://example.com", "http://a.b/c?d=e&f=g", "https://x.y/z#frag", "ftp://h/p", "mailto:me@example.com", "file:/a/b.txt", "local:c/d.txt", "https://u@h:80/a;b=c/(d)", "https://x.y/%E6%97%A5", "https://w.x/a'b"]);
    (u.to_string(), Tree::new("Link", vec!["raw".into(), String::new(), uri_canon(u), "nodesc".into(), "noprops".into()], vec![]))
}

// ---------------------------------------------------------------- blocks

#[derive(Clone, Debug)]
pub struct Blk {
    /// complete lines, each terminated by \n
    pub src: String,
    pub t: Tree,
    pub k: &'static str,
    /// indentation of the first line
    pub ind: usize,
}

fn blanks(g: &mut G, n: usize) -> String {
    if g.chance(1, 10) {
        (0..n).map(|_| *g.pick(&[' ', '\t'])).collect()
    } else {
        " ".repeat(n)
    }
}

pub fn header(g: &mut G) -> Blk {
    let lvl = g.range(1, 6);
    let ind = if g.chance(1, 4) { g.range(1, 5) } else { 0 };
    let run = inline_run(g, HEADER, &[], 0, 4);
    let (l, r) = if g.chance(1, 6) { ("", "") } else if g.chance(1, 6) { ("  ", "\t") } else { (" ", " ") };
    // without padding the content must not touch the markers ambiguously
    let (l, r) = if run.src.starts_with('=') || run.src.ends_with('=') { (" ", " ") } else { (l, r) };
    let src = format!("{}{}{}{}{}{}{}\n", blanks(g, ind), "=".repeat(lvl), l, run.src, r, "=".repeat(lvl), if g.chance(1, 8) { " " } else { "" });
    Blk { src, t: Tree::new("Header", vec![lvl.to_string(), (ind > 0).to_string()], run.out), k: "Header", ind }
}

pub fn para(g: &mut G, maxlines: usize) -> Blk {
    let mut n_k = 0usize;
    let mut src = String::new();
    let mut lines = vec![];
    let mut ind0 = 0;
    while g.more_small(&mut n_k, 1, maxlines) {
        let i = G::nth(n_k);
        let ind = if g.chance(1, 6) { g.range(1, if i == 0 { 3 } else { 8 }) } else { 0 };
        if i == 0 {
            ind0 = ind;
        }
        let cx = Cx { multiline: g.chance(1, 4), ..PARA };
        let run = inline_run(g, cx, &[], 0, 6);
        src.push_str(&format!("{}{}\n", blanks(g, ind), run.src));
        lines.push(Tree::new("Line", vec![], run.out));
    }
    Blk { src, t: Tree::new("Para", vec![], lines), k: "Para", ind: ind0 }
}

pub fn divider(g: &mut G) -> Blk {
    Blk { src: format!("{}\n", "-".repeat(g.range(4, 9))), t: Tree::new("Divider", vec![], vec![]), k: "Divider", ind: 0 }
}

pub const VALUES: &[&str] = &["My Title", "x", "日本語 page", "a & b <c>", "*t*", "é", "t %% not comment", "default.tpl", "50%", "trail ", "%title%", "%content%", "\"q\""];

/// the name of a placeholder that is none of the known ones and begins with none of these
fn other_name(g: &mut G) -> String {
    let n = match g.freq(&[4, 3, 2, 1]) {
        0 => g.s(&["other", "x", "日本", "my-key", "author", "Title", "toc"]).to_string(),
        1 => {
            // a part of a known name
            let k = g.s(&["title", "nohtml", "template", "date"]);
            let (i, j) = (g.below(k.len()), g.range(1, k.len()));
            format!("{}{}", &k[i.min(j - 1)..j.max(i.min(j - 1) + 1)], g.s(&["", "", "x", "X", "_", "-"]))
        }
        2 => g.s(&["DATE", "TITLE", "NOHTML", "Template", "a_title", "update", "no", "1", "-", "é", "root_path", "content", "[x]", "a:b", "<b>"]).to_string(),
        _ => g.anyword(5),
    };
    let known = ["title", "nohtml", "template", "date"].iter().any(|k| n.starts_with(k));
    if known || n.is_empty() || n.chars().any(|c| c.is_whitespace() || c.is_control() || c == '%') {
        "other".into()
    } else {
        n
    }
}

pub fn placeholder(g: &mut G) -> Blk {
    let (src, t) = match g.below(5) {
        0 => {
            let v = &*g.w(VALUES);
            (format!("%title{}{}", g.s(&[" ", "  ", "\t"]), v), Tree::leaf("Title", v))
        }
        1 => (format!("%nohtml{}", g.s(&["", " ", "  "])), Tree::new("NoHtml", vec![], vec![])),
        2 => {
            let v = &*g.w(VALUES);
            (format!("%template {}", v), Tree::leaf("Template", v))
        }
        3 => {
            let d = date(g);
            (format!("%date{}{}", g.s(&[" ", "  "]), d), Tree::leaf("Date", &d))
        }
        _ => {
            let n = other_name(g);
            let n = n.as_str();
            let v = &*g.w(VALUES);
            (format!("%{}{}{}", n, g.s(&[" ", "  ", "\t"]), v), Tree::new("Other", vec![n.into(), v.into()], vec![]))
        }
    };
    Blk { src: src + "\n", t, k: "Placeholder", ind: 0 }
}

const QLINES: &[&str] = &["quoted", "some *text* here", "日本語", "x", "a & <b>", "é trailing ", "`c`", "[[l|d]]", "%% c", "TODO", "&lt;", "\"q\""];
const QANY: &[&str] = &["- item", "= h =", "|a|b|", "{{{", "----", "%title x", "> nested", "1. n", "}}}", "a:: b"];

pub fn quote_indented(g: &mut G) -> Blk {
    let mut n_k = 0usize;
    let mut src = String::new();
    let mut l = vec![];
    let mut ind0 = 4;
    while g.more_small(&mut n_k, 1, 4) {
        let i = G::nth(n_k);
        let ind = g.range(4, 7);
        if i == 0 {
            ind0 = ind;
        }
        let t = if i > 0 && g.chance(1, 3) { g.s(QANY) } else { g.s(QLINES) };
        src.push_str(&format!("{}{}\n", blanks(g, ind), t));
        l.push(t.to_string());
    }
    Blk { src, t: Tree::new("Quote", l, vec![]), k: "QuoteI", ind: ind0 }
}

pub fn quote_arrow(g: &mut G, base: usize, blank_ok: bool) -> Blk {
    let mut n_k = 0usize;
    let mut src = String::new();
    let mut l = vec![];
    let mut ind0 = 0;
    while g.more_small(&mut n_k, 1, 4) {
        let i = G::nth(n_k);
        let ind = if base > 0 { base } else if i == 0 { g.small(0, 3) } else { g.small(0, 6) };
        if i == 0 {
            ind0 = ind;
        }
        if i > 0 && blank_ok && g.chance(1, 5) {
            for _ in 0..g.small(1, 2) {
                src.push_str(g.s(&["\n", "  \n"]));
                l.push(String::new());
            }
        }
        let t = if g.chance(1, 3) { g.s(QANY) } else if g.chance(1, 8) { "" } else { g.s(QLINES) };
        let t = if t.contains("::") { "a: b" } else { t };
        src.push_str(&format!("{}> {}\n", blanks(g, ind), t));
        l.push(t.to_string());
    }
    Blk { src, t: Tree::new("Quote", l, vec![]), k: "QuoteA", ind: ind0 }
}

const CLINES: &[&str] = &["fn main() {}", "let x = 1;", "  indented", "\ttabbed", "", "   ", "- item", "= h =", "|a|b|", "*b* `c`", "日本語", "}}} x", "{{{", "%% c", "<b>&amp;</b>", "    deep", "é", "}}", "\u{3000}wide", "  \u{3000}x", "a::b", "%title%", "trail  ", "> q", "</code></pre>", "}}$", "\u{a0} nb"];

fn fenced_lines(g: &mut G, strip: usize, base: usize, no_blank: bool, end: &str) -> (String, Vec<String>) {
    let mut src = String::new();
    let mut l = vec![];
    for _ in 0..g.small(0, 5) {
        let mut t = g.w(CLINES);
        if t.trim() == end || (no_blank && t.trim_matches(|c| c == ' ' || c == '\t').is_empty()) {
            t = "body".into();
        }
        let ind = if base > 0 { base + g.small(0, 3) } else { g.small(0, 4) };
        let ind = if base == 0 && g.coin() { strip } else { ind };
        let line = format!("{}{}", " ".repeat(ind), t);
        let ws = line.bytes().take_while(|b| *b == b' ' || *b == b'\t').count();
        l.push(line[ws.min(strip)..].to_string());
        src.push_str(&line);
        src.push('\n');
    }
    (src, l)
}

pub fn code(g: &mut G, base: usize) -> Blk {
    let s = if base > 0 { base } else if g.chance(1, 3) { g.range(1, 6) } else { 0 };
    let e = if base > 0 { base + g.small(0, 1) } else if g.chance(1, 3) { g.range(0, 6) } else { s };
    let lang = if g.coin() { Some(g.w(&["rust", "c++", "日本", "x", "objective-c", "<k>", "a\"b", "c#"])) } else { None };
    let mut m: Vec<(String, String)> = vec![];
    let mut ps = vec![];
    if g.chance(1, 3) {
        for _ in 0..g.small(1, 3) {
            let k = g.s(&["class", "style", "data-x", "é", "k", "K", "start"]).to_string();
            let v = g.w(&["", "a b", "v1", "日本", "x=y", "<i>", "it's", "color: red", "a&b"]);
            ps.push(format!("{}=\"{}\"", k, v));
            m.retain(|x| x.0 != k);
            m.push((k, v));
        }
    }
    m.sort();
    let mut first = "{{{".to_string();
    if let Some(l) = &lang {
        first.push_str(l);
        if !ps.is_empty() {
            first.push_str(g.s(&[" ", "  "]));
        }
    } else if !ps.is_empty() && g.coin() {
        first.push(' ');
    }
    first.push_str(&ps.join(g.s(&[" ", "  "])));
    if g.chance(1, 8) {
        first.push_str("  ");
    }
    let (body, lines) = fenced_lines(g, s.min(e), base, base > 0, "}}}");
    let src = format!("{}{}\n{}{}}}}}}}{}\n", " ".repeat(s), first, body, " ".repeat(e), if g.chance(1, 8) { "  " } else { "" });
    let t = Tree::new(
        "Code",
        vec![format!("{:?}", lang)],
        vec![Tree::new("Meta", m.into_iter().flat_map(|(k, v)| vec![k, v]).collect(), vec![]), Tree::new("Lines", lines, vec![])],
    );
    Blk { src, t, k: "Code", ind: s }
}

/// a block longer than 65 536 bytes
fn filling() -> Blk {
    let l = "text ".repeat(16) + "end";
    let n = 66_000 / l.len();
    let src = format!("{{{{{{\n{}}}}}}}\n", format!("{}\n", l).repeat(n));
    let t = Tree::new("Code", vec!["None".into()], vec![Tree::new("Meta", vec![], vec![]), Tree::new("Lines", vec![l; n], vec![])]);
    Blk { src, t, k: "Code", ind: 0 }
}

pub fn math(g: &mut G, base: usize) -> Blk {
    let s = if base > 0 { base } else if g.chance(1, 3) { g.range(1, 6) } else { 0 };
    let e = if base > 0 { base + g.small(0, 1) } else if g.chance(1, 3) { g.range(0, 6) } else { s };
    let env = if g.coin() { Some(g.w(&["align", "gather*", "x y", "日本", "a<b"])) } else { None };
    let (body, lines) = fenced_lines(g, s.min(e), base, base > 0, "}}$");
    let src = format!(
        "{}{{{{${}{}\n{}{}}}}}${}\n",
        " ".repeat(s),
        env.as_ref().map(|x| format!("%{}%", x)).unwrap_or_default(),
        if g.chance(1, 8) { "  " } else { "" },
        body,
        " ".repeat(e),
        if g.chance(1, 8) { "  " } else { "" }
    );
    Blk { src, t: Tree::new("Math", vec![format!("{:?}", env)], vec![Tree::new("Lines", lines, vec![])]), k: "Math", ind: s }
}

pub struct TableOpts {
    pub maxr: usize,
    pub maxc: usize,
    pub base: usize,
    pub nested: bool,
    pub ragged: bool,
}

/// base is the fixed indentation when nested
pub fn table(g: &mut G, o: TableOpts) -> Blk {
    // now and then many rows or columns
    let big = if o.nested || o.maxr < 4 || !g.chance(1, 60) { 0 } else { g.range(1, 2) };
    let o = TableOpts { maxr: if big == 1 { 28 } else { o.maxr }, maxc: if big == 2 { 14 } else { o.maxc }, ..o };
    let rows = g.range(1, o.maxr);
    let cols = g.range(1, o.maxc);
    let ragged = o.ragged && g.chance(1, 3);
    let mut src = String::new();
    let mut cells = vec![];
    let ind0 = if o.nested { o.base } else if g.chance(1, 4) { g.range(1, 6) } else { 0 };
    let mut any_content = false;
    for r in 0..rows {
        let n = if ragged { g.range(1, o.maxc) } else { cols };
        let align_row = g.chance(1, 6) && (r + 1 < rows || any_content);
        let ind = if r == 0 || o.nested { ind0 } else if g.chance(1, 6) { g.range(0, 6) } else { ind0 };
        let ind = if o.nested { ind } else { ind };
        src.push_str(&blanks(g, ind));
        src.push('|');
        for c in 0..n {
            let k = if align_row { 3 } else { g.freq(&[10, 2, 2, if c == 0 { 0 } else { 1 }]) };
            let last_chance = r + 1 == rows && !any_content && c == 0;
            let k = if last_chance { 0 } else { k };
            let (s, kind, ch) = match k {
                0 => {
                    if g.chance(1, 6) {
                        let t = g.s(&["-5", "--- x", ":a", " > 3", "\\/ z", " ", "  ", ":", ": -", "> >", "- -", ">x", "\\", "/", " :--- x", "-:-", "--x", " - ", "- ", " -", " --- ", ":- ", " -:"]);
                        // a cell of nothing but dashes and outer colons would be an alignment
                        let t = if t == ":" { "x:" } else { t };
                        (t.to_string(), "content", vec![Tree::leaf("Text", t)])
                    } else {
                        let pad = g.chance(3, 4);
                        let cx = Cx { trail: false, blank_after: pad, ..CELL };
                        let run = inline_run(g, cx, &[], 0, 3);
                        let mut ch = run.out;
                        let mut s = run.src;
                        if pad || run.closed {
                            s = format!(" {} ", s);
                            pad_edges(&mut ch);
                        }
                        (s, "content", ch)
                    }
                }
                1 => (g.s(&[">", " > ", "  >", ">  "]).to_string(), "left", vec![]),
                2 => (g.s(&["\\/", " \\/ ", "\\/ "]).to_string(), "above", vec![]),
                _ => {
                    let d = "-".repeat(g.range(1, 4));
                    match g.below(4) {
                        0 => (d, "align-none", vec![]),
                        1 => (format!(":{}", d), "align-left", vec![]),
                        2 => (format!("{}:", d), "align-right", vec![]),
                        _ => (format!(":{}:", d), "align-center", vec![]),
                    }
                }
            };
            if c == 0 && !kind.starts_with("align") {
                any_content = true;
            }
            src.push_str(&s);
            src.push('|');
            cells.push(Tree::new("Cell", vec![r.to_string(), c.to_string(), kind.to_string()], ch));
        }
        src.push('\n');
    }
    // style of alignment: a bare column without dashes counts as none, see the parser's grammar
    let centered = ind0 > 0 && !o.nested;
    Blk { src, t: Tree::new("Table", vec![centered.to_string()], cells), k: "Table", ind: ind0 }
}

/// adds one blank at both edges of an inline run (as part of text)
fn pad_edges(ch: &mut Vec<Tree>) {
    match ch.first_mut() {
        Some(t) if t.k == "Text" => t.s[0].insert(0, ' '),
        _ => ch.insert(0, Tree::leaf("Text", " ")),
    }
    match ch.last_mut() {
        Some(t) if t.k == "Text" => t.s[0].push(' '),
        Some(t) if t.k == "LineC" => t.s[0].push(' '),
        _ => ch.push(Tree::leaf("Text", " ")),
    }
}

/// what is defined, which may hold further pairs of colons
fn defined(g: &mut G) -> LineB {
    let mut d = inline_run(g, DEF, &[], 0, 4);
    if !d.closed && d.src.ends_with(|c: char| c.is_ascii_alphanumeric()) && d.out.last().map_or(false, |t| t.k == "Text") && g.chance(1, 5) {
        d.text(g.s(&["::", " ::", "::x", ":: x", " :: x"]));
    }
    d
}

pub fn deflist(g: &mut G, base: usize) -> Blk {
    let mut n_k = 0usize;
    let mut src = String::new();
    let mut items = vec![];
    while g.more_small(&mut n_k, 1, 4) {
        let run = inline_run(g, TERM, &[], 0, 3);
        let mut defs = vec![];
        src.push_str(&" ".repeat(base));
        src.push_str(&run.src);
        src.push_str("::");
        let inline_def = g.coin();
        if inline_def {
            let d = defined(g);
            src.push_str(g.s(&[" ", "  ", "\t"]));
            src.push_str(&d.src);
            defs.push(Tree::new("Def", vec![], d.out));
        }
        src.push('\n');
        let more = if inline_def { g.small(0, 3) } else { g.small(1, 3) };
        for _ in 0..more {
            let d = defined(g);
            let ind = if base > 0 { base } else if g.chance(1, 6) { g.range(1, 4) } else { 0 };
            src.push_str(&" ".repeat(ind));
            src.push_str("::");
            src.push_str(g.s(&[" ", "  "]));
            src.push_str(&d.src);
            src.push('\n');
            defs.push(Tree::new("Def", vec![], d.out));
        }
        items.push(Tree::new("TermDefs", vec![], vec![Tree::new("Term", vec![], run.out), Tree::new("Bundle", vec![], defs)]));
    }
    Blk { src, t: Tree::new("DefList", vec![], items), k: "DefList", ind: base }
}

pub fn marker(g: &mut G) -> (String, &'static str, &'static str) {
    let suf = |g: &mut G| *g.pick(&[(". ", "period"), (") ", "paren")]);
    match g.freq(&[6, 3, 4, 2, 2, 2, 2, 1]) {
        0 => ("- ".into(), "hyphen", "none"),
        1 => ("* ".into(), "asterisk", "none"),
        2 => {
            let s = suf(g);
            let n = if g.chance(1, 3) { (0..g.range(1, 24)).map(|_| g.s(&["1", "0", "2", "3", "4", "5", "6", "7", "8", "9"])).collect() } else { g.s(&["1", "2", "10", "007", "99"]).to_string() };
            (format!("{}{}", n, s.0), "number", s.1)
        }
        3 => {
            let s = suf(g);
            (format!("{}{}", letters(g, &["a", "b", "z", "aa", "da", "xa", "ivy", "code", "e", "mix", "dma"]), s.0), "lower", s.1)
        }
        4 => {
            let s = suf(g);
            (format!("{}{}", letters(g, &["A", "B", "Z", "AB", "DA", "XA", "IVY", "E", "CODE"]), s.0), "upper", s.1)
        }
        5 => {
            let s = suf(g);
            (format!("{}{}", g.s(&["i", "ii", "iv", "x", "c", "d", "m", "l", "xiv", "mcm"]), s.0), "lroman", s.1)
        }
        6 => {
            let s = suf(g);
            (format!("{}{}", g.s(&["I", "II", "IV", "X", "C", "D", "M", "L", "XIV"]), s.0), "uroman", s.1)
        }
        _ => ("# ".into(), "pound", "none"),
    }
}

fn letters(g: &mut G, xs: &[&str]) -> String {
    if g.chance(1, 3) {
        let a = xs[0].as_bytes()[0];
        let n = g.small(1, 9);
        (0..n).map(|_| (a + g.below(26) as u8) as char).collect()
    } else {
        g.s(xs).to_string()
    }
}

pub const TODOS: &[&str] = &[" ", ".", "o", "O", "X", "-"];

/// "mi" is lower-case letters that all are roman digits; classify by the rule in the docs
fn classify(m: &str, ty: &'static str) -> &'static str {
    let body: String = m.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
    match ty {
        "lower" if body.chars().all(|c| "ivxlcdm".contains(c)) => "lroman",
        "upper" if body.chars().all(|c| "IVXLCDM".contains(c)) => "uroman",
        t => t,
    }
}

pub fn list(g: &mut G, ind: usize, depth: usize, maxitems: usize) -> Blk {
    list_opts(g, ind, depth, maxitems, true)
}

pub fn list_opts(g: &mut G, ind: usize, depth: usize, maxitems: usize, rich: bool) -> Blk {
    let mut n_k = 0usize;
    let mut src = String::new();
    let mut items: Vec<Tree> = vec![];
    let mut ty0 = "";
    let mut suf0 = String::new();
    let same = g.chance(2, 3);
    let mut mk = marker(g);
    while g.more_small(&mut n_k, 1, maxitems) {
        let i = G::nth(n_k);
        if i > 0 && !same {
            mk = marker(g);
        }
        if i == 0 {
            ty0 = classify(&mk.0, mk.1);
            suf0 = mk.2.to_string();
        }
        // a suffix that does not fit the style of the list is that of the first item
        let suf = if (suf0 == "none") != (mk.2.to_string() == "none") { suf0.clone() } else { mk.2.to_string() };
        let todo = if g.chance(1, 3) { Some(*g.pick(TODOS)) } else { None };
        src.push_str(&blanks(g, ind));
        src.push_str(&mk.0);
        if let Some(t) = todo {
            src.push_str(&format!("[{}] ", t));
        }
        let mut contents = vec![];
        let mut last = "";
        // first content starts on the marker's line
        let fk = if rich { g.freq(&[12, 1, (i > 0) as usize, 1, 1]) } else { 0 };
        match fk {
            1 => {
                let b = table(g, TableOpts { maxr: 1, maxc: 3, base: 0, nested: true, ragged: false });
                src.push_str(&b.src);
                contents.push(b.t);
                last = "Table";
            }
            2 => {
                let run = inline_run(g, TERM, &[], 0, 2);
                let d = inline_run(g, DEF, &[], 0, 2);
                src.push_str(&format!("{}:: {}\n", run.src, d.src));
                contents.push(Tree::new(
                    "DefList",
                    vec![],
                    vec![Tree::new("TermDefs", vec![], vec![Tree::new("Term", vec![], run.out), Tree::new("Bundle", vec![], vec![Tree::new("Def", vec![], d.out)])])],
                ));
                last = "DefList";
            }
            3 => {
                let t = g.s(QLINES);
                src.push_str(&format!("> {}\n", t));
                contents.push(Tree::new("Quote", vec![t.to_string()], vec![]));
                last = "QuoteA";
            }
            4 => {
                let mut b = if g.chance(1, 4) { math(g, ind + 1) } else { code(g, ind + 1) };
                // opening fence directly after the marker: only the closing fence has an
                // indentation that can be removed
                let opened = b.src.trim_start().to_string();
                let body: Vec<String> = b.src.lines().skip(1).map(|l| l.to_string()).collect();
                let ws = |l: &str| l.bytes().take_while(|b| *b == b' ' || *b == b'\t').count();
                let strip = ws(body.last().unwrap());
                let n = b.t.c.len() - 1;
                b.t.c[n].s = body[..body.len() - 1].iter().map(|l| l[ws(l).min(strip)..].to_string()).collect();
                src.push_str(&opened);
                contents.push(b.t);
                last = "Code";
            }
            _ => {
                let mut lines_k = 0usize;
                let mut ls = vec![];
                while g.more_small(&mut lines_k, 1, 3) {
                    let j = G::nth(lines_k);
                    if j > 0 {
                        let w = ind + g.range(1, 5);
                        src.push_str(&" ".repeat(w));
                    } else {
                        let w = if g.chance(1, 8) { g.range(1, 3) } else { 0 };
                        src.push_str(&" ".repeat(w));
                    }
                    let run = inline_run(g, PARA, &[], 0, 4);
                    src.push_str(&run.src);
                    src.push('\n');
                    ls.push(Tree::new("Line", vec![], run.out));
                }
                contents.push(Tree::new("Para", vec![], ls));
                last = "Para";
            }
        }
        // further contents on following lines
        let mut cap = usize::MAX;
        let mut more_k = 0usize;
        while g.more_small(&mut more_k, 0, 3) {
            let hi = (ind + 4).min(cap);
            if hi <= ind {
                break;
            }
            let ci = g.range(ind + 1, hi);
            let k = g.freq(&[if depth > 1 { 6 } else { 0 }, 2, if rich { 2 } else { 0 }, if rich { 1 } else { 0 }, if rich { 1 } else { 0 }, if rich { 1 } else { 0 }, if rich { 1 } else { 0 }]);
            match k {
                0 if depth > 1 => {
                    if last == "List" && ci >= cap {
                        continue;
                    }
                    let b = list_opts(g, ci, depth - 1, 3, rich);
                    src.push_str(&b.src);
                    contents.push(b.t);
                    cap = ci;
                    last = "List";
                }
                1 if last != "Para" => {
                    let run = inline_run(g, PARA, &[], 0, 4);
                    src.push_str(&format!("{}{}\n", " ".repeat(ci), run.src));
                    contents.push(Tree::new("Para", vec![], vec![Tree::new("Line", vec![], run.out)]));
                    last = "Para";
                }
                2 if last != "Table" => {
                    let b = table(g, TableOpts { maxr: 3, maxc: 3, base: ci, nested: true, ragged: true });
                    src.push_str(&b.src);
                    contents.push(b.t);
                    last = "Table";
                }
                3 => {
                    let b = code(g, ci);
                    src.push_str(&b.src);
                    contents.push(b.t);
                    last = "Code";
                }
                4 => {
                    let b = math(g, ci);
                    src.push_str(&b.src);
                    contents.push(b.t);
                    last = "Math";
                }
                5 if last != "QuoteA" => {
                    let b = quote_arrow(g, ci, false);
                    src.push_str(&b.src);
                    contents.push(b.t);
                    last = "QuoteA";
                }
                6 if last != "DefList" => {
                    let b = deflist(g, ci);
                    src.push_str(&b.src);
                    contents.push(b.t);
                    last = "DefList";
                }
                _ => {}
            }
        }
        items.push(Tree::new("Item", vec![ty0.to_string(), suf, i.to_string(), todo.unwrap_or("none").to_string()], contents));
    }
    Blk { src, t: Tree::new("List", vec![], items), k: "List", ind }
}

// ---------------------------------------------------------------- documents

pub type Weights = [usize; 10];
pub const ALL: Weights = [4, 6, 2, 2, 1, 2, 2, 3, 3, 4];

pub fn block(g: &mut G, w: &Weights) -> Blk {
    match g.freq(w) {
        0 => header(g),
        1 => para(g, 3),
        2 => divider(g),
        3 => placeholder(g),
        4 => quote_indented(g),
        5 => quote_arrow(g, 0, true),
        6 => {
            if g.chance(2, 3) {
                code(g, 0)
            } else {
                math(g, 0)
            }
        }
        7 => table(g, TableOpts { maxr: 4, maxc: 4, base: 0, nested: false, ragged: true }),
        8 => deflist(g, 0),
        _ => {
            let ind = if g.chance(1, 6) { g.range(1, 3) } else { 0 };
            {
                let depth = if g.chance(1, 40) { 8 } else { 3 };
                list(g, ind, depth, 3)
            }
        }
    }
}

/// whether b may directly follow a without a blank line
fn abut(a: &Blk, b: &Blk) -> bool {
    match (a.k, b.k) {
        ("Para", "Para") | ("Para", "QuoteI") => false,
        ("Para", _) => true,
        ("Table", "Table") | ("DefList", "DefList") | ("QuoteI", "QuoteI") => false,
        ("QuoteA", "QuoteA") => false,
        ("QuoteI", _) => b.ind < 4,
        ("List", _) => b.ind == 0 && b.k != "List" && b.k != "QuoteI",
        _ => true,
    }
}

pub struct Doc {
    pub src: String,
    pub t: Tree,
    pub kinds: Vec<&'static str>,
}

pub fn doc(g: &mut G, w: &Weights, min: usize, max: usize) -> Doc {
    let mut n_k = 0usize;
    let mut src = String::new();
    let mut out: Vec<Tree> = vec![];
    let mut kinds = vec![];
    let mut prev: Option<Blk> = None;
    if g.chance(1, 10) {
        src.push_str(g.s(&["\n", "  \n", "\n\n"]));
    }
    // now and then many blocks, and once in a while so much text that places need more than 16 bits
    let max = if max >= 3 && g.chance(1, 60) { max * 6 } else { max };
    let filler = max >= 3 && g.chance(1, 2000);
    while g.more(&mut n_k, min, max) {
        let b = if filler && n_k == 1 { filling() } else { block(g, w) };
        if let Some(p) = &prev {
            // arrow quotes continue after blank lines
            if (p.k == "QuoteA" || p.k == "List") && b.k == "QuoteA" {
                continue;
            }
            if !abut(p, &b) || g.chance(2, 3) {
                for _ in 0..g.small(1, 3) {
                    src.push_str(if g.chance(1, 6) { g.s(&[" \n", "\t\n", "     \n"]) } else { "\n" });
                }
            }
        }
        src.push_str(&b.src);
        out.push(b.t.clone());
        kinds.push(b.k);
        prev = Some(b);
    }
    if g.chance(1, 4) {
        if src.ends_with('\n') {
            src.pop();
        }
    } else if g.chance(1, 6) {
        src.push_str("\n  \n");
    }
    Doc { src, t: Tree::new("Page", vec![], out), kinds }
}

// ---------------------------------------------------------------- unstructured text

pub const FRAGS: &[&str] = &[
    "\n", " ", "\n\n", "  ", "a", "*", "_", "~~", "^", ",,", "`", "$", "[[", "]]", "{{", "}}", "|", "%%", "%%+", "+%%", "=", "==", "- ", "* ", "# ", "1. ", "a) ", "i. ", "::", ":: ", ":", ":t:", "> ", "    ", "----", "{{{", "}}}", "{{$", "}}$", "%title ", "%date ", "%nohtml", "%template ", "TODO", "https://x.y", "mailto:a", "diary:2020-01-01", "wiki1:", "wn.x:", "#", "#a#b", "é", "日本", "🦀", "\u{3000}", "\u{a0}", "\u{2028}", "\r\n", "\r", "\t", "[ ] ", "[X] ", "k=\"v\"", "\\/", ">", "|--|", "|:-:|", "word", "B c", "x.y", "%", "\0", "\u{7f}", "\"", "<b>", "&", "'", "\\", "|a|b|\n", "- x\n", "= h =\n", "{{{\n", "}}}\n", "%%+ c\n", "\u{feff}", "a\u{301}", "(", ")", "\u{0b}", "\u{0c}", "\u{85}", "-", "--", "http:", "[[a|b]]", "{{i|d|k=\"v\"}}", "`c`", "*b*", "%E6", "%zz", "file:///a b", "0", "{", "}", "[", "]",
];

pub fn soup(g: &mut G, max: usize) -> String {
    let mut n_k = 0usize;
    let mut s = String::new();
    while g.more(&mut n_k, 1, max) {
        s.push_str(g.s(FRAGS));
    }
    s
}

/// Either structured, unstructured or a structured text with random damage
pub fn any_text(g: &mut G) -> String {
    match g.freq(&[4, 3, 3]) {
        0 => soup(g, 24),
        1 => doc(g, &ALL, 1, 4).src,
        _ => {
            let s = doc(g, &ALL, 1, 3).src;
            let mut cs: Vec<char> = s.chars().collect();
            for _ in 0..g.small(1, 5) {
                let n = cs.len();
                if n == 0 {
                    break;
                }
                let i = g.below(n);
                match g.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => {
                        let f: Vec<char> = g.s(FRAGS).chars().collect();
                        for (k, c) in f.into_iter().enumerate() {
                            cs.insert(i + k, c);
                        }
                    }
                    2 => {
                        let j = (i + g.range(1, 8)).min(n);
                        cs.drain(i..j);
                    }
                    _ => {
                        let j = (i + g.range(1, 10)).min(n);
                        let part: Vec<char> = cs[i..j].to_vec();
                        for (k, c) in part.into_iter().enumerate() {
                            cs.insert(j + k, c);
                        }
                    }
                }
            }
            let mut t: String = cs.into_iter().collect();
            if g.chance(1, 4) {
                t = t.replace('\n', "\r\n");
            }
            t
        }
    }
}
