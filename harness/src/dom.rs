//! A strict reader for the HTML fragments that vimwiki writes, and normal forms of them
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El { tag: String, attrs: Vec<(String, String)>, kids: Vec<Node> },
    Text(String),
    Comment(String),
}
use Node::*;

pub fn el(tag: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node {
    El { tag: tag.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids }
}

const ENTITIES: &[(&str, &str)] = &[("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#x27;", "'"), ("&#39;", "'"), ("&apos;", "'"), ("&#x60;", "`"), ("&#96;", "`"), ("&#x2F;", "/")];

/// Decodes character references; anything else that starts with & is an error unless lenient
pub fn unescape(s: &str, lenient: bool) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        match ENTITIES.iter().find(|(e, _)| rest.starts_with(e)) {
            Some((e, c)) => {
                o.push_str(c);
                rest = &rest[e.len()..];
            }
            None if lenient => {
                o.push('&');
                rest = &rest[1..];
            }
            None => return Err(format!("unescaped & before {:?}", rest.chars().take(20).collect::<String>())),
        }
    }
    o.push_str(rest);
    Ok(o)
}

/// Tags vimwiki may write. Anything else came from the text of the document.
const TAGS: &[&str] = &["p", "div", "h1", "h2", "h3", "h4", "h5", "h6", "a", "img", "ul", "ol", "li", "dl", "dt", "dd", "hr", "br", "blockquote", "pre", "code", "span", "table", "thead", "tbody", "tr", "th", "td", "strong", "em", "del", "sup", "sub", "small", "t"];
const VOID: &[&str] = &["br", "hr", "img"];

fn near(s: &str) -> String {
    s.chars().take(40).collect()
}

/// Reads a fragment. Errors for whatever is not closed, quoted or escaped properly.
pub fn read(html: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![(String::new(), vec![], vec![])];
    let mut s = html;
    while !s.is_empty() {
        if let Some(rest) = s.strip_prefix("<!--") {
            if rest.starts_with('>') || rest.starts_with("->") {
                return Err(format!("comment ends early at {:?}", near(s)));
            }
            let end = ["-->", "--!>"].iter().filter_map(|e| rest.find(e).map(|i| (i, e.len()))).min().ok_or_else(|| format!("comment not closed at {:?}", near(s)))?;
            stack.last_mut().unwrap().2.push(Comment(rest[..end.0].to_string()));
            s = &rest[end.0 + end.1..];
        } else if let Some(rest) = s.strip_prefix("</") {
            let e = rest.find('>').ok_or("unterminated end tag")?;
            let (tag, attrs, kids) = stack.pop().unwrap();
            if stack.is_empty() || tag != rest[..e] {
                return Err(format!("</{}> closes <{}>", near(&rest[..e]), tag));
            }
            stack.last_mut().unwrap().2.push(El { tag, attrs, kids });
            s = &rest[e + 1..];
        } else if let Some(rest) = s.strip_prefix('<') {
            let e = rest.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(rest.len());
            let tag = rest[..e].to_string();
            if !TAGS.contains(&tag.as_str()) {
                return Err(format!("tag that vimwiki does not write at {:?}", near(s)));
            }
            let mut rest = &rest[e..];
            let mut attrs = vec![];
            let void = loop {
                if let Some(r) = rest.strip_prefix('>') {
                    rest = r;
                    break false;
                }
                if let Some(r) = rest.strip_prefix(" />") {
                    rest = r;
                    break true;
                }
                let r = rest.strip_prefix(' ').ok_or_else(|| format!("malformed tag <{} at {:?}", tag, near(rest)))?;
                let eq = r.find('=').ok_or_else(|| format!("malformed attribute at {:?}", near(r)))?;
                let name = &r[..eq];
                if name.is_empty() || name.contains(|c: char| c.is_whitespace() || c.is_control() || "\"'<>/".contains(c)) {
                    return Err(format!("malformed attribute name {:?}", name));
                }
                if attrs.iter().any(|(k, _): &(String, String)| k.eq_ignore_ascii_case(name)) {
                    return Err(format!("attribute {:?} twice", name));
                }
                let r = r[eq + 1..].strip_prefix('"').ok_or_else(|| format!("unquoted attribute at {:?}", near(r)))?;
                let q = r.find('"').ok_or_else(|| format!("unterminated attribute at {:?}", near(r)))?;
                let v = &r[..q];
                if v.contains(&['<', '>'][..]) {
                    return Err(format!("unescaped attribute value {:?}", near(v)));
                }
                // addresses are written as they are
                let v = if (tag == "a" && name == "href" && !v.starts_with('#') || tag == "img" && name == "src") {
                    if v.contains(|c: char| c.is_whitespace() || c.is_control() || !c.is_ascii()) {
                        return Err(format!("address {:?} is no reference", v));
                    }
                    v.to_string()
                } else {
                    unescape(v, tag == "a" && name == "href")?
                };
                attrs.push((unescape(name, false)?, v));
                rest = &r[q + 1..];
            };
            if void != VOID.contains(&tag.as_str()) {
                return Err(format!("<{}> closed in the wrong way", tag));
            }
            if void {
                stack.last_mut().unwrap().2.push(El { tag, attrs, kids: vec![] });
            } else {
                stack.push((tag, attrs, vec![]));
            }
            s = rest;
        } else {
            let e = s.find('<').unwrap_or(s.len());
            let t = &s[..e];
            if t.contains('>') {
                return Err(format!("unescaped > in {:?}", near(t)));
            }
            // the text of a link without a description is its address, written as it is
            let top = stack.last_mut().unwrap();
            let t = if top.0 == "a" && top.1.first().map_or(false, |(k, v)| k == "href" && v == t) { t.to_string() } else { unescape(t, false)? };
            match top.2.last_mut() {
                Some(Text(x)) => x.push_str(&t),
                _ => top.2.push(Text(t)),
            }
            s = &s[e..];
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().0));
    }
    Ok(stack.pop().unwrap().2)
}

pub fn text(n: &[Node]) -> String {
    let mut o = String::new();
    for x in n {
        match x {
            Text(t) => o.push_str(t),
            El { kids, .. } => o.push_str(&text(kids)),
            Comment(_) => {}
        }
    }
    o
}

/// all elements in document order
pub fn walk<'a>(n: &'a [Node], f: &mut dyn FnMut(&'a str, &'a [(String, String)], &'a [Node])) {
    for x in n {
        if let El { tag, attrs, kids } = x {
            f(tag, attrs, kids);
            walk(kids, f);
        }
    }
}

pub fn attr<'a>(attrs: &'a [(String, String)], k: &str) -> Option<&'a str> {
    attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
}

pub fn drop_comments(n: Vec<Node>) -> Vec<Node> {
    n.into_iter()
        .filter_map(|x| match x {
            Comment(_) => None,
            El { tag, attrs, kids } => Some(El { tag, attrs, kids: drop_comments(kids) }),
            t => Some(t),
        })
        .collect()
}

fn collapse(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if matches!(c, ' ' | '\t' | '\n' | '\r') {
            if !o.ends_with(' ') {
                o.push(' ');
            }
        } else {
            o.push(c);
        }
    }
    o
}

const STRUCT: &[&str] = &["", "dl", "ul", "ol", "table", "thead", "tbody", "tr", "li", "div"];
const EDGES: &[&str] = &["p", "td", "th", "dt", "dd", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote"];

/// What a reader sees: identifiers (and what exists only to carry them) are removed, white
/// space is collapsed outside of code
pub fn norm(n: Vec<Node>) -> Vec<Node> {
    norm_in("", n)
}

fn norm_in(parent: &str, n: Vec<Node>) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    let mut push = |x: Node| match (out.last_mut(), x) {
        (Some(Text(a)), Text(b)) => a.push_str(&b),
        (_, x) => out.push(x),
    };
    for x in n {
        match x {
            El { tag, mut attrs, kids } => {
                if tag == "pre" {
                    let t = text(&kids);
                    if attr(&attrs, "style").is_some() {
                        // highlighted on the server: only the text is prescribed
                        push(el("pre", &[("highlighted", "")], vec![Text(t.trim_matches('\n').to_string())]));
                    } else {
                        push(El { tag, attrs, kids });
                    }
                    continue;
                }
                if matches!(tag.as_str(), "div" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "strong" | "span") {
                    attrs.retain(|(k, _)| k != "id");
                }
                let mut kids = norm_in(&tag, kids);
                if tag == "span" && attrs.is_empty() && kids.is_empty() {
                    continue;
                }
                if tag == "div" && attrs.is_empty() {
                    kids.into_iter().for_each(&mut push);
                    continue;
                }
                if tag.starts_with('h') && tag.len() == 2 && kids.len() == 1 {
                    if let El { tag: a, attrs: at, kids: k } = &kids[0] {
                        if a == "a" && at.len() == 1 && at[0].0 == "href" && at[0].1.starts_with('#') && attr(&attrs, "class") == Some("header") {
                            kids = norm_in(&tag, k.clone());
                        }
                    }
                }
                push(El { tag, attrs, kids });
            }
            Text(t) => push(Text(t)),
            Comment(t) => push(Comment(t.replace("&gt;", ">").split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n"))),
        }
    }
    for x in out.iter_mut() {
        if let Text(t) = x {
            *t = collapse(t);
            if STRUCT.contains(&parent) {
                *t = t.trim_matches(' ').to_string();
            }
        }
    }
    if EDGES.contains(&parent) {
        if let Some(Text(t)) = out.first_mut() {
            *t = t.trim_start_matches(' ').to_string();
        }
        if let Some(Text(t)) = out.last_mut() {
            *t = t.trim_end_matches(' ').to_string();
        }
    }
    out.retain(|x| !matches!(x, Text(t) if t.is_empty()));
    if parent == "blockquote" && out.iter().any(|x| matches!(x, El { .. })) {
        out.retain(|x| !matches!(x, Text(t) if t == " "));
    }
    out
}

fn one(n: &Node) -> String {
    match n {
        El { tag, attrs, kids } => format!("<{} {:?}> with {} nodes", tag, attrs, kids.len()),
        x => format!("{:?}", x),
    }
}

pub fn diff(a: &[Node], b: &[Node], path: &str) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        match (x, y) {
            (El { tag: t1, attrs: a1, kids: k1 }, El { tag: t2, attrs: a2, kids: k2 }) if t1 == t2 => {
                let sorted = |a: &Vec<(String, String)>| {
                    let mut a = a.clone();
                    a.sort();
                    a
                };
                if sorted(a1) != sorted(a2) {
                    return Some(format!("at {}/{}[{}]: expected attributes {:?}, got {:?}", path, t1, i, a1, a2));
                }
                if let Some(d) = diff(k1, k2, &format!("{}/{}[{}]", path, t1, i)) {
                    return Some(d);
                }
            }
            (x, y) if x == y => {}
            _ => return Some(format!("at {}[{}]: expected {}, got {}", path, i, one(x), one(y))),
        }
    }
    if a.len() != b.len() {
        return Some(format!("at {}: expected {} nodes, got {}: expected {:?}, got {:?}", path, a.len(), b.len(), a.iter().map(one).collect::<Vec<_>>(), b.iter().map(one).collect::<Vec<_>>()));
    }
    None
}
