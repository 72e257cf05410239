//! P10, P11: writing a page back as vimwiki text
use super::parse::parse;
use crate::engine::*;
use crate::gen;
use crate::norm::{self, Tree};

use vimwiki::*;

pub fn config(g: &mut G) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    if g.chance(1, 3) {
        return c;
    }
    if g.chance(1, 2) {
        c.page.indent_str = g.s(&[" ", "  ", "   ", "\t", "        "]).to_string();
    }
    c.page.separate_block_elements = !g.chance(1, 3);
    c.blockquote.prefer_indented_blockquote = g.chance(1, 3);
    c.blockquote.trim_lines = !g.chance(1, 3);
    c.comment.no_padding = g.chance(1, 3);
    // untrimmed content with padding is written with ever more padding by design
    c.comment.trim_content = !(c.comment.no_padding && g.chance(1, 2));
    c.definition_list.term_on_line_by_itself = g.chance(1, 3);
    c.definition_list.trim_terms = !g.chance(1, 3);
    c.definition_list.trim_definitions = !g.chance(1, 3);
    c.header.no_padding = g.chance(1, 3);
    c.header.trim_content = !(c.header.no_padding && g.chance(1, 2));
    c.paragraph.trim_lines = !g.chance(1, 3);
    c.table.no_padding = g.chance(1, 3);
    c
}

pub fn show_config(c: &VimwikiConfig) -> String {
    let d = serde_json::to_value(VimwikiConfig::default()).unwrap();
    let v = serde_json::to_value(c).unwrap();
    let mut o = vec![];
    for (k, s) in v.as_object().unwrap() {
        for (f, x) in s.as_object().unwrap() {
            if &d[k][f] != x {
                o.push(format!("{}.{}={}", k, f, x));
            }
        }
    }
    if o.is_empty() {
        "defaults".into()
    } else {
        o.join(" ")
    }
}

fn blank(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\r'
}

/// What formatting may change: blanks at the edges of lines, cells, terms and comments
pub fn canon(t: &Tree) -> Tree {
    let mut t = t.clone();
    t.r = None;
    match t.k {
        "Quote" => {
            t.s.iter_mut().for_each(|l| *l = l.trim_matches(blank).to_string());
        }
        "LineC" => t.s[0] = t.s[0].trim().to_string(),
        "MultiC" => {
            t.s.iter_mut().for_each(|l| *l = l.trim().to_string());
            while t.s.last().map_or(false, |l| l.is_empty()) {
                t.s.pop();
            }
        }
        "Link" => {
            // a missing description and an empty one in front of properties are the same
        }
        _ => {}
    }
    t.c = t.c.iter().map(canon).collect();
    if t.k == "Page" {
        // neighbouring quotes are joined when written with arrows (the tests of the project
        // prescribe this)
        let mut o: Vec<Tree> = vec![];
        for c in std::mem::take(&mut t.c) {
            match o.last_mut() {
                Some(l) if l.k == "Quote" && c.k == "Quote" => {
                    l.s.push(String::new());
                    l.s.extend(c.s);
                }
                _ => o.push(c),
            }
        }
        t.c = o;
    }
    if matches!(t.k, "Line" | "Header" | "Term" | "Def" | "Cell") {
        trim_edges(&mut t.c);
    }
    t
}

fn trim_edges(c: &mut Vec<Tree>) {
    if let Some(f) = c.first_mut() {
        if f.k == "Text" {
            f.s[0] = f.s[0].trim_start_matches(blank).to_string();
        }
    }
    if let Some(f) = c.last_mut() {
        if f.k == "Text" {
            f.s[0] = f.s[0].trim_end_matches(blank).to_string();
        }
    }
    c.retain(|x| x.k != "Text" || !x.s[0].is_empty());
}

pub fn format(p: &Page, c: &VimwikiConfig) -> Result<String, Fail> {
    let r = guard("formatter", || p.to_vimwiki_string(c.clone()))?;
    r.or_else(|e| fail("format-error", format!("{:?}", e)))
}

pub fn preserves(src: &str, c: &VimwikiConfig) -> Result<(), Fail> {
    let p = parse(src)?;
    let out = format(&p, c)?;
    let p2 = parse(&out)?;
    let (a, b) = (canon(&norm::page(&p)), canon(&norm::page(&p2)));
    match a.diff(&b) {
        None => Ok(()),
        Some(d) => fail("changed", format!("{}\n--- formatted\n{}\n--- was\n{}--- is\n{}", d, out, a.show(), b.show())),
    }
}

pub fn fixed_point(src: &str, c: &VimwikiConfig) -> Result<(), Fail> {
    let p = parse(src)?;
    // neighbouring quotes are joined by the first formatting only, see canon
    if p.elements.windows(2).any(|w| w.iter().all(|e| matches!(e.as_inner(), BlockElement::Blockquote(_)))) {
        return Ok(());
    }
    let one = format(&p, c)?;
    if format(&p, c)? != one || format(&parse(src)?, c)? != one || format(&p.clone().into_owned(), c)? != one {
        return fail("nondeterministic", "the same document was written in two ways");
    }
    let two = format(&parse(&one)?, c)?;
    if one != two {
        return fail("fixed-point", format!("--- first\n{}\n--- second\n{}", one, two));
    }
    Ok(())
}

/// explicit inputs are `document` or `document U+0001 config as JSON`
fn split(s: &str) -> (String, VimwikiConfig) {
    let mut it = s.splitn(2, '\u{1}');
    let src = it.next().unwrap().to_string();
    let c = it.next().map(|j| serde_json::from_str(j).expect("config")).unwrap_or_default();
    (src, c)
}

pub fn p10_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    preserves(&s, &c)
}

pub fn p11_text(s: &str) -> Result<(), Fail> {
    let (s, c) = split(s);
    fixed_point(&s, &c)
}

fn todo_chars(src: &str) -> Result<(), Fail> {
    let p = parse(src)?;
    let d = format(&p, &VimwikiConfig::default())?;
    let mut c = VimwikiConfig::default();
    c.list.todo.incomplete_char = '\u{e000}';
    c.list.todo.partially_complete_1_char = '\u{e001}';
    c.list.todo.partially_complete_2_char = '\u{e002}';
    c.list.todo.partially_complete_3_char = '\u{e003}';
    c.list.todo.complete_char = '\u{e004}';
    c.list.todo.rejected_char = '\u{e005}';
    let mut o = format(&p, &c)?;
    for (a, b) in [('\u{e000}', ' '), ('\u{e001}', '.'), ('\u{e002}', 'o'), ('\u{e003}', 'O'), ('\u{e004}', 'X'), ('\u{e005}', '-')] {
        o = o.replace(a, &b.to_string());
    }
    if o != d {
        return fail("todo-chars", format!("other todo characters change more than the todo characters\n--- with defaults\n{}\n--- with others, replaced back\n{}", d, o));
    }
    Ok(())
}

fn case(g: &mut G) -> (String, VimwikiConfig, Vec<String>, bool) {
    let c = config(g);
    let d = gen::doc(g, &gen::ALL, 1, 6);
    let mut labels: Vec<String> = d.kinds.iter().map(|k| k.to_string()).collect();
    labels.push(if show_config(&c) == "defaults" { "default-config".into() } else { "other-config".into() });
    labels.sort();
    labels.dedup();
    let nt = d.t.count() >= 5;
    (d.src, c, labels, nt)
}

fn p10(g: &mut G) -> Case {
    let (src, c, labels, nontrivial) = case(g);
    let out = preserves(&src, &c).and_then(|_| todo_chars(&src));
    Case { text: format!("# {}\n{}", show_config(&c), src), nontrivial, labels, out }
}

fn p11(g: &mut G) -> Case {
    let (src, c, labels, nontrivial) = case(g);
    let out = fixed_point(&src, &c);
    Case { text: format!("# {}\n{}", show_config(&c), src), nontrivial, labels, out }
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P10", rule: "the document has at least five nodes", quick: 40000, thorough: 2000000, case: p10, text: Some(p10_text), assumptions: &["documents of the generated grammar", "indentation strings consist of at least one blank", "untrimmed headers and comments are only combined with no padding"], threads: 8, batch: None },
    Prop { id: "P11", rule: "the document has at least five nodes", quick: 40000, thorough: 2000000, case: p11, text: Some(p11_text), assumptions: &["as for P10"], threads: 8, batch: None },
];
