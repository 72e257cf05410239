//! P38: how the time taken grows with a page
use super::parse::parse;
use crate::engine::*;
use crate::gen;
use vimwiki::*;

/// A page that can be made in any size
#[derive(Clone, Debug)]
enum Shape {
    /// pieces one after another
    Row(Vec<String>),
    /// lines, each indented further than the one before by as many blanks
    Stairs(usize, Vec<String>),
    /// what is opened n times is closed n times
    Nest(String, String, String),
    /// lines that go down and up again in indentation
    Waves(usize, usize, Vec<String>),
}

fn make(s: &Shape, n: usize) -> String {
    let at = |v: &Vec<String>, i: usize| v[i % v.len()].clone();
    match s {
        Shape::Row(v) => (0..n).map(|i| at(v, i)).collect(),
        Shape::Stairs(by, v) => (0..n).map(|i| format!("{}{}\n", " ".repeat(by * i), at(v, i))).collect(),
        Shape::Nest(a, x, b) => format!("{}{}{}", a.repeat(n), x, b.repeat(n)),
        Shape::Waves(by, len, v) => (0..n).map(|i| format!("{}{}\n", " ".repeat(by * (i % len)), at(v, i))).collect(),
    }
}

const LINES: &[&str] = &["- a", "* a", "# a", "1. a", "a) b", "I. c", "- [ ] a", "- [X] a", "- b\\n", "- *a*", "- a::", "- a:: b", ":: b", "a:: b", "|a|", "- |a|", "> a", "- > a", "{{{", "}}}", "- {{{", "{{$", "}}$", "= a =", "----", "a", "a [[b]]", "- %%+ a", "+%%", "%% a", "- ----"];
const OPEN: &[(&str, &str)] = &[("*", "*"), ("_", "_"), ("~~", "~~"), ("^", "^"), (",,", ",,"), ("*_", "_*"), ("_*", "*_"), ("*_~~", "~~_*"), ("_~~*", "*~~_"), ("[[", "]]"), ("{{", "}}"), ("{{a|", "}}"), ("[[a|", "]]"), ("[[a|{{", "}}]]"), ("`", "`"), ("$", "$"), ("%%+", "+%%"), ("{{{", "}}}"), ("|", "|"), (":", ":"), ("*a _", "_ a*"), ("*a", "a*"), ("_a ", " a_"), ("*a ", ""), ("_a *b ", ""), ("~~a *b _c ", ""), (",,a ^b ", "")];

fn shape(g: &mut G) -> Shape {
    let mut frag = |g: &mut G| {
        let mut s = String::new();
        for _ in 0..g.range(1, 4) {
            let x = match g.below(4) {
                0 => g.s(LINES),
                1 => g.pick(OPEN).0,
                _ => g.s(gen::FRAGS),
            };
            s.push_str(x);
        }
        s
    };
    match g.below(4) {
        0 => {
            let n = g.range(1, 3);
            let mut v: Vec<String> = (0..n).map(|_| frag(g)).collect();
            if g.coin() {
                v = v.into_iter().map(|x| format!("{}\n", x)).collect();
            }
            Shape::Row(v)
        }
        1 => {
            let n = g.range(1, 3);
            let by = g.range(1, 3);
            Shape::Stairs(by, (0..n).map(|_| if g.chance(1, 4) { frag(g).replace('\n', " ") } else { g.s(LINES).to_string() }).collect())
        }
        2 => {
            let mut v: Vec<(&str, &str)> = (0..g.range(1, 3)).map(|_| *g.pick(OPEN)).collect();
            let sep = g.s(&["", "", " ", "a", "a ", "\n"]);
            let a: String = v.iter().map(|x| format!("{}{}", x.0, sep)).collect();
            v.reverse();
            let b: String = if g.chance(1, 4) { String::new() } else { v.iter().map(|x| format!("{}{}", sep, x.1)).collect() };
            Shape::Nest(a, g.s(&["a", "", "a b", "`c`", "[[a]]", "\n"]).to_string(), b)
        }
        _ => {
            let n = g.range(1, 3);
            let by = g.range(1, 3);
            let len = g.range(2, 12);
            Shape::Waves(by, len, (0..n).map(|_| g.s(LINES).to_string()).collect())
        }
    }
}

fn measure(what: &str, size: usize, src: &str, f: impl FnOnce() -> Result<(), Fail>) -> Result<f64, Fail> {
    let a = thread_time();
    f()?;
    let t = thread_time() - a;
    if std::env::var("VH_TIMES").is_ok() && t > 0.1 {
        println!("{:.3} {} {} {:?}", t, what, size, src.chars().take(60).collect::<String>());
    }
    if t > LIMIT {
        return fail(what, format!("{} of a page of {} bytes takes more than {} s of processor time", what, size, LIMIT));
    }
    Ok(t)
}

const LIMIT: f64 = 4.0;
const SIZE: usize = 1200;

fn grow(s: &Shape) -> Result<usize, (String, Fail)> {
    let mut n = 3;
    loop {
        let src = make(s, n);
        if src.len() > SIZE || n > SIZE {
            return Ok(n);
        }
        let r = (|| {
            measure("parsing", src.len(), &src, || parse(&src).map(|_| ()))?;
            let p = parse(&src)?;
            measure("formatting", src.len(), &src, || guard("format", || p.to_vimwiki_string(Default::default())).map(|_| ()))?;
            measure("rendering", src.len(), &src, || guard("html", || p.to_html_string(Default::default())).map(|_| ()))?;
            Ok(())
        })();
        if let Err(f) = r {
            return Err((src, f));
        }
        n += 1 + n / 4;
    }
}

fn p38(g: &mut G) -> Case {
    let s = shape(g);
    let s2 = s.clone();
    match in_stack(STACK, move || grow(&s2)) {
        Ok(n) => Case { text: make(&s, 3), nontrivial: n > 12, labels: vec![], out: Ok(()) },
        Err((src, f)) => Case { text: src, nontrivial: true, labels: vec![], out: Err(f) },
    }
}

/// the stack that a program has on its main thread
const STACK: usize = 8 << 20;

fn p38_text(s: &str) -> Result<(), Fail> {
    let s = s.to_string();
    in_stack(STACK, move || p38_check(&s))
}

fn p38_check(s: &str) -> Result<(), Fail> {
    measure("parsing", s.len(), s, || parse(s).map(|_| ()))?;
    let p = parse(s)?;
    measure("formatting", s.len(), s, || guard("format", || p.to_vimwiki_string(Default::default())).map(|_| ()))?;
    measure("rendering", s.len(), s, || guard("html", || p.to_html_string(Default::default())).map(|_| ()))?;
    Ok(())
}

pub static PROPS: &[Prop] = &[Prop { id: "P38", rule: "the page was grown at least twelvefold", quick: 400, thorough: 20000, case: p38, text: Some(p38_text), assumptions: &["processor time of one thread, at least a hundred times what is usual"], threads: 8, batch: None }];
