//! P19, P20: tables as grids, numbering and progress of lists
use super::parse::parse;
use crate::engine::*;
use crate::gen;
use crate::norm;
use std::collections::BTreeMap;
use vimwiki::*;

// ---------------------------------------------------------------- P19

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    C(usize),
    L,
    A,
    Al(ColumnAlign),
}

type Grid = BTreeMap<(usize, usize), K>;

fn cell(k: K) -> Cell<'static> {
    match k {
        K::C(n) => Cell::Content(InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from(format!("c{}", n))))])),
        K::L => Cell::Span(CellSpan::FromLeft),
        K::A => Cell::Span(CellSpan::FromAbove),
        K::Al(a) => Cell::Align(a),
    }
}

fn kind(c: &Cell) -> K {
    match c {
        Cell::Content(x) => K::C(x.to_string().trim_start_matches('c').parse().unwrap_or(usize::MAX)),
        Cell::Span(CellSpan::FromLeft) => K::L,
        Cell::Span(CellSpan::FromAbove) => K::A,
        Cell::Align(a) => K::Al(*a),
    }
}

fn grid(g: &mut G) -> Grid {
    let mut m = Grid::new();
    let (rows, cols) = (g.small(1, 7), g.small(1, 6));
    let sparse = g.chance(1, 2);
    let mut n = 0;
    let mut r = 0;
    for _ in 0..rows {
        if sparse && g.chance(1, 8) {
            r += 1;
        }
        let w = if g.chance(1, 3) { g.range(0, cols) } else { cols };
        if g.chance(1, 5) {
            // a row of alignments has its first cell
            for c in 0..w.max(1) {
                if c == 0 || !sparse || !g.chance(1, 4) {
                    m.insert((r, c), K::Al(*g.pick(&[ColumnAlign::None, ColumnAlign::Left, ColumnAlign::Center, ColumnAlign::Right])));
                }
            }
        } else {
            for c in 0..w {
                if sparse && g.chance(1, 4) {
                    continue;
                }
                n += 1;
                m.insert((r, c), match g.freq(&[5, 2, 2]) {
                    0 => K::C(n),
                    1 => K::L,
                    _ => K::A,
                });
            }
        }
        r += 1;
    }
    m
}

fn show_grid(m: &Grid) -> String {
    m.iter().map(|((r, c), k)| format!("{},{}={:?}", r, c, k)).collect::<Vec<_>>().join(" ")
}

/// walks an iterator over cells, checking what it reports before every step
fn walk<'t, T, I: CellIter<T>>(what: &str, mut it: I, view: impl Fn(&T) -> K) -> Result<Vec<((usize, usize), K)>, Fail> {
    let mut v: Vec<((usize, usize), K)> = vec![];
    let mut hints = vec![];
    loop {
        hints.push(it.size_hint());
        let (r, c) = (it.row(), it.col());
        match it.next_with_pos() {
            Some((p, x)) => {
                if (p.row, p.col) != (r, c) {
                    return fail("position", format!("{}: announced {},{} and returned {},{}", what, r, c, p.row, p.col));
                }
                v.push(((p.row, p.col), view(&x)));
            }
            None => break,
        }
        if v.len() > 1000 {
            return fail("endless", what);
        }
    }
    if it.next().is_some() {
        return fail("fused", format!("{} goes on after its end", what));
    }
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = v.len() - i;
        if *lo > left || hi.map_or(false, |h| h < left) {
            return fail("size-hint", format!("{}: {}..{:?} for {} cells", what, lo, hi, left));
        }
    }
    Ok(v)
}

fn must<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), Fail> {
    if got == want {
        Ok(())
    } else {
        fail(what.split(' ').next().unwrap(), format!("{} is {:?} instead of {:?}", what, got, want))
    }
}

fn check_grid(m: &Grid, t: &Table) -> Result<(), Fail> {
    let all: Vec<((usize, usize), K)> = m.iter().map(|(p, k)| (*p, *k)).collect();
    let rows = m.keys().map(|p| p.0 + 1).max().unwrap_or(0);
    let cols = m.keys().map(|p| p.1 + 1).max().unwrap_or(0);
    let of_row = |r: usize| -> Vec<((usize, usize), K)> { all.iter().filter(|x| (x.0).0 == r).copied().collect() };
    let of_col = |c: usize| -> Vec<((usize, usize), K)> { all.iter().filter(|x| (x.0).1 == c).copied().collect() };
    let content = |v: &[((usize, usize), K)]| v.iter().any(|x| matches!(x.1, K::C(_)));
    must("row_cnt", t.row_cnt(), rows)?;
    must("col_cnt", t.col_cnt(), cols)?;
    must("len", t.len(), m.len())?;
    must("is_empty", t.is_empty(), m.is_empty())?;
    must("as_data", t.as_data().len(), m.len())?;
    let r = |x: &&Located<Cell>| kind(x.as_inner());
    fn o(x: &Located<Cell>) -> K {
        kind(x.as_inner())
    }
    must("cells", walk("cells", t.cells(), r)?, all.clone())?;
    must("into_cells", walk("into_cells", t.clone().into_cells(), o)?, all.clone())?;
    must("cells().has_content", t.cells().has_content(), content(&all))?;
    must("into_cells().has_content", t.clone().into_cells().has_content(), content(&all))?;
    must("zip_with_position", t.cells().zip_with_position().map(|(p, c)| ((p.row, p.col), kind(c.as_inner()))).collect::<Vec<_>>(), all.clone())?;
    must("children", t.clone().into_children().len(), all.iter().filter(|x| matches!(x.1, K::C(_))).count())?;
    let mut by_ref: Vec<((usize, usize), K)> = t.into_iter().map(|(p, c)| ((p.row, p.col), kind(c.as_inner()))).collect();
    by_ref.sort_by_key(|x| x.0);
    must("into_iter", by_ref, all.clone())?;
    // one beyond the end, too
    for i in 0..rows + 2 {
        let want = of_row(i);
        must(&format!("row {}", i), walk("row", t.row(i), r)?, want.clone())?;
        must(&format!("into_row {}", i), walk("into_row", t.clone().into_row(i), o)?, want.clone())?;
        must(&format!("row({}).has_content", i), t.row(i).has_content(), content(&want))?;
        must(&format!("into_row({}).has_content", i), t.clone().into_row(i).has_content(), content(&want))?;
        must(&format!("row({}).is_divider_row", i), t.row(i).is_divider_row(), matches!(m.get(&(i, 0)), Some(K::Al(_))))?;
        must(&format!("into_row({}).is_divider_row", i), t.clone().into_row(i).is_divider_row(), matches!(m.get(&(i, 0)), Some(K::Al(_))))?;
        // what is left of a row that was partly walked
        let mut it = t.row(i);
        for k in 0..want.len() {
            it.next();
            must(&format!("row({}) left.has_content", i), it.has_content(), content(&want[k + 1..]))?;
        }
    }
    for i in 0..cols + 2 {
        let want = of_col(i);
        must(&format!("column {}", i), walk("column", t.column(i), r)?, want.clone())?;
        must(&format!("into_column {}", i), walk("into_column", t.clone().into_column(i), o)?, want.clone())?;
        must(&format!("column({}).has_content", i), t.column(i).has_content(), content(&want))?;
        must(&format!("into_column({}).has_content", i), t.clone().into_column(i).has_content(), content(&want))?;
        let align = want.iter().find_map(|x| if let K::Al(a) = x.1 { Some(a) } else { None }).unwrap_or(ColumnAlign::None);
        must(&format!("get_column_alignment({})", i), t.get_column_alignment(i), align)?;
    }
    let get_rows = |it: &mut dyn Iterator<Item = iter_row::Row<'_, '_>>| -> Result<Vec<Vec<((usize, usize), K)>>, Fail> {
        let mut v = vec![];
        for x in it {
            v.push(walk("row of table", x, r)?);
        }
        Ok(v)
    };
    let all_rows: Vec<_> = (0..rows).map(of_row).collect();
    must("rows", get_rows(&mut t.rows())?, all_rows.clone())?;
    must("rows().has_content", t.rows().has_content(), content(&all))?;
    must("rows().size_hint", t.rows().size_hint(), (rows, Some(rows)))?;
    let mut cs = vec![];
    for x in t.columns() {
        cs.push(walk("column of table", x, r)?);
    }
    must("columns", cs, (0..cols).map(of_col).collect::<Vec<_>>())?;
    must("columns().has_content", t.columns().has_content(), content(&all))?;
    must("columns().size_hint", t.columns().size_hint(), (cols, Some(cols)))?;
    // header and body
    let is_div = |i: usize| matches!(m.get(&(i, 0)), Some(K::Al(_)));
    let div = (0..rows).find(|i| is_div(*i));
    must("get_divider_row_index", t.get_divider_row_index(), div)?;
    must("has_divider_row", t.has_divider_row(), div.is_some())?;
    let head: Vec<usize> = (0..div.unwrap_or(0)).collect();
    let body: Vec<usize> = (div.map_or(0, |d| d + 1)..rows).filter(|i| !is_div(*i)).collect();
    must("header_rows", get_rows(&mut t.header_rows())?, head.iter().map(|i| of_row(*i)).collect::<Vec<_>>())?;
    must("body_rows", get_rows(&mut t.body_rows())?, body.iter().map(|i| of_row(*i)).collect::<Vec<_>>())?;
    must("has_header_rows", t.has_header_rows(), !head.is_empty())?;
    must("has_body_rows", t.has_body_rows(), !body.is_empty())?;
    must("header_rows().has_content", t.header_rows().has_content(), head.iter().any(|i| content(&of_row(*i))))?;
    must("body_rows().has_content", t.body_rows().has_content(), body.iter().any(|i| content(&of_row(*i))))?;
    must("header_rows().size_hint", t.header_rows().size_hint(), (head.len(), Some(head.len())))?;
    must("body_rows().size_hint", t.body_rows().size_hint(), (body.len(), Some(body.len())))?;
    // what is left of each iterator after some steps
    macro_rules! left {
        ($what:expr, $it:expr, $want:expr) => {{
            let want: Vec<bool> = $want;
            let mut it = $it;
            for k in 0..=want.len() {
                must(&format!("{} has_content after {}", $what, k), it.has_content(), want[k..].iter().any(|x| *x))?;
                let (lo, hi) = it.size_hint();
                let n = want.len() - k;
                must(&format!("{} size_hint {}..{:?} of {}", $what, lo, hi, n), lo <= n && hi.map_or(true, |h| h >= n), true)?;
                it.next();
            }
        }};
    }
    let has = |v: &[((usize, usize), K)]| -> Vec<bool> { v.iter().map(|x| matches!(x.1, K::C(_))).collect() };
    left!("cells", t.cells(), has(&all));
    left!("into_cells", t.clone().into_cells(), has(&all));
    left!("rows", t.rows(), (0..rows).map(|i| content(&of_row(i))).collect());
    left!("columns", t.columns(), (0..cols).map(|i| content(&of_col(i))).collect());
    left!("header_rows", t.header_rows(), head.iter().map(|i| content(&of_row(*i))).collect());
    left!("body_rows", t.body_rows(), body.iter().map(|i| content(&of_row(*i))).collect());
    for i in 0..rows {
        left!("row", t.row(i), has(&of_row(i)));
        left!("into_row", t.clone().into_row(i), has(&of_row(i)));
    }
    for i in 0..cols {
        left!("column", t.column(i), has(&of_col(i)));
        left!("into_column", t.clone().into_column(i), has(&of_col(i)));
    }
    must("Rows::empty", (iter_row::Rows::empty(t).next().is_none(), iter_row::Rows::empty(t).has_content()), (true, false))?;
    must("Columns::empty", (iter_row::Columns::empty(t).next().is_none(), iter_row::Columns::empty(t).has_content()), (true, false))?;
    for i in 0..rows + 1 {
        for j in 0..cols + 1 {
            let k = m.get(&(i, j));
            must(&format!("get_cell({},{})", i, j), t.get_cell(i, j).map(|c| kind(c.as_inner())), k.copied())?;
            if let Some(c) = t.get_cell(i, j) {
                let c = c.as_inner();
                must("get_content", (c.get_content().is_some(), c.is_content()), (matches!(k, Some(K::C(_))), matches!(k, Some(K::C(_)))))?;
                must("get_span", (c.get_span().is_some(), c.is_span()), (matches!(k, Some(K::L) | Some(K::A)), matches!(k, Some(K::L) | Some(K::A))))?;
                must("get_align", (c.get_align().is_some(), c.is_align()), (matches!(k, Some(K::Al(_))), matches!(k, Some(K::Al(_)))))?;
            }
            let (mut rs, mut cspan) = (0, 0);
            if let Some(K::C(_)) = k {
                rs = 1;
                while m.get(&(i + rs, j)) == Some(&K::A) {
                    rs += 1;
                }
                cspan = 1;
                while m.get(&(i, j + cspan)) == Some(&K::L) {
                    cspan += 1;
                }
            }
            must(&format!("get_cell_rowspan({},{})", i, j), t.get_cell_rowspan(i, j), rs)?;
            must(&format!("get_cell_colspan({},{})", i, j), t.get_cell_colspan(i, j), cspan)?;
            // changing one cell changes nothing else
            if k.is_some() {
                let mut u = t.clone();
                *u.get_mut_cell(i, j).unwrap() = Located::from(cell(K::C(777)));
                for (p, x) in &all {
                    let want = if *p == (i, j) { K::C(777) } else { *x };
                    must("get_mut_cell", u.get_cell(p.0, p.1).map(|c| kind(c.as_inner())), Some(want))?;
                }
            }
        }
    }
    for (p, _) in &all {
        let pos = CellPos { row: p.0, col: p.1 };
        must("CellPos", pos.to_string().parse::<CellPos>().ok(), Some(pos))?;
        must("CellPos with blanks", format!(" {} , {} ", p.0, p.1).parse::<CellPos>().ok(), Some(pos))?;
    }
    Ok(())
}

mod iter_row {
    pub use vimwiki::{Columns, Row, Rows};
}

fn p19(g: &mut G) -> Case {
    if g.chance(1, 4) {
        // the same for a table that was parsed
        let src = gen::table(g, gen::TableOpts { maxr: 5, maxc: 5, base: 0, nested: false, ragged: true }).src;
        let out = (|| {
            let p = parse(&src)?;
            for e in &p.elements {
                if let BlockElement::Table(t) = e.as_inner() {
                    let mut m = Grid::new();
                    let mut plain = t.clone().into_owned();
                    for (i, (pos, _)) in t.as_data().iter().enumerate() {
                        // contents are replaced by numbers so that they can be told apart
                        let k = match t.as_data()[pos].as_inner() {
                            Cell::Content(_) => K::C(i),
                            x => kind(x),
                        };
                        *plain.get_mut_cell(pos.row, pos.col).unwrap() = Located::from(cell(k));
                        m.insert((pos.row, pos.col), k);
                    }
                    guard("table", || check_grid(&m, &plain))??;
                    return Ok(m.len());
                }
            }
            Ok(0)
        })();
        return Case { text: src, nontrivial: matches!(out, Ok(n) if n >= 3), labels: vec!["parsed".into()], out: out.map(|_| ()) };
    }
    let m = grid(g);
    // the order in which cells are given does not matter
    let mut cells: Vec<(CellPos, Located<Cell>)> = m.iter().map(|((row, col), k)| (CellPos { row: *row, col: *col }, Located::from(cell(*k)))).collect();
    let plain = Table::new(cells.clone(), false);
    for i in (1..cells.len()).rev() {
        let j = g.below(i + 1);
        cells.swap(i, j);
    }
    let t = Table::new(cells, false);
    let out = guard("table", || {
        must("order of cells: eq", t == plain, true)?;
        must("order of cells: strict_eq", t.strict_eq(&plain), true)?;
        check_grid(&m, &t)
    })
    .and_then(|x| x);
    let holes = {
        let rows = m.keys().map(|p| p.0 + 1).max().unwrap_or(0);
        let cols = m.keys().map(|p| p.1 + 1).max().unwrap_or(0);
        rows * cols != m.len()
    };
    let mut labels = vec![if holes { "holes" } else { "complete" }.to_string()];
    if m.values().any(|k| matches!(k, K::Al(_))) {
        labels.push("divider".into());
    }
    Case { text: show_grid(&m), nontrivial: m.len() >= 3, labels, out }
}

/// explicit grids: "row,col=kind" with kinds C(n), L, A and Al(side)
fn p19_text(s: &str) -> Result<(), Fail> {
    let mut m = Grid::new();
    for x in s.split(' ').filter(|x| !x.is_empty()) {
        let (p, k) = x.split_once('=').expect("cell");
        let (r, c) = p.split_once(',').expect("position");
        let k = match k {
            "L" => K::L,
            "A" => K::A,
            "Al(Left)" => K::Al(ColumnAlign::Left),
            "Al(Center)" => K::Al(ColumnAlign::Center),
            "Al(Right)" => K::Al(ColumnAlign::Right),
            "Al(None)" => K::Al(ColumnAlign::None),
            k => K::C(k.trim_matches(|c: char| !c.is_ascii_digit()).parse().expect("content")),
        };
        m.insert((r.parse().unwrap(), c.parse().unwrap()), k);
    }
    let t = Table::new(m.iter().map(|((row, col), k)| (CellPos { row: *row, col: *col }, Located::from(cell(*k)))), false);
    guard("table", || check_grid(&m, &t))?
}

// ---------------------------------------------------------------- P20

fn letters(pos: usize) -> String {
    // the number of markers with fewer letters comes first
    let mut len = 1;
    let mut first: u128 = 0;
    let mut count: u128 = 26;
    while pos as u128 >= first + count {
        first += count;
        count *= 26;
        len += 1;
    }
    let mut rest = pos as u128 - first;
    let mut v = vec![b'a'; len];
    for i in (0..len).rev() {
        v[i] = b'a' + (rest % 26) as u8;
        rest /= 26;
    }
    String::from_utf8(v).unwrap()
}

/// value of a roman numeral, by the rule that a smaller digit in front of a larger one is subtracted
fn roman_value(s: &str) -> Option<usize> {
    let d: Option<Vec<usize>> = s
        .chars()
        .map(|c| Some(match c {
            'i' => 1,
            'v' => 5,
            'x' => 10,
            'l' => 50,
            'c' => 100,
            'd' => 500,
            'm' => 1000,
            _ => return None,
        }))
        .collect();
    let d = d?;
    let mut sum = 0;
    for i in 0..d.len() {
        if i + 1 < d.len() && d[i] < d[i + 1] {
            sum = (sum as isize - d[i] as isize) as usize;
        } else {
            sum = sum.wrapping_add(d[i]);
        }
    }
    Some(sum)
}

/// canonical: the only way to write its value
fn roman(n: usize) -> String {
    let mut s = "m".repeat(n / 1000);
    let digit = |n: usize, one: &str, five: &str, ten: &str| match n {
        0 => String::new(),
        1..=3 => one.repeat(n),
        4 => format!("{}{}", one, five),
        5..=8 => format!("{}{}", five, one.repeat(n - 5)),
        _ => format!("{}{}", one, ten),
    };
    s.push_str(&digit(n / 100 % 10, "c", "d", "m"));
    s.push_str(&digit(n / 10 % 10, "x", "l", "c"));
    s.push_str(&digit(n % 10, "i", "v", "x"));
    s
}

const STYLES: &[OrderedListItemType] = &[
    OrderedListItemType::Number,
    OrderedListItemType::Pound,
    OrderedListItemType::LowercaseAlphabet,
    OrderedListItemType::UppercaseAlphabet,
    OrderedListItemType::LowercaseRoman,
    OrderedListItemType::UppercaseRoman,
];

fn marker(style: usize, pos: usize) -> Result<(), Fail> {
    let ty = STYLES[style];
    for (suffix, sc) in [(ListItemSuffix::Period, "."), (ListItemSuffix::Paren, ")"), (ListItemSuffix::None, "")] {
        let want = format!(
            "{}{}",
            match style {
                0 => (pos as u128 + 1).to_string(),
                1 => "#".into(),
                2 => letters(pos),
                3 => letters(pos).to_uppercase(),
                4 => roman(pos + 1),
                _ => roman(pos + 1).to_uppercase(),
            },
            sc
        );
        let item = ListItem::new(ListItemType::from(ty), suffix, pos, ListItemContents::default(), ListItemAttributes::default());
        let got = guard("to_prefix", || item.to_prefix())?;
        must("marker", got.as_str(), want.as_str())?;
        if style >= 4 {
            must("value", roman_value(&want.trim_end_matches(&['.', ')'][..]).to_lowercase()), Some(pos + 1))?;
        }
        // the printed marker is read as the same style again
        if style != 1 && sc.is_empty() || style == 1 && !sc.is_empty() || want.len() > 60 {
            continue;
        }
        let line = format!("{} x\n", got);
        let p = parse(&line)?;
        let t = norm::page(&p);
        let first = match t.c.first() {
            Some(l) if l.k == "List" && l.c.len() == 1 => l.c[0].clone(),
            _ => return fail("not-a-list", format!("{:?} is read as {}", got, t.plain())),
        };
        let stem = want.trim_end_matches(&['.', ')'][..]).to_lowercase();
        let is_roman = stem.chars().all(|c| "ivxlcdm".contains(c));
        let name = match style {
            0 => "number",
            1 => "pound",
            2 if !is_roman => "lower",
            3 if !is_roman => "upper",
            2 | 4 => "lroman",
            _ => "uroman",
        };
        // letters that all occur in numerals are read as one or as letters, depending on the first item of their list
        let ok = first.s[0] == name || style < 4 && is_roman && (first.s[0] == "lower" || first.s[0] == "upper");
        if !ok {
            return fail("style", format!("{:?} is read as {} instead of {}", got, first.s[0], name));
        }
    }
    Ok(())
}

struct Item {
    todo: usize,
    kids: Vec<Vec<Item>>,
    other: bool,
}

const STATES: &[Option<ListItemTodoStatus>] = &[
    None,
    Some(ListItemTodoStatus::Incomplete),
    Some(ListItemTodoStatus::PartiallyComplete1),
    Some(ListItemTodoStatus::PartiallyComplete2),
    Some(ListItemTodoStatus::PartiallyComplete3),
    Some(ListItemTodoStatus::Complete),
    Some(ListItemTodoStatus::Rejected),
];

fn item(g: &mut G, depth: usize) -> Item {
    let mut kids = vec![];
    if depth > 0 {
        for _ in 0..g.freq(&[4, 4, 1]) {
            let mut v = vec![];
            let mut k = 0;
            while g.more(&mut k, 1, 4) {
                v.push(item(g, depth - 1));
            }
            kids.push(v);
        }
    }
    Item { todo: g.below(7), kids, other: g.chance(1, 3) }
}

fn build(i: &Item) -> ListItem<'static> {
    let para = || Located::from(BlockElement::Paragraph(Paragraph::new(vec![InlineElementContainer::new(vec![Located::from(InlineElement::Text(Text::from("x")))])])));
    let mut c: Vec<Located<BlockElement>> = vec![para()];
    for l in &i.kids {
        if i.other {
            c.push(para());
        }
        c.push(Located::from(BlockElement::List(List::new(l.iter().map(|x| Located::from(build(x))).collect()))));
    }
    if i.other {
        c.push(para());
    }
    ListItem::new(ListItemType::default(), ListItemSuffix::None, 0, ListItemContents::new(c), ListItemAttributes { todo_status: STATES[i.todo] })
}

fn progress(i: &Item) -> Option<f64> {
    let v: Vec<f64> = i.kids.iter().flatten().filter_map(progress).collect();
    if !v.is_empty() {
        return Some(v.iter().sum::<f64>() / v.len() as f64);
    }
    [None, Some(0.0), Some(0.25), Some(0.5), Some(0.75), Some(1.0), None][i.todo]
}

fn check_progress(i: &Item) -> Result<(), Fail> {
    let li = build(i);
    let got = guard("compute_todo_progress", || li.compute_todo_progress())?;
    let want = progress(i);
    let ok = match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => (a as f64 - b).abs() < 1e-4,
        _ => false,
    };
    if !ok {
        return fail("progress", format!("{:?} instead of {:?}", got, want));
    }
    if let Some(x) = got {
        if !(0.0..=1.0001).contains(&x) {
            return fail("progress", format!("{} is no part of one", x));
        }
    }
    for k in i.kids.iter().flatten() {
        check_progress(k)?;
    }
    Ok(())
}

fn item_src(i: &Item, ind: usize, o: &mut String) {
    let box_ = ["", "[ ] ", "[.] ", "[o] ", "[O] ", "[X] ", "[-] "][i.todo];
    o.push_str(&format!("{}- {}x\n", " ".repeat(ind), box_));
    for l in &i.kids {
        for k in l {
            item_src(k, ind + 2, o);
        }
    }
}

/// the same tree written down and parsed; several lists next to each other become one
fn check_parsed(i: &Item, src: &str) -> Result<(), Fail> {
    let p = parse(src)?;
    let l = match p.elements.first().map(|e| e.as_inner()) {
        Some(BlockElement::List(l)) if p.elements.len() == 1 && l.len() == 1 => l,
        _ => return fail("parse", "not one item"),
    };
    let got = l.items[0].compute_todo_progress();
    let want = progress(i);
    match (got, want) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if (a as f64 - b).abs() < 1e-4 => Ok(()),
        _ => fail("progress", format!("{:?} instead of {:?}", got, want)),
    }
}

fn p20(g: &mut G) -> Case {
    if g.chance(1, 3) {
        let style = g.below(STYLES.len());
        let hi = if style >= 4 { 70000 } else { usize::MAX - 1 };
        let pos = match g.freq(&[4, 3, 2, 1]) {
            0 => g.below(60),
            1 => g.below(4200),
            2 => *g.pick(&[25, 26, 51, 52, 675, 676, 701, 702, 703, 18277, 18278, 18279, 475253, 475254, 32766, 32767, 32768, 65535, 65536, 3998, 3999, u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, 10737418239, 1 << 40, usize::MAX - 1]),
            _ => (g.below(1 << 31) << 31 | g.below(1 << 31)) >> g.below(60),
        }
        .min(hi);
        let out = marker(style, pos);
        return Case { text: format!("{:?} {}", STYLES[style], pos), nontrivial: pos > 1, labels: vec!["marker".into()], out };
    }
    let i = item(g, 4);
    let mut src = String::new();
    item_src(&i, 0, &mut src);
    let out = check_progress(&i).and_then(|_| check_parsed(&i, &src));
    fn n(i: &Item) -> usize {
        1 + i.kids.iter().flatten().map(n).sum::<usize>()
    }
    Case { nontrivial: n(&i) >= 4 && progress(&i).is_some(), text: src, labels: vec!["progress".into()], out }
}

fn p20_text(s: &str) -> Result<(), Fail> {
    let (a, b) = s.split_once(' ').expect("style and position");
    marker(STYLES.iter().position(|x| format!("{:?}", x) == a).expect("style"), b.trim().parse().expect("position"))
}

pub static PROPS: &[Prop] = &[
    Prop { id: "P19", rule: "the grid has at least three cells", quick: 500000, thorough: 4000000, case: p19, text: Some(p19_text), assumptions: &["alignments are in rows whose first cell is an alignment"], threads: 8, batch: None },
    Prop { id: "P20", rule: "the position is above one, or a tree of at least four items has a progress", quick: 90000, thorough: 800000, case: p20, text: Some(p20_text), assumptions: &["roman numerals up to position 70000"], threads: 8, batch: None },
];
