//! C15-C19, C22: every template up to a bound, compiled with the macros of the
//! tree under test.
use crate::core::*;
use crate::extra::{self, tx};
use crate::model::*;
use crate::shard::{self, Case, In};
use crate::template::{Gap::*, *};

/// Every sequence of `k` choices out of `n`.
fn product(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                (0..n).map(move |i| {
                    let mut v = v.clone();
                    v.push(i);
                    v
                })
            })
            .collect();
    }
    out
}

fn balanced(b: &Body) -> bool {
    let mut st = Vec::new();
    for (_, it) in &b.items {
        if let It::T(s, _) = it {
            match s.as_str() {
                "(" => st.push(")"),
                "{" => st.push("}"),
                "[" => st.push("]"),
                ")" | "}" | "]" => {
                    if st.pop() != Some(s.as_str()) {
                        return false;
                    }
                }
                _ => {}
            }
        }
    }
    st.is_empty()
}

fn a() -> Body {
    one(tok("a"))
}

/// One of every kind of thing that can stand in a template.
fn kinds() -> Vec<It> {
    let t = |s: &str, x: &str| It::T(s.into(), x.into());
    vec![
        tok("a"),
        tok(";"),
        It::Var,
        It::Ev("e".into(), "E".into()),
        tok("("),
        tok(")"),
        tok("+"),
        quoted("q"),
        t("$(\"li\")", "li"),
        tok("'c'"),
        tok("1.5"),
        tok("'lt"),
        t("$$", "$"),
        t("$(1 + 1)", "2"),
        t("$[str](s t)", &quoted_text("s t", false)),
        It::Ctl(' '),
        It::Ctl('\r'),
        It::Ctl('\n'),
        tok("{"),
        tok("}"),
        tok("["),
        tok("]"),
        It::Ops("$(\"\")".into(), vec![]),
        It::Ops("$(None::<u8>)".into(), vec![]),
        It::If(Cond::B, Form::Arrow, a(), None),
        It::If(Cond::B, Form::Brace, a().rows(4, 0), Some(one(tok("z")).rows(4, 0))),
        It::For(Form::Arrow, None, one(It::Var)),
        It::For(Form::Brace, Some(one(tok(",")).sens()), one(It::Var).rows(6, 2)),
        It::Match(vec![(Form::Paren, body(vec![(Adj, tok("k"))]).sens().pad(Some(Sp(1)), None)), (Form::Brace, a())], false),
        It::Let("L".into()),
        It::Scope(Form::Brace, "S".into()),
        It::ScopeNone("u".into()),
    ]
}

fn mk(items: Vec<(Gap, It)>) -> Option<Body> {
    let b = body(items);
    (balanced(&b) && lexes(&b)).then_some(b)
}

/// Templates and what they cover.
type Space = (Vec<Case>, Vec<String>);

pub fn decide(o: &Opts, id: &str, (cases, bounds): Space) -> Stats {
    let mut seen = std::collections::HashSet::new();
    let cases: Vec<Case> = cases.into_iter().filter(|c| seen.insert(c.key.clone())).collect();
    let n = cases.len() as u64;
    let rej = cases.iter().filter(|c| matches!(c.want, shard::Want::Reject)).count() as u64;
    let mut st = shard::run(o, id, cases);
    st.bump("templates", n);
    st.bump("templates_rejected", rej);
    st.bounds.extend(bounds);
    st
}

/// The templates of the other properties, with a compiler which does not tell
/// the macros about rows.
pub fn c24(o: &Opts) -> Stats {
    NO_ROWS.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut all = Vec::new();
    let mut bounds = Vec::new();
    let mut spaces: Vec<(&str, fn(&Opts) -> Space)> = vec![("C15", c15_cases), ("C17", c17_cases), ("C19", c19_cases)];
    if o.thorough() {
        spaces.extend([("C16", c16_cases as fn(&Opts) -> Space), ("C18", c18_cases), ("C22", c22_cases)]);
    }
    // The bounds of the quick tier: what differs is the reading of positions.
    let q = Opts { tier: Tier::Quick, seed: o.seed, only: None };
    for (id, f) in spaces {
        let (cases, b) = f(&q);
        // Whether a string is on one row cannot be told.
        all.extend(cases.into_iter().filter(|c| !c.key.starts_with("rows: ")));
        bounds.extend(b.into_iter().map(|b| format!("as in {id}: {b}")));
    }
    decide(o, "C24", (all, bounds))
}

const S8: Style = Style::Rows(8);

pub fn c15(o: &Opts) -> Stats {
    decide(o, "C15", c15_cases(o))
}

fn c15_cases(o: &Opts) -> Space {
    let ks = kinds();
    let mut cases = Vec::new();
    // Pairs of everything, every gap, every way to write the template down.
    let gaps = [Adj, Sp(1), Sp(3), Row(0, 0), Row(1, 0), Row(3, 0), Row(0, 1), Row(0, 4), Row(1, 4)];
    let styles: &[Style] = if o.thorough() {
        &[S8, Style::Rows(0), Style::Rows(41), Style::Rows(252), Style::Rows(65533), Style::Tabs(2), Style::Comments(8), Style::Odd(8), Style::Inline]
    } else {
        &[S8, Style::Inline]
    };
    for x in &ks {
        for &st in styles {
            if let Some(b) = mk(vec![(Row(0, 0), x.clone())]) {
                cases.push(case("", b, st, &QUOTE, 2));
            }
        }
        for y in &ks {
            for g in gaps {
                if let Some(b) = mk(vec![(Row(0, 0), x.clone()), (g, y.clone())]) {
                    for &st in styles {
                        cases.push(case("", b.clone(), st, &QUOTE, 2));
                    }
                }
            }
        }
    }
    if !o.thorough() {
        for st in [Style::Rows(0), Style::Rows(41), Style::Rows(252), Style::Tabs(2), Style::Comments(8), Style::Odd(8)] {
            for x in [0usize, 2, 3, 7, 14, 24, 27, 30] {
                for y in [0usize, 2, 3, 7, 14, 24, 27, 30] {
                    for g in gaps {
                        if let Some(b) = mk(vec![(Row(0, 0), ks[x].clone()), (g, ks[y].clone())]) {
                            cases.push(case("", b, st, &QUOTE, 2));
                        }
                    }
                }
            }
        }
    }
    // Longer sequences.
    let runs: &[(usize, &[usize], &[Gap])] = if o.thorough() {
        &[
            (3, &[0, 1, 2, 3, 4, 5, 7, 8, 12, 14, 15, 16, 17, 24, 25, 27, 29, 30], &[Adj, Sp(2), Row(0, 0), Row(1, 0), Row(0, 3), Row(1, 3), Row(0, 6)]),
            (4, &[0, 2, 3, 4, 5], &[Adj, Sp(1), Row(0, 0), Row(1, 0), Row(0, 3), Row(2, 3)]),
            (5, &[0, 4, 5], &[Adj, Row(0, 0), Row(0, 3), Row(1, 3), Row(0, 5)]),
        ]
    } else {
        &[
            (3, &[0, 2, 3, 4, 5, 14, 25, 27], &[Adj, Sp(2), Row(0, 0), Row(1, 0), Row(0, 3), Row(1, 3)]),
            (4, &[0, 4, 5], &[Adj, Sp(1), Row(0, 0), Row(1, 0), Row(0, 3)]),
        ]
    };
    for (k, pool, gaps) in runs {
        for c in product(pool.len(), *k) {
            let seq: Vec<It> = c.iter().map(|i| ks[pool[*i]].clone()).collect();
            if !balanced(&body(seq.iter().map(|s| (Adj, s.clone())).collect())) {
                continue;
            }
            for g in product(gaps.len(), k - 1) {
                let items = seq
                    .iter()
                    .enumerate()
                    .map(|(i, it)| (if i == 0 { Row(0, 0) } else { gaps[g[i - 1]] }, it.clone()))
                    .collect();
                if let Some(b) = mk(items) {
                    let c = case("", b, S8, &QUOTE, 1);
                    if matches!(c.want, shard::Want::Runs(_)) {
                        cases.push(c);
                    }
                }
            }
        }
    }
    // Far to the right, and large steps.
    for cols in product(5, 3) {
        let at = [0usize, 4, 256, 260, 65536];
        let rows = |k: usize| -> Vec<(Gap, It)> {
            cols.iter().enumerate().map(|(i, c)| (Row(i % 2, at[*c]), if (i + k) % 2 == 0 { tok("a") } else { It::Var })).collect()
        };
        for k in 0..2 {
            let c = case("", body(rows(k)), S8, &QUOTE, 1);
            if matches!(c.want, shard::Want::Runs(_)) {
                cases.push(c);
            }
        }
    }
    // Rows: columns and blank rows, with something before and after on a row.
    let (rows, cols) = o.pick((4, 3), (6, 3));
    for c in product(cols * 2, rows - 1) {
        let mut items = vec![(Row(0, 0), tok("a"))];
        for (i, v) in c.iter().enumerate() {
            items.push((Row((v / cols) * (i + 1), (v % cols) * 2), if i % 2 == 0 { It::Var } else { tok("c") }));
            if i == 1 {
                items.push((Sp(3), tok("d")));
            }
        }
        let c = case("", body(items), S8, &QUOTE, 1);
        if matches!(c.want, shard::Want::Runs(_)) {
            cases.push(c);
        }
    }
    let (more, said) = extra::c15(o);
    cases.extend(more);
    let mut bounds = vec![
            format!("every pair of {} kinds of item x {} gaps x {} ways to write the template down", ks.len(), gaps.len(), styles.len()),
            format!("sequences: {:?}", runs.iter().map(|r| format!("length {} over {} kinds x {} gaps", r.0, r.1.len(), r.2.len())).collect::<Vec<_>>()),
            format!("every sequence of {rows} rows over {cols} columns with and without blank rows"),
        ];
    bounds.extend(said);
    (cases, bounds)
}

/// Surround a template so that its effect on what follows shows.
const BALANCE: Wrap<'static> = Wrap {
    name: "balance",
    before: "let x = \"OUTER\"; let mut t = T::new(); t.append(\"P\"); t.push();",
    open: "quote_in! { t => ",
    close: "}",
    after: "t.push(); t.append(\"END\"); t",
    prior: &[],
    post: &[],
};

pub fn c16(o: &Opts) -> Stats {
    decide(o, "C16", c16_cases(o))
}

fn c16_cases(o: &Opts) -> Space {
    let prior = [Op::Text("P".into()), Op::Push];
    let post = [Op::Push, Op::Text("END".into())];
    let w = Wrap { prior: &prior, post: &post, ..BALANCE };
    let mut cases = Vec::new();
    let multi = It::For(Form::Brace, None, one(It::Var).rows(9, 0));
    let group = |k: usize| -> Vec<(Gap, It)> {
        vec![(Adj, tok("a")), (Adj, tok("(")), (Row(0, k), tok("b")), (Row(0, 0), tok(")"))]
    };
    let row_kinds: Vec<Vec<(Gap, It)>> = vec![
        vec![(Adj, tok("a"))],
        vec![(Adj, It::Var)],
        vec![(Adj, It::Ev("e".into(), "E".into())), (Sp(4), tok("z"))],
        vec![(Adj, multi.clone()), (Sp(1), tok("z"))],
        vec![(Adj, It::If(Cond::B, Form::Brace, a().rows(1, 9), None))],
        vec![(Adj, It::Let("L".into()))],
        vec![(Adj, quoted("q"))],
        vec![(Adj, It::T("$[str](s)".into(), quoted_text("s", false)))],
        vec![(Adj, tok("(")), (Adj, tok(")"))],
    ];
    // Every sequence of columns; row kinds vary over all combinations for
    // short ones and with the position for long ones.
    let (len, width) = o.pick((6, 4), (8, 4));
    let place = |ctx: usize, rows: Vec<(Gap, It)>| -> Body {
        let first = match rows[0].0 {
            Row(_, c) => c,
            _ => 0,
        };
        let inner = body(rows.clone());
        match ctx {
            0 => inner,
            1 => body(vec![(Row(0, 0), tok("o")), (Row(0, 2), It::For(Form::Brace, None, inner.rows(first, 2))), (Row(0, 0), tok("u"))]),
            2 => one(It::If(Cond::B, Form::Brace, inner.rows(first, 2), Some(a()))),
            3 => one(It::If(Cond::NotB, Form::Brace, a(), Some(inner.rows(first, 2)))),
            4 => one(It::Match(vec![(Form::Brace, inner.rows(first, 1)), (Form::Arrow, a())], false)),
            5 => one(It::For(Form::Arrow, None, inner.pad(Some(Row(0, first)), Some(Row(0, 0))))),
            6 => one(It::Match(vec![(Form::Arrow, inner.rows(first, 1)), (Form::Arrow, a())], true)),
            _ => {
                let mut v = vec![(Row(0, 0), tok("o")), (Sp(1), tok("{"))];
                v.extend(rows);
                v.push((Row(0, 0), tok("}")));
                body(v)
            }
        }
    };
    for l in 1..=len {
        for c in product(width, l) {
            // A shift of all columns is the same template, written further in.
            if l > 3 && !c.contains(&0) {
                continue;
            }
            let rows = |kind: &dyn Fn(usize) -> usize| -> Vec<(Gap, It)> {
                let mut v = Vec::new();
                for (i, col) in c.iter().enumerate() {
                    for (j, (g, it)) in row_kinds[kind(i)].iter().enumerate() {
                        v.push((if j == 0 { Row((i * i) % 3 / 2, col * 3) } else { *g }, it.clone()));
                    }
                }
                v
            };
            let k = if l <= 2 { row_kinds.len() } else { 1 };
            for ks in product(k, l) {
                cases.push(case("", place(0, rows(&|i| ks[i])), S8, &w, 1));
            }
            if l > 2 && (l <= 5 || o.thorough()) {
                for rot in 0..if l <= 4 { row_kinds.len() } else { 2 } {
                    cases.push(case("", place(0, rows(&|i| (i * 2 + rot) % row_kinds.len())), S8, &w, 1));
                }
            }
            if l <= o.pick(4, 5) && c.contains(&0) {
                for ctx in 1..=7 {
                    cases.push(case("", place(ctx, rows(&|_| 0)), S8, &w, 1));
                }
            }
        }
    }
    // Rows inside of delimiters.
    for open in 0..4usize {
        for inner in 0..4usize {
            for close in 0..4usize {
                for next in 0..4usize {
                    let _ = group(inner);
                    let v = vec![
                        (Row(0, 0), tok("f")),
                        (if open == 0 { Adj } else { Row(0, open * 2) }, tok("(")),
                        (Row(0, inner * 2), tok("b")),
                        (Row(0, close * 2), tok(")")),
                        (Row(0, next * 2), tok("c")),
                    ];
                    cases.push(case("", body(v), S8, &w, 1));
                }
            }
        }
    }
    let (more, said) = extra::c16(o, &w);
    cases.extend(more);
    let mut bounds = vec![
            format!("every sequence of up to {len} row columns out of {width}; every combination of {} kinds of row up to 2 rows, rotating kinds beyond", row_kinds.len()),
            format!("the same up to {} rows in 7 kinds of body and in a group", o.pick(4, 5)),
            "every column of an opening delimiter, its content, its closing delimiter and the next row".into(),
        ];
    bounds.extend(said);
    (cases, bounds)
}

fn leafs() -> Vec<Body> {
    vec![
        a(),
        one(It::Var),
        body(vec![(Row(0, 0), tok("a")), (Row(0, 0), It::Var)]),
        body(vec![(Row(0, 0), tok("a")), (Row(0, 3), It::Var)]),
        Body::default(),
        body(vec![(Adj, tok("a")), (Sp(2), It::Ev("e".into(), "E".into()))]),
        body(vec![(Adj, It::Var), (Adj, It::Ctl(' '))]),
        body(vec![(Adj, It::Ctl('\r')), (Adj, It::Var)]),
        body(vec![(Row(0, 0), It::Var), (Row(2, 0), tok("b"))]),
        body(vec![(Adj, tok("(")), (Adj, It::Var), (Adj, tok(",")), (Sp(1), tok("b")), (Adj, tok(")"))]),
        one(quoted("q")),
        body(vec![(Adj, It::Let("L".into())), (Adj, It::Var)]),
        body(vec![(Row(0, 0), It::Let("L".into())), (Row(0, 0), It::Var)]),
    ]
}

fn first(b: &Body) -> usize {
    match b.items.first() {
        Some((Row(_, c), _)) => *c,
        _ => 0,
    }
}
fn multi_row(b: &Body) -> bool {
    b.items.iter().skip(1).any(|(g, _)| matches!(g, Row(..)))
}

/// The ways a body can be written between its delimiters.
fn padded(b: &Body, how: usize) -> Option<Body> {
    let c = first(b) + 4;
    let shift = |b: &Body| {
        let mut b = b.clone();
        for (g, _) in &mut b.items {
            if let Row(n, c) = g {
                *g = Row(*n, *c + 4);
            }
        }
        b
    };
    match how {
        0 if !multi_row(b) => Some(b.clone().pad(Some(Sp(1)), Some(Sp(1)))),
        1 if !multi_row(b) => Some(b.clone()),
        2 => Some(shift(b).rows(c, 0)),
        3 => Some(shift(b).pad(Some(Row(2, c)), Some(Row(1, 9)))),
        _ => None,
    }
}

fn joins() -> Vec<Option<Body>> {
    let s = |items: Vec<(Gap, It)>, l: Option<Gap>, t: Option<Gap>| Some(body(items).pad(l, t).sens());
    let comma = || vec![(Adj, tok(","))];
    vec![
        None,
        s(comma(), None, None),
        s(comma(), None, Some(Sp(1))),
        s(comma(), Some(Sp(2)), Some(Sp(3))),
        s(vec![(Adj, tok(";")), (Adj, It::Ctl('\r'))], None, None),
        s(vec![(Adj, It::Ctl('\n'))], None, None),
        s(vec![], None, None),
        // Which round's bindings a separator sees is not specified.
        s(vec![(Adj, It::Ops("$(\"v\")".into(), vec![tx("v")])), (Adj, tok("|"))], Some(Sp(1)), None),
        s(vec![(Adj, quoted("j"))], Some(Sp(1)), Some(Sp(1))),
        s(vec![(Adj, It::Ev("j".into(), "J".into()))], None, Some(Sp(1))),
        s(vec![(Adj, It::If(Cond::B, Form::Arrow, one(tok("&")), None))], None, None),
    ]
}

/// Every statement over the given bodies.
fn stmts(bodies: &[Body], pads: &[usize], joins: &[Option<Body>], elses: &[Body]) -> Vec<It> {
    let mut v = Vec::new();
    for b in bodies {
        for &p in pads {
            let Some(x) = padded(b, p) else { continue };
            v.push(It::If(Cond::B, Form::Arrow, x.clone(), None));
            v.push(It::If(Cond::LetSome, Form::Brace, x.clone(), None));
            v.push(It::If(Cond::NotB, Form::Brace, x.clone(), None));
            for e in elses {
                if let Some(e) = padded(e, p) {
                    v.push(It::If(Cond::B, Form::Brace, x.clone(), Some(e.clone())));
                    v.push(It::If(Cond::LetSome, Form::Brace, e, Some(x.clone())));
                }
            }
            for j in joins {
                v.push(It::For(Form::Arrow, j.clone(), x.clone()));
                v.push(It::For(Form::Brace, j.clone(), x.clone()));
            }
        }
    }
    v
}

fn matches(bodies: &[Body], pads: &[usize]) -> Vec<It> {
    let mut v = Vec::new();
    let arm = |f: Form, b: &Body, p: usize| -> Option<(Form, Body)> {
        match f {
            Form::Brace => Some((f, padded(b, p)?)),
            // Up to the comma, so there can be none on the outer level.
            Form::Arrow => {
                // Content which starts with a delimiter is another form of arm.
                if b.items.is_empty() || matches!(&b.items[0].1, It::T(s, _) if s == "(" || s == "{") {
                    return None;
                }
                Some((f, padded(b, p)?))
            }
            Form::Paren => {
                if multi_row(b) {
                    return None;
                }
                let l = [None, Some(Sp(1)), Some(Sp(2))];
                Some((f, b.clone().pad(l[p % 3], l[(p + 1) % 3]).sens()))
            }
        }
    };
    for b in bodies {
        for &p in pads {
            for f in [Form::Brace, Form::Arrow, Form::Paren] {
                let Some(x) = arm(f, b, p) else { continue };
                let other = (Form::Arrow, one(tok("o")).pad(Some(Sp(1)), None));
                for comma in [false, true] {
                    v.push(It::Match(vec![x.clone()], comma));
                    v.push(It::Match(vec![x.clone(), other.clone()], comma));
                    v.push(It::Match(vec![other.clone(), x.clone()], comma));
                    v.push(It::Match(vec![other.clone(), (Form::Paren, a().sens().pad(Some(Sp(1)), None)), x.clone()], comma));
                    v.push(It::Match(vec![x.clone(), (Form::Brace, one(It::Var)), other.clone(), (Form::Brace, Body::default())], comma));
                }
            }
        }
    }
    v
}

fn simple_stmts() -> Vec<It> {
    vec![
        It::Let("L".into()),
        It::Scope(Form::Brace, "S".into()),
        It::Scope(Form::Arrow, "S".into()),
        It::Scope(Form::Brace, String::new()),
        It::ScopeNone("u".into()),
        It::Ev("e".into(), "E".into()),
        It::Ev("e".into(), String::new()),
        It::Ops("$(b.then(|| \"x\"))".into(), vec![]),
    ]
    .into_iter()
    .filter(|i| !matches!(i, It::Ops(..)))
    .collect()
}

/// Statement in its surroundings.
fn contexts(s: &It, level: usize) -> Vec<Body> {
    let pres: &[Option<Gap>] = if level == 0 {
        &[Some(Sp(1)), Some(Row(0, 0))]
    } else {
        &[None, Some(Adj), Some(Sp(2)), Some(Row(0, 0)), Some(Row(1, 0)), Some(Row(0, 2)), Some(Row(1, 2))]
    };
    let posts: &[Option<Gap>] = if level == 0 {
        &[Some(Adj), Some(Row(1, 0))]
    } else {
        &[None, Some(Adj), Some(Sp(2)), Some(Row(0, 0)), Some(Row(1, 0)), Some(Row(0, 2)), Some(Row(1, 2)), Some(Row(0, 4))]
    };
    let mut v = Vec::new();
    for pre in pres {
        for post in posts {
            let mut items = Vec::new();
            if let Some(g) = pre {
                items.push((Row(0, 0), tok("p")));
                items.push((*g, s.clone()));
            } else {
                items.push((Row(0, 0), s.clone()));
            }
            if let Some(g) = post {
                items.push((*g, It::Var));
                items.push((Adj, tok(";")));
            }
            v.push(body(items));
        }
    }
    v
}

/// Iterators of every kind: sized, unsized, lying about their size, not fused,
/// and patterns which take their items apart.
const ITERS: &[(&str, fn(usize) -> Vec<String>)] = &[
    ("x in tr(\"i\", (0..n).filter(|_| true))", |n| up(n)),
    ("x in tr(\"i\", (0..2 * n).filter(|k| k % 2 == 1))", |n| (0..n).map(|k| (2 * k + 1).to_string()).collect()),
    ("x in tr(\"i\", (0..n).flat_map(|k| vec![k; k]))", |n| (0..n).flat_map(|k| vec![k.to_string(); k]).collect()),
    ("x in tr(\"i\", { let mut c = 0; std::iter::from_fn(move || { c += 1; (c <= n).then(|| c - 1) }) })", |n| up(n)),
    ("x in tr(\"i\", Lie(0, n, 9))", |n| up(n)),
    ("x in tr(\"i\", Lie(0, n, 0))", |n| up(n)),
    ("x in tr(\"i\", Unfused(0, n))", |n| up(n)),
    ("x in tr(\"i\", (0..9usize).rev().skip(9 - n))", |n| (0..n).rev().map(|k| k.to_string()).collect()),
    ("x in tr(\"i\", vec![\"k\"; n])", |n| vec!["k".into(); n]),
    ("x in &tr(\"i\", vec![String::from(\"s\"); n])", |n| vec!["s".into(); n]),
    ("&x in [7u8, 8, 9, 10][..n].iter().map(|k| k).collect::<Vec<_>>().into_iter().chain(tr(\"i\", None))", |n| (7..7 + n).map(|k| k.to_string()).collect()),
    ("(_, x) in tr(\"i\", (0..n).map(|k| k * 10).enumerate())", |n| (0..n).map(|k| (k * 10).to_string()).collect()),
    ("P { x, .. } in tr(\"i\", (0..n).map(|k| P { x: k, y: k as u8 }))", |n| up(n)),
    ("x in if tr(\"i\", n) > 1 { 0..n } else { 5..5 + n }", |n| if n > 1 { up(n) } else { (5..5 + n).map(|k| k.to_string()).collect() }),
    ("x in { let k = tr(\"i\", n); 0..k }", |n| up(n)),
    ("[x, _] in tr(\"i\", vec![[3, 4]; n])", |n| vec!["3".into(); n]),
    ("(x @ 0.. | x) in tr(\"i\", 0..n)", |n| up(n)),
    ("x in tr(\"i\", (0..n).map(|k| tr(\"next\", k)))", |n| up(n)),
    ("x in tr(\"i\", (0..n).map(|k| tr(\"next\", k)).filter(|k| *k < 9))", |n| up(n)),
];
fn up(n: usize) -> Vec<String> {
    (0..n).map(|k| k.to_string()).collect()
}

const CONDS: &[(&str, fn(In) -> (bool, Option<&'static str>))] = &[
    ("tr(\"?\", n) > 1 && b", |i| (i.n > 1 && i.b, None)),
    ("tr(\"?\", n == 2) || b", |i| (i.n == 2 || i.b, None)),
    ("!tr(\"?\", b)", |i| (!i.b, None)),
    ("matches!(tr(\"?\", m), 1 | 2)", |i| (i.m == 1 || i.m == 2, None)),
    ("(tr(\"?\", P { x: n, y: 0 })) == (P { x: 1, y: 0 })", |i| (i.n == 1, None)),
    ("{ let q = tr(\"?\", m); q == 3 }", |i| (i.m == 3, None)),
    ("let 1 | 3 = tr(\"?\", m)", |i| (i.m == 1 || i.m == 3, None)),
    ("let (true, x) = (tr(\"?\", b), \"Y\")", |i| (i.b, Some("Y"))),
    ("let P { x: 2, y } = (P { x: tr(\"?\", n), y: 0 })", |i| (i.n == 2, None)),
    ("let Some(x) = tr(\"?\", [\"0\", \"1\"].get(n).copied())", |i| (i.n < 2, Some(if i.n == 0 { "0" } else { "1" }))),
    ("let x @ (\"B\" | \"C\") = [tr(\"?\", \"A\"), \"B\", \"C\", \"D\"][m as usize]", |i| (i.m == 1 || i.m == 2, Some(if i.m == 1 { "B" } else { "C" }))),
    ("if tr(\"?\", b) { n == 0 } else { m == 0 }", |i| (if i.b { i.n == 0 } else { i.m == 0 }, None)),
    ("match tr(\"?\", m) { 0 => b, _ => !b }", |i| ((i.m == 0) == i.b, None)),
    ("tr::<Option<u8>>(\"?\", (m < 2).then_some(m)).is_some()", |i| (i.m < 2, None)),
];

/// Scrutinee, patterns of three arms, arm taken.
const MATCHES: &[(&str, &[&str], fn(In) -> (usize, Option<&'static str>))] = &[
    ("tr(\"m\", (m, b))", &["(0, true) | (1, _)", "(x @ 0..=2, false) if x < 9", "_"], |i| {
        if (i.m == 0 && i.b) || i.m == 1 { (0, None) } else if i.m <= 2 && !i.b { (1, Some(if i.m == 0 { "0" } else { "2" })) } else { (2, None) }
    }),
    ("tr(\"m\", Some(m).filter(|_| b))", &["Some(1)", "Some(..=2)", "None | Some(_)"], |i| {
        (if !i.b { 2 } else if i.m == 1 { 0 } else if i.m <= 2 { 1 } else { 2 }, None)
    }),
    ("tr(\"m\", P { x: n, y: m })", &["P { x: 1, .. }", "P { y: 1, x: 2 }", "P { .. }"], |i| (if i.n == 1 { 0 } else if i.n == 2 && i.m == 1 { 1 } else { 2 }, None)),
    ("tr(\"m\", [\"p\", \"q\", \"r\", \"s\"][m as usize])", &["\"q\"", "x if x == \"s\"", "x"], |i| match i.m {
        1 => (0, None),
        3 => (1, Some("s")),
        k => (2, Some(if k == 0 { "p" } else { "r" })),
    }),
    ("tr(\"m\", &[m, 2][..])", &["[0, ..]", "[.., 3] | [3, 2]", "_"], |i| (if i.m == 0 { 0 } else if i.m == 3 { 1 } else { 2 }, None)),
    ("{ tr(\"m\", ()); m }", &["0 if b && n > 1", "0 | 1 if { let k = n; k == 0 }", "_"], |i| {
        (if i.m == 0 && i.b && i.n > 1 { 0 } else if i.m <= 1 && i.n == 0 { 1 } else { 2 }, None)
    }),
    ("tr(\"m\", m)", &["#[cfg(any())] 0..=9", "#[cfg(all())] 0 | 2", "#[allow(unused)] #[cfg(not(any()))] _"], |i| (if i.m % 2 == 0 { 1 } else { 2 }, None)),
    ("tr(\"m\", m)", &["1", "#[cfg(any())] _ if b", "#[rustfmt::skip] _"], |i| (if i.m == 1 { 0 } else { 2 }, None)),
    ("tr(\"m\", m)", &["| 1 | 2", "| 0 if n == 1", "_"], |i| (if i.m == 1 || i.m == 2 { 0 } else if i.m == 0 && i.n == 1 { 1 } else { 2 }, None)),
    ("if tr(\"m\", b) { n } else { 7 }", &["0", "1..=3", "_"], |i| (if !i.b { 2 } else if i.n == 0 { 0 } else { 1 }, None)),
];

pub fn c17(o: &Opts) -> Stats {
    decide(o, "C17", c17_cases(o))
}

fn c17_cases(o: &Opts) -> Space {
    let ls = leafs();
    let js = joins();
    let mut cases = Vec::new();
    let mut add = |b: Body, n: usize| {
        let c = case("", b, S8, &QUOTE, n);
        if matches!(c.want, shard::Want::Runs(_)) {
            cases.push(c);
        }
    };
    // Every statement over every leaf body, in a few surroundings.
    let pads: &[usize] = &[0, 1, 2, 3];
    let mut all = stmts(&ls, pads, &js, &ls[..o.pick(3, ls.len())]);
    let no_comma: Vec<Body> = ls.clone();
    all.extend(matches(&no_comma, o.pick(&[0, 2], &[0, 1, 2, 3])));
    all.extend(simple_stmts());
    for s in &all {
        for b in contexts(s, 0) {
            add(b, 3);
        }
    }
    // Fewer statements in all surroundings.
    let few_bodies: Vec<Body> = [1usize, 3, 4, 6].iter().map(|i| ls[*i].clone()).collect();
    let few_joins: Vec<Option<Body>> = [0usize, 2, 4].iter().map(|i| js[*i].clone()).collect();
    let mut few = stmts(&few_bodies, &[1, 2], &few_joins, &ls[..1]);
    few.extend(matches(&few_bodies[..2], &[2]).into_iter().step_by(3));
    few.extend(simple_stmts());
    if o.thorough() {
        few = stmts(&ls, &[1, 2], &few_joins, &ls[..1]);
        few.extend(matches(&few_bodies, &[1, 2]));
        few.extend(simple_stmts());
    }
    for s in &few {
        for b in contexts(s, 1) {
            add(b, 2);
        }
    }
    // Every kind of iterator, condition and pattern.
    let shapes: Vec<Body> = [1usize, 3, 5, 6, 9, 11].iter().map(|i| ls[*i].clone()).collect();
    for bd in &shapes {
        for &p in &[0usize, 2] {
            let Some(x) = padded(bd, p) else { continue };
            for f in [Form::Arrow, Form::Brace] {
                for (src, vals) in ITERS {
                    for j in &js {
                        // How far a join looks ahead is not specified.
                        if j.is_some() && src.contains(STEPS) {
                            continue;
                        }
                        for b in &contexts(&It::Over(src, *vals, f, j.clone(), x.clone()), 0)[..o.pick(1, 4)] {
                            add(b.clone(), 3);
                        }
                    }
                }
                for (src, g) in CONDS {
                    for e in [None, Some(one(It::Var)), padded(&ls[3], p)] {
                        if e.is_some() && f == Form::Arrow {
                            continue;
                        }
                        for b in &contexts(&It::If(Cond::Ex(src, *g), f, x.clone(), e), 0)[..o.pick(1, 4)] {
                            add(b.clone(), 2);
                        }
                    }
                }
            }
            for (head, pats, pick) in MATCHES {
                for forms in product(3, 3) {
                    let form = |k: usize| [Form::Brace, Form::Arrow, Form::Paren][forms[k]];
                    let arm = |k: usize, bd: &Body| -> Option<(Form, Body)> {
                        if form(k) == Form::Paren {
                            return (!multi_row(bd)).then(|| (Form::Paren, bd.clone().pad(Some(Sp(1)), None).sens()));
                        }
                        if form(k) == Form::Arrow && matches!(&bd.items[0].1, It::T(s, _) if s == "(") {
                            return None;
                        }
                        Some((form(k), padded(bd, p)?))
                    };
                    let two = body(vec![(Adj, tok("o")), (Sp(2), It::Var)]);
                    let (Some(a0), Some(a1), Some(a2)) = (arm(0, bd), arm(1, &two), arm(2, &ls[1])) else { continue };
                    // The second pattern of these binds a value of its own.
                    for b in &contexts(&It::MatchX(head, pats, *pick, vec![a0, a1, a2]), 0)[..o.pick(1, 4)] {
                        add(b.clone(), 2);
                    }
                }
            }
        }
    }
    // Two statements next to each other, and statements inside of statements.
    let v = |s: &It| s.clone();
    let pool: Vec<It> = {
        let x = one(It::Var).pad(Some(Sp(1)), Some(Sp(1)));
        let y = body(vec![(Row(0, 6), It::Var), (Row(0, 9), tok("b"))]).rows(6, 2);
        let mut p = vec![
            It::If(Cond::B, Form::Arrow, x.clone(), None),
            It::If(Cond::NotB, Form::Brace, y.clone(), Some(x.clone())),
            It::For(Form::Arrow, js[2].clone(), x.clone()),
            It::For(Form::Brace, None, y.clone()),
            It::Match(vec![(Form::Arrow, x.clone()), (Form::Brace, y.clone())], true),
            It::Let("M".into()),
            It::Scope(Form::Brace, "S".into()),
        ];
        if o.thorough() {
            p.extend([
                It::If(Cond::LetSome, Form::Brace, y.clone(), None),
                It::For(Form::Brace, js[4].clone(), y.clone()),
                It::For(Form::Brace, js[7].clone(), x.clone()),
                It::Match(vec![(Form::Paren, one(tok("k")).sens().pad(Some(Sp(1)), None)), (Form::Brace, x.clone()), (Form::Arrow, x.clone())], false),
                It::ScopeNone("u".into()),
            ]);
        }
        p
    };
    let gaps: &[Gap] = o.pick(&[Adj, Sp(1), Row(0, 0), Row(0, 2)], &[Adj, Sp(1), Row(0, 0), Row(1, 0), Row(0, 2)]);
    for s in &pool {
        for t in &pool {
            for &g in gaps {
                add(body(vec![(Row(0, 0), v(s)), (g, v(t)), (Sp(1), It::Var)]), 2);
                for &h in gaps {
                    // As the body of another statement.
                    let inner = |c: usize| {
                        let sh = |g: Gap| match g {
                            Row(n, k) => Row(n, k + c),
                            g => g,
                        };
                        body(vec![(Row(0, c), tok("p")), (sh(g), v(s)), (sh(h), v(t))])
                    };
                    let b = inner(4).rows(4, 0);
                    add(one(It::For(Form::Brace, js[1].clone(), b.clone())), 2);
                    if o.thorough() {
                        add(one(It::If(Cond::B, Form::Brace, b.clone(), Some(a()))), 2);
                        add(one(It::Match(vec![(Form::Brace, b.clone()), (Form::Brace, a())], true)), 2);
                        add(body(vec![(Row(0, 0), tok("o")), (Row(0, 1), It::For(Form::Arrow, js[3].clone(), b.clone())), (Row(0, 0), It::Var)]), 2);
                    }
                }
            }
        }
    }
    // Three levels.
    for s in &pool {
        for j in [0usize, 2, 7] {
            for g in [Sp(1), Row(0, 8), Row(1, 4)] {
                let l1 = body(vec![(Row(0, 4), tok("x1")), (g, s.clone())]).rows(4, 0);
                let l2 = It::For(Form::Brace, js[j].clone(), l1);
                let l3 = body(vec![(Row(0, 6), tok("x2")), (Row(0, 6), l2.clone()), (Row(0, 6), It::Var)]).rows(6, 2);
                for f in [Form::Brace, Form::Arrow] {
                    add(one(It::If(Cond::B, f, l3.clone(), None)), 2);
                    add(one(It::For(f, js[1].clone(), l3.clone())), 2);
                }
                add(one(It::Match(vec![(Form::Brace, l3.clone()), (Form::Arrow, one(l2.clone()))], false)), 2);
                // `else if` is written as a condition in the other branch.
                add(one(It::If(Cond::B, Form::Brace, a(), Some(one(It::If(Cond::LetSome, Form::Brace, l3.clone(), Some(one(s.clone()))))))), 2);
            }
        }
    }
    let (more, said) = extra::c17(o);
    cases.extend(more);
    let mut bounds = vec![
            format!("every statement (if, if let, else, for, join, match, let, scope, inline) over {} bodies x 4 ways to write a body x {} joins, in 4 surroundings; {} statements in all 56 surroundings", ls.len(), js.len(), few.len()),
            format!("{} kinds of iterator x {} joins, {} conditions x 3 alternatives and {} matches x every form of 3 arms, over {} bodies", ITERS.len(), js.len(), CONDS.len(), MATCHES.len(), shapes.len()),
            format!("every ordered pair of {} statements x gaps, side by side and nested; chains of 3 levels", pool.len()),
            "iteration counts 0..=3, both conditions, every match arm and guard".into(),
        ];
    bounds.extend(said);
    (cases, bounds)
}

fn ops_src(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Text(s) => format!("t.append({s:?});"),
            Op::Mark => "t.append(\"\");".into(),
            Op::Space => "t.space();".into(),
            Op::Push => "t.push();".into(),
            Op::Line => "t.line();".into(),
            Op::Ind(1) => "t.indent();".into(),
            Op::Ind(-1) => "t.unindent();".into(),
            Op::Ind(_) => unreachable!(),
        })
        .collect()
}

pub fn c18(o: &Opts) -> Stats {
    decide(o, "C18", c18_cases(o))
}

fn c18_cases(o: &Opts) -> Space {
    let tx = |s: &str| Op::Text(s.into());
    let priors: Vec<Vec<Op>> = vec![
        vec![],
        vec![tx("P")],
        vec![tx("P"), Op::Space],
        vec![tx("P"), Op::Push],
        vec![tx("P"), Op::Line],
        vec![tx("P"), Op::Ind(1)],
        vec![Op::Ind(1), tx("P"), Op::Push],
        vec![tx("P"), Op::Ind(1), tx("Q"), Op::Ind(-1)],
        vec![Op::Space],
        vec![Op::Line],
    ];
    let posts: Vec<Vec<Op>> = vec![vec![], vec![tx("E")], vec![Op::Space, tx("E")], vec![Op::Push, tx("E")], vec![Op::Ind(-1), tx("E")], vec![Op::Line, tx("E")]];
    let x = "let x = \"OUTER\"; let mut t = T::new(); ";
    // (name, before, open, close, after)
    let ways: &[(&str, &str, &str, &str, &str)] = &[
        ("quote+append", "", "let q: T = quote! {", "};", "t.append(q);"),
        ("quote+append-ref", "", "let q: T = quote! {", "};", "t.append(&q);"),
        ("quote+extend", "", "let q: T = quote! {", "};", "t.extend(q);"),
        ("quote_in", "", "quote_in! { t => ", "}", ""),
        ("quote_in-paren", "", "quote_in!(t => ", ");", ""),
        ("quote_in-ref", "let r = &mut t;", "quote_in! { *r => ", "}", ""),
        ("quote_fn", "", "t.append(quote_fn! {", "});", ""),
        ("from_fn", "", "t.append(genco::tokens::from_fn(move |r| quote_in! { *r => ", "}));", ""),
        ("interpolate", "", "let q: T = quote! {", "}; let q: T = quote!($q);", "t.append(q);"),
        ("interpolate-ref", "", "let q: T = quote! {", "}; let q: T = quote!($(&q));", "t.append(q);"),
        ("interpolate-fn", "", "let q = quote_fn! {", "}; quote_in!(t => $q);", ""),
        ("scope", "", "quote_in!(t => $(ref r { quote_in! { *r => ", "} }));", ""),
        ("scope-arrow", "", "quote_in!(t => $(ref r => quote_in! { *r => ", "}));", ""),
        ("nested", "", "quote_in!(t => $(quote! {", "}));", ""),
        ("nested-fn", "", "quote_in!(t => $(quote_fn! {", "}));", ""),
        ("macro_rules", "macro_rules! q { ($($q:tt)*) => { quote! { $($q)* } } }", "let q: T = q! {", "};", "t.append(q);"),
        ("macro_rules-in", "macro_rules! q { ($t:ident; $($q:tt)*) => { quote_in! { $t => $($q)* } } }", "q! { t; ", "}", ""),
        ("macro_rules-fn", "macro_rules! q { ($($q:tt)*) => { quote_fn! { $($q)* } } }", "t.append(q! {", "});", ""),
        ("loop-fn", "", "let f = |_: ()| -> T { quote! {", "} }; quote_in!(t => $(for q in Some(f(())) => $q));", ""),
    ];
    let ls = leafs();
    let js = joins();
    let mut templates: Vec<Body> = Vec::new();
    let y = body(vec![(Row(0, 6), It::Var), (Row(0, 9), tok("b"))]).rows(6, 2);
    let stm: Vec<It> = vec![
        It::If(Cond::B, Form::Brace, y.clone(), None),
        It::For(Form::Brace, js[2].clone(), y.clone()),
        It::For(Form::Arrow, None, ls[6].clone()),
        It::Match(vec![(Form::Paren, one(tok("k")).sens().pad(Some(Sp(1)), None)), (Form::Brace, y.clone())], false),
        It::Let("M".into()),
        It::Scope(Form::Brace, "S".into()),
        It::Ev("e".into(), "E".into()),
        It::Ctl(' '),
        It::Ctl('\r'),
        It::Ctl('\n'),
        quoted("q"),
        It::T("$[str](s $[const](\"k\"))".into(), quoted_text("s k", false)),
        It::Ops("$(\"\")".into(), vec![]),
    ];
    for s in &stm {
        templates.push(body(vec![(Row(0, 0), s.clone())]));
        for g in [Sp(1), Row(0, 0), Row(0, 3), Row(1, 3)] {
            templates.push(body(vec![(Row(0, 0), tok("a")), (g, s.clone())]));
            templates.push(body(vec![(Row(0, 0), s.clone()), (g, It::Var)]));
        }
    }
    templates.extend(ls.iter().cloned());
    let mut cases = Vec::new();
    let styles: &[Style] = if o.thorough() { &[S8, Style::Inline] } else { &[S8] };
    for (ti, b) in templates.iter().enumerate() {
        for (wi, (name, before, open, close, after)) in ways.iter().enumerate() {
            for (pi, prior) in priors.iter().enumerate() {
                for (qi, post) in posts.iter().enumerate() {
                    // Quick: all priors for one post and all posts for one
                    // prior, alternating with the template and entry point.
                    if !o.thorough() && (pi + qi + ti + wi) % 5 != 0 {
                        continue;
                    }
                    for &st in styles {
                        let bf = format!("{x}{} {before}", ops_src(prior));
                        let af = format!("{after} {} t", ops_src(post));
                        let w = Wrap { name, before: &bf, open, close, after: &af, prior, post };
                        cases.push(case(&format!("{name} prior {pi} post {qi}: "), b.clone(), st, &w, 2));
                    }
                }
            }
        }
    }
    let (more, said) = extra::c18(o);
    cases.extend(more);
    let mut bounds = vec![
            format!("{} templates x {} entry points x {} prior contents x {} continuations{}", templates.len(), ways.len(), priors.len(), posts.len(), if o.thorough() { " x 2 styles" } else { ", a fifth of the combinations" }),
        ];
    bounds.extend(said);
    (cases, bounds)
}

/// A piece of a template string: source, what it contributes.
#[derive(Clone)]
enum P {
    Text(&'static str, &'static str),
    /// Evaluated by the target language; operations of the content.
    Eval(&'static str, Vec<Op>),
    /// Traced constant.
    Const(&'static str, &'static str, &'static str),
    Group(char, Vec<(usize, P)>, char, usize),
}

fn esc(s: &str) -> String {
    s.chars().flat_map(|c| ['^', c]).collect()
}

fn p_src(p: &P) -> String {
    match p {
        P::Text(s, _) | P::Eval(s, _) | P::Const(s, ..) => s.to_string(),
        P::Group(o, v, c, t) => {
            let mut s = o.to_string();
            for (g, p) in v {
                s.push_str(&" ".repeat(*g));
                s.push_str(&p_src(p));
            }
            s.push_str(&" ".repeat(*t));
            s.push(*c);
            s
        }
    }
}
fn p_ops(p: &P, ops: &mut Vec<Op>, trace: &mut String, eval: &mut bool) {
    match p {
        P::Text(_, t) => ops.push(Op::Text(esc(t))),
        P::Const(_, t, id) => {
            ops.push(Op::Text(esc(t)));
            if !id.is_empty() {
                trace.push_str(id);
                trace.push(' ');
            }
        }
        P::Eval(_, o) => {
            *eval = true;
            ops.push(Op::Text("cf{".into()));
            ops.extend(o.iter().cloned());
            ops.push(Op::Text("}cf".into()));
        }
        P::Group(o, v, c, t) => {
            ops.push(Op::Text(esc(&o.to_string())));
            for (g, p) in v {
                ops.push(Op::Text(esc(&" ".repeat(*g))));
                p_ops(p, ops, trace, eval);
            }
            ops.push(Op::Text(esc(&" ".repeat(*t))));
            ops.push(Op::Text(esc(&c.to_string())));
        }
    }
}

pub fn c19(o: &Opts) -> Stats {
    decide(o, "C19", c19_cases(o))
}

fn c19_cases(o: &Opts) -> Space {
    let tx = |s: &str| Op::Text(s.into());
    let pieces: Vec<P> = vec![
        P::Text("a", "a"),
        P::Text(",", ","),
        P::Text("$$", "$"),
        P::Eval("$y", vec![tx("y")]),
        P::Eval("$(y)", vec![tx("y")]),
        P::Const("$[const](tr(\"k\", \"v w\"))", "v w", "k"),
        P::Const("$[const](\"l é\\\" \")", "l é\" ", ""),
        P::Eval("$(y + z)", vec![tx("y"), Op::Space, tx("+"), Op::Space, tx("z")]),
        P::Group('(', vec![(1, P::Text("g", "g")), (2, P::Eval("$y", vec![tx("y")]))], ')', 1),
        P::Text("\"s t\"", "\"s t\""),
        P::Eval("$( y)", vec![Op::Space, tx("y")]),
        P::Eval("$(y  )", vec![tx("y"), Op::Space]),
        P::Eval("$( y )", vec![Op::Space, tx("y"), Op::Space]),
        P::Eval("$($x)", vec![tx("OUTER")]),
        P::Eval("$(f($x, \"q\"))", vec![tx("f("), tx("OUTER"), tx(","), Op::Space, tx("«cfn:^q:cfn»"), tx(")")]),
        P::Eval("$($[str](n $w))", vec![tx("«cft:^n^ "), tx("cf{w}cf"), tx(":cft»")]),
        P::Eval("$(\"q\")", vec![tx("«cfn:^q:cfn»")]),
        P::Eval("$()", vec![]),
        P::Group('{', vec![(0, P::Const("$[const](\"c\")", "c", "")), (3, P::Text("$$", "$"))], '}', 0),
        P::Group('[', vec![], ']', 2),
        P::Group('(', vec![(0, P::Group('[', vec![(1, P::Text("i", "i"))], ']', 0))], ')', 2),
        P::Text("'c'", "'c'"),
        P::Text("1.5", "1.5"),
        P::Text("=>", "=>"),
        P::Eval("$(for k in 0..n join (, ) => $k)", vec![]),
        P::Eval("$($(for k in 0..2 join (, ) => $k))", vec![tx("0"), tx(","), Op::Space, tx("1")]),
        P::Eval("$($(if b => t))", vec![tx("t")]),
        P::Const("$[const](x)", "OUTER", ""),
        P::Const("$[const](2 + 2)", "4", ""),
        P::Const("$[const](\"\")", "", ""),
    ]
    .into_iter()
    // `$(for ..)` directly in a string is a template of its own tokens.
    .filter(|p| !matches!(p, P::Eval(s, _) if s.starts_with("$(for")))
    .collect();
    let mut cases = Vec::new();
    let mut add = |seq: &[(usize, &P)], trail: usize, ctx: usize| {
        let mut src = String::from("$[str](");
        let (mut ops, mut trace, mut eval) = (vec![], String::new(), false);
        let mut prev: Option<char> = None;
        for (i, (g, p)) in seq.iter().enumerate() {
            let s = p_src(p);
            let f = s.chars().next().unwrap();
            if let Some(l) = prev {
                let w = |c: char| c.is_alphanumeric() || c == '_' || c == '\'' || c == '"';
                if i > 0 && *g == 0 && (w(l) && w(f) || l.is_ascii_digit() && f == '.' || l == '\'' && w(f)) {
                    return;
                }
                // `$y` followed by `(` is a group, fine; `$` `$y` stays apart.
            }
            src.push_str(&" ".repeat(*g));
            ops.push(Op::Text(esc(&" ".repeat(*g))));
            src.push_str(&s);
            p_ops(p, &mut ops, &mut trace, &mut eval);
            prev = s.chars().last();
        }
        src.push_str(&" ".repeat(trail));
        ops.push(Op::Text(esc(&" ".repeat(trail))));
        src.push(')');
        let k = if eval { 't' } else { 'n' };
        let mut all = vec![Op::Text(format!("«cf{k}:"))];
        all.extend(ops.into_iter().filter(|o| *o != Op::Text(String::new())));
        all.push(Op::Text(format!(":cf{k}»")));
        let it = It::Ops(src, all);
        let b = match ctx {
            0 => one(it),
            1 => body(vec![(Adj, tok("a")), (Sp(3), it), (Adj, tok(";"))]),
            2 => body(vec![(Row(0, 0), tok("a")), (Row(0, 4), it.clone()), (Row(0, 4), it)]),
            3 => body(vec![(Adj, tok("f")), (Adj, tok("(")), (Adj, it.clone()), (Adj, tok(")"))]),
            _ => one(It::If(Cond::B, Form::Brace, body(vec![(Adj, it), (Sp(1), tok("z"))]).pad(Some(Sp(1)), Some(Sp(1))), None)),
        };
        let mut c = case("", b, S8, &QUOTE, 2);
        // The pieces' own evaluations.
        if let shard::Want::Runs(r) = &mut c.want {
            for (i, _, t, _) in r {
                match ctx {
                    2 => *t = format!("{trace}{trace}"),
                    4 => *t = format!("? {}", if i.b { &trace } else { "" }),
                    _ => *t = trace.clone(),
                }
            }
        }
        c.steps = seq.len() as u64 + 2;
        cases.push(c);
    };
    let n = pieces.len();
    for trail in 0..3 {
        add(&[], trail, 0);
    }
    for p in &pieces {
        for lead in 0..3 {
            for trail in 0..3 {
                for ctx in 0..5 {
                    add(&[(lead, p)], trail, ctx);
                }
            }
        }
    }
    let ends: &[(usize, usize)] = o.pick(&[(0, 0), (1, 2)], &[(0, 0), (1, 2), (2, 0), (0, 1), (1, 1)]);
    for p in &pieces {
        for q in &pieces {
            for g in [0usize, 1, 3] {
                for &(l, t) in ends {
                    for ctx in 0..o.pick(1, 5) {
                        add(&[(l, p), (g, q)], t, ctx);
                    }
                }
            }
        }
    }
    let few = o.pick(9, n);
    for p in &pieces[..few] {
        for q in &pieces[..few] {
            for r in &pieces[..few] {
                for g in o.pick(&[(0, 1), (2, 0)][..], &[(0, 0), (0, 1), (2, 0)][..]) {
                    add(&[(0, p), (g.0, q), (g.1, r)], 0, 0);
                }
            }
        }
    }
    if o.thorough() {
        for c in product(7, 4) {
            for g in product(2, 3) {
                let seq: Vec<(usize, &P)> = c.iter().enumerate().map(|(i, k)| (if i == 0 { 1 } else { g[i - 1] * 2 }, &pieces[*k])).collect();
                add(&seq, 1, 0);
            }
        }
    }
    // A section is on one row.
    for p in &pieces {
        let s = p_src(p);
        let mut srcs = vec![format!("$[str](\n{s})"), format!("$[str]({s}\n)"), format!("$[str](  {s}  \n  )")];
        for q in &pieces {
            srcs.push(format!("$[str]({s}\n{})", p_src(q)));
            srcs.push(format!("$[str]({s} b\n    {} c)", p_src(q)));
        }
        for (l, r) in [("(", ")"), ("[", "]"), ("{", "}")] {
            srcs.push(format!("$[str](a {l}\n {s}{r} b)"));
            srcs.push(format!("$[str](a {l}{s}\n{r})"));
            srcs.push(format!("$[str]({l}k{l}{s}\n{r}{r}b)"));
        }
        for s in srcs {
            for (l, r) in [("", ""), ("a ", ";"), ("$(if b { ", " })")] {
                let mut c = case("rows: ", one(It::Ops(format!("{l}{s}{r}"), vec![])), S8, &QUOTE, 1);
                c.want = shard::Want::Reject;
                cases.push(c);
            }
        }
    }
    // Strings which the target language has to evaluate, in languages which
    // can and which cannot, at every place of a template.
    let evals: &[(&str, bool)] = &[
        ("$[str](a $z)", true),
        ("$[str]($z)", true),
        ("$[str]($(z))", true),
        ("$[str](a $(f(z)) b)", true),
        ("$[str]($(z) $[const](\"k\"))", true),
        ("$[str]((g $z))", true),
        ("$[str](a $[const](\"k\"))", false),
        ("$[str](a $$z)", false),
        ("$[str]()", false),
        ("\"$z\"", false),
    ];
    let places: &[&str] = &[
        "@",
        "p @",
        "\n  p\n    @\n  q\n",
        "f(@)",
        "f{ g[ @ ] }",
        "$(if b { @ })",
        "$(if b => @)",
        "$(if b { a } else { @ })",
        "$(if b { a } else { $(if n == 0 { @ } else { c }) })",
        "$(if let Some(_) = Some(b) { a } else { p @ })",
        "$(for _ in 0..n { @ })",
        "$(for _ in 0..n => @)",
        "$(for _ in 0..n join (@) => a)",
        "$(for _ in 0..n join (, ) => @)",
        "$(match b { true => { @ } _ => { a } })",
        "$(match b { true => a, _ => @ })",
        "$(match b { true => a, _ => { @ }, })",
        "$(match b { true => (@), _ => a })",
        "$(match b { _ if n == 1 => @, true => a, false => b })",
        "$(if b { $(for _ in 0..n { $(match m { 0 => a, _ => f(@) }) }) })",
        "$(let q = 1) @ $q",
        "@ $(if b => c)",
        "$[str](t) @",
        "@ $[str](t)",
    ];
    let invokes: &[(&str, &str)] = &[
        ("let _q: @L = quote! {", "};"),
        ("let mut q = <@L>::new(); quote_in! { q => ", "}"),
        ("let mut q = <@L>::new(); q.append(quote_fn! {", "});"),
        ("let mut q = <@L>::new(); let r = &mut q; quote_in! { *r => ", "}"),
        ("let _q: @L = quote! { a $(quote! {", "}) };"),
        ("let _q: @L = quote! { a $(ref t => quote_in! { *t => ", "}) };"),
    ];
    let langs: &[(&str, bool)] = &[
        ("rust::Tokens", false),
        ("java::Tokens", false),
        ("csharp::Tokens", false),
        ("go::Tokens", false),
        ("python::Tokens", false),
        ("c::Tokens", false),
        ("swift::Tokens", false),
        ("nix::Tokens", false),
        ("Tokens<()>", false),
        ("dart::Tokens", true),
        ("js::Tokens", true),
        ("T", true),
    ];
    for (li, (lang, supported)) in langs.iter().enumerate() {
        for (ei, (e, eval)) in evals.iter().enumerate() {
            for (pi, place) in places.iter().enumerate() {
                for (ii, (open, close)) in invokes.iter().enumerate() {
                    // Strings and languages vary over all places, ways to
                    // invoke over all strings and places.
                    if !o.thorough() && ei + ii > 1 && li > 0 && (li + ei + pi + ii) % 4 != 0 {
                        continue;
                    }
                    let src = format!("{}{}{}", open.replace("@L", lang), place.replace('@', e), close);
                    let reject = *eval && !supported;
                    let mut c = case("", Body::default(), S8, &QUOTE, 1);
                    c.key = format!("evaluated: {src}");
                    c.src = format!("let z = \"z\";\n{src}\nT::new()");
                    c.steps = 1;
                    if reject {
                        c.want = shard::Want::Reject;
                    } else if let shard::Want::Runs(r) = &mut c.want {
                        r[0].1 = String::new();
                        r[0].2 = String::new();
                    }
                    cases.push(c);
                }
            }
        }
    }
    let (more, said) = extra::c19(o);
    cases.extend(more);
    let mut bounds = vec![
            format!("every sequence of up to 2 pieces out of {n} (words, punctuation, escapes, groups, variables, expressions, nested strings, constants) x gaps 0/1/3 x leading and trailing gaps, single pieces in 5 places"),
            format!("every sequence of 3 pieces out of {few}{}", if o.thorough() { "; every sequence of 4 out of 7" } else { "" }),
            format!("{} strings with and without evaluation x {} places in a template x {} ways to quote x {} languages: accepted or rejected", evals.len(), places.len(), invokes.len(), langs.len()),
        ];
    bounds.extend(said);
    (cases, bounds)
}

pub fn c22(o: &Opts) -> Stats {
    decide(o, "C22", c22_cases(o))
}

/// Literals and words, and what they render as.
fn literals(o: &Opts) -> (Vec<(String, String)>, Vec<(String, String)>) {
    let mut same: Vec<String> = Vec::new();
    // Numbers.
    let ints = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"];
    let floats = ["f32", "f64"];
    let decs = ["0", "7", "00", "007", "10", "1_0", "1_", "1__0_", "123456789", "18446744073709551615", "340282366920938463463374607431768211455", "1_000_000"];
    for d in decs {
        same.push(d.into());
        for s in ints.iter().chain(&floats) {
            same.push(format!("{d}{s}"));
            same.push(format!("{d}_{s}"));
        }
    }
    for (p, ds) in [("0x", &["0", "f", "F", "aB", "dead_BEEF", "_1", "1_", "00ff", "e1", "1E5"][..]), ("0o", &["0", "7", "1_7", "_7_", "0017"]), ("0b", &["0", "1", "1_0", "_1", "0001_"])] {
        for d in ds {
            same.push(format!("{p}{d}"));
            for s in ints {
                same.push(format!("{p}{d}{s}"));
                same.push(format!("{p}{d}_{s}"));
            }
        }
    }
    for m in ["1", "1.0", "0.0", "0.10", "1.50", "00.5", "1_0.0_1", "1.0_", "3.14159265358979323846264338327950288", "1_0"] {
        for e in ["", "e1", "E1", "e+1", "e-1", "E+0_1", "e_1", "e1_", "e10", "E-10", "e007"] {
            for s in ["", "f32", "f64", "_f32"] {
                if m.contains('.') || !e.is_empty() || !s.is_empty() {
                    same.push(format!("{m}{e}{s}"));
                }
            }
        }
    }
    // Characters and what is in strings: source and value.
    let units: [(&str, &str); 22] = [
        ("a", "a"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\0", "\0"), ("\\\\", "\\"), ("\\'", "'"), ("\\\"", "\""), ("\\x41", "A"), ("\\x7f", "\x7f"), ("\\x00", "\0"), ("\\u{e9}", "é"),
        ("\\u{1F600}", "\u{1f600}"), ("\\u{1_f6_00}", "\u{1f600}"), ("\\u{0}", "\0"), ("\\u{00041}", "A"), ("é", "é"), ("😀", "😀"), (" ", " "), ("$", "$"), ("{", "{"), ("/", "/"),
    ];
    let ascii = |s: &str| s.is_ascii() && !s.starts_with("\\u");
    for (s, _) in units {
        if ascii(s) {
            same.push(format!("b'{s}'"));
        }
        same.push(format!("'{s}'"));
    }
    same.push("'\"'".into());
    same.push("b'\"'".into());
    same.push("b'\\xff'".into());
    let mut strs: Vec<(String, String)> = vec![("\"\"".into(), String::new())];
    for (a, va) in units {
        for (b, vb) in units {
            strs.push((format!("\"{a}{b}\""), format!("{va}{vb}")));
            if ascii(a) && ascii(b) {
                same.push(format!("b\"{a}{b}\""));
            }
            if !va.contains('\0') && !vb.contains('\0') {
                same.push(format!("c\"{a}{b}\""));
            }
        }
    }
    same.push("b\"\\xff\"".into());
    same.push("c\"\\xff\"".into());
    for n in 0..o.pick(4, 9) {
        let h = "#".repeat(n);
        for t in ["", "r", "\\", "\\n", "'", "$x", "{}", "//", "é", "  "] {
            strs.push((format!("r{h}\"{t}\"{h}"), t.into()));
            if t.is_ascii() {
                same.push(format!("br{h}\"{t}\"{h}"));
            }
            same.push(format!("cr{h}\"{t}\"{h}"));
        }
        if n > 0 {
            let inner = "#".repeat(n - 1);
            strs.push((format!("r{h}\"a\"{inner}b\"{h}"), format!("a\"{inner}b")));
            same.push(format!("br{h}\"a\"{inner}b\"{h}"));
        }
    }
    // Words.
    for w in [
        "abstract", "alignof", "as", "async", "await", "auto", "become", "box", "break", "catch", "const", "continue", "crate", "default", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl", "in", "join", "let", "loop",
        "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "self", "Self", "static", "str", "struct", "super", "trait", "true", "try", "type", "typeof", "union", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
        "quote", "quoted", "genco", "__genco_macros_toks", "tokens", "append", "x", "b", "n", "_", "__", "_0", "a0", "A", "ñ", "名前", "Ω", "r#fn", "r#if", "r#abc", "r#x", "'a", "'_", "'static", "'if", "'r#a", "'é",
    ] {
        same.push(w.into());
    }
    let long = o.pick(300, 5000);
    same.push("w".repeat(long));
    same.push(format!("'{}", "w".repeat(long)));
    same.push("9".repeat(long));
    same.push(format!("0.{}", "1".repeat(long)));
    strs.push((format!("\"{}\"", "w ".repeat(long)), "w ".repeat(long)));
    let strs = strs.into_iter().map(|(s, v)| (s, quoted_text(&v, false))).collect();
    (strs, same.into_iter().map(|s| (s.clone(), s)).collect())
}

fn c22_cases(o: &Opts) -> Space {
    // Source, rendered text if it differs.
    let mut toks: Vec<(String, String)> = Vec::new();
    for s in [
        "zz", "Zz9", "_z", "r#type", "fn", "self", "Self", "crate", "async", "dyn", "'lt", "'static", "1", "1_0u8", "0xFFu64", "0b1", "1.5", "2.0f32",
        "'c'", "'\\n'", "'\\''", "'é'", "b'x'", "b\"by\\\"te\"", "c\"cs\"", "br#\"r\"b\"#", "+", "-", "*", "%", "^", "!", "&", "|", "=", "<", ">", "@", ".", ",", ";", ":", "#", "~", "?", "&&", "||",
        "<<", ">>", "+=", "-=", "*=", "%=", "^=", "&=", "|=", "<<=", ">>=", "==", "!=", ">=", "<=", "..", "...", "..=", "::", "->", "=>", "<-", "_", "true", "é", "/", "/=", "µ1",
    ] {
        toks.push((s.into(), s.into()));
    }
    toks.push(("$$".into(), "$".into()));
    toks.push(("\"st\"".into(), quoted_text("st", false)));
    toks.push(("r\"raw\\n\"".into(), quoted_text("raw\\n", false)));
    toks.push(("r#\"q\"q\"#".into(), quoted_text("q\"q", false)));
    toks.push(("\"\\u{e9}\\n\\\\\"".into(), quoted_text("é\n\\", false)));
    for (l, r) in [("(", ")"), ("[", "]"), ("{", "}")] {
        toks.push((format!("{l}{r}"), format!("{l}{r}")));
        toks.push((format!("{l}i{r}"), format!("{l}i{r}")));
        toks.push((format!("{l} i j {r}"), format!("{l} i j {r}")));
        toks.push((format!("{l}&&i,{r}"), format!("{l}&&i,{r}")));
    }
    let adjacent_ok = |a: &str, b: &str| {
        let l = a.chars().last().unwrap();
        let f = b.chars().next().unwrap();
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let q = |c: char| c == '"' || c == '\'';
        // Would be read as another literal, a prefix, an interpolation, a
        // comment or a malformed number.
        !((word(l) || q(l)) && (word(f) || q(f))
            || word(l) && f == '#'
            || q(l) && f == '#'
            || l == '#' && (f == '"' || f == '\'' || word(f))
            || a.starts_with('\'') && !a.ends_with('\'') && f == '\''
            || l == '$' && f == '$'
            || l == '/' && (f == '/' || f == '*')
            || a == "." && f.is_ascii_digit()
            || l.is_ascii_digit() && f == '.')
    };
    let mut cases = Vec::new();
    let gaps: &[&str] = &["", " ", "   "];
    // Text of two tokens one after the other.
    let wraps: &[(&str, &str)] = &[("", ""), ("(", ")"), ("[ ", " ]"), ("{", " }")];
    let mut push = |src: String, ops: Vec<Op>| {
        let n = ops.len() as u64;
        let it = It::Ops(src, ops);
        let mut c = case("", one(it), S8, &QUOTE, 1);
        c.steps = n;
        cases.push(c);
    };
    let as_ops = |s: &str| -> Vec<Op> {
        // Spaces in the rendered text of a group are layout.
        let mut v = Vec::new();
        if s.starts_with(['(', '[', '{']) {
            for (i, p) in s.split(' ').enumerate() {
                if i > 0 {
                    v.push(Op::Space);
                }
                v.push(Op::Text(p.into()));
            }
        } else {
            v.push(Op::Text(s.into()));
        }
        v
    };
    for (i, (a, ta)) in toks.iter().enumerate() {
        for (j, (b, tb)) in toks.iter().enumerate() {
            for (gi, g) in gaps.iter().enumerate() {
                if g.is_empty() && !adjacent_ok(a, b) {
                    continue;
                }
                for (wi, (l, r)) in wraps.iter().enumerate() {
                    if !o.thorough() && (gi == 2 || wi != (i + j) % wraps.len()) {
                        continue;
                    }
                    // `<-`, `'a` before `:` etc. are all kept as written.
                    let mut ops = as_ops(l);
                    ops.extend(as_ops(ta));
                    if !g.is_empty() {
                        ops.push(Op::Space);
                    }
                    ops.extend(as_ops(tb));
                    for (k, p) in r.split(' ').enumerate() {
                        if k > 0 {
                            ops.push(Op::Space);
                        }
                        ops.push(Op::Text(p.into()));
                    }
                    ops.retain(|o| *o != Op::Text(String::new()));
                    push(format!("{l}{a}{g}{b}{r}"), ops);
                }
            }
        }
    }
    // Every kind of literal and word.
    let (lits, words) = literals(o);
    let n_lits = lits.len() + words.len();
    // Long tokens.
    let mut longs = Vec::new();
    for &n in o.pick(&[40, 300, 2000][..], &[16, 17, 32, 33, 40, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 2000][..]) {
        let (w, ds) = ("wé".repeat(n / 2), "1234567890".repeat(n / 10 + 1));
        for s in [w.clone(), format!("r#{w}"), format!("'{w}"), format!("0x{ds}"), format!("{ds}.{ds}"), format!("b\"{ds} {ds}\""), format!("c\"{ds} {ds}\""), format!("br#\"{ds}\"{ds}\"#"), format!("f({w}, {ds})")] {
            longs.push((s.clone(), s));
        }
        longs.push((format!("\"{w} {w}\""), quoted_text(&format!("{w} {w}"), false)));
        longs.push((format!("r##\"{w}\"#{w}\"##"), quoted_text(&format!("{w}\"#{w}"), false)));
        longs.push((format!("$(\"{w} {w}\")"), format!("{w} {w}")));
    }
    let n_longs = longs.len();
    let lits: Vec<_> = lits.into_iter().chain(words).chain(longs).collect();
    for (src, text) in lits {
        for (l, r, ops) in [
            ("", "", vec![Op::Text(text.clone())]),
            ("a ", " b", vec![tx("a"), Op::Space, tx(&text), Op::Space, tx("b")]),
            ("f(", ",)", vec![tx(&format!("f({text},)"))]),
            ("= ", ";", vec![tx("="), Op::Space, tx(&format!("{text};"))]),
            ("$(if b { ", " })", vec![tx(&text)]),
            ("$(\"k\")", "", vec![tx(&format!("k{text}"))]),
        ] {
            if l.ends_with('f') && text.starts_with('\'') {
                continue;
            }
            push(format!("{l}{src}{r}"), ops);
        }
    }
    // Runs of punctuation, all adjacent or split once.
    let punct = ["+", "=", "<", ">", "&", "|", ":", ".", "-", "!", ",", ";", "$$"];
    let len = o.pick(3, 4);
    for l in 2..=len {
        for c in product(punct.len(), l) {
            let parts: Vec<&str> = c.iter().map(|i| punct[*i]).collect();
            if l == len && l > 3 && !parts.windows(2).any(|w| w[0] == w[1]) {
                continue;
            }
            let two = parts.windows(2).any(|w| w == ["$$", "$$"]);
            for split in 0..l {
                if two && split == 0 {
                    continue;
                }
                if l > 3 && split != 0 && split != 2 {
                    continue;
                }
                let (mut src, mut ops) = (String::new(), vec![]);
                for (i, p) in parts.iter().enumerate() {
                    if split > 0 && i == split {
                        src.push(' ');
                        ops.push(Op::Space);
                    }
                    src.push_str(p);
                    ops.push(Op::Text(if *p == "$$" { "$".into() } else { p.to_string() }));
                }
                push(src, ops);
            }
        }
    }
    (
        cases,
        vec![
            format!("every ordered pair of {} tokens, adjacent and separated{}", toks.len(), if o.thorough() { ", bare and in 3 kinds of group" } else { ", alternating between bare and 3 kinds of group" }),
            format!("{n_lits} literals (every base, digits, separator, exponent and suffix, every escape of strings, characters, bytes and C strings, raw ones) and words x 6 places"),
            format!("{n_longs} tokens of up to 2000 characters x 6 places"),
            format!("every run of up to {len} punctuation characters out of {}, joint and split", punct.len()),
        ],
    )
}
