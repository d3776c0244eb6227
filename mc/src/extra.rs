//! Templates at the far ends of what the macros have to handle: deep, long,
//! wide, oddly written; and what is not a template at all.
use crate::core::*;
use crate::model::*;
use crate::shard::{Case, In, Want, IN0};
use crate::template::{Gap::*, *};

const S8: Style = Style::Rows(8);

pub fn tx(s: &str) -> Op {
    Op::Text(s.into())
}

/// A case written down by hand: what it renders and traces for every input.
fn manual(key: String, src: String, ins: &[In], f: impl Fn(In) -> (Vec<Op>, String)) -> Case {
    let mut runs = Vec::new();
    let mut steps = 0;
    for i in ins {
        let (ops, trace) = f(*i);
        steps += ops.len() as u64;
        let m = ideal(&ops, &CFG());
        assert!(!m.net_zero, "{key}");
        runs.push((*i, m.out, trace, None));
    }
    Case { key, src, want: Want::Runs(runs), states: 1, steps }
}

fn reject(key: String, src: String) -> Case {
    Case { key, src, want: Want::Reject, states: 1, steps: 1 }
}

/// Rows each further in than the one before, then back to one of them.
fn staircase(depth: usize, step: usize, back: &[(usize, isize)], blank: usize) -> Body {
    let mut items = Vec::new();
    for k in 0..=depth {
        items.push((Row(if blank > 0 && k % blank == 1 { 1 } else { 0 }, k * step), if k % 3 == 1 { It::Var } else { tok("a") }));
    }
    for (k, (level, off)) in back.iter().enumerate() {
        let col = (level * step) as isize + off;
        items.push((Row(if blank > 0 && k % 2 == 0 { 2 } else { 0 }, col as usize), tok("z")));
        items.push((Sp(1), It::Var));
    }
    body(items)
}

pub fn c15(o: &Opts) -> (Vec<Case>, Vec<String>) {
    let mut v = Vec::new();
    let depths: &[usize] = o.pick(&[1, 5, 17, 33, 65], &[1, 2, 3, 5, 9, 17, 33, 65, 129, 257]);
    for &d in depths {
        for step in [1usize, 4] {
            for blank in [0usize, 3] {
                v.push(case("", staircase(d, step, &[], blank), S8, &QUOTE, 1));
                for r in 0..=d {
                    if d > 17 && r > 2 && r + 2 < d && r % 16 != 0 {
                        continue;
                    }
                    v.push(case("", staircase(d, step, &[(r, 0)], blank), S8, &QUOTE, 1));
                    // And in again, and out.
                    v.push(case("", staircase(d, step, &[(r, 0), (r, 2), (r / 2, 0), (r / 2, 1), (0, 0)], blank), S8, &QUOTE, 1));
                }
            }
        }
    }
    // Many rows, many tokens on a row, many groups.
    let lens: &[usize] = o.pick(&[10, 100, 300], &[10, 100, 127, 128, 255, 256, 257, 1000, 3000]);
    for &n in lens {
        let ks: [&dyn Fn(usize) -> It; 4] = [
            &|_| tok("ab"),
            &|_| It::Var,
            &|i| if i % 2 == 0 { tok("c") } else { It::Var },
            &|i| match i % 5 {
                0 => tok("d"),
                1 => quoted("q"),
                2 => It::Ev("e".into(), "E".into()),
                3 => tok(";"),
                _ => It::Var,
            },
        ];
        for k in ks {
            for g in 0..5usize {
                let gap = |i: usize| match g {
                    0 => Sp(1),
                    1 => Row(0, 0),
                    2 => Row(i % 2, 0),
                    3 => Row(0, (i % 2) * 4),
                    _ => Row(i % 3 / 2, [0, 2, 6, 2][i % 4]),
                };
                v.push(case("", body((0..n).map(|i| (gap(i), k(i))).collect()), S8, &QUOTE, 1));
            }
        }
    }
    let deep: &[usize] = o.pick(&[16, 60], &[16, 60, 100]);
    for &n in deep {
        for rows in 0..3usize {
            let open = |i: usize| ["(", "{", "["][i % 3];
            let close = |i: usize| [")", "}", "]"][i % 3];
            let mut items = Vec::new();
            for i in 0..n {
                items.push((match rows { 0 => Adj, 1 => Row(0, i), _ => Row(0, 0) }, tok(open(i))));
            }
            items.push((Sp(1), It::Var));
            for i in (0..n).rev() {
                items.push((match rows { 0 => Adj, 1 => Row(0, i), _ => Row(1, 0) }, tok(close(i))));
            }
            items[0].0 = Row(0, 0);
            v.push(case("", body(items), S8, &QUOTE, 1));
        }
    }
    // Blank rows and gaps of any size count once.
    let many: &[usize] = o.pick(&[9, 255, 256, 65536], &[9, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536]);
    for &n in many {
        for col in [0usize, 4] {
            for x in [tok("a"), It::Var] {
                v.push(case("", body(vec![(Row(0, 0), x.clone()), (Row(n, col), It::Var), (Row(n - 1, 0), tok("z"))]), S8, &QUOTE, 1));
                v.push(case("", body(vec![(Row(0, col), x.clone()), (Sp(n), It::Var), (Sp(n - 1), tok("z"))]), S8, &QUOTE, 1));
            }
        }
    }
    // Long texts.
    for &n in many.iter().filter(|n| **n < 3000).chain(&[2000, 5000]) {
        let id = "x".repeat(n);
        v.push(case("", body(vec![(Row(0, 0), tok(&id)), (Sp(1), quoted(&id)), (Row(0, 3), tok(&id)), (Adj, It::Var)]), S8, &QUOTE, 1));
    }
    let n = v.len();
    (v, vec![format!("{n} deep, long and wide templates: staircases to depth {} and back to every level, up to {} rows or tokens, groups {} deep, up to {} blank rows or columns", depths.last().unwrap(), lens.last().unwrap(), deep.last().unwrap(), many.last().unwrap())])
}

pub fn c16(o: &Opts, w: &Wrap) -> (Vec<Case>, Vec<String>) {
    let mut v = Vec::new();
    let depths: &[usize] = o.pick(&[2, 8, 33], &[2, 3, 4, 5, 8, 17, 33, 65]);
    for &d in depths {
        for step in [2usize, 3, 8] {
            for blank in [0usize, 3] {
                for r in 0..=d {
                    if d > 17 && r > 2 && r + 2 < d && r % 8 != 0 {
                        continue;
                    }
                    for off in if step == 8 { vec![-7isize, -1, 0, 1, 7] } else { vec![-1, 0, 1] } {
                        if r == 0 && off < 0 {
                            continue;
                        }
                        v.push(case("", staircase(d, step, &[(r, off)], blank), S8, w, 1));
                        v.push(case("", staircase(d, step, &[(d / 2, 0), (r.min(d / 2), off), (0, 0)], blank), S8, w, 1));
                    }
                }
            }
        }
    }
    let n = v.len();
    (v, vec![format!("{n} staircases up to depth {} which return to a level or next to one", depths.last().unwrap())])
}

/// Expressions as they are interpolated: source and what they evaluate to.
const EXPRS: &[(&str, &str)] = &[
    ("{ let q = 1; q + 1 }", "2"),
    ("\"lit\".len()", "3"),
    ("\"li\".to_string() + \"t\"", "lit"),
    ("\"lit\"", "lit"),
    ("(\"lit\")", "lit"),
    ("r\"r\\aw\"", "r\\aw"),
    ("r#\"r\"w\"#", "r\"w"),
    ("\"e\\u{e9}\\\"\"", "e\u{e9}\""),
    ("concat!(\"a\", \"b\")", "ab"),
    ("format!(\"{}{x}\", 1)", "1OUTER"),
    ("format_args!(\"{}{}\", 1, \"y\")", "1y"),
    ("String::from(\"s\")", "s"),
    ("&String::from(\"s\")", "s"),
    ("x.chars().rev().collect::<String>()", "RETUO"),
    ("x[1..3].to_lowercase()", "ut"),
    ("&x[..1]", "O"),
    ("*&x", "OUTER"),
    ("1u8 as u32", "1"),
    ("-1", "-1"),
    ("- 1i64", "-1"),
    ("!0u8", "255"),
    ("1 << 3", "8"),
    ("(1, \"t\").1", "t"),
    ("[1, 2][1]", "2"),
    ("((1))", "1"),
    ("(|q: u8| q + 1)(2)", "3"),
    ("(move || x)()", "OUTER"),
    ("unsafe { 1 }", "1"),
    ("loop { break \"B\" }", "B"),
    ("P { x: 7, y: 2 }.x", "7"),
    ("{ match 1 { 1 => \"one\", _ => \"other\" } }", "one"),
    ("{ if x.len() > 9 { \"long\" } else { \"short\" } }", "short"),
    ("{ for _ in 0..2 {} 5 }", "5"),
    ("<str>::len(x)", "5"),
    ("u8::MAX", "255"),
    ("std::iter::once(1).sum::<u8>()", "1"),
    ("Some(\"some\")", "some"),
    ("None::<u8>", ""),
    ("\"\"", ""),
    ("vec![\"p\", \"q\"]", "pq"),
    ("['w', 'v'].iter().collect::<String>()", "wv"),
    ("iff", "IFF"),
    ("format", "FMT"),
    ("letter", "LTR"),
    ("refer", "REF"),
    ("matched", "MAT"),
    ("joined", "JOIN"),
    ("r#if", "RIF"),
    ("r#for + 1", "5"),
    ("dollar!(x)", "OUTER"),
    ("{ \"lit\" }", "lit"),
    ("\"lit\" as &str", "lit"),
    ("b'a' as char as u32", "97"),
    ("true as u8", "1"),
    ("if_true(\"y\")", "y"),
    ("{ quote!(in $x) }", "in OUTER"),
    ("quote!(in $x)", "in OUTER"),
    ("quote_fn!(fn $x)", "fn OUTER"),
    ("{ let mut q = T::new(); quote_in!(q => w); q }", "w"),
    ("&{ let q: T = quote!(k); q }", "k"),
    ("genco::tokens::from_fn(|t| { t.append(\"f\"); })", "f"),
    ("genco::tokens::quoted(\"q\")", "\u{ab}cfn:^q:cfn\u{bb}"),
    ("genco::tokens::display(5)", "5"),
];
const EXPR_LETS: &str = "let (iff, format, letter, refer, matched, joined, r#if, r#for) = (\"IFF\", \"FMT\", \"LTR\", \"REF\", \"MAT\", \"JOIN\", \"RIF\", 4); macro_rules! dollar { ($e:expr) => { $e } } fn if_true(s: &str) -> &str { s }";

/// Statements which bind: source, name and value of what is bound.
const LETS: &[(&str, &str, &str)] = &[
    ("let q = 1", "q", "1"),
    ("let mut q = 1", "q", "1"),
    ("let (_, q) = (1, \"s\")", "q", "s"),
    ("let P { x: q, .. } = (P { x: 3, y: 0 })", "q", "3"),
    ("let [_, q] = [1, 2]", "q", "2"),
    ("let q = &x[1..]", "q", "UTER"),
    ("let q = { let k = x; k }", "q", "OUTER"),
    ("let q = if n == 2 { \"two\" } else { \"more\" }", "q", "two"),
    ("let q = match x { \"OUTER\" => 1, _ => 2 }", "q", "1"),
    ("let q = format!(\"{x}\")", "q", "OUTER"),
    ("let q = (|k: u8| k + 1)(2)", "q", "3"),
    ("let q = x", "q", "OUTER"),
    ("let x = \"NEW\"", "x", "NEW"),
    ("let (x, y) = (\"NEW\", x)", "y", "OUTER"),
    ("let r#fn = 5", "r#fn", "5"),
    ("let q = vec![\"a\", \"b\"]", "q", "ab"),
    ("let q = quote!(t $x)", "q", "t OUTER"),
    ("let q = &quote!(t $x)", "q", "t OUTER"),
    ("let q @ 1..=9 = 5 else", "", ""),
];

/// Templates which are left, or suspended, in the middle: what was written
/// before that is there, and nothing else.
fn leaves(v: &mut Vec<Case>) {
    // Template, what it writes: `_` is a space, `/` a push, `!k` leaves with n = k.
    const FORMS: &[(&str, &str)] = &[
        ("a $(§) z", "a _ !1 v _ z"),
        ("a$(§)z", "a !1 v z"),
        ("$(§)", "!1 v"),
        ("f(a, $(§), [b])", "f(a, _ !1 v , _ [b])"),
        ("\na\nb $(§)\nc\n", "a / b _ !1 v / c"),
        ("\na\n\n$(§)\n\nc\n", "a / # !1 v / # c"),
        ("$(for q in 0..3 { a$q $(§) })", "a 0 _ !0 v a 1 _ !1 v a 2 _ !2 v"),
        ("p $(for q in 0..3 join (, ) => a$q $(§)) z", "p _ a 0 _ !0 v , _ a 1 _ !1 v , _ a 2 _ !2 v _ z"),
        ("$(for _ in 0..3 join ([$(§)]) => k)", "k [ !1 v ] k [ !1 v ] k"),
        ("$(for q in [0, 1] => $(for w in 0..2 join (;) { $q$w$(§) }))", "0 0 !0 v ; 0 1 !0 v 1 0 !1 v ; 1 1 !1 v"),
        ("a$(if b => b $(§))z", "a b _ !1 v z"),
        ("a$(ref _ { let _ = §; })z", "a !1 z"),
        ("a b$(ref _ => let _ = §;) z", "a _ b !1 _ z"),
        ("f(a$(ref _ { let _ = §; }), b)", "f(a !1 , _ b)"),
        ("$(for q in 0..3 join (;) { a$(ref _ => drop(§);) })", "a !0 ; a !1 ; a !2"),
        ("a$(if b { b $(§) } else { $(§) })z", "a b _ !1 v z"),
        ("a$(if § == \"v\" { y })z", "a !1 y z"),
        ("a $(if let \"v\" = § => y) z", "a _ !1 y _ z"),
        ("a$(for c in (§).split('x') => $c)z", "a !1 v z"),
        ("a$(for c in (§).split('x') join ($(§)) => $c$(§)) z", "a !1 v v _ z"),
        ("a$(match § { \"v\" => y, _ => no })z", "a !1 y z"),
        ("a$(match 0 { 0 if § == \"v\" => y, _ => no })z", "a !1 y z"),
        ("a$(match b { true => { x $(§) } _ => no })z", "a x _ !1 v z"),
        ("a $(let p = §) z$p", "a _ !1 _ z v"),
        ("a $(ref o { o.append(\"r\"); let _ = §; o.append(\"s\"); }) z", "a _ r !1 s _ z"),
        ("a $(ref o => quote_in!(*o => x $(§) y)) z", "a _ x _ !1 v _ y _ z"),
        ("a $(quote!(x $(§))) z", "a _ !1 x _ v _ z"),
        ("a $(quote!(x $(quote!(y $(§))))) $(§)", "a _ !1 x _ y _ v _ v"),
    ];
    // What stands for the value, what stands around the template, how often
    // it is written to the stream; a way which collects a stream of its own.
    const WAYS: &[(&str, &str, usize, bool)] = &[
        ("((q != n).then_some(\"v\")?)", "let _ = (|| -> Option<()> { quote_in! { t => @ } Some(()) })();", 1, false),
        ("(if q == n { Err(\"x\")? } else { \"v\" })", "let _ = (|| -> Result<(), String> { quote_in! { t => @ } Ok(()) })();", 1, false),
        ("({ if q == n { return } \"v\" })", "(|| quote_in! { t => @ })();", 1, false),
        ("({ if q == n { break 'l } \"v\" })", "'l: { quote_in! { t => @ } }", 1, false),
        ("({ if q == n { break 'l } \"v\" })", "'l: loop { quote_in! { t => @ } break }", 1, false),
        ("({ if q == n { continue 'l } \"v\" })", "'l: for _ in 0..2 { quote_in! { t => @ } }", 2, false),
        ("((q != n).then_some(\"v\")?)", "let r: Option<T> = (|| Some(quote! { @ }))(); if let Some(r) = r { t.append(r) }", 1, true),
        ("({ if q == n { break 'l None } \"v\" })", "let r: Option<T> = 'l: { Some(quote! { @ }) }; if let Some(r) = r { t.append(r) }", 1, true),
        ("(later(q == n).await)", "block(async { quote_in! { t => @ } });", 1, false),
        ("(later(q == n).await)", "let r: T = block(async { quote! { @ } }); t.append(r);", 1, false),
    ];
    const ASYNC: &str = "fn later(w: bool) -> impl std::future::Future<Output = &'static str> { let mut w = w; std::future::poll_fn(move |cx| if std::mem::take(&mut w) { cx.waker().wake_by_ref(); std::task::Poll::Pending } else { std::task::Poll::Ready(\"v\") }) }\n\
        fn block<F: std::future::Future>(f: F) -> F::Output { let mut f = std::pin::pin!(f); loop { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) { return r; } } }";
    let ins: Vec<In> = (0..4).map(|n| In { n, ..IN0 }).collect();
    for (f, ops) in FORMS {
        for (value, around, rounds, own) in WAYS {
            let waits = value.contains("await");
            let src = format!("{}let (q, mut t) = (1, T::new());\n{}\nt.push(); t.append(\"end\"); t", if waits { ASYNC } else { "" }, around.replace('@', &f.replace('§', value)));
            let rows = if f.contains('\n') { "rows: " } else { "" };
            v.push(manual(format!("{rows}leave: {src}"), src, &ins, |i| {
                let mut out = Vec::new();
                for _ in 0..*rounds {
                    let at = out.len();
                    for w in ops.split(' ') {
                        out.push(match w {
                            "_" => Op::Space,
                            "/" => Op::Push,
                            "#" => Op::Line,
                            w if w.starts_with('!') => {
                                if !waits && w[1..] == i.n.to_string() {
                                    if *own {
                                        out.truncate(at);
                                    }
                                    break;
                                }
                                continue;
                            }
                            w => tx(w),
                        });
                    }
                }
                out.extend([Op::Push, tx("end")]);
                (out, String::new())
            }));
        }
    }
}

pub fn c17(o: &Opts) -> (Vec<Case>, Vec<String>) {
    let mut v = Vec::new();
    // Interpolations.
    let sp = |s: &str| -> Vec<Op> {
        let mut r = Vec::new();
        for (i, p) in s.split(' ').enumerate() {
            if i > 0 {
                r.push(Op::Space);
            }
            if !p.is_empty() {
                r.push(tx(p));
            }
        }
        r
    };
    let places: &[(&str, &[Op], &str, &[Op])] = &[
        ("", &[], "", &[]),
        ("a ", &[Op::Mark, Op::Space], " z", &[Op::Space, Op::Mark]),
        ("a", &[Op::Mark], "z", &[Op::Mark]),
        ("f(a, ", &[], ")", &[]),
        ("$(if b { ", &[], " } else { no })", &[]),
        ("$(for _ in 0..1 { [", &[], "] })", &[]),
        ("$(for _ in 0..1 join (, ) => ", &[], ")", &[]),
        ("$(match b { false => no, true => ", &[], " })", &[]),
        ("$(match b { false => no, true => (-", &[], "),  })", &[]),
        ("$(let y = x) $y$(if let Some(x) = Some(x) { ", &[], " })", &[]),
    ];
    let around: &[(Vec<Op>, Vec<Op>)] = &[
        (vec![], vec![]),
        (vec![tx("a"), Op::Space], vec![Op::Space, tx("z")]),
        (vec![tx("a")], vec![tx("z")]),
        (vec![tx("f(a,"), Op::Space], vec![tx(")")]),
        (vec![], vec![]),
        (vec![tx("[")], vec![tx("]")]),
        (vec![], vec![]),
        (vec![], vec![]),
        (vec![tx("-")], vec![]),
        (vec![Op::Space, tx("OUTER")], vec![]),
    ];
    for (e, out) in EXPRS {
        for (k, (l, _, r, _)) in places.iter().enumerate() {
            // Nothing at all between two words would join them.
            for (il, ir) in [("", ""), (" ", "  ")] {
                let src = format!("let x = \"OUTER\"; {EXPR_LETS}\nquote! {{ {l}$({il}{e}{ir}){r} }}");
                v.push(manual(format!("{l}$({il}{e}{ir}){r}"), src, &[IN0], |_| {
                    let mut ops = around[k].0.clone();
                    ops.extend(sp(out));
                    ops.extend(around[k].1.clone());
                    (ops, String::new())
                }));
            }
        }
    }
    for (s, name, val) in LETS {
        for (l, r, pre, post) in [("", "", "", ""), ("$(if b { ", " })", "", ""), ("a ", " z", "a", "z"), ("$(for _ in 0..1 join (;) { ", " })", "", ""), ("f(", ")", "f(", ")")] {
            let src = format!("let x = \"OUTER\"; {EXPR_LETS}\nquote! {{ {l}$({s}) [${name}]{r} }}");
            if s.ends_with("else") {
                v.push(reject(format!("{l}$({s}) {r}"), src));
                continue;
            }
            v.push(manual(format!("{l}$({s}) [${name}]{r}"), src, &[IN0], |_| {
                let mut ops = sp(pre);
                if pre == "a" {
                    ops.push(Op::Space);
                }
                ops.push(Op::Space);
                ops.push(tx("["));
                ops.extend(sp(val));
                ops.push(tx("]"));
                if post == "z" {
                    ops.push(Op::Space);
                }
                ops.extend(sp(post));
                (ops, String::new())
            }));
        }
    }
    // Leaving a loop early, or starting its next round.
    let leave: &[(&str, fn(usize, usize) -> Vec<String>)] = &[
        ("break;", |n, k| (0..n.min(k + 1)).map(|i| if i == k { format!("{i}") } else { format!("{i};") }).collect()),
        ("continue;", |n, k| (0..n).map(|i| if i == k { format!("{i}") } else { format!("{i};") }).collect()),
    ];
    for (s, f) in leave {
        for k in 0..4usize {
            for (l, r) in [("$(for q in 0..n { ", " })"), ("$(for q in 0..n => ", ")"), ("$(for q in (0..n).filter(|_| true) { ", " })")] {
                for at in [format!("$(if q == {k} {{ $(ref _ {{ {s} }}) }})"), format!("$(ref _ {{ if q == {k} {{ {s} }} }})"), format!("$(match q {{ {k} => {{ $(ref _ {{ {s} }}) }} _ => {{}} }})")] {
                    let ins: Vec<In> = (0..5).map(|n| In { n, ..IN0 }).collect();
                    let src = format!("quote! {{ {l}$q{at};{r} }}");
                    v.push(manual(src.clone(), src, &ins, |i| (f(i.n, k).iter().map(|s| tx(s)).collect(), String::new())));
                }
            }
        }
    }
    leaves(&mut v);
    // Many rounds.
    let big: &[usize] = o.pick(&[0, 1, 2, 3, 100, 255, 256, 257], &[0, 1, 2, 3, 10, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537]);
    let ins: Vec<In> = big.iter().map(|n| In { n: *n, ..IN0 }).collect();
    let bodies: Vec<Body> = vec![
        one(It::Var),
        body(vec![(Row(0, 4), It::Var), (Row(0, 6), tok("b"))]).rows(4, 2),
        body(vec![(Adj, It::Var), (Adj, It::Ctl('\r'))]),
        body(vec![(Adj, It::If(Cond::Ex("tr(\"?\", b) && n > 0", |i| (i.b && i.n > 0, None)), Form::Brace, one(It::Var), None)), (Sp(1), tok("k"))]),
    ];
    let js: Vec<Option<Body>> = vec![
        None,
        Some(one(tok(",")).sens()),
        Some(one(tok(",")).pad(Some(Sp(1)), Some(Sp(1))).sens()),
        Some(body(vec![(Adj, tok(";")), (Adj, It::Ctl('\r'))]).sens()),
        Some(body(vec![(Adj, It::Ops("$(1 + 1)".into(), vec![tx("2")])), (Adj, It::Ctl('\n'))]).sens()),
        Some(body(vec![(Adj, It::If(Cond::B, Form::Arrow, one(tok("|")), None))]).sens()),
    ];
    for b in &bodies {
        for j in &js {
            for f in [Form::Arrow, Form::Brace] {
                let b = if f == Form::Arrow { b.clone().pad(None, None) } else { b.clone() };
                let it = It::For(f, j.clone(), b);
                let c = case_with("many: ", body(vec![(Row(0, 0), tok("p")), (Sp(1), it), (Row(0, 0), tok("e"))]), S8, &QUOTE, &ins);
                v.push(c);
            }
        }
    }
    // Many arms.
    const ARMS: &[&str] = &["0", "1", "2 if b", "2", "3..=5", "6 | 9", "7", "8", "10..", "_"];
    for forms in 0..3usize {
        for rot in 0..3usize {
            let arms: Vec<(Form, Body)> = (0..ARMS.len())
                .map(|k| {
                    let t = body(vec![(Adj, tok(&format!("r{k}"))), (Sp(2), It::Var)]);
                    match (forms + k * rot) % 3 {
                        0 => (Form::Brace, t.pad(Some(Sp(1)), Some(Sp(1)))),
                        1 => (Form::Arrow, t.pad(Some(Sp(1)), None)),
                        _ => (Form::Paren, t.pad(Some(Sp(k % 3)), Some(Sp(1))).sens()),
                    }
                })
                .collect();
            let pick = |i: In| -> (usize, Option<&'static str>) {
                (
                    match i.m {
                        0 => 0,
                        1 => 1,
                        2 if i.b => 2,
                        2 => 3,
                        3..=5 => 4,
                        6 | 9 => 5,
                        7 => 6,
                        8 => 7,
                        _ => 8,
                    },
                    None,
                )
            };
            let ins: Vec<In> = (0..=12u8).flat_map(|m| [true, false].map(|b| In { n: 1, b, m })).collect();
            for (head, ctx) in [("tr(\"m\", m)", 0), ("{ tr(\"m\", m) }", 1)] {
                let it = It::MatchX(head, ARMS, pick, arms.clone());
                let b = if ctx == 0 { one(it) } else { body(vec![(Row(0, 0), tok("p")), (Row(0, 4), it), (Row(0, 0), tok("e"))]) };
                v.push(case_with("arms: ", b, S8, &QUOTE, &ins));
            }
        }
    }
    // Deeply nested statements.
    let deep = o.pick(9, 14);
    for d in 1..=deep {
        for kind in 0..6usize {
            let mut b = body(vec![(Row(0, 4 * d), It::Var), (Row(0, 4 * d + 2), tok("w"))]).rows(4 * d, 0);
            for l in (0..d).rev() {
                let c = 4 * l;
                let it = match if kind == 5 { l % 5 } else { kind } {
                    0 => It::If(Cond::B, Form::Brace, b, Some(one(tok("e")))),
                    1 => It::If(Cond::NotB, Form::Brace, one(tok("t")), Some(b)),
                    2 => It::Over("x in 0..1", |_| vec!["0".into()], Form::Brace, Some(one(tok(",")).sens()), b),
                    3 => It::Match(vec![(Form::Brace, b), (Form::Arrow, one(tok("o")).pad(Some(Sp(1)), None))], true),
                    _ => It::Match(vec![(Form::Arrow, one(tok("o")).pad(Some(Sp(1)), None)), (Form::Brace, b)], false),
                };
                let mut items = vec![(Row(0, c), tok("q"))];
                items.push((if l % 2 == 0 { Sp(1) } else { Row(0, c) }, it));
                if l % 3 == 0 {
                    items.push((Row(0, c), tok("u")));
                }
                b = body(items).rows(c, 0);
            }
            // `tr("i")` is only traced by `For`.
            let c = case("deep: ", b, S8, &QUOTE, 1);
            v.push(strip_loop_trace(c));
        }
    }
    let n = v.len();
    (
        v,
        vec![format!(
            "{n} templates: {} forms of interpolated expression x {} places, {} forms of let, break and continue, loops of up to {} rounds with and without joins, matches of {} arms, statements {deep} deep",
            EXPRS.len(),
            places.len(),
            LETS.len(),
            big.last().unwrap(),
            ARMS.len()
        )],
    )
}

/// The model traces the iterator of every loop; these loops do not.
fn strip_loop_trace(mut c: Case) -> Case {
    if let Want::Runs(r) = &mut c.want {
        for (_, _, t, _) in r {
            *t = t.replace("i ", "");
        }
    }
    c
}

/// Where a stream can be written to: setup, target, how the stream is got back.
pub fn c18(o: &Opts) -> (Vec<Case>, Vec<String>) {
    let targets: &[(&str, &str, &str)] = &[
        ("struct S { t: T, k: u8 } let mut s = S { t: T::new(), k: 0 };", "s.t", "s.t"),
        ("struct S { t: T, k: u8 } let mut s = S { t: T::new(), k: 0 }; let r = &mut s;", "r.t", "s.t"),
        ("let mut s = (1, T::new());", "s.1", "s.1"),
        ("let mut s = vec![T::new(), T::new()];", "s[1]", "s.remove(1)"),
        ("let mut s = [T::new(), T::new()];", "s[s.len() - 1]", "{ let [_, s] = s; s }"),
        ("let mut s = Box::new(T::new());", "*s", "*s"),
        ("let mut s = T::new(); fn f<'a>(t: &'a mut T) -> &'a mut T { t }", "*f(&mut s)", "s"),
        ("let mut s = T::new();", "(s)", "s"),
        ("let mut s = T::new();", "*(&mut s)", "s"),
        ("let mut s = T::new();", "*{ tr(\"t\", ()); &mut s }", "s"),
        ("let mut s = T::new(); let mut u = T::new();", "*(if tr(\"t\", b) { &mut s } else { &mut u })", "s"),
        ("let mut s = T::new();", "*match tr(\"t\", m) { 0 => &mut s, _ => unreachable!() }", "s"),
        ("let mut s = Some(T::new());", "*s.as_mut().unwrap()", "s.unwrap()"),
        ("let mut s = None;", "*s.get_or_insert_with(T::new)", "s.unwrap()"),
        ("let s = RefCell::new(T::new());", "*s.borrow_mut()", "s.into_inner()"),
        ("let mut s = std::collections::BTreeMap::new();", "*s.entry(1).or_insert_with(T::new)", "s.remove(&1).unwrap()"),
        ("struct S { t: T } impl S { fn go(&mut self, x: &str, b: bool, n: usize, m: u8) { quote_in! { self.t => @ } } } let mut s = S { t: T::new() }; s.go(x, b, n, m);", "", "s.t"),
        ("struct S { t: T } impl S { fn t(&mut self) -> &mut T { &mut self.t } fn go(&mut self, x: &str, b: bool, n: usize, m: u8) { quote_in! { *self.t() => @ } } } let mut s = S { t: T::new() }; s.go(x, b, n, m);", "", "s.t"),
        ("fn go(t: &mut T, x: &str, b: bool, n: usize, m: u8) { quote_in! { *t => @ } } let mut s = T::new(); go(&mut s, x, b, n, m);", "", "s"),
        ("fn go<L: genco::lang::Lang>(t: &mut genco::Tokens<L>, x: &str, b: bool, n: usize, m: u8) { quote_in! { *t => @ } } let mut s = T::new(); go(&mut s, x, b, n, m);", "", "s"),
        ("fn go<L: genco::lang::Lang>(x: &str, b: bool, n: usize, m: u8) -> genco::Tokens<L> { quote! { @ } } let s: T = go(x, b, n, m);", "", "s"),
        ("fn go<'a, L: genco::lang::Lang>(x: &'a str, b: bool, n: usize, m: u8) -> impl genco::tokens::FormatInto<L> + 'a { quote_fn! { @ } } let mut s = T::new(); s.append(go(x, b, n, m));", "", "s"),
        ("struct S<'a>(&'a str, bool, usize, u8); impl<'a, L: genco::lang::Lang> genco::tokens::FormatInto<L> for S<'a> { fn format_into(self, t: &mut genco::Tokens<L>) { let S(x, b, n, m) = self; quote_in! { *t => @ } } } let mut s = T::new(); s.append(S(x, b, n, m));", "", "s"),
        ("let mut s = T::new(); [()].into_iter().for_each(|()| { quote_in! { s => @ } });", "", "s"),
        ("let mut s = T::new(); let mut go = |k: u8| quote_in! { s => @ }; go(0);", "", "s"),
        ("let mut s = T::new(); std::thread::scope(|c| { let _ = &c; quote_in! { s => @ }; });", "", "s"),
        ("let s: T = async_free(|| quote! { @ }); fn async_free(f: impl FnOnce() -> T) -> T { f() }", "", "s"),
        ("let s: T = { let r: Result<T, ()> = (|| { let x = Ok(x)?; Ok(quote! { @ }) })(); r.unwrap() };", "", "s"),
        ("let s = match quote! { @ } { s => { let s: T = s; s } };", "", "s"),
        ("let s: Vec<T> = vec![quote! { @ }]; let mut s = s;", "", "s.remove(0)"),
        ("let s = [quote! { @ }, quote!(no)]; let [s, _]: [T; 2] = s;", "", "s"),
        ("let s: T = if b { quote! { @ } } else { quote! { @ } };", "", "s"),
        ("let s: T = Some(quote! { @ }).filter(|t: &T| !t.is_empty() || true).unwrap();", "", "s"),
    ];
    let templates: Vec<(&str, fn(In) -> (Vec<Op>, String))> = vec![
        ("", |_| (vec![], String::new())),
        ("a", |_| (vec![tx("a")], String::new())),
        ("$x b", |_| (vec![tx("OUTER"), Op::Space, tx("b")], String::new())),
        ("a $(if b { $x }) c", |_| (vec![tx("a"), Op::Space, tx("OUTER"), Op::Space, tx("c")], String::new())),
        ("$(for q in 0..n join (, ) => $q)", |i| {
            let mut v = vec![];
            for k in 0..i.n {
                if k > 0 {
                    v.extend([tx(","), Op::Space]);
                }
                v.push(tx(&k.to_string()));
            }
            (v, String::new())
        }),
        ("$(match m { 0 => $x, _ => no });", |_| (vec![tx("OUTER;")], String::new())),
        ("$(ref q { quote_in!(*q => w $x) }) \"s\"", |_| (vec![tx("w"), Op::Space, tx("OUTER"), Op::Space, tx("«cfn:^s:cfn»")], String::new())),
        ("$[str](a $x)", |_| (vec![tx("«cft:^a^ cf{x}cf:cft»")], String::new())),
        ("$(if b { $[str]($($x) a) }) $x", |_| (vec![tx("«cft:cf{OUTER}cf^ ^a:cft»"), Op::Space, tx("OUTER")], String::new())),
        ("$(let x = \"I\") $x$['\\r']$x", |_| (vec![Op::Space, tx("I"), Op::Push, tx("I")], String::new())),
    ];
    let mut v = Vec::new();
    for (k, (setup, target, out)) in targets.iter().enumerate() {
        for (t, f) in &templates {
            let eval = t.contains("[str]");
            for form in 0..3usize {
                let setup = if eval { setup.replace("L: genco::lang::Lang", "L: genco::lang::LangSupportsEval") } else { setup.to_string() };
                let mut src = format!("let x = \"OUTER\";\n{setup}\n");
                let mut times = 1;
                if target.is_empty() {
                    if form > 0 {
                        continue;
                    }
                    src = src.replace('@', t);
                } else {
                    match form {
                        0 => src.push_str(&format!("quote_in! {{ {target} => {t} }}\n")),
                        1 => src.push_str(&format!("quote_in!({target} => {t});\n")),
                        _ => {
                            times = 2;
                            src.push_str(&format!("quote_in![{target} => {t}];\nquote_in! {{ {target} =>\n{t}\n}}\n"));
                        }
                    }
                }
                src.push_str(out);
                // A language which is not known cannot be asked for quotes, but
                // the template does not need to know it.
                let ins: Vec<In> = (0..3).map(|n| In { n, ..IN0 }).collect();
                let tr = target.contains("tr(");
                let c = manual(format!("target {k} form {form}: {t}"), src, &ins, |i| {
                    let (ops, _) = f(i);
                    let mut all = Vec::new();
                    let mut trace = String::new();
                    for _ in 0..times {
                        all.extend(ops.iter().cloned());
                        if tr {
                            trace.push_str("t ");
                        }
                    }
                    (all, trace)
                });
                v.push(c);
            }
        }
    }
    let _ = o;
    let n = v.len();
    (v, vec![format!("{n} uses: {} places a stream can live or a template can stand (fields, elements, boxes, cells, maps, generic functions, closures, results) x {} templates x 3 ways to write the invocation", targets.len(), templates.len())])
}

/// What is not a template does not compile, wherever it stands.
pub fn c26(o: &Opts) -> crate::core::Stats {
    let toks: &[&str] = &["a", ";", ",", "\"s\"", "1", "(a)", "{ a }", "[a]", "=> a", "$x", "$(x)", "$[' ']", "+", "'c'", "if b { a }", "join (,)", "$$"];
    let mut bad: Vec<String> = Vec::new();
    let mut good: Vec<String> = Vec::new();
    // Complete statements, and something after them.
    let whole: &[(&str, &[&str])] = &[
        ("if b { a }", &[]),
        ("if b { a } else { c }", &[]),
        ("if let Some(_) = Some(b) { a }", &[]),
        ("for _ in 0..n { a }", &[]),
        ("for _ in 0..n join (, ) { a }", &[]),
        ("for (_, [q, ..]) in [(b, [n, n])] join (, ) { $q }", &[]),
        ("for &q @ 0..=255 in &[n as u8] join (, ) { $q }", &[]),
        ("match b { _ => a }", &[]),
        ("match b { true => { a } false => { c } }", &[]),
        ("ref q { q.append(\"a\") }", &[]),
        ("ref _ { }", &[]),
        ("\"lit\"", &["+", "(a)"]),
        ("x", &["+", "(a)", "[a]", "if b { a }"]),
        ("tr(\"e\", x)", &["+"]),
        ("let q = x", &["+"]),
    ];
    for (s, skip) in whole {
        good.push(format!("$({s})"));
        for t in toks {
            if skip.contains(t) || s.starts_with(['x', 'l', 't', '"']) && (t.starts_with(['(', '[', '{', '+']) || *t == "if b { a }") {
                continue;
            }
            bad.push(format!("$({s} {t})"));
        }
        if s.ends_with('}') && !s.starts_with("if") || s.contains("else") {
            bad.push(format!("$({s} else {{ d }})"));
        }
    }
    // Incomplete statements.
    for s in [
        "", "if", "if b", "if { a }", "if => a", "if b { a } else", "if b { a } else if b { c }", "if b { a } else => c", "if b (a)", "if b [a]", "if let { a }", "if let Some(_) { a }", "for", "for _",
        "for _ in 0..n", "for { a }", "for _ { a }", "for in 0..n { a }", "for _ in { a }", "for _ in => a", "for _ of 0..n { a }", "for _ in 0..n join { a }", "for _ in 0..n join => a",
        "for _ in 0..n join [,] => a", "for _ in 0..n join {,} => a", "for _ in 0..n join , => a", "for _ in 0..n (a)", "for _ in 0..n join (,)", "for _ in 0..n join (,) (a)", "for _ in 0..n join (,) join (;) => a", "for _ in n => a",
        "for 1 in 0..n => a", "for 1 in 0..n join (,) => a", "for Some(_) in [Some(n)] { a }", "for Some(_) in [Some(n)] join (,) { a }", "for (_, true) in [(n, b)] => a", "for (_, true) in [(n, b)] join (,) => a",
        "for \"a\" in [x] { a }", "for \"a\" in [x] join (,) { a }", "for &0 in &[n] join (, ) => a", "for [q] in [&[n][..]] join (,) => $q", "let Some(q) = Some(n)", "let (true, q) = (b, n)", "let Some(q) = Some(n) else { return T::new() }", "if let Some(_) = Some(b)", "match", "match b", "match { }", "match b { }", "match b { true => a }", "match b { true { a } _ { c } }", "match b { true -> a, _ -> c }", "match b { => a }", "match b { true => { a } ; _ => a }", "match b (_ => a)",
        "match b { _ if => a }", "match b { _ => a } => a", "let", "let q", "let = 1", "let q =", "let 1 = 2", "let q: = 1", "ref", "ref q", "ref { }", "ref 1 { }", "ref q ( )", "ref q q { }", "ref _",
        "a b", "a, b", "a;", "missing", "missing.len()", "x.missing()", "1 +", ", x", "* x x", "\"a\" \"b\"", "while b { a }", "'c'", "()", "1.0.0.0",
    ] {
        bad.push(format!("$({s})"));
    }
    // Functions: only these, written like this.
    for name in ["str", "const", "quoted", "string", "Str", "STR", "st", "s", "_str", "if", "for", "'\\n'", "' '", "'\\r'", "'\\t'", "'x'", "'\\0'", "'\\''", "'\u{a0}'", "\"str\"", "\" \"", "1", "", "str str", "' ' ' '", "str, str", "str;", "' ',", "(str)", "r#str", "b' '"] {
        for arg in ["", "()", "(a)", "( \"a\" )", "(\n)"] {
            // `$[const](..)` exists inside of strings only.
            let ok = match (name, arg) {
                ("str", "" | "(\n)") => false,
                ("str", _) => true,
                // A raw identifier is the same name.
                ("r#str", _) => continue,
                ("'\\n'" | "' '" | "'\\r'", "") => true,
                _ => false,
            };
            if ok {
                good.push(format!("$[{name}]{arg}"));
            } else {
                bad.push(format!("$[{name}]{arg}"));
            }
        }
    }
    // Inside of a string only `const` is one.
    for name in ["str", "quoted", "string", "Const", "CONST", "cons", "c", "_const", "if", "for", "match", "let", "ref", "'\\n'", "' '", "'\\r'", "'x'", "\"const\"", "1", "", "const const", "const, const", "const;", "(const)", "static", "literal", "eval", "join"] {
        for arg in ["", "()", "(a)", "(x)", "( \"a\" )", "($x)", "[x]", " x"] {
            bad.push(format!("$[str](a $[{name}]{arg} b)"));
        }
    }
    for arg in ["", " ", "()", "[x]", "{x}", " x", "(x,)", "(x;)", "(x x)", "(\"a\" \"b\")", "(\"a\",)", "(,)", "(a)", "($x)", "(let q = 1)", "(if b { x })", "(#x)"] {
        bad.push(format!("$[str](a $[const]{arg} b)"));
    }
    for arg in ["(x)", "( x )", "(\"a\")", "({ x })", "(if b { x } else { \"\" })", "(String::new())", "(\"a\".to_string())", "(n)"] {
        good.push(format!("$[str](a $[const]{arg} b)"));
    }
    for s in ["$[str]($[str](a))", "$[str]($[' '])", "$[str](a $[const])", "$[str]($[const]())", "$[str]($[const](a b))", "$[str]($[const](missing))", "$[str]($[foo](a))", "$[str]($[const x](a))", "$[str]($[\"const\"](a))", "$[str]($($(a b)))", "$[str]($($(if b)))"] {
        bad.push(s.into());
    }
    // Wherever it stands.
    let places: &[&str] = &[
        "@",
        "a @ b",
        "\n        p\n            @\n        q\n    ",
        "f(@)",
        "{[ @ ]}",
        "$(if b { @ })",
        "$(if b => @)",
        "$(if b { a } else { @ })",
        "$(for _ in 0..n { @ })",
        "$(for _ in 0..n => @)",
        "$(for _ in 0..n join (@) => a)",
        "$(match b { _ => { @ } })",
        "$(match b { _ => (@) })",
        "$(match b { true => a, _ => k @ })",
        "$[str](a $(@))",
        "$(ref q { quote_in!(*q => @) })",
        "$(quote!(@))",
    ];
    let invokes: &[(&str, &str)] = &[("quote! { ", " }"), ("{ let mut q = T::new(); quote_in! { q => ", " } q }"), ("{ let mut q = T::new(); q.append(quote_fn! { ", " }); q }")];
    let mut cases = Vec::new();
    let (nb, ng) = (bad.len(), good.len());
    for (list, ok) in [(bad, false), (good, true)] {
        for s in &list {
            for p in places {
                if s.contains('\n') && p.contains("str") {
                    continue;
                }
                // A control directly before a parenthesis would be a call.
                for (l, r) in invokes {
                    let src = format!("let x = \"OUTER\";\nlet _: T = {l}{}{r};\nT::new()", p.replace('@', s));
                    let key = format!("{l}{}{r}", p.replace('@', s));
                    if ok {
                        let mut c = manual(key, src.replace("let _: T = ", "let _ = || -> T { ").replacen(";\nT::new()", " };\nT::new()", 1), &[IN0], |_| (vec![], String::new()));
                        c.steps = 1;
                        cases.push(c);
                    } else {
                        cases.push(reject(key, src));
                    }
                }
            }
        }
    }
    // Invocations.
    for s in [
        "quote_in! { }", "quote_in! { q }", "quote_in! { q, a }", "quote_in! { => a }", "quote_in! { q -> a }", "quote_in! { k => a }", "quote_in! { 1 => a }", "quote_in! { q => => $(if) }", "quote_in! { q q => a }", "quote_in! { &q => a }",
        "let k: u8 = quote! { a }", "quote_in! { *q => a }", "quote! { $missing }", "quote_fn! { $missing }", "quote_in! { missing => a }", "let k: &T = quote! { a }",
    ] {
        cases.push(reject(format!("invocation {s}"), format!("let mut q = T::new(); let k = T::new();\n{s};\nT::new()")));
    }
    crate::macros::decide(o, "C26", (cases, vec![format!("{nb} malformed and {ng} wellformed pieces of template x {} places x {} macros", places.len(), invokes.len())]))
}

/// Strings with many pieces, deep groups and far apart pieces.
pub fn c19(o: &Opts) -> (Vec<Case>, Vec<String>) {
    let esc = |s: &str| -> String { s.chars().flat_map(|c| ['^', c]).collect() };
    // Source, contribution, evaluated, trace.
    let pieces: [(&str, String, bool, &str); 5] = [
        ("ab", esc("ab"), false, ""),
        ("$y", "cf{y}cf".into(), true, ""),
        ("$[const](tr(\"k\", \"v\"))", esc("v"), false, "k "),
        ("$(y)", "cf{y}cf".into(), true, ""),
        ("$$", esc("$"), false, ""),
    ];
    let mut v = Vec::new();
    let mut add = |key: String, src: String, out: String, eval: bool, trace: String| {
        let k = if eval { 't' } else { 'n' };
        for (l, r, pre, post) in [("", "", "", ""), ("a ", ";", "a ", ";"), ("$(if b { ", " })", "", "")] {
            let full = format!("{l}$[str]({src}){r}");
            let text = format!("{pre}«cf{k}:{out}:cf{k}»{post}");
            let m = vec![(IN0, text, trace.clone(), None)];
            v.push(Case { key: format!("{key}{full}"), src: format!("let x = \"OUTER\";\nquote! {{ {full} }}"), want: Want::Runs(m), states: 1, steps: 1 });
        }
    };
    let lens: &[usize] = o.pick(&[2, 7, 40, 128], &[2, 3, 7, 16, 40, 127, 128, 129, 256, 700]);
    for &n in lens {
        for a in 0..pieces.len() {
            for b in 0..pieces.len() {
                for g in [1usize, 2] {
                    let (mut src, mut out, mut eval, mut tr) = (String::new(), String::new(), false, String::new());
                    for i in 0..n {
                        let p = &pieces[if i % 2 == 0 { a } else { b }];
                        if i > 0 {
                            let w = if i % 3 == 0 { g } else { 1 };
                            src.push_str(&" ".repeat(w));
                            out.push_str(&esc(&" ".repeat(w)));
                        }
                        src.push_str(p.0);
                        out.push_str(&p.1);
                        eval |= p.2;
                        tr.push_str(p.3);
                    }
                    add("".into(), src, out, eval, tr);
                }
            }
        }
    }
    let gaps: &[usize] = o.pick(&[4, 60, 255, 256], &[4, 15, 16, 60, 127, 128, 254, 255, 256, 257, 1000, 65535, 65536]);
    for &n in gaps {
        for a in &pieces {
            for b in &pieces {
                let s = " ".repeat(n);
                add("".into(), format!("{}{s}{}", a.0, b.0), format!("{}{}{}", a.1, esc(&s), b.1), a.2 || b.2, format!("{}{}", a.3, b.3));
                add("".into(), format!("{s}{}(  {}){s}", a.0, b.0), format!("{}{}{}{}{}{}", esc(&s), a.1, esc("(  "), b.1, esc(")"), esc(&s)), a.2 || b.2, format!("{}{}", a.3, b.3));
            }
        }
    }
    let deep: &[usize] = o.pick(&[3, 30], &[1, 2, 3, 4, 8, 30, 60]);
    for &n in deep {
        for p in &pieces {
            for g in 0..3usize {
                let (mut l, mut r, mut lo, mut ro) = (String::new(), String::new(), String::new(), String::new());
                for i in 0..n {
                    let (x, y) = [("(", ")"), ("[", "]"), ("{", "}")][(i + g) % 3];
                    let sp = " ".repeat(if g == 0 { 0 } else { (i + g) % 3 });
                    l.push_str(x);
                    l.push_str(&sp);
                    lo.push_str(&esc(x));
                    lo.push_str(&esc(&sp));
                    r = format!("{sp}{y}{r}");
                    ro = format!("{}{}{ro}", esc(&sp), esc(y));
                }
                add("".into(), format!("{l}{}{r}", p.0), format!("{lo}{}{ro}", p.1), p.2, p.3.into());
                add("".into(), format!("{l}{r} {}", p.0), format!("{lo}{ro}{}{}", esc(" "), p.1), p.2, p.3.into());
            }
        }
    }
    // Long pieces.
    for &n in o.pick(&[200, 5000][..], &[33, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097, 5000, 65537][..]) {
        let w = "wé".repeat(n / 2);
        for (p, out) in [(w.clone(), w.clone()), ("1".repeat(n), "1".repeat(n)), (format!("\"{w} {w}\""), format!("\"{w} {w}\"")), (format!("$[const](\"{w} {w}\")"), format!("{w} {w}"))] {
            add("".into(), p.clone(), esc(&out), false, "".into());
            add("".into(), format!("{p} $y {p} ({p})"), format!("{}cf{{y}}cf{}", esc(&format!("{out} ")), esc(&format!(" {out} ({out})"))), true, "".into());
        }
        add("".into(), format!("a $({w})"), format!("{}cf{{{w}}}cf", esc("a ")), true, "".into());
    }
    // Strings in evaluations in strings.
    for n in 1..=o.pick(4, 7) {
        let (mut src, mut out) = ("y".to_string(), "y".to_string());
        for i in 0..n {
            src = format!("f($[str](s{i} $({src}) e))");
            out = format!("f(«cft:{}cf{{{out}}}cf{}:cft»)", esc(&format!("s{i} ")), esc(" e"));
        }
        add("".into(), format!("$({src})"), format!("cf{{{out}}}cf"), true, String::new());
    }
    let n = v.len();
    (v, vec![format!("{n} long strings: up to {} pieces, {} columns apart, groups {} deep, strings in strings", lens.last().unwrap(), gaps.last().unwrap(), deep.last().unwrap())])
}

/// Names which the surroundings of a template may use: those any generator
/// would, and every one which occurs in the sources of the macros.
fn names() -> (Vec<String>, Vec<String>) {
    const KEYWORDS: &[&str] = &[
        "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut",
        "override", "priv", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
    ];
    let mut all: std::collections::BTreeSet<String> = [
        "i", "j", "k", "t", "o", "out", "it", "iter", "iterator", "item", "items", "e", "el", "element", "v", "val", "value", "first", "last", "next", "peek", "prev", "idx", "index", "count", "len", "n0", "s", "st", "str", "string", "buf", "buffer", "tok",
        "toks", "tokens", "receiver", "target", "stream", "module", "expr", "cond", "condition", "pattern", "pat", "join", "sep", "body", "then", "otherwise", "tmp", "temp", "res", "result", "r", "w", "writer", "f", "fmt", "formatter", "name", "content",
        "text", "literal", "lit", "scope", "span", "start", "end", "line", "column", "quote", "quoted", "quote_in", "quote_fn", "genco_toks", "a", "c", "d", "g", "h", "l", "p", "q2", "u", "y", "z", "Token", "Tokens", "Item", "ItemStr", "Lang", "FormatInto", "FromFn",
        "Static", "Literal", "OpenEval", "CloseEval", "OpenQuote", "CloseQuote", "Push", "Line", "Space", "Indentation", "Peekable", "Iter", "First", "Join",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for f in crate::shard::macro_sources() {
        let mut w = String::new();
        for c in f.chars().chain([' ']) {
            if c.is_ascii_alphanumeric() || c == '_' {
                w.push(c);
            } else {
                all.insert(std::mem::take(&mut w));
            }
        }
    }
    // Names which start with an underscore are left to the macros, the rest is
    // what the generated program around the templates needs itself.
    all.retain(|w| w.starts_with(|c: char| c.is_ascii_alphabetic()) && w.len() < 40 && !KEYWORDS.contains(&w.as_str()) && !["genco", "tr", "ap", "b", "n", "m", "i", "tl", "go", "main"].contains(&w.as_str()));
    let (upper, lower): (Vec<String>, Vec<String>) = all.into_iter().partition(|w| w.starts_with(|c: char| c.is_ascii_uppercase()));
    let own = [
        "T", "I", "TL", "Imp", "P", "C", "Lie", "Unfused", "RefCell", "Write", "TR", "CS", "Some", "None", "Ok", "Err", "Option", "Result", "String", "Vec", "Box", "IntoIterator", "Iterator", "Into", "From", "Default", "Clone", "Copy", "Fn", "FnMut", "FnOnce", "Drop", "Send",
        "Sync", "Sized", "ToString", "ToOwned", "AsRef", "AsMut", "Extend", "ExactSizeIterator", "DoubleEndedIterator", "PartialEq", "Eq", "PartialOrd", "Ord", "TryFrom", "TryInto", "FromIterator", "Debug", "Hash", "Unpin",
    ];
    (lower, upper.into_iter().filter(|w| !own.contains(&w.as_str())).collect())
}

/// A template means the same whatever the names around it.
pub fn c27(o: &Opts) -> crate::core::Stats {
    let (lower, upper) = names();
    let t = tx;
    let s = || Op::Space;
    let q = |x: &str| tx(&format!("«cft:{x}:cft»"));
    // Template, what it renders where `@` is "V".
    let forms: Vec<(&str, Vec<Op>)> = vec![
        ("$@", vec![t("V")]),
        ("a $(@) f($@);", vec![t("a"), s(), t("V"), s(), t("f(V);")]),
        ("$(@.len()) $(*&@) $@.len()", vec![t("1"), s(), t("V"), s(), t("V.len()")]),
        ("$(for _ in 0..2 { $@ })", vec![t("VV")]),
        ("$(for _ in 0..2 => $@ $(@.len()))", vec![t("V"), s(), t("1V"), s(), t("1")]),
        ("$(for _ in 0..2 join ($@) => k)", vec![t("kVk")]),
        ("$(for _ in 0..2 join ( $(@.len()) ) { k$@ })", vec![t("kV"), s(), t("1"), s(), t("kV")]),
        ("$(for _ in @.chars() => k)", vec![t("k")]),
        ("$(for _ in @.chars() join (,) { k$@ })", vec![t("kV")]),
        ("$(for @ in [\"p\", \"r\"] { $@ }) $@", vec![t("pr"), s(), t("V")]),
        ("$(for @ in [\"p\", \"r\"] join (, ) => $@) $@", vec![t("p,"), s(), t("r"), s(), t("V")]),
        ("$(for (_, @) in [\"p\", \"r\"].iter().enumerate() join (, ) => $(*@)$(*@))", vec![t("pp,"), s(), t("rr")]),
        ("$(if @ == \"V\" { $@ } else { no })", vec![t("V")]),
        ("$(if @ != \"V\" => no)$(if !@.is_empty() => $@)", vec![t("V")]),
        ("$(if @ != \"V\" { no } else { $(@) })", vec![t("V")]),
        ("$(if let Some(@) = Some(\"p\") { $@ }) $@", vec![t("p"), s(), t("V")]),
        ("$(if let Some(zzk) = @.chars().next() { $(zzk.len_utf8()) $@ })", vec![t("1"), s(), t("V")]),
        ("$(match @ { \"V\" => $@, _ => no })", vec![t("V")]),
        ("$(match \"p\" { @ => { $@ } }) $@", vec![t("p"), s(), t("V")]),
        ("$(match Some(\"p\") { Some(@) if @ == \"p\" => ($@ ), _ => no })$@", vec![t("p"), s(), t("V")]),
        ("$(match 0 { 0 if @ == \"V\" => ( $@), _ => { no } })", vec![s(), t("V")]),
        ("$(let @ = \"p\") $@", vec![s(), t("p")]),
        ("$(let zzk = @) $zzk", vec![s(), t("V")]),
        ("$(let @ = (@, 1).0) $@", vec![s(), t("V")]),
        ("$(ref @ => @.append(\"p\")) $@", vec![t("p"), s(), t("V")]),
        ("$(ref @ { quote_in!(*@ => p$(for _ in 0..2 join (,) => k)) }) $@", vec![t("pk,k"), s(), t("V")]),
        ("$(ref zzk => zzk.append(@))", vec![t("V")]),
        ("$(ref zzk => quote_in!(*zzk => $@ $(if true => $@)))", vec![t("V"), s(), t("V")]),
        ("$(ref _ => _ = @) $@", vec![s(), t("V")]),
        ("$[str](a $@)", vec![q("^a^ cf{@}cf")]),
        ("$[str](a $(@) $[const](@))", vec![q("^a^ cf{@}cf^ ^V")]),
        ("$[str]($($[str](c $@)))", vec![q("cf{«cft:^c^ cf{@}cf:cft»}cf")]),
        ("$(quote!($@ $(for _ in 0..2 => $@)))", vec![t("V"), s(), t("VV")]),
        ("$(quote_fn! { $@ }) $(move || @)", vec![]),
        ("$({ let zzk = @; zzk }) $({ let @ = \"p\"; @ }) $@", vec![t("V"), s(), t("p"), s(), t("V")]),
        ("$(register(rust_none(@))) $@", vec![]),
        ("$(if true { $(for _ in 0..1 { $(match 0 { _ => { $(let zzk = @) $zzk $@ } }) }) })", vec![s(), t("V"), s(), t("V")]),
        ("\n        a\n          $@\n            $(@)\n        $@\n    ", vec![t("a"), Op::Ind(1), Op::Push, t("V"), Op::Ind(1), Op::Push, t("V"), Op::Ind(-2), Op::Push, t("V")]),
    ];
    // In a string it is the name which is shown.
    let named = |ops: &[Op], name: &str| -> Vec<Op> {
        ops.iter()
            .map(|op| match op {
                Op::Text(x) => Op::Text(x.replace("{@}", &format!("{{{name}}}"))),
                other => other.clone(),
            })
            .collect()
    };
    let mut cases = Vec::new();
    let mut add = |key: String, src: String, ops: Vec<Op>| {
        cases.push(manual(key, src, &[IN0], |_| (ops.clone(), String::new())));
    };
    let usable = |f: &(&str, Vec<Op>)| !f.1.is_empty();
    let defs: &[(&str, &str)] = &[
        ("let", "let @ = \"V\";"),
        ("mut", "let mut @ = \"V\"; @ = \"V\";"),
        ("match", "match \"V\" { @ => {"),
        ("for", "for @ in [\"V\"] { return {"),
    ];
    let mut n = 0;
    for w in &lower {
        for (di, (d, def)) in defs.iter().enumerate() {
            for (fi, f) in forms.iter().enumerate().filter(|f| usable(f.1)) {
                if di > 0 && !o.thorough() && (fi + n) % 6 != di {
                    continue;
                }
                let ops = named(&f.1, w);
                let tpl = f.0.replace('@', w);
                let def = def.replace('@', w);
                let (src, how) = match (fi + n) % 3 {
                    0 => (format!("{def}\nquote! {{ {tpl} }}"), "quote!"),
                    1 => (format!("{def}\nlet mut zzq = T::new(); quote_in! {{ zzq => {tpl} }} zzq"), "quote_in!"),
                    _ => (format!("{def}\nlet mut zzq = T::new(); zzq.append(quote_fn! {{ {tpl} }}); zzq"), "quote_fn!"),
                };
                let src = match di {
                    2 => format!("{src} }}}}"),
                    3 => format!("{src} }} }} unreachable!()"),
                    _ => src,
                };
                add(format!("{d} {w}: {how} {tpl}"), src, ops);
            }
        }
        // Functions, targets, and what is left of the bindings of a template.
        for (k, (src, ops)) in [
            ("fn @() -> &'static str { \"V\" }\nquote! { $(@()) $(for _ in 0..2 join ($(@())) => $(@())) $(if @() == \"V\" { $(@()) }) $(match @() { _ => $(@()) }) $(let zzk = @()) $zzk }", vec![t("V"), s(), t("VVV"), s(), t("V"), s(), t("V"), s(), t("V")]),
            ("let mut @ = T::new();\nquote_in! { @ => a $(for _ in 0..2 join (,) => k) $(if true { $(\"v\") } else { no }) $(match 0 { _ => r }) $(ref zzf => zzf.append(\"w\")) $[str](a $(3)) $(let zzk = 1)$zzk }\n@", vec![t("a"), s(), t("k,k"), s(), t("v"), s(), t("r"), s(), t("w"), s(), q("^a^ cf{3}cf"), s(), t("1")]),
            ("let mut @ = T::new();\n{ let @ = &mut @; quote_in! { *@ =>\na\n$(for zzk in 0..2 => $zzk)\n} }\n@", vec![t("a"), Op::Push, t("01")]),
            ("let @ = \"V\"; let mut zzq = T::new();\nquote_in! { zzq => $(let @ = \"p\")$@ $(for @ in 0..2 => $@) $(if let Some(@) = Some(2) => $@) }\nzzq.append(@); zzq", vec![t("p"), s(), t("01"), s(), t("2V")]),
            ("let @ = |zzf: &'static str| zzf;\nquote! { $(@(\"V\")) $(for _ in 0..2 => $(@(\"V\"))) }", vec![t("V"), s(), t("VV")]),
            ("macro_rules! @ { ($e:expr) => { $e } }\nlet @ = \"V\";\nquote! { $@ $(@!(\"p\")) $(for _ in 0..2 join ($(@!(\"j\"))) => $(@!(@))) }", vec![t("V"), s(), t("p"), s(), t("VjV")]),
            ("#[allow(non_snake_case)] mod @ { pub const V: &str = \"V\"; }\nquote! {\n$(@::V) a$(for zzk in 0..2 join (,) => $zzk)$[' ']$(if true => $(@::V)) \"s\" $[str](a $(3)) $(match 0 { _ => b }) $(let zzk = 1)$zzk\n  c }", vec![t("V"), s(), t("a0,1"), s(), t("V"), s(), tx("«cfn:^s:cfn»"), s(), q("^a^ cf{3}cf"), s(), t("b"), s(), t("1"), Op::Ind(1), Op::Push, t("c"), Op::Ind(-1)]),
        ]
        .into_iter()
        .enumerate()
        {
            // A macro of the name of one which a template uses, a module of
            // the name of a crate.
            if k == 5 && ["quote", "quote_in", "quote_fn", "macro_rules"].contains(&w.as_str()) || k == 6 && ["std", "core", "alloc"].contains(&w.as_str()) {
                continue;
            }
            let src = src.replace('@', w);
            add(format!("{w}: {src}"), src, ops);
        }
        n += 1;
    }
    for w in &upper {
        for (k, def) in ["#[allow(dead_code)] struct @ { k: u8 }", "#[allow(dead_code)] enum @ { A, B }", "#[allow(dead_code)] trait @ { fn append(&self) {} fn space(&self) {} }", "#[allow(dead_code)] type @ = u8;", "const @: &str = \"V\";", "struct @; impl @ { const V: &'static str = \"V\"; }"].iter().enumerate() {
            let def = def.replace('@', w);
            let show = match k {
                4 => format!("$({w})"),
                5 => format!("$({w}::V)$(for _ in 0..1 join ($({w}::V)) => $({w}::V.len()))$[str]($[const]({w}::V)$($({w}::V)))$(if {w}::V.len() == 1 => $({w}::V))$(match {w}::V {{ {w}::V => $({w}::V), _ => no }})$(ref zzf => zzf.append({w}::V))$({w}::V)"),
                _ => "V".into(),
            };
            let shown = if k == 5 { vec![t("V1"), q("^Vcf{V}cf"), t("VVVV")] } else { vec![t("V")] };
            let src = format!("{def}\nlet mut zzq = T::new();\nquote_in! {{ zzq =>\n{show} a$(for zzk in 0..2 join (,) => $zzk)$[' ']$(if true => i) \"s\" $[str](a $(3)) $(match 0 {{ _ => b }}) $(let zzk = 1)$zzk\n  c }}\nzzq.append(quote!($(quote_fn! {{ $(\"d\") }}))); zzq");
            let mut ops = shown;
            ops.extend(vec![s(), t("a0,1"), s(), t("i"), s(), tx("«cfn:^s:cfn»"), s(), q("^a^ cf{3}cf"), s(), t("b"), s(), t("1"), Op::Ind(1), Op::Push, t("c"), Op::Ind(-1), t("d")]);
            add(format!("{w}: {src}"), src, ops);
        }
    }
    let nf = forms.iter().filter(|f| usable(f)).count();
    let bound = format!("{} names of variables, constants, functions, macros and modules (common ones, and every identifier in the sources of the macros which does not start with an underscore) x {nf} templates using them in every part of a statement, and {} names of types and traits", lower.len(), upper.len());
    crate::macros::decide(o, "C27", (cases, vec![bound]))
}
