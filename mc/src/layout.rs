//! C01/C02: every history of layout operations up to a depth, on the real
//! `Tokens` + `Formatter`, against the reference models.
use crate::core::*;
use crate::model::*;
use crate::tl::{self, Imp, T, TL};
use genco::fmt;
use genco::tokens::{Item, ItemStr};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum A {
    Text,
    Empty,
    Reg,
    Ref(u8),
    Space,
    Push,
    Line,
    Ind,
    Unind,
    IndN(i16),
    /// A text which looks like something else, see [`wild`].
    Wild(u8),
}

pub fn name(a: A) -> String {
    match a {
        A::Text => "T".into(),
        A::Empty => "E".into(),
        A::Reg => "R".into(),
        A::Ref(k) => format!("F{k}"),
        A::Space => "S".into(),
        A::Push => "P".into(),
        A::Line => "L".into(),
        A::Ind => "I".into(),
        A::Unind => "U".into(),
        A::IndN(n) => format!("N{n}"),
        A::Wild(n) => format!("W{n}"),
    }
}

pub fn key(h: &[A]) -> String {
    h.iter().map(|a| name(*a)).collect::<Vec<_>>().join(" ")
}

/// Texts with whitespace, line breaks and the like in them, none of which mean
/// anything to the layout.
pub const WILD: [&str; 13] = [" x", "x ", " ", "\t", "a\nb", "\n", "x\r\n", "\u{a0}\u{3000}", "\u{2028}\0", "\u{feff}é\u{10ffff}", "// \\\"", WILD_LONG, "y\r"];
const WILD_LONG: &str = concat!(
    "0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz é 0123456789abcdefghijklmnopqrstuvwxyz ",
    "0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz é 0123456789abcdefghijklmnopqrstuvwxyz ",
    "0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz é 0123456789abcdefghijklmnopqrstuvwxyz "
);

pub fn letter(i: usize) -> String {
    // multi-byte and multi-char texts included
    match i % 5 {
        0 => "a".into(),
        1 => "bc".into(),
        2 => "é".into(),
        3 => "(".into(),
        _ => format!("w{i}"),
    }
}

/// Apply to the implementation through the public API. `i` = position.
pub fn apply(t: &mut T, a: A, i: usize, items: bool) {
    match (a, items) {
        (A::Text, false) => t.append(letter(i)),
        (A::Text, true) => t.append(Item::Literal(ItemStr::Box(letter(i).into()))),
        (A::Empty, false) => t.append(""),
        (A::Empty, true) => t.append(Item::Literal(ItemStr::Static(""))),
        (A::Reg, false) => t.register(Imp::new(0, i as u32)),
        (A::Reg, true) => t.append(Item::Register(i * 7 + 1, Box::new(Imp::new(0, i as u32)))),
        (A::Ref(k), false) => t.append(Imp::new(k, i as u32)),
        (A::Ref(k), true) => t.append(Item::Lang(usize::MAX - i, Box::new(Imp::new(k, i as u32)))),
        (A::Space, false) => t.space(),
        (A::Space, true) => t.append(Item::Space),
        (A::Push, false) => t.push(),
        (A::Push, true) => t.append(Item::Push),
        (A::Line, false) => t.line(),
        (A::Line, true) => t.append(Item::Line),
        (A::Ind, false) => t.indent(),
        (A::Ind, true) => t.append(Item::Indentation(1)),
        (A::Unind, false) => t.unindent(),
        (A::Unind, true) => t.append(Item::Indentation(-1)),
        (A::IndN(n), _) => t.append(Item::Indentation(n)),
        (A::Wild(k), false) => t.append(WILD[k as usize]),
        (A::Wild(k), true) => t.append(Item::Literal(ItemStr::Static(WILD[k as usize]))),
    }
}

pub fn to_op(a: A, i: usize) -> Op {
    match a {
        A::Text => Op::Text(letter(i)),
        A::Empty => Op::Text(String::new()),
        A::Reg => Op::Mark,
        A::Ref(k) => {
            let s = Imp::new(k, i as u32).text('c', 'f');
            Op::Text(s)
        }
        A::Space => Op::Space,
        A::Push => Op::Push,
        A::Line => Op::Line,
        A::Ind => Op::Ind(1),
        A::Unind => Op::Ind(-1),
        A::IndN(n) => Op::Ind(n),
        A::Wild(k) => Op::Text(WILD[k as usize].into()),
    }
}

#[derive(Clone)]
struct Node {
    t: T,
    /// The same history through the other API (only for C02).
    twin: T,
    m: Ideal,
    n: Norm,
}

fn structural(t: &T) -> Result<(), String> {
    let mut prev: Option<Item<TL>> = None;
    for it in t.iter() {
        let bad = match (&prev, it) {
            (_, Item::Indentation(0)) => Some("zero indentation stored"),
            (Some(Item::Space), Item::Space) => Some("two consecutive spaces"),
            (Some(Item::Space), Item::Push) => Some("space before push"),
            (Some(Item::Push | Item::Line), Item::Push) => Some("redundant push"),
            (Some(Item::Push | Item::Line), Item::Line) => Some("redundant break before line"),
            (Some(Item::Space | Item::Push | Item::Line), Item::Indentation(_)) => {
                Some("whitespace before indentation change")
            }
            (Some(Item::Indentation(_)), Item::Indentation(_)) => Some("adjacent indentation changes"),
            _ => None,
        };
        if let Some(b) = bad {
            return Err(format!("{b} in {:?}", t.iter().collect::<Vec<_>>()));
        }
        prev = Some(it.clone());
    }
    Ok(())
}

/// The stored stream as model operations.
pub fn stored(t: &T) -> Vec<Op> {
    t.iter()
        .map(|i| match i {
            Item::Literal(s) => Op::Text(s.to_string()),
            Item::Lang(_, l) => Op::Text(l.text('c', 'f')),
            Item::Register(..) => Op::Mark,
            Item::Push => Op::Push,
            Item::Line => Op::Line,
            Item::Space => Op::Space,
            Item::Indentation(n) => Op::Ind(*n),
            other => Op::Text(format!("{other:?}")),
        })
        .collect()
}

/// `stored(t) == n`, without building the former.
fn same(t: &T, n: &[Op]) -> bool {
    let mut n = n.iter();
    for i in t.iter() {
        let ok = match (i, n.next()) {
            (Item::Literal(s), Some(Op::Text(o))) => **s == **o,
            (Item::Literal(s), Some(Op::Mark)) => s.is_empty(),
            (Item::Lang(_, l), Some(Op::Text(o))) => l.text('c', 'f') == *o,
            (Item::Lang(_, l), Some(Op::Mark)) => l.text('c', 'f').is_empty(),
            (Item::Register(..), Some(Op::Mark)) => true,
            (Item::Push, Some(Op::Push)) | (Item::Line, Some(Op::Line)) | (Item::Space, Some(Op::Space)) => true,
            (Item::Indentation(k), Some(Op::Ind(o))) => k == o,
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    n.next().is_none()
}

/// Equal in every way in which streams can be compared.
fn equal(a: &T, b: &T) -> bool {
    use std::hash::{Hash, Hasher};
    let hash = |t: &T| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    };
    a == b && a.cmp(b).is_eq() && hash(a) == hash(b)
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Render,
    Normal,
}

fn visit(st: &mut Stats, what: What, h: &[A], nd: &Node, cfg: &LCfg) {
    visit_as(st, what, || key(h), h.len(), nd, cfg)
}

fn visit_as(st: &mut Stats, what: What, key: impl Fn() -> String, len: usize, nd: &Node, cfg: &LCfg) {
    if st.skip(&key) {
        return;
    }
    match what {
        What::Render => {
            let got = rendered(|| tl::render(&nd.t, fmt::Indentation::Space(4), "\n"));
            judge(st, &key, "rendering differs from the history's meaning", &nd.m, &nd.n, cfg, &got);
        }
        What::Normal => {
            st.traces += 1;
            if len <= 6 {
                st.outcome(&format!("{:?}", stored(&nd.t)));
            }
            if let Err(e) = structural(&nd.t) {
                st.fail(key(), "stored stream violates the normal form", "normal form", e);
            }
            if !same(&nd.t, &nd.n.0) {
                st.fail(key(), "stored stream is not the normal form of the history", format!("{:?}", nd.n.0), format!("{:?}", stored(&nd.t)));
            }
            if !equal(&nd.t, &nd.twin) {
                st.fail(key(), "the same history through another API gives another stream", format!("{:?}", nd.t), format!("{:?}", nd.twin));
            }
            // A stream in normal form is reproduced by replaying its own items.
            match guarded(|| {
                let again: T = nd.t.iter().collect();
                let mut ext = T::new();
                ext.extend(nd.t.clone());
                again == nd.t && ext == nd.t
            }) {
                Ok(true) => {}
                r => st.fail(key(), "replaying the stored items does not reproduce the stream", "same stream", format!("{r:?}")),
            }
            if nd.t.is_empty() != nd.n.0.is_empty() {
                st.fail(key(), "is_empty is wrong", format!("{}", nd.n.0.is_empty()), "");
            }
        }
    }
}

/// Compare a rendering with the ideal; recognise exactly the listed finding.
pub fn judge(
    st: &mut Stats,
    key: impl Fn() -> String,
    what: &str,
    m: &Ideal,
    n: &Norm,
    cfg: &LCfg,
    got: &Result<String, String>,
) {
    st.traces += 1;
    match got {
        Ok(g) if *g == m.out => st.outcome(g),
        Ok(g) if m.net_zero && *g == n.render(cfg) => {
            st.known("net-zero-indentation", &key);
        }
        Ok(g) => st.fail(key(), what, m.out.clone(), g.clone()),
        Err(e) => st.fail(key(), what, m.out.clone(), format!("<<{e}>>")),
    }
}

fn explore(o: &Opts, alphabet: &[A], depth: usize, what: What, items: bool) -> Stats {
    let k = alphabet.len();
    let cfg = LCfg::spaces(4);
    // Shards: all histories of length 2 (shorter ones in shard 0).
    let mut st = par(o, k * k, |sh, st| {
        let mut h = Vec::new();
        let root = Node { t: T::new(), twin: T::new(), m: Ideal::default(), n: Norm::default() };
        fn step(nd: &Node, a: A, i: usize, what: What, items: bool, cfg: &LCfg) -> Node {
            let mut c = nd.clone();
            let _ = guarded(|| apply(&mut c.t, a, i, items));
            if what == What::Normal {
                let _ = guarded(|| match a {
                    A::Text if i % 2 == 0 => {
                        // a static instead of an owned text
                        let s: &'static str = ["a", "bc", "é", "("].get(i % 5).copied().unwrap_or("");
                        if s.is_empty() {
                            apply(&mut c.twin, a, i, !items)
                        } else {
                            c.twin.append(ItemStr::Static(s))
                        }
                    }
                    // a change by n is n changes by one
                    A::IndN(n) => {
                        for _ in 0..n.abs() {
                            if n > 0 {
                                c.twin.indent()
                            } else {
                                c.twin.unindent()
                            }
                        }
                    }
                    _ => apply(&mut c.twin, a, i, !items),
                });
            }
            let op = to_op(a, i);
            c.m.op(&op, cfg);
            c.n.op(&op);
            c
        }
        fn dfs(
            st: &mut Stats,
            nd: &Node,
            h: &mut Vec<A>,
            depth: usize,
            al: &[A],
            what: What,
            items: bool,
            cfg: &LCfg,
        ) {
            st.states += 1;
            st.model_state(&nd.m.abstract_state());
            visit(st, what, h, nd, cfg);
            if h.len() == depth || st.too_many() {
                return;
            }
            for &a in al {
                let c = step(nd, a, h.len(), what, items, cfg);
                st.transitions += 1;
                h.push(a);
                dfs(st, &c, h, depth, al, what, items, cfg);
                h.pop();
            }
        }
        if sh == 0 {
            st.states += 1;
            visit(st, what, &h, &root, &cfg);
        }
        let (a, b) = (alphabet[sh / k], alphabet[sh % k]);
        let n1 = step(&root, a, 0, what, items, &cfg);
        h.push(a);
        if sh % k == 0 {
            st.states += 1;
            st.transitions += 1;
            visit(st, what, &h, &n1, &cfg);
        }
        let n2 = step(&n1, b, 1, what, items, &cfg);
        st.transitions += 1;
        h.push(b);
        if sh < 3 {
            st.sample(|| format!("{} => {:?}", key(&h), n2.m.out));
        }
        dfs(st, &n2, &mut h, depth, alphabet, what, items, &cfg);
    });
    st.bounds.push(format!(
        "all histories of length <= {depth} over {{{}}} applied {}",
        key(alphabet),
        if items { "as items" } else { "through methods" }
    ));
    st
}

const MAIN: &[A] = &[
    A::Text,
    A::Space,
    A::Push,
    A::Line,
    A::Ind,
    A::Unind,
    A::Reg,
    A::Ref(1),
    A::Empty,
];
const WIDE: &[A] = &[
    A::Text,
    A::Space,
    A::Push,
    A::Line,
    A::Ind,
    A::Unind,
    A::Reg,
    A::Ref(0),
    A::Ref(2),
    A::Ref(4),
    A::Empty,
    A::IndN(0),
    A::IndN(2),
    A::IndN(-3),
];

pub const ODD: &[A] = &[
    A::Wild(0),
    A::Wild(1),
    A::Wild(2),
    A::Wild(3),
    A::Wild(4),
    A::Wild(5),
    A::Wild(6),
    A::Wild(7),
    A::Wild(8),
    A::Wild(9),
    A::Wild(10),
    A::Wild(11),
    A::Wild(12),
    A::Text,
    A::Empty,
    A::Ref(2),
    A::Space,
    A::Push,
    A::Line,
    A::Ind,
    A::Unind,
];

pub fn c01(o: &Opts) -> Stats {
    let mut st = explore(o, MAIN, o.pick(7, 8), What::Render, false);
    st.merge(explore(o, MAIN, o.pick(5, 7), What::Render, true));
    st.merge(explore(o, WIDE, o.pick(5, 6), What::Render, true));
    // Narrow alphabet, deeper.
    st.merge(explore(
        o,
        &[A::Text, A::Space, A::Push, A::Line, A::Ind, A::Unind],
        o.pick(8, 10),
        What::Render,
        false,
    ));
    st.merge(explore(o, ODD, o.pick(4, 5), What::Render, false));
    st.merge(explore(o, ODD, o.pick(4, 5), What::Render, true));
    st.merge(deep_indent(o));
    st.merge(runs(o, What::Render));
    st
}

/// Histories in which one thing is repeated many times.
fn runs(o: &Opts, what: What) -> Stats {
    const AL: [A; 9] = [A::Text, A::Empty, A::Reg, A::Ref(0), A::Space, A::Push, A::Line, A::Ind, A::Unind];
    const BEFORE: [&[A]; 5] = [&[], &[A::Text], &[A::Text, A::Push], &[A::Ind], &[A::Text, A::Line]];
    const AFTER: [&[A]; 7] =
        [&[], &[A::Text], &[A::Push, A::Text], &[A::Line, A::Text], &[A::Ind, A::Text], &[A::Unind, A::Text], &[A::Space, A::Text, A::Push, A::Text]];
    let mut words: Vec<Vec<A>> = AL.iter().map(|a| vec![*a]).collect();
    words.extend(AL.iter().flat_map(|a| AL.iter().map(|b| vec![*a, *b])));
    if o.thorough() {
        words.extend(AL.iter().flat_map(|a| AL.iter().flat_map(|b| AL.iter().map(|c| vec![*a, *b, *c]))));
    }
    let counts = [3usize, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000];
    let long = [32767usize, 32768, 65535, 65536, 65537];
    let cfg = LCfg::spaces(4);
    let mut st = par(o, words.len(), |w, st| {
        let word = &words[w];
        // Levels are 16 bit.
        let more = if word.len() == 1 && !matches!(word[0], A::Ind | A::Unind) { &long[..] } else { &[] };
        // What is built from the former count on.
        for (b, before) in BEFORE.iter().enumerate() {
            let mut nd = Node { t: T::new(), twin: T::new(), m: Ideal::default(), n: Norm::default() };
            let mut at = 0usize;
            let put = |nd: &mut Node, at: &mut usize, a: A| {
                let i = *at % 40;
                *at += 1;
                let _ = guarded(|| apply(&mut nd.t, a, i, false));
                let _ = guarded(|| apply(&mut nd.twin, a, i, true));
                let op = to_op(a, i);
                nd.m.op(&op, &cfg);
                nd.n.op(&op);
            };
            before.iter().for_each(|a| put(&mut nd, &mut at, *a));
            let mut done = 0;
            for n in counts.iter().chain(more).copied() {
                while done < n {
                    word.iter().for_each(|a| put(&mut nd, &mut at, *a));
                    done += 1;
                }
                for (k, after) in AFTER.iter().enumerate() {
                    if st.too_many() {
                        return;
                    }
                    let (mut nd, mut at) = (nd.clone(), at);
                    after.iter().for_each(|a| put(&mut nd, &mut at, *a));
                    st.states += 1;
                    st.transitions += at as u64;
                    let key = || format!("{} ({}){n} {} [{b} {k}]", key(before), key(word), key(after));
                    visit_as(st, what, key, at, &nd, &cfg);
                }
            }
        }
    });
    st.bounds.push(format!("{} sequences of up to {} operations, repeated up to 1000 times (single ones: 65537) between {} beginnings and {} ends", words.len(), o.pick(2, 3), BEFORE.len(), AFTER.len()));
    st
}

/// Extreme indentation levels: text at every level 0..=N for every unit width,
/// reached by one change, by many, and returned from.
fn deep_indent(o: &Opts) -> Stats {
    let max = o.pick(260i16, 700);
    let units: Vec<fmt::Indentation> = (0..=o.pick(9usize, 17))
        .chain([25, 33, 50, 99, 100, 101, 200])
        .map(fmt::Indentation::Space)
        .chain([fmt::Indentation::Tab])
        .collect();
    let mut st = par(o, units.len(), |sh, st| {
        let u = units[sh];
        let cfg = LCfg {
            ind: match u {
                fmt::Indentation::Space(n) => Indent::Space(n),
                _ => Indent::Tab,
            },
            nl: "\n".into(),
        };
        for n in -4..=max {
            for (vi, mk) in [0u8, 1, 2, 3].iter().enumerate() {
                let k = || format!("deep unit={u:?} n={n} variant={vi}");
                if st.skip(k) {
                    continue;
                }
                let mut t = T::new();
                let mut ops = Vec::new();
                let mut go = |t: &mut T, a: A, i: usize| {
                    apply(t, a, i, false);
                    ops.push(to_op(a, i));
                };
                match mk {
                    0 => {
                        for (i, a) in [A::Text, A::IndN(n), A::Text, A::Push, A::Text, A::Line, A::Space, A::Text, A::IndN(-n), A::Text]
                            .into_iter()
                            .enumerate()
                        {
                            go(&mut t, a, i);
                        }
                    }
                    1 => {
                        for (i, a) in [A::IndN(n), A::Space, A::Text, A::Push, A::Text].into_iter().enumerate() {
                            go(&mut t, a, i);
                        }
                    }
                    2 => {
                        if n <= 0 {
                            continue;
                        }
                        for i in 0..n as usize {
                            go(&mut t, A::Ind, i);
                        }
                        go(&mut t, A::Text, 0);
                        for i in 0..n as usize {
                            go(&mut t, A::Unind, i);
                            if i % 13 == 0 {
                                go(&mut t, A::Text, 1);
                            }
                        }
                        go(&mut t, A::Text, 2);
                    }
                    _ => {
                        // negative levels must be countered
                        go(&mut t, A::Text, 0);
                        go(&mut t, A::IndN(-n), 0);
                        go(&mut t, A::Text, 1);
                        go(&mut t, A::IndN(1), 0);
                        go(&mut t, A::Text, 2);
                        go(&mut t, A::IndN(n), 0);
                        go(&mut t, A::Text, 3);
                    }
                }
                st.states += 1;
                st.transitions += ops.len() as u64;
                let m = ideal(&ops, &cfg);
                let nm = Norm::of(&ops);
                let got = rendered(|| tl::render(&t, u, "\n"));
                judge(st, k, "deep indentation renders wrongly", &m, &nm, &cfg, &got);
            }
        }
    });
    st.bounds.push(format!("indentation levels -4..={max} x {} indentation units", units.len()));
    st
}

pub fn c02(o: &Opts) -> Stats {
    let mut st = explore(o, MAIN, o.pick(7, 8), What::Normal, false);
    st.merge(explore(o, WIDE, o.pick(5, 6), What::Normal, true));
    st.merge(explore(o, ODD, o.pick(4, 5), What::Normal, false));
    st.merge(runs(o, What::Normal));
    st
}
