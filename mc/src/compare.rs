//! C25: streams, items, texts and imports compare by content.
//!
//! Every pair of streams up to a length (each built from static and from owned text), of imports of
//! every language, and of texts through every conversion, against plain data.
use crate::core::*;
use crate::imports::*;
use crate::model::*;
use crate::tl::{Imp, TL};
use genco::tokens::{Item, ItemStr};
use genco::Tokens;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

/// Values with what they are equal by. Decides that equality is that of the keys, hashes and clones go along
/// with it, and that the order is a total one which is consistent with it.
pub fn lawful<T: Ord + Hash + Clone + Debug + Sync, K: PartialEq + Debug + Sync>(o: &Opts, what: &str, mut vs: Vec<(T, K, String)>, total: &mut Stats) {
    // A broken order could make the library's sort panic.
    if let Err(p) = guarded(|| vs.sort_by(|a, b| a.0.cmp(&b.0))) {
        total.fail(format!("{what}: sort"), "the order is not total", "an order", p);
        return;
    }
    let n = vs.len();
    let shards = 32.min(n.max(1));
    let s = par(o, shards, |shard, st| {
        for i in (shard..n).step_by(shards) {
            let (a, ka, na) = &vs[i];
            st.states += 1;
            st.outcome(&format!("{a:?}"));
            if a.clone() != *a || hash(&a.clone()) != hash(a) {
                let key = format!("{what}: clone of {na}");
                if !st.skip(|| key.clone()) {
                    st.fail(key, "a clone differs from what it is a clone of", format!("{a:?}"), format!("{:?}", a.clone()));
                }
            }
            for (j, (b, kb, nb)) in vs.iter().enumerate() {
                let key = || format!("{what}: {na} with {nb}");
                if st.skip(key) {
                    continue;
                }
                st.transitions += 1;
                st.traces += 1;
                let same = ka == kb;
                let cmp = a.cmp(b);
                let mut bad = vec![];
                if (a == b) != same || (a != b) == same {
                    bad.push("equality");
                }
                if same && hash(a) != hash(b) {
                    bad.push("hash");
                }
                // Sorted: what comes earlier is at most as large.
                let want = if same {
                    Ordering::Equal
                } else {
                    i.cmp(&j)
                };
                if cmp != want {
                    bad.push("order");
                }
                if a.partial_cmp(b) != Some(cmp) || (a < b) != cmp.is_lt() || (a >= b) != cmp.is_ge() {
                    bad.push("partial order");
                }
                if !bad.is_empty() {
                    st.fail(key(), &format!("{} of these two is not by content", bad.join(", ")), format!("{}, {want:?}", if same { "equal" } else { "different" }), format!("{}, {cmp:?}: {a:?} and {b:?}", if a == b { "equal" } else { "different" }));
                    if st.too_many() {
                        return;
                    }
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("{what}: all {n} x {n} pairs"));
}

fn imports<G: Lg>(o: &Opts, g: &G, _: (), total: &mut Stats)
where
    <G::L as genco::lang::Lang>::Item: Sync + Ord + Hash,
{
    // Without the entries which are the same request in another order of calls, or with modifiers that others
    // override: whether these are equal is not claimed.
    let pool: Vec<Ref> = g.pool().into_iter().filter(|r| (r.ma.is_none() || r.k == 0) && (G::LA != crate::quoting::La::Python || r.v == 0)).collect();
    let mut items = vec![];
    let mut streams = vec![];
    for (i, r) in pool.iter().enumerate() {
        for own in [false, true] {
            for reg in [false, true] {
                let mut t = Tokens::<G::L>::new();
                g.put(&mut t, r, own, reg);
                let name = format!("{r:?}{}{}", if own { " owned" } else { "" }, if reg { " registered" } else { "" });
                let mut w: Vec<_> = t.walk_imports().take(100).cloned().collect();
                w.sort();
                items.push((w, i, name.clone()));
                streams.push((t.clone(), (i, reg, 0), name.clone()));
                t.append("x");
                streams.push((t.clone(), (i, reg, 1), format!("{name}, then text")));
                let mut u = Tokens::<G::L>::new();
                u.append("x");
                g.put(&mut u, r, own, reg);
                streams.push((u, (i, reg, 2), format!("{name} after text")));
            }
        }
    }
    lawful(o, &format!("{:?} imports", G::LA), items, total);
    lawful(o, &format!("{:?} streams", G::LA), streams, total);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum X {
    A,
    Ab,
    B,
    Space,
    Push,
    Line,
    In,
    Out,
    Ref,
    Ref2,
    Reg,
    Open,
    OpenEval,
    Close,
    Eval,
    EvalEnd,
}
const XS: [X; 16] = [X::A, X::Ab, X::B, X::Space, X::Push, X::Line, X::In, X::Out, X::Ref, X::Ref2, X::Reg, X::Open, X::OpenEval, X::Close, X::Eval, X::EvalEnd];

/// way 0: static texts and methods. 1: owned texts and raw items, which carry links that are none.
fn build(h: &[X], way: u8) -> Tokens<TL> {
    let mut t = Tokens::new();
    let own = way == 1;
    for x in h {
        match (x, own) {
            (X::A | X::Ab | X::B, _) => {
                let s = match x {
                    X::A => "a",
                    X::Ab => "ab",
                    _ => "b",
                };
                t.append(if own { ItemStr::Box(s.into()) } else { ItemStr::Static(s) });
            }
            (X::Space, false) => t.space(),
            (X::Space, true) => t.append(Item::Space),
            (X::Push, false) => t.push(),
            (X::Push, true) => t.append(Item::Push),
            (X::Line, false) => t.line(),
            (X::Line, true) => t.append(Item::Line),
            (X::In, false) => t.indent(),
            (X::In, true) => t.append(Item::Indentation(1)),
            (X::Out, false) => t.unindent(),
            (X::Out, true) => t.append(Item::Indentation(-1)),
            (X::Ref, false) => t.append(Imp::new(0, 1)),
            (X::Ref, true) => t.append(Item::Lang(77, Box::new(Imp::new(0, 1)))),
            (X::Ref2, false) => t.append(Imp::new(0, 2)),
            (X::Ref2, true) => t.append(Item::Lang(1, Box::new(Imp::new(0, 2)))),
            (X::Reg, false) => t.register(Imp::new(0, 1)),
            (X::Reg, true) => t.append(Item::Register(77, Box::new(Imp::new(0, 1)))),
            (X::Open, _) => t.append(Item::OpenQuote(false)),
            (X::OpenEval, _) => t.append(Item::OpenQuote(true)),
            (X::Close, _) => t.append(Item::CloseQuote),
            (X::Eval, _) => t.append(Item::OpenEval),
            (X::EvalEnd, _) => t.append(Item::CloseEval),
        }
    }
    t
}

fn plain(h: &[X]) -> Norm {
    let mut n = Norm::default();
    for x in h {
        n.op(&match x {
            X::Space => Op::Space,
            X::Push => Op::Push,
            X::Line => Op::Line,
            X::In => Op::Ind(1),
            X::Out => Op::Ind(-1),
            other => Op::Text(format!("{other:?}")),
        });
    }
    n
}

/// Streams against lists of items.
fn lists(st: &mut Stats, hs: &[Vec<X>]) {
    for a in hs {
        for b in hs {
            let key = || format!("stream {a:?} with list {b:?}");
            if st.skip(key) {
                continue;
            }
            st.traces += 1;
            let t = build(a, 0);
            let v: Vec<Item<TL>> = build(b, 1).into_iter().collect();
            let refs: Vec<&Item<TL>> = v.iter().collect();
            let same = plain(a) == plain(b);
            let got = [t == v, v == t, t == v[..], v[..] == t, t.iter().eq(refs.iter().copied()), (&t).into_iter().eq(refs.iter().copied()), !(t != v), !(v != t)];
            if got != [same; 8] {
                st.fail(key(), "comparing a stream to a list of items, in eight ways", format!("{same}"), format!("{got:?}"));
            }
            if t.is_empty() != (plain(a) == Norm::default()) {
                st.fail(key(), "is_empty", format!("{}", !t.is_empty()), format!("{}", t.is_empty()));
            }
        }
    }
}

fn texts(o: &Opts) -> Vec<(ItemStr, String, String)> {
    let al = ["a", "b", "é", "\u{10ffff}", "\0", " "];
    let mut all = vec![String::new(), "x".repeat(300), "static".into()];
    let mut last = vec![String::new()];
    for _ in 0..o.pick(2, 3) {
        last = last.iter().flat_map(|p| al.iter().map(move |c| format!("{p}{c}"))).collect();
        all.extend(last.iter().cloned());
    }
    let mut out = vec![];
    for s in all {
        // (leaked: the type wants static text)
        let l: &'static str = Box::leak(s.clone().into_boxed_str());
        let cow_b: Cow<'static, str> = Cow::Borrowed(l);
        let cow_o: Cow<'static, str> = Cow::Owned(s.clone());
        let ways: Vec<(&str, ItemStr)> = vec![
            ("static", ItemStr::Static(l)),
            ("box", ItemStr::Box(s.clone().into())),
            ("from &str", l.into()),
            ("from String", s.clone().into()),
            ("from &String", (&s).into()),
            ("from Box<str>", s.clone().into_boxed_str().into()),
            ("from Cow", cow_b.clone().into()),
            ("from owned Cow", cow_o.clone().into()),
            ("from &Cow", (&cow_b).into()),
            ("from owned &Cow", (&cow_o).into()),
            ("from Rc<String>", Rc::new(s.clone()).into()),
            ("from &ItemStr", (&ItemStr::Static(l)).into()),
        ];
        for (n, v) in ways {
            out.push((v, s.clone(), format!("{s:?} {n}")));
        }
    }
    out
}

pub fn c25(o: &Opts) -> Stats {
    let mut total = Stats::new(o);
    each!(imports, o, (), &mut total);
    let n = 3;
    let mut hs: Vec<Vec<X>> = vec![vec![]];
    let mut last = hs.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|h: &Vec<X>| XS.iter().map(move |x| [&h[..], &[*x]].concat())).collect();
        hs.extend(last.iter().cloned());
    }
    if o.tier == Tier::Thorough {
        let al = [X::A, X::Ab, X::Space, X::Push, X::Line, X::In, X::Ref, X::Reg, X::Open, X::Close, X::Eval];
        for i in 0..al.len().pow(4) {
            hs.push((0..4).map(|k| al[i / al.len().pow(k) % al.len()]).collect());
        }
    }
    // Long ones which differ in one place, or in their length.
    for n in [5usize, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257] {
        for u in [&[X::A][..], &[X::Ref], &[X::A, X::Space], &[X::Reg, X::Line], &[X::Open, X::A, X::Close]] {
            let base: Vec<X> = u.iter().copied().cycle().take(n * u.len()).collect();
            hs.push(base.clone());
            hs.push(base[..base.len() - u.len()].to_vec());
            for at in [0, n / 2 * u.len(), (n - 1) * u.len()] {
                for x in [X::B, X::Ref2] {
                    let mut h = base.clone();
                    h.splice(at..at, [x]);
                    hs.push(h);
                }
            }
        }
    }
    let mut v = vec![];
    for h in &hs {
        for way in 0..2 {
            v.push((build(h, way), plain(h), format!("{h:?}{}", if way == 1 { " from items" } else { "" })));
        }
    }
    lawful(o, "streams", v, &mut total);
    let items: Vec<_> = XS
        .iter()
        .flat_map(|x| (0..2).map(move |w| (x, w)))
        .flat_map(|(x, w)| build(&[*x], w).into_iter().map(move |i| (i, format!("{x:?}"), format!("{x:?} {w}"))).collect::<Vec<_>>())
        .collect();
    lawful(o, "items", items, &mut total);
    let small: Vec<Vec<X>> = hs.iter().filter(|h| h.len() <= 2).cloned().collect();
    let lst = par(o, 16, |i, st| {
        let part: Vec<Vec<X>> = small.iter().skip(i).step_by(16).cloned().collect();
        lists(st, &part);
    });
    total.merge(lst);
    let tx = texts(o);
    for (v, s, n) in &tx {
        let key = || format!("text {n}");
        if total.skip(key) {
            continue;
        }
        total.traces += 1;
        let got = [v.to_string(), v.as_ref().to_string(), v[..].to_string(), v.clone().to_string(), format!("{v:>4}").trim_start().to_string()];
        if got[..4].iter().any(|g| g != s) {
            total.fail(key(), "the text reads as something else", format!("{s:?}"), format!("{got:?}"));
        }
    }
    // Texts are ordered like the text they are.
    for (a, sa, na) in &tx {
        for (b, sb, nb) in &tx {
            if a.cmp(b) != sa.cmp(sb) {
                let key = format!("texts: {na} with {nb}");
                if !total.skip(|| key.clone()) {
                    total.fail(key, "texts are ordered as text", format!("{:?}", sa.cmp(sb)), format!("{:?}", a.cmp(b)));
                }
            }
        }
    }
    lawful(o, "texts", tx, &mut total);
    total.sample(|| format!("streams [A, Ref] static == owned: {}", build(&[X::A, X::Ref], 0) == build(&[X::A, X::Ref], 1)));
    total
}
