//! C03 composition, C04 import walk, C12 formatter protocol, C13 writers and
//! configuration, C14 I/O faults.
use crate::core::*;
use crate::layout::{apply, judge, key, stored, to_op, A};
use crate::model::*;
use crate::tl::{self, Cfg, Fmt, Imp, T, TL};
use genco::fmt;
use genco::tokens::{from_fn, Item, ItemStr};
use std::collections::BTreeMap;
use std::io;

/// All sequences over `al` of length 0..=n, simplest first.
pub fn seqs<X: Copy>(al: &[X], n: usize) -> Vec<Vec<X>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for s in &last {
            for &a in al {
                let mut s2: Vec<X> = s.clone();
                s2.push(a);
                next.push(s2);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn build(h: &[A], base: usize) -> T {
    let mut t = T::new();
    for (i, a) in h.iter().enumerate() {
        apply(&mut t, *a, base + i, false);
    }
    t
}

fn imports_of(h: &[A], base: usize, out: &mut Vec<Imp>) {
    for (i, a) in h.iter().enumerate() {
        match a {
            A::Reg => out.push(Imp::new(0, (base + i) as u32)),
            A::Ref(k) => out.push(Imp::new(*k, (base + i) as u32)),
            _ => {}
        }
    }
}

fn walked(t: &T) -> Result<Vec<Imp>, String> {
    guarded(|| {
        let mut v: Vec<Imp> = t.walk_imports().take(10_000).cloned().collect();
        v.sort();
        v
    })
}

/// Iterators whose size hint says little, or is wrong.
struct Loose<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}

pub const WAYS: &[&str] = &[
    "append(T)",
    "append(&T)",
    "extend(T)",
    "extend(iter.cloned)",
    "extend(loose 0..None)",
    "extend(loose 0..usize::MAX)",
    "FromIterator<Item> loose",
    "FromIterator<&Item>",
    "append(vec![T])",
    "append(&vec![T])",
    "append(&[T])",
    "append(Some(T))",
    "append(Cow<[T]>)",
    "append(&Cow<[T]>)",
    "append(from_fn)",
    "append(from_fn by ref)",
    "append((vec of Item))",
    "extend(claims to be empty)",
    "extend(claims 3..=1)",
    "FromIterator<Item> claims 0..=1",
    "FromIterator<&Item> claims 9..=9",
];

pub fn compose(way: usize, u: &T, v: &T) -> T {
    use std::borrow::Cow;
    let mut t = u.clone();
    match way {
        0 => t.append(v.clone()),
        1 => t.append(v),
        2 => t.extend(v.clone()),
        3 => t.extend(v.iter().cloned()),
        4 => t.extend(Loose(v.iter().cloned(), 0, None)),
        5 => t.extend(Loose(v.clone().into_iter(), 0, Some(usize::MAX))),
        6 => {
            t = Loose(u.clone().into_iter().chain(v.clone()), 0, Some(usize::MAX)).collect();
        }
        7 => t = Loose(u.iter().chain(v), 0, Some(usize::MAX)).collect(),
        8 => t.append(vec![v.clone()]),
        9 => t.append(&vec![v.clone()]),
        10 => t.append(&[v.clone()][..]),
        11 => {
            t.append(Some(v.clone()));
            t.append(None::<T>);
        }
        12 => {
            t.append(Cow::<[T]>::Borrowed(&[v.clone()]));
            t.append(Cow::<[T]>::Owned(vec![]));
        }
        13 => {
            t.append(&Cow::<[T]>::Owned(vec![v.clone()]));
            t.append(&Cow::<[T]>::Borrowed(&[]));
        }
        14 => {
            let v = v.clone();
            t.append(from_fn(move |t: &mut T| t.append(v)));
        }
        15 => t.append(from_fn(|t: &mut T| {
            for i in v.iter() {
                t.append(i.clone());
            }
        })),
        16 => t.append(v.iter().cloned().collect::<Vec<Item<TL>>>()),
        17 => t.extend(Loose(v.iter().cloned(), 0, Some(0))),
        18 => t.extend(Loose(v.clone().into_iter(), 3, Some(1))),
        19 => t = Loose(u.clone().into_iter().chain(v.clone()), 0, Some(1)).collect(),
        20 => t = Loose(u.iter().chain(v), 9, Some(9)).collect(),
        _ => unreachable!(),
    }
    t
}

const MAIN: &[A] = &[
    A::Text,
    A::Space,
    A::Push,
    A::Line,
    A::Ind,
    A::Unind,
    A::Reg,
    A::Ref(1),
];

pub fn c03(o: &Opts) -> Stats {
    let mut st = c03_pairs(o, MAIN, o.pick(3, 4));
    st.merge(c03_pairs(o, crate::layout::ODD, o.pick(1, 2)));
    st.merge(c03_containers(o));
    st.merge(c03_long(o));
    st
}

/// The ways to put streams one after the other.
fn forms<'a>(ts: &'a Vec<T>) -> Vec<(&'static str, Box<dyn Fn() -> T + 'a>)> {
    vec![
        ("vec", Box::new(move || {
            let mut t = T::new();
            t.append(ts.clone());
            t
        })),
        ("&vec", Box::new(move || {
            let mut t = T::new();
            t.append(ts);
            t
        })),
        ("slice", Box::new(move || {
            let mut t = T::new();
            t.append(&ts[..]);
            t
        })),
        ("cow-borrowed", Box::new(move || {
            let mut t = T::new();
            t.append(std::borrow::Cow::<[T]>::Borrowed(ts));
            t
        })),
        ("cow-owned", Box::new(move || {
            let mut t = T::new();
            t.append(std::borrow::Cow::<[T]>::Owned(ts.clone()));
            t
        })),
        ("&cow-borrowed", Box::new(move || {
            let mut t = T::new();
            t.append(&std::borrow::Cow::<[T]>::Borrowed(ts));
            t
        })),
        ("right-nested", Box::new(move || {
            let mut a = T::new();
            for t in ts.iter().rev() {
                let mut n = t.clone();
                n.append(a);
                a = n;
            }
            a
        })),
        ("left-nested", Box::new(move || {
            let mut a = T::with_capacity(3);
            for t in ts {
                let mut n = T::default();
                n.append(a);
                n.append(t);
                a = n;
            }
            a
        })),
    ]
}

/// Long streams, and many of them.
fn c03_long(o: &Opts) -> Stats {
    const WORDS: [&[A]; 9] = [
        &[A::Text],
        &[A::Text, A::Space],
        &[A::Push, A::Text],
        &[A::Reg],
        &[A::Text, A::Line, A::Ref(1)],
        &[A::Ind, A::Text],
        &[A::Text, A::Unind, A::Ref(1)],
        &[A::Text, A::Push, A::Reg, A::Push],
        &[A::Ind, A::Text, A::Unind, A::Reg, A::Space],
    ];
    let counts: &[usize] = o.pick(&[0, 1, 8, 9, 17, 33, 65, 129, 257], &[0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
    let lcfg = LCfg::spaces(4);
    let long = |w: usize, n: usize| WORDS[w].repeat(n);
    let ops = |h: &[A], base: usize| h.iter().enumerate().map(|(i, a)| to_op(*a, base + i)).collect::<Vec<_>>();
    let k = WORDS.len() * counts.len();
    let mut st = par(o, k, |c, st| {
        let (w1, n1) = (c % WORDS.len(), counts[c / WORDS.len()]);
        let u = long(w1, n1);
        let tu = build(&u, 0);
        for w2 in 0..WORDS.len() {
            for &n2 in counts {
                let v = long(w2, n2);
                let base = u.len();
                let tv = build(&v, base);
                st.states += 1;
                let mut reference = tu.clone();
                tv.iter().for_each(|i| reference.append(i.clone()));
                let (uo, vo) = (ops(&u, 0), ops(&v, base));
                let mut nm = Norm::of(&uo);
                Norm::of(&vo).0.iter().for_each(|x| nm.op(x));
                let m = ideal(&[uo, vo].concat(), &lcfg);
                let mut imps = Vec::new();
                imports_of(&u, 0, &mut imps);
                imports_of(&v, base, &mut imps);
                imps.sort();
                for w in 0..WAYS.len() {
                    let key = || format!("[{}]*{n1}+[{}]*{n2} via {}", key(WORDS[w1]), key(WORDS[w2]), WAYS[w]);
                    if st.skip(key) {
                        continue;
                    }
                    st.transitions += 1;
                    let t = match guarded(|| compose(w, &tu, &tv)) {
                        Ok(t) => t,
                        Err(e) => {
                            st.fail(key(), "composition panics", "ok", e);
                            continue;
                        }
                    };
                    if t != reference {
                        st.fail(key(), "composition differs from adding the items one by one", format!("{:?}", stored(&reference)), format!("{:?}", stored(&t)));
                    }
                    let wk = walked(&t);
                    if wk.as_ref() != Ok(&imps) {
                        st.fail(key(), "composition loses or duplicates imports", format!("{imps:?}"), format!("{wk:?}"));
                    }
                    let got = rendered(|| tl::render(&t, fmt::Indentation::Space(4), "\n"));
                    judge(st, key, "rendering of the composition differs from its parts in sequence", &m, &nm, &lcfg, &got);
                }
            }
        }
    });
    // Many streams, each of them short.
    let st2 = par(o, counts.len() * WORDS.len(), |c, st| {
        let (n, step) = (counts[c / WORDS.len()], c % WORDS.len());
        let hs: Vec<&[A]> = (0..n).map(|i| WORDS[(i * step + i / 7) % WORDS.len()]).collect();
        let mut at = 0;
        let mut all = vec![];
        let mut ts = vec![];
        let mut norms = vec![];
        for h in &hs {
            ts.push(build(h, at));
            let op = ops(h, at);
            norms.push(Norm::of(&op));
            all.extend(op);
            at += h.len();
        }
        st.states += 1;
        let m = ideal(&all, &lcfg);
        let nm = Norm::of(&all);
        let mut rn = Norm::default();
        for mut n in norms.into_iter().rev() {
            rn.0.iter().for_each(|x| n.op(x));
            rn = n;
        }
        for (nme, f) in forms(&ts) {
            let key = || format!("{n} streams, step {step}, as {nme}");
            if st.skip(key) {
                continue;
            }
            st.transitions += 1;
            let got = rendered(|| tl::render(&f(), fmt::Indentation::Space(4), "\n"));
            judge(st, key, "container rendering differs from its elements in order", &m, if nme == "right-nested" { &rn } else { &nm }, &lcfg, &got);
        }
    });
    st.merge(st2);
    st.bounds.push(format!("pairs of {} words, each repeated up to {} times, x {} ways to compose, and containers of as many streams", WORDS.len(), counts.last().unwrap(), WAYS.len()));
    st
}

/// What the iterators over a stream say about how many items are left.
fn sizes(u: &[A], t: &T, st: &mut Stats) {
    fn go<I: Iterator>(mut it: I, n: usize) -> Result<(), String> {
        for left in (0..=n).rev() {
            let (l, h) = it.size_hint();
            if l > left || h.is_some_and(|h| h < left) {
                return Err(format!("{left} items are left, the size hint is {l}..={h:?}"));
            }
            if it.next().is_some() != (left > 0) {
                return Err(format!("{left} items should be left"));
            }
        }
        Ok(())
    }
    let k = || format!("[{}] iterated", key(u));
    if st.only.as_ref().is_some_and(|o| *o != k()) {
        return;
    }
    let n = t.iter().count();
    let r = guarded(|| {
        go(t.iter(), n)?;
        go(t.clone().into_iter(), n)?;
        go(t.into_iter(), n)?;
        let (a, b): (Vec<Item<TL>>, Vec<Item<TL>>) = (t.iter().cloned().collect(), t.clone().into_iter().collect());
        if a != b || *t != a {
            return Err("items by reference and by value differ".to_string());
        }
        Ok(())
    });
    st.transitions += 3 * (n as u64 + 1);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => st.fail(k(), "iterating over a stream", "its items, and their number within the size hint", e),
    }
}

fn c03_pairs(o: &Opts, al: &[A], n: usize) -> Stats {
    let all = seqs(al, n);
    let lcfg = LCfg::spaces(4);
    let mut st = par(o, all.len(), |ui, st| {
        let u = &all[ui];
        let tu = build(u, 0);
        sizes(u, &tu, st);
        for v in &all {
            if st.too_many() {
                return;
            }
            let k0 = format!("[{}]+[{}]", key(u), key(v));
            if let Some(k) = &st.only {
                if !k.starts_with(&k0) {
                    continue;
                }
            }
            let tv = build(v, 10);
            st.states += 1;
            let mut reference = tu.clone();
            for it in tv.iter() {
                reference.append(it.clone());
            }
            let mut ops: Vec<Op> = u.iter().enumerate().map(|(i, a)| to_op(*a, i)).collect();
            let vops: Vec<Op> = v.iter().enumerate().map(|(i, a)| to_op(*a, 10 + i)).collect();
            // composed normal form (recognises only the listed finding)
            let mut nm = Norm::of(&ops);
            for x in Norm::of(&vops).0 {
                nm.op(&x);
            }
            ops.extend(vops);
            let m = ideal(&ops, &lcfg);
            st.model_state(&m.abstract_state());
            let mut imps = Vec::new();
            imports_of(u, 0, &mut imps);
            imports_of(v, 10, &mut imps);
            imps.sort();
            for w in 0..WAYS.len() {
                st.transitions += 1;
                let k = || format!("{k0} via {}", WAYS[w]);
                let t = match guarded(|| compose(w, &tu, &tv)) {
                    Ok(t) => t,
                    Err(e) => {
                        st.fail(k(), "composition panics", "ok", e);
                        continue;
                    }
                };
                if t != reference {
                    st.fail(
                        k(),
                        "composition differs from adding the items one by one",
                        format!("{:?}", reference.iter().collect::<Vec<_>>()),
                        format!("{:?}", t.iter().collect::<Vec<_>>()),
                    );
                }
                let wk = walked(&t);
                if wk.as_ref() != Ok(&imps) {
                    st.fail(k(), "composition loses or duplicates imports", format!("{imps:?}"), format!("{wk:?}"));
                }
                if w < 8 || u.len() + v.len() <= 3 {
                    let got = rendered(|| tl::render(&t, fmt::Indentation::Space(4), "\n"));
                    judge(st, k, "rendering of the composition differs from its parts in sequence", &m, &nm, &lcfg, &got);
                }
            }
            // Rendered one after the other by the same formatter. What is requested at the end of the first
            // is kept, as it would be with something that isn't rendered in between.
            if u.len() + v.len() <= 4 {
                let k = || format!("{k0} formatted one after the other");
                st.transitions += 1;
                let mut im = Ideal::default();
                for x in Norm::of(&u.iter().enumerate().map(|(i, a)| to_op(*a, i)).collect::<Vec<_>>()).0.iter().chain([&Op::Mark]).chain(&Norm::of(&v.iter().enumerate().map(|(i, a)| to_op(*a, 10 + i)).collect::<Vec<_>>()).0) {
                    im.op(x, &lcfg);
                }
                let got = rendered(|| {
                    let mut w = fmt::FmtWriter::new(String::new());
                    let cfg = fmt::Config::from_lang::<TL>().with_indentation(fmt::Indentation::Space(4));
                    let mut f = w.as_formatter(&cfg);
                    tu.format(&mut f, &Cfg::default(), &Fmt::default())?;
                    tv.format(&mut f, &Cfg::default(), &Fmt::default())?;
                    Ok(w.into_inner())
                });
                if got.as_ref() != Ok(&im.out) {
                    st.fail(k(), "two streams rendered by one formatter differ from one after the other", format!("{:?}", im.out), format!("{got:?}"));
                }
            }
        }
    });
    st.sample(|| format!("{} x {} histories, ways: {}", all.len(), all.len(), WAYS.join("; ")));
    st.bounds.push(format!("all pairs of histories of length <= {n} over {{{}}} x {} ways to compose", key(al), WAYS.len()));
    st
}

/// Containers with several elements and nesting.
fn c03_containers(o: &Opts) -> Stats {
    let lcfg = LCfg::spaces(4);
    let small = seqs(MAIN, 1);
    let tri = par(o, small.len(), |i, st| {
        for b in &small {
            for c in &small {
                for d in &small {
                    let hs = [&small[i], b, c, d];
                    let k0 = hs.iter().map(|h| format!("[{}]", key(h))).collect::<String>();
                    let ts: Vec<T> = hs.iter().enumerate().map(|(j, h)| build(h, j * 5)).collect();
                    st.states += 1;
                    let mut ops = Vec::new();
                    for (j, h) in hs.iter().enumerate() {
                        ops.extend(h.iter().enumerate().map(|(x, a)| to_op(*a, j * 5 + x)));
                    }
                    let m = ideal(&ops, &lcfg);
                    let nm = Norm::of(&ops);
                    // the stored form when composed from the right
                    let mut rn = Norm::default();
                    for (j, h) in hs.iter().enumerate().rev() {
                        let mut n = Norm::of(&h.iter().enumerate().map(|(x, a)| to_op(*a, j * 5 + x)).collect::<Vec<_>>());
                        for x in &rn.0 {
                            n.op(x);
                        }
                        rn = n;
                    }
                    let mut forms = forms(&ts);
                    forms.extend([
                        ("option-nested-vec", Box::new(|| {
                            let mut t = T::new();
                            t.append(Some(vec![Some(ts[0].clone()), None, Some(ts[1].clone())]));
                            t.append(Some(Some(vec![vec![ts[2].clone()], vec![], vec![ts[3].clone()]])));
                            t
                        })),
                    ] as [(&str, Box<dyn Fn() -> T + '_>); 1]);
                    for (nme, f) in &forms {
                        st.transitions += 1;
                        let k = || format!("{k0} as {nme}");
                        let got = rendered(|| tl::render(&f(), fmt::Indentation::Space(4), "\n"));
                        let n = if *nme == "right-nested" { &rn } else { &nm };
                        judge(st, k, "container rendering differs from its elements in order", &m, n, &lcfg, &got);
                    }
                }
            }
        }
    });
    tri
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    Text,
    Space,
    Line,
    Unind,
    Reg,
    Ref,
    RefSame,
    ItemGarbage,
    Tuple3,
    Quoted,
    /// append a sub stream: imports at start, middle, end
    SubMid,
    SubEnd,
    SubNone,
    /// self append
    Double,
    /// keep only a suffix / prefix of the items
    Skip1,
    TakeButLast,
    Rebuild,
}

fn apply_w(t: &mut T, m: &mut Vec<Imp>, w: W, i: usize) {
    let n = i as u32 * 10;
    match w {
        W::Text => t.append("x"),
        W::Space => t.space(),
        W::Line => t.line(),
        W::Unind => t.unindent(),
        W::Reg => {
            t.register(Imp::new(0, n));
            m.push(Imp::new(0, n));
        }
        W::Ref => {
            t.append(Imp::new(1, n));
            m.push(Imp::new(1, n));
        }
        W::RefSame => {
            t.append(Imp::new(0, 7));
            m.push(Imp::new(0, 7));
        }
        W::ItemGarbage => {
            t.append(Item::Lang(i.wrapping_mul(3).wrapping_sub(1), Box::new(Imp::new(0, n))));
            t.append(Item::Register(usize::MAX, Box::new(Imp::new(2, n))));
            m.push(Imp::new(0, n));
            m.push(Imp::new(2, n));
        }
        W::Tuple3 => {
            t.register((Imp::new(0, n), Imp::new(0, n + 1), Imp::new(0, n + 2)));
            for d in 0..3 {
                m.push(Imp::new(0, n + d));
            }
        }
        W::Quoted => {
            t.append(genco::tokens::quoted(Imp::new(0, n)));
            m.push(Imp::new(0, n));
        }
        W::SubMid | W::SubEnd | W::SubNone => {
            let mut s = T::new();
            let mut sm = Vec::new();
            let plan: &[W] = match w {
                W::SubMid => &[W::Line, W::Text, W::Ref, W::Space, W::Reg, W::Text],
                W::SubEnd => &[W::Unind, W::Space, W::Text, W::Ref],
                _ => &[W::Text, W::Line],
            };
            for (j, x) in plan.iter().enumerate() {
                apply_w(&mut s, &mut sm, *x, i * 10 + j);
            }
            t.append(s);
            m.extend(sm);
        }
        W::Double => {
            let c = t.clone();
            t.append(&c);
            let c = m.clone();
            m.extend(c);
        }
        W::Skip1 => {
            let first = t.iter().next().cloned();
            if let Some(Item::Lang(_, l) | Item::Register(_, l)) = &first {
                let p = m.iter().position(|x| *x == **l).expect("model has it");
                m.remove(p);
            }
            *t = t.iter().skip(1).collect();
        }
        W::TakeButLast => {
            let n = t.iter().count();
            let last = t.iter().last().cloned();
            if let Some(Item::Lang(_, l) | Item::Register(_, l)) = &last {
                let p = m.iter().rposition(|x| *x == **l).expect("model has it");
                m.remove(p);
            }
            *t = t.iter().take(n.saturating_sub(1)).cloned().collect();
        }
        W::Rebuild => {
            let old = std::mem::take(t);
            *t = old.into_iter().filter(|_| true).collect();
        }
    }
}

const WAL: &[W] = &[
    W::Text,
    W::Space,
    W::Line,
    W::Reg,
    W::Ref,
    W::RefSame,
    W::ItemGarbage,
    W::Tuple3,
    W::Quoted,
    W::SubMid,
    W::SubEnd,
    W::SubNone,
    W::Double,
    W::Skip1,
    W::TakeButLast,
    W::Rebuild,
    W::Unind,
];

/// The same operations over and over.
fn c04_long(o: &Opts) -> Stats {
    let al: Vec<W> = WAL.iter().copied().filter(|w| *w != W::Double).collect();
    let mut words: Vec<Vec<W>> = al.iter().flat_map(|a| al.iter().map(|b| vec![*a, *b])).collect();
    if o.thorough() {
        words.extend(al.iter().flat_map(|a| al.iter().flat_map(|b| al.iter().map(|c| vec![*a, *b, *c]))));
    }
    let counts = [4, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 257];
    let mut st = par(o, words.len(), |w, st| {
        for start in [&[][..], &[W::Ref], &[W::Text, W::Reg, W::Line]] {
            let (mut t, mut m, mut i) = (T::new(), vec![], 0);
            let mut done = 0;
            let key = |n: usize, after: &str| format!("{start:?} {:?}*{n} {after}", words[w]);
            for x in start {
                i += 1;
                apply_w(&mut t, &mut m, *x, i);
            }
            for n in counts {
                // Quadratic.
                if n > o.pick(64, 257) && words[w].iter().any(|x| matches!(x, W::Skip1 | W::TakeButLast | W::Rebuild)) {
                    break;
                }
                while done < n {
                    for x in &words[w] {
                        i += 1;
                        if let Err(e) = guarded(|| apply_w(&mut t, &mut m, *x, i)) {
                            st.fail(key(n, ""), "operation panics", "ok", e);
                            return;
                        }
                    }
                    done += 1;
                }
                for after in [None, Some(W::Double), Some(W::Rebuild), Some(W::TakeButLast)] {
                    let key = || key(n, &format!("{after:?}"));
                    if st.skip(key) {
                        continue;
                    }
                    let (mut t, mut m) = (t.clone(), m.clone());
                    if let Some(a) = after {
                        if let Err(e) = guarded(|| apply_w(&mut t, &mut m, a, i + 1)) {
                            st.fail(key(), "operation panics", "ok", e);
                            return;
                        }
                    }
                    st.states += 1;
                    st.transitions += i as u64;
                    st.traces += 1;
                    m.sort();
                    let got = walked(&t);
                    if got.as_ref() != Ok(&m) {
                        st.fail(key(), "walk_imports does not yield every imported item exactly once per use", format!("{m:?}"), format!("{got:?}"));
                        return;
                    }
                }
            }
        }
    });
    st.bounds.push(format!("{} sequences of up to {} operations, repeated up to 257 times, then doubled, rebuilt or shortened", words.len(), o.pick(2, 3)));
    // Far apart, far in, and many.
    let far: &[usize] = o.pick(&[1000, 70_000], &[255, 256, 257, 1000, 32_767, 32_768, 65_534, 65_535, 65_536, 70_000, 200_000]);
    for &n in far {
        for filler in [W::Text, W::Ref, W::Reg] {
            for first in [W::Ref, W::Reg] {
                let key = || format!("{first:?} {filler:?}*{n} {first:?}");
                if st.skip(key) {
                    continue;
                }
                let (mut t, mut m) = (T::new(), vec![]);
                let got = guarded(|| {
                    apply_w(&mut t, &mut m, first, 1);
                    for i in 0..n {
                        apply_w(&mut t, &mut m, filler, i + 2);
                    }
                    apply_w(&mut t, &mut m, first, n + 2);
                    let mut v: Vec<Imp> = t.walk_imports().take(n + 9).cloned().collect();
                    v.sort();
                    v
                });
                st.states += 1;
                st.transitions += n as u64 + 2;
                st.traces += 1;
                m.sort();
                if got.as_ref() != Ok(&m) {
                    let short = |v: &[Imp]| format!("{} references", v.len());
                    st.fail(key(), "walk_imports does not yield every imported item exactly once per use", short(&m), format!("{:?}", got.map(|g| short(&g))));
                }
            }
        }
    }
    st.bounds.push(format!("references {far:?} items or references apart"));
    st
}

pub fn c04(o: &Opts) -> Stats {
    let depth = o.pick(6, 7);
    let k = WAL.len();
    let mut st = par(o, k * k, |sh, st| {
        fn visit(st: &mut Stats, h: &[W], t: &T, m: &[Imp]) {
            let key = || h.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join(" ");
            if st.skip(key) {
                return;
            }
            st.traces += 1;
            let mut want = m.to_vec();
            want.sort();
            let got = walked(t);
            if h.len() <= 4 {
                st.outcome(&want);
            }
            if got.as_ref() != Ok(&want) {
                st.fail(key(), "walk_imports does not yield every imported item exactly once per use", format!("{want:?}"), format!("{got:?}"));
            }
            // Independent of the walk: the items themselves.
            let mut raw: Vec<Imp> = t
                .iter()
                .filter_map(|i| match i {
                    Item::Lang(_, l) | Item::Register(_, l) => Some((**l).clone()),
                    _ => None,
                })
                .collect();
            raw.sort();
            if raw != want {
                st.fail(key(), "stored items lost or duplicated an import", format!("{want:?}"), format!("{raw:?}"));
            }
        }
        fn dfs(st: &mut Stats, t: &T, m: &[Imp], h: &mut Vec<W>, depth: usize) {
            st.states += 1;
            visit(st, h, t, m);
            if h.len() == depth || st.too_many() {
                return;
            }
            for &w in WAL {
                let (mut t2, mut m2) = (t.clone(), m.to_vec());
                let i = h.len() + 1;
                h.push(w);
                st.transitions += 1;
                match guarded(|| apply_w(&mut t2, &mut m2, w, i)) {
                    Ok(()) => dfs(st, &t2, &m2, h, depth),
                    Err(e) => st.fail(format!("{h:?}"), "operation panics", "ok", e),
                }
                h.pop();
            }
        }
        let mut t = T::new();
        let mut m = Vec::new();
        let mut h = vec![];
        for (i, w) in [WAL[sh / k], WAL[sh % k]].into_iter().enumerate() {
            h.push(w);
            if let Err(e) = guarded(|| apply_w(&mut t, &mut m, w, i + 1)) {
                st.fail(format!("{h:?}"), "operation panics", "ok", e);
                return;
            }
        }
        dfs(st, &t, &m, &mut h, depth);
    });
    st.bounds.push(format!("all histories of length 2..={depth} over {} operations (append, register, tuples, raw items with arbitrary link fields, nested streams, self-append, filtered rebuilds)", k));
    st.merge(c04_long(o));
    // Tuples of every size 1..=8.
    let mut t = T::new();
    let i = |n| Imp::new(0, n);
    let mut want = vec![];
    let mut base = 0u32;
    macro_rules! tup {
        ($($n:expr),*) => {{
            t.append("x");
            t.register(($(i(base + $n),)*));
            $(want.push(i(base + $n));)*
            t.append(genco::tokens::register(($(i(base + 10 + $n),)*)));
            $(want.push(i(base + 10 + $n));)*
            base += 100;
            st.states += 1;
            st.traces += 1;
            want.sort();
            let got = walked(&t);
            if got.as_ref() != Ok(&want) {
                st.fail(format!("tuple up to {}", base), "tuple registration loses items", format!("{want:?}"), format!("{got:?}"));
            }
        }};
    }
    tup!(0);
    tup!(0, 1);
    tup!(0, 1, 2);
    tup!(0, 1, 2, 3);
    tup!(0, 1, 2, 3, 4);
    tup!(0, 1, 2, 3, 4, 5);
    tup!(0, 1, 2, 3, 4, 5, 6);
    tup!(0, 1, 2, 3, 4, 5, 6, 7);
    st.merge(shipped_all(o));
    st
}

/// The ways in which an item of a language gets into a stream. The first
/// `APPENDS` of them show it.
const PUT_WAYS: usize = 24;
const APPENDS: usize = 15;

/// Puts an item into a stream; returns how often it is there.
fn put_way<L, X>(t: &mut genco::Tokens<L>, x: &X, way: usize) -> usize
where
    L: genco::lang::Lang,
    X: Clone + genco::tokens::FormatInto<L> + genco::tokens::Register<L>,
    for<'a> &'a X: genco::tokens::FormatInto<L> + genco::tokens::Register<L>,
{
    use genco::tokens::{quoted, register, FormatInto, Register};
    use genco::{quote, quote_in};
    use std::borrow::Cow;
    match way {
        0 => t.append(x.clone()),
        1 => t.append(x),
        2 => t.append(Some(x.clone())),
        3 => t.append(Some(x)),
        4 => {
            t.append(vec![x.clone(), x.clone()]);
            return 2;
        }
        5 => t.append(&vec![Some(x.clone()), None]),
        6 => {
            t.append(&[x.clone(), x.clone(), x.clone()][..]);
            return 3;
        }
        7 => t.append(Cow::Borrowed(&[x.clone()][..])),
        8 => t.append(&Cow::<[X]>::Owned(vec![x.clone()])),
        9 => t.append(quoted(x.clone())),
        10 => {
            let mut s = genco::Tokens::<L>::new();
            s.append(x);
            s.register(x);
            t.append(&s);
            return 2;
        }
        11 => quote_in!(*t => $x),
        12 => {
            t.append(from_fn(|t: &mut genco::Tokens<L>| {
                let s: genco::Tokens<L> = quote!($x$(x.clone()));
                t.append(s);
            }));
            return 2;
        }
        13 => x.format_into(t),
        14 => x.clone().format_into(t),
        15 => t.register(x.clone()),
        16 => t.register(x),
        17 => t.append(register(x.clone())),
        18 => t.append(register(x)),
        19 => {
            t.register((x, x.clone(), (x,)));
            return 3;
        }
        20 => quote_in!(*t => $(register(x))),
        21 => x.register(t),
        22 => x.clone().register(t),
        _ => {
            t.append(register((x.clone(), (x, x))));
            return 3;
        }
    }
    1
}

/// One item of a language: puts it, and is it.
type Putter<L> = (Box<dyn Fn(&mut genco::Tokens<L>, usize) -> usize + Sync>, <L as genco::lang::Lang>::Item, &'static str);

fn shipped<L>(st: &mut Stats, lang: &str, pool: Vec<Putter<L>>)
where
    L: genco::lang::Lang,
    L::Config: Default,
    L::Item: Sync,
{
    let n = 3;
    let ops: Vec<(usize, usize)> = (0..pool.len()).flat_map(|p| (0..PUT_WAYS).map(move |w| (p, w))).collect();
    let key = |h: &[(usize, usize)]| format!("{lang} {}", h.iter().map(|(p, w)| format!("{}:{w}", pool[*p].2)).collect::<Vec<_>>().join(" "));
    // What each step renders to by itself, by value.
    let alone: Vec<String> = (0..pool.len())
        .map(|p| {
            let mut t = genco::Tokens::<L>::new();
            (pool[p].0)(&mut t, 0);
            t.to_string().unwrap_or_default()
        })
        .collect();
    for h in seqs(&ops, n) {
        st.states += 1;
        st.transitions += 1;
        let k = || key(&h);
        if st.skip(k) {
            continue;
        }
        st.traces += 1;
        let mut want: Vec<L::Item> = vec![];
        let mut text = String::from("x");
        let mut quotes = false;
        let built = guarded(|| {
            let mut t = genco::Tokens::<L>::new();
            t.append("x");
            for (p, w) in &h {
                let n = (pool[*p].0)(&mut t, *w);
                for _ in 0..n {
                    want.push(pool[*p].1.clone());
                }
                let shown = match w {
                    10 => 1,
                    _ if *w < APPENDS => n,
                    _ => 0,
                };
                quotes |= *w == 9;
                for _ in 0..shown {
                    text.push_str(&alone[*p]);
                }
            }
            t
        });
        want.sort();
        let got = built.and_then(|t| {
            guarded(|| {
                let mut v: Vec<L::Item> = t.walk_imports().take(1000).cloned().collect();
                v.sort();
                (v, t.to_string())
            })
        });
        match &got {
            Ok((v, r)) if *v == want && (quotes || r.as_ref().ok() == Some(&text)) => {
                st.outcome(&(lang, format!("{v:?}"), r.as_ref().ok()));
            }
            other => st.fail(k(), "references of the stream, or what they render to", format!("{want:?} {text:?}"), format!("{other:?}")),
        }
        if st.too_many() {
            return;
        }
    }
}

fn shipped_all(o: &Opts) -> Stats {
    use genco::lang::*;
    macro_rules! pool {
        ($($name:literal $ty:ty = $e:expr;)*) => {
            vec![$({
                let x: $ty = $e;
                let y = x.clone();
                (Box::new(move |t: &mut _, w| put_way(t, &y, w)) as Box<dyn Fn(&mut _, usize) -> usize + Sync>, x.into(), $name)
            }),*]
        };
    }
    let mut s = par(o, 10, |i, st| match i {
        0 => shipped::<Rust>(st, "rust", pool! {
            "p" rust::Import = rust::import("a::b", "C");
            "a" rust::Import = rust::import("a", "C").with_alias("D");
            "q" rust::Import = rust::import("a", "C").with_module_alias("m").qualified();
        }),
        1 => shipped::<Java>(st, "java", pool! {
            "p" java::Import = java::import("a.b", "C");
            "o" java::Import = java::import("z", "C");
        }),
        2 => shipped::<Csharp>(st, "csharp", pool! {
            "p" csharp::Import = csharp::import("a.b", "C");
            "q" csharp::Import = csharp::import("z", "C").qualified();
        }),
        3 => shipped::<Dart>(st, "dart", pool! {
            "p" dart::Import = dart::import("a.dart", "C");
            "a" dart::Import = dart::import("a.dart", "C").with_alias("m");
        }),
        4 => shipped::<Go>(st, "go", pool! {
            "p" go::Import = go::import("a/b", "C");
            "o" go::Import = go::import("z", "C");
        }),
        5 => shipped::<JavaScript>(st, "js", pool! {
            "p" js::Import = js::import("a", "C");
            "d" js::Import = js::import("a", "C").into_default();
            "w" js::Import = js::import("a", "C").into_wildcard();
        }),
        6 => shipped::<Python>(st, "python", pool! {
            "p" python::Import = python::import("a", "C");
            "a" python::Import = python::import("a", "C").with_alias("D");
            "m" python::ImportModule = python::import_module("a.b");
        }),
        7 => shipped::<Swift>(st, "swift", pool! {
            "p" swift::Import = swift::import("a", "C");
            "o" swift::Import = swift::import("b", "C");
        }),
        8 => shipped::<C>(st, "c", pool! {
            "p" c::Import = c::include("a.h", "C");
            "s" c::Import = c::include_system("a.h", "C");
        }),
        _ => shipped::<Nix>(st, "nix", pool! {
            "i" nix::Import = nix::inherit("a", "b");
            "a" nix::Import = nix::argument("a");
            "w" nix::Import = nix::with("a", "b");
        }),
    });
    s.bounds.push(format!("10 shipped languages: all sequences of 0..=3 of (2-3 items x {PUT_WAYS} ways to append or register them by value, by reference and through containers): walk and rendering"));
    s
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    Lit,
    Empty,
    Reg,
    Ref,
    Space,
    Push,
    Ind,
    OpenN,
    OpenT,
    Close,
    OpenEval,
    CloseEval,
}

pub fn pitem(p: P, i: usize) -> Item<TL> {
    match p {
        P::Lit => Item::Literal(ItemStr::Box(["a", "-", "cd", "=é"][i % 4].into())),
        P::Empty => Item::Literal(ItemStr::Static("")),
        P::Reg => Item::Register(0, Box::new(Imp::new(0, 9))),
        P::Ref => Item::Lang(0, Box::new(Imp::new(0, i as u32))),
        P::Space => Item::Space,
        P::Push => Item::Push,
        P::Ind => Item::Indentation(1),
        P::OpenN => Item::OpenQuote(false),
        P::OpenT => Item::OpenQuote(true),
        P::Close => Item::CloseQuote,
        P::OpenEval => Item::OpenEval,
        P::CloseEval => Item::CloseEval,
    }
}

/// Grammar-directed evaluation of a (normalised) item list.
struct Eval<'a> {
    /// A line break inside a string within a string: becomes string content.
    nested_break: bool,
    items: &'a [Item<TL>],
    pos: usize,
    lc: &'a LCfg,
}

#[derive(Debug, PartialEq, Clone)]
enum Verdict {
    /// Properly nested: must format to exactly this.
    Ok(String),
    /// A closing or evaluation marker with nothing to close: must be an error.
    Stray,
    /// Not claimed (unterminated, or an evaluated string nested in a string).
    Open,
}

enum Stop {
    End,
    CloseQuote,
    CloseEval,
    Bad(Verdict),
}

impl Eval<'_> {
    /// `ctx`: 0 top level, 1 inside a quote, 2 inside an evaluation, 3 inside
    /// a quote within a quote.
    fn run(&mut self, m: &mut Ideal, ctx: u8, eval_ok: bool) -> Stop {
        let esc = |s: &str| s.chars().map(|c| format!("^{c}")).collect::<String>();
        // Inside of a nested string, text outside of ASCII is only escaped by the outermost one.
        let esc_nested = |s: &str| {
            s.chars().map(|c| if c.is_ascii() { format!("^{c}") } else { c.to_string() }).collect::<String>()
        };
        while let Some(it) = self.items.get(self.pos) {
            self.pos += 1;
            if ctx == 3 && matches!(it, Item::Push | Item::Line | Item::Indentation(_)) {
                self.nested_break = true;
            }
            match it {
                Item::Literal(s) => {
                    let s = match ctx {
                        1 => esc(s),
                        3 => esc_nested(s),
                        _ => s.to_string(),
                    };
                    m.op(&Op::Text(s), self.lc)
                }
                Item::Lang(_, l) => m.op(&Op::Text(l.text('c', 'f')), self.lc),
                Item::Register(..) => m.op(&Op::Mark, self.lc),
                Item::Space => m.op(&Op::Space, self.lc),
                Item::Push => m.op(&Op::Push, self.lc),
                Item::Line => m.op(&Op::Line, self.lc),
                Item::Indentation(n) => m.op(&Op::Ind(*n), self.lc),
                Item::OpenQuote(e) if ctx == 0 || ctx == 2 => {
                    let f = if *e { 't' } else { 'n' };
                    m.op(&Op::Text(format!("«cf{f}:")), self.lc);
                    match self.run(m, 1, *e) {
                        Stop::CloseQuote => m.op(&Op::Text(format!(":cf{f}»")), self.lc),
                        Stop::End => return Stop::Bad(Verdict::Open),
                        Stop::CloseEval => return Stop::Bad(Verdict::Stray),
                        b => return b,
                    }
                }
                Item::OpenQuote(false) => {
                    // A string within a string: rendered on its own, then
                    // escaped as content of the outer one.
                    let mut inner = Ideal::default();
                    inner.op(&Op::Text("«cfn:".into()), self.lc);
                    match self.run(&mut inner, 3, false) {
                        Stop::CloseQuote => {
                            inner.op(&Op::Text(":cfn»".into()), self.lc);
                            let text = if ctx == 3 { esc_nested(&inner.out) } else { esc(&inner.out) };
                            m.op(&Op::Text(text), self.lc)
                        }
                        Stop::End => return Stop::Bad(Verdict::Open),
                        Stop::CloseEval => return Stop::Bad(Verdict::Stray),
                        b => return b,
                    }
                }
                Item::OpenQuote(true) => return Stop::Bad(Verdict::Open),
                Item::CloseQuote => return Stop::CloseQuote,
                Item::OpenEval => {
                    if ctx != 1 {
                        return Stop::Bad(if ctx == 3 { Verdict::Open } else { Verdict::Stray });
                    }
                    if !eval_ok {
                        return Stop::Bad(Verdict::Open);
                    }
                    // The short form, unless what follows could be read as a part of it.
                    let word = |rest: &[Item<TL>]| {
                        rest.iter()
                            .find(|i| !matches!(i, Item::Register(..)) && !matches!(i, Item::Literal(s) if s.is_empty()))
                            .is_some_and(|i| match i {
                                Item::Literal(s) => s.starts_with(|c: char| c.is_alphanumeric() || c == '_'),
                                Item::Lang(..) => true,
                                _ => false,
                            })
                    };
                    if let [Item::Literal(s), Item::CloseEval, rest @ ..] = &self.items[self.pos..] {
                        if word(rest) {
                            m.op(&Op::Text(format!("cf{{{}}}cf", &**s)), self.lc);
                            self.pos += 2;
                            continue;
                        }
                        m.op(&Op::Text(format!("$'cf{}'", &**s)), self.lc);
                        self.pos += 2;
                        continue;
                    }
                    m.op(&Op::Text("cf{".into()), self.lc);
                    match self.run(m, 2, false) {
                        Stop::CloseEval => m.op(&Op::Text("}cf".into()), self.lc),
                        Stop::End => return Stop::Bad(Verdict::Open),
                        Stop::CloseQuote => return Stop::Bad(Verdict::Stray),
                        b => return b,
                    }
                }
                Item::CloseEval => return Stop::CloseEval,
            }
        }
        Stop::End
    }
}

fn verdict(items: &[Item<TL>], lc: &LCfg) -> Verdict {
    let mut m = Ideal::default();
    let mut e = Eval { nested_break: false, items, pos: 0, lc };
    match e.run(&mut m, 0, false) {
        Stop::End if e.nested_break => Verdict::Open,
        Stop::End => Verdict::Ok(m.out),
        Stop::CloseQuote | Stop::CloseEval => Verdict::Stray,
        Stop::Bad(v) => v,
    }
}

const PAL: &[P] = &[
    P::Lit,
    P::Space,
    P::OpenN,
    P::OpenT,
    P::Close,
    P::OpenEval,
    P::CloseEval,
    P::Ref,
    P::Reg,
    P::Empty,
    P::Push,
];

pub fn c12(o: &Opts) -> Stats {
    let depth = o.pick(6, 7);
    let narrow: &[P] = &[P::Lit, P::OpenN, P::OpenT, P::Close, P::OpenEval, P::CloseEval];
    let mut st = c12_over(o, PAL, depth);
    st.merge(c12_over(o, narrow, o.pick(8, 10)));
    st.merge(c12_over(o, &[P::Lit, P::Space, P::OpenN, P::Close, P::OpenEval, P::CloseEval, P::OpenT, P::Ind], o.pick(6, 8)));
    st.merge(c12_nested(o));
    st
}

fn c12_over(o: &Opts, al: &[P], depth: usize) -> Stats {
    let lc = LCfg::spaces(4);
    let k = al.len();
    let mut st = par(o, k * k, |sh, st| {
        fn visit(st: &mut Stats, h: &[P], t: &T, lc: &LCfg) {
            let key = || h.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join(" ");
            if st.skip(key) {
                return;
            }
            let items: Vec<Item<TL>> = t.iter().cloned().collect();
            let want = verdict(&items, lc);
            let got = rendered(|| tl::render(t, fmt::Indentation::Space(4), "\n"));
            st.traces += 1;
            match (&want, &got) {
                (Verdict::Ok(w), Ok(g)) if w == g => {
                    st.outcome(g);
                    st.bump("well_nested", 1);
                }
                (Verdict::Ok(w), g) => st.fail(key(), "well-nested stream renders wrongly", w.clone(), format!("{g:?}")),
                (Verdict::Stray, Err(e)) if e == "fmt::Error" => st.bump("stray_rejected", 1),
                (Verdict::Stray, g) => st.fail(key(), "stray quote/evaluation marker is not an error", "Err", format!("{g:?}")),
                (Verdict::Open, Err(e)) if e.starts_with("panic") => st.fail(key(), "malformed stream panics", "Ok or Err", e.clone()),
                _ => st.bump("unclaimed_no_panic", 1),
            }
        }
        fn dfs(st: &mut Stats, t: &T, h: &mut Vec<P>, al: &[P], depth: usize, lc: &LCfg) {
            st.states += 1;
            visit(st, h, t, lc);
            if h.len() == depth || st.too_many() {
                return;
            }
            for &p in al {
                let mut t2 = t.clone();
                t2.append(pitem(p, h.len()));
                h.push(p);
                st.transitions += 1;
                dfs(st, &t2, h, al, depth, lc);
                h.pop();
            }
        }
        let mut t = T::new();
        let mut h = vec![];
        for (i, p) in [al[sh / k], al[sh % k]].into_iter().enumerate() {
            t.append(pitem(p, i));
            h.push(p);
        }
        if sh < 2 {
            st.sample(|| format!("{h:?} => {:?}", verdict(&t.iter().cloned().collect::<Vec<_>>(), &lc)));
        }
        dfs(st, &t, &mut h, al, depth, &lc);
    });
    st.bounds.push(format!("all item sequences of length 2..={depth} over {al:?}"));
    st
}

/// Deep nesting of every shape: evaluations within strings within evaluations.
fn c12_nested(o: &Opts) -> Stats {
    let mut st = Stats::new(o);
    let lc = LCfg::spaces(4);
    let depths = || (1..=o.pick(40usize, 130)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
    for depth in depths() {
        for shape in 0..3u8 {
            // Escapes double.
            if shape == 2 && depth > 10 {
                continue;
            }
            let mut items: Vec<Item<TL>> = vec![];
            for d in 0..depth {
                items.push(Item::OpenQuote(shape != 2));
                items.push(pitem(P::Lit, d));
                if shape == 2 {
                    continue;
                }
                items.push(Item::OpenEval);
                if shape == 1 {
                    items.push(pitem(P::Lit, d + 1));
                    items.push(Item::Space);
                }
            }
            items.push(pitem(P::Lit, 0));
            items.push(pitem(P::Ref, 1));
            for d in 0..depth {
                if shape != 2 {
                    items.push(Item::CloseEval);
                }
                items.push(pitem(P::Lit, d));
                items.push(Item::CloseQuote);
            }
            items.push(pitem(P::Lit, 0));
            let t: T = items.iter().collect();
            st.states += 1;
            st.transitions += items.len() as u64;
            let stored: Vec<Item<TL>> = t.iter().cloned().collect();
            let want = verdict(&stored, &lc);
            let got = rendered(|| tl::render(&t, fmt::Indentation::Space(4), "\n"));
            st.traces += 1;
            match (&want, &got) {
                (Verdict::Ok(w), Ok(g)) if w == g => st.outcome(g),
                (w, g) => st.fail(format!("nested shape={shape} depth={depth}"), "deep nesting renders wrongly", format!("{w:?}"), format!("{g:?}")),
            }
        }
    }
    // One after the other; the last one has a closing too many, or not.
    for n in depths() {
        for shape in 0..12u8 {
            let mut items: Vec<Item<TL>> = vec![];
            let (stray, shape) = (shape / 4, shape % 4);
            if shape == 1 {
                items.push(Item::OpenQuote(true));
            }
            for d in 0..n {
                match shape {
                    0 => items.extend([Item::OpenQuote(d % 2 == 0), pitem(P::Lit, d), Item::CloseQuote]),
                    1 => items.extend([Item::OpenEval, pitem(P::Lit, d), Item::CloseEval]),
                    2 => items.extend([Item::OpenQuote(true), Item::OpenEval, pitem(P::Ref, d), Item::CloseEval, pitem(P::Lit, d), Item::CloseQuote, Item::Space]),
                    _ => items.extend([Item::OpenQuote(false), Item::CloseQuote, Item::Push]),
                }
            }
            if shape == 1 {
                items.push(Item::CloseQuote);
            }
            match stray {
                1 => items.push(Item::CloseQuote),
                2 => items.push(Item::CloseEval),
                _ => {}
            }
            items.push(pitem(P::Lit, 0));
            let t: T = items.iter().collect();
            st.states += 1;
            st.transitions += items.len() as u64;
            let stored: Vec<Item<TL>> = t.iter().cloned().collect();
            let want = verdict(&stored, &lc);
            let got = rendered(|| tl::render(&t, fmt::Indentation::Space(4), "\n"));
            st.traces += 1;
            match (&want, &got) {
                (Verdict::Ok(w), Ok(g)) if w == g => st.outcome(g),
                (Verdict::Stray, Err(e)) if e == "fmt::Error" => {}
                (w, g) => st.fail(format!("sequence shape={shape} stray={stray} n={n}"), "strings in sequence render wrongly", format!("{w:?}"), format!("{g:?}")),
            }
        }
    }
    st.bounds.push(format!("nesting depth 1..={}, and to 300 in steps, of strings/evaluations, 3 shapes; as many in sequence, 4 shapes, with and without a closing too many", o.pick(40, 130)));
    st
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    A(A),
    P(P),
}

fn apply_q(t: &mut T, q: Q, i: usize) {
    match q {
        Q::A(a) => apply(t, a, i, false),
        Q::P(p) => t.append(pitem(p, i)),
    }
}

struct CharByChar(String);
impl std::fmt::Write for CharByChar {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            self.0.push(c);
        }
        Ok(())
    }
}

pub fn c13(o: &Opts) -> Stats {
    let al = [
        Q::A(A::Text),
        Q::A(A::Space),
        Q::A(A::Push),
        Q::A(A::Line),
        Q::A(A::Ind),
        Q::A(A::Unind),
        Q::A(A::Ref(1)),
        Q::A(A::Ref(4)),
        Q::P(P::OpenN),
        Q::P(P::Close),
    ];
    let depth = o.pick(5, 6);
    let mut st = c13_over(o, seqs(&al, depth), &format!("all well-nested histories of length <= {depth} over {} operations", al.len()));
    let mut odd: Vec<Q> = crate::layout::ODD.iter().map(|a| Q::A(*a)).collect();
    odd.extend([Q::P(P::OpenN), Q::P(P::Close)]);
    let depth = o.pick(3, 4);
    st.merge(c13_over(o, seqs(&odd, depth), &format!("all well-nested histories of length <= {depth} over {} unusual texts", odd.len())));
    let lens = [2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000];
    let n = o.pick(2, 3);
    st.merge(c13_over(o, repeated(&al, n, &lens, 1000), &format!("every word of length 1..={n} over {} operations, repeated {lens:?} times in the middle of a line", al.len())));
    st.merge(shipped_writers(o));
    st
}

/// Every word up to length `n`, each as often as `lens` says, with a text
/// before and after.
fn repeated(al: &[Q], n: usize, lens: &[usize], max: usize) -> Vec<Vec<Q>> {
    let mut out = vec![];
    for w in seqs(al, n) {
        if w.is_empty() {
            continue;
        }
        for &m in lens.iter().filter(|m| **m <= max) {
            let mut h = vec![Q::A(A::Text)];
            for _ in 0..m {
                h.extend(w.iter().copied());
            }
            h.push(Q::A(A::Text));
            out.push(h);
        }
    }
    out
}

/// A history in few characters.
fn brief(h: &[Q]) -> String {
    if h.len() <= 12 {
        return format!("{h:?}");
    }
    let w = &h[1..h.len() - 1];
    let p = (1..=w.len()).find(|p| w.iter().enumerate().all(|(i, q)| *q == w[i % p])).unwrap_or(1);
    format!("[A(Text), {:?} x {}, A(Text)]", &w[..p], w.len() / p)
}

fn c13_over(o: &Opts, all: Vec<Vec<Q>>, what: &str) -> Stats {
    let inds = [
        fmt::Indentation::Space(4),
        fmt::Indentation::Space(0),
        fmt::Indentation::Space(1),
        fmt::Indentation::Space(2),
        fmt::Indentation::Space(7),
        fmt::Indentation::Tab,
    ];
    let nls: [&'static str; 5] = ["\n", "\r\n", "\r", "<eol>", ""];
    let chunks = 256;
    let mut st = par(o, chunks, |sh, st| {
        for (idx, h) in all.iter().enumerate() {
            if idx % chunks != sh {
                continue;
            }
            if st.too_many() {
                return;
            }
            let mut t = T::new();
            for (i, q) in h.iter().enumerate() {
                apply_q(&mut t, *q, i);
            }
            let stored: Vec<Item<TL>> = t.iter().cloned().collect();
            st.states += 1;
            st.transitions += h.len() as u64;
            for (ii, ind) in inds.iter().enumerate() {
                for (ni, nl) in nls.iter().enumerate() {
                    // full cross product for short histories; the diagonal otherwise
                    if h.len() > 4 && (idx + ii) % 5 != ni {
                        continue;
                    }
                    let k = || format!("{} ind={ind:?} nl={nl:?}", brief(h));
                    if st.skip(k) {
                        continue;
                    }
                    let lc = LCfg {
                        ind: match ind {
                            fmt::Indentation::Space(n) => Indent::Space(*n),
                            fmt::Indentation::Tab => Indent::Tab,
                        },
                        nl: nl.to_string(),
                    };
                    let Verdict::Ok(want) = verdict(&stored, &lc) else { continue };
                    let marker = LCfg { nl: "\u{1}".into(), ..lc.clone() };
                    let Verdict::Ok(wm) = verdict(&stored, &marker) else { unreachable!() };
                    let want_lines: Vec<String> = wm.split('\u{1}').map(String::from).collect();
                    let cfg = fmt::Config::from_lang::<TL>().with_indentation(*ind).with_newline(nl);
                    st.traces += 1;
                    let res = guarded(|| -> genco::fmt::Result<_> {
                        let c = Cfg::default();
                        let f = Fmt::default();
                        let mut a = fmt::FmtWriter::new(String::new());
                        t.format(&mut a.as_formatter(&cfg), &c, &f)?;
                        let mut b = fmt::IoWriter::new(Vec::new());
                        t.format(&mut b.as_formatter(&cfg), &c, &f)?;
                        let mut v = fmt::VecWriter::new();
                        t.format(&mut v.as_formatter(&cfg), &c, &f)?;
                        let mut g = fmt::FmtWriter::new(CharByChar(String::new()));
                        t.format(&mut g.as_formatter(&cfg), &c, &f)?;
                        let mut fa = fmt::FmtWriter::new(String::new());
                        t.format_file(&mut fa.as_formatter(&cfg), &c)?;
                        let mut fb = fmt::IoWriter::new(Vec::new());
                        t.format_file(&mut fb.as_formatter(&cfg), &c)?;
                        let mut fv = fmt::VecWriter::new();
                        t.format_file(&mut fv.as_formatter(&cfg), &c)?;
                        Ok((
                            a.into_inner(),
                            String::from_utf8(b.into_inner()).unwrap(),
                            v.into_vec(),
                            g.into_inner().0,
                            fa.into_inner(),
                            String::from_utf8(fb.into_inner()).unwrap(),
                            fv.into_vec(),
                        ))
                    });
                    let (a, b, v, g, fa, fb, fv) = match res {
                        Ok(Ok(r)) => r,
                        r => {
                            st.fail(k(), "formatting fails", want, format!("{r:?}"));
                            continue;
                        }
                    };
                    st.outcome(&a);
                    let mut cmp = |what: &str, w: &str, got: &str| {
                        if w != got {
                            st.fail(k(), what, w, got);
                        }
                    };
                    cmp("string writer", &want, &a);
                    cmp("io writer", &want, &b);
                    cmp("char sink", &want, &g);
                    let file = format!("{want}{nl}");
                    cmp("file through string writer", &file, &fa);
                    cmp("file through io writer", &file, &fb);
                    cmp("vec writer", &format!("{want_lines:?}"), &format!("{v:?}"));
                    cmp("file through vec writer", &format!("{want_lines:?}"), &format!("{fv:?}"));
                    // One writer, several renderings: each starts afresh, whatever the one before has left pending.
                    if h.len() <= 4 {
                        let res = guarded(|| -> genco::fmt::Result<_> {
                            let c = Cfg::default();
                            let f = Fmt::default();
                            let mut a = fmt::FmtWriter::new(String::new());
                            t.format(&mut a.as_formatter(&cfg), &c, &f)?;
                            t.format_file(&mut a.as_formatter(&cfg), &c)?;
                            t.format(&mut a.as_formatter(&cfg), &c, &f)?;
                            let mut b = fmt::IoWriter::new(Vec::new());
                            t.format(&mut b.as_formatter(&cfg), &c, &f)?;
                            t.format_file(&mut b.as_formatter(&cfg), &c)?;
                            t.format(&mut b.as_formatter(&cfg), &c, &f)?;
                            let mut v = fmt::VecWriter::new();
                            t.format(&mut v.as_formatter(&cfg), &c, &f)?;
                            t.format(&mut v.as_formatter(&cfg), &c, &f)?;
                            Ok((a.into_inner(), String::from_utf8(b.into_inner()).unwrap(), v.into_vec()))
                        });
                        let thrice = format!("{want}{file}{want}");
                        let mut lines = want_lines.clone();
                        let tail = lines.pop().unwrap();
                        lines.push(format!("{tail}{}", want_lines[0]));
                        lines.extend(want_lines[1..].iter().cloned());
                        cmp("one writer, three renderings", &format!("{:?}", Ok::<_, String>(Ok::<_, genco::fmt::Error>((thrice.clone(), thrice, lines)))), &format!("{res:?}"));
                    }
                    if ii == 0 && ni == 0 {
                        let sh = [t.to_string(), t.to_file_string()];
                        cmp("to_string", &format!("{:?}", [Ok::<_, genco::fmt::Error>(want.clone()), Ok(file.clone())]), &format!("{sh:?}"));
                        let sv = [t.to_vec(), t.to_file_vec()];
                        cmp("to_vec", &format!("{:?}", [Ok::<_, genco::fmt::Error>(want_lines.clone()), Ok(want_lines.clone())]), &format!("{sv:?}"));
                    }
                }
            }
        }
    });
    st.bounds.push(format!(
        "{what} x {} indentations x {} newlines x 7 writer paths (length 5+: each indentation with one newline)",
        inds.len(), nls.len()
    ));
    st
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// The call fails.
    Err(io::ErrorKind),
    /// The sink accepts nothing.
    Zero,
    /// Transient: must be retried.
    Interrupted,
    /// Accept one byte only.
    Short,
}

struct Sink {
    plan: BTreeMap<usize, Fault>,
    calls: usize,
    got: Vec<u8>,
    failed: bool,
    after_failure: bool,
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after_failure = true;
        }
        let c = self.calls;
        self.calls += 1;
        match self.plan.get(&c) {
            None => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            Some(Fault::Err(k)) => {
                self.failed = true;
                Err((*k).into())
            }
            Some(Fault::Zero) => {
                self.failed = true;
                Ok(0)
            }
            Some(Fault::Interrupted) => Err(io::ErrorKind::Interrupted.into()),
            Some(Fault::Short) => {
                self.got.push(b[0]);
                Ok(1)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct FSink {
    fail_at: usize,
    calls: usize,
    got: String,
    after: bool,
}
impl std::fmt::Write for FSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        let c = self.calls;
        self.calls += 1;
        if c > self.fail_at {
            self.after = true;
        }
        if c == self.fail_at {
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// A newline which takes several bytes, so that it can be torn.
const EOL: &str = "\r\n";

fn run_io<L>(t: &genco::Tokens<L>, file: bool, plan: BTreeMap<usize, Fault>) -> (Result<Result<(), String>, String>, Sink)
where
    L: genco::lang::Lang,
    L::Config: Default,
{
    let cfg = fmt::Config::from_lang::<L>().with_newline(EOL);
    let mut w = fmt::IoWriter::new(Sink { plan, calls: 0, got: vec![], failed: false, after_failure: false });
    let r = guarded(|| {
        let mut f = w.as_formatter(&cfg);
        if file {
            t.format_file(&mut f, &L::Config::default())
        } else {
            t.format(&mut f, &L::Config::default(), &L::Format::default())
        }
        .map_err(|_| "fmt::Error".to_string())
    });
    (r, w.into_inner())
}

pub fn c14(o: &Opts) -> Stats {
    let al = [
        Q::A(A::Text),
        Q::A(A::Space),
        Q::A(A::Line),
        Q::A(A::Ind),
        Q::A(A::Ref(1)),
        Q::A(A::Ref(4)),
        Q::P(P::OpenT),
        Q::P(P::Close),
        Q::P(P::OpenEval),
        Q::P(P::CloseEval),
        Q::A(A::Ref(3)), // an item that fails to format
    ];
    let depth = o.pick(5, 6);
    let mut st = c14_over(o, seqs(&al, depth), &format!("all well-nested histories of length <= {depth} over {} operations", al.len()));
    let odd: Vec<Q> = crate::layout::ODD.iter().map(|a| Q::A(*a)).collect();
    let depth = o.pick(2, 3);
    st.merge(c14_over(o, seqs(&odd, depth), &format!("all histories of length <= {depth} over {} unusual texts", odd.len())));
    let lens = [2, 3, 8, 16, 17, 33, 65, 129, 257];
    let n = o.pick(2, 3);
    st.merge(c14_over(o, repeated(&al, n, &lens, o.pick(129, 257)), &format!("every word of length 1..={n} over {} operations, repeated up to {} times", al.len(), o.pick(129, 257))));
    st.merge(shipped_faults(o));
    st
}

fn c14_over(o: &Opts, all: Vec<Vec<Q>>, what: &str) -> Stats {
    let lcfg = LCfg { nl: EOL.into(), ..LCfg::spaces(4) };
    let chunks = 256;
    let mut st = par(o, chunks, |sh, st| {
        for (idx, h) in all.iter().enumerate() {
            if idx % chunks != sh || st.too_many() {
                continue;
            }
            // Longer histories: only those that end in something rendered.
            let mut t = T::new();
            for (i, q) in h.iter().enumerate() {
                apply_q(&mut t, *q, i);
            }
            let fails_item = h.contains(&Q::A(A::Ref(3)));
            let stored: Vec<Item<TL>> = t.iter().cloned().collect();
            let Verdict::Ok(full) = verdict(&stored, &lcfg) else { continue };
            st.states += 1;
            for file in [false, true] {
                let k0 = format!("{} file={file}", brief(h));
                if let Some(k) = &st.only {
                    if !k.starts_with(&k0) {
                        continue;
                    }
                }
                let (r, s) = run_io(&t, file, BTreeMap::new());
                st.traces += 1;
                st.transitions += 1;
                if fails_item {
                    // An item's error is surfaced, and nothing is written after it.
                    let ok = matches!(&r, Ok(Err(_)));
                    if !ok {
                        st.fail(format!("{k0} item-error"), "an item's formatting error is swallowed", "Err", format!("{r:?}"));
                    }
                    let g = String::from_utf8_lossy(&s.got).to_string();
                    if !full.starts_with(&g) {
                        st.fail(format!("{k0} item-prefix"), "output before the error is not a prefix", full.clone(), g);
                    }
                    continue;
                }
                let whole = if file { format!("{full}{EOL}") } else { full.clone() };
                if r != Ok(Ok(())) || s.got != whole.as_bytes() {
                    st.fail(k0.clone(), "fault free run", whole.clone(), format!("{r:?} {:?}", String::from_utf8_lossy(&s.got)));
                    continue;
                }
                let n = s.calls;
                st.outcome(&s.got);
                // every single hard fault, at every call
                for c in 0..n {
                    for f in [
                        Fault::Err(io::ErrorKind::Other),
                        Fault::Err(io::ErrorKind::BrokenPipe),
                        Fault::Err(io::ErrorKind::WouldBlock),
                        Fault::Zero,
                    ] {
                        let (r, s) = run_io(&t, file, [(c, f)].into());
                        st.traces += 1;
                        st.transitions += 1;
                        let k = || format!("{k0} call={c} fault={f:?}");
                        if !matches!(r, Ok(Err(_))) {
                            st.fail(k(), "a failed write is not reported", "Err", format!("{r:?}"));
                        }
                        if !whole.as_bytes().starts_with(&s.got) {
                            st.fail(k(), "delivered bytes are not a prefix of the output", whole.clone(), format!("{:?}", String::from_utf8_lossy(&s.got)));
                        }
                        if s.after_failure {
                            st.fail(k(), "writing continues after a failed write", "no further writes", "more writes");
                        }
                    }
                    // a transient fault at every call
                    for f in [Fault::Interrupted, Fault::Short] {
                        let (r, s) = run_io(&t, file, [(c, f)].into());
                        st.traces += 1;
                        st.transitions += 1;
                        if r != Ok(Ok(())) || s.got != whole.as_bytes() {
                            st.fail(
                                format!("{k0} call={c} fault={f:?}"),
                                "short or interrupted writes lose or repeat output",
                                whole.clone(),
                                format!("{r:?} {:?}", String::from_utf8_lossy(&s.got)),
                            );
                        }
                    }
                    // the same for a failing fmt::Write sink
                    let cfg = fmt::Config::from_lang::<TL>().with_newline(EOL);
                    let mut w = fmt::FmtWriter::new(FSink { fail_at: c, calls: 0, got: String::new(), after: false });
                    let r = guarded(|| {
                        let mut f = w.as_formatter(&cfg);
                        if file {
                            t.format_file(&mut f, &Cfg::default())
                        } else {
                            t.format(&mut f, &Cfg::default(), &Fmt::default())
                        }
                        .is_err()
                    });
                    let s = w.into_inner();
                    st.traces += 1;
                    if s.calls > c && (r != Ok(true) || s.after || !whole.starts_with(&s.got)) {
                        st.fail(
                            format!("{k0} fmt-call={c}"),
                            "a failing string sink is not handled",
                            "Err, no further writes, prefix delivered",
                            format!("err={r:?} after={} got={:?}", s.after, s.got),
                        );
                    }
                }
                // every pattern of transient faults on the first calls
                let m = n.min(o.pick(4, 6));
                for pat in 1..3usize.pow(m as u32) {
                    let mut plan = BTreeMap::new();
                    let mut p = pat;
                    for c in 0..m {
                        match p % 3 {
                            1 => drop(plan.insert(c, Fault::Short)),
                            2 => drop(plan.insert(c, Fault::Interrupted)),
                            _ => {}
                        }
                        p /= 3;
                    }
                    let (r, s) = run_io(&t, file, plan);
                    st.traces += 1;
                    st.transitions += 1;
                    if r != Ok(Ok(())) || s.got != whole.as_bytes() {
                        st.fail(
                            format!("{k0} transient={pat}"),
                            "short or interrupted writes lose or repeat output",
                            whole.clone(),
                            format!("{r:?} {:?}", String::from_utf8_lossy(&s.got)),
                        );
                    }
                }
            }
        }
    });
    st.bounds.push(format!("{what}; every single hard fault at every write call (4 kinds, io and fmt sinks); every pattern of short/interrupted writes over the first {} calls", o.pick(4, 6)));
    st
}

// ---------------------------------------------------------------- shipped languages (C13, C14)

type Piece<L> = (&'static str, Box<dyn Fn(&mut genco::Tokens<L>) + Sync>);

/// All short streams over pieces which make a language use each of its
/// callbacks, through `f`.
fn shipped_streams<L, F>(o: &Opts, lang: &str, n: usize, own: Vec<Piece<L>>, eval: bool, f: &F) -> Stats
where
    L: genco::lang::Lang,
    F: Fn(&mut Stats, &str, &genco::Tokens<L>) + Sync,
{
    fn common<L: genco::lang::Lang>(eval: bool) -> Vec<Piece<L>> {
        let mut v: Vec<Piece<L>> = vec![
            ("text", Box::new(|t| t.append("t"))),
            ("space", Box::new(|t| t.space())),
            ("push", Box::new(|t| t.push())),
            ("line", Box::new(|t| t.line())),
            ("indent", Box::new(|t| t.indent())),
            ("quoted", Box::new(|t| t.append(genco::tokens::quoted("q\n\u{1f}\u{7f}\u{9f}\"\\$`é\u{10400}")))),
            (
                "nested",
                Box::new(|t| {
                    t.append(Item::OpenQuote(false));
                    t.append("o");
                    t.append(genco::tokens::quoted("i\u{8}"));
                    t.append(Item::CloseQuote);
                }),
            ),
            ("stray", Box::new(|t| t.append(Item::CloseEval))),
        ];
        if eval {
            v.push((
                "eval",
                Box::new(|t| {
                    t.append(Item::OpenQuote(true));
                    t.append("a");
                    t.append(Item::OpenEval);
                    t.append("v");
                    t.append(Item::CloseEval);
                    t.append(Item::OpenEval);
                    t.append("b");
                    t.append("c");
                    t.append(Item::CloseEval);
                    t.append("\0");
                    t.append(Item::CloseQuote);
                }),
            ));
        }
        v
    }
    let mut pieces = common::<L>(eval);
    pieces.extend(own);
    let all = seqs(&(0..pieces.len()).collect::<Vec<_>>(), n);
    let chunk = all.len().div_ceil(16);
    par(o, 16, |i, st| {
        for h in all.iter().skip(i * chunk).take(chunk) {
            if st.too_many() {
                return;
            }
            let key = format!("{lang} {}", h.iter().map(|p| pieces[*p].0).collect::<Vec<_>>().join(" "));
            if st.only.as_ref().is_some_and(|k| !k.starts_with(&key)) {
                continue;
            }
            let mut t = genco::Tokens::<L>::new();
            if let Err(e) = guarded(|| h.iter().for_each(|p| (pieces[*p].1)(&mut t))) {
                st.fail(key, "can't be built", "-", e);
                continue;
            }
            st.states += 1;
            st.transitions += 1;
            f(st, &key, &t);
        }
    })
}

macro_rules! own {
    ($o:expr, $n:expr, $f:ident, $name:literal, $L:ty, $eval:literal $(, $e:expr)*) => {
        shipped_streams::<$L, _>(
            $o,
            $name,
            $n,
            vec![$((stringify!($e), Box::new(|t: &mut genco::Tokens<$L>| t.append($e)))),*],
            $eval,
            &|st: &mut Stats, k: &str, t: &genco::Tokens<$L>| $f(st, k, t),
        )
    };
}
macro_rules! shipped_languages {
    ($o:expr, $n:expr, $f:ident) => {{
        use genco::lang::*;
        let mut st = Stats::new($o);
        st.merge(own!($o, $n, $f, "rust", Rust, false, rust::import("a::b", "C"), rust::import("a::b", "D").with_alias("E"), rust::import("z", "C").with_module_alias("m")));
        st.merge(own!($o, $n, $f, "java", Java, false, java::import("a.b", "C"), java::import("z", "C"), java::block_comment(["x", "y"])));
        st.merge(own!($o, $n, $f, "csharp", Csharp, false, csharp::import("a.b", "C"), csharp::import("z", "C").qualified(), csharp::comment(["x", "y"])));
        st.merge(own!($o, $n, $f, "dart", Dart, true, dart::import("a.dart", "C"), dart::import("a.dart", "C").with_alias("m"), dart::doc_comment(["x", "y"])));
        st.merge(own!($o, $n, $f, "go", Go, false, go::import("a/b", "C"), go::import("z", "C")));
        st.merge(own!($o, $n, $f, "js", JavaScript, true, js::import("a", "C"), js::import("a", "D").into_default(), js::import("b", "E").into_wildcard(), js::import("a", "F").with_alias("G")));
        st.merge(own!($o, $n, $f, "python", Python, false, python::import("a", "C"), python::import("a", "D").with_alias("E"), python::import("a", "F").qualified(), python::import_module("m").with_alias("n")));
        st.merge(own!($o, $n, $f, "swift", Swift, false, swift::import("a", "C"), swift::import("b", "D")));
        st.merge(own!($o, $n, $f, "c", C, false, c::include("a.h", "C"), c::include_system("b.h", "D")));
        st.merge(own!($o, $n, $f, "nix", Nix, false, nix::inherit("a", "b"), nix::argument("c"), nix::with("d", "e")));
        st
    }};
}

fn shipped_writers(o: &Opts) -> Stats {
    fn one<L>(st: &mut Stats, key: &str, t: &genco::Tokens<L>)
    where
        L: genco::lang::Lang,
        L::Config: Default,
    {
        let c = L::Config::default();
        let f = L::Format::default();
        let run = |cfg: &fmt::Config, file: bool, w: u8| -> Result<Vec<String>, String> {
            guarded(|| -> genco::fmt::Result<Vec<String>> {
                let go = |out: &mut fmt::Formatter<'_>| if file { t.format_file(out, &c) } else { t.format(out, &c, &f) };
                Ok(match w {
                    0 => {
                        let mut w = fmt::FmtWriter::new(String::new());
                        go(&mut w.as_formatter(cfg))?;
                        vec![w.into_inner()]
                    }
                    1 => {
                        let mut w = fmt::IoWriter::new(Vec::new());
                        go(&mut w.as_formatter(cfg))?;
                        vec![String::from_utf8(w.into_inner()).unwrap_or_default()]
                    }
                    2 => {
                        let mut w = fmt::FmtWriter::new(CharByChar(String::new()));
                        go(&mut w.as_formatter(cfg))?;
                        vec![w.into_inner().0]
                    }
                    _ => {
                        let mut w = fmt::VecWriter::new();
                        go(&mut w.as_formatter(cfg))?;
                        w.into_vec()
                    }
                })
            })
            .and_then(|r| r.map_err(|_| "fmt::Error".into()))
        };
        let units = [None, Some((fmt::Indentation::Tab, "\t".to_string())), Some((fmt::Indentation::Space(3), "   ".to_string()))];
        for file in [false, true] {
            for unit in &units {
                for nl in ["\n", "\r\n"] {
                    st.traces += 1;
                    let mut cfg = fmt::Config::from_lang::<L>().with_newline(nl);
                    if let Some((u, _)) = unit {
                        cfg = cfg.with_indentation(*u);
                    }
                    let k = || format!("{key} file={file} unit={unit:?} nl={nl:?}");
                    // The newline never occurs in anything else: what's between
                    // are the lines.
                    let marked = cfg.clone().with_newline("\u{1}");
                    let want = run(&marked, file, 0);
                    let want = want.map(|w| {
                        let mut lines: Vec<String> = w[0].split('\u{1}').map(String::from).collect();
                        if file && lines.last().is_some_and(|l| l.is_empty()) {
                            lines.pop();
                        }
                        lines
                    });
                    let text = want.clone().map(|l| l.join(nl) + if file { nl } else { "" });
                    for w in 0..3 {
                        let got = run(&cfg, file, w).map(|v| v.concat());
                        if got != text {
                            st.fail(k(), ["string writer", "io writer", "char sink"][w as usize], format!("{text:?}"), format!("{got:?}"));
                        }
                    }
                    let got = run(&cfg, file, 3);
                    if got != want {
                        st.fail(k(), "vec writer", format!("{want:?}"), format!("{got:?}"));
                    }
                    if unit.is_none() && nl == "\n" {
                        let r = |x: Result<genco::fmt::Result<Vec<String>>, String>| x.and_then(|r| r.map_err(|_| "fmt::Error".into()));
                        let s = r(guarded(|| if file { t.to_file_string() } else { t.to_string() }.map(|s| vec![s])));
                        let v = r(guarded(|| if file { t.to_file_vec() } else { t.to_vec() }));
                        if s != text.clone().map(|t| vec![t]) || v != want {
                            st.fail(k(), "shorthand", format!("{want:?}"), format!("{s:?} {v:?}"));
                        }
                    }
                    if let Ok(t) = &text {
                        st.outcome(t);
                    }
                }
            }
        }
    }
    let n = o.pick(3, 4);
    let mut st = shipped_languages!(o, n, one);
    st.bounds.push(format!("10 shipped languages: all sequences of 0..={n} pieces (text, whitespace, quotations, interpolations, references, comments, a stray delimiter) x file or not x 3 indentations x 2 newlines x 4 writers and the shorthands"));
    st
}

fn shipped_faults(o: &Opts) -> Stats {
    fn one<L>(st: &mut Stats, key: &str, t: &genco::Tokens<L>)
    where
        L: genco::lang::Lang,
        L::Config: Default,
    {
        for file in [false, true] {
            let (r, s) = run_io(t, file, BTreeMap::new());
            st.traces += 1;
            let clean = r == Ok(Ok(()));
            let whole = s.got;
            if !matches!(r, Ok(_)) {
                st.fail(format!("{key} file={file}"), "formatting panics", "a result", format!("{r:?}"));
                continue;
            }
            for c in 0..s.calls {
                for f in [Fault::Err(io::ErrorKind::Other), Fault::Zero, Fault::Interrupted, Fault::Short] {
                    let k = || format!("{key} file={file} call={c} fault={f:?}");
                    let hard = matches!(f, Fault::Err(_) | Fault::Zero);
                    let (r, s) = run_io(t, file, [(c, f)].into());
                    st.traces += 1;
                    st.transitions += 1;
                    let ok = if hard {
                        matches!(r, Ok(Err(_))) && whole.starts_with(&s.got) && !s.after_failure
                    } else {
                        // A stream which is in error is, at the same place.
                        matches!(r, Ok(Ok(()))) == clean && r.is_ok() && s.got == whole
                    };
                    if !ok {
                        st.fail(k(), "a fault is not handled", format!("{:?}", String::from_utf8_lossy(&whole)), format!("{r:?} after={} {:?}", s.after_failure, String::from_utf8_lossy(&s.got)));
                    }
                }
                let cfg = fmt::Config::from_lang::<L>().with_newline(EOL);
                let mut w = fmt::FmtWriter::new(FSink { fail_at: c, calls: 0, got: String::new(), after: false });
                let r = guarded(|| {
                    let mut f = w.as_formatter(&cfg);
                    if file {
                        t.format_file(&mut f, &L::Config::default())
                    } else {
                        t.format(&mut f, &L::Config::default(), &L::Format::default())
                    }
                    .is_err()
                });
                let s = w.into_inner();
                st.traces += 1;
                if s.calls > c && (r != Ok(true) || s.after || !whole.starts_with(s.got.as_bytes())) {
                    st.fail(format!("{key} file={file} fmt-call={c}"), "a failing string sink is not handled", format!("{:?}", String::from_utf8_lossy(&whole)), format!("err={r:?} after={} {:?}", s.after, s.got));
                }
            }
            st.outcome(&whole);
        }
    }
    let n = o.pick(2, 3);
    let mut st = shipped_languages!(o, n, one);
    st.bounds.push(format!("10 shipped languages: all sequences of 0..={n} pieces (text, whitespace, quotations, interpolations, references, comments, a stray delimiter) x file or not x every hard, short or interrupted write at every call, io and fmt sinks"));
    st
}
