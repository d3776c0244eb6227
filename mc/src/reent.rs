//! C28: renderings do not influence each other.
//!
//! Everything user code can do while a rendering is under way is done at every
//! point at which user code runs: in a call of the sink, in a callback of a
//! language, in an item, an iterator, a `Display`.
use crate::core::*;
use crate::flows::seqs;
use genco::fmt;
use genco::lang::{Lang, LangItem, LangSupportsEval};
use genco::tokens::{from_fn, quoted, FormatInto, Item};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- points

type Hook = Rc<dyn Fn(usize) -> std::fmt::Result>;

thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static SWALLOWED: Cell<bool> = const { Cell::new(false) };
}

/// User code runs here. Without a hook (which is so in what a hook does itself)
/// this does nothing.
fn point() -> std::fmt::Result {
    let Some(h) = HOOK.with(|h| h.borrow_mut().take()) else {
        return Ok(());
    };
    let n = COUNT.with(|c| c.replace(c.get() + 1));
    let r = h(n);
    HOOK.with(|s| *s.borrow_mut() = Some(h));
    r
}

/// A point which can't fail.
fn soft() {
    if point().is_err() {
        SWALLOWED.with(|s| s.set(true));
    }
}

fn hooked<R>(h: Hook, f: impl FnOnce() -> R) -> (R, usize) {
    COUNT.with(|c| c.set(0));
    SWALLOWED.with(|s| s.set(false));
    HOOK.with(|s| *s.borrow_mut() = Some(h));
    let r = f();
    HOOK.with(|s| *s.borrow_mut() = None);
    (r, COUNT.with(|c| c.get()))
}

// ---------------------------------------------------------------- a language with points

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct PL;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct PItem(u8);

impl LangItem<PL> for PItem {
    fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &u8) -> fmt::Result {
        write!(out, "<{}", self.0)?;
        point()?;
        out.write_str(">")
    }
}
impl FormatInto<PL> for PItem {
    fn format_into(self, t: &mut genco::Tokens<PL>) {
        soft();
        t.append(genco::tokens::__lang_item::<PL>(self));
        soft();
    }
}
impl LangSupportsEval for PL {}
impl Lang for PL {
    type Config = ();
    type Format = u8;
    type Item = PItem;
    fn open_quote(out: &mut fmt::Formatter<'_>, _: &(), f: &u8, e: bool) -> fmt::Result {
        point()?;
        write!(out, "«{f}{}", e as u8)
    }
    fn close_quote(out: &mut fmt::Formatter<'_>, _: &(), _: &u8, e: bool) -> fmt::Result {
        write!(out, "{}»", e as u8)?;
        point()
    }
    fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &u8) -> fmt::Result {
        out.write_str("{")?;
        point()
    }
    fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &u8) -> fmt::Result {
        point()?;
        out.write_str("}")
    }
    fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
        for c in input.chars() {
            out.write_char('^')?;
            point()?;
            out.write_char(c)?;
        }
        Ok(())
    }
    fn format_file(tokens: &genco::Tokens<PL>, out: &mut fmt::Formatter<'_>, _: &()) -> fmt::Result {
        let mut header = genco::Tokens::<PL>::new();
        for i in tokens.walk_imports() {
            point()?;
            header.push();
            header.append(format!("use {}", i.0));
        }
        header.line();
        header.format(out, &(), &7)?;
        point()?;
        tokens.format(out, &(), &8)
    }
}

struct Shown;
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("s1")?;
        soft();
        f.write_str("s2")
    }
}

struct Each<X>(std::vec::IntoIter<X>);
impl<X> Iterator for Each<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        soft();
        self.0.next()
    }
}

type Piece<L> = (&'static str, Box<dyn Fn(&mut genco::Tokens<L>) + Sync>);

fn common<L: Lang>() -> Vec<Piece<L>> {
    vec![
        ("text", Box::new(|t| t.append("t"))),
        ("space", Box::new(|t| t.space())),
        ("line", Box::new(|t| t.line())),
        ("indent", Box::new(|t| t.indent())),
        ("quoted", Box::new(|t| t.append(quoted("q\n\"$é")))),
        (
            "nested",
            Box::new(|t| {
                t.append(Item::OpenQuote(false));
                t.append("o");
                t.append(quoted("i\t"));
                t.append(Item::CloseQuote);
            }),
        ),
        ("stray", Box::new(|t| t.append(Item::CloseEval))),
    ]
}

fn eval<L: Lang>() -> Vec<Piece<L>> {
    vec![(
        "eval",
        Box::new(|t| {
            t.append(Item::OpenQuote(true));
            t.append("a");
            t.append(Item::OpenEval);
            t.append("v");
            t.append(Item::CloseEval);
            t.append(Item::OpenEval);
            t.append(quoted("b"));
            t.append("c");
            t.append(Item::CloseEval);
            t.append(Item::CloseQuote);
        }),
    )]
}

fn own_pl() -> Vec<Piece<PL>> {
    vec![
        ("ref", Box::new(|t| t.append(PItem(1)))),
        ("register", Box::new(|t| t.append(genco::tokens::__lang_item_register::<PL>(PItem(2))))),
        ("display", Box::new(|t| t.append(genco::tokens::display(Shown)))),
        ("quoted display", Box::new(|t| t.append(quoted(genco::tokens::display(Shown))))),
        (
            "from_fn",
            Box::new(|t| {
                t.append(from_fn(|t: &mut genco::Tokens<PL>| {
                    t.append("(");
                    soft();
                    t.indent();
                    t.append(from_fn(|t: &mut genco::Tokens<PL>| {
                        soft();
                        t.append(PItem(3));
                    }));
                    t.unindent();
                    soft();
                }))
            }),
        ),
        (
            "extend",
            Box::new(|t| {
                let mut u = genco::Tokens::<PL>::new();
                u.append("e");
                u.line();
                u.append(PItem(4));
                t.extend(Each(u.clone().into_iter().collect::<Vec<_>>().into_iter()));
                t.append(Each(u.into_iter().collect::<Vec<_>>().into_iter()).collect::<genco::Tokens<PL>>());
            }),
        ),
    ]
}

// ---------------------------------------------------------------- cases

/// A stream, how to build it and to render it; independent of the language.
struct Case {
    name: String,
    cfg: fmt::Config,
    #[allow(clippy::type_complexity)]
    go: Box<dyn Fn(&mut fmt::Formatter<'_>) -> fmt::Result + Sync + Send>,
}

struct Lg {
    name: &'static str,
    n: usize,
    pieces: Vec<&'static str>,
    #[allow(clippy::type_complexity)]
    case: Box<dyn Fn(&[usize], bool, u8) -> Case>,
}

fn config<L: Lang>(form: u8) -> fmt::Config {
    let c = fmt::Config::from_lang::<L>();
    match form {
        0 => c,
        1 => c.with_indentation(fmt::Indentation::Tab).with_newline("\r\n"),
        _ => c.with_indentation(fmt::Indentation::Space(3)).with_newline("<nl>"),
    }
}

fn lang<L>(name: &'static str, sets: Vec<Vec<Piece<L>>>) -> Lg
where
    L: Lang + Send + Sync,
    L::Config: Default,
{
    let mut pieces: Vec<Piece<L>> = common::<L>();
    for s in sets {
        pieces.extend(s);
    }
    let names: Vec<_> = pieces.iter().map(|p| p.0).collect();
    let pieces: &'static [Piece<L>] = Box::leak(pieces.into_boxed_slice());
    Lg {
        name,
        n: names.len(),
        pieces: names.clone(),
        case: Box::new(move |h, file, form| {
            let h = h.to_vec();
            Case {
                name: format!("{name} {}{}", h.iter().map(|p| names[*p]).collect::<Vec<_>>().join(" "), if file { " file" } else { "" }),
                cfg: config::<L>(form),
                go: Box::new(move |out| {
                    let mut t = genco::Tokens::<L>::new();
                    for p in &h {
                        (pieces[*p].1)(&mut t);
                    }
                    if file {
                        t.format_file(out, &L::Config::default())
                    } else {
                        t.format(out, &L::Config::default(), &L::Format::default())
                    }
                }),
            }
        }),
    }
}

macro_rules! refs {
    ($($e:expr),*) => { vec![$((stringify!($e), Box::new(|t: &mut genco::Tokens<_>| t.append($e)) as _)),*] };
}

fn languages() -> Vec<Lg> {
    use genco::lang::*;
    vec![
        lang::<PL>("points", vec![eval(), own_pl()]),
        lang::<Rust>("rust", vec![refs![rust::import("a::b", "C"), rust::import("a::b", "D").with_alias("E")]]),
        lang::<Java>("java", vec![refs![java::import("a.b", "C"), java::import("z", "C"), java::block_comment(["x", "y"])]]),
        lang::<Csharp>("csharp", vec![refs![csharp::import("a.b", "C"), csharp::import("z", "C"), csharp::comment(["x", "y"])]]),
        lang::<Dart>("dart", vec![eval(), refs![dart::import("a.dart", "C"), dart::import("a.dart", "C").with_alias("m"), dart::doc_comment(["x", "y"])]]),
        lang::<Go>("go", vec![refs![go::import("a/b", "C"), go::import("z", "C")]]),
        lang::<JavaScript>("js", vec![eval(), refs![js::import("a", "C"), js::import("a", "D").into_default(), js::import("b", "E").into_wildcard()]]),
        lang::<Python>("python", vec![refs![python::import("a", "C"), python::import("a", "F").qualified(), python::import_module("m").with_alias("n")]]),
        lang::<Swift>("swift", vec![refs![swift::import("a", "C"), swift::import("b", "D")]]),
        lang::<C>("c", vec![refs![c::include("a.h", "C"), c::include_system("b.h", "D")]]),
        lang::<Nix>("nix", vec![refs![nix::inherit("a", "b"), nix::argument("c"), nix::with("d", "e")]]),
    ]
}

impl Lg {
    /// Everything at once, but for what is an error.
    fn rich(&self, file: bool, form: u8) -> Case {
        let h: Vec<usize> = [3, 0, 2].into_iter().chain(4..self.n).filter(|p| self.pieces[*p] != "stray").collect();
        (self.case)(&h, file, form)
    }
    fn failing(&self, file: bool, form: u8) -> Case {
        let s = self.pieces.iter().position(|p| *p == "stray").unwrap();
        (self.case)(&[3, 0, 4, 5, self.n - 1, s], file, form)
    }
}

// ---------------------------------------------------------------- sinks

/// What a sink does at one of its calls, besides being a point.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Break {
    Never,
    Fail(usize),
    Panic(usize),
}

struct Sink {
    got: String,
    calls: usize,
    brk: Break,
}
impl Sink {
    fn new(brk: Break) -> Self {
        Sink { got: String::new(), calls: 0, brk }
    }
    fn take(&mut self, s: &str) -> std::fmt::Result {
        let c = self.calls;
        self.calls += 1;
        match self.brk {
            Break::Fail(n) if n == c => return Err(std::fmt::Error),
            Break::Panic(n) if n == c => panic!("sink"),
            _ => {}
        }
        point()?;
        self.got.push_str(s);
        Ok(())
    }
}
impl std::fmt::Write for &mut Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.take(s)
    }
}
impl std::io::Write for &mut Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let s = std::str::from_utf8(b).map_err(|_| std::io::ErrorKind::InvalidData)?;
        self.take(s).map_err(|_| std::io::ErrorKind::Other)?;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const WRITERS: [&str; 3] = ["string", "io", "lines"];

/// What a rendering comes to, and what it has written.
type Seen = (Result<Result<(), String>, String>, Vec<String>);

fn run(c: &Case, w: usize, brk: Break) -> (Seen, usize) {
    let mut s = Sink::new(brk);
    let e = |r: Result<fmt::Result, String>| r.map(|r| r.map_err(|_| "fmt::Error".to_string()));
    let r = match w {
        0 => {
            let mut w = fmt::FmtWriter::new(&mut s);
            e(guarded(|| (c.go)(&mut w.as_formatter(&c.cfg))))
        }
        1 => {
            let mut w = fmt::IoWriter::new(&mut s);
            e(guarded(|| (c.go)(&mut w.as_formatter(&c.cfg))))
        }
        _ => {
            let mut w = fmt::VecWriter::new();
            let r = e(guarded(|| (c.go)(&mut w.as_formatter(&c.cfg))));
            return ((r, w.into_vec()), 0);
        }
    };
    ((r, vec![s.got]), s.calls)
}

/// What another rendering is during a rendering.
struct Other {
    case: Case,
    w: usize,
    brk: Break,
    want: Seen,
}

impl Other {
    fn new(case: Case, w: usize, brk: Break) -> Self {
        let want = run(&case, w, brk).0;
        Other { case, w, brk, want }
    }
    fn run(&self) -> Option<String> {
        let got = run(&self.case, self.w, self.brk).0;
        (got != self.want).then(|| format!("{got:?}"))
    }
}

fn others(langs: &[Lg], i: usize, o: &Opts) -> Vec<Other> {
    let mut v = Vec::new();
    let l = &langs[i];
    v.push(Other::new(l.rich(false, 2), 0, Break::Never));
    v.push(Other::new(l.rich(true, 1), 1, Break::Never));
    v.push(Other::new(l.failing(false, 2), 0, Break::Never));
    v.push(Other::new(l.rich(true, 2), 0, Break::Panic(3)));
    v.push(Other::new(l.rich(false, 2), 1, Break::Fail(2)));
    v.push(Other::new(langs[(i + 1) % langs.len()].rich(true, 2), 2, Break::Never));
    if o.thorough() {
        for (j, l) in langs.iter().enumerate() {
            if j != i {
                v.push(Other::new(l.rich(true, 1), 0, Break::Never));
            }
        }
        for c in [0, 1, 5, 9] {
            v.push(Other::new(langs[i].rich(true, 1), 0, Break::Panic(c)));
            v.push(Other::new(langs[i].rich(false, 1), 0, Break::Fail(c)));
        }
    }
    v
}

// ---------------------------------------------------------------- within, and after

fn within(o: &Opts, langs: &[Lg], st: &mut Stats) {
    for (li, l) in langs.iter().enumerate() {
        let n = if l.name == "points" { o.pick(2, 3) } else { o.pick(2, 2) };
        let others: Rc<Vec<Other>> = Rc::new(others(langs, li, o));
        let mut hs = seqs(&(0..l.n).collect::<Vec<_>>(), n);
        hs.push([3, 0, 2].into_iter().chain(4..l.n).filter(|p| l.pieces[*p] != "stray").collect());
        for h in &hs {
            for file in [false, true] {
                for w in 0..if n < 3 || h.len() < 3 { 3 } else { 1 } {
                    if st.too_many() {
                        return;
                    }
                    let case = (l.case)(h, file, 0);
                    let k0 = format!("{} writer={}", case.name, WRITERS[w]);
                    if st.only.as_ref().is_some_and(|k| !k.starts_with(&k0)) {
                        continue;
                    }
                    st.states += 1;
                    let ((want, _), points) = hooked(Rc::new(|_| Ok(())), || run(&case, w, Break::Never));
                    st.traces += 1;
                    if want.0.is_err() {
                        st.fail(k0, "panics", "a result", format!("{want:?}"));
                        continue;
                    }
                    st.outcome(&want);
                    // Again, and at once after one of the others.
                    for (j, other) in others.iter().enumerate() {
                        let a = other.run();
                        let (b, _) = run(&case, w, Break::Never);
                        st.traces += 2;
                        if let Some(a) = a {
                            st.fail(format!("{k0} before={j}"), "another rendering comes out differently afterwards", format!("{:?}", other.want), a);
                        }
                        if b != want {
                            st.fail(format!("{k0} after={j}"), "comes out differently after another rendering", format!("{want:?}"), format!("{b:?}"));
                        }
                    }
                    for at in 0..points {
                        // Other renderings at the point.
                        for j in 0..others.len() {
                            let k = || format!("{k0} point={at} during={j}");
                            if st.skip(k) {
                                continue;
                            }
                            let bad = Rc::new(RefCell::new(None));
                            let hook: Hook = {
                                let (others, bad) = (others.clone(), bad.clone());
                                Rc::new(move |n| {
                                    if n == at {
                                        *bad.borrow_mut() = others[j].run();
                                    }
                                    Ok(())
                                })
                            };
                            let ((got, _), _) = hooked(hook, || run(&case, w, Break::Never));
                            st.transitions += 1;
                            st.traces += 2;
                            if let Some(b) = bad.borrow_mut().take() {
                                st.fail(k(), format!("{} comes out differently within another rendering", others[j].case.name), format!("{:?}", others[j].want), b);
                            }
                            if got != want {
                                st.fail(k(), format!("{} within it changes a rendering", others[j].case.name), format!("{want:?}"), format!("{got:?}"));
                            }
                        }
                        // A failure or panic at the point; others and itself afterwards.
                        for panic in [false, true] {
                            let k = || format!("{k0} point={at} {}", if panic { "panic" } else { "error" });
                            if st.skip(k) {
                                continue;
                            }
                            let hook: Hook = Rc::new(move |n| {
                                if n != at {
                                    return Ok(());
                                }
                                if panic {
                                    panic!("point");
                                }
                                Err(std::fmt::Error)
                            });
                            let ((got, _), _) = hooked(hook, || run(&case, w, Break::Never));
                            st.transitions += 1;
                            st.traces += 1;
                            let swallowed = SWALLOWED.with(|s| s.get());
                            let good = match &got.0 {
                                Err(p) => panic && p == "panic: point",
                                Ok(Err(_)) => !panic && (!swallowed || want.0 == got.0),
                                Ok(Ok(())) => !panic && swallowed && got == want,
                            };
                            let (whole, part) = (want.1.join("\n"), got.1.join("\n"));
                            if !good || !(whole.starts_with(&part) || w == 2) {
                                st.fail(k(), "what user code says at a point is not handed on", format!("{want:?}"), format!("{got:?} swallowed={swallowed}"));
                            }
                            let (b, _) = run(&case, w, Break::Never);
                            st.traces += 1;
                            if b != want {
                                st.fail(k(), "comes out differently after having been abandoned", format!("{want:?}"), format!("{b:?}"));
                            }
                            for other in others.iter().take(2) {
                                st.traces += 1;
                                if let Some(a) = other.run() {
                                    st.fail(k(), format!("{} comes out differently after a rendering has been abandoned", other.case.name), format!("{:?}", other.want), a);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    st.bounds.push(format!(
        "own language with points in every callback, item, iterator and display, and 10 shipped languages: all sequences of 0..={} (own: {}) pieces x file or not x 3 writers x every point (call of the sink, callback) x {} (complete, failing and panicking renderings within and before; an error or a panic there)",
        2,
        o.pick(2, 3),
        o.pick(6, 24)
    ));
}

// ---------------------------------------------------------------- side by side on one thread

/// All ways to advance two sequences of `a` and `b` steps.
fn merges(a: usize, b: usize) -> Vec<Vec<u8>> {
    if a == 0 && b == 0 {
        return vec![vec![]];
    }
    let mut v = Vec::new();
    for (who, a2, b2) in [(0u8, a.wrapping_sub(1), b), (1, a, b.wrapping_sub(1))] {
        if a2 > a || b2 > b {
            continue;
        }
        for mut m in merges(a2, b2) {
            m.insert(0, who);
            v.push(m);
        }
    }
    v
}

fn side_by_side(o: &Opts, langs: &[Lg], st: &mut Stats) {
    let steps = o.pick(3, 4);
    let ways = merges(steps, steps);
    for (i, l) in langs.iter().enumerate() {
        for j in if o.thorough() { (0..langs.len()).collect() } else { vec![i, (i + 1) % langs.len()] } {
            for form in 0..o.pick(3, 9u8) {
                let mk = |l: &Lg, f: u8| -> Vec<Case> {
                    let all = [l.rich(false, f), (l.case)(&[3, 0, 1], false, f), l.rich(true, f), (l.case)(&[l.n - 1, 2], false, f)];
                    all.into_iter().take(steps).collect()
                };
                let both = [mk(l, form % 3), mk(&langs[j], form / 3)];
                // One after the other, on one formatter each.
                let alone: Vec<Seen> = both
                    .iter()
                    .map(|cs| {
                        let mut s = Sink::new(Break::Never);
                        let mut w = fmt::FmtWriter::new(&mut s);
                        let r = guarded(|| {
                            let mut f = w.as_formatter(&cs[0].cfg);
                            cs.iter().try_for_each(|c| (c.go)(&mut f))
                        });
                        (r.map(|r| r.map_err(|_| "fmt::Error".into())), vec![s.got])
                    })
                    .collect();
                for (wi, way) in ways.iter().enumerate() {
                    let k = || format!("side by side {} {} form={form} way={wi}", l.name, langs[j].name);
                    if st.skip(k) {
                        continue;
                    }
                    st.states += 1;
                    st.transitions += way.len() as u64;
                    st.traces += 1;
                    let mut sinks = [Sink::new(Break::Never), Sink::new(Break::Never)];
                    let [s0, s1] = &mut sinks;
                    let (mut w0, mut w1) = (fmt::FmtWriter::new(s0), fmt::FmtWriter::new(s1));
                    let mut r = [Ok(Ok(())), Ok(Ok(()))];
                    {
                        let mut fs = [w0.as_formatter(&both[0][0].cfg), w1.as_formatter(&both[1][0].cfg)];
                        let mut next = [0, 0];
                        for who in way {
                            let who = *who as usize;
                            let c = &both[who][next[who]];
                            next[who] += 1;
                            if r[who] == Ok(Ok(())) {
                                let f = &mut fs[who];
                                r[who] = guarded(|| (c.go)(f)).map(|r| r.map_err(|_| "fmt::Error".to_string()));
                            }
                        }
                    }
                    let [s0, s1] = sinks;
                    let [r0, r1] = r;
                    let got: Vec<Seen> = vec![(r0, vec![s0.got]), (r1, vec![s1.got])];
                    if got != alone {
                        st.fail(k(), "two formatters used in turn", format!("{alone:?}"), format!("{got:?} way={way:?}"));
                    }
                    st.outcome(&got);
                }
            }
        }
    }
    st.bounds.push(format!("two formatters, each given {steps} streams, in all {} orders x languages x configurations", ways.len()));
}

// ---------------------------------------------------------------- two threads

/// Hands a baton to one of two threads at each point, as a schedule says.
struct Baton {
    sched: Mutex<Vec<u8>>,
    pos: AtomicUsize,
    turn: AtomicUsize,
    done: [AtomicBool; 2],
}

impl Baton {
    fn wait(&self, me: usize) {
        let mut n = 0u32;
        while self.turn.load(Ordering::Acquire) != me {
            n += 1;
            if n > 2000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
    fn next(&self, me: usize) -> usize {
        let pos = self.pos.fetch_add(1, Ordering::AcqRel) + 1;
        let want = self.sched.lock().unwrap().get(pos).map(|w| *w as usize).unwrap_or(me);
        if self.done[want].load(Ordering::Acquire) {
            1 - want
        } else {
            want
        }
    }
    fn point(&self, me: usize) {
        let to = self.next(me);
        if to != me {
            self.turn.store(to, Ordering::Release);
            self.wait(me);
        }
    }
    fn finish(&self, me: usize) {
        self.done[me].store(true, Ordering::Release);
        self.turn.store(1 - me, Ordering::Release);
    }
}

/// Every schedule of two threads of `a` and `b` segments with at most `k`
/// changes from a thread which could go on.
fn schedules(a: usize, b: usize, k: usize) -> Vec<Vec<u8>> {
    fn go(left: [usize; 2], who: usize, k: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        let (me, other) = (left[who], left[1 - who]);
        // run to the end
        let len = cur.len();
        cur.extend(std::iter::repeat_n(who as u8, me));
        cur.extend(std::iter::repeat_n(1 - who as u8, other));
        out.push(cur.clone());
        cur.truncate(len);
        if k == 0 || other == 0 {
            return;
        }
        for run in 1..me {
            cur.extend(std::iter::repeat_n(who as u8, run));
            let mut l = left;
            l[who] -= run;
            go(l, 1 - who, k - 1, cur, out);
            cur.truncate(len);
        }
    }
    let mut out = Vec::new();
    for who in 0..2 {
        go([a, b], who, k, &mut Vec::new(), &mut out);
    }
    out
}

fn threads(o: &Opts, langs: &[Lg], st: &mut Stats) {
    let mut pairs: Vec<(Case, Case)> = Vec::new();
    for (i, l) in langs.iter().enumerate() {
        let other = &langs[(i + 1) % langs.len()];
        pairs.push((l.rich(true, 0), l.rich(true, 1)));
        pairs.push((l.rich(false, 0), other.rich(true, 2)));
        pairs.push((l.failing(true, 0), l.rich(false, 2)));
        pairs.push(((l.case)(&[3, 5], false, 1), (l.case)(&[3, 5], false, 2)));
        pairs.push(((l.case)(&[4, 3, l.n - 1], true, 1), (l.case)(&[l.n - 2, 4], true, 2)));
    }
    let (mut total, mut full, mut bounded) = (0u64, 0, std::collections::BTreeMap::<usize, usize>::new());
    for (ca, cb) in &pairs {
        if st.too_many() {
            return;
        }
        let k0 = format!("threads {} | {}", ca.name, cb.name);
        if st.only.as_ref().is_some_and(|k| !k.starts_with(&k0)) {
            continue;
        }
        let quiet: fn() -> Hook = || Rc::new(|_| Ok(()));
        let ((wa, _), na) = hooked(quiet(), || run(ca, 0, Break::Never));
        let ((wb, _), nb) = hooked(quiet(), || run(cb, 0, Break::Never));
        // As many changes as the limit lets through; all of them if possible.
        let limit = o.pick(1500, 60_000);
        let mut scheds = Vec::new();
        let mut bound = 0;
        for k in 1..=na + nb + 2 {
            let more = schedules(na + 1, nb + 1, k);
            if k > 2 && more.len() > limit {
                break;
            }
            let grown = more.len() != scheds.len();
            scheds = more;
            bound = k;
            if !grown {
                break;
            }
        }
        if bound > na + nb {
            full += 1;
        } else {
            *bounded.entry(bound).or_insert(0usize) += 1;
        }
        let baton = Baton { sched: Mutex::new(vec![]), pos: AtomicUsize::new(0), turn: AtomicUsize::new(9), done: [AtomicBool::new(true), AtomicBool::new(true)] };
        let (epoch, ready) = (AtomicUsize::new(0), AtomicUsize::new(0));
        let theirs: Mutex<Option<Seen>> = Mutex::new(None);
        let side = |me: usize, c: &Case, b: &'static Baton| -> Seen {
            let hook: Hook = Rc::new(move |_| {
                b.point(me);
                Ok(())
            });
            b.wait(me);
            let ((s, _), _) = hooked(hook, || run(c, 0, Break::Never));
            s
        };
        // SAFETY: both users are joined at the end of the scope below.
        let sbaton: &'static Baton = unsafe { &*(&baton as *const Baton) };
        std::thread::scope(|s| {
            let (epoch, ready, theirs, side) = (&epoch, &ready, &theirs, &side);
            s.spawn(move || {
                let mut n = 0;
                loop {
                    let mut spins = 0;
                    while epoch.load(Ordering::Acquire) == n {
                        spins += 1;
                        if spins > 2000 {
                            std::thread::yield_now();
                        }
                    }
                    n += 1;
                    if epoch.load(Ordering::Acquire) == usize::MAX {
                        return;
                    }
                    let r = side(1, cb, sbaton);
                    *theirs.lock().unwrap() = Some(r);
                    sbaton.finish(1);
                    ready.store(n, Ordering::Release);
                }
            });
            for (si, sched) in scheds.iter().enumerate() {
                total += 1;
                *sbaton.sched.lock().unwrap() = sched.clone();
                sbaton.pos.store(0, Ordering::Release);
                for d in &sbaton.done {
                    d.store(false, Ordering::Release);
                }
                sbaton.turn.store(sched[0] as usize, Ordering::Release);
                epoch.store(si + 1, Ordering::Release);
                let ga = side(0, ca, sbaton);
                sbaton.finish(0);
                let mut spins = 0;
                while ready.load(Ordering::Acquire) != si + 1 {
                    spins += 1;
                    if spins > 2000 {
                        std::thread::yield_now();
                    }
                }
                let gb = theirs.lock().unwrap().take().unwrap();
                st.states += 1;
                st.traces += 2;
                st.transitions += sched.len() as u64;
                if ga != wa || gb != wb {
                    let s: String = sched.iter().map(|w| if *w == 0 { 'a' } else { 'b' }).collect();
                    st.fail(format!("{k0} schedule={s}"), "two threads", format!("{wa:?} {wb:?}"), format!("{ga:?} {gb:?}"));
                }
                if st.too_many() {
                    break;
                }
            }
            epoch.store(usize::MAX, Ordering::Release);
        });
    }
    st.bump("schedules_of_two_threads", total);
    st.bounds.push(format!(
        "two threads, {} pairs of streams: every schedule at the points ({full} pairs without a bound on changes; others with at most {bounded:?} changes: pairs); shared memory is only looked at between points",
        pairs.len()
    ));
}

// ---------------------------------------------------------------- walks

fn walks(o: &Opts, st: &mut Stats) {
    let n = o.pick(4, 6);
    for m in 0..=n {
        let mut t = genco::Tokens::<PL>::new();
        for i in 0..m {
            t.append("x");
            if i % 2 == 0 {
                t.append(PItem(i as u8));
            } else {
                t.append(genco::tokens::__lang_item_register::<PL>(PItem(i as u8)));
            }
        }
        let mut want: Vec<u8> = t.walk_imports().map(|i| i.0).collect();
        let order = want.clone();
        want.sort();
        for (wi, way) in merges(m + 2, m + 2).iter().enumerate() {
            let k = || format!("walks {m} {wi}");
            if st.skip(k) {
                continue;
            }
            st.states += 1;
            st.traces += 1;
            st.transitions += way.len() as u64;
            let got = guarded(|| {
                let mut it = [t.walk_imports(), t.walk_imports()];
                let mut got = [vec![], vec![]];
                for who in way {
                    if let Some(i) = it[*who as usize].next() {
                        got[*who as usize].push(i.0);
                    }
                }
                got
            });
            if got != Ok([order.clone(), order.clone()]) || want.len() != m {
                st.fail(k(), "two walks in turn", format!("{order:?}"), format!("{got:?}"));
            }
        }
    }
    st.bounds.push(format!("two walks over the imports of a stream of 0..={n} references, in all orders"));
}

pub fn c28(o: &Opts) -> Stats {
    let mut st = Stats::new(o);
    let langs = languages();
    within(o, &langs, &mut st);
    side_by_side(o, &langs, &mut st);
    walks(o, &mut st);
    threads(o, &langs, &mut st);
    st
}
