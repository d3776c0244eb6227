//! C20 interpolated values, C21 comment helpers, C23 custom languages.
use crate::core::*;
use crate::flows::seqs;
use crate::model::*;
use genco::fmt;
use genco::lang::{self, Csharp, Dart, Java, Lang};
use genco::prelude::*;
use genco::tokens::{display, from_fn, quoted, static_literal, Item, ItemStr};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn show<L: Lang>(t: &Tokens<L>, ind: Indent) -> Result<String, String>
where
    L::Config: Default,
{
    let i = match ind {
        Indent::Space(n) => fmt::Indentation::Space(n),
        Indent::Tab => fmt::Indentation::Tab,
    };
    rendered(|| {
        let mut w = fmt::FmtWriter::new(String::new());
        let c = fmt::Config::from_lang::<L>().with_indentation(i);
        t.format(&mut w.as_formatter(&c), &L::Config::default(), &L::Format::default())?;
        Ok(w.into_inner())
    })
}

// ---------------------------------------------------------------- C20

/// Decimal text, written down digit by digit.
fn decimal(neg: bool, mut m: u128) -> String {
    let mut d = vec![];
    loop {
        d.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if neg {
        d.push(b'-');
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}

type U = Tokens<()>;

/// Where a value is interpolated: what is appended around it.
const CTX: usize = 7;
fn in_ctx(c: usize, f: &dyn Fn(&mut U)) -> U {
    let mut t = U::new();
    match c {
        0 => f(&mut t),
        1 => {
            t.append("a");
            f(&mut t);
            t.append("b");
        }
        2 => {
            t.append("a");
            t.space();
            f(&mut t);
            t.space();
            t.append("b");
        }
        3 => {
            t.append("a");
            t.indent();
            f(&mut t);
            t.unindent();
            t.append("b");
        }
        4 => {
            let v = from_fn(|t: &mut U| f(t));
            t.append(quote!(a $v b));
        }
        5 => {
            let v = from_fn(|t: &mut U| f(t));
            quote_in!(t => a$(v)b);
        }
        _ => {
            t.append("a");
            t.line();
            t.append(quoted(from_fn(|t: &mut U| f(t))));
            t.push();
            t.append("b");
        }
    }
    t
}
fn want_ctx(c: usize, s: &str) -> String {
    let t = |s: &str| Op::Text(s.to_string());
    let (a, b, v) = (t("a"), t("b"), t(s));
    let ops = match c {
        0 => vec![v],
        1 | 5 => vec![a, v, b],
        2 | 4 => vec![a, Op::Space, v, Op::Space, b],
        3 => vec![a, Op::Ind(1), v, Op::Ind(-1), b],
        _ => vec![a, Op::Line, t("\""), v, t("\""), Op::Push, b],
    };
    ideal(&ops, &LCfg::spaces(4)).out
}

fn value(st: &mut Stats, what: &str, s: &str, f: &dyn Fn(&mut U), ctx: std::ops::Range<usize>) {
    for c in ctx {
        let key = || format!("{what} {} ctx{c}", short(&format!("{s:?}")));
        if st.skip(key) {
            continue;
        }
        if c == 3 && s.is_empty() && matches!(guarded(|| in_ctx(0, f)), Ok(t) if t.is_empty()) {
            // Nothing at all between two indentation changes: the history
            // of C01's finding, judged there.
            st.bump("net_zero_left_to_C01", 1);
            continue;
        }
        st.transitions += 1;
        st.traces += 1;
        let got = guarded(|| in_ctx(c, f)).and_then(|t| show(&t, Indent::Space(4)));
        let want = want_ctx(c, s);
        match got {
            Ok(g) if g == want => st.outcome(&g),
            Ok(g) => st.fail(key(), "value is not rendered as its text", want, g),
            Err(e) => st.fail(key(), "value is not rendered as its text", want, e),
        }
    }
}

macro_rules! ints {
    ($st:expr, $full:expr, $($t:ty),*) => {{$({
        let mut vals: BTreeSet<$t> = BTreeSet::new();
        if $full {
            vals.extend(<$t>::MIN..=<$t>::MAX);
        } else {
            for base in [2 as $t, 10] {
                let mut p: $t = 1;
                loop {
                    for d in [p.checked_sub(1), Some(p), p.checked_add(1)].into_iter().flatten() {
                        vals.insert(d);
                        #[allow(unused_comparisons)]
                        if <$t>::MIN < 0 {
                            vals.insert((0 as $t).wrapping_sub(d));
                        }
                    }
                    match p.checked_mul(base) {
                        Some(n) => p = n,
                        None => break,
                    }
                }
            }
            vals.extend([<$t>::MIN, <$t>::MIN + 1, <$t>::MAX, <$t>::MAX - 1]);
        }
        for (i, v) in vals.into_iter().enumerate() {
            $st.states += 1;
            #[allow(unused_comparisons)]
            let neg = v < 0;
            let m = if neg { ((v as i128) as u128).wrapping_neg() } else { v as u128 };
            let s = decimal(neg, m);
            let all = !$full || i % 251 == 0;
            value($st, stringify!($t), &s, &move |t| t.append(v), 0..if all { CTX } else { 2 });
            if all {
                value($st, concat!("Some ", stringify!($t)), &s, &move |t| t.append(Some(v)), 0..CTX);
                value($st, concat!("vec ", stringify!($t)), &s, &move |t| t.append(vec![v]), 0..CTX);
                value($st, concat!("display ", stringify!($t)), &s, &move |t| t.append(display(v)), 0..CTX);
                value($st, concat!("$ ", stringify!($t)), &s, &move |t| quote_in!(*t => $v), 0..CTX);
            }
        }
    })*}};
}

/// Displays a text piece by piece, in different ways.
struct Pieces<'a>(&'a str, u8);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write as _;
        f.write_str("")?;
        for (i, c) in self.0.char_indices() {
            match self.1 {
                0 => f.write_str(&self.0[i..i + c.len_utf8()])?,
                1 => f.write_char(c)?,
                _ => write!(f, "{}{c}{}", "", display_empty())?,
            }
        }
        f.write_str("")
    }
}
fn display_empty() -> impl std::fmt::Display {
    ""
}

/// Every way in which a text can be interpolated.
fn texts(st: &mut Stats, s: &str) {
    let leaked: &'static str = Box::leak(s.to_string().into_boxed_str());
    let n = 0..CTX;
    let o = || s.to_string();
    macro_rules! w {
        ($($name:literal: $e:expr;)*) => {$(
            value(st, $name, s, &|t: &mut U| t.append($e), n.clone());
        )*};
    }
    w! {
        "&str": s;
        "String": o();
        "&String": &o();
        "Rc<String>": Rc::new(o());
        "&Rc<String>": &Rc::new(o());
        "Cow borrowed": Cow::Borrowed(s);
        "Cow owned": Cow::<str>::Owned(o());
        "&Cow borrowed": &Cow::Borrowed(s);
        "&Cow owned": &Cow::<str>::Owned(o());
        "format_args": format_args!("{s}");
        "format_args split": format_args!("{}{}{}", "", s, "");
        "display &str": display(s);
        "display String": display(o());
        "display &&str": display(&s);
        "ItemStr::Static": ItemStr::Static(leaked);
        "ItemStr::Box": ItemStr::Box(s.into());
        "&ItemStr::Static": &ItemStr::Static(leaked);
        "&ItemStr::Box": &ItemStr::Box(s.into());
        "ItemStr from String": ItemStr::from(o());
        "ItemStr from &String": ItemStr::from(&o());
        "ItemStr from &str": ItemStr::from(s);
        "ItemStr from &&str": ItemStr::from(&s);
        "ItemStr from Cow": ItemStr::from(Cow::Borrowed(s));
        "ItemStr from owned Cow": ItemStr::from(Cow::<str>::Owned(o()));
        "ItemStr from &Cow": ItemStr::from(&Cow::Borrowed(s));
        "ItemStr from &owned Cow": ItemStr::from(&Cow::<str>::Owned(o()));
        "ItemStr from Box": ItemStr::from(o().into_boxed_str());
        "ItemStr from Rc": ItemStr::from(Rc::new(o()));
        "ItemStr from &ItemStr": ItemStr::from(&ItemStr::Static(leaked));
        "display pieces": display(Pieces(s, 0));
        "display chars": display(Pieces(s, 1));
        "display nested": display(Pieces(s, 2));
        "format_args pieces": format_args!("{}", Pieces(s, 0));
        "static_literal": static_literal(leaked);
        "Some": Some(s);
        "Some(Some)": Some(Some(o()));
        "vec": vec![s];
        "&vec": &vec![o()];
        "&[_]": &[s][..];
        "Cow<[_]> borrowed": Cow::Borrowed(&[s][..]);
        "Cow<[_]> owned": Cow::<[&str]>::Owned(vec![s]);
        "&Cow<[_]> borrowed": &Cow::Borrowed(&[s][..]);
        "&Cow<[_]> owned": &Cow::<[&str]>::Owned(vec![s]);
        "Tokens": { let mut u = U::new(); u.append(s); u };
        "&Tokens": &{ let mut u = U::new(); u.append(s); u };
        "Item": genco::tokens::Item::<()>::Literal(ItemStr::Static(leaked));
        "from_fn": from_fn(|t: &mut U| t.append(s));
        "quote!": { let q: U = quote!($s); q };
        "quote!()": { let q: U = quote!($(s)); q };
        "quote_fn!": quote_fn!($s);
    }
    // Quoted texts: with the (verbatim) quoting of the neutral language.
    let q = format!("\"{s}\"");
    value(st, "quoted", &q, &|t: &mut U| t.append(quoted(s)), 0..CTX - 1);
    value(st, "quoted String", &q, &|t: &mut U| t.append(quoted(o())), 0..CTX - 1);
    value(st, "quoted display", &q, &|t: &mut U| t.append(quoted(display(s))), 0..CTX - 1);
    value(st, "quoted Some", &q, &|t: &mut U| t.append(quoted(Some(s))), 0..CTX - 1);
    value(st, "quoted static_literal", &q, &|t: &mut U| t.append(quoted(static_literal(leaked))), 0..CTX - 1);
}

/// Sequences of values are their concatenation.
fn lists(o: &Opts, st: &mut Stats) {
    let al = ["", "a", "b c", " ", "\n"];
    for v in seqs(&al, o.pick(3, 4)) {
        st.states += 1;
        let s = v.concat();
        let opts: Vec<Option<&str>> = v.iter().map(|x| if x.is_empty() { None } else { Some(*x) }).collect();
        let owned: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        macro_rules! w {
            ($($name:literal: $e:expr;)*) => {$(
                value(st, $name, &s, &|t: &mut U| t.append($e), 0..CTX);
            )*};
        }
        w! {
            "vec<&str>": v.clone();
            "&vec<&str>": &v;
            "&[&str]": &v[..];
            "vec<String>": owned.clone();
            "vec<Option>": opts.clone();
            "&[Option]": &opts[..];
            "Cow<[String]>": Cow::Borrowed(&owned[..]);
            "owned Cow<[String]>": Cow::<[String]>::Owned(owned.clone());
            "&Cow<[String]>": &Cow::Borrowed(&owned[..]);
            "&owned Cow<[String]>": &Cow::<[String]>::Owned(owned.clone());
            "vec<vec>": v.iter().map(|x| vec![*x]).collect::<Vec<_>>();
            "Option<vec>": Some(v.clone());
            "vec<Tokens>": v.iter().map(|x| { let mut u = U::new(); u.append(*x); u }).collect::<Vec<_>>();
        }
    }
    // Long ones.
    for n in [5usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000] {
        for k in 0..4 {
            st.states += 1;
            let v: Vec<&str> = (0..n).map(|i| match k { 0 => "a", 1 => ["a", ""][i % 2], 2 => ["x ", "\n", "b"][i % 3], _ => if i + 1 == n { "z" } else { "" } }).collect();
            let s = v.concat();
            let owned: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            macro_rules! w {
                ($($name:literal: $e:expr;)*) => {$(
                    value(st, concat!("long ", $name), &s, &|t: &mut U| t.append($e), 0..CTX);
                )*};
            }
            w! {
                "vec<&str>": v.clone();
                "&vec<&str>": &v;
                "&[&str]": &v[..];
                "vec<String>": owned.clone();
                "vec<Option>": v.iter().map(Some).map(|x| x.filter(|x| !x.is_empty())).map(|x| x.copied()).collect::<Vec<_>>();
                "Cow<[String]>": Cow::Borrowed(&owned[..]);
                "owned Cow<[String]>": Cow::<[String]>::Owned(owned.clone());
                "&Cow<[String]>": &Cow::Borrowed(&owned[..]);
                "&owned Cow<[String]>": &Cow::<[String]>::Owned(owned.clone());
                "vec<vec>": v.iter().map(|x| vec![*x]).collect::<Vec<_>>();
                "vec of one vec": vec![v.clone()];
                "vec<Tokens>": v.iter().map(|x| { let mut u = U::new(); u.append(*x); u }).collect::<Vec<_>>();
            }
            // Some(Some(.. x))
            if n <= 33 {
                let mut t: U = quote!(x);
                for _ in 0..n {
                    let mut o = U::new();
                    o.append(Some(vec![Some(t)]));
                    t = o;
                }
                value(st, "nested", "x", &|u: &mut U| u.append(&t), 0..CTX);
            }
        }
    }
    // The items of a sequence keep their own layout.
    let al = ["a", "P", "L", "S", "I", "D", ""];
    for v in seqs(&al, o.pick(4, 5)) {
        st.states += 1;
        let each: Vec<U> = v
            .iter()
            .map(|x| {
                let mut u = U::new();
                match *x {
                    "P" => u.push(),
                    "L" => u.line(),
                    "S" => u.space(),
                    "I" => u.indent(),
                    "D" => u.unindent(),
                    x => u.append(x),
                }
                u
            })
            .collect();
        let ops: Vec<Op> = v
            .iter()
            .map(|x| match *x {
                "P" => Op::Push,
                "L" => Op::Line,
                "S" => Op::Space,
                "I" => Op::Ind(1),
                "D" => Op::Ind(-1),
                x => Op::Text(x.into()),
            })
            .collect();
        let mut all = vec![Op::Text("x".into())];
        all.extend(ops);
        all.push(Op::Text("y".into()));
        let m = ideal(&all, &LCfg::spaces(4));
        if m.net_zero {
            // C01's finding; the same history is judged there.
            st.bump("net_zero_left_to_C01", 1);
            continue;
        }
        for way in 0..5 {
            let key = || format!("items {v:?} way{way}");
            if st.skip(key) {
                continue;
            }
            st.traces += 1;
            st.transitions += 1;
            let got = guarded(|| {
                let mut t = U::new();
                t.append("x");
                match way {
                    0 => t.append(each.clone()),
                    1 => t.append(&each),
                    2 => t.append(&each[..]),
                    3 => t.append(Cow::Borrowed(&each[..])),
                    _ => t.append(each.iter().map(Some).collect::<Vec<_>>()),
                }
                t.append("y");
                t
            })
            .and_then(|t| show(&t, Indent::Space(4)));
            match got {
                Ok(g) if g == m.out => st.outcome(&g),
                other => st.fail(key(), "items of a sequence are not rendered one after the other", m.out.clone(), format!("{other:?}")),
            }
        }
    }
}

pub fn c20(o: &Opts) -> Stats {
    let mut total = par(o, 6, |i, st| match i {
        0 => ints!(st, true, u8, i8),
        1 => ints!(st, true, u16),
        2 => ints!(st, true, i16),
        3 => ints!(st, false, u32, i32, u64, i64, u128, i128, usize, isize),
        4 => {
            // What is displayed is what is rendered, whatever it is.
            let f64s = [0.0, -0.0, 1.0, 1.5, -2.25, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, 1e21, 123456789.125];
            for v in f64s {
                st.states += 1;
                value(st, "display f64", &format!("{v}"), &move |t| t.append(display(v)), 0..CTX);
                value(st, "format_args f64", &format!("{v:?}"), &move |t| t.append(format_args!("{v:?}")), 0..CTX);
                let v = v as f32;
                value(st, "display f32", &format!("{v}"), &move |t| t.append(display(v)), 0..CTX);
            }
            for c in (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| (*c as u32) < 0x300 || (*c as u32) % 0x1ff < 2) {
                st.states += 1;
                value(st, "display char", &c.to_string(), &move |t| t.append(display(c)), 0..2);
            }
            for b in [true, false] {
                value(st, "display bool", if b { "true" } else { "false" }, &move |t| t.append(display(b)), 0..CTX);
            }
            value(st, "None", "", &|t| t.append(None::<&str>), 0..CTX);
            value(st, "None int", "", &|t| t.append(None::<i32>), 0..CTX);
            value(st, "empty vec", "", &|t| t.append(Vec::<&str>::new()), 0..CTX);
            value(st, "Some(None)", "", &|t| t.append(Some(None::<&str>)), 0..CTX);
            value(st, "None quoted", "\"\"", &|t| t.append(quoted(None::<&str>)), 0..CTX - 1);
        }
        _ => lists(o, st),
    });
    let al = ['a', ' ', '\n', '\t', '"', '\\', '$', '{', '\u{0}', 'é', '\u{2028}', '😀'];
    let n = o.pick(3, 4);
    let all = seqs(&al, n);
    let chunk = all.len().div_ceil(64);
    let s = par(o, 64, |i, st| {
        for cs in all.iter().skip(i * chunk).take(chunk) {
            st.states += 1;
            texts(st, &cs.iter().collect::<String>());
            if st.too_many() {
                return;
            }
        }
    });
    total.merge(s);
    // Every character, and texts of every length.
    let lim = o.pick(0x800, 0x110000);
    let chars: Vec<char> = (0..lim).filter_map(char::from_u32).chain(['\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}']).collect();
    let lens: &[usize] = &[5, 7, 8, 9, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 65537];
    let mut odd: Vec<String> = chars.iter().flat_map(|c| if (*c as u32) < 0x100 { vec![c.to_string(), format!("a{c}"), format!("{c}a"), format!("{c}{c}")] } else { vec![c.to_string()] }).collect();
    for &n in lens.iter().take(o.pick(23, 28)) {
        for u in ["x", "é", " ", "\n", "a b\n"] {
            odd.push(u.repeat(n));
            odd.push(format!("{}y", u.repeat(n)));
        }
    }
    let chunk = odd.len().div_ceil(256);
    let s = par(o, 256, |i, st| {
        for t in odd.iter().skip(i * chunk).take(chunk) {
            st.states += 1;
            texts(st, t);
            if st.too_many() {
                return;
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("each of {} characters, and texts of up to {} characters, through the same", chars.len(), lens[o.pick(22, 27)]));
    // ItemStr is a string, however it is stored.
    let all = seqs(&['a', 'b', 'é', ' '], 2);
    let strs: Vec<&'static str> = all.iter().map(|c| &*Box::leak(c.iter().collect::<String>().into_boxed_str())).collect();
    for a in &strs {
        for b in &strs {
            for k in 0..4 {
                let x = if k & 1 == 0 { ItemStr::Static(a) } else { ItemStr::Box((*a).into()) };
                let y = if k & 2 == 0 { ItemStr::Static(b) } else { ItemStr::Box((*b).into()) };
                let key = || format!("ItemStr {x:?} {y:?}");
                if total.skip(key) {
                    continue;
                }
                total.states += 1;
                total.traces += 1;
                let std_hash = |t: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
                    use std::hash::Hasher;
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    t(&mut h);
                    h.finish()
                };
                use std::hash::Hash;
                let ok = (x == y) == (a == b)
                    && x.cmp(&y) == a.cmp(b)
                    && x.partial_cmp(&y) == a.partial_cmp(b)
                    && (a != b || std_hash(&|h| x.hash(h)) == std_hash(&|h| y.hash(h)))
                    && &*x == *a
                    && x.as_ref() == *a
                    && x.to_string() == **a
                    && x.clone() == x;
                if !ok {
                    total.fail(key(), "ItemStr does not behave as its content", format!("{:?}", a.cmp(b)), format!("{:?}", x.cmp(&y)));
                }
            }
        }
    }
    total.bounds.push(format!("all values of u8, i8, u16, i16; all powers of 2 and 10 and their neighbours, both signs, and the extremes of all wider integers; 15 floats; {CTX} contexts"));
    total.bounds.push(format!("all texts of 0..={n} characters over {al:?} through 56 wrappers in {CTX} contexts"));
    total.bounds.push(format!("all lists of 0..={} texts through 13 sequence wrappers; lists of up to 5000; all lists of 0..={} layout items through 5", o.pick(3, 4), o.pick(4, 5)));
    total.bounds.push("all pairs of 21 texts as static and boxed ItemStr: equality, order, hash, deref".into());
    let t = in_ctx(2, &|t| t.append(Some(-128i8)));
    total.sample(|| format!("Some(-128i8) between spaces => {:?}", show(&t, Indent::Space(4))));
    total
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, PartialEq)]
enum Helper {
    CsBlock,
    CsLine,
    DartDoc,
    JavaBlock,
}

/// Remove comments from rendered code, one physical line at a time. Gives the
/// code that is left (per line, trimmed at the end) and the text of each
/// comment line.
fn strip(h: Helper, out: &str) -> Result<(Vec<String>, Vec<String>), String> {
    let mut code = vec![];
    let mut texts = vec![];
    let mut inside = false;
    for l in out.split('\n') {
        let t = l.trim_start_matches([' ', '\t']);
        if h != Helper::JavaBlock {
            let marker = if h == Helper::CsLine { "//" } else { "///" };
            match t.strip_prefix(marker) {
                Some(rest) => match rest.strip_prefix(' ') {
                    Some(r) => texts.push(r.to_string()),
                    None if rest.is_empty() => texts.push(String::new()),
                    None => return Err(format!("malformed comment line {l:?}")),
                },
                None if t.contains("//") => return Err(format!("comment shares a line with code: {l:?}")),
                None => code.push(l.to_string()),
            }
            continue;
        }
        if !inside {
            if t == "/**" {
                inside = true;
            } else if t.contains("/*") || t.contains("*/") {
                return Err(format!("malformed comment line {l:?}"));
            } else {
                code.push(l.to_string());
            }
            continue;
        }
        if t == "*/" {
            inside = false;
            continue;
        }
        if t.contains("*/") {
            return Err(format!("text escapes the comment: {l:?}"));
        }
        match t.strip_prefix('*') {
            Some("") => texts.push(String::new()),
            Some(r) if r.starts_with(' ') => texts.push(r[1..].to_string()),
            _ => return Err(format!("malformed comment line {l:?}")),
        }
    }
    if inside {
        return Err("comment is not closed".into());
    }
    Ok((code, texts))
}

trait Cm: Lang {
    const H: &'static [Helper];
    fn put(h: Helper, ty: usize, lines: &[&'static str], t: &mut Tokens<Self>);
}
macro_rules! put_with {
    ($f:path, $ty:expr, $lines:expr, $t:expr) => {
        match $ty {
            0 => $t.append($f($lines.to_vec())),
            1 => $t.append($f($lines.iter().map(|l| l.to_string()))),
            2 => $t.append($f($lines.iter().filter(|_| true).map(|l| ItemStr::Static(l)))),
            3 => $t.append($f($lines.iter().map(|l| Cow::Borrowed(*l)).collect::<Vec<_>>())),
            4 => {
                let c = $f($lines.iter().copied());
                quote_in!(*$t => $c)
            }
            _ => $t.append(Some($f($lines))),
        }
    };
}
impl Cm for Csharp {
    const H: &'static [Helper] = &[Helper::CsBlock, Helper::CsLine];
    fn put(h: Helper, ty: usize, lines: &[&'static str], t: &mut Tokens<Self>) {
        match h {
            Helper::CsBlock => put_with!(lang::csharp::block_comment, ty, lines, t),
            _ => put_with!(lang::csharp::comment, ty, lines, t),
        }
    }
}
impl Cm for Dart {
    const H: &'static [Helper] = &[Helper::DartDoc];
    fn put(_: Helper, ty: usize, lines: &[&'static str], t: &mut Tokens<Self>) {
        put_with!(lang::dart::doc_comment, ty, lines, t)
    }
}
impl Cm for Java {
    const H: &'static [Helper] = &[Helper::JavaBlock];
    fn put(_: Helper, ty: usize, lines: &[&'static str], t: &mut Tokens<Self>) {
        put_with!(lang::java::block_comment, ty, lines, t)
    }
}

/// A long key, shortened.
fn short(s: &str) -> String {
    if s.len() <= 120 {
        return s.to_string();
    }
    let head: String = s.chars().take(60).collect();
    let sum = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    format!("{head}..({} bytes, {sum:x})", s.len())
}

/// Lines of every character, of every length, and many of them.
fn odd_lines(o: &Opts) -> Vec<Vec<&'static str>> {
    fn leak(s: String) -> &'static str {
        Box::leak(s.into_boxed_str())
    }
    let ends = |c: char| matches!(c, '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}');
    let mut out: Vec<Vec<&'static str>> = vec![];
    let lim = o.pick(0x3000, 0x110000);
    for c in (0..lim).filter_map(char::from_u32).chain(['\u{feff}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}']) {
        if ends(c) {
            continue;
        }
        out.push(vec![leak(c.to_string())]);
        if c < '\u{250}' {
            out.push(vec![leak(format!("a{c}"))]);
            out.push(vec![leak(format!("{c}a")), leak(format!("a{c}b"))]);
            out.push(vec![leak(format!("{c}{c}")), "", leak(format!(" {c}"))]);
        }
    }
    for w in ["<summary>", "</summary>", "@param a b", "@", "{@code x}", "TODO:", "///", "////", "/*", "/**", "* /", "**", "#region", "$x", "${x}", "&lt;", "&amp;", "]]>", "\\u002a", "`x`", "- a", "1. b", "```", "import x;"] {
        out.push(vec![w]);
        out.push(vec!["a", w, ""]);
        out.push(vec![w, w]);
        out.push(vec!["", w]);
    }
    for n in [2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128, 129, 255, 256, 257, 1000, 4096] {
        for u in ["x", "x y ", "é"] {
            let l = leak(u.repeat(n));
            out.extend([vec![l], vec!["a", l, "b"], vec![l, l]]);
        }
        for r in [&["x"][..], &[""], &["", "x"], &["x", "", ""], &[" x", "*"]] {
            let mut ls: Vec<&'static str> = vec![];
            for _ in 0..n {
                ls.extend(r);
            }
            out.push(ls);
        }
    }
    out
}

fn comments<L: Cm>(o: &Opts, st: &mut Stats)
where
    L::Config: Default,
{
    let al = ["a", "", "b c", " ", " x", "y ", "/", "*", "//", "\\", "é\t", "/// z", "* q", "{@r} <p>"];
    for &h in L::H {
        for (odd, lines) in seqs(&al, o.pick(2, 4)).into_iter().map(|l| (false, l)).chain(odd_lines(o).into_iter().map(|l| (true, l))) {
            for ty in 0..6 {
                for depth in 0..o.pick(3usize, 4) {
                    for ind in [Indent::Space(4), Indent::Space(2), Indent::Tab] {
                        if lines.len() > 3 && (ty > 0 || depth > 1 || ind != Indent::Space(4)) {
                            continue;
                        }
                        if odd && (ty > 0 || depth != 1 || ind != Indent::Space(4)) {
                            continue;
                        }
                        // 0: between code, 1: at the start, 2: twice, 3: at
                        // the end, 4: after a blank line, 5: after a space, 6:
                        // after stepping out, with a blank line behind
                        for place in 0..7 {
                            if odd && place > 1 {
                                continue;
                            }
                            let key = || format!("{h:?} {} as{ty} depth{depth} {ind:?} place{place}", short(&format!("{lines:?}")));
                            if st.skip(key) {
                                continue;
                            }
                            st.states += 1;
                            st.transitions += lines.len() as u64;
                            st.traces += 1;
                            let built = guarded(|| {
                                let mut t = Tokens::<L>::new();
                                if place != 1 {
                                    t.append("pre");
                                }
                                for _ in 0..depth {
                                    t.indent();
                                }
                                match place {
                                    4 => t.line(),
                                    5 => t.space(),
                                    6 => t.unindent(),
                                    _ => {}
                                }
                                L::put(h, ty, &lines, &mut t);
                                if place == 6 {
                                    t.line();
                                }
                                if place == 2 {
                                    L::put(h, ty, &lines, &mut t);
                                }
                                if place != 3 {
                                    t.push();
                                    t.append("post");
                                }
                                t
                            });
                            let got = built.and_then(|t| show(&t, ind));
                            // Layout: exactly what one would write by hand.
                            let mut ops = vec![];
                            let tx = |s: &str| Op::Text(s.to_string());
                            if place != 1 {
                                ops.push(tx("pre"));
                            }
                            for _ in 0..depth {
                                ops.push(Op::Ind(1));
                            }
                            match place {
                                4 => ops.push(Op::Line),
                                5 => ops.push(Op::Space),
                                6 => ops.push(Op::Ind(-1)),
                                _ => {}
                            }
                            for _ in 0..if place == 2 { 2 } else { 1 } {
                                if lines.is_empty() {
                                    continue;
                                }
                                ops.push(Op::Push);
                                if h == Helper::JavaBlock {
                                    ops.extend([tx("/**"), Op::Push]);
                                    for l in &lines {
                                        let e = if l.is_empty() { " *".to_string() } else { format!(" * {l}") };
                                        ops.extend([tx(&e), Op::Push]);
                                    }
                                    ops.push(tx(" */"));
                                } else {
                                    let m = if h == Helper::CsLine { "//" } else { "///" };
                                    for l in &lines {
                                        let e = if l.is_empty() { m.to_string() } else { format!("{m} {l}") };
                                        ops.extend([Op::Push, tx(&e)]);
                                    }
                                }
                            }
                            if place == 6 {
                                ops.push(Op::Line);
                            }
                            if place != 3 {
                                ops.extend([Op::Push, tx("post")]);
                            }
                            let want = ideal(&ops, &LCfg { ind, nl: "\n".into() }).out;
                            let got = match got {
                                Ok(g) => g,
                                Err(e) => {
                                    st.fail(key(), "helper fails", want, e);
                                    continue;
                                }
                            };
                            if got != want {
                                st.fail(key(), "comment is not laid out line by line", want, got);
                                continue;
                            }
                            // Meaning: what a reader of the language sees.
                            match strip(h, &got) {
                                Err(e) => st.fail(key(), "not a comment", "only comment lines", format!("{e} in {got:?}")),
                                Ok((code, texts)) => {
                                    let mut want_texts: Vec<String> = lines.iter().map(|l| l.to_string()).collect();
                                    if place == 2 {
                                        want_texts.extend(want_texts.clone());
                                    }
                                    let code: Vec<&str> = code.iter().map(|c| c.trim()).filter(|c| !c.is_empty()).collect();
                                    let want_code: &[&str] = match place {
                                        1 => &["post"],
                                        3 => &["pre"],
                                        _ => &["pre", "post"],
                                    };
                                    if texts != want_texts || code != want_code {
                                        st.fail(key(), "comment texts or code differ", format!("{want_texts:?} {want_code:?}"), format!("{texts:?} {code:?}"));
                                    } else {
                                        st.outcome(&got);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    st.sample(|| {
        let mut t = Tokens::<L>::new();
        L::put(L::H[0], 0, &["a", "", "b"], &mut t);
        format!("{:?} [a, , b] => {:?}", L::H[0], show(&t, Indent::Space(4)))
    });
}

pub fn c21(o: &Opts) -> Stats {
    let mut s = par(o, 3, |i, st| match i {
        0 => comments::<Csharp>(o, st),
        1 => comments::<Dart>(o, st),
        _ => comments::<Java>(o, st),
    });
    s.bounds.push(format!("4 helpers x all lists of 0..={} lines out of 14 x 6 kinds of sources x {} depths x 3 indentations x 7 places (lists of more than three lines: one source, two depths, one indentation); lines of every character, of up to 4096 characters, and up to 12288 lines, in two places", o.pick(2, 4), o.pick(3, 4)));
    s
}

// ---------------------------------------------------------------- C23

/// Languages defined the way a user defines them.
mod custom {
    use genco::fmt;
    use std::fmt::Write as _;

    #[derive(Debug, Clone, PartialEq)]
    pub struct Cfg(pub String);
    #[derive(Debug, Clone, PartialEq)]
    pub struct Fm(pub u8);
    impl Default for Fm {
        fn default() -> Self {
            Fm(7)
        }
    }
    impl Default for Cfg {
        fn default() -> Self {
            Cfg("dflt".into())
        }
    }

    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Ka(pub u8);
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Kb(pub u8);
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Kc(pub String, pub u8);

    genco::impl_lang! {
        /// Everything overridden.
        pub Full {
            type Config = Cfg;
            type Item = Any;
            type Format = Fm;

            fn default_indentation() -> fmt::Indentation {
                fmt::Indentation::Space(3)
            }
            fn open_quote(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm, e: bool) -> fmt::Result {
                write!(out, "<<{},{},{}|", c.0, f.0, e)
            }
            fn close_quote(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm, e: bool) -> fmt::Result {
                write!(out, "|{},{},{}>>", c.0, f.0, e)
            }
            fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm, l: &str) -> fmt::Result {
                write!(out, "lit({},{},{})", c.0, f.0, l)
            }
            fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, "ev({},{},", c.0, f.0)
            }
            fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, ",{},{})", c.0, f.0)
            }
            fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
                input.chars().try_for_each(|c| write!(out, "[{c}]"))
            }
            fn format_file(tokens: &genco::Tokens<Full>, out: &mut fmt::Formatter<'_>, config: &Cfg) -> fmt::Result {
                let mut header = genco::Tokens::<Full>::new();
                let set: std::collections::BTreeSet<&Any> = tokens.walk_imports().collect();
                for i in set {
                    header.push();
                    header.append(format!("use {i:?}"));
                }
                header.line();
                let format = Fm(9);
                header.format(out, config, &format)?;
                tokens.format(out, config, &format)
            }
        }

        Ka {
            fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, "a{}/{}/{}", self.0, c.0, f.0)
            }
        }
        Kb {
            fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, "b{}/{}/{}", self.0, c.0, f.0)
            }
        }
        Kc {
            fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, "c{}{}/{}/{}", self.0, self.1, c.0, f.0)
            }
        }
    }
    impl genco::lang::LangSupportsEval for Full {}

    /// Nothing overridden.
    pub mod plain {
        use super::{Cfg, Fm};
        use genco::fmt;
        use std::fmt::Write as _;
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct Ka(pub u8);
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct Kb(pub u8);
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct Kc(pub String, pub u8);
        genco::impl_lang! {
            pub Plain {
                type Config = Cfg;
                type Item = Any;
                type Format = Fm;
            }
            Ka {
                fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                    write!(out, "a{}/{}/{}", self.0, c.0, f.0)
                }
            }
            Kb {
                fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                    write!(out, "b{}/{}/{}", self.0, c.0, f.0)
                }
            }
            Kc {
                fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                    write!(out, "c{}{}/{}/{}", self.0, self.1, c.0, f.0)
                }
            }
        }
        impl genco::lang::LangSupportsEval for Plain {}
    }
}

/// An import as plain data: kind (in order of declaration), text, number.
type P = (u8, String, u8);

#[derive(Clone, Copy, Debug, PartialEq)]
enum X {
    A0,
    A1Ref,
    B0,
    B1Ref,
    C0,
    CRef,
    RegA,
    RegBRef,
    RegTuple,
    QuotedA,
    QuotedText,
    EvalA,
    EvalLit,
    Text,
    Push,
    Ind,
}
const XS: &[X] = &[
    X::Text,
    X::A0,
    X::A1Ref,
    X::B0,
    X::B1Ref,
    X::C0,
    X::CRef,
    X::RegA,
    X::RegBRef,
    X::RegTuple,
    X::QuotedA,
    X::QuotedText,
    X::EvalA,
    X::EvalLit,
    X::Push,
    X::Ind,
];

struct Exp {
    ops: Vec<Op>,
    imports: Vec<P>,
}

macro_rules! custom_lang {
    ($build:ident, $plain:ident, $L:ty, $ka:path, $kb:path, $kc:path, $any:path) => {
        fn $build(h: &[X]) -> Tokens<$L> {
            use $any as Any;
            use $ka as Ka;
            use $kb as Kb;
            use $kc as Kc;
            let mut t = Tokens::<$L>::new();
            for x in h {
                match x {
                    X::A0 => t.append(Ka(0)),
                    X::A1Ref => t.append(&Ka(1)),
                    X::B0 => t.append(Kb(0)),
                    X::B1Ref => t.append(&Kb(1)),
                    X::C0 => t.append(Kc("k".into(), 0)),
                    X::CRef => t.append(&Kc("j".into(), 5)),
                    X::RegA => t.register(Ka(2)),
                    X::RegBRef => t.register(&Kb(0)),
                    X::RegTuple => t.register((Kb(3), &Ka(0), Kc("k".into(), 0), (Ka(4), &Kb(4)))),
                    X::QuotedA => t.append(quoted(Ka(0))),
                    X::QuotedText => t.append(quoted("q")),
                    X::EvalA | X::EvalLit => {
                        t.append(Item::OpenQuote(true));
                        t.append("x ");
                        t.append(Item::OpenEval);
                        if *x == X::EvalA {
                            t.append(Ka(6));
                        } else {
                            t.append("v");
                        }
                        t.append(Item::CloseEval);
                        t.append(Item::CloseQuote);
                    }
                    X::Text => t.append("t"),
                    X::Push => t.push(),
                    X::Ind => t.indent(),
                }
            }
            let _ = |a: &Any| a.clone();
            t
        }
        fn $plain(t: &Tokens<$L>) -> Result<Vec<P>, String> {
            use $any as Any;
            guarded(|| {
                let v: Vec<&Any> = t.walk_imports().take(1000).collect();
                // Order, equality and hash of the real values have to agree
                // with those of the plain ones.
                let p = |a: &Any| -> P {
                    match a {
                        Any::Ka(a) => (0, String::new(), a.0),
                        Any::Kb(a) => (1, String::new(), a.0),
                        Any::Kc(a) => (2, a.0.clone(), a.1),
                    }
                };
                for a in &v {
                    for b in &v {
                        let (x, y) = (p(a), p(b));
                        if (a == b) != (x == y) || a.cmp(b) != x.cmp(&y) || (x == y && hash(*a) != hash(*b)) {
                            panic!("{a:?} and {b:?} don't compare by value");
                        }
                    }
                }
                let mut out: Vec<P> = v.into_iter().map(p).collect();
                out.sort();
                out
            })
        }
    };
}
custom_lang!(build_full, walk_full, custom::Full, custom::Ka, custom::Kb, custom::Kc, custom::Any);
custom_lang!(build_plain, walk_plain, custom::plain::Plain, custom::plain::Ka, custom::plain::Kb, custom::plain::Kc, custom::plain::Any);

fn expect(h: &[X], full: bool, c: &str, f: u8) -> Exp {
    let mut ops = vec![];
    let mut imports: Vec<P> = vec![];
    let a = |n: u8| format!("a{n}/{c}/{f}");
    let b = |n: u8| format!("b{n}/{c}/{f}");
    let k = |s: &str, n: u8| format!("c{s}{n}/{c}/{f}");
    let q = |inner: String, e: bool| if full { format!("<<{c},{f},{e}|{inner}|{c},{f},{e}>>") } else { format!("\"{inner}\"") };
    let w = |s: &str| if full { s.chars().map(|c| format!("[{c}]")).collect() } else { s.to_string() };
    for x in h {
        match x {
            X::A0 => {
                imports.push((0, "".into(), 0));
                ops.push(Op::Text(a(0)));
            }
            X::A1Ref => {
                imports.push((0, "".into(), 1));
                ops.push(Op::Text(a(1)));
            }
            X::B0 => {
                imports.push((1, "".into(), 0));
                ops.push(Op::Text(b(0)));
            }
            X::B1Ref => {
                imports.push((1, "".into(), 1));
                ops.push(Op::Text(b(1)));
            }
            X::C0 => {
                imports.push((2, "k".into(), 0));
                ops.push(Op::Text(k("k", 0)));
            }
            X::CRef => {
                imports.push((2, "j".into(), 5));
                ops.push(Op::Text(k("j", 5)));
            }
            X::RegA => {
                imports.push((0, "".into(), 2));
                ops.push(Op::Mark);
            }
            X::RegBRef => {
                imports.push((1, "".into(), 0));
                ops.push(Op::Mark);
            }
            X::RegTuple => {
                imports.extend([(1, "".into(), 3), (0, "".into(), 0), (2, "k".into(), 0), (0, "".into(), 4), (1, "".into(), 4)]);
                ops.push(Op::Mark);
            }
            X::QuotedA => {
                imports.push((0, "".into(), 0));
                ops.push(Op::Text(q(a(0), false)));
            }
            X::QuotedText => ops.push(Op::Text(q(w("q"), false))),
            X::EvalA => {
                imports.push((0, "".into(), 6));
                let e = if full { format!("ev({c},{f},{},{c},{f})", a(6)) } else { a(6) };
                ops.push(Op::Text(q(format!("{}{e}", w("x ")), true)));
            }
            X::EvalLit => {
                let e = if full { format!("lit({c},{f},v)") } else { "v".into() };
                ops.push(Op::Text(q(format!("{}{e}", w("x ")), true)));
            }
            X::Text => ops.push(Op::Text("t".into())),
            X::Push => ops.push(Op::Push),
            X::Ind => ops.push(Op::Ind(1)),
        }
    }
    imports.sort();
    Exp { ops, imports }
}

fn custom_case<L>(st: &mut Stats, h: &[X], full: bool, build: fn(&[X]) -> Tokens<L>, walk: fn(&Tokens<L>) -> Result<Vec<P>, String>)
where
    L: Lang<Config = custom::Cfg, Format = custom::Fm>,
{
    let name = if full { "full" } else { "plain" };
    let t = match guarded(|| build(h)) {
        Ok(t) => t,
        Err(e) => {
            st.fail(format!("{name} {h:?}"), "can't be built", "-", e);
            return;
        }
    };
    let default_unit = if full { 3 } else { 4 };
    // entry points: 0 format, 1 format_file, 2 to_string, 3 to_file_string, 4 to_vec, 5 to_file_vec
    for (ci, (c, f)) in [("dflt", 7u8), ("other", 7), ("", 200)].into_iter().enumerate() {
        for entry in 0..6 {
            if entry >= 2 && ci > 0 {
                continue;
            }
            let key = || format!("{name} {h:?} config{ci} entry{entry}");
            if st.skip(key) {
                continue;
            }
            st.traces += 1;
            let file = matches!(entry, 1 | 3 | 5);
            // A file picks its own format.
            let f = match (file, full) {
                (true, true) => 9,
                (true, false) => 7,
                _ => f,
            };
            let e = expect(h, full, c, f);
            let got = rendered(|| {
                let cfg = custom::Cfg(c.to_string());
                let fc = fmt::Config::from_lang::<L>();
                match entry {
                    0 | 1 => {
                        let mut w = fmt::FmtWriter::new(String::new());
                        if entry == 0 {
                            t.format(&mut w.as_formatter(&fc), &cfg, &custom::Fm(f))?;
                        } else {
                            t.format_file(&mut w.as_formatter(&fc), &cfg)?;
                        }
                        Ok(w.into_inner())
                    }
                    2 => t.to_string(),
                    3 => t.to_file_string(),
                    4 => Ok(t.to_vec()?.join("\n")),
                    _ => Ok(t.to_file_vec()?.join("\n") + "\n"),
                }
            });
            let mut ops = vec![];
            if file && full {
                let mut l = e.imports.clone();
                l.dedup();
                for (k, s, n) in &l {
                    ops.push(Op::Push);
                    ops.push(Op::Text(match k {
                        0 => format!("use Ka(Ka({n}))"),
                        1 => format!("use Kb(Kb({n}))"),
                        _ => format!("use Kc(Kc({s:?}, {n}))"),
                    }));
                }
                ops.push(Op::Line);
                ops.push(Op::Mark);
            }
            ops.extend(e.ops);
            let mut want = ideal(&ops, &LCfg::spaces(default_unit)).out;
            if file {
                want.push('\n');
            }
            match got {
                Ok(g) if g == want => st.outcome(&g),
                other => st.fail(key(), "language is not driven as configured", want, format!("{other:?}")),
            }
            if entry == 0 && ci == 0 {
                match walk(&t) {
                    Ok(v) if v == e.imports => {}
                    other => st.fail(key(), "imports found differ", format!("{:?}", e.imports), format!("{other:?}")),
                }
            }
        }
    }
}

/// Languages which override some of the callbacks, defined by the trait alone.
mod partial {
    use super::custom::{Cfg, Fm};
    use genco::fmt;
    use genco::lang::{Lang, LangItem, LangSupportsEval};
    use std::fmt::Write as _;

    pub const OPEN: u8 = 1;
    pub const CLOSE: u8 = 2;
    pub const LITERAL: u8 = 4;
    pub const START: u8 = 8;
    pub const END: u8 = 16;
    pub const WRITE: u8 = 32;

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Partial<const M: u8>(());

    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Thing(pub u8);

    impl<L: Lang<Config = Cfg, Format = Fm>> LangItem<L> for Thing {
        fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
            write!(out, "thing{}({},{})", self.0, c.0, f.0)
        }
    }

    macro_rules! methods {
        () => {};
        (open $($rest:ident)*) => {
            fn open_quote(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm, e: bool) -> fmt::Result {
                write!(out, "<<{},{},{}|", c.0, f.0, e)
            }
            methods!($($rest)*);
        };
        (close $($rest:ident)*) => {
            fn close_quote(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm, e: bool) -> fmt::Result {
                write!(out, "|{},{},{}>>", c.0, f.0, e)
            }
            methods!($($rest)*);
        };
        (literal $($rest:ident)*) => {
            fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm, l: &str) -> fmt::Result {
                write!(out, "lit({},{},{})", c.0, f.0, l)
            }
            methods!($($rest)*);
        };
        (start $($rest:ident)*) => {
            fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, "ev({},{},", c.0, f.0)
            }
            methods!($($rest)*);
        };
        (end $($rest:ident)*) => {
            fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fm) -> fmt::Result {
                write!(out, ",{},{})", c.0, f.0)
            }
            methods!($($rest)*);
        };
        (write $($rest:ident)*) => {
            fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
                input.chars().try_for_each(|c| write!(out, "[{c}]"))
            }
            methods!($($rest)*);
        };
    }

    /// One language for every subset.
    macro_rules! subsets {
        (($m:expr) [$($on:ident)*]) => {
            impl Lang for Partial<{ $m }> {
                type Config = Cfg;
                type Format = Fm;
                type Item = Thing;
                methods!($($on)*);
            }
            impl LangSupportsEval for Partial<{ $m }> {}
        };
        (($m:expr) [$($on:ident)*] $name:ident=$bit:ident $($rest:tt)*) => {
            subsets!(($m) [$($on)*] $($rest)*);
            subsets!(($m | $bit) [$($on)* $name] $($rest)*);
        };
    }
    subsets!((0) [] open=OPEN close=CLOSE literal=LITERAL start=START end=END write=WRITE);
}

#[derive(Clone, Copy, Debug)]
enum Y {
    Thing,
    Text,
    Push,
    /// A string of text, of a reference.
    Str,
    StrThing,
    /// Interpolations: of one literal, of one which a word follows, of a
    /// reference, of a string, of nothing.
    One,
    Word,
    Eval,
    EvalStr,
    Nothing,
    /// A string within a string.
    Nested,
}
const YS: &[Y] = &[Y::Text, Y::Thing, Y::Push, Y::Str, Y::StrThing, Y::One, Y::Word, Y::Eval, Y::EvalStr, Y::Nothing, Y::Nested];

fn partial<const M: u8>(st: &mut Stats, h: &[Y])
where
    partial::Partial<M>: Lang<Config = custom::Cfg, Format = custom::Fm, Item = partial::Thing>,
{
    use partial::*;
    type L<const M: u8> = Partial<M>;
    let thing = |n: u8| Item::<L<M>>::Lang(0, Box::new(Thing(n)));
    let mut t = Tokens::<L<M>>::new();
    for y in h {
        let eval: &[Item<L<M>>] = &match y {
            Y::Thing => {
                t.append(thing(1));
                continue;
            }
            Y::Text => {
                t.append("t");
                continue;
            }
            Y::Push => {
                t.push();
                continue;
            }
            Y::Str => {
                t.append(quoted("q'"));
                continue;
            }
            Y::StrThing => {
                t.append(quoted(thing(2)));
                continue;
            }
            Y::Nested => {
                t.append(quoted("a"));
                t.append(Item::OpenQuote(false));
                t.append(quoted("b'"));
                t.append(Item::CloseQuote);
                continue;
            }
            Y::One | Y::Word => vec!["v['k']".into()].into_iter().map(Item::Literal).collect::<Vec<_>>(),
            Y::Eval => vec![thing(3)],
            Y::EvalStr => vec![Item::OpenQuote(false), Item::Literal("e".into()), Item::CloseQuote],
            Y::Nothing => vec![],
        };
        t.append(Item::OpenQuote(true));
        t.append("x ");
        t.append(Item::OpenEval);
        for i in eval {
            t.append(i.clone());
        }
        t.append(Item::CloseEval);
        t.append(if matches!(y, Y::Word) { "w" } else { " y" });
        t.append(Item::CloseQuote);
    }
    for (entry, c, f) in [(0, "c", 3u8), (1, "d", 7), (2, "dflt", 7), (3, "dflt", 7)] {
        let key = || format!("subset {M:06b} {h:?} entry{entry}");
        if st.skip(key) {
            continue;
        }
        st.traces += 1;
        let on = |b: u8, yes: String, no: &str| if M & b != 0 { yes } else { no.to_string() };
        let str = |inner: String, e: bool| {
            on(OPEN, format!("<<{c},{f},{e}|"), "\"") + &inner + &on(CLOSE, format!("|{c},{f},{e}>>"), "\"")
        };
        let wr = |s: &str| on(WRITE, s.chars().map(|c| format!("[{c}]")).collect(), s);
        let th = |n: u8| format!("thing{n}({c},{f})");
        let long = |s: String| on(START, format!("ev({c},{f},"), "") + &s + &on(END, format!(",{c},{f})"), "");
        let mut ops = vec![];
        for y in h {
            ops.push(Op::Text(match y {
                Y::Thing => th(1),
                Y::Text => "t".into(),
                Y::Push => {
                    ops.push(Op::Push);
                    continue;
                }
                Y::Str => str(wr("q'"), false),
                Y::StrThing => str(th(2), false),
                Y::Nested => str(wr("a"), false) + &str(wr(&str(wr("b'"), false)), false),
                _ => {
                    let mid = match y {
                        Y::One => on(LITERAL, format!("lit({c},{f},v['k'])"), &long("v['k']".into())),
                        Y::Word => long("v['k']".into()),
                        Y::Eval => long(th(3)),
                        Y::EvalStr => long(str(wr("e"), false)),
                        _ => long(String::new()),
                    };
                    str(wr("x ") + &mid + &wr(if matches!(y, Y::Word) { "w" } else { " y" }), true)
                }
            }));
        }
        let mut want = ideal(&ops, &LCfg::spaces(4)).out;
        let got = rendered(|| {
            let cfg = custom::Cfg(c.to_string());
            let fc = fmt::Config::from_lang::<L<M>>();
            let mut w = fmt::FmtWriter::new(String::new());
            match entry {
                0 => t.format(&mut w.as_formatter(&fc), &cfg, &custom::Fm(f))?,
                1 => t.format_file(&mut w.as_formatter(&fc), &cfg)?,
                2 => return t.to_string(),
                _ => return t.to_file_string(),
            }
            Ok(w.into_inner())
        });
        if entry % 2 == 1 {
            want.push('\n');
        }
        match got {
            Ok(g) if g == want => st.outcome(&g),
            other => st.fail(key(), "language is not driven as configured", want, format!("{other:?}")),
        }
    }
}

/// All subsets of the callbacks.
fn subsets(o: &Opts) -> Stats {
    let all = seqs(YS, o.pick(3, 5));
    macro_rules! table {
        ($($m:literal)*) => { [$(partial::<$m> as fn(&mut Stats, &[Y])),*] };
    }
    let table = table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63);
    let mut total = par(o, table.len(), |i, st| {
        for h in &all {
            st.states += 1;
            st.transitions += h.len() as u64;
            table[i](st, h);
            if st.too_many() {
                return;
            }
        }
    });
    total.bounds.push(format!("all histories of 0..={} operations over {YS:?}, in the 64 languages which override a subset of the six callbacks for strings, 4 entry points", o.pick(3, 5)));
    total
}

/// Streams compare by content: equal exactly when built from the same values.
fn stream_order(st: &mut Stats, hs: &[Vec<X>]) {
    let mut by: BTreeMap<Vec<genco::tokens::Item<custom::Full>>, String> = BTreeMap::new();
    for h in hs {
        let t = build_full(h);
        let items: Vec<_> = t.iter().cloned().collect();
        for (other, name) in by.iter().take(64) {
            let u: Tokens<custom::Full> = other.iter().collect();
            let key = || format!("compare {h:?} with {name}");
            if st.skip(key) {
                continue;
            }
            st.traces += 1;
            let same = items == *other;
            let ok = (t == u) == same && t.cmp(&u) == items.cmp(other) && (!same || hash(&t) == hash(&u)) && (t == *other) == same && (*other == t) == same;
            if !ok {
                st.fail(key(), "streams don't compare by their items", format!("{:?}", items.cmp(other)), format!("{:?}", t.cmp(&u)));
            }
        }
        by.insert(items, format!("{h:?}"));
    }
}

pub fn c23(o: &Opts) -> Stats {
    let n = o.pick(4, 5);
    let all = seqs(XS, n);
    let chunk = all.len().div_ceil(64);
    let mut total = par(o, 64, |i, st| {
        for h in all.iter().skip(i * chunk).take(chunk) {
            st.states += 1;
            st.transitions += 1;
            custom_case(st, h, true, build_full, walk_full);
            custom_case(st, h, false, build_plain, walk_plain);
            if st.too_many() {
                return;
            }
        }
    });
    stream_order(&mut total, &seqs(XS, 2));
    total.merge(subsets(o));
    total.bounds.push(format!("all histories of 0..={n} operations over {XS:?}, in a language which overrides every callback and one which overrides none, 3 configurations x 6 entry points"));
    total.bounds.push("all pairs of histories of up to two operations with 64 others: equality, order and hash of streams and items".into());
    total.sample(|| format!("full [A0, Text, EvalA] => {:?}", build_full(&[X::A0, X::Text, X::EvalA]).to_file_string()));
    total.sample(|| format!("plain [A0, Text, EvalA] => {:?}", build_plain(&[X::A0, X::Text, X::EvalA]).to_file_string()));
    total
}
