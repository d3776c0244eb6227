//! C05 binding, C06 canonical headers, C07 conflicts, C08 file assembly.
//!
//! Every sequence of references up to a length (and every larger subset) is rendered to a file by the
//! real code. The header is (a) compared to an independent reference renderer which is a function of the
//! *set* of references, and (b) interpreted under the binding rules of the language, to resolve what the
//! body says.
use crate::core::*;
use crate::model::*;
use crate::quoting::La;
use genco::fmt;
use genco::prelude::*;
use genco::tokens::ItemStr;
use genco::Tokens;
use std::collections::{BTreeMap, BTreeSet};

macro_rules! each {
    ($f:ident, $o:expr, $w:expr, $t:expr) => {
        $f($o, &$crate::imports::RustL, $w, $t);
        $f($o, &$crate::imports::JavaL, $w, $t);
        $f($o, &$crate::imports::CsL, $w, $t);
        $f($o, &$crate::imports::DartL, $w, $t);
        $f($o, &$crate::imports::GoL, $w, $t);
        $f($o, &$crate::imports::JsL, $w, $t);
        $f($o, &$crate::imports::PyL, $w, $t);
        $f($o, &$crate::imports::SwiftL, $w, $t);
        $f($o, &$crate::imports::CL, $w, $t);
        $f($o, &$crate::imports::NixL, $w, $t);
    };
}
pub(crate) use each;

/// A reference, as the user of the library states it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Ref {
    pub m: &'static str,
    pub n: &'static str,
    /// local alias
    pub a: Option<&'static str>,
    /// alias of the module
    pub ma: Option<&'static str>,
    /// language specific: how it is imported
    pub k: u8,
    /// references inside of it (Nix variables)
    pub v: u8,
}

const fn r(m: &'static str, n: &'static str) -> Ref {
    Ref { m, n, a: None, ma: None, k: 0, v: 0 }
}

/// All names in all modules, in all variations.
fn product(mods: &[&'static str], names: &[&'static str], vary: &[fn(Ref) -> Ref]) -> Vec<Ref> {
    mods.iter().flat_map(|m| names.iter().flat_map(move |n| vary.iter().map(move |v| v(r(m, n))))).collect()
}

/// A local name which is bound a second time, even if it's to the same thing, is an error.
fn bind_once(e: &mut Env, k: &str, v: String) -> Result<(), String> {
    if e.contains_key(k) {
        return Err(format!("`{k}` is bound a second time, to {v}"));
    }
    bind(e, k, v);
    Ok(())
}
impl Ref {
    const fn a(self, a: &'static str) -> Ref {
        Ref { a: Some(a), ..self }
    }
    const fn ma(self, ma: &'static str) -> Ref {
        Ref { ma: Some(ma), ..self }
    }
    const fn k(self, k: u8) -> Ref {
        Ref { k, ..self }
    }
    const fn v(self, v: u8) -> Ref {
        Ref { v, ..self }
    }
}

pub type Set = BTreeSet<Ref>;
type Env = BTreeMap<String, BTreeSet<String>>;

fn bind(e: &mut Env, k: &str, v: String) {
    e.entry(k.to_string()).or_default().insert(v);
}

/// One target language.
pub trait Lg: Sync {
    type L: Lang;
    const LA: La;
    fn pool(&self) -> Vec<Ref>;
    fn nconf(&self) -> usize {
        1
    }
    /// References which are easily confused with each other: the same names, in modules with similar
    /// names, imported in every way there is.
    fn twins(&self) -> Vec<Ref>;
    /// Configurations for these.
    fn twin_confs(&self) -> Vec<usize> {
        (0..self.nconf()).collect()
    }
    fn put(&self, t: &mut Tokens<Self::L>, r: &Ref, own: bool, register: bool);
    fn file(&self, t: &Tokens<Self::L>, conf: usize, f: &fmt::Config) -> Result<String, String>;
    /// Lines in front of the imports (package clause), and the imports themselves.
    fn preamble(&self, _conf: usize) -> Vec<String> {
        vec![]
    }
    fn header(&self, set: &Set, conf: usize) -> Vec<Vec<String>>;
    /// How the reference has to be rendered.
    fn shown(&self, r: &Ref, set: &Set, conf: usize) -> String;
    /// How it has to be rendered where there is no header.
    fn fragment(&self, r: &Ref) -> String {
        self.shown(r, &Set::new(), 0)
    }
    /// The symbol which is meant.
    fn target(&self, r: &Ref) -> String {
        format!("{}|{}", r.m, r.n)
    }
    /// Local names the reference asks for, with what they are to be bound to. References with different
    /// meanings for the same name are conflicting requests. Empty: the language resolves conflicts.
    /// Name of a target in one configuration (targets may coincide in some).
    fn canon(&self, t: &str, _conf: usize) -> String {
        t.to_string()
    }
    fn locals(&self, r: &Ref, conf: usize) -> Vec<(String, String)>;
    /// Interpret the header lines: what does `shown` refer to? The universe is what's known to exist.
    fn resolve(&self, header: &[&str], shown: &str, universe: &Set, conf: usize) -> Result<BTreeSet<String>, String>;
    /// The line of a header with its string literal, if there is one, spelled out.
    fn plain(&self, line: &str) -> String {
        line.to_string()
    }
    /// What separates the segments of a module, what is put behind them, and the ways to import a symbol
    /// (the last argument is a name which is used nowhere else).
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>);
    /// Modules and names which are special to the language.
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&[], &[])
    }
    /// Whether there is a text in the configuration, and what is put behind a module for it.
    fn text_conf(&self) -> &'static [&'static str] {
        &[]
    }
    /// How many modifiers there are, and their application, in sequence, to one of three symbols (the
    /// first two come from the same module). Says what is meant by the result.
    fn nmods(&self) -> u8 {
        0
    }
    fn put_modified(&self, _t: &mut Tokens<Self::L>, _s: usize, _mods: &[u8], _own: bool, _reg: bool) -> Ref {
        unreachable!()
    }
    /// Opening and closing of a block around the body.
    fn block(&self, _conf: usize) -> Option<String> {
        None
    }
}

/// A different alias for each symbol and position.
const AL: [[&str; 6]; 3] = [
    ["xa0", "xb0", "xc0", "xd0", "xe0", "xf0"],
    ["xa1", "xb1", "xc1", "xd1", "xe1", "xf1"],
    ["xa2", "xb2", "xc2", "xd2", "xe2", "xf2"],
];

fn istr(s: &'static str, own: bool) -> ItemStr {
    if own {
        ItemStr::Box(s.into())
    } else {
        ItemStr::Static(s)
    }
}

fn fmt_file<L: Lang>(t: &Tokens<L>, c: &L::Config, f: &fmt::Config) -> Result<String, String> {
    rendered(|| {
        let mut w = fmt::FmtWriter::new(String::new());
        let mut out = w.as_formatter(f);
        t.format_file(&mut out, c)?;
        if TWICE.with(|t| t.get()) {
            t.format_file(&mut out, c)?;
        }
        Ok(w.into_inner())
    })
}

thread_local! {
    /// Whether files are written two times, with one formatter.
    static TWICE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// What the text in the configuration is, where it's not one of the numbered ones.
    static CONF: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
}
/// The configuration with the text in `CONF`.
const DYN: usize = 1000;

fn conf_text(fixed: &[Option<&'static str>], conf: usize) -> Option<&'static str> {
    match conf {
        DYN => Some(CONF.with(|c| c.get())),
        n => fixed[n],
    }
}

fn show_conf(conf: usize) -> String {
    match conf {
        DYN => format!("({})", CONF.with(|c| c.get())),
        n => n.to_string(),
    }
}

/// By value or by reference.
macro_rules! add {
    ($t:expr, $i:expr, $reg:expr, $own:expr) => {{
        let i = $i;
        match ($reg, $own) {
            (true, true) => $t.register(i),
            (true, false) => $t.register(&i),
            (false, true) => $t.append(i),
            (false, false) => $t.append(&i),
        }
    }};
}

fn last<'a>(s: &'a str, sep: &str) -> &'a str {
    s.rsplit(sep).next().unwrap()
}

fn one(s: impl Into<String>) -> BTreeSet<String> {
    std::iter::once(s.into()).collect()
}

fn single(e: &Env, k: &str) -> Result<String, String> {
    match e.get(k) {
        None => Err(format!("`{k}` is not bound by the header")),
        Some(s) if s.len() == 1 => Ok(s.iter().next().unwrap().clone()),
        Some(s) => Err(format!("`{k}` is bound to several things: {s:?}")),
    }
}

fn spelled_out(la: La, line: &str) -> String {
    let (Some(a), Some(b)) = (line.find('"'), line.rfind('"')) else { return line.to_string() };
    let text = match crate::quoting::read(la, &line[a..=b]).as_deref() {
        Ok([crate::quoting::Part::Text(t)]) if la == La::Go => t.iter().map(|b| u8::try_from(*b).ok()).collect::<Option<Vec<u8>>>().and_then(|t| String::from_utf8(t).ok()),
        Ok([crate::quoting::Part::Text(t)]) => t.iter().map(|u| u16::try_from(*u).ok()).collect::<Option<Vec<u16>>>().and_then(|t| String::from_utf16(&t).ok()),
        _ => None,
    };
    match text {
        Some(t) => format!("{}\"{t}\"{}", &line[..a], &line[b + 1..]),
        None => line.to_string(),
    }
}

fn unquote(s: &str) -> Result<String, String> {
    let s = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).ok_or_else(|| format!("not quoted: {s}"))?;
    if s.contains(['"', '\\']) {
        return Err(format!("odd characters in {s}"));
    }
    Ok(s.to_string())
}

// ---------------------------------------------------------------- Rust

pub struct RustL;
/// k: 0 default, 1 direct, 2 qualified; order of modifiers: +4 alias before mode, else after
impl RustL {
    fn mode(&self, r: &Ref, conf: usize) -> u8 {
        // 1 direct, 2 qualified, 3 module alias
        if r.ma.is_some() {
            return 3;
        }
        match r.k {
            1 => 1,
            2 => 2,
            // an alias makes it direct
            _ if r.a.is_some() => 1,
            _ => {
                if conf == 0 {
                    1
                } else {
                    2
                }
            }
        }
    }
}
impl Lg for RustL {
    type L = Rust;
    const LA: La = La::Rust;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("std::fmt", "Debug"),
            r("std::fmt", "Display"),
            r("std::fmt", "Debug").k(1),
            r("std::fmt", "Debug").k(2),
            r("std::fmt", "Display").k(2),
            r("std::fmt", "Debug").a("Dbg"),
            r("std::fmt", "Debug").a("Adbg"),
            r("std::fmt", "Debug").ma("f"),
            r("std::fmt", "Display").ma("af"),
            r("std::fmt", "Debug").ma("f").k(2),
            r("std::fmt", "Debug").ma("f").a("Q"),
            r("std::fmt", "Debug").a("Q2").k(2),
            r("std::fmt", "Write").a("FmtWrite").k(1),
            r("std::io", "Write"),
            r("std::io", "Result").k(2),
            r("std::io", "Read").a("R"),
            r("rand", "Rng"),
            r("rand", "Rng").k(2),
            r("rand", "Seed").ma("rd"),
            r("rand", "Seed").a("Seedy"),
            r("a::b::c", "Z").k(2),
            r("a", "b").k(1),
            r("core::fmt", "Debug").k(2),
            r("core::fmt", "Debug").a("CoreDebug"),
        ]
    }
    fn nconf(&self) -> usize {
        2
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        ("::", "", vec![|r, _| r, |r, a| r.a(a), |r, _| r.k(1), |r, _| r.k(2), |r, a| r.ma(a), |r, a| r.a(a).k(2)])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["crate", "crate::z", "super::z", "r#type::z", "z::r#type", "std::core::alloc", "alloc", "self::z", "z::self_"], &["r#type", "r#X", "A0", "Self_"])
    }
    fn twins(&self) -> Vec<Ref> {
        let mut v = product(
            &["b", "a::b", "a", "a::b::c", "ab", "crate::b", "a1"],
            &["X", "b"],
            &[|r| r, |r| r.k(1), |r| r.k(2), |r| r.a("q"), |r| r.ma("q")],
        );
        v.extend([r("a", "X").a("X"), r("a", "X").a("b"), r("a::b", "X").a("X"), r("a::b", "X").ma("b"), r("a::b", "b").a("b"), r("a", "b").a("c")]);
        v.extend([r("a::b::c", "X").ma("c"), r("a::b::c", "X").ma("b"), r("a::b", "c"), r("a::b", "c").a("q"), r("a::b", "c").a("c")]);
        v
    }
    fn nmods(&self) -> u8 {
        4
    }
    fn put_modified(&self, t: &mut Tokens<Rust>, s: usize, mods: &[u8], own: bool, reg: bool) -> Ref {
        let (m, n) = [("std::fmt", "Sym0"), ("std::fmt", "Sym1"), ("other::place", "Sym2")][s];
        let mut i = rust::import(istr(m, own), istr(n, own));
        for (p, k) in mods.iter().enumerate() {
            i = match k {
                0 => i.with_alias(istr(AL[s][p], own)),
                1 => i.with_module_alias(istr(AL[s][p], own)),
                2 => i.direct(),
                _ => i.qualified(),
            };
        }
        add!(t, i, reg, own);
        r(m, n)
    }
    fn put(&self, t: &mut Tokens<Rust>, r: &Ref, own: bool, reg: bool) {
        let mut i = rust::import(istr(r.m, own), istr(r.n, own));
        if let Some(a) = r.a {
            i = i.with_alias(istr(a, own));
        }
        if let Some(a) = r.ma {
            i = i.with_module_alias(istr(a, own));
        }
        match r.k {
            1 => i = i.direct(),
            2 => i = i.qualified(),
            _ => {}
        }
        add!(t, i, reg, own)
    }
    fn file(&self, t: &Tokens<Rust>, conf: usize, f: &fmt::Config) -> Result<String, String> {
        let mut c = rust::Config::default();
        if conf == 1 {
            c = c.with_default_import(rust::ImportMode::Qualified);
        }
        fmt_file(t, &c, f)
    }
    fn header(&self, set: &Set, conf: usize) -> Vec<Vec<String>> {
        // module -> (self, aliases, names)
        let mut m: BTreeMap<&str, (bool, BTreeSet<&str>, BTreeSet<(&str, Option<&str>)>)> = BTreeMap::new();
        for r in set {
            let e = m.entry(r.m).or_default();
            // An alias which is the name is none.
            match self.mode(r, conf) {
                1 => {
                    e.2.insert((r.n, r.a.filter(|a| *a != r.n)));
                }
                2 => e.0 |= r.m.contains("::"),
                _ if r.m.ends_with(&format!("::{}", r.ma.unwrap())) => e.0 = true,
                _ => {
                    e.1.insert(r.ma.unwrap());
                }
            }
        }
        // Modules which are imported by name, from their parents.
        let by_name: BTreeSet<(String, Option<&str>)> =
            m.iter().flat_map(|(m, e)| e.2.iter().map(move |(n, a)| (format!("{m}::{n}"), *a))).collect();
        let mut out = vec![];
        for (m, (own, aliases, names)) in m {
            let mut parts: Vec<(String, String)> = vec![];
            if own && !by_name.contains(&(m.to_string(), None)) {
                parts.push(("self".into(), m.to_string()));
            }
            for a in aliases.into_iter().filter(|a| !by_name.contains(&(m.to_string(), Some(a)))) {
                parts.push((format!("self as {a}"), format!("{m} as {a}")));
            }
            for (n, a) in names {
                let s = match a {
                    Some(a) => format!("{n} as {a}"),
                    None => n.to_string(),
                };
                parts.push((s.clone(), format!("{m}::{s}")));
            }
            match parts.len() {
                0 => {}
                1 => out.push(format!("use {};", parts[0].1)),
                _ => out.push(format!("use {m}::{{{}}};", parts.iter().map(|p| &*p.0).collect::<Vec<_>>().join(", "))),
            }
        }
        vec![out]
    }
    fn shown(&self, r: &Ref, _: &Set, conf: usize) -> String {
        match self.mode(r, conf) {
            1 => r.a.unwrap_or(r.n).to_string(),
            2 => format!("{}::{}", last(r.m, "::"), r.n),
            _ => format!("{}::{}", r.ma.unwrap(), r.n),
        }
    }
    fn target(&self, r: &Ref) -> String {
        format!("{}::{}", r.m, r.n)
    }
    fn locals(&self, r: &Ref, conf: usize) -> Vec<(String, String)> {
        vec![match self.mode(r, conf) {
            1 => (r.a.unwrap_or(r.n).to_string(), self.target(r)),
            2 => (last(r.m, "::").to_string(), r.m.to_string()),
            _ => (r.ma.unwrap().to_string(), r.m.to_string()),
        }]
    }
    fn resolve(&self, header: &[&str], shown: &str, _: &Set, _: usize) -> Result<BTreeSet<String>, String> {
        let mut e = Env::new();
        for l in header {
            let p = l.strip_prefix("use ").and_then(|l| l.strip_suffix(';')).ok_or_else(|| format!("not a use: {l}"))?;
            let mut leaf = |path: &str| -> Result<(), String> {
                let (p, n) = match path.split_once(" as ") {
                    Some((p, n)) => (p, n.to_string()),
                    None => (path, last(path.trim_end_matches("::self"), "::").to_string()),
                };
                bind_once(&mut e, &n, p.trim_end_matches("::self").to_string())
            };
            match p.split_once("::{") {
                Some((m, rest)) => {
                    let rest = rest.strip_suffix('}').ok_or("unbalanced")?;
                    for x in rest.split(", ") {
                        leaf(&format!("{m}::{x}"))?;
                    }
                }
                None => {
                    // `use a::b::self;` is an error, and so is `use rand;` (redundant, but harmless)
                    if p.ends_with("self") {
                        return Err(format!("self outside of a group: {l}"));
                    }
                    leaf(p)?
                }
            }
        }
        let mut segs = shown.splitn(2, "::");
        let first = segs.next().unwrap();
        let base = match (single(&e, first), segs.next()) {
            (Ok(p), None) => p,
            (Ok(p), Some(rest)) => format!("{p}::{rest}"),
            // a crate of that name
            (Err(_), Some(_)) if !e.contains_key(first) => shown.to_string(),
            (Err(e), _) => return Err(e),
        };
        Ok(one(base))
    }
}

// ---------------------------------------------------------------- Java

pub struct JavaL;
const JPKG: [Option<&str>; 8] = [None, Some("p.own"), Some("q.z"), Some("java.lang"), Some("b"), Some("a.b"), Some("a"), Some("c")];
fn jpkg(conf: usize) -> Option<&'static str> {
    conf_text(&JPKG, conf)
}
impl Lg for JavaL {
    type L = Java;
    const LA: La = La::Java;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("java.lang", "A"),
            r("java.lang", "B"),
            r("java.lang", "Integer"),
            r("p.own", "A"),
            r("p.own", "B"),
            r("p.own", "C"),
            r("java.util", "A"),
            r("java.util", "C"),
            r("java.util", "List"),
            r("q.z", "A"),
            r("q.z", "B"),
            r("q.z", "List"),
            r("a.first", "A"),
            r("a.first", "Integer"),
            r("a", "first"),
            r("java.lang.reflect", "A"),
            r("java.lang.reflect", "M"),
        ]
    }
    fn nconf(&self) -> usize {
        4
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        (".", "", vec![|r, _| r])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["javax.lang", "java.lang.z", "z.java.lang", "java.lan", "lang", "java", "a$b.z", "com.z.Outer"], &["$x", "a$b", "x$", "A$B", "String", "Object"])
    }
    fn text_conf(&self) -> &'static [&'static str] {
        &[""]
    }
    fn twins(&self) -> Vec<Ref> {
        product(&["b", "a.b", "a", "a.b.c", "ab", "B", "b.a", "a$b", "java.lang", "java.langs"], &["X", "x", "b", "XX"], &[|r| r])
    }
    fn twin_confs(&self) -> Vec<usize> {
        vec![0, 3, 4, 5, 6, 7]
    }
    fn put(&self, t: &mut Tokens<Java>, r: &Ref, own: bool, reg: bool) {
        add!(t, java::import(istr(r.m, own), istr(r.n, own)), reg, own)
    }
    fn file(&self, t: &Tokens<Java>, conf: usize, f: &fmt::Config) -> Result<String, String> {
        let mut c = java::Config::default();
        if let Some(p) = jpkg(conf) {
            c = c.with_package(p);
        }
        fmt_file(t, &c, f)
    }
    fn preamble(&self, conf: usize) -> Vec<String> {
        jpkg(conf).map(|p| format!("package {p};")).into_iter().collect()
    }
    fn header(&self, set: &Set, conf: usize) -> Vec<Vec<String>> {
        let mut taken: BTreeSet<&str> = BTreeSet::new();
        for r in set {
            if Some(r.m) == jpkg(conf) || r.m == "java.lang" {
                taken.insert(r.n);
            }
        }
        let mut out = vec![];
        for r in set {
            if taken.insert(r.n) {
                out.push(format!("import {}.{};", r.m, r.n));
            }
        }
        vec![out]
    }
    fn shown(&self, r: &Ref, set: &Set, conf: usize) -> String {
        // Which reference owns the short name: the file's package, java.lang, the first one.
        let owner = set
            .iter()
            .filter(|x| x.n == r.n)
            .map(|x| x.m)
            .min_by_key(|m| (Some(*m) != jpkg(conf), *m != "java.lang", *m));
        if owner == Some(r.m) {
            r.n.to_string()
        } else {
            format!("{}.{}", r.m, r.n)
        }
    }
    fn fragment(&self, r: &Ref) -> String {
        // Nothing is imported.
        match r.m {
            "java.lang" => r.n.to_string(),
            m => format!("{m}.{}", r.n),
        }
    }
    fn target(&self, r: &Ref) -> String {
        format!("{}.{}", r.m, r.n)
    }
    fn locals(&self, _: &Ref, _: usize) -> Vec<(String, String)> {
        vec![]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, conf: usize) -> Result<BTreeSet<String>, String> {
        let mut e = Env::new();
        for l in header {
            if *l == self.preamble(conf).concat() || l.is_empty() {
                continue;
            }
            let p = l.strip_prefix("import ").and_then(|l| l.strip_suffix(';')).ok_or_else(|| format!("not an import: {l}"))?;
            bind(&mut e, last(p, "."), p.to_string());
        }
        if shown.contains('.') {
            return Ok(one(shown));
        }
        if e.contains_key(shown) {
            return single(&e, shown).map(one);
        }
        for pkg in [jpkg(conf), Some("java.lang")].into_iter().flatten() {
            if uni.iter().any(|r| r.m == pkg && r.n == shown) {
                return Ok(one(format!("{pkg}.{shown}")));
            }
        }
        Err(format!("`{shown}` is not bound"))
    }
}

// ---------------------------------------------------------------- C#

pub struct CsL;
const CNS: [Option<&str>; 9] =
    [None, Some("Foo.Own"), Some("Foo"), Some("Zed"), Some("A.B"), Some("B"), Some("A"), Some("A.B.C"), Some("C")];
fn cns(conf: usize) -> Option<&'static str> {
    conf_text(&CNS, conf)
}
fn enclosing(conf: usize) -> Vec<&'static str> {
    let mut v = vec![];
    let mut n = cns(conf);
    while let Some(x) = n {
        v.push(x);
        n = x.rsplit_once('.').map(|x| x.0);
    }
    v
}
impl Lg for CsL {
    type L = Csharp;
    const LA: La = La::Csharp;
    fn pool(&self) -> Vec<Ref> {
        // k: 1 qualified
        vec![
            r("Foo.Bar", "A"),
            r("Foo.Bar", "B"),
            r("Foo.Bar", "Only1"),
            r("Foo.Bar", "A").k(1),
            r("Foo.Baz", "A"),
            r("Foo.Baz", "B"),
            r("Foo.Baz", "Only2"),
            r("Foo.Baz", "Only3").k(1),
            r("Foo.Own", "A"),
            r("Foo.Own", "B"),
            r("Foo.Own", "Own1"),
            r("Foo", "A"),
            r("Foo", "Outer"),
            r("Alpha", "A"),
            r("Alpha", "Outer"),
            r("Alpha", "First"),
            r("Zed", "A"),
            r("Zed", "Last"),
            r("Zed", "B").k(1),
        ]
    }
    fn nconf(&self) -> usize {
        4
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        (".", "", vec![|r, _| r, |r, _| r.k(1)])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["System", "System.z", "z.System", "@type.z", "global"], &["@type", "String", "List"])
    }
    fn text_conf(&self) -> &'static [&'static str] {
        &[""]
    }
    fn twins(&self) -> Vec<Ref> {
        product(&["B", "A.B", "A", "A.B.C", "AB", "b", "B.A"], &["X", "x", "B", "XX"], &[|r| r, |r| r.k(1)])
    }
    fn twin_confs(&self) -> Vec<usize> {
        vec![0, 4, 5, 6, 7, 8]
    }
    fn nmods(&self) -> u8 {
        1
    }
    fn put_modified(&self, t: &mut Tokens<Csharp>, s: usize, mods: &[u8], own: bool, reg: bool) -> Ref {
        let (m, n) = [("Foo.Bar", "Sym0"), ("Foo.Bar", "Sym1"), ("Other", "Sym2")][s];
        let mut i = csharp::import(istr(m, own), istr(n, own));
        for _ in mods {
            i = i.qualified();
        }
        add!(t, i, reg, own);
        r(m, n)
    }
    fn put(&self, t: &mut Tokens<Csharp>, r: &Ref, own: bool, reg: bool) {
        let mut i = csharp::import(istr(r.m, own), istr(r.n, own));
        if r.k == 1 {
            i = i.qualified();
        }
        add!(t, i, reg, own)
    }
    fn file(&self, t: &Tokens<Csharp>, conf: usize, f: &fmt::Config) -> Result<String, String> {
        let mut c = csharp::Config::default();
        if let Some(p) = cns(conf) {
            c = c.with_namespace(p);
        }
        fmt_file(t, &c, f)
    }
    fn block(&self, conf: usize) -> Option<String> {
        cns(conf).map(|n| format!("namespace {n} {{"))
    }
    fn header(&self, set: &Set, conf: usize) -> Vec<Vec<String>> {
        vec![self.usings(set, conf).0.iter().map(|n| format!("using {n};")).collect()]
    }
    fn shown(&self, r: &Ref, set: &Set, conf: usize) -> String {
        let (usings, owner) = self.usings(set, conf);
        let enc = enclosing(conf);
        let short = r.k == 0
            && owner.get(r.n) == Some(&r.m)
            && (enc.contains(&r.m) || !set.iter().any(|x| x.n == r.n && x.m != r.m && usings.contains(x.m)));
        if short {
            r.n.to_string()
        } else {
            format!("{}.{}", r.m, r.n)
        }
    }
    fn fragment(&self, r: &Ref) -> String {
        match r.k {
            1 => format!("{}.{}", r.m, r.n),
            _ => r.n.to_string(),
        }
    }
    fn target(&self, r: &Ref) -> String {
        format!("{}.{}", r.m, r.n)
    }
    fn locals(&self, _: &Ref, _: usize) -> Vec<(String, String)> {
        vec![]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, conf: usize) -> Result<BTreeSet<String>, String> {
        let mut usings = vec![];
        for l in header {
            let p = l.strip_prefix("using ").and_then(|l| l.strip_suffix(';')).ok_or_else(|| format!("not a using: {l}"))?;
            usings.push(p);
        }
        if shown.contains('.') {
            return Ok(one(shown));
        }
        for ns in enclosing(conf) {
            if uni.iter().any(|r| r.m == ns && r.n == shown) {
                return Ok(one(format!("{ns}.{shown}")));
            }
        }
        let c: BTreeSet<String> =
            uni.iter().filter(|r| r.n == shown && usings.contains(&r.m)).map(|r| format!("{}.{}", r.m, r.n)).collect();
        match c.len() {
            0 => Err(format!("`{shown}` is not bound")),
            1 => Ok(c),
            _ => Err(format!("`{shown}` is ambiguous: {c:?}")),
        }
    }
}
impl CsL {
    /// The namespaces to use, and who owns each short name.
    fn usings<'a>(&self, set: &Set, conf: usize) -> (BTreeSet<&'a str>, BTreeMap<&'a str, &'a str>) {
        let mut owner: BTreeMap<&'a str, &'a str> = BTreeMap::new();
        for ns in enclosing(conf) {
            for r in set.iter().filter(|r| r.m == ns) {
                owner.entry(r.n).or_insert(ns);
            }
        }
        let mut out = BTreeSet::new();
        let names: BTreeSet<(&'a str, &'a str)> = set.iter().map(|r| (r.m, r.n)).collect();
        for (m, n) in names {
            if !owner.contains_key(n) {
                owner.insert(n, m);
                out.insert(m);
            }
        }
        (out, owner)
    }
}

// ---------------------------------------------------------------- Dart

pub struct DartL;
impl Lg for DartL {
    type L = Dart;
    const LA: La = La::Dart;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("dart:core", "int"),
            r("dart:core", "String"),
            r("dart:core", "String").a("core"),
            r("dart:core", "int").a("core2"),
            r("dart:math", "Random"),
            r("dart:math", "Point"),
            r("dart:math", "Random").a("m"),
            r("dart:math", "Point").a("math"),
            r("package:http/http.dart", "Client"),
            r("package:http/http.dart", "Client").a("http"),
            r("package:http/http.dart", "get").a("m"),
            r("a.dart", "A"),
            r("a.dart", "Point"),
            r("a.dart", "A").a("a"),
            r("Z.dart", "Zed").a("a"),
            r("Z.dart", "B"),
        ]
    }
    fn plain(&self, line: &str) -> String {
        spelled_out(Self::LA, line)
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        ("/", ".dart", vec![|r, a| r.a(a), |r, _| r])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["package:a_b/c.dart", "dart:io", "dart:", "dart:core.dart", "package:dart:core", "x-y.dart", "../x.dart", "./x.dart", "x", "package:core/core.dart"], &["$x", "a$b", "x$", "_$X"])
    }
    fn twins(&self) -> Vec<Ref> {
        product(&["b.dart", "a/b.dart", "a-b.dart", "package:a/b.dart", "dart:core", "dart:cores", "B.dart"], &["X", "b"], &[|r| r, |r| r.a("q"), |r| r.a("X")])
    }
    fn nmods(&self) -> u8 {
        1
    }
    fn put_modified(&self, t: &mut Tokens<Dart>, s: usize, mods: &[u8], own: bool, reg: bool) -> Ref {
        let (m, n) = [("a.dart", "Sym0"), ("a.dart", "Sym1"), ("b.dart", "Sym2")][s];
        let mut i = dart::import(istr(m, own), istr(n, own));
        for p in 0..mods.len() {
            i = i.with_alias(istr(AL[s][p], own));
        }
        add!(t, i, reg, own);
        match mods.len() {
            0 => r(m, n),
            l => r(m, n).a(AL[s][l - 1]),
        }
    }
    fn put(&self, t: &mut Tokens<Dart>, r: &Ref, own: bool, reg: bool) {
        let mut i = dart::import(istr(r.m, own), istr(r.n, own));
        if let Some(a) = r.a {
            i = i.with_alias(istr(a, own));
        }
        add!(t, i, reg, own)
    }
    fn file(&self, t: &Tokens<Dart>, _: usize, f: &fmt::Config) -> Result<String, String> {
        fmt_file(t, &dart::Config::default(), f)
    }
    fn header(&self, set: &Set, _: usize) -> Vec<Vec<String>> {
        let mut s: BTreeSet<(&str, Option<&str>)> = BTreeSet::new();
        for r in set {
            if r.m != "dart:core" {
                s.insert((r.m, r.a));
            } else if r.a.is_some() {
                // An explicit import of the core library replaces the implicit one.
                s.insert((r.m, r.a));
                s.insert((r.m, None));
            }
        }
        vec![s
            .into_iter()
            .map(|(m, a)| match a {
                Some(a) => format!("import \"{m}\" as {a};"),
                None => format!("import \"{m}\";"),
            })
            .collect()]
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        match r.a {
            Some(a) => format!("{a}.{}", r.n),
            None => r.n.to_string(),
        }
    }
    fn locals(&self, r: &Ref, c: usize) -> Vec<(String, String)> {
        vec![(self.shown(r, &Set::new(), c), self.target(r))]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, _: usize) -> Result<BTreeSet<String>, String> {
        let mut e = Env::new();
        let mut explicit_core = false;
        for l in header {
            let p = l.strip_prefix("import ").and_then(|l| l.strip_suffix(';')).ok_or_else(|| format!("not an import: {l}"))?;
            let (p, a) = match p.split_once(" as ") {
                Some((p, a)) => (unquote(p)?, a.to_string()),
                None => (unquote(p)?, String::new()),
            };
            explicit_core |= p == "dart:core";
            bind(&mut e, &a, p);
        }
        if !explicit_core {
            bind(&mut e, "", "dart:core".into());
        }
        let (prefix, name) = shown.split_once('.').unwrap_or(("", shown));
        let libs = e.get(prefix).cloned().unwrap_or_default();
        // A library provides every name asked of it under this prefix. (That it
        // may provide others as well, which only clash because of what the user
        // asked for, is not considered.)
        let c: BTreeSet<String> = uni.iter().filter(|r| r.n == name && r.a.unwrap_or("") == prefix && libs.contains(r.m)).map(|r| self.target(r)).collect();
        match c.len() {
            1 => Ok(c),
            _ => Err(format!("`{shown}` resolves to {c:?}")),
        }
    }
}

// ---------------------------------------------------------------- Go

pub struct GoL;
const GPKG: [Option<&str>; 2] = [None, Some("own")];
impl Lg for GoL {
    type L = Go;
    const LA: La = La::Go;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("fmt", "Println"),
            r("fmt", "Sprintf"),
            r("foo/fmt", "X"),
            r("foo/bar", "A"),
            r("foo/bar", "B"),
            r("foo", "C"),
            r("github.com/u/proj", "D"),
            r("a/b/c/d", "E"),
            r("Zeta", "F"),
        ]
    }
    fn nconf(&self) -> usize {
        2
    }
    fn plain(&self, line: &str) -> String {
        spelled_out(Self::LA, line)
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        ("/", "", vec![|r, _| r])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["x-y", "z/x-y", "gopkg.in/yaml", "z/v2", "z~w/x", "C", "./x", "../x", "golang.org/x/net"], &["XxX"])
    }
    fn text_conf(&self) -> &'static [&'static str] {
        &[""]
    }
    fn twins(&self) -> Vec<Ref> {
        product(&["b", "a/b", "ab", "a/bb", "b/a", "a", "a-b", "a/b/c", "B"], &["X", "b", "x"], &[|r| r])
    }
    fn put(&self, t: &mut Tokens<Go>, r: &Ref, own: bool, reg: bool) {
        add!(t, go::import(istr(r.m, own), istr(r.n, own)), reg, own)
    }
    fn file(&self, t: &Tokens<Go>, conf: usize, f: &fmt::Config) -> Result<String, String> {
        let mut c = go::Config::default();
        if let Some(p) = conf_text(&GPKG, conf) {
            c = c.with_package(p);
        }
        fmt_file(t, &c, f)
    }
    fn preamble(&self, conf: usize) -> Vec<String> {
        conf_text(&GPKG, conf).map(|p| format!("package {p}")).into_iter().collect()
    }
    fn header(&self, set: &Set, _: usize) -> Vec<Vec<String>> {
        let s: BTreeSet<&str> = set.iter().map(|r| r.m).collect();
        vec![s.into_iter().map(|m| format!("import \"{m}\"")).collect()]
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        format!("{}.{}", last(r.m, "/"), r.n)
    }
    fn locals(&self, r: &Ref, _: usize) -> Vec<(String, String)> {
        vec![(last(r.m, "/").into(), r.m.into())]
    }
    fn resolve(&self, header: &[&str], shown: &str, _: &Set, conf: usize) -> Result<BTreeSet<String>, String> {
        let mut e = Env::new();
        for l in header {
            if *l == self.preamble(conf).concat() || l.is_empty() {
                continue;
            }
            let p = unquote(l.strip_prefix("import ").ok_or_else(|| format!("not an import: {l}"))?)?;
            bind_once(&mut e, last(&p, "/"), p.clone())?;
        }
        let (m, n) = shown.rsplit_once('.').ok_or("not qualified")?;
        Ok(one(format!("{}|{n}", single(&e, m)?)))
    }
}

// ---------------------------------------------------------------- JavaScript

pub struct JsL;
const JPATH: [Option<&str>; 2] = [None, Some("foo/baz.js")];
fn relative(base: &str, path: &str) -> String {
    let mut b: Vec<&str> = base.split('/').collect();
    let mut p: Vec<&str> = path.split('/').collect();
    while b.first().is_some() && b.first() == p.first() {
        b.remove(0);
        p.remove(0);
    }
    b.iter().map(|_| "..").chain(p).collect::<Vec<_>>().join("/")
}
/// k: 0 named, 1 default, 2 wildcard; +4: the module is a path; v: order of modifiers
impl Lg for JsL {
    type L = JavaScript;
    const LA: La = La::Js;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("collections", "vec"),
            r("collections", "map"),
            r("collections", "vec").a("list"),
            r("collections", "vec").a("array"),
            r("collections", "map").a("apple"),
            r("collections", "def").k(1),
            r("collections", "other").k(1),
            r("collections", "all").k(2),
            r("collections", "every").k(2),
            r("react", "React").k(1),
            r("react", "R2").k(1),
            r("react", "useState"),
            r("react", "W").k(2),
            // modifiers overriding each other
            r("collections", "set").a("oldset").k(1).v(1),
            r("collections", "wset").k(2).a("newset").v(2),
            r("collections", "default").a("viaName"),
            r("foo/bar.js", "Foo1").k(4),
            r("foo/bar.js", "Foo2").k(5),
            r("foo/bar.js", "Foo3").k(6),
            r("lib.js", "Lib").k(4),
            r("react", "PathReact").k(4),
        ]
    }
    fn nconf(&self) -> usize {
        2
    }
    fn plain(&self, line: &str) -> String {
        spelled_out(Self::LA, line)
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        ("/", "", vec![|r, _| r, |r, a| r.a(a), |r, _| r.k(1), |r, _| r.k(2), |r, _| Ref { m: leak(format!("path/{}", r.m.replace("../", "").replace("./", "").replace("//", "/"))), ..r.k(4) }])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["@s/m", "a.b", "./x", "../x", "./x/y", "x-y", "node:fs", "z.js", "z.mjs", "@s", "https://z/y.js"], &["$x", "a$b", "_$", "$"])
    }
    fn text_conf(&self) -> &'static [&'static str] {
        &["", ".js"]
    }
    fn twins(&self) -> Vec<Ref> {
        let mut v = product(
            &["b", "a/b", "@a/b", "a-b"],
            &["X", "b"],
            &[|r| r, |r| r.k(1), |r| r.k(2), |r| r.a("q"), |r| r.a("X"), |r| Ref { n: "default", ..r.a(r.n) }],
        );
        v.extend(product(&["b.js", "foo/b.js", "foob/b.js", "a/foo/b.js"], &["X", "b"], &[|r| r.k(4), |r| r.k(5), |r| r.k(6), |r| r.k(4).a("q")]));
        v
    }
    fn nmods(&self) -> u8 {
        3
    }
    fn put_modified(&self, t: &mut Tokens<JavaScript>, s: usize, mods: &[u8], own: bool, reg: bool) -> Ref {
        let (m, n) = [("mod", "Sym0"), ("mod", "Sym1"), ("other", "Sym2")][s];
        let mut i = js::import(js::Module::Global(istr(m, own)), istr(n, own));
        for (p, k) in mods.iter().enumerate() {
            i = match k {
                0 => i.with_alias(istr(AL[s][p], own)),
                1 => i.into_default(),
                _ => i.into_wildcard(),
            };
        }
        add!(t, i, reg, own);
        // the last one decides
        r(m, n).k(mods.last().copied().unwrap_or(0))
    }
    fn put(&self, t: &mut Tokens<JavaScript>, r: &Ref, own: bool, reg: bool) {
        let m = if r.k & 4 != 0 { js::Module::Path(r.m.into()) } else { js::Module::Global(istr(r.m, own)) };
        let mut i = js::import(m, istr(r.n, own));
        if r.v != 2 {
            if let Some(a) = r.a {
                i = i.with_alias(istr(a, own));
            }
        }
        match r.k & 3 {
            1 => i = i.into_default(),
            2 => i = i.into_wildcard(),
            _ => {}
        }
        if r.v == 2 {
            if let Some(a) = r.a {
                i = i.with_alias(istr(a, own));
            }
        }
        add!(t, i, reg, own)
    }
    fn file(&self, t: &Tokens<JavaScript>, conf: usize, f: &fmt::Config) -> Result<String, String> {
        let mut c = js::Config::default();
        if let Some(p) = conf_text(&JPATH, conf) {
            c = c.with_module_path(p);
        }
        fmt_file(t, &c, f)
    }
    fn header(&self, set: &Set, conf: usize) -> Vec<Vec<String>> {
        let from = |r: &(bool, &str)| -> String {
            match (r.0, conf_text(&JPATH, conf)) {
                (true, Some(base)) => relative(base, r.1),
                _ => r.1.to_string(),
            }
        };
        // paths sort before names, and by their components
        fn key<'a>(path: bool, m: &'a str) -> (bool, Vec<&'a str>, &'a str) {
            (!path, if path { m.split('/').collect() } else { vec![] }, m)
        }
        let mut wild: BTreeSet<((bool, Vec<&str>, &str), &str)> = BTreeSet::new();
        type M<'a> = (BTreeSet<&'a str>, BTreeSet<(bool, &'a str, &'a str)>);
        let mut mods: BTreeMap<(bool, Vec<&str>, &str), M<'_>> = BTreeMap::new();
        for r in set {
            let m = key(r.k & 4 != 0, r.m);
            match self.kind(r) {
                0 => {
                    // An alias which is the name is none.
                    let e = match self.alias(r) {
                        Some(a) if a != r.n => (true, r.n, a),
                        _ => (false, r.n, ""),
                    };
                    mods.entry(m).or_default().1.insert(e);
                }
                1 => {
                    mods.entry(m).or_default().0.insert(r.n);
                }
                _ => {
                    wild.insert((m, r.n));
                }
            }
        }
        let mut out = vec![];
        for ((g, _, m), n) in wild {
            out.push(format!("import * as {n} from \"{}\";", from(&(!g, m))));
        }
        for ((g, _, m), (defaults, names)) in mods {
            let mut parts = vec![];
            let mut braces: Vec<String> = vec![];
            // Imported as default already.
            let names: Vec<_> = names.into_iter().filter(|(_, n, a)| *n != "default" || !defaults.contains(a)).collect();
            let mut d = defaults.into_iter();
            if let Some(d) = d.next() {
                parts.push(d.to_string());
            }
            // Only one default import can be written as such.
            braces.extend(d.map(|d| format!("default as {d}")));
            braces.extend(names.into_iter().map(|(al, n, a)| if al { format!("{n} as {a}") } else { n.to_string() }));
            if !braces.is_empty() {
                parts.push(format!("{{{}}}", braces.join(", ")));
            }
            out.push(format!("import {} from \"{}\";", parts.join(", "), from(&(!g, m))));
        }
        vec![out]
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        self.alias(r).unwrap_or(r.n).to_string()
    }
    fn canon(&self, t: &str, conf: usize) -> String {
        // Without a path of the file, paths are written like any other name.
        match t.strip_prefix("path:") {
            Some(t) if conf == 0 => t.to_string(),
            _ => t.to_string(),
        }
    }
    fn target(&self, r: &Ref) -> String {
        let m = if r.k & 4 != 0 { format!("path:{}", r.m) } else { r.m.to_string() };
        match self.kind(r) {
            0 => format!("{m}|{}", r.n),
            1 => format!("{m}|default"),
            _ => format!("{m}|*"),
        }
    }
    fn locals(&self, r: &Ref, c: usize) -> Vec<(String, String)> {
        vec![(self.shown(r, &Set::new(), c), self.target(r))]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, conf: usize) -> Result<BTreeSet<String>, String> {
        let mut e = Env::new();
        let mut once = Env::new();
        for l in header {
            let l = l.strip_prefix("import ").and_then(|l| l.strip_suffix(';')).ok_or_else(|| format!("not an import: {l}"))?;
            for b in l.rsplit_once(" from ").map_or("", |l| l.0).split(['{', '}', ',']).filter(|b| !b.trim().is_empty()) {
                bind_once(&mut once, last(b.trim(), " as "), String::new())?;
            }
            let (what, from) = l.rsplit_once(" from ").ok_or("no from")?;
            let from = unquote(from)?;
            let mut module = BTreeSet::new();
            for r in uni {
                if r.k & 4 == 0 {
                    if from == r.m {
                        module.insert(from.clone());
                    }
                } else {
                    // Resolved against the path of the file.
                    let mut segs: Vec<&str> = conf_text(&JPATH, conf).map_or(vec![], |p| p.split('/').collect());
                    for s in from.split('/') {
                        if s == ".." {
                            segs.pop();
                        } else {
                            segs.push(s);
                        }
                    }
                    if segs.join("/") == r.m {
                        module.insert(format!("path:{}", r.m));
                    }
                }
            }
            for m in module {
                if let Some(n) = what.strip_prefix("* as ") {
                    bind(&mut e, n, format!("{m}|*"));
                    continue;
                }
                let (d, names) = match what.find('{') {
                    Some(0) => ("", &what[1..]),
                    Some(i) => (what[..i].strip_suffix(", ").ok_or("malformed import")?, &what[i + 1..]),
                    None => (what, "}"),
                };
                if !d.is_empty() {
                    bind(&mut e, d, format!("{m}|default"));
                }
                let names = names.strip_suffix('}').ok_or("unbalanced")?;
                for n in names.split(", ").filter(|n| !n.is_empty()) {
                    let (n, a) = n.split_once(" as ").unwrap_or((n, n));
                    bind(&mut e, a, format!("{m}|{n}"));
                }
            }
        }
        e.get(shown).cloned().ok_or_else(|| format!("`{shown}` is not bound"))
    }
}
impl JsL {
    fn kind(&self, r: &Ref) -> u8 {
        if r.v == 2 {
            0
        } else {
            r.k & 3
        }
    }
    fn alias(&self, r: &Ref) -> Option<&'static str> {
        match self.kind(r) {
            0 => r.a,
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- Python

pub struct PyL;
/// k: 0 name, 1 qualified, 2 module; v: order of modifiers (1: qualified last)
impl Lg for PyL {
    type L = Python;
    const LA: La = La::Python;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("collections", "namedtuple"),
            r("collections", "deque"),
            r("collections", "namedtuple").a("nt"),
            r("collections", "namedtuple").a("ant"),
            r("collections", "deque").k(1),
            r("collections", "namedtuple").k(1),
            r("collections", "deque").ma("c"),
            r("collections", "deque").ma("c2").k(1),
            r("collections", "deque").a("dq").k(1),
            r("collections", "deque").a("dq").k(1).v(1),
            r("collections", "namedtuple").a("nt3").ma("c"),
            r("os", "").k(2),
            r("os", "").k(2).a("my_os"),
            r("os.path", "join"),
            r("os.path", "join").k(1),
            r("os.path", "").k(2),
            r("os.path", "").k(2).a("p"),
            r("collections", "").k(2),
            r("collections", "").k(2).a("c"),
            r("Zeta", "a"),
        ]
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        (".", "", vec![|r, _| r, |r, a| r.a(a), |r, _| r.k(1), |r, a| r.ma(a), |r, _| Ref { n: "", ..r.k(2) }, |r, a| Ref { n: "", ..r.k(2).a(a) }])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["__future__", "z.__init__", "_z._y"], &["__x__", "Xx", "x_"])
    }
    fn twins(&self) -> Vec<Ref> {
        let mods = ["b", "a.b", "ab", "a.bb", "a", "b.a"];
        let mut v = product(&mods, &["X", "b"], &[|r| r, |r| r.a("q"), |r| r.a("X"), |r| r.k(1), |r| r.k(1).ma("q"), |r| r.ma("b")]);
        v.extend(product(&mods, &[""], &[|r| r.k(2), |r| r.k(2).a("q"), |r| r.k(2).a("b")]));
        v
    }
    fn nmods(&self) -> u8 {
        3
    }
    fn put_modified(&self, t: &mut Tokens<Python>, s: usize, mods: &[u8], own: bool, reg: bool) -> Ref {
        if s == 2 {
            let mut i = python::import_module(istr("zeta.sub", own));
            for (p, k) in mods.iter().enumerate() {
                if *k != 0 {
                    i = i.with_alias(istr(AL[s][p], own));
                }
            }
            add!(t, i, reg, own);
            return r("zeta.sub", "").k(2);
        }
        let (m, n) = [("pack.mod", "Sym0"), ("pack.mod", "Sym1")][s];
        let mut i = python::import(istr(m, own), istr(n, own));
        for (p, k) in mods.iter().enumerate() {
            i = match k {
                0 => i.qualified(),
                1 => i.with_alias(istr(AL[s][p], own)),
                _ => i.with_module_alias(istr(AL[s][p], own)),
            };
        }
        add!(t, i, reg, own);
        r(m, n)
    }
    fn put(&self, t: &mut Tokens<Python>, r: &Ref, own: bool, reg: bool) {
        if r.k == 2 {
            let mut i = python::import_module(istr(r.m, own));
            if let Some(a) = r.a {
                i = i.with_alias(istr(a, own));
            }
            return add!(t, i, reg, own);
        }
        let mut i = python::import(istr(r.m, own), istr(r.n, own));
        if r.k == 1 && r.v == 0 {
            i = i.qualified();
        }
        if let Some(a) = r.a {
            i = i.with_alias(istr(a, own));
        }
        if let Some(a) = r.ma {
            i = i.with_module_alias(istr(a, own));
        }
        if r.k == 1 && r.v == 1 {
            i = i.qualified();
        }
        add!(t, i, reg, own)
    }
    fn file(&self, t: &Tokens<Python>, _: usize, f: &fmt::Config) -> Result<String, String> {
        fmt_file(t, &python::Config::default(), f)
    }
    fn header(&self, set: &Set, _: usize) -> Vec<Vec<String>> {
        let mut from: BTreeMap<&str, BTreeSet<(&str, Option<&str>)>> = BTreeMap::new();
        let mut mods: BTreeSet<(&str, Option<&str>)> = BTreeSet::new();
        for r in set {
            match self.kind(r) {
                0 => {
                    from.entry(r.m).or_default().insert((r.n, r.a));
                }
                1 => {
                    mods.insert((r.m, r.ma));
                }
                _ => {
                    mods.insert((r.m, r.a));
                }
            }
        }
        let al = |(n, a): (&str, Option<&str>)| match a {
            Some(a) => format!("{n} as {a}"),
            None => n.to_string(),
        };
        let mut out = vec![];
        for (m, names) in from {
            out.push(format!("from {m} import {}", names.into_iter().map(al).collect::<Vec<_>>().join(", ")));
        }
        out.extend(mods.into_iter().map(|m| format!("import {}", al(m))));
        vec![out]
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        match self.kind(r) {
            0 => r.a.unwrap_or(r.n).to_string(),
            // the module is what is imported: the name is not aliased
            1 => format!("{}.{}", r.ma.unwrap_or(r.m), r.n),
            _ => r.a.unwrap_or(r.m).to_string(),
        }
    }
    fn target(&self, r: &Ref) -> String {
        if r.k == 2 {
            r.m.to_string()
        } else {
            format!("{}.{}", r.m, r.n)
        }
    }
    fn locals(&self, r: &Ref, _: usize) -> Vec<(String, String)> {
        let first = |m: &str| m.split('.').next().unwrap().to_string();
        vec![match self.kind(r) {
            0 => (r.a.unwrap_or(r.n).to_string(), self.target(r)),
            1 => match r.ma {
                Some(a) => (a.into(), r.m.into()),
                None => (first(r.m), first(r.m)),
            },
            _ => match r.a {
                Some(a) => (a.into(), r.m.into()),
                None => (first(r.m), first(r.m)),
            },
        }]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, _: usize) -> Result<BTreeSet<String>, String> {
        let mut e = Env::new();
        let mut loaded: BTreeSet<String> = BTreeSet::new();
        for l in header {
            if let Some(l) = l.strip_prefix("from ") {
                let (m, names) = l.split_once(" import ").ok_or("no import")?;
                loaded.insert(m.to_string());
                for n in names.split(", ") {
                    let (n, a) = n.split_once(" as ").unwrap_or((n, n));
                    bind(&mut e, a, format!("{m}.{n}"));
                }
            } else {
                let m = l.strip_prefix("import ").ok_or_else(|| format!("not an import: {l}"))?;
                match m.split_once(" as ") {
                    Some((m, a)) => {
                        loaded.insert(m.into());
                        bind(&mut e, a, m.into())
                    }
                    None => {
                        loaded.insert(m.into());
                        let f = m.split('.').next().unwrap();
                        bind(&mut e, f, f.into())
                    }
                }
            }
        }
        let (f, rest) = match shown.split_once('.') {
            Some((f, r)) => (f, Some(r)),
            None => (shown, None),
        };
        let base = single(&e, f)?;
        let full = match rest {
            Some(r) => format!("{base}.{r}"),
            None => base,
        };
        // The module has to be loaded, and to contain the name.
        let known = loaded.iter().any(|m| *m == full || m.starts_with(&format!("{full}.")))
            || uni.iter().any(|r| r.k != 2 && format!("{}.{}", r.m, r.n) == full && loaded.contains(r.m));
        if !known {
            return Err(format!("there is no {full} in the modules which are loaded"));
        }
        Ok(one(full))
    }
}
impl PyL {
    fn kind(&self, r: &Ref) -> u8 {
        match (r.k, r.ma) {
            (2, _) => 2,
            (1, _) | (_, Some(_)) => 1,
            _ => 0,
        }
    }
}

// ---------------------------------------------------------------- Swift

pub struct SwiftL;
impl Lg for SwiftL {
    type L = Swift;
    const LA: La = La::Swift;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("Foundation", "NSString"),
            r("Foundation", "Date"),
            r("UIKit", "View"),
            r("UIKit", "Date"),
            r("AppKit", "App"),
            r("zlib", "inflate"),
            r("Foundation.Sub", "Deep"),
        ]
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        (".", "", vec![|r, _| r])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["Foundation.Z.Y", "SwiftUI"], &["Self_", "Xx"])
    }
    fn twins(&self) -> Vec<Ref> {
        product(&["b", "a.b", "ab", "a", "B", "b.a"], &["X", "b", "x"], &[|r| r])
    }
    fn put(&self, t: &mut Tokens<Swift>, r: &Ref, own: bool, reg: bool) {
        add!(t, swift::import(istr(r.m, own), istr(r.n, own)), reg, own)
    }
    fn file(&self, t: &Tokens<Swift>, _: usize, f: &fmt::Config) -> Result<String, String> {
        fmt_file(t, &swift::Config::default(), f)
    }
    fn header(&self, set: &Set, _: usize) -> Vec<Vec<String>> {
        let s: BTreeSet<&str> = set.iter().map(|r| r.m).collect();
        vec![s.into_iter().map(|m| format!("import {m}")).collect()]
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        r.n.into()
    }
    fn locals(&self, r: &Ref, _: usize) -> Vec<(String, String)> {
        vec![(r.n.into(), self.target(r))]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, _: usize) -> Result<BTreeSet<String>, String> {
        let mut out = BTreeSet::new();
        for l in header {
            let m = l.strip_prefix("import ").ok_or_else(|| format!("not an import: {l}"))?;
            out.extend(uni.iter().filter(|r| r.m == m && r.n == shown).map(|r| self.target(r)));
        }
        match out.len() {
            1 => Ok(out),
            _ => Err(format!("`{shown}` resolves to {out:?}")),
        }
    }
}

// ---------------------------------------------------------------- C

pub struct CL;
/// k: 1 system
impl Lg for CL {
    type L = C;
    const LA: La = La::C;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("stdio.h", "printf").k(1),
            r("stdio.h", "puts").k(1),
            r("stdio.h", "my_printf"),
            r("foo/bar.h", "bar"),
            r("foo/bar.h", "baz"),
            r("a.h", "bar").k(1),
            r("Z.h", "z"),
            r("sys/types.h", "size_t").k(1),
        ]
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        ("/", ".h", vec![|r, _| r, |r, _| r.k(1)])
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["sse2.h", "GL/gl.h", "c++/x.h", "string", "../x.h", "./x.h", "x.hpp", "x-y.h", "x.y.h", "X", "sys/a_b.h"], &["a_t", "A_T"])
    }
    fn twins(&self) -> Vec<Ref> {
        product(&["b.h", "a/b.h", "a-b.h", "ab.h", "B.h", "b"], &["X", "b"], &[|r| r, |r| r.k(1)])
    }
    fn put(&self, t: &mut Tokens<C>, r: &Ref, own: bool, reg: bool) {
        let i = if r.k == 1 { c::include_system(istr(r.m, own), istr(r.n, own)) } else { c::include(istr(r.m, own), istr(r.n, own)) };
        add!(t, i, reg, own)
    }
    fn file(&self, t: &Tokens<C>, _: usize, f: &fmt::Config) -> Result<String, String> {
        fmt_file(t, &c::Config::default(), f)
    }
    fn header(&self, set: &Set, _: usize) -> Vec<Vec<String>> {
        let s: BTreeSet<(&str, u8)> = set.iter().map(|r| (r.m, r.k)).collect();
        vec![s
            .into_iter()
            .map(|(m, k)| if k == 1 { format!("#include <{m}>") } else { format!("#include \"{m}\"") })
            .collect()]
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        r.n.into()
    }
    fn target(&self, r: &Ref) -> String {
        format!("{}|{}|{}", r.m, r.k, r.n)
    }
    fn locals(&self, r: &Ref, _: usize) -> Vec<(String, String)> {
        vec![(r.n.into(), self.target(r))]
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, _: usize) -> Result<BTreeSet<String>, String> {
        let mut out = BTreeSet::new();
        for l in header {
            let m = l.strip_prefix("#include ").ok_or_else(|| format!("not an include: {l}"))?;
            let (k, p) = match m.strip_prefix('<').and_then(|m| m.strip_suffix('>')) {
                Some(p) => (1, p.to_string()),
                None => (0, unquote(m)?),
            };
            out.extend(uni.iter().filter(|r| r.m == p && r.k == k && r.n == shown).map(|r| self.target(r)));
        }
        match out.len() {
            1 => Ok(out),
            _ => Err(format!("`{shown}` resolves to {out:?}")),
        }
    }
}

// ---------------------------------------------------------------- Nix

pub struct NixL;
/// k: 0 argument, 1 inherit, 2 variable, 3 with. v: for variables, what the value contains.
const NIX_VALUES: [&[Ref]; 7] = [
    &[],
    &[r("", "config")],
    &[r("inputs", "nixpkgs").k(1)],
    &[r("lib", "mkIf").k(3)],
    &[r("", "inner").k(2).v(1)],
    &[r("", "deeper").k(2).v(4), r("self.lib", "f").k(1)],
    &[r("", "withs").k(2).v(3)],
];
impl NixL {
    fn import(&self, r: &Ref, own: bool) -> nix::Import {
        match r.k {
            0 => nix::argument(istr(r.n, own)),
            1 => nix::inherit(istr(r.m, own), istr(r.n, own)),
            2 => nix::variable(istr(r.n, own), self.value(r, own)),
            _ => nix::with(istr(r.m, own), istr(r.n, own)),
        }
    }
    fn value(&self, r: &Ref, own: bool) -> nix::Tokens {
        let mut t = nix::Tokens::new();
        t.append("val");
        for x in NIX_VALUES[r.v as usize] {
            t.space();
            t.append(self.import(x, own));
        }
        t
    }
    fn value_text(&self, r: &Ref) -> String {
        let mut s = "val".to_string();
        for x in NIX_VALUES[r.v as usize] {
            s.push(' ');
            s.push_str(x.n);
        }
        s
    }
    fn close(&self, set: &Set) -> Set {
        let mut out = Set::new();
        fn go(out: &mut Set, r: &Ref) {
            if out.insert(*r) && r.k == 2 {
                for x in NIX_VALUES[r.v as usize] {
                    go(out, x);
                }
            }
        }
        for r in set {
            go(&mut out, r);
        }
        out
    }
}
impl Lg for NixL {
    type L = Nix;
    const LA: La = La::Nix;
    fn pool(&self) -> Vec<Ref> {
        vec![
            r("", "pkgs"),
            r("", "config"),
            r("inputs", "nixpkgs").k(1),
            r("inputs.lib", "id").k(1),
            r("self", "zeta").k(1),
            r("", "v0").k(2),
            r("", "v1").k(2).v(1),
            r("", "v2").k(2).v(2),
            r("", "v3").k(2).v(3),
            r("", "v4").k(2).v(4),
            r("", "v5").k(2).v(5),
            r("", "v6").k(2).v(6),
            r("lib", "mkDefault").k(3),
            r("inputs.nixpkgs.lib", "concatMap").k(3),
            r("inputs.nixpkgs.lib", "listToAttrs").k(3),
            r("", "v1").k(2),
        ]
    }
    fn nconf(&self) -> usize {
        2
    }
    fn wide(&self) -> (&'static str, &'static str, Vec<fn(Ref, &'static str) -> Ref>) {
        (
            ".",
            "",
            vec![
                |r, _| r.k(1),
                |r, _| r.k(3),
                |r, _| Ref { m: "", ..r.k(0) },
                |r, _| Ref { m: "", ..r.k(2) },
                |r, _| Ref { m: "", ..r.k(2).v(5) },
            ],
        )
    }
    fn special(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["x-y", "z.x-y", "x-y.z", "x'", "z.x'", "_", "inputs.self", "pkgs.lib"], &["x-y", "x'", "x-", "_x-y"])
    }
    fn twins(&self) -> Vec<Ref> {
        let mut v = product(&["a", "a.b", "ab", "b.a", "a.b.c", "a-b"], &["X", "x", "b", "a"], &[|r| r.k(1), |r| r.k(3)]);
        v.extend([r("", "a"), r("", "b"), r("", "ab"), r("", "X"), r("", "X").k(2), r("", "x").k(2).v(1), r("", "X").k(2).v(3)]);
        v
    }
    fn put(&self, t: &mut Tokens<Nix>, r: &Ref, own: bool, reg: bool) {
        add!(t, self.import(r, own), reg, own)
    }
    fn file(&self, t: &Tokens<Nix>, conf: usize, f: &fmt::Config) -> Result<String, String> {
        fmt_file(t, &nix::Config::default().with_scoped(conf == 1), f)
    }
    fn header(&self, set: &Set, conf: usize) -> Vec<Vec<String>> {
        let set = self.close(set);
        let mut args = BTreeSet::new();
        let mut inherits = BTreeSet::new();
        let mut vars = BTreeMap::new();
        let mut withs = BTreeSet::new();
        for r in &set {
            match r.k {
                0 => {
                    args.insert(r.n);
                }
                1 => {
                    args.insert(r.m.split('.').next().unwrap());
                    inherits.insert((r.m, r.n));
                }
                2 => {
                    vars.insert((r.n, r.v), self.value_text(r));
                }
                _ => {
                    args.insert(r.m.split('.').next().unwrap());
                    withs.insert(r.m);
                }
            }
        }
        let mut out = vec![];
        if conf == 0 {
            let mut a = vec!["{".to_string()];
            a.extend(args.iter().map(|a| format!("    {a},")));
            a.push("    ...".into());
            a.push("}:".into());
            out.push(a);
        }
        if !withs.is_empty() {
            out.push(withs.iter().map(|w| format!("with {w};")).collect());
        }
        if !inherits.is_empty() || !vars.is_empty() {
            let mut l = vec!["let".to_string()];
            l.extend(inherits.iter().map(|(m, n)| format!("    inherit ({m}) {n};")));
            l.extend(vars.iter().map(|((n, _), v)| format!("    {n} = {v};")));
            l.push("in".into());
            out.push(l);
        }
        out
    }
    fn shown(&self, r: &Ref, _: &Set, _: usize) -> String {
        r.n.into()
    }
    fn target(&self, r: &Ref) -> String {
        match r.k {
            0 => format!("arg {}", r.n),
            2 => format!("var {} = {}", r.n, self.value_text(r)),
            _ => format!("{}.{}", r.m, r.n),
        }
    }
    fn locals(&self, r: &Ref, _: usize) -> Vec<(String, String)> {
        let mut out = vec![];
        let set: Set = std::iter::once(*r).collect();
        for r in self.close(&set) {
            out.push((r.n.to_string(), self.target(&r)));
            if r.k == 1 || r.k == 3 {
                let f = r.m.split('.').next().unwrap();
                out.push((f.to_string(), format!("arg {f}")));
            }
        }
        out
    }
    fn resolve(&self, header: &[&str], shown: &str, uni: &Set, conf: usize) -> Result<BTreeSet<String>, String> {
        let mut args: BTreeSet<String> = BTreeSet::new();
        let mut withs: Vec<String> = vec![];
        let mut lets = Env::new();
        let mut values: Vec<String> = vec![];
        let mut mode = 0;
        for l in header {
            match (*l, mode) {
                ("", _) => {}
                ("{", 0) => mode = 1,
                ("    ...", 1) => {}
                ("}:", 1) => mode = 2,
                (l, 1) => {
                    args.insert(l.trim().strip_suffix(',').ok_or("malformed argument")?.to_string());
                }
                ("let", _) => mode = 3,
                ("in", 3) => mode = 4,
                (l, 3) => {
                    let l = l.trim().strip_suffix(';').ok_or("malformed binding")?;
                    if let Some(i) = l.strip_prefix("inherit (") {
                        let (m, n) = i.split_once(") ").ok_or("malformed inherit")?;
                        bind(&mut lets, n, format!("{m}.{n}"));
                    } else {
                        let (n, v) = l.split_once(" = ").ok_or("malformed binding")?;
                        bind(&mut lets, n, format!("var {n} = {v}"));
                        values.push(v.to_string());
                    }
                }
                (l, 0 | 2) if l.starts_with("with ") => {
                    withs.push(l[5..].strip_suffix(';').ok_or("malformed with")?.to_string())
                }
                (l, _) => return Err(format!("unexpected line {l}")),
            }
        }
        if mode == 1 || mode == 3 {
            return Err("unterminated block".into());
        }
        let uni = self.close(uni);
        let resolve = |n: &str| -> Result<BTreeSet<String>, String> {
            if lets.contains_key(n) {
                return single(&lets, n).map(one);
            }
            if args.contains(n) {
                return Ok(one(format!("arg {n}")));
            }
            for w in withs.iter().rev() {
                if uni.iter().any(|r| r.k == 3 && r.m == w && r.n == n) {
                    return Ok(one(format!("{w}.{n}")));
                }
            }
            // The arguments of a scoped file come from the outside.
            if conf == 1 && uni.iter().any(|r| r.k == 0 && r.n == n) {
                return Ok(one(format!("arg {n}")));
            }
            Err(format!("`{n}` is not bound"))
        };
        // What the header itself refers to has to be bound as well.
        if conf == 0 {
            for w in withs.iter().cloned().chain(lets.values().flatten().filter(|v| !v.starts_with("var ")).cloned()) {
                let f = w.split('.').next().unwrap();
                if !args.contains(f) {
                    return Err(format!("`{f}` in the header is not bound"));
                }
            }
        }
        for v in &values {
            for n in v.split(' ').skip(1) {
                resolve(n)?;
            }
        }
        resolve(shown)
    }
}

// ---------------------------------------------------------------- exploration

#[derive(Clone, Copy, PartialEq)]
enum What {
    Bind,
    Header,
    Conflict,
}

fn show(refs: &[Ref]) -> String {
    refs.iter()
        .map(|r| {
            let mut s = format!("{}.{}", r.m, r.n);
            if let Some(a) = r.a {
                s += &format!(" as {a}");
            }
            if let Some(a) = r.ma {
                s += &format!(" module-as {a}");
            }
            if r.k != 0 || r.v != 0 {
                s += &format!(" /{}{}", r.k, if r.v != 0 { format!("/{}", r.v) } else { String::new() });
            }
            s
        })
        .collect::<Vec<_>>()
        .join(" | ")
}

/// Split a rendered file into header lines and what the references were rendered as.
fn split<'a>(file: &'a str, block: &Option<String>) -> Result<(Vec<&'a str>, Vec<&'a str>), String> {
    let body = file.strip_suffix('\n').ok_or("no line break at the end")?;
    let mut head = vec![];
    let mut names = vec![];
    let mut in_block = block.is_none();
    let mut closed = block.is_none();
    for l in body.split('\n') {
        if !in_block && Some(l) == block.as_deref() {
            in_block = true;
            continue;
        }
        if in_block {
            let t = l.trim_start();
            if let Some(n) = t.strip_prefix('@').and_then(|t| t.strip_suffix('@')) {
                names.push(n);
                continue;
            }
            if block.is_some() && l == "}" {
                closed = true;
                continue;
            }
        }
        if !names.is_empty() || (in_block && block.is_some()) {
            return Err(format!("unexpected line {l:?} in the body"));
        }
        head.push(l);
    }
    if !closed {
        return Err("block is not closed".into());
    }
    Ok((head, names))
}

fn case<G: Lg>(st: &mut Stats, g: &G, what: What, refs: &[Ref], conf: usize, variant: u8) {
    let key = || format!("{:?} conf{} v{variant}: {}", G::LA, show_conf(conf), show(refs));
    if st.skip(key) {
        return;
    }
    st.traces += 1;
    let f = fmt::Config::from_lang::<G::L>().with_indentation(fmt::Indentation::Space(4));
    let out = guarded(|| {
        let mut t = Tokens::<G::L>::new();
        let n = refs.len();
        for (i, r) in refs.iter().enumerate() {
            // variant 1: owned and static strings mixed, every reference also registered up front
            if variant == 1 {
                g.put(&mut t, &refs[n - 1 - i], i % 2 == 0, true);
            }
            let own = match variant {
                1 => i % 2 == 1,
                _ => true,
            };
            // variant 2: every other reference is only registered
            if variant == 2 && i % 2 == 0 {
                g.put(&mut t, r, i % 4 == 0, true);
                continue;
            }
            // variants 1 and 2: references in streams inside of the stream
            let mut sub = Tokens::<G::L>::new();
            let u = if variant == 0 { &mut t } else { &mut sub };
            u.push();
            u.append("@");
            g.put(u, r, own, false);
            u.append("@");
            match (variant, i % 3) {
                (0, _) => {}
                (_, 0) => t.append(sub),
                (_, 1) => t.append(&sub),
                _ => t.extend(sub),
            }
        }
        t
    })
    .and_then(|t| g.file(&t, conf, &f));
    let file = match out {
        Ok(f) => f,
        Err(e) => {
            st.fail(key(), "rendering failed", "a file", e);
            return;
        }
    };
    let set: Set = refs.iter().copied().collect();
    let plain: String = file.split_inclusive('\n').map(|l| if l.starts_with("import ") { g.plain(l) } else { l.to_string() }).collect();
    let (head, names) = match split(&plain, &g.block(conf)) {
        Ok(x) => x,
        Err(e) => {
            st.fail(key(), "file can't be split into header and body", "header, body", format!("{e}: {file:?}"));
            return;
        }
    };
    st.outcome(&file);
    match what {
        What::Header => {
            let mut blocks: Vec<Vec<String>> = vec![g.preamble(conf)];
            blocks.extend(g.header(&set, conf));
            let blocks: Vec<String> = blocks.into_iter().filter(|b| !b.is_empty()).map(|b| b.join("\n")).collect();
            let mut want = blocks.join("\n\n");
            if !want.is_empty() {
                want.push_str("\n\n");
            }
            let mut got = head.join("\n");
            if !head.is_empty() {
                got.push('\n');
            }
            // Nothing follows, so there is no line to be left empty.
            if names.is_empty() && g.block(conf).is_none() {
                want = want.trim_end_matches('\n').to_string();
                got = got.trim_end_matches('\n').to_string();
            }
            if want != got {
                st.fail(key(), "header is not the canonical one", want, got);
            }
        }
        What::Bind | What::Conflict => {
            if names.len() != refs.len() {
                st.fail(key(), "references are missing in the body", format!("{}", refs.len()), format!("{file:?}"));
                return;
            }
            let mut head: Vec<&str> = head;
            while head.last() == Some(&"") {
                head.pop();
            }
            let resolver = g.locals(&refs[0], conf).is_empty();
            if what == What::Bind && !resolver {
                let mut e = Env::new();
                for r in &set {
                    for (k, v) in g.locals(r, conf) {
                        bind(&mut e, &k, g.canon(&v, conf));
                    }
                }
                if e.values().any(|v| v.len() > 1) {
                    st.bump("conflicting_requests_not_claimed", 1);
                    return;
                }
            }
            let resolve = |n: &str| g.resolve(&head, n, &set, conf).map(|t| t.iter().map(|t| g.canon(t, conf)).collect::<BTreeSet<_>>());
            for (r, n) in refs.iter().zip(&names) {
                match resolve(n) {
                    Ok(t) if t.len() == 1 && t.contains(&g.canon(&g.target(r), conf)) => {}
                    other => {
                        st.fail(key(), format!("`{n}` is not bound to the symbol it stands for"), g.target(r), format!("{other:?} in {file:?}"));
                        return;
                    }
                }
                if what == What::Conflict {
                    let want = g.shown(r, &set, conf);
                    if want != *n {
                        st.fail(key(), "short/qualified the wrong way around", want, n.to_string());
                        return;
                    }
                    // Short exactly when the short name is bound to it.
                    let short = resolve(r.n);
                    let is_short = *n == r.n;
                    let bound = matches!(&short, Ok(t) if t.contains(&g.canon(&g.target(r), conf)));
                    if r.k == 0 && is_short != bound {
                        st.fail(key(), "rendered short although not bound, or qualified although bound", format!("{short:?}"), n.to_string());
                        return;
                    }
                } else {
                    let want = g.shown(r, &set, conf);
                    if want != *n {
                        st.fail(key(), "reference is rendered in a different form than requested", want, n.to_string());
                        return;
                    }
                }
            }
        }
    }
}

fn explore<G: Lg>(o: &Opts, g: &G, what: What, total: &mut Stats) {
    let pool = g.pool();
    let n = pool.len();
    let seq = o.pick(3, if n <= 20 { 4 } else { 3 });
    // subsets beyond the sequences
    let sub = o.pick(5, 7).min(n);
    let confs = (0..g.nconf()).collect();
    explore_pool(o, g, what, (pool, confs, seq, sub), total);
    let pool = g.twins();
    let seq = o.pick(2, 3);
    explore_pool(o, g, what, (pool, g.twin_confs(), seq, seq), total);
    crowds(o, g, what, total);
    texts(o, g, what, total);
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Many references at once.
fn crowds<G: Lg>(o: &Opts, g: &G, what: What, total: &mut Stats) {
    let (sep, end, vary) = g.wide();
    let counts: &[usize] = o.pick(&[9, 10, 16, 17, 33, 65, 99, 257], &[7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 400, 511, 513]);
    let counts: Vec<usize> = counts.iter().copied().filter(|c| what == What::Header || *c < o.pick(100, 300)).collect();
    // The longest ones first.
    let s = par(o, counts.len() * 10, |c, st| {
        let n = counts[counts.len() - 1 - c / 10];
        for conf in 0..g.nconf() {
            // How many modules, and whether the names are the same in each.
            {
                let mods = [1, 2, 3, n / 3 + 1, n][c % 10 / 2];
                for same in [c % 2 == 1] {
                    // All in the same way, or every way in turn.
                    for way in 0..=vary.len() {
                        if st.too_many() {
                            return;
                        }
                        if n > 65 && way != 0 && way != vary.len() && !o.thorough() {
                            continue;
                        }
                        let mut refs = Vec::new();
                        for i in 0..n {
                            let (m, k) = (i % mods, i / mods);
                            let m = leak(match m % 4 {
                                0 => format!("m{m}{end}"),
                                1 => format!("p{sep}m{m}{end}"),
                                2 => format!("m{}{sep}s{sep}m{m}{end}", m / 8),
                                _ => format!("m{}{sep}m{m}{end}", m / 8 * 8),
                            });
                            let name = leak(if same { format!("N{k}") } else { format!("N{i}") });
                            let v = if way < vary.len() { way } else { (i + k) % vary.len() };
                            refs.push(vary[v](r(m, name), leak(format!("al{i}"))));
                        }
                        // In order, reversed, and in steps.
                        let step = (n / 3..).find(|s| gcd(*s, n) == 1 && *s > 1).unwrap();
                        for order in 0..3u8 {
                            // Resolving names is cubic.
                            if what != What::Header && n > 65 && (order as usize, way) != (c % 3, vary.len()) {
                                continue;
                            }
                            let refs: Vec<Ref> = (0..n).map(|i| refs[[i, n - 1 - i, i * step % n][order as usize]]).collect();
                            st.states += 1;
                            st.transitions += n as u64;
                            case(st, g, what, &refs, conf, if what == What::Header { order } else { order % 2 });
                        }
                    }
                }
            }
        }
    });
    total.merge(s);
    // A great many, headers only.
    if what == What::Header {
        let s = par(o, 6, |c, st| {
            let (n, same) = (o.pick(1100, [1500, 5000][c % 2]), c % 2 == 1);
            let mods = [1, 3, n / 3 + 1][c / 2];
            for conf in 0..o.pick(1, g.nconf()) {
                let refs: Vec<Ref> = (0..n)
                    .map(|i| {
                        let i = i * 7 % n;
                        let m = leak(format!("m{}{end}", i % mods));
                        let name = leak(if same { format!("N{}", i / mods) } else { format!("N{i}") });
                        vary[(i + i / mods) % vary.len()](r(m, name), leak(format!("al{i}")))
                    })
                    .collect();
                st.states += 1;
                st.transitions += n as u64;
                case(st, g, what, &refs, conf, 0);
            }
        });
        total.merge(s);
    }
    total.bounds.push(format!("{:?}: up to {} references at once, out of 1 to as many modules, with the same or different names, imported in one way or every way in turn, in three orders", G::LA, counts.last().unwrap()));
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Modules of every depth, segments and names of every length and kind, alone and with each other.
fn texts<G: Lg>(o: &Opts, g: &G, what: What, total: &mut Stats) {
    let (sep, end, vary) = g.wide();
    let words = ["a", "A", "b1", "_c", "d_", "a_b", "aB", "Ab", "ä", "日本", "𝕏", "selfs", "type", "defaults", "java", "core", "std", "std1", "fmt", "x0123456789", "AB", "A_B1", "__x", "a1b"];
    let (special_mods, special_names) = g.special();
    let lens: &[usize] = o.pick(&[32, 255, 257], &[15, 16, 22, 23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000]);
    let depths: &[usize] = o.pick(&[2, 3, 4, 5, 9], &[2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    let mut mods: Vec<String> = words.iter().map(|w| w.to_string()).collect();
    mods.extend(words.iter().map(|w| format!("{w}{sep}z")));
    mods.extend(words.iter().map(|w| format!("z{sep}{w}")));
    for l in lens {
        mods.push("l".repeat(*l));
        mods.push(format!("{}{sep}{}", "k".repeat(l / 2), "j".repeat(l - l / 2)));
    }
    for d in depths {
        mods.push(vec!["e"; *d].join(sep));
        mods.push((0..*d).map(|i| format!("g{i}")).collect::<Vec<_>>().join(sep));
        mods.push((0..*d).map(|i| format!("h{}", d - i)).collect::<Vec<_>>().join(sep));
    }
    // The same segment at both ends.
    mods.push(["z", "z"].join(sep));
    mods.push(["z", "y", "z"].join(sep));
    let mut mods: Vec<&'static str> = mods.into_iter().map(|m| leak(m + end)).collect();
    mods.extend(special_mods);
    let mut names: Vec<&'static str> = words.iter().map(|w| leak(w.to_string())).collect();
    names.extend(lens.iter().map(|l| leak("N".repeat(*l))));
    names.extend(special_names);
    let names = &names;
    // Every module with one name, and every name in one module.
    let pool: Vec<(&'static str, &'static str)> = mods.iter().map(|m| (*m, "X")).chain(names.iter().map(|n| (leak(format!("q{sep}r{end}")), *n))).collect();
    // Ways of importing which take an alias, and by a path as it is.
    let aliased: &Vec<_> = &vary.iter().copied().filter(|v| v(r("m", "X"), "a") != v(r("m", "X"), "b")).collect();
    let path: fn(Ref, &'static str) -> Ref = |r, _| r.k(4);
    let paths = (G::LA == La::Js).then_some(path);
    let s = par(o, pool.len(), |i, st| {
        let mut go = |refs: Vec<Ref>| {
            for conf in 0..g.nconf() {
                st.states += 1;
                st.transitions += refs.len() as u64;
                case(st, g, what, &refs, conf, (refs.len() % 2) as u8);
                if st.too_many() {
                    return;
                }
            }
        };
        let x = r(pool[i].0, pool[i].1);
        for a in &vary {
            go(vec![a(x, "al1")]);
            for (k, y) in pool.iter().enumerate() {
                let y = r(y.0, y.1);
                for (j, b) in vary.iter().enumerate() {
                    if j == (i + k) % vary.len() || o.thorough() {
                        go(vec![a(x, "al1"), b(y, "al2")]);
                        go(vec![a(x, "al1"), b(y, "al2"), a(x, "al1")]);
                    }
                }
            }
        }
        // Every name in every module.
        for n in names {
            for a in &vary {
                go(vec![a(r(pool[i].0, n), "al1"), a(r(pool[i].0, "X"), "al2")]);
            }
        }
        // Every alias of every module and name, which may be the same as (parts of) these.
        for n in names {
            for a in aliased {
                go(vec![a(x, n)]);
                go(vec![a(r(pool[i].0, n), n), vary[0](x, "")]);
            }
        }
    });
    total.merge(s);
    // Every alias with every other one, on the same name and module, in the same module, and elsewhere.
    if !aliased.is_empty() {
        let (m, m2) = (leak(format!("q{sep}r{end}")), leak(format!("r{sep}q{end}")));
        let s = par(o, names.len(), |i, st| {
            for (j, y) in names.iter().enumerate() {
                for a in aliased {
                    for b in aliased {
                        for other in [r(m, "X"), r(m, "Y"), r(m2, "X")] {
                            let refs = [a(r(m, "X"), names[i]), b(other, y)];
                            for conf in 0..g.nconf() {
                                st.states += 1;
                                st.transitions += 2;
                                case(st, g, what, &refs, conf, (j % 2) as u8);
                                if st.too_many() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        });
        total.merge(s);
        total.bounds.push(format!("{:?}: {} aliases in every pair and on every module and name", G::LA, names.len()));
    }
    // Every text in the configuration, with what's inside of it, around it, and elsewhere.
    for end2 in g.text_conf() {
        let texts: Vec<&'static str> = mods.iter().map(|m| leak(format!("{m}{end2}"))).collect();
        let s = par(o, texts.len(), |i, st| {
            // Paths are normalized: only normal ones.
            if G::LA == La::Js && (mods[i].contains("./") || mods[i].contains("//")) {
                return;
            }
            CONF.with(|c| c.set(texts[i]));
            let own = mods[i];
            let around = own.rsplit_once(sep).map(|m| m.0).filter(|m| !m.ends_with(['.', '/', ':'])).unwrap_or("q");
            let inside = leak(format!("{own}{sep}i"));
            let mut all = vec![own, inside, around, leak(format!("{own}1")), leak(own.to_uppercase()), leak(format!("q{sep}r"))];
            all.extend(o.pick(&[][..], &mods[..]));
            let mut go = |refs: Vec<Ref>| {
                // A path of the file itself is no import.
                let path = |r: &Ref| G::LA == La::Js && r.k & 4 != 0 && (r.m == texts[i] || r.m.contains("./") || r.m.contains("//"));
                // Nor is one which reads like another module.
                let same = |r: &Ref| G::LA == La::Js && r.k & 4 != 0 && refs.iter().any(|x| x.k & 4 == 0 && x.m == relative(texts[i], r.m));
                if refs.iter().any(path) || what != What::Header && refs.iter().any(same) || st.too_many() {
                    return;
                }
                st.states += 1;
                st.transitions += refs.len() as u64;
                case(st, g, what, &refs, DYN, (refs.len() % 2) as u8);
            };
            for m in &all {
                for n in ["X", last(own, sep)] {
                    for a in vary.iter().copied().chain(paths) {
                        go(vec![a(r(m, n), "al1")]);
                        for m2 in &all[..6] {
                            for b in vary.iter().copied().chain(paths) {
                                go(vec![a(r(m, n), "al1"), b(r(m2, n), "al2")]);
                                go(vec![a(r(m, n), "al1"), b(r(m2, "X"), "al2"), b(r(m2, n), "al3")]);
                            }
                        }
                    }
                }
            }
        });
        total.merge(s);
        total.bounds.push(format!("{:?}: {} texts (modules with `{}` behind) in the configuration, with pairs of references inside of, around and apart from it", G::LA, texts.len(), end2));
    }
    total.bounds.push(format!("{:?}: {} modules and {} names of every depth (up to {}), length (up to {}) and kind, alone, in pairs and with each other", G::LA, mods.len(), names.len(), depths.last().unwrap(), lens.last().unwrap()));
}

fn explore_pool<G: Lg>(o: &Opts, g: &G, what: What, (pool, confs, seq, sub): (Vec<Ref>, Vec<usize>, usize, usize), total: &mut Stats) {
    let n = pool.len();
    let s = par(o, n, |first, st| {
        for conf in confs.iter().copied() {
            // ordered, with repetition
            let mut idx = vec![first];
            loop {
                if st.too_many() {
                    return;
                }
                let refs: Vec<Ref> = idx.iter().map(|i| pool[*i]).collect();
                st.states += 1;
                st.transitions += 1;
                case(st, g, what, &refs, conf, 0);
                case(st, g, what, &refs, conf, 1);
                if what == What::Header {
                    case(st, g, what, &refs, conf, 2);
                }
                if idx.len() < seq {
                    idx.push(0);
                    continue;
                }
                loop {
                    let l = idx.len();
                    if l == 1 {
                        break;
                    }
                    idx[l - 1] += 1;
                    if idx[l - 1] < n {
                        break;
                    }
                    idx.pop();
                }
                if idx.len() == 1 {
                    break;
                }
            }
            // strictly increasing choices, rendered in both directions
            let mut idx = vec![first];
            loop {
                if st.too_many() {
                    return;
                }
                if idx.len() > seq {
                    let mut refs: Vec<Ref> = idx.iter().map(|i| pool[*i]).collect();
                    st.states += 1;
                    st.transitions += 1;
                    case(st, g, what, &refs, conf, 0);
                    refs.reverse();
                    case(st, g, what, &refs, conf, 1);
                }
                let l = *idx.last().unwrap();
                if idx.len() < sub && l + 1 < n {
                    idx.push(l + 1);
                    continue;
                }
                loop {
                    if idx.len() == 1 {
                        break;
                    }
                    let l = idx.len();
                    idx[l - 1] += 1;
                    if idx[l - 1] < n {
                        break;
                    }
                    idx.pop();
                }
                if idx.len() == 1 {
                    break;
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!(
        "{:?}: all sequences of 1..={seq} references out of {n} ({} configurations, with and without registering them in reverse order first), and all subsets of up to {sub} in two orders; pool: {}",
        G::LA,
        confs.len(),
        show(&pool)
    ));
    let k = pool.len().min(3);
    total.sample(|| {
        let mut t = Tokens::<G::L>::new();
        for r in &pool[..k] {
            t.push();
            g.put(&mut t, r, true, false);
        }
        format!("{:?}: {} => {:?}", G::LA, show(&pool[..k]), g.file(&t, confs[confs.len() - 1], &fmt::Config::from_lang::<G::L>()))
    });
}

/// All sequences of modifiers, on one symbol and on pairs of symbols: whatever the result looks like, it
/// has to be bound to what was imported.
fn modifiers<G: Lg>(o: &Opts, g: &G, _: What, total: &mut Stats) {
    let k = g.nmods();
    if k == 0 {
        return;
    }
    let deep = o.pick(4, 6);
    let pair = o.pick(2, 3);
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..deep {
        let to = seqs.len();
        for i in from..to {
            for m in 0..k {
                let mut x = seqs[i].clone();
                x.push(m);
                seqs.push(x);
            }
        }
        from = to;
    }
    let short = seqs.iter().filter(|s| s.len() <= pair).count();
    let s = par(o, seqs.len(), |a, st| {
        let mut cases: Vec<Vec<(usize, &[u8])>> = (0..3).map(|s| vec![(s, &*seqs[a])]).collect();
        if a < short {
            for b in &seqs[..short] {
                cases.push(vec![(0, &seqs[a]), (1, b)]);
                cases.push(vec![(0, &seqs[a]), (2, b)]);
                cases.push(vec![(2, &seqs[a]), (1, b)]);
            }
        }
        for c in &cases {
            for conf in 0..g.nconf() {
                for v in 0..4u8 {
                    let key = || format!("{:?} conf{conf} v{v} modifiers {c:?}", G::LA);
                    if st.skip(key) {
                        continue;
                    }
                    st.states += 1;
                    st.traces += 1;
                    let (own, reg) = (v & 1 == 0, v & 2 != 0);
                    let f = fmt::Config::from_lang::<G::L>();
                    let mut t = Tokens::<G::L>::new();
                    let mut refs = vec![];
                    for (s, mods) in c {
                        if reg {
                            g.put_modified(&mut t, *s, mods, !own, true);
                        }
                        t.push();
                        t.append("@");
                        refs.push(g.put_modified(&mut t, *s, mods, own, false));
                        t.append("@");
                    }
                    let set: Set = refs.iter().copied().collect();
                    let file = match g.file(&t, conf, &f) {
                        Ok(f) => f,
                        Err(e) => {
                            st.fail(key(), "rendering failed", "a file", e);
                            continue;
                        }
                    };
                    st.outcome(&file);
                    let (head, names) = match split(&file, &g.block(conf)) {
                        Ok(x) => x,
                        Err(e) => {
                            st.fail(key(), "file can't be split into header and body", "header, body", format!("{e}: {file:?}"));
                            continue;
                        }
                    };
                    let mut head: Vec<&str> = head;
                    while head.last() == Some(&"") {
                        head.pop();
                    }
                    if names.len() != refs.len() {
                        st.fail(key(), "references are missing in the body", format!("{}", refs.len()), format!("{file:?}"));
                        continue;
                    }
                    for (r, n) in refs.iter().zip(&names) {
                        match g.resolve(&head, n, &set, conf) {
                            Ok(t) if t.len() == 1 && t.contains(&g.target(r)) => {}
                            other => {
                                st.fail(key(), format!("`{n}` is not bound to the symbol it stands for"), g.target(r), format!("{other:?} in {file:?}"));
                                break;
                            }
                        }
                    }
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!(
        "{:?}: all sequences of up to {deep} of {k} modifiers on one symbol, and up to {pair} on each of two symbols of the same and of different modules, by value and by reference, with and without registering first",
        G::LA
    ));
}

/// Fragments: there is no header, so what the other references are makes no difference.
fn fragments<G: Lg>(o: &Opts, g: &G, _: What, total: &mut Stats)
where
    <G::L as genco::lang::Lang>::Config: Default,
{
    let mut pool = g.pool();
    pool.extend(g.twins());
    let n = pool.len();
    let s = par(o, n, |first, st| {
        for second in 0..=n {
            let refs: Vec<Ref> = std::iter::once(pool[first]).chain(pool.get(second).copied()).collect();
            st.states += 1;
            st.transitions += 1;
            for v in 0..2u8 {
                let key = || format!("{:?} fragment v{v}: {}", G::LA, show(&refs));
                if st.skip(key) {
                    continue;
                }
                st.traces += 1;
                let got = rendered(|| {
                    let mut t = Tokens::<G::L>::new();
                    for r in &refs {
                        t.push();
                        if v == 1 {
                            g.put(&mut t, r, false, true);
                        }
                        g.put(&mut t, r, v == 0, false);
                    }
                    if v == 0 {
                        t.to_string()
                    } else {
                        t.to_vec().map(|l| l.join("\n"))
                    }
                });
                let want = refs.iter().map(|r| g.fragment(r)).collect::<Vec<_>>().join("\n");
                match got {
                    Ok(s) if s == want => st.outcome(&s),
                    other => st.fail(key(), "reference is rendered in a different form than requested", want, format!("{other:?}")),
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("{:?}: fragments (no header) of one and two references out of {n}", G::LA));
}

pub fn c05(o: &Opts) -> Stats {
    let mut t = Stats::new(o);
    each!(fragments, o, What::Bind, &mut t);
    each!(explore, o, What::Bind, &mut t);
    each!(modifiers, o, What::Bind, &mut t);
    t
}
pub fn c06(o: &Opts) -> Stats {
    let mut t = Stats::new(o);
    each!(explore, o, What::Header, &mut t);
    t
}
pub fn c07(o: &Opts) -> Stats {
    let mut t = Stats::new(o);
    explore(o, &JavaL, What::Conflict, &mut t);
    explore(o, &CsL, What::Conflict, &mut t);
    t
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Text,
    Ref,
    Reg,
    Space,
    Push,
    Line,
    Ind,
    Unind,
    Empty,
}

fn assembly<G: Lg>(o: &Opts, g: &G, confs: &[(LCfg, fmt::Config)], total: &mut Stats) {
    let al = [B::Text, B::Ref, B::Reg, B::Space, B::Push, B::Line, B::Ind, B::Unind, B::Empty];
    let depth = o.pick(4, 6);
    let pool = g.pool();
    let s = par(o, al.len(), |first, st| {
        let visit = |st: &mut Stats, h: &[B]| {
            st.states += 1;
            for (ci, (lc, fc)) in confs.iter().enumerate() {
                // all formatting configurations for short bodies, the default for longer ones
                if ci > 0 && h.len() > 3 {
                    break;
                }
                // short bodies: starting with every reference of the pool
                let offs = if h.len() <= 2 && h.iter().any(|b| matches!(b, B::Ref | B::Reg)) { pool.len() } else { 1 };
                for (conf, off) in (0..g.nconf()).flat_map(|c| (0..offs).map(move |o| (c, o))) {
                    let key = || format!("{:?} conf{conf} fmt{ci} off{off}: {h:?}", G::LA);
                    if st.skip(key) {
                        continue;
                    }
                    let mut t = Tokens::<G::L>::new();
                    let mut set = Set::new();
                    let mut body = vec![];
                    let all: Set = h.iter().enumerate().filter(|(_, b)| matches!(b, B::Ref | B::Reg)).map(|(i, _)| pool[(i + off) % pool.len()]).collect();
                    for (i, b) in h.iter().enumerate() {
                        let r = pool[(i + off) % pool.len()];
                        match b {
                            B::Text => {
                                t.append(format!("t{i}"));
                                body.push(Op::Text(format!("t{i}")));
                            }
                            B::Ref => {
                                g.put(&mut t, &r, true, false);
                                set.insert(r);
                                body.push(Op::Text(g.shown(&r, &all, conf)));
                            }
                            B::Reg => {
                                g.put(&mut t, &r, true, true);
                                set.insert(r);
                                body.push(Op::Mark);
                            }
                            B::Space => {
                                t.space();
                                body.push(Op::Space);
                            }
                            B::Push => {
                                t.push();
                                body.push(Op::Push);
                            }
                            B::Line => {
                                t.line();
                                body.push(Op::Line);
                            }
                            B::Ind => {
                                t.indent();
                                body.push(Op::Ind(1));
                            }
                            B::Unind => {
                                t.unindent();
                                body.push(Op::Ind(-1));
                            }
                            B::Empty => {
                                t.append("");
                                body.push(Op::Text(String::new()));
                            }
                        }
                    }
                    let mut ops: Vec<Op> = vec![];
                    let mut blocks: Vec<Vec<String>> = vec![g.preamble(conf)];
                    blocks.extend(g.header(&set, conf));
                    for b in blocks.into_iter().filter(|b| !b.is_empty()) {
                        let mut lvl = 0i16;
                        for l in &b {
                            // The reference headers are written with four spaces.
                            let t = l.trim_start();
                            let want = ((l.len() - t.len()) / 4) as i16;
                            ops.push(Op::Push);
                            if want != lvl {
                                ops.push(Op::Ind(want - lvl));
                                lvl = want;
                            }
                            ops.push(Op::Text(t.to_string()));
                        }
                        // The empty line belongs to the preamble: whatever the
                        // body starts with does not take it back.
                        ops.push(Op::Line);
                        ops.push(Op::Mark);
                    }
                    if let Some(b) = g.block(conf) {
                        ops.push(Op::Text(b));
                        ops.push(Op::Ind(1));
                        ops.extend(body);
                        ops.push(Op::Ind(-1));
                        ops.push(Op::Text("}".into()));
                    } else {
                        ops.extend(body);
                    }
                    let mut m = ideal(&ops, lc);
                    m.out.push_str(&lc.nl);
                    let got = g.file(&t, conf, fc);
                    st.traces += 1;
                    // A second file starts afresh, whatever the first one ended with.
                    let level: i16 = h.iter().map(|b| matches!(b, B::Ind) as i16 - matches!(b, B::Unind) as i16).sum();
                    if let (Ok(once), true) = (&got, level == 0 && h.len() <= 4) {
                        TWICE.with(|t| t.set(true));
                        let twice = g.file(&t, conf, fc);
                        TWICE.with(|t| t.set(false));
                        st.traces += 1;
                        let want = format!("{once}{once}");
                        // How many of the breaks which start it are seen is open.
                        if !(0..3).any(|k| twice.as_ref() == Ok(&format!("{once}{}{once}", lc.nl.repeat(k)))) {
                            st.fail(key(), "two files written by one formatter are not one after the other", want, format!("{twice:?}"));
                        }
                    }
                    match &got {
                        Ok(s) if *s == m.out => st.outcome(s),
                        Ok(s) if m.net_zero && *s == Norm::of(&ops).render(lc) + &lc.nl => {
                            st.known("net-zero-indentation", key);
                        }
                        Ok(s) => st.fail(key(), "file is not preamble, blank line, body, line break", m.out.clone(), s.clone()),
                        Err(e) => st.fail(key(), "file is not preamble, blank line, body, line break", m.out.clone(), e.clone()),
                    }
                }
            }
        };
        let mut idx = vec![first];
        if first == 0 {
            visit(st, &[]);
        }
        loop {
            if st.too_many() {
                return;
            }
            let h: Vec<B> = idx.iter().map(|i| al[*i]).collect();
            st.transitions += 1;
            visit(st, &h);
            if idx.len() < depth {
                idx.push(0);
                continue;
            }
            loop {
                let l = idx.len();
                if l == 1 {
                    break;
                }
                idx[l - 1] += 1;
                if idx[l - 1] < al.len() {
                    break;
                }
                idx.pop();
            }
            if idx.len() == 1 {
                break;
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("{:?}: all bodies of 0..={depth} operations over {al:?}, {} file configurations, {} formatting configurations (bodies up to 3; the first one beyond)", G::LA, g.nconf(), confs.len()));
}

pub fn c08(o: &Opts) -> Stats {
    let mut total = Stats::new(o);
    let mut confs = vec![];
    for ind in [Indent::Space(4), Indent::Space(2), Indent::Space(0), Indent::Tab] {
        for nl in ["\n", "\r\n"] {
            let lc = LCfg { ind, nl: nl.into() };
            let i = match ind {
                Indent::Space(n) => fmt::Indentation::Space(n),
                Indent::Tab => fmt::Indentation::Tab,
            };
            confs.push((lc, fmt::Config::from_lang::<Rust>().with_indentation(i).with_newline(if nl == "\n" { "\n" } else { "\r\n" })));
        }
    }
    each!(assembly, o, &confs, &mut total);
    total
}
