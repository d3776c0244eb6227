//! Runs generated templates: writes them as Rust source, compiles the source
//! with the macros of the tree under test, runs the result and compares every
//! observation with the model's.
use crate::core::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// Input of a template: iteration count, condition, scrutinee.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct In {
    pub n: usize,
    pub b: bool,
    pub m: u8,
}

pub const IN0: In = In { n: 2, b: true, m: 0 };

#[derive(Clone, Debug)]
pub enum Want {
    /// Per input: rendered text and trace, plus the rendering a listed
    /// finding would give (id, text).
    Runs(Vec<(In, String, String, Option<(&'static str, String)>)>),
    /// Must be rejected with a compile error reported inside of the template.
    Reject,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub key: String,
    /// Body of `fn(i: I) -> T`.
    pub src: String,
    pub want: Want,
    /// Model states and transitions behind the case.
    pub states: u64,
    pub steps: u64,
}

const PRELUDE: &str = r##"
#![allow(warnings)]
#[path = "@TL@"] mod tl;
use genco::prelude::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use tl::{T, TL, Imp};
#[derive(Clone, Copy)] pub struct I { n: usize, b: bool, m: u8 }
thread_local! { static TR: RefCell<String> = RefCell::new(String::new()); }
/// Trace an evaluation.
fn tr<V>(id: &str, v: V) -> V { TR.with(|t| { let mut t = t.borrow_mut(); t.push_str(id); t.push(' '); }); v }
fn ap(t: &mut T, s: &'static str) { t.append(s) }
#[derive(Clone, Copy, PartialEq, Eq)] struct P { x: usize, y: u8 }
/// Claims a size of its own.
struct Lie(usize, usize, usize);
impl Iterator for Lie {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { if self.0 == self.1 { return None } self.0 += 1; Some(self.0 - 1) }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.2, Some(self.2)) }
}
/// Goes on after its end.
struct Unfused(usize, usize);
impl Iterator for Unfused {
    type Item = usize;
    fn next(&mut self) -> Option<usize> { self.0 += 1; if self.0 == self.1 + 1 { None } else { Some(self.0 - 1) } }
}
type C = (usize, fn(I) -> T, &'static [I]);
fn go(cs: &[C]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (id, f, ins) in cs {
        let mut o = String::new();
        for (k, i) in ins.iter().enumerate() {
            TR.with(|t| t.borrow_mut().clear());
            let r = std::panic::catch_unwind(|| {
                let t = f(*i);
                tl::render(&t, genco::fmt::Indentation::Space(4), "\n")
            });
            let s = match r { Ok(Ok(s)) => format!("{:?}", s), Ok(Err(_)) => "fmt::Error".into(), Err(e) => format!("panic {:?}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))) };
            let tr = TR.with(|t| t.borrow().clone());
            writeln!(o, "{id}\t{k}\t{s}\t{tr}").unwrap();
        }
        println!("{o}");
    }
}
"##;

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

fn no_rows() -> bool {
    crate::template::NO_ROWS.load(Ordering::Relaxed)
}

/// Arguments for rustc to link the library under test, from cargo's artifact
/// messages.
fn externs() -> Vec<String> {
    let f = root().join(if no_rows() { "target/artifacts-stable.json" } else { "target/artifacts.json" });
    let s = std::fs::read_to_string(&f).expect("artifacts.json, written by check.sh");
    let mut args = Vec::new();
    let mut dirs = BTreeSet::new();
    for l in s.lines().filter(|l| l.contains("\"reason\":\"compiler-artifact\"")) {
        let is_genco = l.contains("\"target\":{\"kind\":[\"lib\"],\"crate_types\":[\"lib\"],\"name\":\"genco\"");
        let Some(p) = l.find("\"filenames\":[") else { continue };
        let rest = &l[p + 13..];
        let rest = &rest[..rest.find(']').unwrap()];
        for f in rest.split(',').map(|f| f.trim().trim_matches('"')) {
            if let Some(d) = Path::new(f).parent() {
                dirs.insert(d.to_path_buf());
            }
            if is_genco && (f.ends_with(".rlib") || f.ends_with(".rmeta")) {
                args.push("--extern".into());
                args.push(format!("genco={f}"));
            }
        }
    }
    assert!(args.len() >= 2, "library not found in target/artifacts.json");
    for d in dirs {
        args.push("-L".into());
        args.push(format!("dependency={}", d.display()));
    }
    args
}

/// Sources of the macros under test.
pub fn macro_sources() -> Vec<String> {
    let s = std::fs::read_to_string(root().join("target/artifacts.json")).expect("artifacts.json, written by check.sh");
    let lib = s
        .lines()
        .filter(|l| l.contains("\"name\":\"genco_macros\"") || l.contains("\"name\":\"genco-macros\""))
        .find_map(|l| {
            let r = &l[l.find("\"src_path\":\"")? + 12..];
            let p = &r[..r.find('"')?];
            p.ends_with("lib.rs").then(|| p.to_string())
        })
        .expect("the macros are built");
    let mut dirs = vec![Path::new(&lib).parent().unwrap().to_path_buf()];
    let mut out = Vec::new();
    while let Some(d) = dirs.pop() {
        let mut es: Vec<_> = std::fs::read_dir(&d).expect("sources of the macros").filter_map(|e| e.ok()).map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|e| e == "rs") {
                out.push(std::fs::read_to_string(&p).expect("source"));
            }
        }
    }
    out
}

fn ins_src(ins: &[In]) -> String {
    let v: Vec<String> = ins.iter().map(|i| format!("I{{n:{},b:{},m:{}}}", i.n, i.b, i.m)).collect();
    format!("&[{}]", v.join(","))
}

/// The source of one chunk and the first line of every case (1-based).
fn source(tl: &Path, ids: &[usize], cases: &[Case]) -> (String, Vec<(usize, usize)>) {
    let mut s = PRELUDE.replace("@TL@", tl.to_str().unwrap());
    let mut at = Vec::new();
    let mut line = s.matches('\n').count() + 1;
    let mut table = String::from("static CS: &[C] = &[\n");
    for &id in ids {
        let c = &cases[id];
        at.push((line, id));
        let f = format!("fn c{id}(i: I) -> T {{ let I {{ n, b, m }} = i;\n{}\n}}\n", c.src);
        line += f.matches('\n').count();
        s.push_str(&f);
        let ins: Vec<In> = match &c.want {
            Want::Runs(r) => r.iter().map(|r| r.0).collect(),
            Want::Reject => vec![],
        };
        table.push_str(&format!("({id}, c{id}, {}),\n", ins_src(&ins)));
    }
    s.push_str(&table);
    s.push_str("];\nfn main() { go(CS) }\n");
    (s, at)
}

/// Output of a command which is ended when it takes too long.
fn limited(mut cmd: Command, secs: u64) -> Option<(bool, String, String)> {
    use std::io::Read;
    use std::process::Stdio;
    let mut ch = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let a = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let b = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = std::time::Instant::now();
    let ok = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break Some(s.success()),
            None if start.elapsed().as_secs() >= secs => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    };
    let (o, e) = (a.join().unwrap(), b.join().unwrap());
    // A program cut short still says how far it came.
    ok.map(|k| (k, o.clone(), e)).or(if secs == RUN_SECS { Some((false, o, String::new())) } else { None })
}
const STABLE: &str = "stable-x86_64-unknown-linux-gnu";
const RUSTC_SECS: u64 = 400;
const RUN_SECS: u64 = 60;

struct Compiled {
    ok: bool,
    /// The compiler did not come to an end.
    hung: bool,
    /// Case -> messages of the errors reported inside of it.
    errors: BTreeMap<usize, Vec<String>>,
    /// Errors outside of every case.
    stray: Vec<String>,
}

fn compile(file: &Path, out: Option<&Path>, ext: &[String], at: &[(usize, usize)]) -> Compiled {
    let mut cmd = Command::new("rustc");
    if no_rows() {
        cmd.env("RUSTUP_TOOLCHAIN", STABLE);
    }
    cmd.args(["--edition", "2021", "--crate-name", "shard", "--error-format=json", "-Awarnings"])
        .args(["-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=4", "-Coverflow-checks=on"])
        .args(ext);
    match out {
        Some(o) => {
            cmd.arg("-o").arg(o);
        }
        None => {
            cmd.arg("--emit=metadata").arg("-o").arg(file.with_extension("rmeta"));
        }
    }
    cmd.arg(file);
    let Some((ok, _, text)) = limited(cmd, RUSTC_SECS) else {
        return Compiled { ok: false, hung: true, errors: BTreeMap::new(), stray: Vec::new() };
    };
    let mut c = Compiled { ok, hung: false, errors: BTreeMap::new(), stray: Vec::new() };
    let name = format!("\"file_name\":{}", json_str(file.to_str().unwrap()));
    for l in text.lines() {
        if !l.contains("\"level\":\"error\"") {
            if !l.starts_with('{') && !l.is_empty() {
                c.stray.push(l.to_string());
            }
            continue;
        }
        let msg = l
            .find("\"message\":\"")
            .map(|p| {
                let r = &l[p + 11..];
                r[..r.find("\",\"code\"").unwrap_or(r.len().min(200))].to_string()
            })
            .unwrap_or_default();
        let mut lines = Vec::new();
        let mut rest = l;
        while let Some(p) = rest.find(&name) {
            rest = &rest[p + name.len()..];
            if let Some(q) = rest.find("\"line_start\":") {
                let num: String = rest[q + 13..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = num.parse::<usize>() {
                    lines.push(n);
                }
            }
        }
        match lines.first() {
            Some(&n) => {
                let i = at.partition_point(|(l, _)| *l <= n);
                if i == 0 {
                    c.stray.push(msg);
                } else {
                    c.errors.entry(at[i - 1].1).or_default().push(msg);
                }
            }
            None => {
                if !msg.starts_with("aborting due to") {
                    c.stray.push(msg);
                }
            }
        }
    }
    c
}

/// Compile and run every case and compare. `id` names the scratch directory.
pub fn run(o: &Opts, id: &str, cases: Vec<Case>) -> Stats {
    let cases: Vec<Case> = match &o.only {
        Some(k) => cases.into_iter().filter(|c| c.key == *k).collect(),
        None => cases,
    };
    let mut st = Stats::new(o);
    {
        let mut seen: HashMap<&str, usize> = HashMap::new();
        for (i, c) in cases.iter().enumerate() {
            if let Some(j) = seen.insert(&c.key, i) {
                assert_eq!(cases[j].src, c.src, "duplicate key {}", c.key);
            }
        }
    }
    let ext = externs();
    let dir = root().join("target/gen").join(id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    // Both forms of interpolation look the same here: which one is used is
    // the subject of C12 and C10.
    let tl = include_str!("tl.rs");
    let short = "write!(out, \"$'{}{}{}'\", c.0, f.0, l)";
    assert!(tl.contains(short));
    let tl = tl.replace(short, "write!(out, \"{}{}{{{}}}{}{}\", c.0, f.0, l, c.0, f.0)");
    std::fs::write(dir.join("tl.rs"), tl).unwrap();
    let (good, bad): (Vec<usize>, Vec<usize>) =
        (0..cases.len()).partition(|i| matches!(cases[*i].want, Want::Runs(_)));
    let size = |n: usize| (n / 8 + 1).clamp(50, 700);
    let mut jobs: Vec<(bool, Vec<usize>)> = Vec::new();
    for ch in good.chunks(size(good.len())) {
        jobs.push((true, ch.to_vec()));
    }
    for ch in bad.chunks(size(bad.len())) {
        jobs.push((false, ch.to_vec()));
    }
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Stats::new(o));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= jobs.len() {
                    break;
                }
                let mut st = Stats::new(o);
                chunk(&mut st, &dir, j, &jobs[j], &cases, &ext);
                total.lock().unwrap().merge(st);
            });
        }
    });
    st.merge(total.into_inner().unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    st
}

fn chunk(st: &mut Stats, dir: &Path, j: usize, job: &(bool, Vec<usize>), cases: &[Case], ext: &[String]) {
    let mut todo = vec![job.1.clone()];
    while let Some(ids) = todo.pop() {
        if let Some((a, b)) = part(st, dir, j, job.0, ids, cases, ext) {
            todo.push(b);
            todo.push(a);
        }
    }
}

/// Decide these cases, or give them back in two halves when the compiler
/// fails without saying in which of them.
fn part(st: &mut Stats, dir: &Path, j: usize, runs: bool, mut ids: Vec<usize>, cases: &[Case], ext: &[String]) -> Option<(Vec<usize>, Vec<usize>)> {
    let halves = |st: &mut Stats, ids: &[usize], c: &Compiled| {
        if ids.len() > 1 && !c.hung {
            let m = ids.len() / 2;
            return Some((ids[..m].to_vec(), ids[m..].to_vec()));
        }
        let k = &cases[ids[0]];
        let what = if c.hung { "the compiler does not finish with this template or one generated with it" } else { "the compiler fails on this template" };
        st.fail(&k.key, what, "a result", format!("{:?}\n{}", &c.stray[..c.stray.len().min(3)], k.src));
        None
    };
    let file = dir.join(format!("s{j}.rs"));
    let exe = dir.join(format!("s{j}.exe"));
    if !runs {
        let mut errors: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        // An error may keep the compiler from getting to others: what it did
        // not complain about is compiled again without the rest.
        let mut left = ids.clone();
        while !left.is_empty() {
            let (src, at) = source(&dir.join("tl.rs"), &left, cases);
            std::fs::write(&file, src).unwrap();
            let c = compile(&file, None, ext, &at);
            if !c.stray.is_empty() || c.hung {
                return halves(st, &ids, &c);
            }
            if c.errors.is_empty() {
                break;
            }
            left.retain(|i| !c.errors.contains_key(i));
            errors.extend(c.errors);
        }
        for id in ids {
            let k = &cases[id];
            st.states += k.states;
            st.transitions += k.steps;
            st.traces += 1;
            st.outcome(&format!("rejected {}", k.key));
            match errors.get(&id) {
                None => st.fail(&k.key, "a template which has to be rejected is accepted", "a compile error", &k.src),
                Some(m) if m.iter().any(|m| m.contains("panicked")) => {
                    st.fail(&k.key, "the macro panics", "a compile error", m.join("; "))
                }
                Some(m) => st.sample(|| format!("{} => error: {}", k.key, m[0])),
            }
        }
        let _ = std::fs::remove_file(&file);
        return None;
    }
    // A template which has to be accepted but is not is a violation; the rest
    // of the chunk is then decided without it.
    for attempt in 0.. {
        if ids.is_empty() {
            return None;
        }
        let (src, at) = source(&dir.join("tl.rs"), &ids, cases);
        std::fs::write(&file, src).unwrap();
        let c = compile(&file, Some(&exe), ext, &at);
        if c.ok {
            break;
        }
        if c.errors.is_empty() || attempt >= 8 {
            return halves(st, &ids, &c);
        }
        for (id, m) in &c.errors {
            st.traces += 1;
            let k = &cases[*id];
            st.fail(&k.key, "a valid template does not compile", "accepted", format!("{}\n{}", m[0], k.src));
        }
        ids.retain(|i| !c.errors.contains_key(i));
    }
    let Some((done, text, _)) = limited(Command::new(&exe), RUN_SECS) else { unreachable!() };
    let mut got: HashMap<(usize, usize), (&str, &str)> = HashMap::new();
    for l in text.lines() {
        let mut p = l.split('\t');
        if let (Some(a), Some(b), Some(s), Some(t)) = (p.next(), p.next(), p.next(), p.next()) {
            got.insert((a.parse().unwrap(), b.parse().unwrap()), (s, t));
        }
    }
    for id in ids {
        let k = &cases[id];
        let Want::Runs(runs) = &k.want else { unreachable!() };
        st.states += k.states;
        for (n, (inp, text, trace, known)) in runs.iter().enumerate() {
            st.traces += 1;
            st.transitions += k.steps;
            let want = format!("{text:?}");
            let Some((s, t)) = got.get(&(id, n)).copied() else {
                assert!(!done, "no output for {}", k.key);
                st.fail(&k.key, format!("the generated program does not come to an end with {inp:?}"), want, "aborted or hung");
                return None;
            };
            st.outcome(s);
            if s == want && t == trace {
                st.sample(|| format!("{} => {}", k.key, s));
                continue;
            }
            if t == trace {
                if let Some((f, alt)) = known {
                    if s == format!("{alt:?}") {
                        st.known(f, || k.key.clone());
                        continue;
                    }
                }
            }
            st.fail(
                &k.key,
                format!("template renders differently with {inp:?}\n{}", k.src),
                format!("{want} trace [{trace}]"),
                format!("{s} trace [{t}]"),
            );
        }
    }
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&exe);
    None
}
