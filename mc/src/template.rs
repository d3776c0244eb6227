//! Templates as data: how they are written down as Rust source (with exact
//! columns) and what they mean, as operations of the layout model.
use crate::model::*;
use crate::shard::{Case, In, Want};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

/// Is the template compiled without support for rows? Then a new row is a gap
/// like any other.
pub static NO_ROWS: AtomicBool = AtomicBool::new(false);

/// What separates an item from the previous one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Gap {
    Adj,
    Sp(usize),
    /// A new row at a column, after a number of blank rows.
    Row(usize, usize),
}
use Gap::*;

/// A body. `sens`: whitespace around the content counts.
#[derive(Clone, Debug, Default)]
pub struct Body {
    pub items: Vec<(Gap, It)>,
    pub lead: Option<Gap>,
    pub trail: Option<Gap>,
    pub sens: bool,
    start: Cell<usize>,
}

#[derive(Clone, Debug)]
pub enum Cond {
    B,
    NotB,
    /// `let Some(x) = ..`: present iff `b`, binds x to "X".
    LetSome,
    /// Source, whether it holds and what it binds x to.
    Ex(&'static str, fn(In) -> (bool, Option<&'static str>)),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Brace,
    Arrow,
    /// Match arms only.
    Paren,
}

#[derive(Clone, Debug)]
pub enum It {
    /// Source and the text it renders.
    T(String, String),
    /// Source and the operations it performs.
    Ops(String, Vec<Op>),
    /// Evaluated expression, traced: `$(tr("id", "text"))`.
    Ev(String, String),
    /// `$x`: the innermost loop or let variable.
    Var,
    Ctl(char),
    If(Cond, Form, Body, Option<Body>),
    /// Body, join, form; iterates `n` times, binds x to the index.
    For(Form, Option<Body>, Body),
    /// Pattern and iterator, what it binds x to in turn; join, form, body.
    Over(&'static str, fn(usize) -> Vec<String>, Form, Option<Body>, Body),
    /// Scrutinee, patterns, arm taken and binding.
    MatchX(&'static str, &'static [&'static str], fn(In) -> (usize, Option<&'static str>), Vec<(Form, Body)>),
    /// Arms: pattern and guard are chosen by the shape index.
    Match(Vec<(Form, Body)>, bool),
    /// `$(let x = ..)`: binds x to the given text.
    Let(String),
    /// `$(ref t ..)` which appends the text.
    Scope(Form, String),
    /// `$(ref _ ..)` which traces only.
    ScopeNone(String),
}

pub fn tok(s: &str) -> It {
    It::T(s.into(), s.into())
}
pub fn quoted(s: &str) -> It {
    It::T(format!("{s:?}"), quoted_text(s, false))
}
pub fn quoted_text(s: &str, eval: bool) -> String {
    let mut o = format!("«cf{}:", if eval { 't' } else { 'n' });
    for c in s.chars() {
        o.push('^');
        o.push(c);
    }
    o.push_str(":cf");
    o.push(if eval { 't' } else { 'n' });
    o.push('»');
    o
}

pub fn body(items: Vec<(Gap, It)>) -> Body {
    Body { items, ..Default::default() }
}
pub fn one(it: It) -> Body {
    body(vec![(Adj, it)])
}
impl Body {
    pub fn pad(mut self, lead: Option<Gap>, trail: Option<Gap>) -> Self {
        self.lead = lead;
        self.trail = trail;
        self
    }
    pub fn sens(mut self) -> Self {
        self.sens = true;
        self
    }
    /// On rows of its own, between the delimiters.
    pub fn rows(self, first: usize, last: usize) -> Self {
        self.pad(Some(Row(0, first)), Some(Row(0, last)))
    }
}

/// Writes source text and keeps track of the position.
pub struct Pr {
    pub out: String,
    col: usize,
    base: usize,
    tabs: bool,
    dress: Dress,
}

/// What whitespace is made of.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Dress {
    Plain,
    /// Comments wherever there is whitespace.
    Comments,
    /// Rows end like on Windows, gaps hold tabs and the odd whitespace of Rust.
    Odd,
}

impl Pr {
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.out.push_str(s);
    }
    fn gap(&mut self, g: Gap) {
        match g {
            Adj => {}
            Sp(n) => match self.dress {
                Dress::Plain => self.put(&" ".repeat(n)),
                Dress::Comments if n == 1 => self.put(" /* } \" ü */"),
                Dress::Comments => self.put(" /*/* $x */*/ /**/ "),
                Dress::Odd if n == 1 => self.put("\t"),
                Dress::Odd => self.put("\u{2028}\u{b} \u{200e}"),
            },
            Row(blank, col) => {
                for i in 0..=blank {
                    match self.dress {
                        Dress::Plain => {
                            // Blank rows may hold whitespace.
                            if i == 2 {
                                self.put("  ");
                            }
                            self.put("\n");
                        }
                        Dress::Comments => self.put(if i % 2 == 0 { " // ü ) $\n" } else { "/* $( \" */\n" }),
                        Dress::Odd => self.put(if i % 2 == 0 { " \t\r\n" } else { "\r\n" }),
                    }
                }
                let c = self.base + col;
                let pad = match self.dress {
                    _ if self.tabs => "\t".repeat(c),
                    Dress::Comments if c >= 7 => format!("/* ß */{}", " ".repeat(c - 7)),
                    _ => " ".repeat(c),
                };
                self.put(&pad);
            }
        }
    }
    pub fn body(&mut self, b: &Body) {
        if b.sens {
            b.start.set(self.col);
        }
        if let Some(g) = b.lead {
            self.gap(g);
        }
        if !b.sens {
            b.start.set(self.col);
        }
        for (i, (g, it)) in b.items.iter().enumerate() {
            if i > 0 {
                self.gap(*g);
            }
            self.item(it);
        }
        if let Some(g) = b.trail {
            self.gap(g);
        }
    }
    fn formed(&mut self, f: Form, b: &Body) {
        match f {
            Form::Brace => {
                self.put("{");
                self.body(b);
                self.put("}");
            }
            Form::Arrow => {
                self.put("=>");
                // `=>` directly followed by an operator would lex as another one.
                if b.lead.is_none() {
                    self.put(" ");
                }
                self.body(b);
            }
            Form::Paren => {
                self.put("(");
                self.body(b);
                self.put(")");
            }
        }
    }
    fn item(&mut self, it: &It) {
        match it {
            It::T(s, _) | It::Ops(s, _) => self.put(s),
            It::Ev(id, text) => self.put(&format!("$(tr({id:?}, {text:?}))")),
            It::Var => self.put("$x"),
            It::Ctl(c) => self.put(match c {
                ' ' => "$[' ']",
                '\n' => "$['\\n']",
                '\r' => "$['\\r']",
                _ => unreachable!(),
            }),
            It::If(c, f, then, els) => {
                let c = match c {
                    Cond::B => "tr(\"?\", b)",
                    Cond::NotB => "tr(\"?\", !b)",
                    Cond::LetSome => "let Some(x) = tr(\"?\", b.then(|| \"X\"))",
                    Cond::Ex(s, _) => s,
                };
                self.put(&format!("$(if {c} "));
                self.formed(*f, then);
                if let Some(e) = els {
                    self.put(" else ");
                    self.formed(*f, e);
                }
                self.put(")");
            }
            It::For(f, join, b) => {
                self.put("$(for x in tr(\"i\", 0..n) ");
                if let Some(j) = join {
                    self.put("join (");
                    self.body(j);
                    self.put(") ");
                }
                self.formed(*f, b);
                self.put(")");
            }
            It::Over(src, _, f, join, b) => {
                self.put(&format!("$(for {src} "));
                if let Some(j) = join {
                    self.put("join (");
                    self.body(j);
                    self.put(") ");
                }
                self.formed(*f, b);
                self.put(")");
            }
            It::MatchX(head, pats, _, arms) => {
                self.put(&format!("$(match {head} {{ "));
                for (i, (f, b)) in arms.iter().enumerate() {
                    self.put(pats[i]);
                    self.put(" ");
                    if *f != Form::Arrow {
                        self.put("=> ");
                    }
                    self.formed(*f, b);
                    if i + 1 < arms.len() {
                        self.put(", ");
                    }
                }
                self.put("})");
            }
            It::Match(arms, comma) => {
                self.put("$(match tr(\"m\", m) { ");
                let n = arms.len();
                for (i, (f, b)) in arms.iter().enumerate() {
                    let pat = match (i, n) {
                        (i, n) if i + 1 == n => "_",
                        (0, 2) => "0",
                        (0, _) => "0 if tr(\"g\", b)",
                        (1, 3) => "0 | 1",
                        (1, _) => "x @ 1",
                        _ => "2",
                    };
                    self.put(pat);
                    self.put(" ");
                    if *f != Form::Arrow {
                        self.put("=> ");
                    }
                    self.formed(*f, b);
                    if i + 1 < n || *comma {
                        self.put(", ");
                    }
                }
                self.put("})");
            }
            It::Let(text) => self.put(&format!("$(let x = tr(\"l\", {text:?}))")),
            It::Scope(f, text) => {
                if *f == Form::Arrow {
                    self.put(&format!("$(ref t => ap(t, tr(\"s\", {text:?})))"))
                } else {
                    self.put(&format!("$(ref t {{ ap(t, tr(\"s\", {text:?})); }})"))
                }
            }
            It::ScopeNone(text) => self.put(&format!("$(ref _ {{ tr({text:?}, ()); }})")),
        }
    }
}

/// An iterator whose steps are traced.
pub const STEPS: &str = "tr(\"next\"";

/// What executing a template means.
pub struct Run {
    pub ops: Vec<Op>,
    pub trace: String,
    inp: In,
    vars: Vec<String>,
}

/// A row returned to a column which matches no level.
#[derive(Debug)]
pub struct Mismatch;

impl Run {
    pub fn new(inp: In) -> Self {
        Run { ops: Vec::new(), trace: String::new(), inp, vars: vec!["OUTER".into()] }
    }
    fn tr(&mut self, id: &str) {
        self.trace.push_str(id);
        self.trace.push(' ');
    }
    fn text(&mut self, s: &str) {
        self.ops.push(Op::Text(s.into()));
    }
    pub fn body(&mut self, b: &Body, base: usize) -> Result<(), Mismatch> {
        let vars = self.vars.len();
        let mut row = b.start.get();
        let mut levels: Vec<usize> = Vec::new();
        let step = |r: &mut Vec<Op>, row: &mut usize, levels: &mut Vec<usize>, g: Gap| match g {
            Adj | Sp(0) => Ok(()),
            Sp(_) => {
                r.push(Op::Space);
                Ok(())
            }
            Row(..) if NO_ROWS.load(Ordering::Relaxed) => {
                r.push(Op::Space);
                Ok(())
            }
            Row(blank, col) => {
                let col = base + col;
                if col > *row {
                    levels.push(*row);
                    r.push(Op::Ind(1));
                    if blank > 0 {
                        r.push(Op::Line);
                    }
                } else if col < *row {
                    let mut n = 0;
                    loop {
                        match levels.pop() {
                            Some(c) if c > col => n += 1,
                            Some(c) if c == col => {
                                n += 1;
                                break;
                            }
                            _ => return Err(Mismatch),
                        }
                    }
                    r.push(Op::Ind(-n));
                    if blank > 0 {
                        r.push(Op::Line);
                    }
                } else {
                    r.push(if blank > 0 { Op::Line } else { Op::Push });
                }
                *row = col;
                Ok(())
            }
        };
        if b.sens {
            if let Some(g) = b.lead {
                step(&mut self.ops, &mut row, &mut levels, g)?;
            }
        }
        for (i, (g, it)) in b.items.iter().enumerate() {
            if i > 0 {
                step(&mut self.ops, &mut row, &mut levels, *g)?;
            }
            self.item(it, base)?;
        }
        if b.sens {
            if let Some(g) = b.trail {
                step(&mut self.ops, &mut row, &mut levels, g)?;
            }
        }
        if !levels.is_empty() {
            self.ops.push(Op::Ind(-(levels.len() as i16)));
        }
        self.vars.truncate(vars);
        Ok(())
    }
    fn item(&mut self, it: &It, base: usize) -> Result<(), Mismatch> {
        match it {
            It::T(_, t) => self.text(t),
            It::Ops(_, o) => self.ops.extend(o.iter().cloned()),
            It::Ev(id, t) => {
                self.tr(id);
                self.text(t);
            }
            It::Var => {
                let v = self.vars.last().unwrap().clone();
                self.text(&v);
            }
            It::Ctl(' ') => self.ops.push(Op::Space),
            It::Ctl('\n') => self.ops.push(Op::Line),
            It::Ctl(_) => self.ops.push(Op::Push),
            It::If(c, _, then, els) => {
                self.tr("?");
                let (v, bind) = match c {
                    Cond::B => (self.inp.b, None),
                    Cond::LetSome => (self.inp.b, Some("X")),
                    Cond::NotB => (!self.inp.b, None),
                    Cond::Ex(_, f) => f(self.inp),
                };
                if v {
                    let vars = self.vars.len();
                    self.vars.extend(bind.map(String::from));
                    self.body(then, base)?;
                    self.vars.truncate(vars);
                } else if let Some(e) = els {
                    self.body(e, base)?;
                }
            }
            It::For(_, join, b) => {
                self.tr("i");
                for k in 0..self.inp.n {
                    self.vars.push(k.to_string());
                    self.body(b, base)?;
                    if k + 1 < self.inp.n {
                        if let Some(j) = join {
                            self.body(j, base)?;
                        }
                    }
                    self.vars.pop();
                }
            }
            It::Over(src, f, _, join, b) => {
                self.tr("i");
                let vals = f(self.inp.n);
                for (k, v) in vals.iter().enumerate() {
                    if src.contains(STEPS) {
                        self.tr("next");
                    }
                    self.vars.push(v.clone());
                    self.body(b, base)?;
                    if k + 1 < vals.len() {
                        if let Some(j) = join {
                            self.body(j, base)?;
                        }
                    }
                    self.vars.pop();
                }
            }
            It::MatchX(_, _, f, arms) => {
                self.tr("m");
                let (k, bind) = f(self.inp);
                let vars = self.vars.len();
                self.vars.extend(bind.map(String::from));
                self.body(&arms[k].1, base)?;
                self.vars.truncate(vars);
            }
            It::Match(arms, _) => {
                self.tr("m");
                let n = arms.len();
                let mut bind = None;
                let pick = match (n, self.inp.m) {
                    (1, _) => 0,
                    (2, 0) => 0,
                    (2, _) => 1,
                    (_, 0) => {
                        self.tr("g");
                        if self.inp.b {
                            0
                        } else if n == 3 {
                            1
                        } else {
                            n - 1
                        }
                    }
                    (3, 1) => 1,
                    (_, 1) => {
                        bind = Some("1".to_string());
                        1
                    }
                    (4, 2) => 2,
                    _ => n - 1,
                };
                let b = bind.is_some();
                self.vars.extend(bind);
                self.body(&arms[pick].1, base)?;
                if b {
                    self.vars.pop();
                }
            }
            It::Let(t) => {
                self.tr("l");
                self.vars.push(t.clone());
            }
            It::Scope(_, t) => {
                self.tr("s");
                self.text(t);
            }
            It::ScopeNone(t) => self.tr(t),
        }
        Ok(())
    }
}

/// How the macro is invoked.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// On rows of its own at a column: `quote! {\n<col>..\n}`.
    Rows(usize),
    /// The same with one tab per column.
    Tabs(usize),
    /// With comments in every gap and at the end of every row.
    Comments(usize),
    /// With line ends and gaps which are not plain ones.
    Odd(usize),
    /// First row directly after the delimiter, at a column of its own.
    Inline,
}

pub fn uses(b: &Body) -> (bool, bool, bool) {
    let mut u = (false, false, false);
    fn go(b: &Body, u: &mut (bool, bool, bool)) {
        for (_, it) in &b.items {
            match it {
                It::If(_, _, t, e) => {
                    u.1 = true;
                    if matches!(it, It::If(Cond::Ex(..), ..)) {
                        *u = (true, true, true);
                    }
                    go(t, u);
                    if let Some(e) = e {
                        go(e, u);
                    }
                }
                It::MatchX(_, _, _, a) => {
                    *u = (true, true, true);
                    for (_, b) in a {
                        go(b, u);
                    }
                }
                It::For(_, j, b) | It::Over(_, _, _, j, b) => {
                    u.0 = true;
                    go(b, u);
                    if let Some(j) = j {
                        go(j, u);
                    }
                }
                It::Match(a, _) => {
                    u.2 = true;
                    if a.len() >= 3 {
                        u.1 = true;
                    }
                    for (_, b) in a {
                        go(b, u);
                    }
                }
                _ => {}
            }
        }
    }
    go(b, &mut u);
    u
}

pub fn inputs(b: &Body, max_n: usize) -> Vec<In> {
    let (n, bb, m) = uses(b);
    let mut v = Vec::new();
    for n in if n { 0..=max_n } else { 2..=2 } {
        for b in if bb { vec![true, false] } else { vec![true] } {
            for m in if m { 0..=3u8 } else { 0..=0 } {
                v.push(In { n, b, m });
            }
        }
    }
    v
}

/// Does the source keep its meaning, or would neighbours merge into other
/// tokens of Rust?
pub fn lexes(b: &Body) -> bool {
    let mut prev: Option<char> = None;
    let mut ctl = false;
    for (g, it) in &b.items {
        // A control directly followed by parenthesis is a call.
        if ctl && matches!(it, It::T(s, _) if s == "(") {
            return false;
        }
        ctl = matches!(it, It::Ctl(_));
        let (first, last) = match it {
            It::T(s, _) | It::Ops(s, _) => (s.chars().next().unwrap_or(' '), s.chars().last().unwrap_or(' ')),
            It::Var => ('$', 'x'),
            It::Ctl(_) => ('$', ']'),
            _ => ('$', ')'),
        };
        if let (Adj, Some(p)) = (g, prev) {
            let word = |c: char| c.is_alphanumeric() || c == '_';
            let q = |c: char| c == '"' || c == '\'';
            if (word(p) || q(p)) && (word(first) || q(first)) || word(p) && first == '#' {
                return false;
            }
            if p == '/' && (first == '/' || first == '*') {
                return false;
            }
        }
        prev = Some(last);
    }
    true
}

pub const CFG: fn() -> LCfg = || LCfg::spaces(4);

/// Shares the start columns computed by printing with the original.
pub fn print(b: &mut Body, style: Style, open: &str, close: &str) -> (String, usize) {
    match style {
        Style::Rows(_) | Style::Tabs(_) | Style::Comments(_) | Style::Odd(_) => {
            b.lead = Some(Row(0, first_col(b)));
            b.trail = Some(Row(0, 0));
        }
        Style::Inline => {}
    }
    let (base, tabs, dress) = match style {
        Style::Rows(c) => (c, false, Dress::Plain),
        Style::Tabs(c) => (c, true, Dress::Plain),
        Style::Comments(c) => (c, false, Dress::Comments),
        Style::Odd(c) => (c, false, Dress::Odd),
        Style::Inline => (open.chars().count(), false, Dress::Plain),
    };
    let mut p = Pr { out: String::new(), col: 0, base, tabs, dress };
    p.put(open);
    p.body(b);
    p.put(close);
    (p.out, base)
}

/// Column of the first row: the gap of the first item says where it is.
fn first_col(b: &Body) -> usize {
    match b.items.first() {
        Some((Row(_, c), _)) => *c,
        _ => 0,
    }
}

fn count(b: &Body) -> u64 {
    b.items
        .iter()
        .map(|(_, it)| {
            1 + match it {
                It::If(_, _, t, e) => count(t) + e.as_ref().map(count).unwrap_or(0),
                It::MatchX(_, _, _, a) => a.iter().map(|a| count(&a.1)).sum(),
                It::For(_, j, b) | It::Over(_, _, _, j, b) => count(b) + j.as_ref().map(count).unwrap_or(0),
                It::Match(a, _) => a.iter().map(|a| count(&a.1)).sum(),
                _ => 0,
            }
        })
        .sum()
}

/// Build the case for a template invoked as `open..close` inside of `wrap`
/// (`{}` is replaced by the invocation). `prior` and `after` are the
/// operations surrounding it.
pub struct Wrap<'a> {
    pub name: &'a str,
    pub before: &'a str,
    pub open: &'a str,
    pub close: &'a str,
    pub after: &'a str,
    pub prior: &'a [Op],
    pub post: &'a [Op],
}

pub const QUOTE: Wrap<'static> = Wrap {
    name: "quote",
    before: "let x = \"OUTER\"; ",
    open: "quote! {",
    close: "}",
    after: "",
    prior: &[],
    post: &[],
};

pub fn case(prefix: &str, b: Body, style: Style, w: &Wrap, max_n: usize) -> Case {
    let ins = inputs(&b, max_n);
    case_with(prefix, b, style, w, &ins)
}

/// The same for the given inputs.
pub fn case_with(prefix: &str, mut b: Body, style: Style, w: &Wrap, ins: &[In]) -> Case {
    let open = format!("/**/{}", w.open);
    let (text, base) = print(&mut b, style, &open, w.close);
    let src = format!("{}\n{}\n{}", w.before, text, w.after);
    let key = format!("{prefix}{}", text.trim_start_matches("/**/"));
    let mut runs = Vec::new();
    let mut reject = false;
    for &i in ins {
        let mut r = Run::new(i);
        if r.body(&b, base).is_err() {
            reject = true;
            break;
        }
        let mut ops: Vec<Op> = w.prior.to_vec();
        ops.extend(r.ops);
        ops.extend(w.post.iter().cloned());
        let m = ideal(&ops, &CFG());
        let known = if m.net_zero { Some(("net-zero-indentation", Norm::of(&ops).render(&CFG()))) } else { None };
        runs.push((i, m.out, r.trace, known));
    }
    // Whatever the input, the source is accepted or rejected as a whole.
    if !reject && rejects(&b, base) {
        reject = true;
    }
    Case {
        key,
        src,
        want: if reject { Want::Reject } else { Want::Runs(runs) },
        states: 1,
        steps: count(&b),
    }
}

/// Is there a mismatch in any body, executed or not?
fn rejects(b: &Body, base: usize) -> bool {
    let flat = Body {
        items: b
            .items
            .iter()
            .map(|(g, it)| {
                (
                    *g,
                    match it {
                        It::If(..) | It::For(..) | It::Match(..) | It::Over(..) | It::MatchX(..) => tok("a"),
                        other => other.clone(),
                    },
                )
            })
            .collect(),
        ..b.clone()
    };
    if Run::new(crate::shard::IN0).body(&flat, base).is_err() {
        return true;
    }
    b.items.iter().any(|(_, it)| match it {
        It::If(_, _, t, e) => rejects(t, base) || e.as_ref().is_some_and(|e| rejects(e, base)),
        It::MatchX(_, _, _, a) => a.iter().any(|a| rejects(&a.1, base)),
        It::For(_, j, b) | It::Over(_, _, _, j, b) => rejects(b, base) || j.as_ref().is_some_and(|j| rejects(j, base)),
        It::Match(a, _) => a.iter().any(|a| rejects(&a.1, base)),
        _ => false,
    })
}
