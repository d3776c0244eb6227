//! Reference models of layout. Independent of genco: plain values only.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// Rendered text (possibly empty).
    Text(String),
    /// Something that occupies a place in the stream but renders to nothing.
    Mark,
    Space,
    Push,
    Line,
    Ind(i16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Brk {
    Start,
    None,
    Push,
    Line,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Indent {
    Space(usize),
    Tab,
}

#[derive(Clone, Debug)]
pub struct LCfg {
    pub ind: Indent,
    pub nl: String,
}
impl LCfg {
    pub fn spaces(n: usize) -> Self {
        LCfg { ind: Indent::Space(n), nl: "\n".into() }
    }
}

/// The specified meaning of a history of layout operations: one pass, one
/// pending break, one pending space, one indentation level.
#[derive(Clone, Debug)]
pub struct Ideal {
    pub out: String,
    pub brk: Brk,
    pub space: bool,
    pub level: i32,
    /// A pending empty line that something (non-rendered) already follows:
    /// an indentation change no longer reduces it to a plain break.
    pub line_kept: bool,
    /// Content has been recorded since the last text? Used to flag histories
    /// in which indentation changes cancel out with nothing in between.
    run: Vec<i16>,
    pub net_zero: bool,
}

impl Default for Ideal {
    fn default() -> Self {
        Ideal {
            out: String::new(),
            brk: Brk::Start,
            space: false,
            level: 0,
            line_kept: false,
            run: Vec::new(),
            net_zero: false,
        }
    }
}

impl Ideal {
    pub fn op(&mut self, op: &Op, cfg: &LCfg) {
        match op {
            Op::Space => self.space = true,
            Op::Push => {
                self.space = false;
                if self.brk == Brk::None {
                    self.brk = Brk::Push;
                }
            }
            Op::Line => {
                self.space = false;
                if self.brk != Brk::Start {
                    if self.brk != Brk::Line {
                        self.line_kept = false;
                    }
                    self.brk = Brk::Line;
                }
            }
            Op::Ind(0) => {}
            Op::Ind(n) => {
                self.space = false;
                match self.brk {
                    Brk::Start => {}
                    Brk::Line if self.line_kept => {}
                    _ => self.brk = Brk::Push,
                }
                self.level += *n as i32;
                self.run.push(*n);
                // Some suffix of the run of indentation changes cancels out.
                let mut s = 0i32;
                for v in self.run.iter().rev() {
                    s += *v as i32;
                    if s == 0 {
                        self.net_zero = true;
                    }
                }
            }
            Op::Mark => {
                self.run.clear();
                if self.brk == Brk::Line {
                    self.line_kept = true;
                }
            }
            Op::Text(s) if s.is_empty() => self.op(&Op::Mark, cfg),
            Op::Text(s) => {
                self.run.clear();
                self.flush(cfg);
                self.out.push_str(s);
            }
        }
    }

    fn flush(&mut self, cfg: &LCfg) {
        let n = match self.brk {
            Brk::Start => Some(0),
            Brk::None => None,
            Brk::Push => Some(1),
            Brk::Line => Some(2),
        };
        if let Some(n) = n {
            for _ in 0..n {
                self.out.push_str(&cfg.nl);
            }
            let lvl = self.level.max(0) as usize;
            match cfg.ind {
                Indent::Space(k) => self.out.push_str(&" ".repeat(k * lvl)),
                Indent::Tab => self.out.push_str(&"\t".repeat(lvl)),
            }
        }
        if self.space {
            self.out.push(' ');
        }
        self.brk = Brk::None;
        self.space = false;
        self.line_kept = false;
    }

    /// Hash of everything that determines future behaviour.
    pub fn abstract_state(&self) -> u64 {
        let mut h = DefaultHasher::new();
        (self.brk, self.space, self.level, self.line_kept).hash(&mut h);
        h.finish()
    }
}

/// The normal form a stream takes: what a sequence of operations is stored as.
/// `Text`/`Mark` are opaque.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Norm(pub Vec<Op>);

impl Norm {
    pub fn op(&mut self, op: &Op) {
        let v = &mut self.0;
        match op {
            Op::Space => {
                if v.last() != Some(&Op::Space) {
                    v.push(Op::Space)
                }
            }
            Op::Push => {
                while matches!(v.last(), Some(Op::Space | Op::Push)) {
                    v.pop();
                }
                if v.last() != Some(&Op::Line) {
                    v.push(Op::Push);
                }
            }
            Op::Line => {
                while matches!(v.last(), Some(Op::Line | Op::Push)) {
                    v.pop();
                }
                v.push(Op::Line);
            }
            Op::Ind(0) => {}
            Op::Ind(n) => {
                let mut n = *n;
                loop {
                    match v.last() {
                        Some(Op::Space | Op::Push | Op::Line) => {
                            v.pop();
                        }
                        Some(Op::Ind(k)) => {
                            n = n.wrapping_add(*k);
                            v.pop();
                        }
                        _ => break,
                    }
                }
                if n != 0 {
                    v.push(Op::Ind(n));
                }
            }
            other => v.push(other.clone()),
        }
    }
    pub fn of(ops: &[Op]) -> Norm {
        let mut n = Norm::default();
        for o in ops {
            n.op(o);
        }
        n
    }
    /// Rendering of the stored form (used to recognise exactly the listed
    /// net-zero finding, never to excuse anything else).
    pub fn render(&self, cfg: &LCfg) -> String {
        let mut m = Ideal::default();
        for o in &self.0 {
            // In the stored form a Line that precedes an indentation change
            // can only be one that was kept.
            m.op(o, cfg);
        }
        m.out
    }
}

pub fn ideal(ops: &[Op], cfg: &LCfg) -> Ideal {
    let mut m = Ideal::default();
    for o in ops {
        m.op(o, cfg);
    }
    m
}
