//! A custom language whose callbacks leave a readable trace in the output.
use genco::fmt;
use genco::lang::{Lang, LangItem, LangSupportsEval};
use genco::tokens::{FormatInto, Register};
use std::fmt::Write as _;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TL;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cfg(pub char);
impl Default for Cfg {
    fn default() -> Self {
        Cfg('c')
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fmt(pub char);
impl Default for Fmt {
    fn default() -> Self {
        Fmt('f')
    }
}

/// kind 0: one write; 1: three writes; 2: writes nothing; 3: fails; 4: write_char
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Imp {
    pub kind: u8,
    pub n: u32,
}

impl Imp {
    pub fn new(kind: u8, n: u32) -> Self {
        Imp { kind, n }
    }
    pub fn text(&self, c: char, f: char) -> String {
        match self.kind {
            0 => format!("<{}{}{}>", self.n, c, f),
            1 => format!("({}{}{})", self.n, c, f),
            4 => "~".to_string(),
            _ => String::new(),
        }
    }
}

impl LangItem<TL> for Imp {
    fn format(&self, out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fmt) -> fmt::Result {
        match self.kind {
            0 => out.write_str(&format!("<{}{}{}>", self.n, c.0, f.0)),
            1 => {
                write!(out, "({}", self.n)?;
                write!(out, "{}", c.0)?;
                write!(out, "")?;
                write!(out, "{})", f.0)
            }
            2 => Ok(()),
            4 => out.write_char('~'),
            _ => Err(std::fmt::Error),
        }
    }
}

impl FormatInto<TL> for Imp {
    fn format_into(self, t: &mut genco::Tokens<TL>) {
        t.append(genco::tokens::__lang_item::<TL>(self));
    }
}
impl Register<TL> for Imp {
    fn register(self, t: &mut genco::Tokens<TL>) {
        t.append(genco::tokens::__lang_item_register::<TL>(self));
    }
}

impl LangSupportsEval for TL {}

impl Lang for TL {
    type Config = Cfg;
    type Format = Fmt;
    type Item = Imp;

    fn open_quote(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fmt, e: bool) -> fmt::Result {
        write!(out, "«{}{}{}:", c.0, f.0, if e { 't' } else { 'n' })
    }
    fn close_quote(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fmt, e: bool) -> fmt::Result {
        write!(out, ":{}{}{}»", c.0, f.0, if e { 't' } else { 'n' })
    }
    fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fmt, l: &str) -> fmt::Result {
        write!(out, "$'{}{}{}'", c.0, f.0, l)
    }
    fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fmt) -> fmt::Result {
        write!(out, "{}{}{{", c.0, f.0)
    }
    fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Cfg, f: &Fmt) -> fmt::Result {
        write!(out, "}}{}{}", c.0, f.0)
    }
    /// Escapes every character, one by one.
    fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
        for ch in input.chars() {
            out.write_char('^')?;
            out.write_char(ch)?;
        }
        Ok(())
    }
}

pub type T = genco::Tokens<TL>;

pub fn render(t: &T, ind: fmt::Indentation, nl: &'static str) -> genco::fmt::Result<String> {
    let mut w = fmt::FmtWriter::new(String::new());
    let cfg = fmt::Config::from_lang::<TL>().with_indentation(ind).with_newline(nl);
    t.format(&mut w.as_formatter(&cfg), &Cfg::default(), &Fmt::default())?;
    Ok(w.into_inner())
}
