//! C09 quoted strings, C10 interpolated strings, C11 quotations inside quotations.
//!
//! Oracle: independent readers for the string literals of every target language. A reader either
//! returns what the literal denotes in the language (in the language's own code units) or says why
//! the literal is not valid.
use crate::core::*;
use genco::lang::*;
use genco::tokens::{quoted, Item, ItemStr};
use genco::Tokens;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum La {
    Rust,
    Js,
    Dart,
    Java,
    Csharp,
    C,
    Go,
    Python,
    Swift,
    Nix,
}
use La::*;

pub const LANGS: [La; 10] = [Rust, Js, Dart, Java, Csharp, C, Go, Python, Swift, Nix];

/// A quotation to render.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Q {
    /// a literal piece
    L(String),
    /// a space requested from the stream
    Sp,
    /// a nested quotation
    Quote(Vec<Q>),
    /// `$(name)`: single literal expression
    Var(&'static str),
    /// an expression of several items
    Expr(&'static [&'static str]),
    /// an expression which is itself an (interpolated) quotation
    EvalQuote(Vec<Q>),
}

fn put<L: Lang>(t: &mut Tokens<L>, qs: &[Q]) {
    for q in qs {
        match q {
            Q::L(s) => t.append(Item::Literal(ItemStr::from(s.as_str()))),
            Q::Sp => t.append(Item::<L>::Space),
            Q::Quote(inner) => {
                t.append(Item::<L>::OpenQuote(false));
                put(t, inner);
                t.append(Item::<L>::CloseQuote);
            }
            Q::Var(v) => {
                t.append(Item::<L>::OpenEval);
                t.append(*v);
                t.append(Item::<L>::CloseEval);
            }
            Q::Expr(es) => {
                t.append(Item::<L>::OpenEval);
                for e in *es {
                    t.append(*e);
                }
                t.append(Item::<L>::CloseEval);
            }
            Q::EvalQuote(inner) => {
                t.append(Item::<L>::OpenEval);
                t.append(Item::<L>::OpenQuote(has_eval(inner)));
                put(t, inner);
                t.append(Item::<L>::CloseQuote);
                t.append(Item::<L>::CloseEval);
            }
        }
    }
}

fn has_eval(qs: &[Q]) -> bool {
    qs.iter().any(|q| matches!(q, Q::Var(_) | Q::Expr(_) | Q::EvalQuote(_)))
}

fn render_l<L: Lang>(qs: &[Q], force_eval: bool) -> Result<String, String>
where
    L::Config: Default,
{
    rendered(|| {
        let mut t = Tokens::<L>::new();
        t.append(Item::<L>::OpenQuote(force_eval || has_eval(qs)));
        put(&mut t, qs);
        t.append(Item::<L>::CloseQuote);
        t.to_string()
    })
}

fn with<R>(la: La, v: impl V<R>) -> R {
    match la {
        Rust => v.go::<genco::lang::Rust>(),
        Js => v.go::<JavaScript>(),
        Dart => v.go::<genco::lang::Dart>(),
        Java => v.go::<genco::lang::Java>(),
        Csharp => v.go::<genco::lang::Csharp>(),
        C => v.go::<genco::lang::C>(),
        Go => v.go::<genco::lang::Go>(),
        Python => v.go::<genco::lang::Python>(),
        Swift => v.go::<genco::lang::Swift>(),
        Nix => v.go::<genco::lang::Nix>(),
    }
}

trait V<R> {
    fn go<L: Lang>(self) -> R
    where
        L::Config: Default;
}

struct Render<'a>(&'a [Q], bool);
impl V<Result<String, String>> for Render<'_> {
    fn go<L: Lang>(self) -> Result<String, String>
    where
        L::Config: Default,
    {
        render_l::<L>(self.0, self.1)
    }
}

pub fn render(la: La, qs: &[Q]) -> Result<String, String> {
    with(la, Render(qs, false))
}

/// Rendered through `quoted(text)` and through `quoted(tokens)`.
struct ViaApi<'a>(&'a str, u8);
impl V<Result<String, String>> for ViaApi<'_> {
    fn go<L: Lang>(self) -> Result<String, String>
    where
        L::Config: Default,
    {
        rendered(|| {
            let mut t = Tokens::<L>::new();
            match self.1 {
                0 => t.append(quoted(self.0)),
                1 => t.append(quoted(self.0.to_string())),
                2 => t.append(quoted(Some(self.0.to_string()))),
                3 => t.append(quoted(std::borrow::Cow::Borrowed(self.0))),
                4 => t.append(quoted(genco::tokens::display(self.0))),
                5 => t.append(quoted(format_args!("{}", self.0))),
                6 => {
                    let mut i = Tokens::<L>::new();
                    i.append(self.0);
                    t.append(quoted(i))
                }
                _ => {
                    let mut i = Tokens::<L>::new();
                    for c in self.0.chars() {
                        i.append(c.to_string());
                    }
                    t.append(quoted(&i))
                }
            }
            t.to_file_string()
        })
    }
}

// ---------------------------------------------------------------- readers

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Part {
    Text(Vec<u32>),
    /// the source of an expression; string literals inside of it are read recursively
    Expr(Vec<Tok>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Code(String),
    Str(Vec<Part>),
}

/// The code units in which the language represents text.
pub fn units(la: La, s: &str) -> Vec<u32> {
    match la {
        Js | Dart | Java | Csharp => s.encode_utf16().map(u32::from).collect(),
        C | Go => s.bytes().map(u32::from).collect(),
        _ => s.chars().map(u32::from).collect(),
    }
}

struct Rd {
    la: La,
    s: Vec<char>,
    i: usize,
}

type R<T> = Result<T, String>;

impl Rd {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, n: usize) -> Option<char> {
        self.s.get(self.i + n).copied()
    }
    fn next(&mut self) -> R<char> {
        let c = self.peek().ok_or("literal is not terminated")?;
        self.i += 1;
        Ok(c)
    }
    fn hex(&mut self, min: usize, max: usize) -> R<u32> {
        let mut v: u32 = 0;
        let mut n = 0;
        while n < max {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => {
                    v = v.checked_mul(16).and_then(|v| v.checked_add(d)).ok_or("hex overflow")?;
                    self.i += 1;
                    n += 1;
                }
                None => break,
            }
        }
        if n < min {
            return Err("too few hex digits".into());
        }
        Ok(v)
    }
    fn octal(&mut self, min: usize, max: usize) -> R<u32> {
        let mut v = 0;
        let mut n = 0;
        while n < max {
            match self.peek().and_then(|c| c.to_digit(8)) {
                Some(d) => {
                    v = v * 8 + d;
                    self.i += 1;
                    n += 1;
                }
                None => break,
            }
        }
        if n < min {
            return Err("too few octal digits".into());
        }
        Ok(v)
    }
    fn braced(&mut self) -> R<u32> {
        if self.next()? != '{' {
            return Err("expected {".into());
        }
        let v = self.hex(1, 8)?;
        if self.next()? != '}' {
            return Err("expected }".into());
        }
        Ok(v)
    }
    fn scalar(&self, v: u32) -> R<char> {
        char::from_u32(v).ok_or_else(|| format!("\\u{v:x} is not a scalar value"))
    }
    /// Push the character in units of the language.
    fn push(&self, out: &mut Vec<u32>, c: char) {
        let mut b = [0u8; 4];
        out.extend(units(self.la, c.encode_utf8(&mut b)));
    }
    /// One escape sequence, after the backslash.
    fn escape(&mut self, out: &mut Vec<u32>, quote: char) -> R<()> {
        let c = self.next()?;
        let bad = |c: char| -> R<()> { Err(format!("unknown escape \\{}", c.escape_default())) };
        let simple = |c: char, set: &str| -> Option<u32> {
            if !set.contains(c) {
                return None;
            }
            Some(match c {
                'a' => 7,
                'b' => 8,
                'f' => 12,
                'n' => 10,
                'r' => 13,
                't' => 9,
                'v' => 11,
                's' => 32,
                '0' => 0,
                c => c as u32,
            })
        };
        match self.la {
            Rust => match c {
                'x' => {
                    let v = self.hex(2, 2)?;
                    if v > 0x7f {
                        return Err("\\x above 7f".into());
                    }
                    out.push(v);
                }
                'u' => {
                    let v = self.braced()?;
                    let c = self.scalar(v)?;
                    self.push(out, c);
                }
                c => match simple(c, "nrt\\0'\"") {
                    Some(v) => out.push(v),
                    None => return bad(c),
                },
            },
            Js => match c {
                'x' => out.push(self.hex(2, 2)?),
                'u' => {
                    if self.peek() == Some('{') {
                        let v = self.braced()?;
                        let c = self.scalar(v)?;
                        self.push(out, c);
                    } else {
                        out.push(self.hex(4, 4)?);
                    }
                }
                '0' => {
                    if self.peek().is_some_and(|c| c.is_ascii_digit()) {
                        return Err("octal escape".into());
                    }
                    out.push(0);
                }
                '1'..='9' => return Err("octal escape".into()),
                '\r' | '\n' | '\u{2028}' | '\u{2029}' => return Err("line continuation".into()),
                c => match simple(c, "bfnrtv") {
                    Some(v) => out.push(v),
                    None => self.push(out, c),
                },
            },
            Dart => match c {
                'x' => out.push(self.hex(2, 2)?),
                'u' => {
                    if self.peek() == Some('{') {
                        let v = self.braced()?;
                        let c = self.scalar(v)?;
                        self.push(out, c);
                    } else {
                        out.push(self.hex(4, 4)?);
                    }
                }
                '\r' | '\n' => return Err("raw newline".into()),
                c => match simple(c, "nrfbtv") {
                    Some(v) => out.push(v),
                    None => self.push(out, c),
                },
            },
            Java => match c {
                '0'..='7' => {
                    self.i -= 1;
                    let max = if c <= '3' { 3 } else { 2 };
                    out.push(self.octal(1, max)?);
                }
                c => match simple(c, "bstnfr\"'\\") {
                    Some(v) => out.push(v),
                    None => return bad(c),
                },
            },
            Csharp => match c {
                'x' => out.push(self.hex(1, 4)?),
                'u' => out.push(self.hex(4, 4)?),
                'U' => {
                    let v = self.hex(8, 8)?;
                    let c = self.scalar(v)?;
                    self.push(out, c);
                }
                c => match simple(c, "'\"\\0abfnrtv") {
                    Some(v) => out.push(v),
                    None => return bad(c),
                },
            },
            C => match c {
                'x' => {
                    let v = self.hex(1, 100)?;
                    if v > 0xff {
                        return Err("hex escape out of range".into());
                    }
                    out.push(v);
                }
                '0'..='7' => {
                    self.i -= 1;
                    let v = self.octal(1, 3)?;
                    if v > 0xff {
                        return Err("octal escape out of range".into());
                    }
                    out.push(v);
                }
                'u' | 'U' => {
                    let n = if c == 'u' { 4 } else { 8 };
                    let v = self.hex(n, n)?;
                    if v < 0xa0 && ![0x24, 0x40, 0x60].contains(&v) {
                        return Err("invalid universal character name".into());
                    }
                    let c = self.scalar(v)?;
                    self.push(out, c);
                }
                c => match simple(c, "'\"?\\abfnrtv") {
                    Some(v) => out.push(v),
                    None => return bad(c),
                },
            },
            Go => match c {
                'x' => out.push(self.hex(2, 2)?),
                '0'..='7' => {
                    self.i -= 1;
                    let v = self.octal(3, 3)?;
                    if v > 0xff {
                        return Err("octal escape out of range".into());
                    }
                    out.push(v);
                }
                'u' | 'U' => {
                    let n = if c == 'u' { 4 } else { 8 };
                    let v = self.hex(n, n)?;
                    let c = self.scalar(v)?;
                    self.push(out, c);
                }
                c => match simple(c, "abfnrtv\\\"") {
                    Some(v) => out.push(v),
                    None => return bad(c),
                },
            },
            Python => match c {
                'x' => out.push(self.hex(2, 2)?),
                '0'..='7' => {
                    self.i -= 1;
                    out.push(self.octal(1, 3)?);
                }
                'u' | 'U' => {
                    let n = if c == 'u' { 4 } else { 8 };
                    let v = self.hex(n, n)?;
                    // A surrogate is representable, but is not what was asked for.
                    out.push(v);
                }
                'N' | '\n' | '\r' => return Err("unexpected escape".into()),
                c => match simple(c, "\\'\"abfnrtv") {
                    Some(v) => out.push(v),
                    None => return Err(format!("invalid escape \\{c} keeps its backslash")),
                },
            },
            Swift => match c {
                'u' => {
                    let v = self.braced()?;
                    let c = self.scalar(v)?;
                    self.push(out, c);
                }
                '(' => return Err("interpolation".into()),
                c => match simple(c, "0\\tnr\"'") {
                    Some(v) => out.push(v),
                    None => return bad(c),
                },
            },
            Nix => match c {
                'n' => out.push(10),
                'r' => out.push(13),
                't' => out.push(9),
                c => out.push(c as u32),
            },
        }
        let _ = quote;
        Ok(())
    }
    /// A whole string literal, at the current position.
    fn literal(&mut self) -> R<Vec<Part>> {
        let quote = self.next()?;
        let template = self.la == Js && quote == '`';
        if quote != '"' && !template {
            return Err(format!("not a string literal: starts with {quote:?}"));
        }
        let mut parts = Vec::new();
        let mut text: Vec<u32> = Vec::new();
        loop {
            let c = self.next()?;
            if c == quote {
                break;
            }
            match c {
                '\\' => {
                    self.escape(&mut text, quote)?;
                    continue;
                }
                '\n' | '\r' => match self.la {
                    Rust if c == '\n' => text.push(10),
                    // A raw line ending is part of the text; CR and CRLF read as LF.
                    Nix => {
                        if c == '\r' && self.peek() == Some('\n') {
                            self.i += 1;
                        }
                        text.push(10);
                    }
                    Js if template => {
                        if c == '\r' && self.peek() == Some('\n') {
                            self.i += 1;
                        }
                        text.push(10);
                    }
                    _ => return Err("raw line ending".into()),
                },
                '\u{85}' | '\u{2028}' | '\u{2029}' if self.la == Csharp => return Err("raw line ending".into()),
                '\0' if matches!(self.la, C | Go | Python | Nix) => return Err("raw NUL".into()),
                '\u{feff}' if self.la == Go => return Err("raw BOM".into()),
                // These can't be in the source of a Swift string literal.
                c if self.la == Swift && (c as u32) < 0x20 && c != '\t' => return Err("raw control character".into()),
                '$' if template => {
                    if self.peek() == Some('{') {
                        self.i += 1;
                        self.flush(&mut parts, &mut text);
                        parts.push(Part::Expr(self.expr()?));
                    } else {
                        text.push('$' as u32);
                    }
                }
                '$' if self.la == Dart => match self.peek() {
                    Some('{') => {
                        self.i += 1;
                        self.flush(&mut parts, &mut text);
                        parts.push(Part::Expr(self.expr()?));
                    }
                    Some(c) if c.is_ascii_alphabetic() || c == '_' => {
                        let mut id = String::new();
                        while let Some(c) = self.peek().filter(|c| c.is_ascii_alphanumeric() || *c == '_') {
                            id.push(c);
                            self.i += 1;
                        }
                        self.flush(&mut parts, &mut text);
                        parts.push(Part::Expr(vec![Tok::Code(id)]));
                    }
                    _ => return Err("$ without an expression".into()),
                },
                '$' if self.la == Nix => match self.peek() {
                    Some('{') => return Err("antiquotation".into()),
                    // `$$` and `$x` are plain text, and take the next character with them.
                    Some(n) if n != '"' && n != '\\' => {
                        text.push('$' as u32);
                        if n == '\r' || n == '\n' {
                            continue;
                        }
                        self.i += 1;
                        text.push(n as u32);
                    }
                    _ => text.push('$' as u32),
                },
                c => self.push(&mut text, c),
            }
        }
        self.flush(&mut parts, &mut text);
        Ok(parts)
    }
    fn flush(&self, parts: &mut Vec<Part>, text: &mut Vec<u32>) {
        if !text.is_empty() {
            parts.push(Part::Text(std::mem::take(text)));
        }
    }
    /// The expression up to the closing brace.
    fn expr(&mut self) -> R<Vec<Tok>> {
        let mut out = Vec::new();
        let mut code = String::new();
        let mut depth = 0;
        loop {
            match self.peek().ok_or("expression is not terminated")? {
                '}' if depth == 0 => {
                    self.i += 1;
                    break;
                }
                '"' | '`' => {
                    if !code.is_empty() {
                        out.push(Tok::Code(std::mem::take(&mut code)));
                    }
                    out.push(Tok::Str(self.literal()?));
                }
                c => {
                    match c {
                        '{' => depth += 1,
                        '}' => depth -= 1,
                        _ => {}
                    }
                    code.push(c);
                    self.i += 1;
                }
            }
        }
        if !code.is_empty() {
            out.push(Tok::Code(code));
        }
        Ok(out)
    }
}

/// Java translates `\uXXXX` before anything else happens.
fn java_unicode(s: &str) -> R<Vec<u16>> {
    let src: Vec<u16> = s.encode_utf16().collect();
    let mut out = Vec::new();
    let mut i = 0;
    let mut slashes = 0; // contiguous backslashes before this one
    while i < src.len() {
        let c = src[i];
        if c == b'\\' as u16 {
            if slashes % 2 == 0 && src.get(i + 1) == Some(&(b'u' as u16)) {
                let mut j = i + 1;
                while src.get(j) == Some(&(b'u' as u16)) {
                    j += 1;
                }
                let mut v = 0u32;
                for _ in 0..4 {
                    let d = src
                        .get(j)
                        .and_then(|c| char::from_u32(*c as u32))
                        .and_then(|c| c.to_digit(16))
                        .ok_or("malformed unicode escape")?;
                    v = v * 16 + d;
                    j += 1;
                }
                out.push(v as u16);
                // A backslash which came from an escape does not start another one.
                slashes = 0;
                i = j;
                continue;
            }
            slashes += 1;
        } else {
            slashes = 0;
        }
        out.push(c);
        i += 1;
    }
    Ok(out)
}

/// What does the literal, which has to be the whole of `s`, denote?
pub fn read(la: La, s: &str) -> R<Vec<Part>> {
    if la == Java {
        return read_java(s).map(|v| if v.is_empty() { vec![] } else { vec![Part::Text(v)] });
    }
    let mut r = Rd { la, s: s.chars().collect(), i: 0 };
    let out = r.literal()?;
    if r.i != r.s.len() {
        return Err(format!("{} characters after the literal", r.s.len() - r.i));
    }
    let _ = r.at(0);
    Ok(out)
}

fn read_java(s: &str) -> R<Vec<u32>> {
    let u = java_unicode(s)?;
    let mut out = Vec::new();
    let q = |c: char| c as u16;
    if u.first() != Some(&q('"')) {
        return Err("not a string literal".into());
    }
    let mut i = 1;
    loop {
        let c = *u.get(i).ok_or("literal is not terminated")?;
        i += 1;
        if c == q('"') {
            break;
        }
        if c == 10 || c == 13 {
            return Err("raw line ending".into());
        }
        if c != q('\\') {
            out.push(c as u32);
            continue;
        }
        // Escapes are all ASCII: read them with the shared reader.
        let rest: Vec<char> = u[i..].iter().take(8).map(|c| char::from_u32(*c as u32).unwrap_or('\u{fffd}')).collect();
        let mut r = Rd { la: Java, s: rest, i: 0 };
        r.escape(&mut out, '"')?;
        i += r.i;
    }
    if i != u.len() {
        return Err("characters after the literal".into());
    }
    Ok(out)
}

/// Same, for a literal without interpolations.
fn read_text(la: La, s: &str) -> R<Vec<u32>> {
    let parts = read(la, s)?;
    match parts.as_slice() {
        [] => Ok(vec![]),
        [Part::Text(t)] => Ok(t.clone()),
        other => Err(format!("literal contains interpolations: {other:?}")),
    }
}

fn decode_units(la: La, u: &[u32]) -> R<String> {
    let e = |_| "invalid text".to_string();
    match la {
        Js | Dart | Java | Csharp => {
            String::from_utf16(&u.iter().map(|c| *c as u16).collect::<Vec<_>>()).map_err(|_| "invalid text".into())
        }
        C | Go => String::from_utf8(u.iter().map(|c| *c as u8).collect()).map_err(|_| "invalid text".into()),
        _ => u.iter().map(|c| char::from_u32(*c).ok_or(())).collect::<Result<String, _>>().map_err(e),
    }
}

/// Text which the language has no way to represent.
fn unrepresentable(la: La, s: &str) -> bool {
    la == Nix && s.contains('\0')
}

// ---------------------------------------------------------------- C09

/// Characters which mean something to some target language.
pub const TRICKY: &[char] = &[
    '"', '\'', '\\', '$', '{', '}', '(', ')', '`', '#', '?', '%', '0', '7', '8', 'a', 'f', 'u', 'x', 'n', 'U', 'N', ' ', '/',
    '\n', '\r', '\t', '\0', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{11}', '\u{12}', '\u{14}', '\u{1b}',
    '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', 'ÿ', 'π', '\u{2028}', '\u{2029}', '\u{feff}', '\u{d7ff}', '\u{e000}',
    '\u{ffff}', '😊', '\u{10ffff}',
];
/// A smaller alphabet for deeper strings.
pub const TRICKY_DEEP: &[char] = &[
    '"', '\'', '\\', '$', '{', '`', '?', '0', '7', 'a', 'u', 'x', ' ', '\n', '\r', '\0', '\u{b}', '\u{c}', '\u{12}', '\u{7f}',
    '\u{85}', 'π', '😊',
];
const FOLLOW: &[char] = &['0', '7', '9', 'a', 'F', 'g', '{', '(', '"', '\\', '$', 'u', '`', ' ', '\n', 'π'];

fn show(qs: &[Q]) -> String {
    qs.iter()
        .map(|q| match q {
            Q::L(s) => format!("\"{}\"", s.escape_default()),
            Q::Sp => "space".into(),
            Q::Quote(i) => format!("quote({})", show(i)),
            Q::Var(v) => format!("$({v})"),
            Q::Expr(e) => format!("$({})", e.concat()),
            Q::EvalQuote(i) => format!("$(str({}))", show(i)),
        })
        .collect::<Vec<_>>()
        .join("+")
}

fn check_text(st: &mut Stats, la: La, qs: &[Q], text: &str) {
    if unrepresentable(la, text) {
        return;
    }
    let key = || format!("{la:?} {}", show(qs));
    if st.skip(key) {
        return;
    }
    st.traces += 1;
    let out = render(la, qs);
    verdict_text(st, la, key, text, out)
}

fn verdict_text(st: &mut Stats, la: La, key: impl Fn() -> String, text: &str, out: Result<String, String>) {
    let exp = || format!("a {la:?} literal denoting \"{}\"", text.escape_default());
    match out {
        Err(e) => st.fail(key(), "quoting failed", exp(), e),
        Ok(s) => {
            match read_text(la, &s) {
                Ok(u) if u == units(la, text) => {}
                Ok(u) => st.fail(
                    key(),
                    "the literal denotes another text",
                    exp(),
                    format!("{s} which denotes {:?}", decode_units(la, &u).unwrap_or_else(|_| format!("{u:?}"))),
                ),
                Err(e) => st.fail(key(), "not a valid literal", exp(), format!("{s} ({e})")),
            }
            st.outcome(&s);
        }
    }
}

fn pieces(text: &[char], mask: u32, empties: bool) -> Vec<Q> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for (i, c) in text.iter().enumerate() {
        cur.push(*c);
        if i + 1 == text.len() || mask & (1 << i) != 0 {
            out.push(Q::L(std::mem::take(&mut cur)));
            if empties {
                out.push(Q::L(String::new()));
            }
        }
    }
    out
}

pub fn c09(o: &Opts) -> Stats {
    let mut total = Stats::new(o);
    // Every scalar value, alone and in front of every class of following character.
    let follow_all = o.thorough();
    let blocks: Vec<(La, u32)> = LANGS.iter().flat_map(|l| (0..0x110000u32).step_by(0x4400).map(move |b| (*l, b))).collect();
    let s1 = par(o, blocks.len(), |i, st| {
        let (la, b) = blocks[i];
        for cp in b..(b + 0x4400).min(0x110000) {
            if st.too_many() {
                return;
            }
            let Some(c) = char::from_u32(cp) else { continue };
            st.states += 1;
            check_text(st, la, &[Q::L(c.to_string())], &c.to_string());
            let dense = cp < 0x300 || (0x1fff..0x2070).contains(&cp) || cp % 0x400 < 2 || c.is_control();
            if dense || follow_all {
                for f in FOLLOW {
                    let text: String = [c, *f].iter().collect();
                    st.transitions += 2;
                    check_text(st, la, &[Q::L(text.clone())], &text);
                    check_text(st, la, &[Q::L(c.to_string()), Q::L(f.to_string())], &text);
                }
            }
        }
    });
    total.merge(s1);
    total.bounds.push(format!(
        "all 1112064 scalar values x {} languages; followed by {:?} in the same or the next piece for {}",
        LANGS.len(),
        FOLLOW,
        if follow_all { "all of them" } else { "all below U+0300, all controls, U+1FFF..U+2070 and two of every 1024" }
    ));
    // Every string over the tricky alphabet, every way of splitting it into pieces.
    let run = |al: &'static [char], n: usize, splits: bool, total: &mut Stats| {
        let jobs: Vec<(La, usize)> = LANGS.iter().flat_map(|l| (0..al.len()).map(move |i| (*l, i))).collect();
        let s = par(o, jobs.len(), |j, st| {
            let (la, first) = jobs[j];
            let mut idx = vec![first];
            if first == 0 {
                check_text(st, la, &[], "");
            }
            loop {
                if st.too_many() {
                    return;
                }
                let text: Vec<char> = idx.iter().map(|i| al[*i]).collect();
                let s: String = text.iter().collect();
                st.states += 1;
                st.transitions += 1;
                let masks = if splits { 1u32 << (text.len() - 1) } else { 1 };
                for m in 0..masks {
                    check_text(st, la, &pieces(&text, m, false), &s);
                }
                if text.len() <= 2 {
                    for m in 0..masks {
                        check_text(st, la, &pieces(&text, m, true), &s);
                    }
                    // Spaces requested from the stream are part of the text.
                    if !text.contains(&' ') {
                        let mut qs = vec![Q::Sp];
                        for c in &text {
                            qs.push(Q::L(c.to_string()));
                            qs.push(Q::Sp);
                        }
                        let e: String = std::iter::once(' ').chain(text.iter().flat_map(|c| [*c, ' '])).collect();
                        check_text(st, la, &qs, &e);
                    }
                    for api in 0..8u8 {
                        if unrepresentable(la, &s) {
                            continue;
                        }
                        let key = || format!("{la:?} quoted() form {api} of \"{}\"", s.escape_default());
                        if st.skip(key) {
                            continue;
                        }
                        st.traces += 1;
                        let out = with(la, ViaApi(&s, api)).and_then(|f| body_of(la, &f));
                        verdict_text(st, la, key, &s, out);
                    }
                }
                // next: depth first over strings starting with `first`
                if idx.len() < n {
                    idx.push(0);
                } else {
                    loop {
                        let l = idx.len();
                        if l == 1 {
                            break;
                        }
                        idx[l - 1] += 1;
                        if idx[l - 1] < al.len() {
                            break;
                        }
                        idx.pop();
                    }
                    if idx.len() == 1 {
                        break;
                    }
                }
            }
        });
        total.merge(s);
        total.bounds.push(format!("all strings of length 0..={n} over {} characters {:?}, every split into pieces", al.len(), al));
    };
    run(TRICKY, 3, true, &mut total);
    run(TRICKY_DEEP, o.pick(4, 5), true, &mut total);
    // Long ones: two characters with anything else far away, or over and over.
    let lens: &[usize] = o.pick(&[8, 16, 31, 32, 33, 64, 65, 127, 128, 256, 257, 1024, 4096], &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 8192, 65536]);
    let jobs: Vec<(La, usize)> = lens.iter().rev().flat_map(|n| LANGS.iter().map(move |l| (*l, *n))).collect();
    let s = par(o, jobs.len(), |j, st| {
        let (la, n) = jobs[j];
        let far = "a".repeat(n);
        for c in TRICKY {
            for d in TRICKY {
                if n > 129 && !(['a', '"', '0'].contains(d) || c == d) {
                    continue;
                }
                if st.too_many() {
                    return;
                }
                st.states += 1;
                st.transitions += 5;
                let (c, d) = (c.to_string(), d.to_string());
                let cd = format!("{c}{d}");
                for text in [format!("{far}{cd}"), format!("{cd}{far}"), format!("{c}{far}{d}"), cd.repeat(n / 2)] {
                    check_text(st, la, &[Q::L(text.clone())], &text);
                }
                check_text(st, la, &[Q::L(format!("{far}{c}")), Q::L(format!("{d}{far}"))], &format!("{far}{cd}{far}"));
                if n <= 300 {
                    check_text(st, la, &vec![Q::L(cd.clone()); n], &cd.repeat(n));
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("pairs of these characters before, behind and between {lens:?} others, and repeated as often, as one piece and as many"));
    if o.thorough() && o.only.is_none() {
        real_tools(&mut total);
    }
    total.sample(|| format!("Js \"\\0\"+\"1\" -> {:?}", render(Js, &[Q::L("\0".into()), Q::L("1".into())])));
    total.sample(|| format!("C \"\\x7f\"+\"a\" -> {:?}", render(C, &[Q::L("\u{7f}".into()), Q::L("a".into())])));
    total.sample(|| format!("Java U+000C -> {:?}", render(Java, &[Q::L("\u{c}".into())])));
    total
}

/// Rendered literals for the real compilers (tools/validate_readers.py).
pub fn dump() {
    use std::io::Write as _;
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut texts: Vec<String> = crate::flows::seqs(TRICKY, 2).into_iter().map(|v| v.into_iter().collect()).collect();
    texts.extend((0..0x3100u32).filter_map(char::from_u32).map(|c| c.to_string()));
    for la in LANGS {
        for t in &texts {
            if unrepresentable(la, t) {
                continue;
            }
            // Raw directional characters are valid, but javac and rustc warn about them.
            if let Ok(l) = render(la, &[Q::L(t.clone())]) {
                let _ = writeln!(out, "[{}, {}, {}]", json_str(&format!("{la:?}")), json_str(t), json_str(&l));
            }
        }
    }
}

/// Have the real compilers read the literals.
fn real_tools(st: &mut Stats) {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let exe = std::env::current_exe().unwrap();
    let Ok(o) = std::process::Command::new("python3").arg(format!("{root}/tools/validate_readers.py")).arg(exe).output() else {
        st.bounds.push("real compilers: python3 not available".into());
        return;
    };
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let mut w = l.splitn(4, ' ');
        let (la, n, bad, rest) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        match (n.parse::<u64>(), bad.parse::<u64>()) {
            (Ok(n), Ok(bad)) => {
                st.traces += n;
                st.bump(&format!("read_by_real_{la}"), n);
                if bad > 0 {
                    st.fail(format!("real {la}"), format!("{bad} of {n} literals are read differently by the real implementation"), "same text", rest);
                }
            }
            _ => st.bounds.push(format!("real compilers: {l}")),
        }
    }
}

/// The literal of a file which consists of nothing else.
fn body_of(la: La, file: &str) -> R<String> {
    let mut s = file;
    if la == Nix {
        // an (empty) argument set comes first
        if let Some(i) = s.find("}:") {
            s = s[i + 2..].trim_start_matches(['\n', ' ']);
        }
    }
    if la == Go || la == Java || la == Csharp {
        s = s.trim_start_matches('\n');
    }
    let s = s.trim_start_matches('\n');
    match s.strip_suffix('\n') {
        Some(s) => Ok(s.to_string()),
        None => Err(format!("file does not end in a line break: {file:?}")),
    }
}

// ---------------------------------------------------------------- C10

fn expected_parts(la: La, qs: &[Q]) -> Vec<Part> {
    let mut out: Vec<Part> = Vec::new();
    let text = |out: &mut Vec<Part>, s: &str| {
        if s.is_empty() {
            return;
        }
        let u = units(la, s);
        if let Some(Part::Text(t)) = out.last_mut() {
            t.extend(u);
        } else {
            out.push(Part::Text(u));
        }
    };
    for q in qs {
        match q {
            Q::L(s) => text(&mut out, s),
            Q::Sp => text(&mut out, " "),
            Q::Quote(_) => unreachable!(),
            Q::Var(v) => out.push(Part::Expr(vec![Tok::Code(v.to_string())])),
            Q::Expr(e) => out.push(Part::Expr(vec![Tok::Code(e.concat())])),
            Q::EvalQuote(i) => out.push(Part::Expr(vec![Tok::Str(expected_parts(la, i))])),
        }
    }
    out
}

pub fn c10(o: &Opts) -> Stats {
    let l = |s: &str| Q::L(s.to_string());
    let inner = |v: &[Q]| Q::EvalQuote(v.to_vec());
    let al: Vec<Q> = vec![
        l("a"),
        l("0"),
        l("$"),
        l("{"),
        l("}"),
        l("`"),
        l("\""),
        l("\\"),
        l("_"),
        l("\n"),
        l(""),
        Q::Sp,
        Q::Var("x"),
        Q::Var("_y1"),
        Q::Var("a.b"),
        Q::Var("f(0)"),
        Q::Var("é"),
        Q::Expr(&["a", "+", "b"]),
        Q::Expr(&["x", ".", "y"]),
        inner(&[l("w")]),
        inner(&[l("$`\""), Q::Var("x"), l("n")]),
    ];
    let deep: Vec<Q> = vec![
        l("a"),
        l("$"),
        l("{"),
        l("`"),
        l("\\"),
        l("\r"),
        l("é"),
        l("😊"),
        l("\0"),
        Q::Sp,
        Q::Var("x"),
        Q::Var("this"),
        Q::Var("x.y"),
        Q::Var("1"),
        Q::Var("9z"),
        Q::Expr(&["{", "}"]),
        inner(&[inner(&[l("w"), Q::Var("z")]), l("{")]),
        inner(&[]),
    ];
    let mut total = Stats::new(o);
    for (al, n) in [(&al, o.pick(4, 5)), (&deep, o.pick(4, 5))] {
        let jobs: Vec<(La, usize)> = [Js, Dart].iter().flat_map(|l| (0..al.len()).map(move |i| (*l, i))).collect();
        let s = par(o, jobs.len(), |j, st| {
            let (la, first) = jobs[j];
            let mut idx = vec![first];
            loop {
                if st.too_many() {
                    return;
                }
                let qs: Vec<Q> = idx.iter().map(|i| al[*i].clone()).collect();
                st.states += 1;
                st.transitions += 1;
                // A request for two spaces in a row is one space: not a matter of quoting.
                let spaced = qs.windows(2).any(|w| w[0] == Q::Sp && (w[1] == Q::Sp || w[1] == l("")));
                if !spaced {
                    c10_case(st, la, &qs, has_eval(&qs));
                    if !has_eval(&qs) {
                        // No interpolation after all, but announced as such.
                        c10_case(st, la, &qs, true);
                    }
                }
                if idx.len() < n {
                    idx.push(0);
                } else {
                    loop {
                        let l = idx.len();
                        if l == 1 {
                            break;
                        }
                        idx[l - 1] += 1;
                        if idx[l - 1] < al.len() {
                            break;
                        }
                        idx.pop();
                    }
                    if idx.len() == 1 {
                        break;
                    }
                }
            }
        });
        total.merge(s);
        total.bounds.push(format!("all sequences of 1..={n} pieces out of: {}", al.iter().map(|q| show(std::slice::from_ref(q))).collect::<Vec<_>>().join(" ")));
    }
    // Pieces of several characters, whose escapes depend on what is next in the piece or after it.
    let chars = ['a', '0', '$', '{', '}', '`', '"', '\'', '\\', '\n', '\r', '\0', 'é', ' '];
    let n = o.pick(4, 5);
    let jobs: Vec<(La, char)> = [Js, Dart].iter().flat_map(|l| chars.iter().map(move |c| (*l, *c))).collect();
    let s = par(o, jobs.len(), |j, st| {
        let (la, first) = jobs[j];
        let mut last = vec![first.to_string()];
        for len in 1..=n {
            for p in &last {
                if st.too_many() {
                    return;
                }
                st.states += 1;
                st.transitions += 1;
                let l = || Q::L(p.clone());
                let x = || Q::Var("x");
                let mut cases = vec![vec![l(), x()], vec![x(), l()], vec![x(), l(), x()]];
                if len < n {
                    cases.extend([
                        vec![l()],
                        vec![l(), Q::Expr(&["a", "+", "b"])],
                        vec![l(), Q::L("{".into()), x()],
                        vec![Q::L("$".into()), l(), x()],
                        vec![l(), Q::Sp, x(), Q::Sp, l()],
                        vec![x(), x(), l(), l()],
                        vec![Q::EvalQuote(vec![l()])],
                        vec![Q::EvalQuote(vec![l(), x(), l()]), l()],
                    ]);
                }
                for qs in &cases {
                    c10_case(st, la, qs, true);
                }
            }
            if len < n {
                last = last.iter().flat_map(|p| chars.iter().map(move |c| format!("{p}{c}"))).collect();
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("all pieces of 1..={n} characters out of {chars:?} before, after and between interpolations, pieces and quotations"));
    let s = par(o, 128, |j, st| {
        let (la, part) = ([Js, Dart][j % 2], j / 2);
        for c in (part as u32..0x11_0000).step_by(64).filter_map(char::from_u32) {
            if st.too_many() {
                return;
            }
            st.states += 1;
            st.transitions += 1;
            c10_case(st, la, &[Q::Var("x"), Q::L(c.to_string()), Q::Var("x")], true);
            if o.tier == Tier::Thorough || (c as u32) < 0x3000 {
                for d in ["0", "a", "$", "{", "\\"] {
                    c10_case(st, la, &[Q::L(format!("{c}{d}")), Q::Var("x")], true);
                    c10_case(st, la, &[Q::Var("x"), Q::L(format!("{d}{c}"))], true);
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push("every scalar value between two interpolations".into());
    // Many pieces.
    let lens = [6usize, 8, 9, 16, 17, 32, 33, 64, 65, 128, 257];
    let s = par(o, 2 * lens.len(), |j, st| {
        let (la, n) = ([Js, Dart][j % 2], lens[j / 2]);
        for (i, a) in al.iter().enumerate() {
            for (k, b) in al.iter().enumerate() {
                if st.too_many() {
                    return;
                }
                st.states += 1;
                st.transitions += 3;
                let far = Q::L("é".repeat(n));
                for qs in [again(&[a, b], n), vec![a.clone(), far.clone(), b.clone()], vec![a.clone(), b.clone(), far.clone(), al[(i + k) % al.len()].clone()]] {
                    let spaced = qs.windows(2).any(|w| w[0] == Q::Sp && (w[1] == Q::Sp || w[1] == l("")));
                    if !spaced {
                        c10_case(st, la, &qs, true);
                    }
                }
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("all pairs of these pieces, repeated {lens:?} times, and with texts as long between them"));
    total.sample(|| format!("Dart $(x)+\"a\" -> {:?}", render(Dart, &[Q::Var("x"), l("a")])));
    total.sample(|| format!("Js \"$\"+\"{{\"+$(x) -> {:?}", render(Js, &[l("$"), l("{"), Q::Var("x")])));
    total
}

fn c10_case(st: &mut Stats, la: La, qs: &[Q], eval: bool) {
    let key = || format!("{la:?}{} {}", if eval { "" } else { " plain" }, show(qs));
    if st.skip(key) {
        return;
    }
    st.traces += 1;
    let exp = expected_parts(la, qs);
    match with(la, Render(qs, eval)) {
        Err(e) => st.fail(key(), "quoting failed", format!("{exp:?}"), e),
        Ok(s) => {
            match read(la, &s) {
                Ok(p) if p == exp => {}
                Ok(p) => st.fail(key(), format!("{s} reads as something else"), format!("{exp:?}"), format!("{p:?}")),
                Err(e) => st.fail(key(), "not a valid literal", format!("{exp:?}"), format!("{s} ({e})")),
            }
            st.outcome(&s);
        }
    }
}

// ---------------------------------------------------------------- C11

pub fn c11(o: &Opts) -> Stats {
    let outer: &[&str] = &["", "a", "\"", "\\", "$", "0", "`"];
    let chars = o.pick(TRICKY_DEEP, TRICKY);
    let mut inners: Vec<String> = crate::flows::seqs(chars, 2).into_iter().map(|v| v.into_iter().collect()).collect();
    if o.thorough() {
        inners.extend(crate::flows::seqs(TRICKY_DEEP, 3).into_iter().filter(|v| v.len() == 3).map(|v| v.into_iter().collect::<String>()));
    }
    let mut total = par(o, LANGS.len() * outer.len(), |j, st| {
        let la = LANGS[j % LANGS.len()];
        let pre = outer[j / LANGS.len()];
        for post in outer {
            for inner in &inners {
                if st.too_many() {
                    return;
                }
                st.states += 1;
                st.transitions += 1;
                let whole = [Q::L(inner.clone())];
                let split: Vec<Q> = inner.chars().map(|c| Q::L(c.to_string())).collect();
                c11_case(st, la, pre, &whole, post, inner);
                if split.len() > 1 {
                    c11_case(st, la, pre, &split, post, inner);
                }
            }
        }
    });
    // Trees of quotations.
    let els = tree_elements();
    let n = o.pick(3, 5);
    let all = crate::flows::seqs(&(0..els.len()).collect::<Vec<_>>(), n);
    let chunk = all.len().div_ceil(24);
    let trees = par(o, LANGS.len() * 24, |j, st| {
        let la = LANGS[j % LANGS.len()];
        for h in all.iter().skip(j / LANGS.len() * chunk).take(chunk) {
            st.states += 1;
            st.transitions += 1;
            let qs: Vec<Q> = h.iter().map(|i| els[*i].clone()).collect();
            let key = || format!("{la:?} tree {}", show(&qs));
            if st.too_many() {
                return;
            }
            if st.skip(key) {
                continue;
            }
            st.traces += 1;
            let got = render(la, &qs).and_then(|s| match_literal(la, &s, &qs).map(str::to_string).map_err(|e| format!("{s}: {e}")));
            match got {
                Ok(r) if r.is_empty() => st.outcome(&qs),
                Ok(rest) => st.fail(key(), "text behind the quotation", "", rest),
                Err(e) => st.fail(key(), "the literal does not denote its content", format!("{qs:?}"), e),
            }
        }
    });
    total.merge(trees);
    // Deep quotations, and many of them.
    let deep = o.pick(7, 9);
    let (marks, lens) = (["", "a", "\"", "\\", "$"], [4usize, 5, 8, 9, 16, 17, 33, 65, 129, 257]);
    let s = par(o, LANGS.len() * (deep + lens.len()), |j, st| {
        let (la, k) = (LANGS[j % LANGS.len()], j / LANGS.len());
        let mut cases = vec![];
        if k < deep {
            for code in 0..5usize.pow(3) {
                let mark = |i: usize| Q::L(marks[code / 5usize.pow(i as u32) % 5].into());
                let mut q = vec![mark(0)];
                for _ in 0..=k {
                    q = vec![mark(1), Q::Quote(q), mark(2)];
                }
                cases.push(q);
            }
        } else {
            let n = lens[k - deep];
            for a in &els {
                cases.push(vec![a.clone(); n]);
                cases.push(vec![Q::Quote(vec![a.clone(); n])]);
                for b in &els {
                    cases.push(again(&[a, b], n / 2));
                }
            }
            // Long texts in quotations, one after the other and in each other.
            for (x, y) in [(n * 20, 3), (3, n * 20), (n * 20, n * 20 + 1)] {
                for c in ["a", "é", "\"", "\\"] {
                    let q = |n: usize| Q::Quote(vec![Q::L(c.repeat(n))]);
                    cases.push(vec![q(x), q(y), q(x), q(1)]);
                    cases.push(vec![Q::L(c.repeat(y)), q(x), Q::Sp, Q::L(c.repeat(y)), q(y)]);
                    cases.push(vec![Q::Quote(vec![Q::L(c.repeat(x)), q(y), Q::L(c.into()), q(x / 8)]), q(y)]);
                }
            }
        }
        for qs in &cases {
            let flat = |qs: &[Q]| qs.windows(2).any(|w| w[0] == Q::Sp && w[1] == Q::Sp);
            if flat(qs) || qs.iter().any(|q| matches!(q, Q::Quote(i) if flat(i))) {
                continue;
            }
            let key = || format!("{la:?} tree {}", show(qs));
            if st.too_many() {
                return;
            }
            if st.skip(key) {
                continue;
            }
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            match render(la, qs).and_then(|s| match_literal(la, &s, qs).map(str::to_string).map_err(|e| format!("{s}: {e}"))) {
                Ok(r) if r.is_empty() => {}
                Ok(rest) => st.fail(key(), "text behind the quotation", "", rest),
                Err(e) => st.fail(key(), "the literal does not denote its content", format!("{qs:?}"), e),
            }
        }
    });
    total.merge(s);
    total.bounds.push(format!("quotations inside of each other to depth {}, with {marks:?} around them; one and two elements {lens:?} times; texts of up to {} characters", deep + 1, lens[lens.len() - 1] * 20));
    total.bounds.push(format!("all sequences of 0..={n} of {} elements (text, space, quotations of up to two further levels with up to three elements)", els.len()));
    total.bounds.push(format!("outer text before and after from {outer:?}; inner text: all strings of length 0..=2 over {} characters {:?}{}, whole or in pieces", chars.len(), chars, o.pick("", " and of length 3 over the 23 of the quick run")));
    total.sample(|| format!("Python a+quote(\"\\\"\") -> {:?}", render(Python, &[Q::L("a".into()), Q::Quote(vec![Q::L("\"".into())])])));
    total.sample(|| format!("Js quote(\"a\\\\b\") -> {:?}", render(Js, &[Q::Quote(vec![Q::L("a\\b".into())])])));
    total
}

fn c11_case(st: &mut Stats, la: La, pre: &str, inner: &[Q], post: &str, text: &str) {
    if unrepresentable(la, text) {
        return;
    }
    let qs = vec![Q::L(pre.into()), Q::Quote(inner.to_vec()), Q::L(post.into())];
    let key = || format!("{la:?} {}", show(&qs));
    if st.skip(key) {
        return;
    }
    st.traces += 1;
    let got = render(la, &qs).and_then(|s| {
        let outer = decode_units(la, &read_text(la, &s).map_err(|e| format!("{s}: {e}"))?)?;
        let mid = outer
            .strip_prefix(pre)
            .and_then(|m| m.strip_suffix(post))
            .ok_or_else(|| format!("{s}: outer text {outer:?}"))?;
        let u = read_text(la, mid).map_err(|e| format!("{s}: inner {mid}: {e}"))?;
        decode_units(la, &u).map_err(|e| format!("{s}: {e}"))
    });
    match got {
        Ok(t) if t == text => st.outcome(&t),
        Ok(t) => st.fail(key(), "the inner literal denotes another text", text.escape_default().to_string(), t.escape_default().to_string()),
        Err(e) => st.fail(key(), "not a valid pair of literals", text.escape_default().to_string(), e),
    }
}

fn again(qs: &[&Q], n: usize) -> Vec<Q> {
    (0..n * qs.len()).map(|i| qs[i % qs.len()].clone()).collect()
}

/// What a quotation may consist of: text, a space, or a quotation.
fn tree_elements() -> Vec<Q> {
    let l = |s: &str| Q::L(s.to_string());
    let q = |v: &[Q]| Q::Quote(v.to_vec());
    vec![
        l("a"),
        l("\""),
        l("\\"),
        l("$"),
        l("\n0"),
        Q::Sp,
        q(&[]),
        q(&[l("b")]),
        q(&[l("\"")]),
        q(&[l("\\"), l("n")]),
        q(&[Q::Sp, l("c"), Q::Sp]),
        q(&[q(&[])]),
        q(&[q(&[l("\"")])]),
        q(&[l("d"), q(&[l("\\")]), l("e")]),
        q(&[q(&[l("f")]), q(&[l("g")])]),
        q(&[q(&[l("h"), q(&[l("\"")])]), Q::Sp, q(&[])]),
    ]
}

/// Reads one literal at the start of the text, which has to consist of the
/// elements. Returns what is behind of it.
fn match_literal<'a>(la: La, text: &'a str, qs: &[Q]) -> Result<&'a str, String> {
    let mut last = String::from("nothing");
    // NB: no literal is a prefix of another one.
    for end in std::iter::once(text.len()).chain(text.match_indices(['"', '\'', '`']).map(|m| m.0 + 1)) {
        let (head, tail) = text.split_at(end);
        match read_text(la, head) {
            Ok(u) => {
                let content = decode_units(la, &u)?;
                let rest = match_content(la, &content, qs)?;
                return if rest.is_empty() { Ok(tail) } else { Err(format!("{rest:?} is left of {content:?}")) };
            }
            Err(e) => last = e,
        }
    }
    Err(format!("no literal at the start of {text:?}: {last}"))
}

fn match_content<'a>(la: La, mut text: &'a str, qs: &[Q]) -> Result<&'a str, String> {
    let mut spaced = false;
    for q in qs {
        let space = matches!(q, Q::Sp);
        match q {
            Q::Sp if spaced => (),
            Q::Sp => text = text.strip_prefix(' ').ok_or_else(|| format!("no space at {text:?}"))?,
            Q::L(s) => text = text.strip_prefix(s.as_str()).ok_or_else(|| format!("{s:?} expected at {text:?}"))?,
            Q::Quote(inner) => text = match_literal(la, text, inner)?,
            _ => return Err("not an element".into()),
        }
        spaced = space;
    }
    Ok(text)
}
