//! Reference lexer: an independent, boring model of the Rust lexical grammar.
//!
//! It is written from the Rust reference and structured like rustc's two-phase lexer (first find
//! where a lexeme ends by dispatching on its first character, then validate its contents), on
//! purpose unlike the try-each-alternative parser in the library. It is a three-valued oracle:
//! a string is accepted with a definite token list, rejected at a definite position, or left open
//! (`End::Open`) where only later compiler stages diagnose the input.

use unicode_ident::{is_xid_continue, is_xid_start};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Open(u8),
    Close(u8),
    Ident,
    /// char, Some(joint) or None when the spacing is left open
    Punct(char, Option<bool>),
    Lit,
    /// string literal whose value (not text) is given
    DocLit,
}

/// One event of the flattened token tree. `lo..hi` is the byte range of the token's span; for
/// Open/Close it is the range of the whole group.
#[derive(Clone, Debug)]
pub struct Ev {
    pub k: K,
    /// byte range of the text (or of the doc comment's contents); for synthesized tokens `doc`
    /// the text is fixed and the range empty
    pub lo: usize,
    pub hi: usize,
    pub tlo: usize,
    pub thi: usize,
    /// part of a doc comment desugaring
    pub synth: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Ok,
    /// rejected; byte offset of the lexeme or delimiter at fault, and whether that offset is
    /// itself specified
    Reject { at: usize, exact: bool },
    /// rejected because input ended inside the group opened at this byte offset
    Unclosed { at: usize },
    /// the property leaves the outcome open
    Open,
}

#[derive(Default)]
pub struct Lexer {
    c: Vec<char>,
    b: Vec<usize>,
    pub evs: Vec<Ev>,
    /// saw a pre-2021 reserved prefix (identifier directly followed by a quote or pound)
    pub reserved_prefix: bool,
    /// saw whitespace that is Unicode White_Space but not Pattern_White_Space
    pub wide_space: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Str,
    Byte,
    C,
}

enum Lex {
    /// end index in chars
    To(usize),
    Bad,
    BadInexact,
    Open,
}

pub const PUNCT: &str = "~!@#$%^&*-=+|;:,<.>/?'";

pub fn is_space(c: char) -> bool {
    c.is_whitespace() || c == '\u{200e}' || c == '\u{200f}'
}

pub fn is_pattern_space(c: char) -> bool {
    matches!(
        c,
        '\t' | '\n' | '\u{b}' | '\u{c}' | '\r' | ' ' | '\u{85}' | '\u{200e}' | '\u{200f}' | '\u{2028}' | '\u{2029}'
    )
}

pub fn id_start(c: char) -> bool {
    c == '_' || is_xid_start(c)
}
pub fn id_cont(c: char) -> bool {
    is_xid_continue(c)
}

pub const NOT_RAW: [&[char]; 5] = [
    &['_'],
    &['s', 'e', 'l', 'f'],
    &['S', 'e', 'l', 'f'],
    &['s', 'u', 'p', 'e', 'r'],
    &['c', 'r', 'a', 't', 'e'],
];

/// Evaluates the body of a cooked literal. Err(()) is an invalid body.
/// `out` receives (value, is_char): chars, or raw bytes for `\x80..` in byte and C strings.
pub fn unescape(body: &[char], mode: Mode, out: &mut Vec<u8>, open: &mut bool) -> Result<usize, ()> {
    let mut units = 0;
    let mut i = 0;
    let push = |c: char, out: &mut Vec<u8>| {
        let mut buf = [0; 4];
        out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
    };
    while i < body.len() {
        let c = body[i];
        i += 1;
        units += 1;
        match c {
            '\\' => {
                let e = *body.get(i).ok_or(())?;
                i += 1;
                match e {
                    'n' => out.push(b'\n'),
                    't' => out.push(b'\t'),
                    'r' => out.push(b'\r'),
                    '\\' => out.push(b'\\'),
                    '\'' => out.push(b'\''),
                    '"' => out.push(b'"'),
                    '0' => {
                        if mode == Mode::C {
                            return Err(());
                        }
                        out.push(0)
                    }
                    'x' => {
                        let h = body.get(i).and_then(|c| c.to_digit(16)).ok_or(())?;
                        let l = body.get(i + 1).and_then(|c| c.to_digit(16)).ok_or(())?;
                        i += 2;
                        let v = h * 16 + l;
                        match mode {
                            Mode::Str if v > 0x7f => return Err(()),
                            Mode::C if v == 0 => return Err(()),
                            _ => out.push(v as u8),
                        }
                    }
                    'u' => {
                        if mode == Mode::Byte {
                            return Err(());
                        }
                        if body.get(i) != Some(&'{') {
                            return Err(());
                        }
                        let close = body[i..].iter().position(|&c| c == '}').ok_or(())? + i;
                        let inner = &body[i + 1..close];
                        i = close + 1;
                        if inner.first() == Some(&'_') {
                            return Err(());
                        }
                        let mut v: u64 = 0;
                        let mut n = 0;
                        for &d in inner {
                            if d == '_' {
                                continue;
                            }
                            v = v * 16 + u64::from(d.to_digit(16).ok_or(())?);
                            n += 1;
                            if n > 6 {
                                return Err(());
                            }
                        }
                        if n == 0 {
                            return Err(());
                        }
                        let ch = char::from_u32(v as u32).ok_or(())?;
                        if mode == Mode::C && ch == '\0' {
                            return Err(());
                        }
                        push(ch, out);
                    }
                    '\n' | '\r' => {
                        if e == '\r' {
                            if body.get(i) != Some(&'\n') {
                                return Err(());
                            }
                            i += 1;
                        }
                        units -= 1;
                        while let Some(&w) = body.get(i) {
                            match w {
                                ' ' | '\t' | '\n' => i += 1,
                                '\r' => {
                                    if body.get(i + 1) != Some(&'\n') {
                                        // rustc skips a bare CR here, other tools do not
                                        *open = true;
                                    }
                                    i += 1;
                                }
                                _ => break,
                            }
                        }
                    }
                    _ => return Err(()),
                }
            }
            '\r' => {
                if body.get(i) != Some(&'\n') {
                    return Err(());
                }
                // CR LF denotes a line feed (source files are newline-normalised)
                i += 1;
                out.push(b'\n');
            }
            '\0' if mode == Mode::C => return Err(()),
            c if mode == Mode::Byte && !c.is_ascii() => return Err(()),
            c => push(c, out),
        }
    }
    Ok(units)
}

impl Lexer {
    fn at(&self, i: usize) -> char {
        // NUL doubles as end of input, as in rustc's lexer; callers test the index where it matters
        self.c.get(i).copied().unwrap_or('\0')
    }
    fn has(&self, i: usize, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.c.get(i + k) == Some(&ch))
    }
    fn eat(&self, mut i: usize, f: impl Fn(char) -> bool) -> usize {
        while i < self.c.len() && f(self.c[i]) {
            i += 1;
        }
        i
    }
    /// optional literal suffix, any identifier; a lone underscore is refused by rustc after lexing
    fn suffix(&self, i: usize) -> Lex {
        if i < self.c.len() && id_start(self.c[i]) {
            let j = self.eat(i, id_cont);
            if self.c[i..j] == ['_'] {
                return Lex::Open;
            }
            Lex::To(j)
        } else {
            Lex::To(i)
        }
    }
    pub fn load(&mut self, src: &str) {
        self.c.clear();
        self.b.clear();
        for (i, ch) in src.char_indices() {
            self.c.push(ch);
            self.b.push(i);
        }
        self.b.push(src.len());
        self.evs.clear();
        self.reserved_prefix = false;
        self.wide_space = false;
    }

    fn block_comment(&self, i: usize) -> Option<usize> {
        let mut depth = 0usize;
        let mut j = i;
        while j < self.c.len() {
            if self.has(j, "/*") {
                depth += 1;
                j += 2;
            } else if self.has(j, "*/") {
                depth -= 1;
                j += 2;
                if depth == 0 {
                    return Some(j);
                }
            } else {
                j += 1;
            }
        }
        None
    }

    fn dec(&self, i: usize) -> (usize, bool) {
        let j = self.eat(i, |c| c.is_ascii_digit() || c == '_');
        (j, self.c[i..j].iter().any(|c| c.is_ascii_digit()))
    }

    fn number(&self, i: usize) -> Lex {
        let mut base = 10;
        let mut j = i;
        if self.c[i] == '0' && matches!(self.at(i + 1), 'b' | 'o' | 'x') {
            base = match self.at(i + 1) {
                'b' => 2,
                'o' => 8,
                _ => 16,
            };
            let d = i + 2;
            j = if base == 16 {
                self.eat(d, |c| c.is_ascii_hexdigit() || c == '_')
            } else {
                self.dec(d).0
            };
            if self.c[d..j].iter().all(|&c| c == '_') {
                return Lex::Bad;
            }
            if self.c[d..j].iter().any(|&c| c != '_' && c.to_digit(base).is_none()) {
                return Lex::Bad;
            }
        } else {
            j = self.dec(j).0;
        }
        let mut exp = false;
        let mut float = false;
        if self.at(j) == '.' && self.at(j + 1) != '.' && !(j + 1 < self.c.len() && id_start(self.c[j + 1])) {
            float = true;
            j += 1;
            if self.at(j).is_ascii_digit() {
                j = self.dec(j).0;
                exp = matches!(self.at(j), 'e' | 'E');
            }
        } else if matches!(self.at(j), 'e' | 'E') {
            exp = true;
        }
        if exp {
            float = true;
            j += 1;
            if matches!(self.at(j), '+' | '-') {
                j += 1;
            }
            let (k, any) = self.dec(j);
            if !any {
                return Lex::Open; // empty exponent: diagnosed by a later stage
            }
            j = k;
        }
        if float && base != 10 {
            return Lex::Open; // "hexadecimal float literal is not supported"
        }
        let Lex::To(j) = self.suffix(j) else { return Lex::Open };
        if j < self.c.len() && id_cont(self.c[j]) {
            // a combining character directly after a number: invalid, position a matter of taste
            // (after an exponent it could be read as part of an odd suffix)
            return if exp { Lex::Open } else { Lex::BadInexact };
        }
        Lex::To(j)
    }

    /// `i` is just after the opening quote
    fn cooked(&self, i: usize, mode: Mode) -> Lex {
        let mut j = i;
        loop {
            if j >= self.c.len() {
                return Lex::Bad;
            }
            match self.c[j] {
                '"' => break,
                '\\' => j += 2,
                _ => j += 1,
            }
        }
        let mut open = false;
        if unescape(&self.c[i..j], mode, &mut Vec::new(), &mut open).is_err() {
            return Lex::Bad;
        }
        if open {
            return Lex::Open;
        }
        self.suffix(j + 1)
    }

    /// `i` is at the first `#` or the quote
    fn raw(&self, i: usize, mode: Mode) -> Lex {
        let q = self.eat(i, |c| c == '#');
        let n = q - i;
        if self.at(q) != '"' || n > 255 {
            return Lex::Bad;
        }
        let mut j = q + 1;
        loop {
            if j >= self.c.len() {
                return Lex::Bad;
            }
            if self.c[j] == '"' && j + n < self.c.len() && self.c[j + 1..j + 1 + n].iter().all(|&c| c == '#') {
                break;
            }
            j += 1;
        }
        let body = &self.c[q + 1..j];
        for (k, &c) in body.iter().enumerate() {
            let bad = match c {
                '\r' => body.get(k + 1) != Some(&'\n'),
                '\0' => mode == Mode::C,
                c => mode == Mode::Byte && !c.is_ascii(),
            };
            if bad {
                return Lex::Bad;
            }
        }
        self.suffix(j + 1 + n)
    }

    /// character or byte literal; `i` is just after the opening quote
    fn quoted(&self, i: usize, mode: Mode) -> Lex {
        if i >= self.c.len() {
            return Lex::Bad;
        }
        let c = self.c[i];
        if c != '\\' && self.at(i + 1) == '\'' {
            if mode == Mode::Byte && !c.is_ascii() {
                return Lex::Bad;
            }
            if matches!(c, '\n' | '\r' | '\t' | '\'') {
                return Lex::Open; // must be escaped; diagnosed after lexing
            }
            return self.suffix(i + 2);
        }
        if c != '\\' {
            return Lex::Bad; // empty, unterminated or more than one character
        }
        let mut j = i;
        loop {
            if j >= self.c.len() {
                return Lex::Bad;
            }
            match self.c[j] {
                '\'' => break,
                '\\' => j += 2,
                _ => j += 1,
            }
        }
        let body = &self.c[i..j];
        if matches!(body.get(1), Some('\n' | '\r')) {
            return Lex::Bad;
        }
        let mut out = Vec::new();
        let mut open = false;
        match unescape(body, mode, &mut out, &mut open) {
            Ok(1) => self.suffix(j + 1),
            _ => Lex::Bad,
        }
    }

    fn push(&mut self, k: K, i: usize, j: usize) {
        let (lo, hi) = (self.b[i], self.b[j]);
        self.evs.push(Ev { k, lo, hi, tlo: lo, thi: hi, synth: false });
    }

    /// doc comment at char i? returns Some(Ok((end of comment, content range, inner)))
    fn doc(&self, i: usize) -> Option<Result<(usize, usize, usize, bool), ()>> {
        let inner = self.at(i + 2) == '!';
        let (end, lo, hi);
        if self.has(i, "//") {
            if !(inner || (self.at(i + 2) == '/' && self.at(i + 3) != '/')) {
                return None;
            }
            lo = i + 3;
            end = self.eat(lo, |c| c != '\n');
            // a line comment ends at LF or CR LF
            hi = if end > lo && end < self.c.len() && self.c[end - 1] == '\r' { end - 1 } else { end };
            if self.c[lo..hi].contains(&'\r') {
                return Some(Err(()));
            }
        } else if self.has(i, "/*") {
            if !(inner || (self.at(i + 2) == '*' && self.at(i + 3) != '*' && self.at(i + 3) != '/')) {
                return None;
            }
            end = match self.block_comment(i) {
                Some(e) => e,
                None => return Some(Err(())),
            };
            lo = i + 3;
            hi = end - 2;
            let body = &self.c[lo..hi];
            for (k, &c) in body.iter().enumerate() {
                if c == '\r' && body.get(k + 1) != Some(&'\n') {
                    return Some(Err(()));
                }
            }
        } else {
            return None;
        }
        Some(Ok((end, lo, hi, inner)))
    }

    /// Lexes the string loaded with `load`.
    pub fn run(&mut self) -> End {
        let n = self.c.len();
        let mut i = 0;
        let mut stack: Vec<(u8, usize, usize)> = Vec::new(); // delimiter, char index, event index
        if n > 0 && self.c[0] == '\u{feff}' {
            i = 1;
        }
        while i < n {
            let c = self.c[i];
            if is_space(c) {
                self.wide_space |= !is_pattern_space(c);
                i += 1;
                continue;
            }
            let rej = |at: usize| End::Reject { at, exact: true };
            if c == '/' && matches!(self.at(i + 1), '/' | '*') {
                match self.doc(i) {
                    Some(Err(())) => return rej(self.b[i]),
                    Some(Ok((end, lo, hi, inner))) => {
                        let (slo, shi) = (self.b[i], self.b[end]);
                        let mut ev = |k, tlo, thi| self.evs.push(Ev { k, lo: slo, hi: shi, tlo, thi, synth: true });
                        ev(K::Punct('#', Some(false)), slo, slo);
                        if inner {
                            ev(K::Punct('!', Some(false)), slo, slo);
                        }
                        ev(K::Open(b'['), slo, slo);
                        ev(K::Ident, slo, slo);
                        ev(K::Punct('=', Some(false)), slo, slo);
                        let (a, z) = (self.b[lo], self.b[hi]);
                        self.evs.push(Ev { k: K::DocLit, lo: slo, hi: shi, tlo: a, thi: z, synth: true });
                        self.evs.push(Ev { k: K::Close(b'['), lo: slo, hi: shi, tlo: slo, thi: slo, synth: true });
                        i = end;
                        continue;
                    }
                    None => {}
                }
                if self.at(i + 1) == '/' {
                    i = self.eat(i, |c| c != '\n');
                } else {
                    match self.block_comment(i) {
                        Some(e) => i = e,
                        None => return rej(self.b[i]),
                    }
                }
                continue;
            }
            match c {
                '(' | '[' | '{' => {
                    if self.has(i, "(/*ERROR*/)") {
                        return End::Open; // rustc-internal notation
                    }
                    stack.push((c as u8, i, self.evs.len()));
                    self.push(K::Open(c as u8), i, i + 1);
                    i += 1;
                    continue;
                }
                ')' | ']' | '}' => {
                    let open = match c {
                        ')' => b'(',
                        ']' => b'[',
                        _ => b'{',
                    };
                    match stack.pop() {
                        Some((d, at, ev)) if d == open => {
                            let (lo, hi) = (self.b[at], self.b[i + 1]);
                            self.evs[ev].hi = hi;
                            self.push(K::Close(d), i, i + 1);
                            self.evs.last_mut().unwrap().lo = lo;
                            i += 1;
                            continue;
                        }
                        _ => return rej(self.b[i]),
                    }
                }
                _ => {}
            }
            // what follows is a leaf
            let lex = if c.is_ascii_digit() {
                self.number(i)
            } else if c == '"' {
                self.cooked(i + 1, Mode::Str)
            } else if c == '\'' {
                let c1 = self.at(i + 1);
                let lifetime = self.at(i + 2) != '\'' && (id_start(c1) || c1.is_ascii_digit());
                if !lifetime {
                    self.quoted(i + 1, Mode::Str)
                } else {
                    let raw = c1 == 'r' && self.at(i + 2) == '#' && i + 3 < n && id_start(self.c[i + 3]);
                    let name = if raw { i + 3 } else { i + 1 };
                    let end = self.eat(name, id_cont);
                    let bad = if raw {
                        NOT_RAW.contains(&&self.c[name..end]) || self.at(end) == '\''
                    } else {
                        c1.is_ascii_digit() || matches!(self.at(end), '\'' | '#')
                    };
                    if bad {
                        return rej(self.b[i]);
                    }
                    self.push(K::Punct('\'', Some(true)), i, i + 1);
                    self.push(K::Ident, i + 1, end);
                    i = end;
                    continue;
                }
            } else if id_start(c) {
                let c1 = self.at(i + 1);
                let c2 = self.at(i + 2);
                match c {
                    'r' if c1 == '"' => self.raw(i + 1, Mode::Str),
                    'r' if c1 == '#' => {
                        if i + 2 < n && id_start(c2) {
                            let end = self.eat(i + 2, id_cont);
                            if NOT_RAW.contains(&&self.c[i + 2..end]) {
                                return rej(self.b[i]);
                            }
                            self.reserved_prefix |= matches!(self.at(end), '"' | '\'' | '#');
                            self.push(K::Ident, i, end);
                            i = end;
                            continue;
                        }
                        self.raw(i + 1, Mode::Str)
                    }
                    'b' if c1 == '\'' => self.quoted(i + 2, Mode::Byte),
                    'b' if c1 == '"' => self.cooked(i + 2, Mode::Byte),
                    'b' if c1 == 'r' && matches!(c2, '"' | '#') => self.raw(i + 2, Mode::Byte),
                    'c' if c1 == '"' => self.cooked(i + 2, Mode::C),
                    'c' if c1 == 'r' && matches!(c2, '"' | '#') => self.raw(i + 2, Mode::C),
                    _ => {
                        let end = self.eat(i, id_cont);
                        self.reserved_prefix |= matches!(self.at(end), '"' | '\'' | '#');
                        self.push(K::Ident, i, end);
                        i = end;
                        continue;
                    }
                }
            } else if PUNCT.contains(c) {
                let nx = self.at(i + 1);
                let spacing = if nx == '\'' {
                    None
                } else if nx == '/' && matches!(self.at(i + 2), '/' | '*') {
                    Some(false)
                } else {
                    Some(i + 1 < n && PUNCT.contains(nx))
                };
                self.push(K::Punct(c, spacing), i, i + 1);
                i += 1;
                continue;
            } else {
                return rej(self.b[i]);
            };
            match lex {
                Lex::To(j) => {
                    self.push(K::Lit, i, j);
                    i = j;
                }
                Lex::Bad => return rej(self.b[i]),
                Lex::BadInexact => return End::Reject { at: self.b[i], exact: false },
                Lex::Open => return End::Open,
            }
        }
        match stack.last() {
            Some(&(_, at, _)) => End::Unclosed { at: self.b[at] },
            None => End::Ok,
        }
    }
}
