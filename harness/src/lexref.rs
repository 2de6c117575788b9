//! Independent reference for one token, from ECMA-262 clause 11 (what the properties T04-T10 state), on chars.

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Eof,
    Lt,
    Punct(&'static str),
    LineComment(usize, usize),
    BlockComment(usize, usize),
    Regex { body: (usize, usize), flags: (usize, usize) },
    Name,
    /// value, and whether it must be exact (None: not compared)
    Num(Option<(f64, bool)>),
    Str(usize, usize),
    /// starts with brace, ends with brace, text
    Tmpl(bool, bool, usize, usize),
}

#[derive(Debug, Clone, PartialEq)]
pub enum R {
    Tok(Kind, usize),
    Diag,
}

pub const PUNCTS: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "...", "<", "<=", "<<", "<<=", ">", ">=", ">>", ">>=",
    ">>>", ">>>=", "!", "!=", "!==", "=", "=>", "==", "===", "+", "+=", "++", "-", "-=", "--", "%", "%=", "*", "*=",
    "**", "**=", "/", "/=", "&", "&&", "&=", "|", "||", "|=", "^", "^=",
];

pub fn is_blank(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}')
}
pub fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}

/// The property whose subject the first character of the rest is.
pub fn category(s: &str, tmpl: bool) -> &'static str {
    let mut it = s.chars();
    let c = match it.next() { None => return "T02", Some(c) => c };
    let n = it.next().unwrap_or('\0');
    match c {
        c if is_lt(c) => "T03",
        '/' if n == '/' || n == '*' => "T05",
        '/' => "T08",
        '\'' | '"' => "T06",
        '`' => "T07",
        '}' if tmpl => "T07",
        '0'..='9' => "T09",
        '.' if n.is_ascii_digit() => "T09",
        c if PUNCTS.iter().any(|p| p.starts_with(c)) => "T04",
        _ => "T10",
    }
}

/// The characters of the rest, with byte offsets into the rest.
#[derive(Clone, Copy)]
pub struct Cs<'a> {
    pub all: &'a [(usize, char)],
    pub base: usize,
}
impl<'a> Cs<'a> {
    fn get(&self, i: usize) -> Option<(usize, char)> {
        self.all.get(i).map(|x| (x.0 - self.base, x.1))
    }
}

pub fn lex_ref(s: &str, cs: Cs, expr: bool, tmpl: bool) -> R {
    let at = |i: usize| cs.get(i).map(|x| x.1);
    let off = |i: usize| cs.get(i).map(|x| x.0).unwrap_or(s.len());
    let c = match at(0) { None => return R::Tok(Kind::Eof, 0), Some(c) => c };
    match c {
        '\r' if at(1) == Some('\n') => R::Tok(Kind::Lt, 2),
        c if is_lt(c) => R::Tok(Kind::Lt, c.len_utf8()),
        '/' if at(1) == Some('/') => {
            let mut i = 2;
            while let Some(c) = at(i) { if is_lt(c) { break } i += 1; }
            R::Tok(Kind::LineComment(2, off(i)), off(i))
        }
        '/' if at(1) == Some('*') => match s[2..].find("*/") {
            Some(k) => R::Tok(Kind::BlockComment(2, 2 + k), k + 4),
            None => R::Diag,
        },
        '/' if expr => regex(s, cs),
        '/' => if at(1) == Some('=') { R::Tok(Kind::Punct("/="), 2) } else { R::Tok(Kind::Punct("/"), 1) },
        '\'' | '"' => string(cs, c),
        '`' => template(s, cs, false),
        '}' if tmpl => template(s, cs, true),
        '0'..='9' => number(s),
        '.' if at(1).map_or(false, |c| c.is_ascii_digit()) => number(s),
        _ => {
            let best = PUNCTS.iter().filter(|p| s.starts_with(**p)).max_by_key(|p| p.len());
            if let Some(p) = best { return R::Tok(Kind::Punct(p), p.len()) }
            let n = s.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'$' || *b == b'_').count();
            if n > 0 { R::Tok(Kind::Name, n) } else { R::Diag }
        }
    }
}

fn regex(s: &str, cs: Cs) -> R {
    let mut i = 1;
    let mut class = false;
    loop {
        let (o, c) = match cs.get(i) { None => return R::Diag, Some(x) => x };
        if is_lt(c) { return R::Diag }
        match c {
            '\\' => {
                i += 1;
                match cs.get(i) { None => return R::Diag, Some(x) if is_lt(x.1) => return R::Diag, _ => {} }
            }
            '[' => class = true,
            ']' => class = false,
            '/' if !class => {
                let n = s[o + 1..].bytes().take_while(|b| b.is_ascii_lowercase()).count();
                return R::Tok(Kind::Regex { body: (1, o), flags: (o + 1, o + 1 + n) }, o + 1 + n);
            }
            _ => {}
        }
        i += 1;
    }
}

fn string(cs: Cs, q: char) -> R {
    let at = |i: usize| cs.get(i).map(|x| x.1);
    let mut i = 1;
    loop {
        let (o, c) = match cs.get(i) { None => return R::Diag, Some(x) => x };
        if c == q { return R::Tok(Kind::Str(1, o), o + 1) }
        if is_lt(c) { return R::Diag }
        if c != '\\' { i += 1; continue }
        match at(i + 1) {
            None => return R::Diag,
            Some('\r') if at(i + 2) == Some('\n') => i += 3,
            Some('x') => {
                for k in 2..4 { if !at(i + k).map_or(false, |c| c.is_ascii_hexdigit()) { return R::Diag } }
                i += 4;
            }
            Some('u') if at(i + 2) == Some('{') => {
                let mut k = i + 3;
                while at(k).map_or(false, |c| c.is_ascii_hexdigit()) { k += 1 }
                if k == i + 3 || at(k) != Some('}') { return R::Diag }
                i = k + 1;
            }
            Some('u') => {
                for k in 2..6 { if !at(i + k).map_or(false, |c| c.is_ascii_hexdigit()) { return R::Diag } }
                i += 6;
            }
            Some('1'..='9') => return R::Diag,
            Some('0') if at(i + 2).map_or(false, |c| c.is_ascii_digit()) => return R::Diag,
            Some(_) => i += 2,
        }
    }
}

fn template(s: &str, cs: Cs, brace: bool) -> R {
    let mut i = 1;
    loop {
        let (o, c) = match cs.get(i) { None => return R::Diag, Some(x) => x };
        match c {
            '`' => return R::Tok(Kind::Tmpl(brace, false, 1, o), o + 1),
            '$' if s[o..].starts_with("${") => return R::Tok(Kind::Tmpl(brace, true, 1, o), o + 2),
            '\\' => i += 2,
            _ => i += 1,
        }
    }
}

fn number(s: &str) -> R {
    let b = s.as_bytes();
    let dig = |i: usize| i < b.len() && b[i].is_ascii_digit();
    if b[0] == b'0' && b.len() > 1 {
        let radix = match b[1] | 32 { b'x' => 16, b'o' => 8, b'b' => 2, _ => 0 };
        if radix != 0 {
            let mut n = 2;
            let mut v: u128 = 0;
            let mut big = false;
            while n < b.len() {
                match (b[n] as char).to_digit(radix) {
                    Some(d) => {
                        v = v.saturating_mul(radix as u128).saturating_add(d as u128);
                        if v > (1 << 53) { big = true; v = 1 << 100 }
                    }
                    None => break,
                }
                n += 1;
            }
            if n == 2 || (radix < 10 && n < b.len() && b[n].is_ascii_digit()) { return R::Diag }
            return R::Tok(Kind::Num(if big { None } else { Some((v as f64, true)) }), n);
        }
    }
    let mut i = 0;
    if b[0] == b'0' { i = 1 } else { while dig(i) { i += 1 } }
    let int_end = i;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while dig(i) { i += 1 }
    }
    let mant_end = i;
    if i < b.len() && (b[i] | 32) == b'e' {
        let mut k = i + 1;
        if k < b.len() && (b[k] == b'+' || b[k] == b'-') { k += 1 }
        if dig(k) {
            while dig(k) { k += 1 }
            i = k;
        }
    }
    let v: f64 = s[..i].parse().unwrap_or(f64::NAN);
    let exact = i == int_end && v <= 9007199254740992.0;
    let m: f64 = s[..mant_end].parse().unwrap_or(f64::NAN);
    let e: f64 = if i > mant_end { s[mant_end + 1..i].parse().unwrap_or(0.0) } else { 0.0 };
    let zero = s[..mant_end].bytes().all(|c| c == b'0' || c == b'.');
    // intermediate values (digits, the scaled factor and the result) in the normal range
    let normal = mant_end - int_end < 290 && e.abs() < 290.0 && m < 1e300 && (v == 0.0 || (v > 1e-290 && v < 1e300));
    R::Tok(Kind::Num(if exact || zero { Some((v, true)) } else if normal { Some((v, false)) } else { None }), i)
}

/// (line, column) of every character boundary, by the definition in T03; None inside a CRLF pair
pub fn linecols(text: &str) -> Vec<Option<(usize, usize)>> {
    let mut v = vec![None; text.len() + 1];
    let (mut line, mut col, mut prev) = (1, 0, '\0');
    for (o, c) in text.char_indices() {
        if !(prev == '\r' && c == '\n') { v[o] = Some((line, col)) }
        if c == '\n' && prev == '\r' {
            line += 1;
            col = 0;
        } else if is_lt(c) && !(c == '\r' && text[o + 1..].starts_with('\n')) {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
        prev = c;
    }
    v[text.len()] = Some((line, col));
    v
}
