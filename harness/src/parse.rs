//! Falsifier for G01-G14: the real parser on token streams and on texts against the reference grammar.
use crate::gram::*;
use crate::rng::Rng;
use crate::{catch, unintended, Ctl, Finding};
use jsparse::tokenizer::tokens::{self, PunctuatorToken, Token};
use jsparse::tokenizer::{Hint, IntoTokenizer, TokenRange, Tokenizer};
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::sync::OnceLock;

/// Trivia before a token: w blank, l line terminator, c comment on one line, C comment over several lines.
#[derive(Debug, Clone, PartialEq)]
pub struct Tok { pub t: Tid, pub trivia: String }
impl Tok { pub fn lt(&self) -> bool { self.trivia.contains('l') || self.trivia.contains('C') } }
pub type Case = Vec<Tok>; // ends in EOF

fn punct(s: &str) -> PunctuatorToken {
    use PunctuatorToken::*;
    const ALL: &[PunctuatorToken] = &[CurlyOpen, CurlyClose, ParenOpen, ParenClose, SquareOpen, SquareClose, Semicolon, Comma, Tilde,
        Question, Colon, Period, Ellipsis, LAngle, LAngleEq, LAngleAngle, LAngleAngleEq, RAngle, RAngleEq, RAngleAngle, RAngleAngleEq,
        RAngleAngleAngle, RAngleAngleAngleEq, Exclam, ExclamEq, ExclamEqEq, Eq, Arrow, EqEq, EqEqEq, Plus, PlusEq, PlusPlus, Minus,
        MinusEq, MinusMinus, Percent, PercentEq, Star, StarEq, StarStar, StarStarEq, Slash, SlashEq, Amp, AmpAmp, AmpEq, Bar, BarBar,
        BarEq, Caret, CaretEq];
    *ALL.iter().find(|p| crate::lex::spelling(**p) == s).unwrap()
}

/// a token, with the i-th choice of what a literal holds
pub fn make(g: &Grammar, t: Tid, i: usize) -> Token<'static> {
    let text = ["t", "", "use strict"][i];
    let tm = |f| Token::Template(tokens::TemplateToken { format: f, cooked: text.into(), raw: text.into() });
    match &g.kinds[t as usize] {
        Sym::P(p) => Token::Punctuator(punct(p)),
        Sym::K(k) => Token::IdentifierName(tokens::IdentifierNameToken { name: k.clone().into() }),
        Sym::C(c) => match c.as_str() {
            "NUMBER" => Token::NumericLiteral(tokens::NumericLiteralToken { value: [1.0, 0.0, ::std::f64::INFINITY][i] }),
            "STRING" => Token::StringLiteral(tokens::StringLiteralToken { value: text.into() }),
            "REGEX" => Token::RegularExpressionLiteral(tokens::RegularExpressionLiteralToken { pattern: ["r", "/", "[/]"][i].into(), flags: ["g", "", "gimuy"][i].into() }),
            "TEMPLATE" => tm(tokens::TemplateFormat::NoSubstitution),
            "HEAD" => tm(tokens::TemplateFormat::Head),
            "MIDDLE" => tm(tokens::TemplateFormat::Middle),
            "TAIL" => tm(tokens::TemplateFormat::Tail),
            _ => Token::EOF(tokens::EOFToken {}),
        },
        _ => unreachable!(),
    }
}

const CHOICES: usize = 3;
thread_local! {
    static TOKENS: RefCell<Vec<Vec<Token<'static>>>> = RefCell::new(vec![]);
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

#[derive(Default)]
struct Log {
    /// index of the significant token being looked for, expression and template hint
    hints: Vec<(usize, bool, bool)>,
    requests: usize,
    eof_given: bool,
}

/// what the stream hands out
#[derive(Debug, Clone, Copy)]
enum Raw { Blank, Lt, Comment(bool), Tok(Tid) }

#[derive(Debug, Clone)]
pub struct Stream { raw: Vec<Raw>, pos: usize, sig: usize, line: usize }
impl Stream {
    fn new(c: &Case) -> Stream {
        let mut raw = vec![];
        for t in c {
            for x in t.trivia.chars() {
                raw.push(match x { 'w' => Raw::Blank, 'l' => Raw::Lt, 'c' => Raw::Comment(false), 'C' => Raw::Comment(true), _ => unreachable!() })
            }
            raw.push(Raw::Tok(t.t));
        }
        Stream { raw, pos: 0, sig: 0, line: 1 }
    }
}
fn hint_bits(h: &Hint) -> (bool, bool) {
    for b in 0..8u8 {
        let (e, t, s) = (b & 1 != 0, b & 2 != 0, b & 4 != 0);
        if *h == Hint::default().expression(e).template(t).strict(s) { return (e, t) }
    }
    panic!("hint")
}
impl<'code> Tokenizer<'code> for Stream {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'code>, &mut TokenRange)) {
        let (e, t) = hint_bits(h);
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.requests += 1;
            if l.requests > self.raw.len() + 16 { panic!("REQUEST LIMIT") }
            if !l.eof_given { l.hints.push((self.sig, e, t)) }
        });
        let r = self.raw[self.pos.min(self.raw.len() - 1)];
        out.1.start.offset = self.pos;
        out.1.start.line = self.line;
        *out.0 = match r {
            Raw::Blank => Token::Whitespace(tokens::WhitespaceToken {}),
            Raw::Lt => { self.line += 1; Token::LineTerminator(tokens::LineTerminatorToken {}) }
            Raw::Comment(m) => {
                if m { self.line += 1 }
                Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::Block, value: "c".into() })
            }
            Raw::Tok(t) => {
                let i = self.sig % CHOICES;
                if self.pos + 1 >= self.raw.len() { LOG.with(|l| l.borrow_mut().eof_given = true) } else { self.sig += 1 }
                TOKENS.with(|ts| ts.borrow()[t as usize][i].clone())
            }
        };
        out.1.end.offset = self.pos + 1;
        out.1.end.line = self.line;
        if self.pos + 1 < self.raw.len() { self.pos += 1 }
    }
}
impl<'code> IntoTokenizer<'code> for Stream {
    type Item = Stream;
    fn into_tokenizer(self) -> Stream { self }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Res { Ok, Err, Crash(String), Hang }

pub struct Outcome { res: Res, hints: Vec<(usize, bool, bool)>, eof: bool, state: Option<(bool, u8)> }

#[cfg(feature = "whitebox")]
fn run_any<'c, I: IntoTokenizer<'c> + 'c>(t: I) -> (bool, Option<(bool, u8)>) {
    let mut p = jsparse::parser::Parser::verif_new(t);
    let before = p.verif_state();
    let r = p.parse_module().is_ok();
    let after = p.verif_state();
    (r, Some((before.0 == after.0 && before.1 == after.1, after.2)))
}
#[cfg(not(feature = "whitebox"))]
fn run_any<'c, I: IntoTokenizer<'c> + 'c>(t: I) -> (bool, Option<(bool, u8)>) {
    let r = catch(move || jsparse::parser::parse_root::<I, ()>(t));
    match r {
        Ok(()) => (true, None),
        Err(m) if m.contains("called `Result::unwrap()` on an `Err` value") => (false, None),
        Err(m) => panic!("{}", m),
    }
}

fn run_case(c: &Case) -> Outcome {
    LOG.with(|l| *l.borrow_mut() = Log::default());
    let s = Stream::new(c);
    let r = catch(move || run_any(s));
    let (hints, eof) = LOG.with(|l| { let mut l = l.borrow_mut(); (std::mem::take(&mut l.hints), l.eof_given) });
    let (res, state) = match r {
        Ok((ok, st)) => (if ok { Res::Ok } else { Res::Err }, st),
        Err(m) if m.contains("REQUEST LIMIT") => (Res::Hang, None),
        Err(m) => (Res::Crash(m), None),
    };
    Outcome { res, hints, eof, state }
}

/// index of the first token that cannot be consumed
fn reference(g: &Grammar, c: &Case) -> Option<usize> {
    let mut st = g.fresh();
    for i in 0..c.len() {
        let next = c.get(i + 1).map(|n| (n.t, n.lt()));
        if !g.feed(&mut st, g.env(c[i].t, c[i].lt(), next)) { return Some(i) }
    }
    None
}

pub fn show(g: &Grammar, c: &Case) -> String {
    c.iter().map(|t| format!("{}{}", if t.lt() { "\u{23ce}" } else { "" }, match &g.kinds[t.t as usize] { Sym::P(s) | Sym::K(s) | Sym::C(s) => s.clone(), _ => String::new() }))
        .collect::<Vec<_>>().join(" ")
}
fn word(g: &Grammar, t: &Tok) -> String {
    format!("{}|{}", t.trivia, match &g.kinds[t.t as usize] { Sym::P(s) => format!("p{}", s), Sym::K(s) => format!("k{}", s), Sym::C(s) => format!("c{}", s), _ => String::new() })
}
pub fn repr(g: &Grammar, what: &str, cs: &[&Case]) -> String {
    let mut s = format!("parse {}", what);
    for c in cs { s += " ::"; for t in c.iter() { s += " "; s += &word(g, t) } }
    s
}

type Out = Vec<(&'static str, String)>;

fn balanced(g: &Grammar, c: &Case) -> bool {
    let mut st: Vec<&str> = vec![];
    for t in c {
        let s = match &g.kinds[t.t as usize] { Sym::P(s) | Sym::C(s) => s.as_str(), _ => continue };
        match s {
            "(" | "[" | "{" | "HEAD" => st.push(s),
            ")" => if st.pop() != Some("(") { return false },
            "]" => if st.pop() != Some("[") { return false },
            "}" => if st.pop() != Some("{") { return false },
            "MIDDLE" => if st.last() != Some(&"HEAD") { return false },
            "TAIL" => if st.pop() != Some("HEAD") { return false },
            _ => {}
        }
    }
    st.is_empty()
}

struct Probe { slash: Tid, slasheq: Tid, regex: Tid }
fn probe(g: &Grammar) -> Probe { Probe { slash: g.p("/"), slasheq: g.p("/="), regex: g.c("REGEX") } }

/// a wrong verdict the reference would give as well if one context flag of the constructs open at some token were another
fn context_at_fault(g: &Grammar, c: &Case, r: Option<usize>, o: &Outcome) -> Option<String> {
    let names = ["in", "yield", "await", "default"];
    let last = match r { Some(i) => i, None => o.hints.last().map_or(0, |h| h.0).min(c.len() - 1) };
    let first = last.saturating_sub(24);
    let step = |st: &mut Vec<Frame>, i: usize| g.feed(st, g.env(c[i].t, c[i].lt(), c.get(i + 1).map(|n| (n.t, n.lt()))));
    let mut st = g.fresh();
    for k in 0..last + 1 {
        if k >= first {
            for f in 0..4 {
                for m in 1..st.len().min(40) + 1 {
                    let n = st.len();
                    if g.nts[st[n - m].nt as usize].relevant >> f & 1 == 0 { continue }
                    let mut s = st.clone();
                    for x in &mut s[n - m..] { x.flags ^= 1 << f }
                    let mut stop = c.len();
                    for i in k..c.len() { if !step(&mut s, i) { stop = i; break } }
                    let same = match r { Some(_) => stop == c.len(), None => stop <= last && stop + 2 >= last };
                    if same { return Some(format!("{}, as if '{}' were {} at token {}", if r.is_some() { "accepted" } else { "rejected" }, names[f], if st[n - 1].flags >> f & 1 == 1 { "not permitted" } else { "permitted" }, k)) }
                }
            }
        }
        if !step(&mut st, k) { break }
    }
    None
}

// a line terminator matters after the first ones, and before the others
thread_local!(static TIED: std::cell::RefCell<(Vec<Tid>, Vec<Tid>)> = Default::default());
/// A wrong verdict that is right for the case with one line terminator, at a place where one matters, added or removed.
fn line_at_fault(g: &Grammar, c: &Case, r: Option<usize>, o: &Outcome) -> Option<String> {
    let last = match r { Some(i) => i, None => o.hints.last().map_or(0, |h| h.0).min(c.len() - 1) };
    for k in (last.saturating_sub(12)..last + 1).rev() {
        let here = TIED.with(|t| { let t = t.borrow(); t.1.contains(&c[k].t) || k > 0 && t.0.contains(&c[k - 1].t) });
        if !here { continue }
        let mut d = c.clone();
        d[k].trivia = if d[k].lt() { String::new() } else { "l".into() };
        if reference(g, &d).is_none() == (o.res == Res::Ok) && !wrong(g, &d) {
            return Some(format!("{}, as if {} line terminator were before token {}", if r.is_some() { "accepted" } else { "rejected" }, if c[k].lt() { "no" } else { "a" }, k));
        }
    }
    None
}
/// A wrong verdict that is right for the case with one semicolon added or removed near the fault.
fn semi_at_fault(g: &Grammar, c: &Case, r: Option<usize>, o: &Outcome) -> Option<String> {
    let last = match r { Some(i) => i, None => o.hints.last().map_or(0, |h| h.0).min(c.len() - 1) };
    let semi = g.p(";");
    for k in (last.saturating_sub(3)..last + 1).rev() {
        let drop = c[k].t == semi;
        let mut d = c.clone();
        if drop { d.remove(k); } else { d.insert(k, tk(semi, false)); }
        if reference(g, &d).is_none() == (o.res == Res::Ok) && !wrong(g, &d) {
            return Some(format!("{}, as if token {} {}", if r.is_some() { "accepted" } else { "rejected" }, k, if drop { "were not there" } else { "followed a semicolon" }));
        }
    }
    None
}

/// A wrong verdict that is right for the case with one word near the fault replaced by an ordinary name.
fn word_at_fault(g: &Grammar, c: &Case, r: Option<usize>, o: &Outcome) -> Option<String> {
    let last = match r { Some(i) => i, None => o.hints.last().map_or(0, |h| h.0).min(c.len() - 1) };
    let name = g.k("foo");
    for k in (last.saturating_sub(2)..last + 1).rev() {
        if !g.is_name(c[k].t) || c[k].t == name { continue }
        let mut d = c.clone();
        d[k].t = name;
        if reference(g, &d).is_none() == (o.res == Res::Ok) && !wrong(g, &d) {
            return Some(format!("{}, as if token {} were an ordinary name", if r.is_some() { "accepted" } else { "rejected" }, k));
        }
    }
    None
}

/// one case against the reference; returns whether the verdicts differ
pub fn check(g: &Grammar, c: &Case, out: &mut Out) -> bool {
    let o = run_case(c);
    let r = reference(g, c);
    let mut wrong = false;
    match &o.res {
        Res::Crash(m) => {
            if unintended(m) || true { out.push(("G12", format!("crash: {}", m))) }
            if r.is_none() { out.push(("G14", format!("valid program crashes the parser: {}", m))) }
            wrong = true;
        }
        Res::Hang => { out.push(("G11", "keeps requesting tokens after the end".into())); wrong = true }
        Res::Ok => {
            if let Some(i) = r {
                out.push(("G13", format!("accepted, but token {} does not continue the program", i)));
                wrong = true;
            }
            if !o.eof { out.push(("G03", "accepted without reading to the end of file".into())) }
            else if let Some((_, n)) = o.state { if n != 0 { out.push(("G03", format!("accepted with {} token(s) not consumed", n))) } }
            if !balanced(g, c) { out.push(("G04", "accepted with unbalanced delimiters".into())) }
        }
        Res::Err => if r.is_none() { out.push(("G14", "valid program rejected".into())); wrong = true },
    }
    if wrong && matches!(o.res, Res::Ok | Res::Err) {
        if let Some(m) = context_at_fault(g, c, r, &o) { out.push(("G05", m)) }
        if let Some(m) = line_at_fault(g, c, r, &o) { out.push(("G09", m)) }
        if let Some(m) = semi_at_fault(g, c, r, &o) { out.push(("G08", m)) }
        if let Some(m) = word_at_fault(g, c, r, &o) { out.push(("G10", m)) }
    }
    if let Some((same, _)) = o.state { if !same { out.push(("G05", "grammar context differs before and after the parse".into())) } }
    hints(g, c, r, &o, out);
    wrong
}

fn hints(g: &Grammar, c: &Case, r: Option<usize>, o: &Outcome, out: &mut Out) {
    let viable = r.unwrap_or(c.len());
    let pr = probe(g);
    let (slash, regex) = (pr.slash, pr.regex);
    let mut st = g.fresh(); // before token i-1
    let mut braces: Vec<bool> = vec![];
    let mut k = 0;
    for i in 0..c.len() {
        // hints used while looking for token i, which needs tokens 0..i-1 to be a viable prefix
        if i > viable { break }
        let mut cur = st.clone();
        if i > 0 && !g.feed(&mut cur, g.env(c[i - 1].t, c[i - 1].lt(), None)) {
            // only viable with a particular next token: nothing is known about a slash here
            cur.clear();
        }
        let mut want: Option<(bool, bool)> = None;
        while k < o.hints.len() && o.hints[k].0 < i { k += 1 }
        while k < o.hints.len() && o.hints[k].0 == i {
            let (_, e, t) = o.hints[k];
            k += 1;
            if t != braces.last().cloned().unwrap_or(false) {
                out.push(("G06", format!("token {} is requested with template {}", i, t)));
                return;
            }
            if cur.is_empty() { continue }
            let (div, re) = *want.get_or_insert_with(|| {
                let can = |t: Tid| [false, true].iter().any(|lt| { let mut s = cur.clone(); g.feed(&mut s, g.env(t, *lt, None)) });
                (can(slash), can(regex))
            });
            if div && e { out.push(("G07", format!("token {} is requested as regex, but a division can follow", i))); return }
            if re && !div && !e { out.push(("G07", format!("token {} is requested as division, but a regex can follow", i))); return }
        }
        match &g.kinds[c[i].t as usize] {
            Sym::P(p) if p == "{" => braces.push(false),
            Sym::P(p) if p == "}" => { braces.pop(); }
            Sym::C(p) if p == "HEAD" => braces.push(true),
            Sym::C(p) if p == "TAIL" => { braces.pop(); }
            _ => {}
        }
        if i > 0 && !g.feed(&mut st, g.env(c[i - 1].t, c[i - 1].lt(), Some((c[i].t, c[i].lt())))) { break }
    }
}

fn text_of(g: &Grammar, c: &Case) -> String {
    let mut s = String::new();
    for t in c {
        let mut line = false;
        for x in t.trivia.chars() {
            s += match x { 'w' => " ", 'l' => "\n", 'c' => "/*c*/", _ => { line = !line; if line { "/*\n*/" } else { "//x\n" } } };
        }
        s += " ";
        s += match &g.kinds[t.t as usize] {
            Sym::C(c) => match c.as_str() { "NUMBER" => "1", "STRING" => "'s'", "REGEX" => "/r[/}`]/g", "TEMPLATE" => "`t`", "HEAD" => "`h${", "MIDDLE" => "}m${", "TAIL" => "}t`", _ => "" },
            Sym::P(p) => p.as_str(),
            Sym::K(k) => k.as_str(),
            _ => "",
        };
    }
    s
}

/// no regex where a slash would be read as a division, and no slash where a regex may start (`yield /= x` in a generator)
fn textual(g: &Grammar, c: &Case) -> bool {
    let pr = probe(g);
    let mut st = g.fresh();
    for i in 0..c.len() {
        if c[i].t == pr.regex && [pr.slash, pr.slasheq].iter().any(|t| { let mut s = st.clone(); g.feed(&mut s, g.env(*t, c[i].lt(), None)) }) { return false }
        if [pr.slash, pr.slasheq].contains(&c[i].t) && { let mut s = st.clone(); g.feed(&mut s, g.env(pr.regex, false, None)) } { return false }
        if !g.feed(&mut st, g.env(c[i].t, c[i].lt(), c.get(i + 1).map(|n| (n.t, n.lt())))) { return true }
    }
    true
}

/// a valid program as text, through the real tokenizer
pub fn check_text(g: &Grammar, c: &Case, out: &mut Out) {
    if reference(g, c).is_some() || !textual(g, c) { return }
    let text = text_of(g, c);
    let what = match catch(|| run_any(text.as_str()).0) {
        Ok(true) => return,
        Ok(false) => "rejected".to_string(),
        Err(m) => {
            if unintended(&m) { out.push(("G12", format!("text {:?}: crash: {}", text, m))) }
            m
        }
    };
    out.push(("G14", format!("valid text {:?}: {}", text, what)));
}

fn wrong(g: &Grammar, c: &Case) -> bool {
    let o = run_case(c);
    (o.res == Res::Ok) != reference(g, c).is_none()
}

/// two cases that differ in one aspect only: if exactly one is judged wrongly, that aspect is at fault
fn pair(g: &Grammar, prop: &'static str, x: &Case, y: &Case, out: &mut Out) {
    if wrong(g, x) != wrong(g, y) {
        let z = if wrong(g, y) { y } else { x };
        out.push((prop, format!("{} is judged wrongly (the other of the pair is not)", show(g, z))));
    }
}
fn trivia_pair(x: &Case, y: &Case, out: &mut Out) {
    let (a, b) = (run_case(x), run_case(y));
    if a.res != b.res { out.push(("G02", format!("{:?} against {:?} with other blanks and comments", a.res, b.res))) }
}
/// x with a sub-expression replaced by one that is right on its own
fn leak(g: &Grammar, x: &Case, y: &Case, alone: &Case, out: &mut Out) {
    if !wrong(g, x) && wrong(g, y) && !wrong(g, alone) {
        out.push(("G05", format!("wrongly judged: {}; both {} and {} are judged rightly", show(g, y), show(g, x), show(g, alone))));
    }
}

// ---------------------------------------------------------------------------------------------------------------------

fn rnd_trivia(rng: &mut Rng, lt: bool) -> String {
    let xs: &[&str] = if lt { &["l", "l", "l", "C", "wl", "lw", "lc", "cl", "Cw", "ll", "wC", "Cc", "cC"] } else { &["", "", "", "", "", "w", "c", "wc", "cw", "cc"] };
    rng.pick(xs).to_string()
}
fn tk(t: Tid, lt: bool) -> Tok { Tok { t, trivia: if lt { "l".into() } else { String::new() } } }

/// Builds programs token by token: stack before the last token.
#[derive(Clone)]
struct Gen<'g> { g: &'g Grammar, st: Vec<Frame>, toks: Case }
impl<'g> Gen<'g> {
    fn new(g: &'g Grammar) -> Gen<'g> { Gen { g, st: g.fresh(), toks: vec![] } }
    /// append if the result is still a viable prefix (for some next token)
    fn push(&mut self, t: Tid, lt: bool) -> bool {
        let mut s = self.st.clone();
        if let Some(l) = self.toks.last() {
            if !self.g.feed(&mut s, self.g.env(l.t, l.lt(), Some((t, lt)))) { return false }
        }
        if !self.viable(&s, t, lt) { return false }
        self.st = s;
        self.toks.push(tk(t, lt));
        true
    }
    fn viable(&self, s: &Vec<Frame>, t: Tid, lt: bool) -> bool {
        let nxs: &[Nx] = if self.g.is_name(t) { &[Nx::Other, Nx::Colon, Nx::Paren, Nx::Function, Nx::Ident] } else { &[Nx::Other] };
        nxs.iter().any(|nx| { let mut s = s.clone(); self.g.feed(&mut s, Env { t, lt, nx: *nx }) })
    }
    fn grow(&mut self, rng: &mut Rng, n: usize, common: &[Tid]) {
        for _ in 0..n {
            for _ in 0..60 {
                let t = if rng.chance(2, 3) { *rng.pick(common) } else { rng.below(self.g.kinds.len()) as Tid };
                if t == self.g.eof { continue }
                if self.push(t, rng.chance(1, 7)) { break }
            }
        }
    }
    fn finish(&mut self, rng: &mut Rng, b: &Basics) -> bool {
        for k in 0..80 {
            if self.toks.last().map_or(false, |t| t.t == self.g.eof) { return true }
            let mut done = false;
            // not always the first thing that closes
            let skip = if rng.chance(1, 6) { rng.below(b.close.len()) } else { 0 };
            for t in b.close.iter().skip(skip).chain(b.fill.iter()) {
                if self.push(*t, false) { done = true; break }
            }
            if !done { for t in b.close.iter() { if self.push(*t, true) { done = true; break } } }
            if !done && k > 40 { return false }
            if !done {
                for _ in 0..200 {
                    let t = rng.below(self.g.kinds.len()) as Tid;
                    if self.push(t, rng.chance(1, 4)) { done = true; break }
                }
            }
            if !done { return false }
        }
        false
    }
}

pub struct Basics { close: Vec<Tid>, fill: Vec<Tid>, common: Vec<Tid>, prims: Vec<Vec<Tid>>, names: Vec<Tid> }
fn words(g: &Grammar, s: &str) -> Vec<Tid> {
    s.split(' ').map(|w| match w.chars().next().unwrap() {
        _ if ["NUMBER", "STRING", "REGEX", "TEMPLATE", "HEAD", "MIDDLE", "TAIL", "EOF"].contains(&w) => g.c(w),
        c if c.is_alphabetic() => g.k(w),
        _ => g.p(w),
    }).collect()
}
pub fn basics(g: &Grammar) -> Basics {
    Basics {
        close: words(g, "EOF } ) ] TAIL ;"),
        fill: words(g, "foo : ( { = => STRING while finally of from target function . as"),
        common: words(g, "foo bar NUMBER STRING ( ) [ ] { } ; , = => . + - / : ? in of async await yield let function class HEAD TAIL TEMPLATE REGEX ... * get set static new ** ++ if else for var const return throw switch case default do while try catch finally import export super this break continue delete typeof void extends as from ! with debugger"),
        prims: ["this", "foo", "NUMBER", "TEMPLATE", "HEAD foo TAIL", "HEAD foo MIDDLE bar TAIL", "[ foo ]", "[ ]", "{ }", "{ foo : bar }", "{ foo ( ) { } }", "( foo )", "function ( ) { }",
            "function * ( ) { }", "async function ( ) { }", "class { }", "class { foo ( ) { } }", "class { get foo ( ) { } }", "class { * foo ( ) { } }", "class { async foo ( ) { } }",
            "{ get foo ( ) { } }", "{ set foo ( bar ) { } }", "{ * foo ( ) { } }", "{ async foo ( ) { } }", "{ [ foo ] : bar }", "( foo in bar )", "[ foo in bar ]", "{ foo : foo in bar }",
            "HEAD foo in bar TAIL", "function ( foo = bar in foo ) { }", "function ( ) { foo in bar }", "class { foo ( ) { foo in bar } }", "class extends foo { }", "HEAD { } TAIL", "HEAD function ( ) { } TAIL",
            "HEAD class { } TAIL", "( foo , bar )", "HEAD HEAD foo TAIL TAIL", "async ( foo )", "foo ( bar )", "foo [ bar in foo ]", "foo ( bar in foo )", "new foo", "new foo ( )", "foo . bar", "foo HEAD bar TAIL",
            "function * ( ) { yield }", "async function ( ) { await foo }", "( foo ? bar : foo )", "function ( ) { return }", "{ ... foo }", "[ ... foo ]", "foo ( ... bar )",
            "class { static foo ( ) { } }", "class { set foo ( bar = foo ) { } }", "( ( ) => { } )", "( async foo => foo )", "( foo => { } )"].iter().map(|s| words(g, s)).collect(),
        names: (0..g.kinds.len() as Tid).filter(|t| g.is_name(*t)).collect(),
    }
}

#[derive(Clone)]
struct Prefix<'g> { gen: Gen<'g> }

fn mutated(g: &Grammar, b: &Basics, rng: &mut Rng, c: &Case) -> Case {
    let wild = |rng: &mut Rng| if rng.chance(1, 2) { *rng.pick(&b.common) } else { rng.below(g.kinds.len()) as Tid };
    let mut d = c.clone();
    for _ in 0..1 + rng.below(2) {
        let i = rng.below(d.len());
        match rng.below(7) {
            0 => if i + 1 < d.len() { d.remove(i); },
            1 => { let t = wild(rng); if t != g.eof { d.insert(i, tk(t, rng.chance(1, 6))) } }
            2 => if i + 1 < d.len() { let t = wild(rng); if t != g.eof { d[i].t = t } },
            3 => d[i].trivia = if d[i].lt() { String::new() } else { "l".into() },
            4 => if i + 2 < d.len() { d.swap(i, i + 1) },
            5 => if i + 1 < d.len() { let t = d[i].clone(); d.insert(i, t) },
            _ => { let j = rng.below(d.len()); let (a, b) = (i.min(j), i.max(j)); if b + 1 < d.len() && b - a < 8 { let s: Vec<Tok> = d[a..b].to_vec(); for (k, t) in s.into_iter().enumerate() { d.insert(b + k, t) } } }
        }
        if d.last().map_or(true, |t| t.t != g.eof) { d.push(tk(g.eof, false)) }
    }
    d
}

/// N programs as text with the verdict of the reference, for comparison with another parser (tools/xval.mjs)
pub fn texts(g: &Grammar, seed: u64, n: usize) {
    init(g);
    let b = basics(g);
    let mut rng = Rng::new(seed);
    let pr = probe(g);
    let shady = [pr.slash, pr.slasheq, pr.regex, g.c("MIDDLE"), g.c("TAIL"), g.p("}")];
    let mut k = 0;
    while k < n {
        let mut gen = Gen::new(g);
        let sub: Vec<Tid> = (0..10).map(|_| *rng.pick(&b.common)).collect();
        let len = rng.below(25);
        if rng.chance(1, 2) { gen.grow(&mut rng, len, &sub) } else { gen.grow(&mut rng, len, &b.common) }
        if !gen.finish(&mut rng, &b) { continue }
        let mut c = gen.toks;
        if rng.chance(1, 2) { c = mutated(g, &b, &mut rng, &c) }
        let r = reference(g, &c);
        if !textual(g, &c) || r.map_or(false, |i| shady.contains(&c[i].t)) { continue }
        println!("{}\t{}\t{}", if r.is_none() { "ok" } else { "no" }, r.map_or(-1, |i| i as i64), text_of(g, &c).replace('\\', "\\\\").replace('\n', "\\n"));
        k += 1;
    }
}

const NEAR: usize = 26;

/// a construct to look at closely, and the one it is in if only that place matters
#[derive(Clone, Copy)]
struct Focus { outer: Option<usize>, nt: usize }
impl Focus {
    fn of(g: &Grammar, s: &str) -> Option<Focus> {
        let mut it = s.split('>');
        let a = g.by_name.get(it.next()?).cloned()?;
        match it.next() { None => Some(Focus { outer: None, nt: a }), Some(b) => Some(Focus { outer: Some(a), nt: g.by_name.get(b).cloned()? }) }
    }
    fn at(&self, s: &[Frame]) -> Option<usize> {
        let n = s.len();
        (0..n.min(NEAR)).find(|i| s[n - 1 - i].nt as usize == self.nt && match self.outer {
            None => true,
            Some(o) => (1..3).any(|j| i + j < n && s[n - 1 - i - j].nt as usize == o),
        })
    }
}

/// shortest prefixes for every reachable configuration (the top `depth` frames)
fn prefixes<'g>(g: &'g Grammar, depth: usize, cap: usize, focus: &[Focus]) -> Vec<Prefix<'g>> {
    let mut seen: HashSet<Vec<(u16, u16, u8)>> = HashSet::new();
    let mut out = vec![];
    let mut q = VecDeque::new();
    q.push_back(Gen::new(g));
    let key = |s: &Vec<Frame>| -> Vec<(u16, u16, u8)> {
        let fr = |f: &Frame| (f.nt, f.state, f.flags & g.nts[f.nt as usize].relevant);
        let mut k: Vec<(u16, u16, u8)> = s.iter().rev().take(depth).map(fr).collect();
        // and the innermost construct in focus, with what it is in, if it is near
        if let Some((f, i)) = focus.iter().filter_map(|f| f.at(s).map(|i| (f, i))).next() {
            k.extend(s.iter().rev().skip(i).take(if f.outer.is_some() { 3 } else { 2 }).map(fr));
        }
        k
    };
    while let Some(p) = q.pop_front() {
        out.push(Prefix { gen: p.clone() });
        if out.len() >= cap { break }
        for t in 0..g.kinds.len() as Tid {
            if t == g.eof { continue }
            let mut n = p.clone();
            if !n.push(t, false) && !n.push(t, true) { continue }
            // configurations after t, for each kind of next token
            let l = n.toks.last().unwrap().clone();
            let mut fresh = false;
            for nx in [Nx::Other, Nx::Colon, Nx::Paren, Nx::Function, Nx::Ident] {
                let mut s = n.st.clone();
                if g.feed(&mut s, Env { t: l.t, lt: l.lt(), nx }) && seen.insert(key(&s)) { fresh = true }
                if !g.is_name(t) { break }
            }
            if fresh { q.push_back(n) }
        }
    }
    out
}

struct Run<'a> { ctl: &'a Ctl, g: &'a Grammar, b: Basics }
impl<'a> Run<'a> {
    fn report(&self, out: Out, what: &str, cases: &[&Case]) {
        for (p, m) in out {
            if !self.ctl.wanted(p) { continue }
            let (m, cs) = self.shrink(p, m, what, cases);
            let r: Vec<&Case> = cs.iter().collect();
            self.ctl.find(Finding { prop: p, what: format!("{}: {}", cs.iter().map(|c| show(self.g, c)).collect::<Vec<_>>().join("  //  "), m), replay: repr(self.g, what, &r) });
        }
    }
    fn shrink(&self, p: &'static str, m: String, what: &str, cases: &[&Case]) -> (String, Vec<Case>) {
        let mut cs: Vec<Case> = cases.iter().map(|c| (*c).clone()).collect();
        let mut m = m;
        if cs.len() != 1 { return (m, cs) }
        let try_ = |c: &Case| -> Option<String> {
            self.ctl.case(|| repr(self.g, what, &[c]));
            let mut o = vec![];
            one(self.g, what, &[c.clone()], &mut o);
            self.ctl.done();
            o.into_iter().find(|x| x.0 == p).map(|x| x.1)
        };
        'again: loop {
            let c = cs[0].clone();
            for w in [8usize, 4, 3, 2, 1] {
                if c.len() <= w { continue }
                for i in 0..c.len() - w {
                    let mut d = c.clone();
                    d.drain(i..i + w);
                    if let Some(x) = try_(&d) { m = x; cs[0] = d; continue 'again }
                }
            }
            for i in 0..c.len() {
                if c[i].trivia.is_empty() { continue }
                let mut d = c.clone();
                d[i].trivia = String::new();
                if let Some(x) = try_(&d) { m = x; cs[0] = d; continue 'again }
            }
            break;
        }
        (m, cs)
    }
    fn go(&self, what: &str, cases: &[&Case]) -> bool {
        self.ctl.case(|| repr(self.g, what, cases));
        let mut out = vec![];
        let cs: Vec<Case> = cases.iter().map(|c| (*c).clone()).collect();
        one(self.g, what, &cs, &mut out);
        self.ctl.done();
        let found = !out.is_empty();
        if found { self.report(out, what, cases) }
        found
    }

    fn sentence(&self, rng: &mut Rng) -> Option<Case> {
        let mut gen = Gen::new(self.g);
        let sub: Vec<Tid> = (0..10).map(|_| *rng.pick(&self.b.common)).collect();
        let n = rng.below(25);
        if rng.chance(1, 2) { gen.grow(rng, n, &sub) } else { gen.grow(rng, n, &self.b.common) }
        if gen.finish(rng, &self.b) { Some(gen.toks) } else { None }
    }

    fn variants(&self, rng: &mut Rng, c: &Case) {
        let g = self.g;
        let n = c.len();
        // general mutations
        for _ in 0..6 {
            let d = mutated(g, &self.b, rng, c);
            self.go("one", &[&d]);
        }
        // trivia
        if self.ctl.wanted("G02") {
            let mut a = c.clone();
            let mut b = c.clone();
            for i in 0..n { a[i].trivia = rnd_trivia(rng, c[i].lt()); b[i].trivia = rnd_trivia(rng, c[i].lt()) }
            self.go("trivia", &[&a, &b]);
            let i = rng.below(n);
            let (mut a, mut b) = (c.clone(), c.clone());
            let lt = rng.chance(1, 2);
            a[i].trivia = rnd_trivia(rng, lt); b[i].trivia = rnd_trivia(rng, lt);
            self.go("trivia", &[&a, &b]);
        }
        // semicolons
        if self.ctl.wanted("G08") {
            let semi = g.p(";");
            for _ in 0..3 {
                let i = rng.below(n);
                let mut d = c.clone();
                if c[i].t == semi && i + 1 < n { d.remove(i); d[i].trivia = if rng.chance(1, 2) { "l".into() } else { String::new() } }
                else if rng.chance(1, 3) { d.insert(i, tk(semi, rng.chance(1, 4))) }
                else if c[i].t == g.p("}") || c[i].t == g.eof || c[i].lt() { d.insert(i, tk(semi, false)) }
                else { continue }
                self.go("semi", &[c, &d]);
            }
        }
        if self.ctl.wanted("G09") {
            let tw: Vec<Tid> = words(g, "return break continue yield throw async ++ -- =>");
            for i in 0..n {
                let after = i > 0 && tw[..6].contains(&c[i - 1].t);
                if (after || tw[6..].contains(&c[i].t)) && rng.chance(2, 3) {
                    let mut d = c.clone();
                    d[i].trivia = if d[i].lt() { String::new() } else { rnd_trivia(rng, true) };
                    self.go("nolt", &[c, &d]);
                }
            }
        }
        if self.ctl.wanted("G10") {
            for _ in 0..4 {
                let i = rng.below(n);
                if !g.is_name(c[i].t) { continue }
                let mut d = c.clone();
                d[i].t = *rng.pick(&self.b.names);
                self.go("word", &[c, &d]);
            }
        }
        if self.ctl.wanted("G05") {
            for _ in 0..4 {
                let i = rng.below(n);
                if c[i].t != g.k("foo") && c[i].t != g.k("bar") && c[i].t != g.c("NUMBER") && c[i].t != g.k("this") { continue }
                let sub = rng.pick(&self.b.prims);
                let mut x = c.clone();
                x[i].t = g.k("this");
                let mut y = c.clone();
                y.splice(i..i + 1, sub.iter().enumerate().map(|(k, t)| Tok { t: *t, trivia: if k == 0 { c[i].trivia.clone() } else { String::new() } }));
                let mut alone: Case = vec![tk(g.p("("), false)];
                alone.extend(sub.iter().map(|t| tk(*t, false)));
                alone.push(tk(g.p(")"), false)); alone.push(tk(g.eof, false));
                self.go("leak", &[&x, &y, &alone]);
            }
        }
    }
}

/// run one recorded kind of check
fn one(g: &Grammar, what: &str, cs: &[Case], out: &mut Out) {
    match what {
        "one" => { check(g, &cs[0], out); }
        "text" => check_text(g, &cs[0], out),
        "trivia" => trivia_pair(&cs[0], &cs[1], out),
        "semi" => pair(g, "G08", &cs[0], &cs[1], out),
        "nolt" => pair(g, "G09", &cs[0], &cs[1], out),
        "word" => pair(g, "G10", &cs[0], &cs[1], out),
        "leak" => leak(g, &cs[0], &cs[1], &cs[2], out),
        w if w.starts_with("ops:") => crate::parse::ops::run(g, &w[4..], &cs[0], out),
        _ => panic!("unknown case kind {}", what),
    }
}

pub fn init(g: &Grammar) {
    TIED.with(|t| *t.borrow_mut() = (words(g, "return break continue yield throw async"), words(g, "++ -- =>")));
    TOKENS.with(|t| *t.borrow_mut() = (0..g.kinds.len()).map(|k| (0..CHOICES).map(|i| make(g, k as Tid, i)).collect()).collect()) }

pub fn replay(g: &Grammar, line: &str, out: &mut Out) {
    init(g);
    let mut parts = line.split(" ::");
    let what = parts.next().unwrap()["parse ".len()..].to_string();
    let cs: Vec<Case> = parts.map(|p| p.split(' ').filter(|w| !w.is_empty()).map(|w| {
        let (tr, k) = w.split_once('|').unwrap();
        let t = match &k[..1] { "p" => g.p(&k[1..]), "k" => g.k(&k[1..]), _ => g.c(&k[1..]) };
        Tok { t, trivia: tr.into() }
    }).collect()).collect();
    eprintln!("check {:?}", what);
    for c in &cs { eprintln!("  tokens: {}\n  as text: {:?}", show(g, c), text_of(g, c)) }
    one(g, &what, &cs, out);
}

pub fn run(ctl: &Ctl, g: &Grammar, worker: usize, focus: &str) {
    init(g);
    let r = Run { ctl, g, b: basics(g) };
    let mut rng = Rng::new(ctl.seed * 7919 + worker as u64);
    // a little of everything first
    let mut n = 0;
    while n < 150 && !ctl.stop() { random(&r, &mut rng); n += 1 }
    #[cfg(feature = "whitebox")]
    for _ in 0..3000 { if ctl.stop() { break } r.ops(&mut rng) }
    // every configuration of the reference with every token
    static PRE: OnceLock<Vec<(Case, Vec<Frame>)>> = OnceLock::new();
    let fs: Vec<Focus> = focus.split(',').filter_map(|n| Focus::of(g, n)).collect();
    let pre = PRE.get_or_init(|| {
        let depth = if fs.is_empty() { 1 + (ctl.deep as usize) } else { 2 };
        let v = prefixes(g, depth, if fs.is_empty() { 30_000 } else { 60_000 }, &fs);
        ctl.note(format!("{} prefixes, one per configuration of the top {} frames of the reference", v.len(), depth));
        v.into_iter().map(|p| (p.gen.toks, p.gen.st)).collect()
    });
    let mut order: Vec<usize> = (0..pre.len()).filter(|i| i % ctl.workers == worker).collect();
    // seeded order, so that a run that is cut short does not always miss the same ones
    for i in (1..order.len()).rev() { let j = rng.below(i + 1); order.swap(i, j) }
    // near the constructs in focus: first every token once, then with line terminators and other continuations
    let pairs: Vec<Focus> = fs.iter().filter(|f| f.outer.is_some()).cloned().collect();
    for group in [&pairs, &fs] {
        let mut near = order.clone();
        near.retain(|i| group.iter().any(|f| f.at(&pre[*i].1).is_some()));
        for i in near.iter() { if ctl.stop() { break } light(&r, &mut rng, &pre[*i].0, &pre[*i].1); }
        for i in near.iter() { if ctl.stop() { break } systematic(&r, &mut rng, &pre[*i].0, &pre[*i].1); }
    }
    if !fs.is_empty() { order.clear() }
    let mut complete = !ctl.stop();
    for i in order {
        if ctl.stop() { complete = false; break }
        systematic(&r, &mut rng, &pre[i].0, &pre[i].1);
    }
    ctl.note(format!("worker {}: every token after each prefix: {}", worker, if complete { "complete" } else { "cut short" }));
    while !ctl.stop() {
        for _ in 0..20 { random(&r, &mut rng) }
        #[cfg(feature = "whitebox")]
        for _ in 0..200 { r.ops(&mut rng) }
    }
}

fn random(r: &Run, rng: &mut Rng) {
    let c = match r.sentence(rng) { Some(c) => c, None => return };
    r.go("one", &[&c]);
    if rng.chance(1, 3) { r.go("text", &[&c]); }
    r.variants(rng, &c);
}

fn light(r: &Run, rng: &mut Rng, toks: &Case, st: &Vec<Frame>) {
    let g = r.g;
    let base = Gen { g, st: st.clone(), toks: toks.clone() };
    let mut skip = base.clone();
    let tail: Case = if skip.finish(rng, &r.b) { skip.toks[toks.len()..].to_vec() } else { vec![] };
    let tied = TIED.with(|t| t.borrow().clone());
    let after = toks.last().map_or(false, |l| tied.0.contains(&l.t));
    for t in 0..g.kinds.len() as Tid {
        for lt in [false, true] {
            if lt && !after && !tied.1.contains(&t) { continue }
            let mut x = base.clone();
            if x.push(t, lt) {
                if t == g.eof || x.finish(rng, &r.b) { r.go("one", &[&x.toks]); }
            } else {
                let mut c = toks.clone();
                c.push(tk(t, lt));
                if t != g.eof { c.extend(tail.iter().cloned()) }
                r.go("one", &[&c]);
                // the same as the program it would be without the line terminator
                let mut y = base.clone();
                if lt && y.push(t, false) && (t == g.eof || y.finish(rng, &r.b)) {
                    y.toks[toks.len()].trivia = "l".into();
                    r.go("one", &[&y.toks]);
                }
            }
        }
    }
}

fn systematic(r: &Run, rng: &mut Rng, toks: &Case, st: &Vec<Frame>) {
    let g = r.g;
    let base = Gen { g, st: st.clone(), toks: toks.clone() };
    let mut skip = base.clone();
    let skipped: Option<Case> = if skip.finish(rng, &r.b) { Some(skip.toks[toks.len()..].to_vec()) } else { None };
    // tails after one viable token
    let mut tails: Vec<Case> = vec![];
    for _ in 0..30 {
        if tails.len() >= 3 { break }
        let mut x = base.clone();
        let t = if rng.chance(1, 2) { *rng.pick(&r.b.common) } else { rng.below(g.kinds.len()) as Tid };
        if t != g.eof && x.push(t, false) && x.finish(rng, &r.b) { tails.push(x.toks[toks.len() + 1..].to_vec()) }
    }
    for t in 0..g.kinds.len() as Tid {
        for lt in [false, true] {
            let mut x = base.clone();
            if x.push(t, lt) {
                if t == g.eof || x.finish(rng, &r.b) {
                    r.go("one", &[&x.toks]);
                    if rng.chance(1, 8) { r.go("text", &[&x.toks]); }
                    if rng.chance(1, 6) { r.variants(rng, &x.toks) }
                }
            } else if t != g.eof {
                let mut y = base.clone();
                if lt && y.push(t, false) && y.finish(rng, &r.b) {
                    y.toks[toks.len()].trivia = "l".into();
                    r.go("one", &[&y.toks]);
                }
                for tail in skipped.iter().chain(tails.iter()) {
                    let mut c = toks.clone();
                    c.push(tk(t, lt));
                    c.extend(tail.iter().cloned());
                    r.go("one", &[&c]);
                }
            } else {
                let mut c = toks.clone();
                c.push(tk(t, lt));
                r.go("one", &[&c]);
            }
        }
    }
    // the token after the prefix left out
    for tail in tails.iter() { let mut c = toks.clone(); c.extend(tail.iter().cloned()); r.go("one", &[&c]); }
}

#[cfg(not(feature = "whitebox"))]
pub mod ops { pub fn run(_: &crate::gram::Grammar, _: &str, _: &super::Case, _: &mut super::Out) {} }

/// The token primitives and single productions, driven directly.
#[cfg(feature = "whitebox")]
pub mod ops {
    use super::*;
    use jsparse::parser::{Flag, Parser};

    macro_rules! some { ($e:expr) => {{ let mut got = None; $e.map(|v| got = Some(v)); got }} }

    const WORDS: &[&str] = &["if", "async", "function", "let", "of", "in", "get", "foo", "class", "yield", "await"];

    fn flag(i: usize) -> Flag { [Flag::In, Flag::Yield, Flag::Await, Flag::Return, Flag::Default, Flag::Module, Flag::Strict, Flag::Noop, Flag::Template][i] }

    /// program: words separated by ',': primitives by letter, contexts w<i>/o<i>, productions P<i>
    pub fn run(g: &Grammar, prog: &str, c: &Case, out: &mut Out) {
        LOG.with(|l| *l.borrow_mut() = Log::default());
        let r = catch(|| {
            let mut o = vec![];
            let mut p = Parser::verif_new(Stream::new(c));
            let mut words = prog.split(',').peekable();
            let mut pos = 0;
            exec(g, &mut p, &mut words, c, &mut pos, &mut o);
            o
        });
        match r {
            Ok(o) => out.extend(o),
            Err(m) if m.contains("REQUEST LIMIT") => out.push(("G11", "keeps requesting tokens".into())),
            Err(m) => out.push(("G12", format!("crash: {}", m))),
        }
    }

    fn exec<'c>(g: &Grammar, p: &mut Parser<'c, Stream>, words: &mut std::iter::Peekable<std::str::Split<char>>, c: &Case, pos: &mut usize, out: &mut Out) {
        while let Some(w) = words.next() {
            if !out.is_empty() { return }
            if w == "end" { return }
            let n: usize = w[1..].parse().unwrap_or(0);
            let at = |i: usize| &c[i.min(c.len() - 1)];
            let tok = make(g, at(*pos).t, *pos % CHOICES);
            let lt = if *pos < c.len() { at(*pos).lt() } else { false };
            let mut bad = |p: &'static str, m: String| out.push((p, m));
            macro_rules! eat { ($what:expr, $got:expr, $match:expr, $tok:expr) => {{
                let got = some!($got);
                let m: bool = $match;
                match got {
                    Some(v) => { let v = $tok(v); if !m || v != tok { bad("G01", format!("{} at token {}: got {:?}, next is {:?}", $what, pos, v, tok)) } *pos += 1 }
                    None => if m { bad("G01", format!("{} at token {}: nothing, next is {:?}", $what, pos, tok)) },
                }
            }} }
            match &w[..1] {
                "t" => {
                    let (l, t) = p.verif_token();
                    if t != tok { bad("G01", format!("token {} is {:?}, expected {:?}", pos, t, tok)) }
                    if *pos < c.len() && l != lt { bad("G02", format!("token {}: line break {}, expected {}", pos, l, lt)) }
                }
                "n" => { let l = p.no_line_terminator(); if *pos < c.len() && l == lt { bad("G02", format!("token {}: no line break {}", pos, l)) } }
                "l" => {
                    let ident = g.is_name(at(*pos).t) && *pos + 1 < c.len();
                    match p.verif_lookahead() {
                        Some((l, t)) if *pos + 1 < c.len() => {
                            let e = make(g, at(*pos + 1).t, (*pos + 1) % CHOICES);
                            if t != e { bad("G01", format!("lookahead at {} is {:?}, expected {:?}", pos, t, e)) }
                            if l != at(*pos + 1).lt() { bad("G02", format!("lookahead at {}: line break {}", pos, l)) }
                        }
                        Some(_) => {}
                        None => if ident { bad("G01", format!("no lookahead at {}", pos)) },
                    }
                }
                "x" => {
                    p.verif_token();
                    let t = p.pop();
                    if t != tok { bad("G01", format!("pop at {} gives {:?}, expected {:?}", pos, t, tok)) }
                    *pos += 1;
                }
                "p" => {
                    let q = match &g.kinds[n] { Sym::P(s) => punct(s), _ => continue };
                    eat!("punctuator", p.punc(q), tok == Token::Punctuator(q), Token::Punctuator)
                }
                "0" => eat!("numeric", p.numeric(), matches!(tok, Token::NumericLiteral(_)), Token::NumericLiteral),
                "1" => eat!("string", p.string(), matches!(tok, Token::StringLiteral(_)), Token::StringLiteral),
                "2" => eat!("regex", p.regex(), matches!(tok, Token::RegularExpressionLiteral(_)), Token::RegularExpressionLiteral),
                "3" => eat!("template", p.template(), matches!(&tok, Token::Template(t) if matches!(t.format, tokens::TemplateFormat::NoSubstitution | tokens::TemplateFormat::Head)), Token::Template),
                "4" => eat!("template tail", p.template_tail(), matches!(&tok, Token::Template(t) if matches!(t.format, tokens::TemplateFormat::Middle | tokens::TemplateFormat::Tail)), Token::Template),
                "5" => eat!("identifier", p.identifier(), matches!(tok, Token::IdentifierName(_)), Token::IdentifierName),
                "6" => eat!("eof", p.eof(), matches!(tok, Token::EOF(_)), Token::EOF),
                "k" => { let k = WORDS[n % WORDS.len()]; eat!("keyword", p.keyword(k), matches!(&tok, Token::IdentifierName(i) if i.name == k), Token::IdentifierName) }
                "b" => {
                    let (f, _, _) = p.verif_state();
                    if f[5] && f[6] {
                        let m = g.is_ident(at(*pos).t) && *pos < c.len();
                        let got = some!(p.binding_identifier());
                        if got.is_some() != m { bad("G10", format!("{:?} is accepted as a binding: {}", tok, got.is_some())) }
                        if got.is_some() { *pos += 1 }
                    }
                }
                "s" => {
                    // semicolons
                    let is_semi = at(*pos).t == g.p(";");
                    let ok = is_semi || at(*pos).t == g.p("}") || at(*pos).t == g.eof || lt || n == 1;
                    if *pos >= c.len() { return }
                    let got = if n == 1 { some!(p.semicolon_dowhile()) } else { some!(p.semicolon()) };
                    if got.is_some() != ok { bad("G08", format!("semicolon at {:?} (line break {}): {}", tok, lt, got.is_some())) }
                    if got.is_some() && is_semi { *pos += 1 }
                    let (_, t) = p.verif_token();
                    let e = make(g, at(*pos).t, *pos % CHOICES);
                    if t != e { bad("G08", format!("after a semicolon the next token is {:?}, expected {:?}", t, e)) }
                }
                "w" | "o" => {
                    let before = p.verif_state();
                    {
                        let mut q = if &w[..1] == "w" { p.with(flag(n)) } else { p.without(flag(n)) };
                        exec(g, &mut q, words, c, pos, out);
                        if !out.is_empty() { return }
                    }
                    let after = p.verif_state();
                    if before.0 != after.0 || before.1 != after.1 { out.push(("G05", format!("context {:?} before, {:?} after", (before.0, before.1), (after.0, after.1)))) }
                }
                "P" => {
                    let before = p.verif_state();
                    production(p, n);
                    let after = p.verif_state();
                    if before.0 != after.0 || before.1 != after.1 {
                        bad("G05", format!("production {}: context {:?} before, {:?} after", n, (before.0, before.1), (after.0, after.1)))
                    }
                    return;
                }
                _ => {}
            }
        }
    }

    pub const PRODUCTIONS: usize = 22;
    fn production<'c>(p: &mut Parser<'c, Stream>, n: usize) {
        match n {
            0 => { let _ = p.parse_module(); }
            1 => { let _ = p.parse_statement(); }
            2 => { let _ = p.parse_block_statement(); }
            3 => { let _ = p.parse_variable_statement(); }
            4 => { let _ = p.parse_binding_pattern(); }
            5 => { let _ = p.parse_property_name(); }
            6 => { let _ = p.parse_array_binding_pattern(); }
            7 => { let _ = p.parse_initializer(); }
            8 => { let _ = p.parse_expression(); }
            9 => { let _ = p.parse_assignment_expression(); }
            10 => { let _ = p.parse_left_hand_side_expression(); }
            11 => { let _ = p.parse_function_declaration(); }
            12 => { let _ = p.parse_function_expression(); }
            13 => { let _ = p.parse_function_params(); }
            14 => { let _ = p.parse_class_declaration(); }
            15 => { let _ = p.parse_class_expression(); }
            16 => { let _ = p.parse_declaration(); }
            17 => { let _ = p.parse_import_declaration(); }
            18 => { let _ = p.parse_export_declaration(); }
            19 => { let _ = p.parse_object_binding_pattern(); }
            20 => { let _ = p.parse_method_head(true); }
            _ => { let _ = p.parse_binding_rest_element(); }
        }
    }

    impl<'a> Run<'a> {
        pub fn ops(&self, rng: &mut Rng) {
            let g = self.g;
            let n = 1 + rng.below(8);
            let productions = rng.chance(1, 2);
            let mut c: Case = if productions {
                let mut c = self.sentence(rng).unwrap_or(vec![tk(g.eof, false)]);
                if rng.chance(1, 2) { let i = rng.below(c.len()); if i + 1 < c.len() { c[i].t = *rng.pick(&self.b.common) } }
                let cut = rng.below(c.len()).min(6);
                c.drain(0..cut);
                c
            } else {
                let sub: Vec<Tid> = words(g, "foo if async function let of : ( { } ; yield await NUMBER STRING REGEX TEMPLATE HEAD MIDDLE TAIL get");
                let mut c: Case = (0..n).map(|_| { let t = if rng.chance(3, 4) { *rng.pick(&sub) } else { rng.below(g.kinds.len()) as Tid }; tk(t, rng.chance(1, 3)) }).filter(|t| t.t != g.eof).collect();
                c.push(tk(g.eof, rng.chance(1, 3)));
                for t in c.iter_mut() { t.trivia = rnd_trivia(rng, t.lt()) }
                c
            };
            if c.is_empty() { c.push(tk(g.eof, false)) }
            let mut prog: Vec<String> = vec![];
            if rng.chance(1, 2) { prog.push("w5".into()); prog.push("w6".into()) }
            for _ in 0..rng.below(4) { prog.push(format!("{}{}", if rng.chance(1, 2) { "w" } else { "o" }, rng.below(9))) }
            if productions {
                prog.push(format!("P{}", rng.below(PRODUCTIONS)));
            } else {
                let k = 1 + rng.below(3 * n);
                let simple = ["t", "n", "l", "l", "0", "1", "2", "3", "4", "5", "6", "b", "s0", "s1", "x"];
                for _ in 0..k {
                    prog.push(match rng.below(10) {
                        0 => format!("p{}", rng.below(crate::lexref::PUNCTS.len())),
                        1 => format!("k{}", rng.below(WORDS.len())),
                        2 => format!("{}{}", if rng.chance(1, 2) { "w" } else { "o" }, rng.below(9)),
                        3 => "end".into(),
                        _ => rng.pick(&simple).to_string(),
                    })
                }
            }
            self.go(&format!("ops:{}", prog.join(",")), &[&c]);
        }
    }
}
