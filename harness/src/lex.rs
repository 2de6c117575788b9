//! Falsifier for T01-T11: the real SliceTokenizer against lexref.
use crate::lexref::*;
use crate::rng::Rng;
use crate::{catch, unintended, Ctl, Finding};
use jsparse::tokenizer::tokens::{self, CommentFormat, PunctuatorToken as P, TemplateFormat, Token};
use jsparse::tokenizer::{Hint, IntoTokenizer, TokenRange, Tokenizer};

pub fn spelling(p: P) -> &'static str {
    use P::*;
    match p {
        CurlyOpen => "{", CurlyClose => "}", ParenOpen => "(", ParenClose => ")", SquareOpen => "[", SquareClose => "]",
        Semicolon => ";", Comma => ",", Tilde => "~", Question => "?", Colon => ":", Period => ".", Ellipsis => "...",
        LAngle => "<", LAngleEq => "<=", LAngleAngle => "<<", LAngleAngleEq => "<<=", LAngleExclamDashDash => "<!--",
        RAngle => ">", RAngleEq => ">=", RAngleAngle => ">>", RAngleAngleEq => ">>=", RAngleAngleAngle => ">>>",
        RAngleAngleAngleEq => ">>>=", Exclam => "!", ExclamEq => "!=", ExclamEqEq => "!==", Eq => "=", Arrow => "=>",
        EqEq => "==", EqEqEq => "===", Plus => "+", PlusEq => "+=", PlusPlus => "++", Minus => "-", MinusEq => "-=",
        MinusMinus => "--", MinusMinusAngle => "-->", Percent => "%", PercentEq => "%=", Star => "*", StarEq => "*=",
        StarStar => "**", StarStarEq => "**=", Slash => "/", SlashEq => "/=", Amp => "&", AmpAmp => "&&", AmpEq => "&=",
        Bar => "|", BarBar => "||", BarEq => "|=", Caret => "^", CaretEq => "^=",
    }
}

fn same(k: &Kind, s: &str, t: &Token) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{}: got {:?}, expected {:?}", what, t, k));
    match (k, t) {
        (Kind::Eof, Token::EOF(_)) | (Kind::Lt, Token::LineTerminator(_)) => Ok(()),
        (Kind::Punct(p), Token::Punctuator(q)) => if *p == spelling(*q) { Ok(()) } else { bad("punctuator") },
        (Kind::LineComment(a, b), Token::Comment(c)) =>
            if c.format == CommentFormat::Line && c.value == s[*a..*b] { Ok(()) } else { bad("line comment") },
        (Kind::BlockComment(a, b), Token::Comment(c)) =>
            if c.format == CommentFormat::Block && c.value == s[*a..*b] { Ok(()) } else { bad("block comment") },
        (Kind::Regex { body, flags }, Token::RegularExpressionLiteral(r)) =>
            if r.pattern == s[body.0..body.1] && r.flags == s[flags.0..flags.1] { Ok(()) } else { bad("regular expression") },
        (Kind::Name, Token::IdentifierName(_)) => Ok(()),
        (Kind::Num(v), Token::NumericLiteral(n)) => match v {
            Some((v, true)) if n.value != *v => bad("number value"),
            Some((v, false)) if !((n.value - *v).abs() <= v.abs() * 1e-11) => bad("number value"),
            _ => Ok(()),
        },
        (Kind::Str(a, b), Token::StringLiteral(v)) => if v.value == s[*a..*b] { Ok(()) } else { bad("string") },
        (Kind::Tmpl(open, close, a, b), Token::Template(v)) => {
            let f = match (open, close) {
                (false, false) => TemplateFormat::NoSubstitution,
                (false, true) => TemplateFormat::Head,
                (true, true) => TemplateFormat::Middle,
                (true, false) => TemplateFormat::Tail,
            };
            if v.format == f && v.raw == s[*a..*b] && v.cooked == s[*a..*b] { Ok(()) } else { bad("template") }
        }
        _ => bad("kind"),
    }
}

/// hints: one byte per token, bit 0 = expression, bit 1 = template
pub fn check(text: &str, hints: &[u8], out: &mut Vec<(&'static str, String)>) {
    let mut tk = text.into_tokenizer();
    let mut prev = 0usize;
    let mut n = 0usize;
    let mut eofs = 0;
    let chars: Vec<(usize, char)> = text.char_indices().collect();
    let lcs = linecols(text);
    let mut ci = 0;
    loop {
        let h = hints[n % hints.len()];
        let (he, ht) = (h & 1 != 0, h & 2 != 0);
        let hint = Hint::default().expression(he).template(ht);
        let mut start = prev;
        for c in text[prev..].chars() { if is_blank(c) { start += c.len_utf8() } else { break } }
        let rest = &text[start..];
        let cat = category(rest, ht);
        while ci < chars.len() && chars[ci].0 < start { ci += 1 }
        let want = lex_ref(rest, Cs { all: &chars[ci..], base: start }, he, ht);
        let mut tok = Token::default();
        let mut range = TokenRange::default();
        let mut it = std::panic::AssertUnwindSafe((&mut tk, &mut tok, &mut range));
        let r = catch(move || { let x = &mut *it; x.0.next_token(&hint, (&mut *x.1, &mut *x.2)) });
        n += 1;
        if let Err(msg) = r {
            let crash = unintended(&msg);
            if crash { out.push(("T11", format!("token at byte {}: crash: {}", start, msg))) }
            if start > prev {
                // Does it stop because of the blanks before the token?
                let mut tk = rest.into_tokenizer();
                let mut tok = Token::default();
                let mut range = TokenRange::default();
                let mut it = std::panic::AssertUnwindSafe((&mut tk, &mut tok, &mut range));
                if catch(move || { let x = &mut *it; x.0.next_token(&hint, (&mut *x.1, &mut *x.2)) }).is_ok() {
                    out.push(("T01", format!("blanks at byte {} are not skipped: {}", prev, msg)));
                }
            }
            if let R::Tok(k, l) = &want {
                let c = if crash && rest.is_empty() { "T02" } else { cat };
                out.push((c, format!("token at byte {}: stopped with {:?}, expected {:?} of {} bytes", start, msg, k, l)));
            }
            return;
        }
        let (a, b) = (range.start.offset, range.end.offset);
        if a != start { out.push(("T01", format!("token {} starts at byte {} instead of {}", n, a, start))) }
        if b < a || b > text.len() || !text.is_char_boundary(a.min(text.len())) || !text.is_char_boundary(b) {
            out.push(("T01", format!("token {}: bad range {}..{} in {} bytes", n, a, b, text.len())));
            return;
        }
        for (o, p) in [(a, range.start), (b, range.end)] {
            match lcs[o] {
                None => out.push(("T03", format!("token {}: position {} inside CRLF", n, o))),
                Some(lc) => if lc != (p.line, p.column) {
                    out.push(("T03", format!("token {}: byte {} is at {}:{}, reported {}:{}", n, o, lc.0, lc.1, p.line, p.column)))
                },
            }
        }
        let eof = matches!(tok, Token::EOF(_));
        if eof != rest.is_empty() { out.push(("T02", format!("end of file is {} at byte {} of {}", eof, start, text.len()))) }
        if !eof && b <= a { out.push(("T02", format!("token {:?} at byte {} is empty", tok, a))) }
        if eof && b != a { out.push(("T02", format!("end of file covers {}..{}", a, b))) }
        match &want {
            R::Diag => out.push((cat, format!("token at byte {}: got {:?} of {} bytes, expected a diagnostic", start, tok, b - a))),
            R::Tok(k, l) => {
                if b.wrapping_sub(start) != *l {
                    out.push((cat, format!("token at byte {}: {} bytes ({:?}), expected {} ({:?})", start, b.wrapping_sub(start), tok, l, k)))
                }
                if let Err(e) = same(k, rest, &tok) { out.push((cat, format!("token at byte {}: {}", start, e))) }
                if let (Kind::Name, Token::IdentifierName(tokens::IdentifierNameToken { name })) = (k, &tok) {
                    if *name != rest[..*l] { out.push((cat, format!("name {:?}, expected {:?}", name, &rest[..*l]))) }
                }
            }
        }
        if !out.is_empty() { return }
        if eof { eofs += 1; if eofs == 3 { return } }
        if n > text.len() + 3 { out.push(("T02", "more tokens than bytes".to_string())); return }
        prev = b;
    }
}

fn hit(ctl: &Ctl, text: &str, hints: &[u8]) {
    ctl.case(|| repr(text, hints));
    let mut out = vec![];
    check(text, hints, &mut out);
    ctl.done();
    for (p, what) in out {
        if !ctl.wanted(p) { continue }
        // shrink
        let mut cur: Vec<char> = text.chars().collect();
        let mut what = what;
        loop {
            let mut shorter = None;
            let mut w = cur.len() / 2;
            'o: while w >= 1 {
                for i in 0..=cur.len() - w {
                    let mut c = cur.clone();
                    c.drain(i..i + w);
                    let s: String = c.iter().collect();
                    ctl.case(|| repr(&s, hints));
                    let mut o = vec![];
                    check(&s, hints, &mut o);
                    ctl.done();
                    if let Some(x) = o.into_iter().find(|x| x.0 == p) { what = x.1; shorter = Some(c); break 'o }
                }
                w /= 2;
            }
            match shorter { Some(c) => cur = c, None => break }
        }
        let s: String = cur.iter().collect();
        ctl.find(Finding { prop: p, what: format!("{:?} hints {:?}: {}", s, hints, what), replay: repr(&s, hints) });
    }
}

pub fn repr(text: &str, hints: &[u8]) -> String {
    let hex: String = text.bytes().map(|b| format!("{:02x}", b)).collect();
    let h: String = hints.iter().map(|h| (b'0' + h) as char).collect();
    format!("lex {} {}", h, if hex.is_empty() { "-".into() } else { hex })
}

const ALL: &[u8] = &[0, 1, 2, 3];

fn exhaustive(ctl: &Ctl, worker: usize, prefixes: &[&str], alpha: &[&str], len: usize, hints: &[u8]) {
    let n = alpha.len();
    let mut total = 1usize;
    let mut count = 0usize;
    for _ in 0..=len {
        for k in 0..total {
            count += 1;
            if count % ctl.workers != worker { continue }
            if count % 512 == worker && ctl.stop() { return }
            let mut s = String::new();
            let mut x = k;
            let mut l = total;
            while l > 1 { s.push_str(alpha[x % n]); x /= n; l /= n }
            for p in prefixes {
                let t = format!("{}{}", p, s);
                for h in hints { hit(ctl, &t, &[*h]) }
            }
        }
        total *= n;
    }
    if worker == 0 { ctl.note(format!("exhaustive: {:?} + up to {} of {} pieces {:?}, hints {:?}", prefixes, len, n, alpha, hints)) }
}

const DICT: &[&str] = &[
    "a", "Z", "x1", "$", "_", "0", "1", "9", "0x", "0b", "0o", "0x1f", "0b10", "0o17", "1.5", ".5", "1e5", "1E-3", "e", "E+",
    "\"", "'", "\"a\"", "'b'", "\\", "\\x41", "\\u0041", "\\u{1F600}", "\\u{", "}", "{", "\\\n", "\\\r\n", "\\\r", "\\\u{2028}",
    "`", "${", "$", "`a`", "`a${", "}b${", "}c`", "/", "//", "/*", "*/", "/a/", "/[/]/g", "[", "]", "/=", "\n", "\r", "\r\n",
    "\u{2028}", "\u{2029}", "\u{2020}", "\u{a0}", "\u{feff}", "\u{a1}", "\u{fefe}", "\t", "\u{b}", "\u{c}", " ", "é", "日", "😀",
    "...", "..", ".", ">>>=", ">>>", ">>", ">", "=", "==", "===", "=>", "!", "!=", "!==", "<!--", "-->", "--", "++", "+", "-",
    "**", "**=", "*", "&", "&&", "|", "||", "^", "%", "~", "?", ":", ";", ",", "(", ")", "#", "@", "\0", "g", "iy", "00", "08", "7", "8",
    "\u{85}", "\u{180e}", "\u{202f}", "\u{1680}", "\u{200b}", "\u{200d}", "ª", "\u{a2}", "\u{ff21}", "\u{2026}", "\u{2027}", "\u{202a}",
];

fn random(ctl: &Ctl, rng: &mut Rng) {
    let focus = rng.below(10);
    let sub: Vec<&str> = (0..2 + rng.below(8)).map(|_| *rng.pick(DICT)).collect();
    let n = 1 + rng.below(if focus == 0 { 60 } else { 14 });
    let mut s = String::new();
    for _ in 0..n {
        if rng.chance(3, 4) { s.push_str(rng.pick(&sub)) } else { s.push_str(rng.pick(DICT)) }
    }
    let hints: Vec<u8> = (0..1 + rng.below(4)).map(|_| rng.below(4) as u8).collect();
    hit(ctl, &s, &hints);
}

fn long(ctl: &Ctl, worker: usize, sizes: &[usize]) {
    let mut cases: Vec<(String, u8)> = vec![];
    for &n in sizes {
        for unit in ["1", "0", "9", "a", " ", "\u{a0}", "\n", "\r\n", "\u{2028}", "é", "(", "\\n", "$"] {
            let r = unit.repeat(n);
            for (p, q) in [("", ""), ("0x", ""), ("1e", ""), ("1e-", ""), ("0e", ""), (".", "1"), ("1.", "e5"), ("\"", "\""), ("'", "'"), ("`", "`"), ("`", "${"),
                           ("}", "`"), ("//", "\n"), ("/*", "*/"), ("/", "/g"), ("/a/", ""), ("0b", ""), ("0o", ""), ("1e0", "")] {
                let s = format!("{}{}{}", p, r, q);
                cases.push((s, 3));
            }
        }
    }
    for k in [2147483646u64, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 9223372036854775807, 214748364, 21474836470] {
        for s in ["", "-", "+"] { for m in ["1", "0", "0.0", ".5", "1.5"] { cases.push((format!("{}e{}{}", m, s, k), 0)) } }
    }
    for (i, (s, h)) in cases.iter().enumerate() {
        if i % ctl.workers == worker { hit(ctl, s, &[*h]); hit(ctl, s, &[0]); if ctl.stop() { return } }
    }
}

/// texts that lead the scanner into each of its situations
const COVER: &[&str] = &[
    "", " ", "\n", "\r", "\u{a0}", "\u{feff}", "0", "00", "1", "10", "1.", "1.5", "1e", "1e+", "1e-", "1e1", "0.", "0.5", "0e", "0e1", "0e-", ".1", ".1e", ".1e+", ".1e1", ".0e", ".", "..", "...",
    "0x", "0x1", "0X", "0o", "0o1", "0O", "0b", "0b1", "0B1", "0b0", "a", "aZ", "$", "_", "\"", "'", "\"a", "\"\\", "'\\", "\"\\\r", "\"\\\n", "\"\\\u{2028}", "\"\\0", "\"\\x", "\"\\x4",
    "\"\\x41", "\"\\u", "\"\\u0", "\"\\u00", "\"\\u004", "\"\\u0041", "\"\\u{", "\"\\u{4", "\"\\u{41", "\"\\u{41}", "\"\\a", "`", "`a", "`\\", "`$", "`\\$", "`$$", "}", "}a", "}\\", "}$", "}$$",
    "/", "//", "//a", "/*", "/*a", "/**", "/*/", "/*\r", "/a", "/\\", "/[", "/[a", "/[\\", "/[]", "/a/", "/a/g", "<", "<<", ">", ">>", ">>>", "=", "==", "!", "!=", "+", "-", "*", "**", "&", "&&", "|", "||", "^", "%",
];

/// every character in every situation, and what may tell the situations after it apart
fn conformance(ctl: &Ctl, worker: usize, deep: bool) {
    let mut alpha: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    for c in ["\u{85}", "\u{a0}", "\u{a1}", "\u{e9}", "\u{2026}", "\u{2028}", "\u{2029}", "\u{202a}", "\u{2128}", "\u{feff}", "\u{fefe}", "\u{1f600}"] { alpha.push(c.to_string()) }
    let tails = ["", "1", "a", "\"", "'", "`", "/", "*/", "}", "\n", "=", "{", "1\"", "}\"", "+1", "e1"];
    let mut k = 0;
    for p in COVER {
        for a in &alpha {
            k += 1;
            if k % ctl.workers != worker { continue }
            if ctl.stop() { return }
            if deep {
                for b in &alpha { let t = format!("{}{}{}", p, a, b); hit(ctl, &t, &[3]); hit(ctl, &t, &[0]) }
            } else {
                for b in &tails { let t = format!("{}{}{}", p, a, b); hit(ctl, &t, &[3]); hit(ctl, &t, &[0]) }
            }
        }
    }
    if worker == 0 { ctl.note(format!("conformance: {} access texts x {} characters x {}", COVER.len(), alpha.len(), if deep { "the same characters" } else { "16 tails" })) }
}

pub fn run(ctl: &Ctl, worker: usize) {
    let mut rng = Rng::new(ctl.seed * 1000 + worker as u64);
    for _ in 0..2000 { random(ctl, &mut rng) }
    long(ctl, worker, &[17, 70, 127, 128, 255, 256, 257, 310, 400]);
    conformance(ctl, worker, false);
    let d = ctl.deep as usize;
    let blanks: &[&str] = &["\t", "\u{b}", "\u{c}", " ", "\u{a0}", "\u{feff}", "\u{a1}", "\u{fefe}", "\u{ff00}", "\n", "\r", "\u{2028}", "\u{2029}", "\u{2020}", "a", "\"", "é", "😀", "/*", "*/", "\\", "`", "//"];
    let plan: Vec<(&[&str], &[&str], &[&str], usize, &[u8])> = vec![
        (&["T04"], &[""], &["{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "<", ">", "=", "!", "+", "-", "&", "|", "^", "%", "*", "/", "1", "a"], 3, &[0, 1]),
        (&["T04"], &["<", ">", "=", "!", "*", "-", "+", ".", "&", "|"], &["<", ">", "=", "!", "*", "-", "+", ".", "1", "a"], 4, &[0]),
        (&["T05", "T03"], &["//", "/*", "a/*"], &["/", "*", "\n", "\r", "a", "\u{2028}", "\u{2029}", "\u{2020}", "é", "\\"], 4 + d, &[0, 1]),
        (&["T06"], &["\"", "'"], &["\"", "'", "\\", "n", "\n", "\r", "\u{2028}", "\u{2029}", "\u{2020}", "x", "u", "{", "}", "0", "7", "a", "G", "é"], 3 + d, &[0]),
        (&["T06"], &["\"\\u", "'\\x", "\"\\u{"], &["\\", "u", "{", "}", "0", "F", "g", "\"", "'"], 5 + d, &[0]),
        (&["T06"], &["\"", "'"], &["\"", "'", "\\", "\n", "\r", "a"], 6 + d, &[0]),
        (&["T07"], &["`", "}"], &["`", "$", "{", "}", "\\", "a", "\n", "\r", "é"], 5 + d, &[2]),
        (&["T07"], &["`", "}"], &["`", "$", "{", "}", "\\", "a"], 3, &[0, 1, 3]),
        (&["T08"], &["/"], &["/", "[", "]", "\\", "a", "z", "A", "*", "=", "\n", "\r", "é", "\u{2028}", "\u{2029}", "\u{2020}", "1", "{", "`"], 3 + d, &[0, 1]),
        (&["T08"], &["/"], &["/", "[", "]", "\\", "a", "é"], 6 + d, &[1]),
        (&["T09"], &["", "0", "1", "."], &["0", "1", "7", "8", "9", ".", "e", "E", "x", "o", "b", "a", "f", "+", "-", "_", "g"], 3 + d, &[0]),
        (&["T09"], &["0", "1", "."], &["0", "1", "9", ".", "e", "-"], 6 + d, &[0]),
        (&["T10"], &[""], &["a", "z", "A", "Z", "0", "9", "$", "_", "-", "é", "\u{2028}", "\u{2020}", "\u{feff}", "\u{a0}", "@", "#", "\\", "[", "`", "\u{7f}", "\u{0}"], 3 + d, &[0]),
        (&["T01", "T02", "T03"], &[""], blanks, 3 + d, ALL),
        (&["T01", "T03"], &[""], &["\n", "\r", "\u{2028}", "a", "\"", "\\", "`", "\u{a0}"], 6, &[0]),
    ];
    // the plans about the wanted properties first
    for pass in 0..2 {
        for (props, pre, alpha, len, hints) in &plan {
            let mine = props.iter().any(|p| ctl.wanted(p)) && !ctl.props.is_empty();
            if mine == (pass == 0) { exhaustive(ctl, worker, pre, alpha, if pass == 0 { *len } else { (*len).min(4) }, hints) }
            if ctl.stop() { return }
        }
    }
    conformance(ctl, worker, true);
    // every single character on its own, after a blank, in each literal
    let mut k = 0u32;
    for c in 0u32..0x3100 {
        k += 1;
        if k as usize % ctl.workers != worker { continue }
        if let Some(c) = char::from_u32(c) {
            for t in [format!("{}", c), format!(" {}x", c), format!("\"{}\"", c), format!("\"\\{}\"", c), format!("`{}`", c), format!("/{}/{}", c, c), format!("//{}a", c), format!("/*{}*/", c), format!("1{}", c), format!("a{}a", c)] {
                hit(ctl, &t, &[1]);
            }
        }
        if ctl.stop() { return }
    }
    long(ctl, worker, &[1000, 4097, 65537, 70000]);
    while !ctl.stop() { for _ in 0..256 { random(ctl, &mut rng) } }
}
