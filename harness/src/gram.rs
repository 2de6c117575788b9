//! The reference grammar as a deterministic pushdown recogniser over abstract tokens.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym { P(String), K(String), C(String), X(String), N(usize) }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum G { La(usize), Nla(usize), Nolt, Flag(u8, bool) } // operand: index into syms

#[derive(Debug, Clone)]
pub struct Tr { pub guards: Vec<G>, pub sym: usize, pub set: u8, pub clear: u8, pub to: u16 }

pub struct Nt { pub trans: Vec<Vec<Tr>>, pub accept: Vec<Vec<Vec<G>>>, pub relevant: u8 }

pub const FLAGS: [&str; 6] = ["In", "Yield", "Await", "Default", "Req", "Call"];

const RESERVED: &[&str] = &["break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
    "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this",
    "throw", "try", "typeof", "var", "void", "while", "with", "yield", "let", "static", "enum", "implements", "package", "protected",
    "interface", "private", "public", "null", "true", "false", "await"];

/// index into Grammar::kinds
pub type Tid = u16;

/// What the token after an identifier name is, as far as the two-token predicates see it.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Nx { Other, Colon, Paren, Function, Ident }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Env { pub t: Tid, pub lt: bool, pub nx: Nx }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Frame { pub nt: u16, pub state: u16, pub flags: u8 }

pub struct Grammar {
    pub nts: Vec<Nt>,
    pub syms: Vec<Sym>,
    pub kinds: Vec<Sym>,            // P, K, C only
    pub matches: Vec<Vec<bool>>,    // [sym][kind]
    pub by_name: HashMap<String, usize>,
    pub start: Frame,
    pub reserved: Vec<bool>,        // [kind]
    pub eof: Tid,
}

impl Grammar {
    pub fn load(path: &str) -> Grammar {
        let text = std::fs::read_to_string(path).expect("grammar");
        let mut names: HashMap<String, usize> = HashMap::new();
        for l in text.lines() { if let Some(n) = l.strip_prefix("nt ") { let k = names.len(); names.insert(n.into(), k); } }
        let mut syms: Vec<Sym> = vec![];
        let mut nts: Vec<Nt> = vec![];
        fn sym(s: &str, names: &HashMap<String, usize>, syms: &mut Vec<Sym>) -> usize {
            let v = s[2..].to_string();
            let x = match &s[..1] { "p" => Sym::P(v), "k" => Sym::K(v), "c" => Sym::C(v), "x" => Sym::X(v), "n" => Sym::N(names[&v]), _ => panic!("{}", s) };
            match syms.iter().position(|y| *y == x) { Some(i) => i, None => { syms.push(x); syms.len() - 1 } }
        }
        let fl = |s: &str| FLAGS.iter().position(|f| *f == s).expect("flag") as u8;
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let mut guards = |ws: &[&str], syms: &mut Vec<Sym>| -> Vec<G> {
                ws.iter().map(|g| if *g == "nolt" { G::Nolt }
                    else if g.starts_with('&') { G::La(sym(&g[1..], &names, syms)) }
                    else if g.starts_with('!') { G::Nla(sym(&g[1..], &names, syms)) }
                    else { G::Flag(fl(&g[1..]), g.starts_with('+')) }).collect()
            };
            match w[0] {
                "nt" => nts.push(Nt { trans: vec![], accept: vec![], relevant: 0 }),
                "st" => { let n = nts.last_mut().unwrap(); n.trans.push(vec![]); n.accept.push(vec![]); }
                "t" => {
                    let (mut set, mut clear) = (0u8, 0u8);
                    if w[3] != "." { for m in w[3].split(',') { if m.starts_with('+') { set |= 1 << fl(&m[1..]) } else { clear |= 1 << fl(&m[1..]) } } }
                    let t = Tr { to: w[1].parse().unwrap(), sym: sym(w[2], &names, &mut syms), set, clear, guards: guards(&w[4..], &mut syms) };
                    nts.last_mut().unwrap().trans.last_mut().unwrap().push(t);
                }
                "a" => { let g = guards(&w[1..], &mut syms); nts.last_mut().unwrap().accept.last_mut().unwrap().push(g); }
                _ => {}
            }
        }
        // token kinds
        let mut kinds: Vec<Sym> = crate::lexref::PUNCTS.iter().map(|p| Sym::P(p.to_string())).collect();
        let mut ks: Vec<String> = syms.iter().filter_map(|s| if let Sym::K(k) = s { Some(k.clone()) } else { None }).collect();
        ks.extend(RESERVED.iter().map(|s| s.to_string()));
        ks.extend(["foo", "bar", "arguments", "eval", "constructor", "prototype", "undefined"].iter().map(|s| s.to_string()));
        ks.sort(); ks.dedup();
        kinds.extend(ks.into_iter().map(Sym::K));
        for c in ["NUMBER", "STRING", "REGEX", "TEMPLATE", "HEAD", "MIDDLE", "TAIL", "EOF"] { kinds.push(Sym::C(c.into())) }
        let reserved: Vec<bool> = kinds.iter().map(|k| matches!(k, Sym::K(n) if RESERVED.contains(&n.as_str()))).collect();
        let matches = syms.iter().map(|s| kinds.iter().enumerate().map(|(i, k)| match s {
            Sym::C(c) if c == "IDNAME" => matches!(k, Sym::K(_)),
            Sym::C(c) if c == "IDENT" => matches!(k, Sym::K(_)) && !reserved[i],
            Sym::X(x) if x == "UNARYOP" => match k {
                Sym::P(p) => ["+", "-", "~", "!"].contains(&p.as_str()),
                Sym::K(n) => ["delete", "void", "typeof", "await"].contains(&n.as_str()),
                _ => false,
            },
            _ => s == k,
        }).collect()).collect();
        let eof = kinds.iter().position(|k| *k == Sym::C("EOF".into())).unwrap() as Tid;
        let start = Frame { nt: names["Module"] as u16, state: 0, flags: 1 };
        let mut g = Grammar { nts, syms, kinds, matches, by_name: names, start, reserved, eof };
        loop {
            let mut ch = false;
            for n in 0..g.nts.len() {
                let mut r = g.nts[n].relevant;
                let gs = |gs: &Vec<G>| gs.iter().fold(0u8, |a, x| if let G::Flag(f, _) = x { a | 1 << f } else { a });
                for s in 0..g.nts[n].trans.len() {
                    for t in &g.nts[n].trans[s] {
                        r |= gs(&t.guards);
                        if let Sym::N(m) = g.syms[t.sym] { r |= g.nts[m].relevant & !(t.set | t.clear) }
                    }
                    for a in &g.nts[n].accept[s] { r |= gs(a) }
                }
                if r != g.nts[n].relevant { g.nts[n].relevant = r; ch = true }
            }
            if !ch { break }
        }
        g
    }

    pub fn tid(&self, s: &Sym) -> Tid { self.kinds.iter().position(|k| k == s).unwrap_or_else(|| panic!("unknown token {:?}", s)) as Tid }
    pub fn p(&self, s: &str) -> Tid { self.tid(&Sym::P(s.into())) }
    pub fn k(&self, s: &str) -> Tid { self.tid(&Sym::K(s.into())) }
    pub fn c(&self, s: &str) -> Tid { self.tid(&Sym::C(s.into())) }
    pub fn is_name(&self, t: Tid) -> bool { matches!(self.kinds[t as usize], Sym::K(_)) }
    pub fn is_ident(&self, t: Tid) -> bool { self.is_name(t) && !self.reserved[t as usize] }

    pub fn env(&self, t: Tid, lt: bool, next: Option<(Tid, bool)>) -> Env {
        let nx = match (next, self.is_name(t)) {
            (Some((n, nlt)), true) => match &self.kinds[n as usize] {
                Sym::P(p) if p == ":" => Nx::Colon,
                Sym::P(p) if p == "(" && !nlt => Nx::Paren,
                Sym::K(k) if k == "function" && !nlt => Nx::Function,
                Sym::K(_) if self.is_ident(n) && !nlt => Nx::Ident,
                _ => Nx::Other,
            },
            _ => Nx::Other,
        };
        Env { t, lt, nx }
    }

    fn operand(&self, s: usize, e: Env) -> bool {
        match &self.syms[s] {
            Sym::X(x) => match x.as_str() {
                "ASI" => e.lt || e.t == self.eof || self.kinds[e.t as usize] == Sym::P("}".into()),
                "LABEL" => self.is_ident(e.t) && e.nx == Nx::Colon,
                "ASYNCFN" => self.kinds[e.t as usize] == Sym::K("async".into()) && e.nx == Nx::Function,
                "ASYNCARROW" => self.kinds[e.t as usize] == Sym::K("async".into()) && e.nx == Nx::Ident,
                "ASYNCCALL" => self.kinds[e.t as usize] == Sym::K("async".into()) && e.nx == Nx::Paren,
                "UNARYOP" => self.matches[s][e.t as usize],
                _ => panic!("{}", x),
            },
            _ => self.matches[s][e.t as usize],
        }
    }
    fn ok(&self, gs: &[G], flags: u8, e: Env) -> bool {
        gs.iter().all(|g| match *g {
            G::Flag(f, v) => (flags >> f & 1 == 1) == v,
            G::Nolt => !e.lt,
            G::La(s) => self.operand(s, e),
            G::Nla(s) => !self.operand(s, e),
        })
    }
    fn enter(&self, nt: usize, flags: u8, e: Env) -> (bool, bool) {
        thread_local!(static CACHE: RefCell<HashMap<(u16, u8, Env), (bool, bool)>> = RefCell::new(HashMap::new()));
        let key = (nt as u16, flags & self.nts[nt].relevant, e);
        if let Some(r) = CACHE.with(|c| c.borrow().get(&key).cloned()) { return r }
        let mut consume = false;
        let mut empty = false;
        let mut todo = vec![0u16];
        let mut seen = vec![0u16];
        while let Some(s) = todo.pop() {
            empty |= self.accepts(nt, s, flags, e);
            for t in &self.nts[nt].trans[s as usize] {
                if !self.ok(&t.guards, flags, e) { continue }
                match self.syms[t.sym] {
                    Sym::N(m) => {
                        let (c, em) = self.enter(m, flags & !t.clear | t.set, e);
                        consume |= c;
                        if em && !seen.contains(&t.to) { seen.push(t.to); todo.push(t.to) }
                    }
                    _ => consume |= self.matches[t.sym][e.t as usize],
                }
            }
        }
        CACHE.with(|c| c.borrow_mut().insert(key, (consume, empty)));
        (consume, empty)
    }
    fn accepts(&self, nt: usize, s: u16, flags: u8, e: Env) -> bool {
        self.nts[nt].accept[s as usize].iter().any(|g| self.ok(g, flags, e))
    }

    /// Consume one token: maximal munch, LL(1).
    pub fn feed(&self, stack: &mut Vec<Frame>, e: Env) -> bool {
        'top: loop {
            let f = match stack.last() { None => return false, Some(f) => *f };
            let nt = f.nt as usize;
            let mut empty = None;
            for t in &self.nts[nt].trans[f.state as usize] {
                if !self.ok(&t.guards, f.flags, e) { continue }
                match self.syms[t.sym] {
                    Sym::N(m) => {
                        let fl = f.flags & !t.clear | t.set;
                        let (c, em) = self.enter(m, fl, e);
                        if c {
                            stack.last_mut().unwrap().state = t.to;
                            stack.push(Frame { nt: m as u16, state: 0, flags: fl });
                            continue 'top;
                        }
                        if em { empty = Some(t.to) }
                    }
                    _ => if self.matches[t.sym][e.t as usize] {
                        stack.last_mut().unwrap().state = t.to;
                        return true;
                    },
                }
            }
            if let Some(to) = empty { stack.last_mut().unwrap().state = to; continue }
            if self.accepts(nt, f.state, f.flags, e) { stack.pop(); continue }
            return false;
        }
    }
    pub fn fresh(&self) -> Vec<Frame> { vec![self.start] }
}
