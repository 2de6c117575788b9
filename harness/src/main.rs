//! Falsifier: runs the real tokenizer and parser against the reference, looks for inputs that break a property.
mod gram;
mod lex;
mod lexref;
mod parse;
mod rng;

use std::cell::RefCell;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Finding { pub prop: &'static str, pub what: String, pub replay: String }

pub struct Ctl {
    pub props: Vec<String>,
    pub workers: usize,
    pub seed: u64,
    pub deep: u8,
    pub deadline: Instant,
    pub findings: Mutex<Vec<Finding>>,
    pub notes: Mutex<Vec<String>>,
    pub cases: AtomicU64,
    distinct: Vec<Mutex<std::collections::HashSet<u64>>>,
    pub samples: Mutex<Vec<String>>,
    slots: Vec<(std::fs::File, AtomicU64)>,
    t0: Instant,
    stopped: AtomicBool,
}

thread_local! {
    static WORKER: RefCell<usize> = RefCell::new(0);
    static MSG: RefCell<String> = RefCell::new(String::new());
    static COUNT: RefCell<u64> = RefCell::new(0);
}

impl Ctl {
    pub fn wanted(&self, p: &str) -> bool { self.props.is_empty() || self.props.iter().any(|q| q == p) }
    pub fn stop(&self) -> bool {
        self.stopped.load(Ordering::Relaxed) || Instant::now() > self.deadline
    }
    pub fn case<F: FnOnce() -> String>(&self, f: F) {
        let w = WORKER.with(|w| *w.borrow());
        let s = f();
        if s.len() >= 16 {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            let h = h.finish();
            let mut d = self.distinct[(h % 64) as usize].lock().unwrap();
            if d.len() < 100_000 { d.insert(h); }
        }
        let n = COUNT.with(|c| { let mut c = c.borrow_mut(); *c += 1; *c });
        if n == 100 || n == 5000 { self.samples.lock().unwrap().push(s.chars().take(300).collect()) }
        let mut b = (s.len() as u64).to_le_bytes().to_vec();
        b.extend(s.bytes());
        let _ = self.slots[w].0.write_at(&b, 0);
        self.slots[w].1.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        self.cases.fetch_add(1, Ordering::Relaxed);
    }
    pub fn done(&self) {
        let w = WORKER.with(|w| *w.borrow());
        self.slots[w].1.store(0, Ordering::Relaxed);
    }
    pub fn find(&self, f: Finding) {
        let mut v = self.findings.lock().unwrap();
        if v.iter().filter(|x| x.prop == f.prop).count() < 4 && !v.iter().any(|x| x.prop == f.prop && x.replay == f.replay) { v.push(f) }
        if !self.props.is_empty() { self.stopped.store(true, Ordering::Relaxed) }
    }
    pub fn note(&self, s: String) { self.notes.lock().unwrap().push(s) }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(MSG.with(|m| m.borrow().clone())),
    }
}

/// A panic the source did not ask for by a diagnostic.
pub fn unintended(m: &str) -> bool {
    ["index out of bounds", "attempt to ", "byte index", "char boundary", "range ", "slice index", "unreachable", "called `Option::unwrap()`",
     "called `Result::unwrap()`", "out of range", "capacity overflow", "assertion", "already borrowed", "begin <= end", "already matched",
     "out of bounds", "overflow", "division by zero"]
        .iter().any(|p| m.contains(p))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let s = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or(d.into());
    let grammar = opt("--grammar", "");
    if a[1] == "replay" {
        // harness replay FILE --grammar G: re-run one recorded case, print what breaks
        let text = std::fs::read_to_string(&a[2]).expect("replay file");
        let line = text.lines().find_map(|l| l.strip_prefix("replay: ")).expect("no replay line").to_string();
        let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || replay(&line, &grammar)).unwrap();
        std::process::exit(if th.join().unwrap() { 1 } else { 0 });
    }
    if a[1] == "texts" {
        let g = gram::Grammar::load(&grammar);
        parse::texts(&g, opt("--seed", "1").parse().unwrap(), opt("--n", "1000").parse().unwrap());
        return;
    }
    let workers: usize = opt("--workers", "8").parse().unwrap();
    let dir = opt("--dir", "/tmp");
    let props: Vec<String> = opt("--props", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let ctl = Arc::new(Ctl {
        props, workers,
        seed: opt("--seed", "1").parse().unwrap(),
        deep: opt("--deep", "0").parse().unwrap(),
        deadline: Instant::now() + Duration::from_millis(opt("--ms", "5000").parse().unwrap()),
        findings: Mutex::new(vec![]), notes: Mutex::new(vec![]), cases: AtomicU64::new(0),
        distinct: (0..64).map(|_| Mutex::new(Default::default())).collect(), samples: Mutex::new(vec![]),
        slots: (0..workers).map(|i| (std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/slot{}", dir, i)).unwrap(), AtomicU64::new(0))).collect(),
        t0: Instant::now(), stopped: AtomicBool::new(false),
    });
    let g = Arc::new(if a[1] == "parse" { Some(gram::Grammar::load(&grammar)) } else { None });
    let mode = a[1].clone();
    let mut hs = vec![];
    for w in 0..workers {
        let (ctl, g, mode, focus) = (ctl.clone(), g.clone(), mode.clone(), opt("--focus", ""));
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            WORKER.with(|x| *x.borrow_mut() = w);
            match mode.as_str() {
                "lex" => lex::run(&ctl, w),
                "parse" => parse::run(&ctl, (*g).as_ref().unwrap(), w, &focus),
                m => panic!("mode {}", m),
            }
        }).unwrap());
    }
    let mut hang = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let now = ctl.t0.elapsed().as_millis() as u64;
        for w in 0..workers {
            let s = ctl.slots[w].1.load(Ordering::Relaxed);
            if s != 0 && now > s + 20_000 { hang = Some(w) }
        }
        if hang.is_some() { break }
    }
    let mut o = String::new();
    if let Some(w) = hang { o += &format!("hang {}\n", w) }
    o += &format!("cases {}\n", ctl.cases.load(Ordering::Relaxed));
    o += &format!("distinct {}\n", ctl.distinct.iter().map(|d| d.lock().unwrap().len()).sum::<usize>());
    for n in ctl.notes.lock().unwrap().iter() { o += &format!("note {}\n", n.replace('\n', "\\n")) }
    for n in ctl.samples.lock().unwrap().iter().take(6) { o += &format!("sample {}\n", n.replace('\n', "\\n")) }
    for f in ctl.findings.lock().unwrap().iter() {
        o += &format!("find {}\t{}\t{}\n", f.prop, f.what.replace('\n', "\\n").replace('\t', " "), f.replay);
    }
    if hang.is_none() {
        for h in hs { if h.join().is_err() { o += &format!("worker-panic {}\n", MSG.with(|m| m.borrow().clone())) } }
    }
    o += "end\n";
    std::fs::write(opt("--out", "/dev/stderr"), o).unwrap();
    std::process::exit(0);
}

fn replay(line: &str, grammar: &str) -> bool {
    let w: Vec<&str> = line.split(' ').collect();
    let mut bad = vec![];
    if w[0] == "lex" {
        let hints: Vec<u8> = w[1].bytes().map(|b| b - b'0').collect();
        let bytes: Vec<u8> = if w[2] == "-" { vec![] } else { (0..w[2].len() / 2).map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).unwrap()).collect() };
        let s = String::from_utf8(bytes).unwrap();
        eprintln!("tokenizing {:?} with hints {:?} (1: an expression may start, 2: in a template substitution)", s, hints);
        lex::check(&s, &hints, &mut bad);
    } else {
        let g = gram::Grammar::load(grammar);
        parse::replay(&g, line, &mut bad);
    }
    for (p, m) in &bad { eprintln!("{}: {}", p, m) }
    if bad.is_empty() { eprintln!("nothing wrong") }
    !bad.is_empty()
}
