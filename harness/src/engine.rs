//! Runs the contract harnesses natively: search for a failing input, and replay of one.
//!
//! verif-harness list
//! verif-harness search <property> <seed> <seconds> <out.json> [progress-file]
//! verif-harness replay <harness> <comma separated words>
use crate::harnesses;
use crate::src::Src;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Violation(&'static str);

pub enum Mode {
    Random,
    /// depth-first enumeration of all `below` choices; words are fresh numbers
    Enumerate { plan: Vec<(u32, u32)>, at: usize },
    Replay { words: Vec<u32>, at: usize },
}

pub struct Native {
    rng: u64,
    mode: Mode,
    choices: Vec<u32>,
    notes: Option<Vec<String>>,
    checks: u64,
    fresh: u32,
}
impl Native {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl Src for Native {
    fn word(&mut self) -> u32 {
        let v = match &mut self.mode {
            Mode::Replay { words, at } => {
                let v = words.get(*at).copied().unwrap_or(0);
                *at += 1;
                v
            }
            Mode::Enumerate { .. } => {
                self.fresh += 1;
                self.fresh
            }
            Mode::Random => {
                let r = self.next();
                let x = (r >> 32) as u32;
                match r % 16 {
                    0 => 0,
                    1 => 1,
                    2 => u32::MAX,
                    3 => 0x8000_0000,
                    4 => 0x7fff_ffff,
                    5 => x & 0xff,
                    6 => x & 0xffff,
                    7 => 1 << (x & 31),
                    8 => !(1 << (x & 31)),
                    9 => x & 3,
                    10 => 0x7f80_0000 | (x & 0x8040_0001),
                    _ => x,
                }
            }
        };
        self.choices.push(v);
        v
    }
    fn below(&mut self, n: u32) -> u32 {
        let v = match &mut self.mode {
            Mode::Replay { words, at } => {
                let v = words.get(*at).copied().unwrap_or(0);
                *at += 1;
                v % n
            }
            Mode::Enumerate { plan, at } => {
                if *at == plan.len() {
                    plan.push((0, n));
                }
                plan[*at].1 = n;
                let v = plan[*at].0;
                *at += 1;
                v
            }
            Mode::Random => (self.next() % n as u64) as u32,
        };
        self.choices.push(v);
        v
    }
    fn check(&mut self, cond: bool, what: &'static str) {
        self.checks += 1;
        if !cond {
            std::panic::panic_any(Violation(what));
        }
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.notes.is_some() {
            let t = f();
            self.notes.as_mut().unwrap().push(t);
        }
    }
}

type F = fn(&mut Native);
pub struct Harness {
    pub name: String,
    pub f: F,
    /// share of the time
    pub weight: u32,
    /// enumerate all choices first, up to this many cases
    pub exhaustive: u64,
}

/// Runs one case; `Some(message)` if it fails.
fn run(f: F, s: &mut Native) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(()) => None,
        Err(e) => Some(if let Some(v) = e.downcast_ref::<Violation>() {
            v.0.to_string()
        } else if let Some(m) = e.downcast_ref::<String>() {
            format!("the code panics: {m}")
        } else if let Some(m) = e.downcast_ref::<&str>() {
            format!("the code panics: {m}")
        } else {
            "the code panics".into()
        }),
    }
}
fn native(mode: Mode, rng: u64) -> Native {
    Native { rng, mode, choices: vec![], notes: None, checks: 0, fresh: 0x1000 }
}
fn replay(f: F, words: &[u32]) -> (Option<String>, Vec<u32>, Vec<String>) {
    let mut s = native(Mode::Replay { words: words.to_vec(), at: 0 }, 0);
    s.notes = Some(vec![]);
    let r = run(f, &mut s);
    (r, s.choices, s.notes.unwrap())
}
/// A smaller failing list of words.
fn shrink(f: F, mut words: Vec<u32>, limit: Duration) -> Vec<u32> {
    let t0 = Instant::now();
    let fails = |w: &[u32]| replay(f, w).0.is_some();
    let mut again = true;
    while again && t0.elapsed() < limit {
        again = false;
        // drop blocks
        let mut n = words.len() / 2;
        while n > 0 && t0.elapsed() < limit {
            let mut i = 0;
            while i + n <= words.len() && t0.elapsed() < limit {
                let mut w = words.clone();
                w.drain(i..i + n);
                if fails(&w) {
                    words = w;
                    again = true;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        for i in 0..words.len() {
            if t0.elapsed() > limit {
                break;
            }
            for c in [0, 1, words[i] / 2, words[i].saturating_sub(1)] {
                if c < words[i] {
                    let mut w = words.clone();
                    w[i] = c;
                    if fails(&w) {
                        words = w;
                        again = true;
                        break;
                    }
                }
            }
        }
    }
    words
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "search" => search(arg(2), arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(5.0), arg(5), arg(6)),
        "replay" => {
            let prop = arg(2).split('/').next().unwrap_or("");
            let h = harnesses(prop).into_iter().find(|h| h.name == arg(2)).expect("no such harness");
            let words: Vec<u32> = arg(3).split(',').filter_map(|w| w.trim().parse().ok()).collect();
            let (r, _, notes) = replay(h.f, &words);
            for n in notes {
                println!("  {n}");
            }
            match r {
                Some(m) => {
                    println!("FAILS {}: {m}", h.name);
                    std::process::exit(1)
                }
                None => println!("HOLDS {}", h.name),
            }
        }
        _ => {
            for i in 1..=19 {
                for h in harnesses(&format!("C{i:02}")) {
                    println!("{}", h.name);
                }
            }
        }
    }
}

fn search(prop: &str, seed: u64, seconds: f64, out: &str, progress: &str) {
    let hs = harnesses(prop);
    assert!(!hs.is_empty(), "no harness for {prop}");
    let progress = if progress.is_empty() { None } else { std::fs::File::create(progress).ok() };
    let total: u32 = hs.iter().map(|h| h.weight).sum();
    let (mut cases, mut checks) = (0u64, 0u64);
    let mut lines = vec![];
    let mut distinct = std::collections::HashSet::<u64>::new();
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<(String, String, Vec<u32>)> = None;
    'all: for (hi, h) in hs.iter().enumerate() {
        let t0 = Instant::now();
        let budget = Duration::from_secs_f64(seconds * h.weight as f64 / total as f64);
        let mut n = 0u64;
        let mut complete = false;
        let mut plan: Vec<(u32, u32)> = vec![];
        let mut enumerating = h.exhaustive > 0;
        let mut enumerated = 0u64;
        loop {
            if n % 16 == 0 && n > 40 && t0.elapsed() > budget {
                break;
            }
            if let Some(p) = &progress {
                use std::os::unix::fs::FileExt;
                let _ = p.write_at(format!("{hi} {n:>20}\n").as_bytes(), 0);
            }
            let case = seed.wrapping_mul(0x2545F4914F6CDD1D) ^ (hi as u64) << 48 ^ n;
            let mut s = if enumerating {
                native(Mode::Enumerate { plan: std::mem::take(&mut plan), at: 0 }, 0)
            } else {
                native(Mode::Random, case)
            };
            let r = run(h.f, &mut s);
            n += 1;
            cases += 1;
            checks += s.checks;
            if s.checks > 0 && distinct.len() < 2_000_000 {
                use std::hash::{Hash, Hasher};
                let mut d = std::collections::hash_map::DefaultHasher::new();
                (hi, &s.choices).hash(&mut d);
                distinct.insert(d.finish());
            }
            if let Some(m) = r {
                let words = shrink(h.f, s.choices, Duration::from_secs(5));
                let m = replay(h.f, &words).0.unwrap_or(m);
                failure = Some((h.name.clone(), m, words));
                break 'all;
            }
            if n == 3 && samples.len() < 12 {
                let (_, c, notes) = replay(h.f, &s.choices);
                samples.push(format!("{}: words {:?} {}", h.name, &c[..c.len().min(12)], notes.join("; ").chars().take(300).collect::<String>()));
            }
            if let Mode::Enumerate { plan: p, at } = s.mode {
                enumerated += 1;
                plan = p;
                plan.truncate(at);
                while let Some((v, b)) = plan.pop() {
                    if v + 1 < b {
                        plan.push((v + 1, b));
                        break;
                    }
                }
                if plan.is_empty() {
                    complete = true;
                    enumerating = false;
                } else if enumerated >= h.exhaustive {
                    enumerating = false;
                }
            }
        }
        lines.push(format!("{{\"harness\":{},\"cases\":{n},\"enumerated\":{enumerated},\"enumeration_complete\":{complete}}}", js(&h.name)));
    }
    let mut o = format!("{{\"property\":{},\"seed\":{seed},\"cases\":{cases},\"checks\":{checks},\"distinct\":{},\"harnesses\":[{}],\"samples\":[{}]",
        js(prop), distinct.len(), lines.join(","), samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    if let Some((name, m, words)) = &failure {
        let f = hs.iter().find(|h| &h.name == name).unwrap().f;
        let (_, _, notes) = replay(f, words);
        o += &format!(",\"failure\":{{\"harness\":{},\"what\":{},\"words\":{:?},\"history\":[{}]}}", js(name), js(m), words,
            notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    }
    o += "}\n";
    std::fs::write(out, &o).unwrap();
    match failure {
        Some((name, m, _)) => {
            println!("FAILS {name}: {m}");
            std::process::exit(1);
        }
        None => println!("HOLDS {prop}: {cases} cases, {checks} checks"),
    }
}
