//! Small deterministic case runner. A case is (kind, index, seed); its random
//! choices come from a ChaCha8 stream keyed by the three, so a failing case is
//! replayed exactly by naming it.
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Cx {
    pub rng: ChaCha8Rng,
    pub idx: u64,
    pub thorough: bool,
    pub trivial: bool,
    desc: String,
    fp: u64,
}

pub struct Kind {
    pub prop: &'static str,
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Cx) -> R,
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {}, expected {}", format!($($t)*), $crate::fw::short(a), $crate::fw::short(b))); }
    }};
}

pub fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 400 { format!("{}…", s.chars().take(400).collect::<String>()) } else { s }
}

pub fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 29)
}
fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Cx {
    pub fn new(kind: &str, idx: u64, seed: u64, thorough: bool) -> Self {
        let k = mix(mix(hash_str(kind), idx), seed);
        let mut key = [0u8; 32];
        key[..8].copy_from_slice(&k.to_le_bytes());
        key[8..16].copy_from_slice(&idx.to_le_bytes());
        key[16..24].copy_from_slice(&seed.to_le_bytes());
        Cx { rng: ChaCha8Rng::from_seed(key), idx, thorough, trivial: false, desc: String::new(), fp: k & 0 }
    }
    /// Describe the case (kept for the report; also its fingerprint).
    pub fn note(&mut self, s: impl std::fmt::Display) {
        let s = s.to_string();
        self.fp = mix(self.fp, hash_str(&s));
        if self.desc.len() < 1500 {
            if !self.desc.is_empty() { self.desc.push_str("; "); }
            self.desc.push_str(&s.chars().take(600).collect::<String>());
        }
    }
    pub fn u64(&mut self) -> u64 { self.rng.next_u64() }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        ((self.rng.next_u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 { lo + self.below(hi_incl - lo + 1) }
    pub fn flip(&mut self) -> bool { self.rng.next_u64() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len() as u64) as usize; &xs[i] }
    /// A residue below p, biased to the boundaries.
    pub fn residue(&mut self, p: u64) -> u64 {
        let r = match self.below(12) {
            0 => 0,
            1 => 1,
            2 => p - 1,
            3 => p.saturating_sub(2),
            4 => p / 2,
            5 => (p / 2).saturating_sub(1),
            6 => p / 2 + 1,
            7 => p.saturating_sub(1 + self.below(16)),
            _ => self.below(p),
        };
        r % p
    }
    /// A 64-bit value, biased to the boundaries.
    pub fn word(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => (1u64 << self.below(64)).wrapping_sub(self.below(3)),
            3 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
    pub fn residues(&mut self, p: u64, n: usize) -> Vec<u64> {
        match self.below(8) {
            0 => vec![p - 1; n],
            1 => vec![0; n],
            2 => { let mut v = vec![0; n]; if n > 0 { let i = self.below(n as u64) as usize; v[i] = self.residue(p); } v }
            _ => (0..n).map(|_| self.residue(p)).collect(),
        }
    }
    pub fn fork(&mut self) -> ChaCha8Rng {
        let mut key = [0u8; 32];
        self.rng.fill_bytes(&mut key);
        ChaCha8Rng::from_seed(key)
    }
}

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// Run f; Err(message) when it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub fn run_case(k: &Kind, idx: u64, seed: u64, thorough: bool) -> (R, String, u64, bool) {
    let mut cx = Cx::new(k.name, idx, seed, thorough);
    let r = match catch_unwind(AssertUnwindSafe(|| (k.f)(&mut cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    };
    (r, cx.desc, cx.fp, cx.trivial)
}

pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub budget: f64,
    pub out: String,
    pub cur: String,
    pub threads: usize,
    pub case_limit: f64,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Fail { kind: String, idx: u64, msg: String, desc: String }

pub fn run(kinds: Vec<Kind>, o: Opts) -> i32 {
    let kinds: Arc<Vec<Kind>> = Arc::new(kinds.into_iter().filter(|k| k.prop == o.prop).collect());
    let counts: Vec<u64> = kinds.iter().map(|k| if o.thorough { k.thorough } else { k.quick }).collect();
    // Interleave the kinds so a time cut hits all of them evenly: case j of
    // kind k is ordered by (j+1)/count_k.
    let mut order: Vec<(f64, usize, u64)> = vec![];
    for (ki, &c) in counts.iter().enumerate() {
        for j in 0..c { order.push(((j + 1) as f64 / c as f64, ki, j)); }
    }
    order.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let order = Arc::new(order);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<Vec<Fail>>> = Arc::new(Mutex::new(vec![]));
    type Stat = (u64, HashSet<u64>, Vec<String>, f64);
    let stats: Arc<Mutex<HashMap<usize, Stat>>> = Arc::new(Mutex::new(HashMap::new()));
    let cur: Arc<Vec<Mutex<Option<(usize, u64, Instant)>>>> = Arc::new((0..o.threads).map(|_| Mutex::new(None)).collect());
    let start = Instant::now();
    let (seed, thorough, budget) = (o.seed, o.thorough, o.budget);
    let mut hs = vec![];
    for t in 0..o.threads {
        let (kinds, order, next, stop, fails, stats, cur) =
            (kinds.clone(), order.clone(), next.clone(), stop.clone(), fails.clone(), stats.clone(), cur.clone());
        let curf = o.cur.clone();
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut f = if curf.is_empty() { None } else { File::create(format!("{curf}.{t}")).ok() };
            let mut local: HashMap<usize, Stat> = HashMap::new();
            loop {
                if stop.load(Ordering::Relaxed) || start.elapsed().as_secs_f64() > budget { break; }
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= order.len() { break; }
                let (_, ki, j) = order[i];
                let k = &kinds[ki];
                *cur[t].lock().unwrap() = Some((ki, j, Instant::now()));
                if let Some(f) = f.as_mut() {
                    let _ = f.seek(SeekFrom::Start(0));
                    let _ = f.write_all(format!("{:<40} {:>12}\n", k.name, j).as_bytes());
                }
                let t0 = Instant::now();
                let (r, desc, fp, triv) = run_case(k, j, seed, thorough);
                *cur[t].lock().unwrap() = None;
                let s = local.entry(ki).or_default();
                s.0 += 1;
                s.3 += t0.elapsed().as_secs_f64();
                if !triv { s.1.insert(fp); }
                if s.2.len() < 2 { s.2.push(desc.clone()); }
                if let Err(m) = r {
                    fails.lock().unwrap().push(Fail { kind: k.name.into(), idx: j, msg: m, desc });
                    if fails.lock().unwrap().len() > 40 { stop.store(true, Ordering::Relaxed); }
                }
            }
            if let Some(f) = f.as_mut() {
                let _ = f.seek(SeekFrom::Start(0));
                let _ = f.write_all(format!("{:<40} {:>12}\n", "-", 0).as_bytes());
            }
            let mut g = stats.lock().unwrap();
            for (k, s) in local {
                let e = g.entry(k).or_default();
                e.0 += s.0;
                e.3 += s.3;
                e.1.extend(s.1);
                if e.2.len() < 2 { e.2.extend(s.2); }
            }
        }).unwrap());
    }
    // watchdog
    let mut hung = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for c in cur.iter() {
            if let Some((k, j, t0)) = *c.lock().unwrap() && t0.elapsed().as_secs_f64() > o.case_limit {
                hung = Some((k, j));
            }
        }
        if hung.is_some() { break; }
    }
    if let Some((k, j)) = hung {
        fails.lock().unwrap().push(Fail { kind: kinds[k].name.into(), idx: j, msg: format!("did not finish within {} s", o.case_limit), desc: String::new() });
    } else {
        for h in hs { let _ = h.join(); }
    }
    let mut fl = fails.lock().unwrap();
    fl.sort_by(|a, b| (a.kind.as_str(), a.idx).cmp(&(b.kind.as_str(), b.idx)));
    let g = stats.lock().unwrap();
    let mut js = String::from("{\n \"kinds\": [");
    for (i, k) in kinds.iter().enumerate() {
        let e = g.get(&i);
        if i > 0 { js.push(','); }
        js.push_str(&format!(
            "\n  {{\"kind\": {}, \"planned\": {}, \"ran\": {}, \"distinct\": {}, \"cpu_s\": {:.2}, \"samples\": [{}]}}",
            esc(k.name), counts[i], e.map(|e| e.0).unwrap_or(0), e.map(|e| e.1.len()).unwrap_or(0), e.map(|e| e.3).unwrap_or(0.0),
            e.map(|e| e.2.iter().take(2).map(|s| esc(s)).collect::<Vec<_>>().join(", ")).unwrap_or_default()
        ));
    }
    js.push_str("],\n \"fails\": [");
    for (i, f) in fl.iter().enumerate() {
        if i > 0 { js.push(','); }
        js.push_str(&format!("\n  {{\"kind\": {}, \"idx\": {}, \"msg\": {}, \"case\": {}}}", esc(&f.kind), f.idx, esc(&f.msg), esc(&f.desc)));
    }
    js.push_str(&format!("],\n \"wall_s\": {:.2}\n}}\n", start.elapsed().as_secs_f64()));
    std::fs::write(&o.out, js).expect("write out");
    i32::from(!fl.is_empty())
}
