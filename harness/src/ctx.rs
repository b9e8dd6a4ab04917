//! Run context: seeded randomness, coverage accounting, violations, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard, OnceLock};
use std::time::Instant;

/// xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = z ^ (z >> 31);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub struct State {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub level: String,
    pub start: Instant,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub violations: Vec<Value>,
    known: BTreeMap<String, (u64, String)>,
}

static STATE: OnceLock<Mutex<State>> = OnceLock::new();

pub fn init(id: &str) {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let _ = STATE.set(Mutex::new(State {
        id: id.into(),
        tier,
        seed,
        level: "exploration".into(),
        start: Instant::now(),
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        rule: String::new(),
        assumptions: vec![],
        violations: vec![],
        known: BTreeMap::new(),
    }));
}

pub fn st() -> MutexGuard<'static, State> {
    STATE
        .get()
        .expect("ctx not initialised")
        .lock()
        .unwrap_or_else(|e| e.into_inner())
}
pub fn rng(stream: u64) -> Rng {
    Rng::new(st().seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(stream))
}
pub fn thorough() -> bool {
    st().tier == "thorough"
}
/// How much of the time of a check the workload may take: the base counts run in well under a second.
fn budget(id: &str) -> f64 {
    match id {
        "C01" | "C05" | "C10" | "C16" | "C17" | "C18" | "C23" => 10.0,
        "C02" | "C03" | "C04" | "C06" | "C07" | "C09" | "C15" => 8.0,
        "C08" | "C11" | "C24" | "C25" => 4.0,
        "C27" | "C28" => 2.0,
        _ => 1.0,
    }
}
/// n for quick, m for thorough.
pub fn n(quick: usize, thorough_n: usize) -> usize {
    let scale = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse::<f64>().ok())
        .unwrap_or(1.0);
    let b = if thorough() { thorough_n } else { quick };
    let scale = scale * SCALE.load(Ordering::SeqCst) as f64 / 1000.0;
    ((b as f64 * scale * budget(&st().id)) as usize).max(1)
}
/// A number of expensive cases that is not scaled by the check's budget.
pub fn few(quick: usize, thorough_n: usize) -> usize {
    if thorough() {
        thorough_n
    } else {
        quick
    }
}
pub fn rule(s: &str) {
    st().rule = s.into();
}
pub fn assume(s: &str) {
    st().assumptions.push(s.into());
}
pub fn count(name: &str, by: u64) {
    *st().counters.entry(name.into()).or_insert(0) += by;
}
pub fn counter(name: &str) -> u64 {
    st().counters.get(name).copied().unwrap_or(0)
}
/// One execution judged by an oracle. `h`: fingerprint of the case, None when trivial.
pub fn case(h: Option<u64>) {
    let mut s = st();
    s.evals += 1;
    if let Some(h) = h {
        s.distinct.insert(h);
    }
}
pub fn sample(v: Value) {
    let mut s = st();
    if s.samples.len() < 12 {
        s.samples.push(v);
    }
}
pub fn want_sample() -> bool {
    st().samples.len() < 12
}
pub fn fnv(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let v: Vec<u64> = s.bytes().map(u64::from).collect();
    fnv(&v)
}

/// Number of violations after which a check stops early.
pub fn enough() -> bool {
    st().violations.len() >= 8
}

/// Set while another monitor (a sanitizer) judges the run: wrong values are other properties' business.
static IGNORE_VALUES: AtomicBool = AtomicBool::new(false);
static SCALE: AtomicU64 = AtomicU64::new(1000);
pub fn ignore_values() {
    IGNORE_VALUES.store(true, Ordering::SeqCst);
}
/// Scales the counts of the following workloads (thousandths).
pub fn scale(permille: u64) {
    SCALE.store(permille, Ordering::SeqCst);
}
pub fn violation(what: &str, detail: Value) {
    if IGNORE_VALUES.load(Ordering::SeqCst) {
        count("value_reports_left_to_other_properties", 1);
        return;
    }
    let mut s = st();
    let n = s.violations.len();
    if n >= 40 {
        return;
    }
    let v = json!({"property": s.id, "seed": s.seed, "tier": s.tier, "what": what, "detail": detail,
        "replay": format!("VERIF_SEED={} VERIF_TIER={} ./check {}", s.seed, s.tier, s.id)});
    eprintln!("[{}] violation: {} {}", s.id, what, shorten(&v["detail"].to_string(), 600));
    s.violations.push(v);
}
/// A failure listed in the known-findings file, recognised by its exact signature.
pub fn known(key: &str, what: &str) {
    static FILE: OnceLock<String> = OnceLock::new();
    let f = FILE.get_or_init(|| std::fs::read_to_string(out_dir().join("known_findings.txt")).unwrap_or_default());
    let id = st().id.clone();
    if !f.lines().any(|l| l.starts_with(&format!("KNOWN-FINDING: property={id} ")) && l.contains(key)) {
        violation(what, json!({"finding": key}));
        return;
    }
    let mut s = st();
    let e = s.known.entry(key.into()).or_insert((0, what.into()));
    e.0 += 1;
}
pub fn shorten(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.into()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

fn out_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// Writes evidence, prints the verdict lines and ends the process.
pub fn finish() -> ! {
    let s = st();
    let dir = out_dir();
    let ev = dir.join("evidence");
    let rp = dir.join("replay");
    let _ = std::fs::create_dir_all(&ev);
    let _ = std::fs::create_dir_all(&rp);
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(s.evals));
    cov.insert("distinct_nontrivial".into(), json!(s.distinct.len()));
    cov.insert("rule".into(), json!(s.rule));
    cov.insert("samples".into(), json!(s.samples));
    for (k, v) in &s.counters {
        cov.insert(k.clone(), json!(v));
    }
    if !s.known.is_empty() {
        cov.insert(
            "known_findings_seen".into(),
            json!(s.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>()),
        );
    }
    let e = json!({"property": s.id, "tier": s.tier, "seed": s.seed, "level": s.level,
        "coverage": Value::Object(cov), "assumptions": s.assumptions,
        "wall_s": (s.start.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": s.violations.len()});
    let evf = ev.join(format!("{}.json", s.id));
    if let Err(er) = std::fs::write(&evf, serde_json::to_string_pretty(&e).unwrap()) {
        eprintln!("cannot write evidence: {er}");
        std::process::exit(2);
    }
    let mut so = std::io::stdout();
    for (k, (n, w)) in &s.known {
        let _ = writeln!(so, "KNOWN-FINDING: property={} {} [{}; seen {} times]", s.id, w, k, n);
    }
    let code = if !s.violations.is_empty() {
        let p = rp.join(format!("{}.json", s.id));
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&s.violations).unwrap());
        let _ = writeln!(so, "VIOLATION property={} replay={}", s.id, p.display());
        1
    } else if s.evals == 0 || s.distinct.is_empty() {
        eprintln!("[{}] nothing observed: inconclusive", s.id);
        3
    } else {
        let _ = writeln!(
            so,
            "HELD property={} evaluations={} distinct={} wall={:.1}s",
            s.id,
            s.evals,
            s.distinct.len(),
            s.start.elapsed().as_secs_f64()
        );
        0
    };
    let _ = so.flush();
    std::process::exit(code)
}

// ---- panic capture ----
thread_local! { static LAST: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
static ANY_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "non-string panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = format!("{} at {}", shorten(&m, 300), loc);
        if m.starts_with("HARNESS") || m.starts_with("unsafe precondition") || m.contains("misaligned pointer") {
            eprintln!("{msg}");
        }
        let _ = LAST.try_with(|l| *l.borrow_mut() = Some(msg.clone()));
        if let Ok(mut v) = ANY_PANIC.lock() {
            if v.len() < 64 {
                v.push(msg);
            }
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}
/// Runs `f`, turning a panic into Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let ps = take_panics();
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            Err(ps.into_iter().next().unwrap_or(m))
        }
    }
}
