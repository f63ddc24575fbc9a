//! Explorer shared by all checks: exhaustively enumerates indexed case spaces on all cores,
//! judges each case against the suite's oracle, collects coverage and reports violations.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E3779B97F4A7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// identity of the failing case (used to match known findings): stable and specific
    pub key: String,
    pub detail: String,
}
impl Fail {
    pub fn new(key: impl Into<String>, detail: impl Into<String>) -> Fail {
        Fail { key: key.into(), detail: detail.into() }
    }
}
pub type Res = Result<(), Fail>;

#[derive(Default)]
pub struct Cx {
    /// distinct states of the reference model / explorer seen
    pub states: FxSet,
    /// model steps / implementation steps taken
    pub transitions: u64,
    /// complete behaviours of the model compared step by step with the implementation
    pub traces: u64,
    /// distinct observed behaviours (anti-vacuity)
    pub outcomes: FxSet,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub replaying: bool,
}
impl Cx {
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.states.len() < 2_000_000 {
            self.states.insert(h64(t));
        }
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(h64(t));
        }
    }
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.samples.push(f());
        }
    }
}

pub trait Suite: Sync + Send {
    fn name(&self) -> String;
    /// what is enumerated, within which bounds
    fn bounds(&self) -> String;
    fn total(&self) -> u64;
    fn case(&self, idx: u64, cx: &mut Cx) -> Res;
}

/// Suite over an explicit list of items.
pub struct ListSuite<T: Sync + Send, F: Fn(&T, &mut Cx) -> Res + Sync + Send> {
    pub name: String,
    pub bounds: String,
    pub items: Vec<T>,
    pub f: F,
}
impl<T: Sync + Send, F: Fn(&T, &mut Cx) -> Res + Sync + Send> Suite for ListSuite<T, F> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bounds(&self) -> String {
        self.bounds.clone()
    }
    fn total(&self) -> u64 {
        self.items.len() as u64
    }
    fn case(&self, idx: u64, cx: &mut Cx) -> Res {
        (self.f)(&self.items[idx as usize], cx)
    }
}
pub fn list<T: Sync + Send + 'static>(
    name: &str,
    bounds: &str,
    items: Vec<T>,
    f: impl Fn(&T, &mut Cx) -> Res + Sync + Send + 'static,
) -> Box<dyn Suite> {
    Box::new(ListSuite { name: name.into(), bounds: bounds.into(), items, f })
}

/// Suite over a mixed-radix product space.
pub struct RadixSuite<F: Fn(&[usize], &mut Cx) -> Res + Sync + Send> {
    pub name: String,
    pub bounds: String,
    pub radix: Vec<usize>,
    pub f: F,
}
impl<F: Fn(&[usize], &mut Cx) -> Res + Sync + Send> Suite for RadixSuite<F> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn bounds(&self) -> String {
        format!("{} [product of {:?}]", self.bounds, self.radix)
    }
    fn total(&self) -> u64 {
        self.radix.iter().map(|&r| r as u64).product()
    }
    fn case(&self, idx: u64, cx: &mut Cx) -> Res {
        let mut i = idx;
        let mut v = [0usize; 24];
        for (k, &r) in self.radix.iter().enumerate() {
            v[k] = (i % r as u64) as usize;
            i /= r as u64;
        }
        (self.f)(&v[..self.radix.len()], cx)
    }
}
pub fn radix(
    name: &str,
    bounds: &str,
    radix: Vec<usize>,
    f: impl Fn(&[usize], &mut Cx) -> Res + Sync + Send + 'static,
) -> Box<dyn Suite> {
    assert!(radix.len() <= 24 && radix.iter().all(|r| *r > 0), "{name}: {radix:?}");
    Box::new(RadixSuite { name: name.into(), bounds: bounds.into(), radix, f })
}

/// All strings (as index vectors) over an alphabet of size `k` with lengths 0..=max.
pub fn words(k: usize, max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::with_capacity(last.len() * k);
        for w in &last {
            for c in 0..k {
                let mut n = w.clone();
                n.push(c as u8);
                next.push(n);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
/// Number of words of length 0..=max over k letters.
pub fn nwords(k: usize, max: usize) -> u64 {
    (0..=max).map(|n| (k as u64).pow(n as u32)).sum()
}
/// i-th word in length-lexicographic order.
pub fn word(k: usize, mut i: u64) -> Vec<usize> {
    let mut len = 0;
    loop {
        let n = (k as u64).pow(len);
        if i < n {
            break;
        }
        i -= n;
        len += 1;
    }
    let mut v = vec![0; len as usize];
    for p in (0..len as usize).rev() {
        v[p] = (i % k as u64) as usize;
        i /= k as u64;
    }
    v
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub technique: &'static str,
    pub assumptions: Vec<String>,
    pub suites: Vec<Box<dyn Suite>>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("MC_VERIF").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        if std::env::var("MC_BT").is_ok() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
/// Runs library code; a panic in it becomes an observable value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

struct Slots {
    cur: Vec<(AtomicU64, AtomicU64)>, // (suite<<48 | idx)+1, start ms
    file: Option<std::fs::File>,
}

const HANG_SECS: u64 = 40;

fn case_guarded(s: &dyn Suite, idx: u64, cx: &mut Cx) -> Result<Res, String> {
    guard(|| s.case(idx, cx))
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            // known: property=<id> key=<key> :: <description>
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((pid, rest)) = r.split_once(' ') {
                    if pid == id {
                        if let Some(r2) = rest.strip_prefix("key=") {
                            let (k, d) = r2.split_once(" :: ").unwrap_or((r2, ""));
                            v.push((k.to_string(), d.to_string()));
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn json_escape(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn write_replay(id: &str, tier: &str, suite: &str, idx: u64, f: &Fail) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{suite}-{idx}.txt"));
    let text = format!(
        "property: {id}\nsuite: {suite}\ncase: {idx}\nkey: {}\nreplay with: bash /verif/check.sh case {id} {tier} {suite} {idx}\n\n{}\n",
        f.key, f.detail
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

fn construction(id: &str, tier: &str, what: String) -> i32 {
    let f = Fail::new("construction", what);
    let p = write_replay(id, tier, "construction", 0, &f);
    println!("VIOLATION property={id} replay={p}");
    println!("  {}", f.detail);
    1
}
/// Building the suites compiles the scripts they run: the library refusing, crashing on or never finishing one
/// of them is a violation like any other.
pub fn build_and_explore(id: &str, tier: &str) -> i32 {
    let built = std::sync::Arc::new(AtomicBool::new(false));
    let (b, i, t) = (built.clone(), id.to_string(), tier.to_string());
    std::thread::spawn(move || {
        for _ in 0..240 {
            std::thread::sleep(Duration::from_secs(1));
            if b.load(SeqCst) {
                return;
            }
        }
        std::process::exit(construction(&i, &t, "the library did not finish compiling the scripts of this check within 240 s".into()));
    });
    let p = guard(|| crate::props::get(id, tier).unwrap());
    built.store(true, SeqCst);
    match p {
        Ok(p) => child(id, tier, p),
        Err(e) => construction(id, tier, format!("a script of this check does not compile any more: {e}")),
    }
}

pub fn child(id: &str, tier: &str, prop: Property) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = std::env::var("MC_SUITE").ok();
    let keep: usize = std::env::var("MC_KEEP").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
    let known = load_known(id);
    let slots = Slots {
        cur: (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(),
        file: std::env::var("MC_SLOTS").ok().and_then(|p| {
            std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()
        }),
    };
    let done = AtomicBool::new(false);
    let mut total_cx = Cx::default();
    let mut suites_json = vec![];
    let mut known_hit: HashMap<String, String> = HashMap::new();
    let mut violations: Vec<(String, u64, Fail)> = vec![];
    let mut all_cases = 0u64;
    let cur_suite = AtomicUsize::new(0);

    let names: Vec<String> = prop.suites.iter().map(|s| s.name()).collect();
    {
        let mut d = names.clone();
        d.sort();
        d.dedup();
        assert_eq!(d.len(), names.len(), "duplicate suite names");
    }
    std::thread::scope(|sc| {
        // watchdog: a case that does not come back is a violation of termination
        sc.spawn(|| {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for (c, st) in &slots.cur {
                    let v = c.load(SeqCst);
                    if v != 0 && now.saturating_sub(st.load(SeqCst)) > HANG_SECS * 1000 && c.load(SeqCst) == v {
                        let si = ((v - 1) >> 48) as usize;
                        let idx = (v - 1) & ((1 << 48) - 1);
                        let f = Fail::new(
                            format!("hang:{}:{}", names[si], idx),
                            format!("case did not terminate within {HANG_SECS} s"),
                        );
                        let p = write_replay(id, tier, &names[si], idx, &f);
                        println!("VIOLATION property={id} replay={p}");
                        println!("  {}", f.detail);
                        std::process::exit(1);
                    }
                }
            }
        });
        for (si, suite) in prop.suites.iter().enumerate() {
            if only.as_ref().is_some_and(|o| *o != names[si]) {
                continue;
            }
            cur_suite.store(si, SeqCst);
            let total = suite.total();
            assert!(total < 1 << 47);
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let fails: Mutex<Vec<(u64, Fail)>> = Mutex::new(vec![]);
            let merged: Mutex<Cx> = Mutex::new(Cx::default());
            let khits: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
            let cases = AtomicU64::new(0);
            let st0 = Instant::now();
            let chunk = (total / (nthreads as u64 * 64)).clamp(1, 256);
            std::thread::scope(|s2| {
                for t in 0..nthreads {
                    let (next, stop, fails, merged, khits, cases, slots, known, t0) =
                        (&next, &stop, &fails, &merged, &khits, &cases, &slots, &known, &t0);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s2, move || {
                            let mut cx = Cx::default();
                            let mut n = 0u64;
                            while !stop.load(Relaxed) {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= total {
                                    break;
                                }
                                for idx in a..(a + chunk).min(total) {
                                    if stop.load(Relaxed) {
                                        break;
                                    }
                                    let v = ((si as u64) << 48 | idx) + 1;
                                    slots.cur[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                                    slots.cur[t].0.store(v, SeqCst);
                                    if let Some(f) = &slots.file {
                                        let _ = f.write_at(&v.to_le_bytes(), t as u64 * 8);
                                    }
                                    // samples: first, middle and last case of each suite
                                    cx.want_sample = idx == 0 || idx == total / 2 || idx + 1 == total;
                                    let r = match case_guarded(suite.as_ref(), idx, &mut cx) {
                                        Ok(r) => r,
                                        Err(p) => Err(Fail::new(
                                            format!("panic:{}:{}", suite.name(), idx),
                                            format!("panic outside a guarded library call: {p}"),
                                        )),
                                    };
                                    n += 1;
                                    if let Err(f) = r {
                                        if let Some((k, d)) = known.iter().find(|(k, _)| *k == f.key) {
                                            khits.lock().unwrap().push((k.clone(), d.clone()));
                                        } else {
                                            let mut fl = fails.lock().unwrap();
                                            fl.push((idx, f));
                                            if fl.len() >= keep {
                                                stop.store(true, SeqCst);
                                            }
                                        }
                                    }
                                    slots.cur[t].0.store(0, SeqCst);
                                }
                            }
                            cases.fetch_add(n, Relaxed);
                            let mut m = merged.lock().unwrap();
                            m.states.extend(cx.states);
                            m.outcomes.extend(cx.outcomes);
                            m.transitions += cx.transitions;
                            m.traces += cx.traces;
                            m.samples.extend(cx.samples);
                        })
                        .unwrap();
                }
            });
            let m = merged.into_inner().unwrap();
            let nc = cases.load(SeqCst);
            all_cases += nc;
            suites_json.push(format!(
                "{{\"suite\":{},\"bounds\":{},\"cases\":{},\"of\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"wall_s\":{:.2}}}",
                json_escape(&names[si]), json_escape(&suite.bounds()), nc, total, m.states.len(), m.transitions, m.traces, m.outcomes.len(), st0.elapsed().as_secs_f64()
            ));
            eprintln!(
                "[{id}] {:<28} cases {:>9}/{:<9} states {:>8} transitions {:>10} traces {:>9} outcomes {:>7} {:.2}s",
                names[si], nc, total, m.states.len(), m.transitions, m.traces, m.outcomes.len(), st0.elapsed().as_secs_f64()
            );
            total_cx.transitions += m.transitions;
            total_cx.traces += m.traces;
            // states of different suites live in different spaces: keep them apart
            for s in m.states {
                total_cx.states.insert(s ^ h64(&names[si]));
            }
            for s in m.outcomes {
                total_cx.outcomes.insert(s ^ h64(&names[si]));
            }
            for s in m.samples.into_iter().take(3) {
                total_cx.samples.push(format!("[{}] {}", names[si], s));
            }
            for (k, d) in khits.into_inner().unwrap() {
                known_hit.insert(k, d);
            }
            let mut fl = fails.into_inner().unwrap();
            fl.sort_by_key(|(i, _)| *i);
            for (i, f) in fl {
                violations.push((names[si].clone(), i, f));
            }
            if !violations.is_empty() && keep == 1 {
                break;
            }
        }
        done.store(true, SeqCst);
    });

    for (k, d) in &known_hit {
        println!("KNOWN-FINDING: property={id} {k} {d}");
    }
    let exhaustive = violations.is_empty() && only.is_none();
    let mut samples = total_cx.samples.clone();
    samples.truncate(12);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"suites\": [{}],\n  \"binding\": {}\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json_escape(id), json_escape(tier), seed, json_escape(prop.level),
        total_cx.states.len(), total_cx.transitions, total_cx.traces, all_cases, total_cx.outcomes.len(), exhaustive,
        samples.iter().map(|s| json_escape(s)).collect::<Vec<_>>().join(","),
        suites_json.join(",\n   "),
        json_escape("every enumerated behaviour is executed on the real library built from /repo's working tree and compared with the reference model's behaviour for the same case; no model trace is left unvalidated"),
        prop.assumptions.iter().map(|s| json_escape(s)).collect::<Vec<_>>().join(","),
        violations.len(), t0.elapsed().as_secs_f64()
    );
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if only.is_none() {
        std::fs::write(evdir.join(format!("{id}.json")), ev).expect("write evidence");
    }
    for (i, (s, idx, f)) in violations.iter().enumerate() {
        let p = write_replay(id, tier, s, *idx, f);
        if i == 0 || keep > 1 {
            println!("VIOLATION property={id} replay={p}");
            println!("  suite {s} case {idx} key {}", f.key);
            for l in f.detail.lines().take(60) {
                println!("  | {l}");
            }
        }
    }
    if violations.is_empty() {
        println!(
            "OK property={id} cases={all_cases} states={} transitions={} traces={} outcomes={} wall={:.1}s",
            total_cx.states.len(), total_cx.transitions, total_cx.traces, total_cx.outcomes.len(), t0.elapsed().as_secs_f64()
        );
        0
    } else {
        1
    }
}

pub fn one_case(id: &str, tier: &str, prop: Property, suite: &str, idx: u64) -> i32 {
    for s in &prop.suites {
        if s.name() == suite {
            let mut cx = Cx { want_sample: true, replaying: true, ..Default::default() };
            let r = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || case_guarded(s.as_ref(), idx, &mut cx))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            for s in &cx.samples {
                println!("sample: {s}");
            }
            return match r {
                Ok(Ok(())) => {
                    println!("OK case {suite} {idx}");
                    0
                }
                Ok(Err(f)) => {
                    let p = write_replay(id, tier, suite, idx, &f);
                    println!("VIOLATION property={id} replay={p}\n{}\n{}", f.key, f.detail);
                    1
                }
                Err(p) => {
                    println!("VIOLATION property={id} replay=none\npanic {p}");
                    1
                }
            };
        }
    }
    eprintln!("no such suite");
    2
}

/// Supervises the exploring process: if it is killed by a signal (stack overflow, abort), the cases in
/// flight are re-run one by one in processes of their own and a reproduced death is a violation.
pub fn parent(id: &str, tier: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", id, std::process::id()));
    let st = std::process::Command::new(&exe)
        .args(["child", id, tier])
        .env("MC_SLOTS", &slots)
        .status()
        .expect("spawn");
    let data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("exploring process died with signal {sig}; re-running the cases in flight");
    if data.chunks(8).all(|c| c.iter().all(|b| *b == 0)) {
        return construction(id, tier, format!("the process died with signal {sig} while the library compiled the scripts of this check"));
    }
    let prop = crate::props::get(id, tier).unwrap();
    for c in data.chunks(8) {
        if c.len() < 8 {
            continue;
        }
        let v = u64::from_le_bytes(c.try_into().unwrap());
        if v == 0 {
            continue;
        }
        let si = ((v - 1) >> 48) as usize;
        let idx = (v - 1) & ((1 << 48) - 1);
        let name = prop.suites[si].name();
        let st = std::process::Command::new(&exe)
            .args(["case", id, tier, &name, &idx.to_string()])
            .status()
            .expect("spawn");
        if st.code().is_none() || st.code() == Some(1) {
            let f = Fail::new(
                format!("crash:{name}:{idx}"),
                format!("process running this single case ended with {st} (abort, stack overflow or memory exhaustion)"),
            );
            let p = write_replay(id, tier, &name, idx, &f);
            println!("VIOLATION property={id} replay={p}");
            println!("  {}", f.detail);
            return 1;
        }
    }
    eprintln!("could not attribute the crash to a case");
    3
}
