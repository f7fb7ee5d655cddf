//! Execution of checks: supervisor, workers, watchdogs, evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---- allocation accounting -------------------------------------------------------------------------
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static PANIC: Cell<Option<String>> = const { Cell::new(None) };
}
const LIVE_LIMIT: i64 = 2_000_000_000;
pub struct Counting;
fn note(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 && v > LIVE_LIMIT {
            l.set(0);
            eprintln!("one case holds more than {} bytes", LIVE_LIMIT);
            std::process::abort();
        }
    });
    if n > 0 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// (allocations, bytes) so far on this thread
pub fn alloc_mark() -> (u64, u64) { (COUNT.with(|c| c.get()), BYTES.with(|c| c.get())) }

/// Runs code under test; a panic is an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.take()).unwrap_or_default())),
    }
}

// ---- checks ----------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Fail { pub input: String, pub msg: String }
pub fn fail<T>(input: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { input: input.into(), msg: msg.into() }) }

pub type StreamFn = Box<dyn Fn(&mut Ctx, u64) -> Result<(), Fail> + Send + Sync>;
pub struct Stream { pub name: &'static str, pub n: u64, pub f: StreamFn, pub exhaustive: bool }
pub type Oracle = fn(&str) -> Option<String>;
pub struct Check {
    pub id: &'static str,
    pub streams: Vec<Stream>,
    /// oracle for arbitrary texts, used to shrink inputs
    pub oracle: Option<Oracle>,
    pub rule: &'static str,
    /// events which must have been observed for the run to count
    pub require: &'static [&'static str],
}
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub sample_every: u64,
    current: Arc<Mutex<String>>,
    note: Option<PathBuf>,
}
impl Ctx {
    /// Remembers the text of a case which is about to be run, should it never come back.
    pub fn about(&mut self, text: &str) {
        if let Some(p) = &self.note { let _ = std::fs::write(p, text); }
        let mut c = self.current.lock().unwrap();
        c.clear();
        c.push_str(text);
    }
    pub fn count(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => { self.counters.insert(what.to_string(), n); }
        }
    }
    /// one case was judged; `nontrivial` as defined by the check's rule
    pub fn case(&mut self, text: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let h = hash(text.as_bytes());
            if self.distinct.insert(h) && h % self.sample_every == 0 && self.samples.len() < 3 && text.len() < 300 {
                self.samples.push(text.to_string());
            }
        }
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b { h = (h ^ u64::from(x)).wrapping_mul(0x1_0000_0000_01b3) }
    refmodel::rng::mix(h)
}

#[derive(Clone)]
pub struct Opts { pub id: String, pub seed: u64, pub thorough: bool, pub root: PathBuf, pub only: Option<(usize, u64)>, pub worker: Option<PathBuf>, pub text: Option<String> }

fn thread_cpu_ns(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid)).ok()?;
    s.split_whitespace().next()?.parse().ok()
}
fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok()))).unwrap_or(0)
}
const CPU_LIMIT: u64 = 40_000_000_000;

struct Slot { tid: AtomicU64, stream: AtomicU64, index: AtomicU64, start_cpu: AtomicU64 }

fn shrink(text: &str, oracle: Oracle) -> String {
    let bad = |s: &str| match guard(|| oracle(s)) { Ok(r) => r.is_some(), Err(_) => false };
    if text.len() > 20_000 || !bad(text) { return text.to_string() }
    let mut cur: Vec<char> = text.chars().collect();
    let t0 = Instant::now();
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            if t0.elapsed() > Duration::from_secs(20) { return cur.into_iter().collect() }
            let mut t = cur.clone();
            t.drain(i..(i + size).min(cur.len()));
            let s: String = t.iter().collect();
            if bad(&s) {
                cur = t;
                changed = true;
            } else {
                i += size;
            }
        }
        if size > 1 { size /= 2 } else if !changed { break }
    }
    cur.into_iter().collect()
}

fn report(o: &Opts, check: &Check, stream: usize, index: u64, f: &Fail) {
    let (mut input, mut msg) = (f.input.clone(), f.msg.clone());
    if let Some(or) = check.oracle {
        let s = shrink(&input, or);
        if s != input {
            if let Ok(Some(m)) = guard(|| or(&s)) {
                msg = m;
                input = s;
            }
        }
    }
    emit(o, check, stream, index, &input, &msg);
}
fn emit(o: &Opts, check: &Check, stream: usize, index: u64, input: &str, msg: &str) {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:08x}.txt", check.id, hash(input.as_bytes()) as u32));
    let tier = if o.thorough { "thorough" } else { "quick" };
    let mut s = format!(
        "property: {}\nreplay: ./check.sh {} --only {} {}   (VERIF_SEED={} VERIF_TIER={})\nstream: {}\n",
        check.id, check.id, stream, index, o.seed, tier, check.streams[stream].name
    );
    s.push_str(&format!("input (debug): {:?}\nwhat: {}\n---- input ----\n{}\n", input, msg, input));
    let _ = std::fs::write(&path, s);
    let short: String = msg.chars().take(600).collect();
    println!("input {:?}: {}", input.chars().take(400).collect::<String>(), short);
    println!("VIOLATION property={} replay={}", check.id, path.display());
    let _ = std::io::stdout().flush();
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| p.set(Some(m + &l)));
    }));
}

/// Runs the streams of a check in this process. Returns the exit code.
pub fn worker(o: &Opts, check: &Check, scratch: &Path, known: &[String]) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let threads = if o.only.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) };
    let cap = Duration::from_secs(std::env::var("MONITOR_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if o.thorough { 780 } else { 240 }));
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { tid: AtomicU64::new(0), stream: AtomicU64::new(0), index: AtomicU64::new(u64::MAX), start_cpu: AtomicU64::new(0) })
        .collect();
    let current: Vec<Arc<Mutex<String>>> = (0..threads).map(|_| Arc::new(Mutex::new(String::new()))).collect();
    let next: Vec<AtomicU64> = check.streams.iter().map(|_| AtomicU64::new(0)).collect();
    // Streams take turns, with twice the time in each round, so that no stream is starved when the time is not enough for all.
    let used: Vec<AtomicU64> = check.streams.iter().map(|_| AtomicU64::new(0)).collect();
    let ran: Vec<AtomicU64> = check.streams.iter().map(|_| AtomicU64::new(0)).collect();
    let turn = (cap.as_nanos() as u64 * threads as u64 / (4 * check.streams.len() as u64)).max(1);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let fails: Mutex<Vec<(usize, u64, Fail)>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Ctx> = Mutex::new(new_ctx(o));
    std::thread::scope(|s| {
        let mut handles = vec![];
        for n in 0..threads {
            let (slots, next, used, ran, stop, fails, broken, total, capped) = (&slots, &next, &used, &ran, &stop, &fails, &broken, &total, &capped);
            let mine = current[n].clone();
            let h = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                let mut ctx = new_ctx(o);
                ctx.current = mine;
                if o.only.is_some() { ctx.note = Some(scratch.join("current")) }
                slots[n].tid.store(my_tid(), SeqCst);
                let file = std::fs::OpenOptions::new().create(true).write(true).open(scratch.join(format!("slot{}", n))).ok();
                let all = check.streams.len();
                'streams: for (round, k) in (0..40 * all).map(|j| (j / all, j % all)) {
                    let st = &check.streams[k];
                    let chunk = (st.n / (16 * threads as u64)).clamp(1, if st.exhaustive { 256 } else { 8 });
                    loop {
                        if o.only.is_none() && used[k].load(SeqCst) >= turn << round.min(20) { continue 'streams }
                        let began = Instant::now();
                        let (from, to) = match o.only {
                            Some((a, b)) => { if a != k { continue 'streams } (b, b + 1) }
                            None => {
                                let f = next[k].fetch_add(chunk, SeqCst);
                                (f, (f + chunk).min(st.n))
                            }
                        };
                        if from >= to { break }
                        for i in from..to {
                            if stop.load(SeqCst) { break 'streams }
                            if t0.elapsed() > cap { capped.store(true, SeqCst); break 'streams }
                            if let Some(f) = &file { let _ = f.write_at(format!("{:>4} {:>20}\n", k, i).as_bytes(), 0); }
                            ctx.current.lock().unwrap().clear();
                            slots[n].start_cpu.store(thread_cpu_ns(slots[n].tid.load(SeqCst)).unwrap_or(0), SeqCst);
                            slots[n].stream.store(k as u64, SeqCst);
                            slots[n].index.store(i, SeqCst);
                            let r = catch_unwind(AssertUnwindSafe(|| (st.f)(&mut ctx, i)));
                            slots[n].index.store(u64::MAX, SeqCst);
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(f)) => {
                                    if known.iter().any(|k| *k == f.input) { ctx.count("known finding met", 1); continue }
                                    let mut v = fails.lock().unwrap();
                                    v.push((k, i, f));
                                    stop.store(true, SeqCst);
                                    break 'streams;
                                }
                                Err(_) => {
                                    let m = PANIC.with(|p| p.take()).unwrap_or_default();
                                    *broken.lock().unwrap() = Some(format!("harness panicked in stream {} case {}: {}", st.name, i, m));
                                    stop.store(true, SeqCst);
                                    break 'streams;
                                }
                            }
                        }
                        if o.only.is_some() { break 'streams }
                        used[k].fetch_add(began.elapsed().as_nanos() as u64, SeqCst);
                        ran[k].fetch_add(to - from, SeqCst);
                    }
                }
                if let Some(f) = &file { let _ = f.write_at(b"done                          \n", 0); }
                let mut t = total.lock().unwrap();
                t.evals += ctx.evals;
                t.distinct.extend(ctx.distinct.drain());
                for (k, v) in ctx.counters { *t.counters.entry(k).or_insert(0) += v }
                t.samples.extend(ctx.samples);
            });
            handles.push(h.expect("thread"));
        }
        // a case which makes no progress is stopped by its own processor time, not by the clock
        let (slots, done, current) = (&slots, &done, &current);
        s.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for (sl, text) in slots.iter().zip(current) {
                    let (k, i) = (sl.stream.load(SeqCst), sl.index.load(SeqCst));
                    if i == u64::MAX { continue }
                    let start = sl.start_cpu.load(SeqCst);
                    let now = thread_cpu_ns(sl.tid.load(SeqCst)).unwrap_or(0);
                    if sl.index.load(SeqCst) == i && sl.stream.load(SeqCst) == k && start == sl.start_cpu.load(SeqCst) && now > start + CPU_LIMIT {
                        println!("case (stream {}, {}) used {} s of processor time without finishing", check.streams[k as usize].name, i, (now - start) / 1_000_000_000);
                        let mut input = text.lock().unwrap().clone();
                        if input.is_empty() { input = format!("stream {} index {}", k, i) }
                        emit(o, check, k as usize, i, &input, "no result within the processor time limit");
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in handles { let _ = h.join(); }
        done.store(true, SeqCst);
    });
    let fails = fails.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    let mut t = total.into_inner().unwrap();
    t.samples.truncate(6);
    let mut code = 0;
    if let Some((k, i, f)) = fails.first() {
        report(o, check, *k, *i, f);
        code = 1;
    } else if let Some(b) = &broken {
        eprintln!("{}", b);
        code = 2;
    } else if o.only.is_none() {
        if t.evals == 0 || t.distinct.is_empty() { eprintln!("nothing observed"); code = 2 }
        for r in check.require {
            if t.counters.get(*r).copied().unwrap_or(0) > 0 { continue }
            if capped.load(SeqCst) { eprintln!("not observed within the time: {}", r) } else { eprintln!("never observed: {}", r); code = 2 }
        }
    }
    if o.only.is_none() {
        evidence(o, check, &t, &ran, t0.elapsed(), fails.len(), capped.load(SeqCst), known.len());
        println!("{}: {} cases, {} distinct non-trivial, {:.1} s{}", check.id, t.evals, t.distinct.len(), t0.elapsed().as_secs_f64(),
            if capped.load(SeqCst) { " (time cap reached)" } else { "" });
        if std::env::var_os("MONITOR_VERBOSE").is_some() { for (k, v) in &t.counters { println!("  {:>10} {}", v, k) } }
    }
    code
}
fn new_ctx(o: &Opts) -> Ctx {
    Ctx { seed: o.seed, thorough: o.thorough, evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), samples: vec![], sample_every: 97, current: Arc::new(Mutex::new(String::new())), note: None }
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(clippy::too_many_arguments)]
fn evidence(o: &Opts, check: &Check, t: &Ctx, ran: &[AtomicU64], wall: Duration, viol: usize, capped: bool, known: usize) {
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let counters: Vec<String> = t.counters.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let samples: Vec<String> = t.samples.iter().map(|s| json(s)).collect();
    let streams: Vec<String> = check.streams.iter().zip(ran).map(|(s, r)| format!("{{\"name\": {}, \"cases\": {}, \"ran\": {}, \"exhaustive\": {}}}", json(s.name), s.n, r.load(SeqCst), s.exhaustive)).collect();
    let level = if check.id == "C16" { "fault_enumeration" } else { "exploration" };
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{{}}},\n  \"streams\": [{}],\n  \"time_cap_reached\": {},\n  \"known_findings\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"reference model and generator of /verif/harness/refmodel\", \"held on the executions observed, not proved\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        check.id, if o.thorough { "thorough" } else { "quick" }, o.seed, level, t.evals, t.distinct.len(), json(check.rule), counters.join(", "),
        streams.join(", "), capped, known, samples.join(", "), wall.as_secs_f64(), viol
    );
    let _ = std::fs::write(dir.join(format!("{}.json", check.id)), s);
}

/// Runs the worker in a child process, so that its death can be attributed to a case.
pub fn supervise(o: &Opts, check: &Check) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let scratch = o.root.join("target").join(format!("run-{}-{}", check.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let spawn = |only: Option<(usize, u64)>| {
        let mut c = std::process::Command::new(&exe);
        c.arg(check.id).arg("--worker").arg(&scratch);
        if let Some((a, b)) = only { c.arg("--only").arg(a.to_string()).arg(b.to_string()); }
        c.status()
    };
    let st = spawn(o.only);
    let mut code = 2;
    match st {
        Ok(st) => match st.code() {
            Some(c) => code = c,
            None => {
                eprintln!("worker died of signal {:?}", st.signal());
                let mut cand = vec![];
                for n in 0..64 {
                    if let Ok(s) = std::fs::read_to_string(scratch.join(format!("slot{}", n))) {
                        let v: Vec<u64> = s.lines().next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
                        if v.len() == 2 { cand.push((v[0] as usize, v[1])) }
                    }
                }
                for (k, i) in cand {
                    if let Ok(s) = spawn(Some((k, i))) {
                        if s.code().is_none() {
                            let input = std::fs::read_to_string(scratch.join("current")).unwrap_or_else(|_| format!("stream {} index {}", k, i));
                            emit(o, check, k, i, &input, &format!("the process died of signal {:?} on this case, twice", s.signal()));
                            code = 1;
                            break;
                        } else if s.code() == Some(1) {
                            code = 1;
                            break;
                        }
                    }
                }
                if code != 1 { eprintln!("inconclusive: no single case reproduces it") }
            }
        },
        Err(e) => eprintln!("cannot start the worker: {}", e),
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
