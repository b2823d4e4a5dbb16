//! The explorer: exhaustive depth first enumeration of choice sequences, executed by a pool of
//! workers against the real code, in a child process that is watched for crashes and hangs.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::sync_channel;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

/// A source of choices. Replays a prefix, then always takes choice 0.
pub struct Ch {
    pub seq: Vec<(u32, u32)>, // (chosen, of)
    pos: usize,
}

impl Ch {
    pub fn new() -> Self {
        Ch {
            seq: Vec::new(),
            pos: 0,
        }
    }
    pub fn replay(choices: &[u32]) -> Self {
        Ch {
            seq: choices.iter().map(|c| (*c, u32::MAX)).collect(),
            pos: 0,
        }
    }
    /// choose one of n (n > 0)
    pub fn n(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let n = n as u32;
        if self.pos < self.seq.len() {
            let (c, of) = &mut self.seq[self.pos];
            if *of == u32::MAX {
                *of = n;
            }
            assert!(
                *of == n && *c < n,
                "divergence while replaying choices: {} of {} vs {}",
                c,
                of,
                n
            );
        } else {
            self.seq.push((0, n));
        }
        self.pos += 1;
        self.seq[self.pos - 1].0 as usize
    }
    pub fn bool(&mut self) -> bool {
        self.n(2) == 1
    }
    pub fn of<'a, T>(&mut self, alts: &'a [T]) -> &'a T {
        &alts[self.n(alts.len())]
    }
    /// Choice 0 is free, every other one costs one deviation from the budget.
    pub fn dev(&mut self, budget: &mut usize, n: usize) -> usize {
        if *budget == 0 {
            return 0;
        }
        let c = self.n(n);
        if c != 0 {
            *budget -= 1;
        }
        c
    }
    pub fn devbool(&mut self, budget: &mut usize) -> bool {
        self.dev(budget, 2) == 1
    }
    /// advance to the next sequence in depth first order
    fn next(&mut self) -> bool {
        self.seq.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.seq.last_mut() {
            if *c + 1 < *n {
                *c += 1;
                return true;
            }
            self.seq.pop();
        }
        false
    }
    fn choices(&self) -> Vec<u32> {
        self.seq[..self.pos].iter().map(|x| x.0).collect()
    }
}

pub enum Verdict {
    /// property held; hash of the observed outcome
    Held(u64),
    /// property broken in a way that is listed as known
    Known(String),
    Bad(String),
}

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Counters for the evidence
#[derive(Default)]
pub struct Cov {
    pub cases: u64,
    pub edges: u64,
    pub runs: u64,
    pub distinct: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub families: BTreeMap<String, Value>,
    pub capped: bool,
    pub known: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Duration,
    pub scratch: PathBuf,
    pub cov: Mutex<Cov>,
    pub violation: Mutex<Option<(String, Vec<u32>, String)>>,
    pub threads: usize,
    /// Some(family, choices): run only that case
    pub only: Option<(String, Vec<u32>)>,
    pub only_found: AtomicBool,
    /// path of the reqtrace executable and of the fault injection library
    pub exe: PathBuf,
    pub shim: PathBuf,
}

pub struct Wk<'a> {
    pub ctx: &'a Ctx,
    pub tid: usize,
    pub dir: PathBuf,
    pub runs: u64,
    pub extra: BTreeMap<String, u64>,
}

impl Wk<'_> {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_owned()).or_default() += n;
    }
}

thread_local! {
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        } else {
            def(info);
        }
    }));
}

/// Run code under test, turning a panic into an error
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = before);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Judge cases. Results that the judge does not understand at all (it panics) are not as they
/// should be, unless it is the machine that fails.
fn judge<T>(wk: &mut Wk<'_>, ts: &[T], check: &impl Fn(&mut Wk<'_>, &[T]) -> Vec<Verdict>) -> Vec<Verdict> {
    if let Ok(v) = guarded(|| check(wk, ts)) {
        return v;
    }
    ts.iter()
        .map(|t| match guarded(|| check(wk, std::slice::from_ref(t))) {
            Ok(mut v) => v.pop().expect("a verdict"),
            Err(p) if p.contains("Os {") || p.contains("alloc") => crate::exec::engine_error(&p),
            Err(p) => Verdict::Bad(format!("the results make no sense ({p})")),
        })
        .collect()
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn violated(&self) -> bool {
        self.violation.lock().unwrap().is_some()
    }
    pub fn count(&self, k: &str, n: u64) {
        *self
            .cov
            .lock()
            .unwrap()
            .extra
            .entry(k.to_owned())
            .or_default() += n;
    }

    /// Explore every choice sequence of `gen`. `batch` cases are handed to `check` at a time; it
    /// returns one verdict per case.
    pub fn explore<T: Send + std::fmt::Debug + Hash>(
        &self,
        family: &str,
        batch: usize,
        gen: impl Fn(&mut Ch) -> Option<T> + Sync,
        check: impl Fn(&mut Wk<'_>, &[T]) -> Vec<Verdict> + Sync,
    ) {
        if self.violated() {
            return;
        }
        if let Some((fam, choices)) = &self.only {
            if fam != family {
                return;
            }
            self.only_found.store(true, SeqCst);
            let mut ch = Ch::replay(choices);
            let case = gen(&mut ch).expect("case is generated");
            let dir = self.scratch.join("replay");
            fs::create_dir_all(&dir).unwrap();
            let mut wk = Wk {
                ctx: self,
                tid: 0,
                dir,
                runs: 0,
                extra: BTreeMap::new(),
            };
            println!("case: {case:#?}");
            match judge(&mut wk, std::slice::from_ref(&case), &check).pop().unwrap() {
                Verdict::Held(_) => println!("property held"),
                Verdict::Known(k) => println!("known finding: {k}"),
                Verdict::Bad(e) => {
                    *self.violation.lock().unwrap() = Some((family.into(), choices.clone(), e))
                }
            }
            return;
        }

        let t0 = Instant::now();
        let best: Mutex<Option<(u64, Vec<u32>, String)>> = Mutex::new(None);
        let best_at = AtomicU64::new(u64::MAX);
        let capped = AtomicBool::new(false);
        let (tx, rx) = sync_channel::<Vec<(u64, Vec<u32>, T)>>(self.threads * 4);
        let rx = Mutex::new(rx);
        let mut cases = 0_u64;
        let mut edges = 0_u64;
        let outcomes_before;
        let distinct_before;
        {
            let c = self.cov.lock().unwrap();
            outcomes_before = c.outcomes.len();
            distinct_before = c.distinct.len();
        }
        let busy: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(0)).collect();
        let tasks: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(0)).collect();
        let done = AtomicBool::new(false);
        let running = AtomicUsize::new(self.threads);

        std::thread::scope(|s| {
            // watchdog: a case takes long if it has had the time to run, or nothing happens at all
            s.spawn(|| {
                let mut since: Vec<(u64, u64)> = vec![(0, 0); busy.len()];
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = self.start.elapsed().as_millis() as u64;
                    for ((b, task), since) in busy.iter().zip(&tasks).zip(&mut since) {
                        let t = b.load(SeqCst);
                        if t == 0 {
                            continue;
                        }
                        let wall = now.saturating_sub(t);
                        if wall < 1000 {
                            continue;
                        }
                        let task = task.load(SeqCst);
                        if since.0 != t {
                            *since = (t, cpu_ms(task));
                        }
                        if wall > 30_000 && (wall > 150_000 || cpu_ms(task).saturating_sub(since.1) > 25_000) {
                            eprintln!("watchdog: a case takes too long");
                            std::process::exit(97);
                        }
                    }
                }
            });
            for tid in 0..self.threads {
                let rx = &rx;
                let best = &best;
                let best_at = &best_at;
                let check = &check;
                let busy = &busy[tid];
                let task = &tasks[tid];
                let running = &running;
                let done = &done;
                s.spawn(move || {
                    let me = fs::read_link("/proc/thread-self").unwrap_or_default();
                    let me = me.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok());
                    task.store(me.unwrap_or(0), SeqCst);
                    let dir = self.scratch.join(format!("t{tid}"));
                    fs::create_dir_all(&dir).unwrap();
                    let cur = fs::File::create(self.scratch.join(format!("cur.{tid}"))).unwrap();
                    let mut wk = Wk {
                        ctx: self,
                        tid,
                        dir,
                        runs: 0,
                        extra: BTreeMap::new(),
                    };
                    let mut outcomes = HashSet::new();
                    let mut distinct = HashSet::new();
                    let mut known: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        let msg = rx.lock().unwrap().recv();
                        let Ok(mut items) = msg else { break };
                        items.retain(|i| i.0 < best_at.load(SeqCst));
                        if items.is_empty() {
                            continue;
                        }
                        note_current(&cur, family, items.iter().map(|i| &i.1));
                        busy.store(self.start.elapsed().as_millis().max(1) as u64, SeqCst);
                        let mut heads = Vec::new();
                        let mut ts = Vec::new();
                        for (i, c, t) in items {
                            distinct.insert(h(&(family, &t)));
                            heads.push((i, c));
                            ts.push(t);
                        }
                        let verdicts = judge(&mut wk, &ts, check);
                        busy.store(0, SeqCst);
                        assert_eq!(verdicts.len(), ts.len());
                        for ((i, c), v) in heads.into_iter().zip(verdicts) {
                            match v {
                                Verdict::Held(o) => {
                                    outcomes.insert(h(&(family, o)));
                                }
                                Verdict::Known(k) => *known.entry(k).or_default() += 1,
                                Verdict::Bad(e) => {
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |b| i < b.0) {
                                        *b = Some((i, c, e));
                                        best_at.store(i, SeqCst);
                                    }
                                }
                            }
                        }
                    }
                    let mut c = self.cov.lock().unwrap();
                    c.runs += wk.runs;
                    c.outcomes.extend(outcomes);
                    c.distinct.extend(distinct);
                    for (k, n) in known {
                        *c.known.entry(k).or_default() += n;
                    }
                    for (k, n) in wk.extra {
                        *c.extra.entry(k).or_default() += n;
                    }
                    if running.fetch_sub(1, SeqCst) == 1 {
                        done.store(true, SeqCst);
                    }
                });
            }
            // producer
            let mut ch = Ch::new();
            let mut buf = Vec::with_capacity(batch);
            let mut fresh = 0usize; // length of the prefix shared with the previous case
            let mut samples = Vec::new();
            loop {
                let t = gen(&mut ch);
                edges += (ch.pos - fresh.min(ch.pos)) as u64;
                if let Some(t) = t {
                    if cases == 0 || (cases == 17 && samples.len() < 2) {
                        let mut text = format!("{t:?}");
                        if text.len() > 1500 {
                            let mut cut = 1500;
                            while !text.is_char_boundary(cut) {
                                cut -= 1;
                            }
                            text.truncate(cut);
                        }
                        samples.push(json!({"family": family, "choices": ch.choices(), "case": text}));
                    }
                    buf.push((cases, ch.choices(), t));
                    cases += 1;
                    if buf.len() == batch {
                        tx.send(std::mem::take(&mut buf)).unwrap();
                    }
                }
                if !ch.next() || best_at.load(SeqCst) != u64::MAX {
                    break;
                }
                fresh = ch.seq.len() - 1;
                if cases % 256 == 0 && self.start.elapsed() > self.deadline {
                    capped.store(true, SeqCst);
                    break;
                }
            }
            if !buf.is_empty() {
                tx.send(buf).unwrap();
            }
            drop(tx);
            self.cov.lock().unwrap().samples.extend(samples);
        });

        if let Some((_, c, e)) = best.into_inner().unwrap() {
            *self.violation.lock().unwrap() = Some((family.into(), c, e));
        }
        let mut c = self.cov.lock().unwrap();
        c.cases += cases;
        c.edges += edges;
        let was_capped = capped.load(SeqCst);
        c.capped |= was_capped;
        let d = c.distinct.len() - distinct_before;
        let o = c.outcomes.len() - outcomes_before;
        eprintln!(
            "  {family}: {cases} cases, {d} distinct, {o} outcomes, {:.1}s{}",
            t0.elapsed().as_secs_f64(),
            if was_capped { " (CAPPED)" } else { "" }
        );
        c.families.insert(
            family.into(),
            json!({"cases": cases, "distinct_cases": d, "choice_edges": edges, "distinct_outcomes": o,
                   "complete": !was_capped, "wall_s": t0.elapsed().as_secs_f64()}),
        );
    }
}

/// processor time of a thread of this process
fn cpu_ms(task: u64) -> u64 {
    let stat = fs::read_to_string(format!("/proc/self/task/{task}/stat")).unwrap_or_default();
    let fields: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let of = |i: usize| fields.get(i).and_then(|f| f.parse::<u64>().ok()).unwrap_or(0);
    // in ticks, of which there are 100 in a second
    10 * (of(11) + of(12))
}

fn note_current<'a>(f: &fs::File, family: &str, items: impl Iterator<Item = &'a Vec<u32>>) {
    use std::os::unix::fs::FileExt;
    let mut s = String::new();
    s.push_str(family);
    for i in items {
        s.push('|');
        for c in i {
            s.push_str(&c.to_string());
            s.push(',');
        }
    }
    s.push('\n');
    f.write_all_at(s.as_bytes(), 0).unwrap();
}

/// cases that were being executed when the explorer died: (family, choices)
pub fn read_current(scratch: &Path) -> Vec<(String, Vec<u32>)> {
    let mut r = Vec::new();
    for e in fs::read_dir(scratch).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with("cur.") {
            let s = fs::read_to_string(e.path()).unwrap_or_default();
            if let Some(l) = s.lines().next() {
                let mut p = l.split('|');
                let fam = p.next().unwrap_or("").to_owned();
                for c in p {
                    let v: Vec<u32> = c.split(',').filter_map(|x| x.parse().ok()).collect();
                    r.push((fam.clone(), v));
                }
            }
        }
    }
    r
}

