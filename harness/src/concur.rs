//! Runs at the same time (C23): two programs, and a scheduler that lets one of them go on at a
//! time, until its next access to the file system; all schedules with a bounded number of
//! preemptions

use crate::cli::*;
use crate::core::*;
use crate::fault::JOBS;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::Duration;

/// where the reports of the two runs go
struct Place {
    a: &'static str,
    b: &'static str,
    /// the runs have projects of their own
    apart: bool,
}

const fn place(a: &'static str, b: &'static str) -> Place {
    Place { a, b, apart: false }
}

const PLACES: [Place; 14] = [
    place("a.out", "b.out"),
    place("new/a.out", "new/b.out"),
    place("new/x/a.out", "new/x/b.out"),
    place("new/a.out", "new/x/b.out"),
    place("new/x/y/a.out", "new/z/b.out"),
    place("r.json", "r.out"),
    place("r", "r.out"),
    place("one/r.out", "two/r.out"),
    place("-", "-"),
    place("-", "new/b.out"),
    place("old/a.out", "old/b.out"),
    Place { a: "r.out", b: "r.out", apart: true },
    Place { a: "new/r.out", b: "new/r.out", apart: true },
    place("new/r.out", "new/r.out"),
];

/// jobs of the two runs: indexes into JOBS
const PAIRS: [(&[usize], &[usize]); 7] = [(&[2], &[2]), (&[0], &[0]), (&[2], &[5]), (&[4], &[2]), (&[2, 5], &[2]), (&[5, 2], &[2, 5]), (&[1], &[3])];

#[derive(Clone, Debug, Hash)]
struct Case {
    place: usize,
    pair: usize,
    /// the run that goes first, and after how many accesses of the current run the other one goes on
    first: usize,
    switches: Vec<usize>,
    /// the reports are there already
    again: bool,
}

struct Run {
    child: Child,
    gate: UnixStream,
    /// waits before an access
    waits: bool,
    ended: bool,
    steps: usize,
}

impl Run {
    fn start(wk: &mut Wk<'_>, root: &Path, cwd: &Path, args: &[String]) -> Run {
        wk.runs += 1;
        let (gate, theirs) = UnixStream::pair().unwrap_or_else(|e| crate::exec::engine_error(&format!("socket: {e}")));
        gate.set_read_timeout(Some(Duration::from_secs(90))).unwrap();
        let child = Command::new(&wk.ctx.exe)
            .args(args)
            .current_dir(cwd)
            .env_clear()
            .env("LD_PRELOAD", &wk.ctx.shim)
            .env("SHIM_ROOT", root)
            .env("SHIM_GATE", "1")
            .env("REQTRACE_LOG", "off")
            .env("HOME", root.join("home"))
            .env("TMPDIR", root.join("tmp"))
            .stdin(Stdio::from(OwnedFd::from(theirs)))
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| crate::exec::engine_error(&format!("cannot run the program: {e}")));
        let mut r = Run {
            child,
            gate,
            waits: false,
            ended: false,
            steps: 0,
        };
        r.wait();
        r
    }

    /// until the next access or the end
    fn wait(&mut self) {
        let mut b = [0];
        loop {
            match self.gate.read(&mut b) {
                Ok(1) => {
                    self.waits = true;
                    return;
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                // the end, or it hangs
                _ => {
                    self.ended = true;
                    self.waits = false;
                    return;
                }
            }
        }
    }

    /// one access, and on to the next one
    fn step(&mut self) {
        self.waits = false;
        self.steps += 1;
        if self.gate.write_all(b"g").is_err() {
            self.ended = true;
            return;
        }
        self.wait();
    }

    fn finish(self) -> CliOut {
        let Run { child, gate, .. } = self;
        drop(gate);
        let o = child
            .wait_with_output()
            .unwrap_or_else(|e| crate::exec::engine_error(&format!("wait: {e}")));
        use std::os::unix::process::ExitStatusExt;
        CliOut {
            code: o.status.code().unwrap_or_else(|| -o.status.signal().unwrap_or(99)),
            stdout: o.stdout,
            stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
            ops: vec![],
        }
    }
}

type Files = BTreeMap<String, Option<Vec<u8>>>;

fn snapshot(root: &Path) -> Files {
    fn walk(p: &Path, rel: &str, out: &mut Files) {
        for e in fs::read_dir(p).into_iter().flatten().flatten() {
            let n = format!("{rel}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                out.insert(n.clone(), None);
                walk(&e.path(), &format!("{n}/"), out);
            } else {
                out.insert(n, fs::read(e.path()).ok());
            }
        }
    }
    let mut f = Files::new();
    walk(root, "", &mut f);
    f
}

/// the directories of the two projects
fn prepare(wk: &Wk<'_>, place: &Place, pair: (&[usize], &[usize])) -> (PathBuf, [PathBuf; 2], [Vec<String>; 2]) {
    let root = fresh(wk, "two", &[]);
    for d in ["tmp", "home"] {
        fs::create_dir_all(root.join(d)).unwrap();
    }
    let dirs = [root.join("p"), root.join(if place.apart { "q" } else { "p" })];
    let mut args = [vec![], vec![]];
    let mut jobs = serde_json::Map::new();
    for (r, (ks, file)) in [(pair.0, place.a), (pair.1, place.b)].into_iter().enumerate() {
        for (i, k) in ks.iter().enumerate() {
            let (_, q, f) = JOBS[*k];
            // the same job in both runs is one job of the project
            let name = if place.a == place.b && pair.0 == pair.1 { format!("job{i}") } else { format!("job{r}{i}") };
            let file = if i == 0 || file == "-" { file.to_owned() } else { format!("{file}.{i}") };
            jobs.insert(name.clone(), job(q, f, &file));
            args[r].push(name);
        }
    }
    for (r, d) in dirs.iter().enumerate() {
        if r == 1 && !place.apart {
            continue;
        }
        let lo = if r == 0 { "# LO_1: Lo\nCovers: UP_1, XX\n" } else { "# LO_9: Other\nCovers: UP_1, YY\n" };
        put(d, &[("up.md".into(), b"# UP_1: One\n# UP_2: Two\n".to_vec()), ("lo.md".into(), lo.into()), ("old/o.out".into(), b"x".to_vec())]);
        let (_, mut config) = crate::fault::tiny_project(false);
        config["jobs"] = Value::Object(jobs.clone());
        config["default_jobs"] = json!([]);
        fs::write(d.join("requirements.toml"), toml(&config)).unwrap();
    }
    (root, dirs, args)
}

/// what one run after the other leaves behind
struct Alone {
    codes: [i32; 2],
    stdout: [Vec<u8>; 2],
    files: Files,
    steps: [usize; 2],
}

/// standard output and files without the name of the scratch directory
fn alone(wk: &mut Wk<'_>, pl: usize, pair: usize) -> Alone {
    let (root, dirs, args) = prepare(wk, &PLACES[pl], PAIRS[pair]);
    let mut codes = [0; 2];
    let mut stdout = [vec![], vec![]];
    let mut steps = [0; 2];
    for r in 0..2 {
        let mut x = Run::start(wk, &root, &dirs[r], &args[r]);
        while !x.ended {
            x.step();
        }
        steps[r] = x.steps;
        let o = x.finish();
        codes[r] = o.code;
        stdout[r] = o.stdout;
    }
    Alone {
        codes,
        stdout,
        files: snapshot(&root),
        steps,
    }
}

fn check(wk: &mut Wk<'_>, want: &Alone, c: &Case) -> Result<u64, String> {
    let (root, dirs, args) = prepare(wk, &PLACES[c.place], PAIRS[c.pair]);
    if c.again {
        for (n, f) in &want.files {
            if !root.join(n).exists() {
                match f {
                    None => fs::create_dir_all(root.join(n)).unwrap(),
                    Some(_) => put(&root, &[(n.clone(), b"what was here before\n".repeat(50))]),
                }
            }
        }
    }
    let mut runs: Vec<Run> = (0..2).map(|r| Run::start(wk, &root, &dirs[r], &args[r])).collect();
    let mut now = c.first;
    let mut switches = c.switches.iter();
    let mut left = switches.next().copied();
    while !(runs[0].ended && runs[1].ended) {
        if runs[now].ended {
            now = 1 - now;
            left = None;
            continue;
        }
        if left == Some(0) {
            left = switches.next().copied();
            if !runs[1 - now].ended {
                now = 1 - now;
            }
            continue;
        }
        runs[now].step();
        left = left.map(|n| n - 1);
    }
    wk.count("schedule_steps", (runs[0].steps + runs[1].steps) as u64);
    for (r, x) in runs.into_iter().enumerate() {
        let o = x.finish();
        if o.code != want.codes[r] {
            return Err(format!("run {r} ends with {} instead of {}: {}", o.code, want.codes[r], o.stderr));
        }
        if o.stdout != want.stdout[r] {
            return Err(format!(
                "standard output of run {r}:\n expected {:?}\n actual   {:?}",
                String::from_utf8_lossy(&want.stdout[r]),
                String::from_utf8_lossy(&o.stdout)
            ));
        }
    }
    let got = snapshot(&root);
    for (n, w) in &want.files {
        if got.get(n) != Some(w) {
            let show = |f: Option<&Option<Vec<u8>>>| match f {
                None => "nothing".to_owned(),
                Some(None) => "a directory".into(),
                Some(Some(b)) => format!("{:?}", String::from_utf8_lossy(b)),
            };
            return Err(format!("{n}:\n expected {}\n actual   {}", show(Some(w)), show(got.get(n))));
        }
    }
    if let Some(n) = got.keys().find(|n| !want.files.contains_key(*n)) {
        return Err(format!("{n} was left behind"));
    }
    Ok(h(&(c.place, c.pair)))
}

pub fn run_all(ctx: &Ctx) {
    let dir = ctx.scratch.join("refs");
    fs::create_dir_all(&dir).unwrap();
    let mut wk = Wk {
        ctx,
        tid: 0,
        dir,
        runs: 0,
        extra: BTreeMap::new(),
    };
    let mut refs: Vec<Vec<Alone>> = vec![];
    for p in 0..PLACES.len() {
        refs.push((0..PAIRS.len()).map(|k| alone(&mut wk, p, k)).collect());
    }
    // both runs write the same file: only the same job may
    let fits = |place: usize, pair: usize| {
        let p = &PLACES[place];
        p.a == "-" || p.a != p.b || p.apart || PAIRS[pair].0 == PAIRS[pair].1
    };
    ctx.explore(
        "alone",
        1,
        |c| {
            let (p, k) = (c.n(PLACES.len()), c.n(PAIRS.len()));
            fits(p, k).then_some((p, k))
        },
        |_, cs| {
            cs.iter()
                .map(|(p, k)| {
                    let a = &refs[*p][*k];
                    verdict(if a.codes.iter().all(|x| (0..2).contains(x)) && a.steps.iter().all(|s| *s > 2) {
                        Ok(h(&(p, k)))
                    } else {
                        Err(format!("the runs alone end with {:?}, after {:?} accesses", a.codes, a.steps))
                    })
                })
                .collect()
        },
    );
    let gen = |c: &mut Ch, preemptions: usize| {
        let (place, pair) = (c.n(PLACES.len()), c.n(PAIRS.len()));
        if !fits(place, pair) {
            return None;
        }
        let again = (preemptions < 2 || pair < 2 || ctx.thorough()) && c.bool();
        let first = c.n(2);
        let a = &refs[place][pair];
        // the first run stops before any of its accesses, the other one then, and so on
        let mut switches = vec![];
        let mut done = [0; 2];
        let mut now = first;
        for _ in 0..preemptions {
            let most = a.steps[now].saturating_sub(done[now]);
            if most == 0 {
                return None;
            }
            let n = c.n(most);
            if n == 0 && !switches.is_empty() {
                return None;
            }
            switches.push(n);
            done[now] += n;
            now = 1 - now;
        }
        Some(Case {
            place,
            pair,
            first,
            switches,
            again,
        })
    };
    let go = |fam: &str, n: usize| {
        ctx.explore(fam, 1, |c| gen(c, n), |wk, cs| cs.iter().map(|c| verdict(check(wk, &refs[c.place][c.pair], c))).collect());
    };
    go("preempt1", 1);
    go("preempt2", 2);
    if ctx.thorough() {
        go("preempt3", 3);
    }
}
