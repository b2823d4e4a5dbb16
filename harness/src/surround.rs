//! What surrounds a run and must not matter to its reports (C19): the environment, the time of day,
//! random numbers, the order in which directories are listed, dates and modes of files, other files

use crate::cli::*;
use crate::core::*;
use crate::fault::{project, tiny_project, Files, JOBS};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, Hash, PartialEq)]
enum Around {
    Variable(String, String),
    /// seconds
    Clock(i64),
    /// random numbers, order of directories
    Chance(u32, u32),
    /// dates of files
    Dates(usize),
    /// order in which the files are made
    Made(usize),
    /// modes of files
    Mode(u32),
    /// another file, and what is in it
    Other(usize, usize),
    /// other arguments
    Args(usize),
    /// another file with a name that occurs in the sources, and what is in it
    Named(String, usize),
}

const VARIABLES: [&str; 34] = [
    "HOME", "LANG", "LC_ALL", "LC_CTYPE", "TZ", "TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "COLUMNS", "CI", "DEBUG", "VERBOSE", "TMPDIR",
    "PWD", "OLDPWD", "USER", "LOGNAME", "HOSTNAME", "SOURCE_DATE_EPOCH", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "RUST_LOG", "RUST_LOG_STYLE",
    "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "REQTRACE", "REQTRACE_CONFIG", "REQTRACE_BASE", "REQTRACE_JOBS", "REQTRACE_LOG_STYLE",
    "PATH", "MALLOC_ARENA_MAX",
];
const VALUES: [&str; 10] = ["", "0", "1", "true", "never", "C", "tr_TR.ISO-8859-9", "/nonexistent", "..", "trace"];
const CLOCKS: [i64; 6] = [-1_600_000_000, -86_400, 1, 86_400, 40_000_000, 3_000_000_000];
const OTHERS: [&str; 26] = [
    ".gitignore", ".ignore", "src/.gitignore", "src/sub/.gitignore", ".env", ".reqtrace", ".reqtrace.toml", "reqtrace.toml", "requirements.toml",
    ".reqtraceignore", "Cargo.toml", "Cargo.lock", "in.md~", "in.md.bak", "in.md.orig", "Mono.md", "Mono.txt.in", "src/mod.toml", "x.json.lock", "y.json",
    "r.toml.lock", "out/old.out", "target/x.rs", "a.rs", "src/a.rs.bk", "tags",
];
const CONTENTS: [&str; 8] = ["", "*\n", "src\nin.md\nsrc/sub/b.rs\n", "# NEW_1: New\nCovers: MD_1\n", "artefacts = []\nrelations = []\n", "[]\n", "{}\n", "0\n"];

/// 0: a project with everything in it; others: with at most one problem
const SCENES: usize = 7;

fn scene(k: usize) -> (Files, Value) {
    let mut jobs = serde_json::Map::new();
    for (n, q, f) in JOBS {
        jobs.insert(n.into(), job(q, f, &format!("out/{n}.out")));
    }
    if k > 0 {
        let (mut files, mut config) = tiny_project(true);
        let lo: &[u8] = match k {
            1 => b"# LO_1: Lo\nCovers: UP_1, UP_2\n",
            // not covered, derived, unknown, title, syntax, twice
            2 => b"# LO_1: Lo\nCovers: UP_1\n",
            3 => b"# LO_1: Lo\nCovers: UP_1, UP_2\n# LO_2: Two\n",
            4 => b"# LO_1: Lo\nCovers: UP_1, UP_2, XX_1\n",
            5 => b"# LO_1: Lo\nCovers:\n* UP_1: Other\n* UP_2: Two\n",
            _ => b"# LO_1: Lo\nCovers: UP_1, UP_2\n# LO_1: Lo\n",
        };
        files[1].1 = lo.to_vec();
        config["jobs"] = Value::Object(jobs);
        return (files, config);
    }
    let (mut files, mut config) = project(0);
    files.push(("bad.md".into(), b"# MD_1: First\nCovers: Mono: x, Q\nwrong\n# BB_2: T\nCovers: QQ_1\n* QQ_2: t\nNote: a\nZeta: b\nAlpha: c\nNote: d\n".to_vec()));
    for i in 0..6 {
        files.push((format!("src/n{i}.rs"), format!("fn n{i}() {{ requirement_covered!(NO_{i}); requirement_covered!(); }} fn rs_a() {{ requirement_covered!(MD_{i}); }}").into_bytes()));
    }
    config["artefacts"].as_array_mut().unwrap().push(json!({"id": "bad", "paths": ["bad.md"], "parser": "Markdown"}));
    config["jobs"] = Value::Object(jobs);
    (files, config)
}

fn names() -> Vec<&'static str> {
    JOBS.iter().map(|j| j.0).collect()
}

type Seen = (i32, Vec<Option<Vec<u8>>>);

fn reports(dir: &Path, o: &CliOut) -> Seen {
    (o.code, names().iter().map(|n| fs::read(dir.join(format!("out/{n}.out"))).ok()).collect())
}

fn check(wk: &mut Wk<'_>, k: usize, want: &Seen, a: &Around) -> Result<u64, String> {
    let (mut files, config) = scene(k);
    files.push(("r.toml".into(), toml(&config).into_bytes()));
    match a {
        Around::Made(0) => {}
        Around::Made(1) => files.reverse(),
        Around::Made(2) => files.sort(),
        Around::Made(_) => {
            files.sort();
            files.reverse();
        }
        _ => {}
    }
    let dir = fresh(wk, "around", &files);
    let mut env: Vec<(&str, String)> = vec![];
    let mut args = vec!["-c", "r.toml", "-b", "."];
    match a {
        Around::Variable(n, v) => env.push((n, v.clone())),
        Around::Clock(o) => env.push(("SHIM_CLOCK", o.to_string())),
        Around::Chance(s, d) => {
            env.push(("SHIM_SEED", s.to_string()));
            env.push(("SHIM_DIRS", d.to_string()));
        }
        Around::Dates(k) => {
            let n = files.len() as u64;
            for (i, (f, _)) in files.iter().enumerate() {
                let i = i as u64;
                let t = match k {
                    0 => 0,
                    1 => 1_000_000_000,
                    2 => 1_000_000_000 + i * 100,
                    3 => 1_000_000_000 + (n - i) * 100,
                    4 => 1_000_000_000 + i * 7919 % n * 100,
                    _ => 4_000_000_000 + i,
                };
                let t = SystemTime::UNIX_EPOCH + Duration::from_secs(t);
                let f = fs::File::options().write(true).open(dir.join(f)).unwrap();
                f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t)).unwrap();
            }
        }
        Around::Mode(m) => {
            for (f, _) in &files {
                fs::set_permissions(dir.join(f), fs::Permissions::from_mode(*m)).unwrap();
            }
        }
        Around::Other(i, c) => put(&dir, &[(OTHERS[*i].to_owned(), CONTENTS[*c].as_bytes().to_vec())]),
        Around::Named(n, c) => {
            if !dir.join(n).exists() {
                put(&dir, &[(n.clone(), CONTENTS[*c].as_bytes().to_vec())]);
            }
        }
        Around::Args(k) => {
            args = [vec!["-b", ".", "-c", "r.toml"], vec!["--base", ".", "--config", "./r.toml"], vec!["--base=.", "--config=r.toml"], vec!["-b.", "-cr.toml"]][*k].clone();
        }
        Around::Made(_) => {}
    }
    args.extend(names());
    let env: Vec<(&str, &str)> = env.iter().map(|(n, v)| (*n, v.as_str())).collect();
    let o = cli(wk, &dir, &args, &Opt { env: &env, ..Opt::default() });
    let got = reports(&dir, &o);
    if got.0 != want.0 {
        return Err(format!("exit code {} instead of {}: {}", got.0, want.0, o.stderr));
    }
    for ((n, w), g) in names().iter().zip(&want.1).zip(&got.1) {
        if w != g {
            let show = |x: &Option<Vec<u8>>| String::from_utf8_lossy(x.as_deref().unwrap_or(b"(none)")).into_owned();
            return Err(format!("the report of {n} is different:\n expected {}\n actual   {}", show(w), show(g)));
        }
    }
    // the inputs are as they were
    for (n, b) in &files {
        if fs::read(dir.join(n)).ok().as_ref() != Some(b) {
            return Err(format!("the input {n} changed"));
        }
    }
    Ok(h(a))
}

pub fn explore(ctx: &Ctx) {
    let dir = ctx.scratch.join("around_ref");
    fs::create_dir_all(&dir).unwrap();
    let mut wk = Wk {
        ctx,
        tid: 0,
        dir,
        runs: 0,
        extra: std::collections::BTreeMap::new(),
    };
    // what is asked for, and the reports without anything special
    let (mut files, config) = scene(0);
    files.push(("r.toml".into(), toml(&config).into_bytes()));
    let d = fresh(&wk, "around", &files);
    let mut args = vec!["-c", "r.toml", "-b", "."];
    args.extend(names());
    let o = cli(&mut wk, &d, &args, &Opt { log: true, env: &[("SHIM_NAMES", "1")], ..Opt::default() });
    let want = reports(&d, &o);
    let mut vars: BTreeSet<String> = o.ops.iter().filter(|op| op.class == 'v').map(|op| op.name.clone()).collect();
    vars.extend(VARIABLES.iter().map(|v| (*v).to_owned()));
    // (not those of the loader, and not the one that turns the check's own logging off)
    vars.retain(|v| !v.starts_with("LD_") && v != "REQTRACE_LOG");
    let words: Vec<&String> = crate::words::dict().words.iter().filter(|w| !w.contains('/') && !w.contains(char::is_whitespace) && *w != "." && *w != "..").collect();
    let upper = |w: &str| w.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') && w.len() > 2;
    vars.extend(words.iter().filter(|w| upper(w) && !w.starts_with("LD_") && !w.starts_with("SHIM_") && **w != "REQTRACE_LOG").map(|w| (*w).clone()));
    let vars: Vec<String> = vars.into_iter().collect();
    let contents: &[usize] = if ctx.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 2, 5] };
    // files that the program looked for
    let asked: BTreeSet<String> = o.ops.iter().filter(|op| op.class == 'o' && !d.join(&op.name).exists()).map(|op| op.name.clone()).collect();
    let asked: Vec<String> = asked.into_iter().collect();
    if want.0 != 1 || want.1.iter().any(Option::is_none) {
        ctx.explore("surroundings", 1, |c| (c.n(1) == 0).then_some(()), |_, c| {
            c.iter().map(|()| Verdict::Bad(format!("exit code {}: {}", o.code, o.stderr))).collect()
        });
        return;
    }
    ctx.explore(
        "surroundings",
        1,
        |c| {
            Some(match c.n(10) {
                0 => {
                    let v = c.n(vars.len());
                    Around::Variable(vars[v].clone(), (*c.of(&VALUES)).to_owned())
                }
                1 => Around::Clock(*c.of(&CLOCKS)),
                2 => {
                    let s = c.n(ctx.q(8, 64)) as u32;
                    let d = c.n(10) as u32;
                    Around::Chance(s, if d < 5 { d } else { d + 3 })
                }
                3 => Around::Dates(c.n(6)),
                4 => Around::Made(c.n(4)),
                5 => Around::Mode(*c.of(&[0o400, 0o444, 0o600, 0o755, 0o777])),
                6 => {
                    let i = c.n(OTHERS.len());
                    Around::Other(i, c.n(CONTENTS.len()))
                }
                7 => Around::Args(c.n(4)),
                8 => {
                    if asked.is_empty() {
                        return None;
                    }
                    Around::Named(c.of(&asked).clone(), c.n(CONTENTS.len()))
                }
                _ => {
                    let w = *c.of(&words);
                    let form = c.n(2);
                    Around::Named(if form == 0 { w.clone() } else { format!(".{w}") }, *c.of(contents))
                }
            })
        },
        |wk, cs| cs.iter().map(|a| verdict(check(wk, 0, &want, a))).collect(),
    );
    // with one problem only, or none: the result code cannot hide behind another problem
    let wants: Vec<Seen> = (1..SCENES)
        .map(|k| {
            let (mut files, config) = scene(k);
            files.push(("r.toml".into(), toml(&config).into_bytes()));
            let d = fresh(&wk, "around", &files);
            let o = cli(&mut wk, &d, &args, &Opt::default());
            reports(&d, &o)
        })
        .collect();
    ctx.explore(
        "surroundings_one_problem",
        1,
        |c| {
            let k = 1 + c.n(SCENES - 1);
            Some((
                k,
                match c.n(7) {
                    0 => {
                        let v = c.n(vars.len());
                        Around::Variable(vars[v].clone(), (*c.of(&VALUES)).to_owned())
                    }
                    1 => Around::Clock(*c.of(&CLOCKS)),
                    2 => Around::Dates(c.n(6)),
                    3 => Around::Made(c.n(4)),
                    4 => Around::Mode(*c.of(&[0o400, 0o444, 0o600, 0o755, 0o777])),
                    5 => Around::Other(c.n(OTHERS.len()), 3),
                    _ => Around::Args(c.n(4)),
                },
            ))
        },
        |wk, cs| {
            cs.iter()
                .map(|(k, a)| {
                    let want = &wants[k - 1];
                    if want.0 != i32::from(*k > 1) {
                        return Verdict::Bad(format!("exit code {} of project {k}", want.0));
                    }
                    verdict(check(wk, *k, want, a))
                })
                .collect()
        },
    );
}
