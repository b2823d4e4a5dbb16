//! Where reports go (C22): the program itself, with snapshots of everything around it

use crate::cli::*;
use crate::core::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

/// what is at a path: a directory, a file with its contents, or a symbolic link with its target
#[derive(Clone, Debug, PartialEq, Eq)]
enum Node {
    Dir,
    File(Vec<u8>),
    Link(String),
}

type Tree = BTreeMap<String, Node>;

fn snapshot(root: &Path) -> Tree {
    fn walk(p: &Path, rel: &str, out: &mut Tree) {
        for e in fs::read_dir(p).unwrap().map(Result::unwrap) {
            let n = format!("{rel}{}", e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_symlink() {
                out.insert(n, Node::Link(fs::read_link(e.path()).unwrap().display().to_string()));
            } else if t.is_dir() {
                out.insert(n.clone(), Node::Dir);
                walk(&e.path(), &format!("{n}/"), out);
            } else {
                out.insert(n, Node::File(fs::read(e.path()).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    walk(root, "", &mut t);
    t
}

/// the tree that every run starts with: the program runs in `w`, the inputs are in `w/p`
fn prepare(root: &Path) {
    for d in ["w/p/old", "w/out", "x", "home/.config", "home/.cache", "tmp", "run"] {
        fs::create_dir_all(root.join(d)).unwrap();
    }
    let put = |n: &str, t: &str| fs::write(root.join(n), t).unwrap();
    put("w/p/up.md", "# UP_1: One\n\nText\n\n# UP_2: Two\n");
    put("w/p/lo.md", "# LO_1: Lo\nCovers: UP_1, XX\n# LO_2: Derived\nbad\n# LO_2: Twice\n");
    put("w/p/old/short", "x");
    put("w/p/old/long", &"old contents\n".repeat(500));
    put("w/p/old/empty", "");
    put("w/old", "in the way of nothing");
    put("w/out/other", "another file");
    put("w/-", "a file that is called -");
    put("x/target", "was here before\n");
    std::os::unix::fs::symlink("../../x/target", root.join("w/p/link")).unwrap();
    std::os::unix::fs::symlink("../../x", root.join("w/p/dlink")).unwrap();
}

/// report files as they are configured, and where that is below `w/p`
const TARGETS: [(&str, &str); 42] = [
    ("r.out", "w/p/r.out"),
    ("./r.out", "w/p/r.out"),
    ("new/r.out", "w/p/new/r.out"),
    ("new/a/b/r.out", "w/p/new/a/b/r.out"),
    ("./new/./r.out", "w/p/new/r.out"),
    ("old/short", "w/p/old/short"),
    ("old/long", "w/p/old/long"),
    ("old/empty", "w/p/old/empty"),
    ("old/../r.out", "w/p/r.out"),
    ("../out/r.out", "w/out/r.out"),
    ("../../x/r.out", "x/r.out"),
    ("../r.out", "w/r.out"),
    ("link", "x/target"),
    ("dlink/target", "x/target"),
    ("dlink/new/r.out", "x/new/r.out"),
    ("./-", "w/p/-"),
    ("old/-", "w/p/old/-"),
    ("--", "w/p/--"),
    ("- ", "w/p/- "),
    (" -", "w/p/ -"),
    ("-.out", "w/p/-.out"),
    ("stdout", "w/p/stdout"),
    ("r out.x", "w/p/r out.x"),
    (".hidden", "w/p/.hidden"),
    ("r", "w/p/r"),
    ("*.md", "w/p/*.md"),
    ("\u{fc}/\u{fc}.out", "w/p/\u{fc}/\u{fc}.out"),
    ("~", "w/p/~"),
    ("$HOME/r.out", "w/p/$HOME/r.out"),
    ("~/r.out", "w/p/~/r.out"),
    ("~/a/~", "w/p/~/a/~"),
    ("~x/r.out", "w/p/~x/r.out"),
    ("old/~/r.out", "w/p/old/~/r.out"),
    ("~~/~", "w/p/~~/~"),
    ("C:\\r.out", "w/p/C:\\r.out"),
    ("file:/r.out", "w/p/file:/r.out"),
    ("../../w/p/../out/other2", "w/out/other2"),
    // what is above a link is above what it points to
    ("dlink/../r.out", "r.out"),
    ("dlink/../new/r.out", "new/r.out"),
    ("dlink/../w/r.out", "w/r.out"),
    ("old/../dlink/../x/r.out", "x/r.out"),
    ("dlink/./../x/../r.out", "r.out"),
];

#[derive(Clone, Debug, Hash)]
struct Case {
    /// job (index into JOBS), target (index into TARGETS, then standard output), absolute
    jobs: Vec<(usize, usize, bool)>,
    /// the base directory as given, or none
    base: usize,
    log: bool,
    /// the names of the jobs are given, or they are the default jobs
    default: bool,
    /// run after run
    twice: bool,
    /// a target that is not in the table: below the base
    own: String,
}

impl Case {
    /// as configured and where that is; none for standard output
    fn target(&self, t: usize) -> Option<(String, String)> {
        match TARGETS.get(t) {
            Some((s, at)) => Some(((*s).to_owned(), (*at).to_owned())),
            None if t == TARGETS.len() => None,
            None => Some((self.own.clone(), format!("w/p/{}", self.own))),
        }
    }
}

/// a word is the name of the report, of its directory, of the directory above
fn gen_words(c: &mut Ch) -> Option<Case> {
    let d = crate::words::dict();
    let word = c.of(&d.words).trim();
    let k = c.n(7);
    let abs = c.bool();
    if word.is_empty() || word.contains(['/', '\0']) || word == "." || word == ".." || word.len() > 100 {
        return None;
    }
    if word == "-" && k == 0 && !abs {
        return None;
    }
    let own = match k {
        0 => word.to_owned(),
        1 => format!("{word}/r.out"),
        2 => format!("new/{word}"),
        3 => format!("{word}/new/r.out"),
        4 => format!("X{word}"),
        5 => format!("{word}.json"),
        _ => format!("new/{word}/{word}"),
    };
    // these are there, and are something else
    let first = own.split('/').next().unwrap_or("");
    if ["old", "link", "dlink", "up.md", "lo.md", "requirements.toml"].contains(&first) {
        return None;
    }
    Some(Case {
        jobs: vec![(0, TARGETS.len() + 1, abs)],
        base: 0,
        log: false,
        default: false,
        twice: false,
        own,
    })
}

const BASES: [&str; 6] = ["p", "./p/", "/", "p/old/..", "p/dlink/../w/p", ""];

fn gen(c: &mut Ch, n: usize, rich: bool) -> Option<Case> {
    let mut jobs = vec![];
    for _ in 0..n {
        let t = if rich {
            c.n(TARGETS.len() + 1)
        } else {
            // the same file twice, one after the other, standard output
            *c.of(&[TARGETS.len(), 0, 2, 3, 6, 12])
        };
        let k = c.n(6);
        let abs = t < TARGETS.len() && rich && c.bool();
        jobs.push((k, t, abs));
    }
    Some(Case {
        jobs,
        base: if rich { c.n(BASES.len()) } else { 0 },
        log: rich && c.bool(),
        default: c.bool(),
        twice: c.bool(),
        own: String::new(),
    })
}

fn check(wk: &mut Wk<'_>, refs: &[Vec<Vec<u8>>], c: &Case) -> Result<u64, String> {
    let root = fresh(wk, "s", &[]);
    prepare(&root);
    let w = root.join("w");
    let (cwd, base) = base_of(&w, c.base);
    let mut jobs = serde_json::Map::new();
    let mut names = vec![];
    for (i, (k, t, abs)) in c.jobs.iter().enumerate() {
        let (_, q, f) = crate::fault::JOBS[*k];
        let file = match c.target(*t) {
            None => "-".to_owned(),
            Some((spelled, _)) if !abs => spelled,
            Some((spelled, _)) => w.join("p").join(spelled).display().to_string(),
        };
        jobs.insert(format!("j{i}"), job(q, f, &file));
        names.push(format!("j{i}"));
    }
    // a job that is not run, and whose file is not touched
    jobs.insert("other".into(), job("Parse", "Json", "../out/other"));
    let (_, mut config) = crate::fault::tiny_project(false);
    config["jobs"] = Value::Object(jobs);
    config["default_jobs"] = if c.default { json!(names) } else { json!(["other"]) };
    let cfg = if base.is_some() { "../cfg/r.toml" } else { "requirements.toml" };
    if base.is_some() {
        fs::create_dir_all(root.join("cfg")).unwrap();
    }
    fs::write(cwd.join(cfg), toml(&config)).unwrap();
    let mut want = snapshot(&root);
    let mut stdout: Vec<u8> = vec![];
    for (k, t, _) in &c.jobs {
        let report = &refs[c.base][*k];
        match c.target(*t) {
            None => stdout.extend_from_slice(report),
            Some((_, at)) => {
                let mut d = String::new();
                let parts: Vec<&str> = at.split('/').collect();
                for p in &parts[..parts.len() - 1] {
                    d.push_str(p);
                    want.entry(d.clone()).or_insert(Node::Dir);
                    d.push('/');
                }
                want.insert(at.clone(), Node::File(report.clone()));
            }
        }
    }
    let mut args: Vec<&str> = vec![];
    if let Some(b) = &base {
        args.extend(["-c", cfg, "-b", b]);
    }
    if !c.default {
        args.push("--");
        args.extend(names.iter().map(String::as_str));
    }
    let at = |n: &str| root.join(n).display().to_string();
    let dirs = [
        ("HOME", at("home")),
        ("TMPDIR", at("tmp")),
        ("XDG_CONFIG_HOME", at("home/.config")),
        ("XDG_CACHE_HOME", at("home/.cache")),
        ("XDG_RUNTIME_DIR", at("run")),
    ];
    let mut env: Vec<(&str, &str)> = dirs.iter().map(|(n, d)| (*n, d.as_str())).collect();
    if c.log {
        env.push(("REQTRACE_LOG", "trace"));
    }
    for _ in 0..=usize::from(c.twice) {
        let out = cli(wk, &cwd, &args, &Opt { env: &env, ..Opt::default() });
        if out.code != 1 {
            return Err(format!("exit code {} instead of 1: {}", out.code, out.stderr));
        }
        let s = |b: &[u8]| plain_paths(b, &root);
        if s(&out.stdout) != s(&stdout) {
            return Err(format!(
                "standard output:\n expected {:?}\n actual   {:?}",
                String::from_utf8_lossy(&stdout),
                String::from_utf8_lossy(&out.stdout)
            ));
        }
        let mut got = snapshot(&root);
        for n in got.values_mut().chain(want.values_mut()) {
            if let Node::File(b) = n {
                *b = s(b);
            }
        }
        for (n, x) in &want {
            match got.get(n) {
                None => return Err(format!("{n} is not there")),
                Some(g) if g != x => return Err(format!("{n}:\n expected {}\n actual   {}", show(x), show(g))),
                Some(_) => {}
            }
        }
        if let Some(n) = got.keys().find(|n| !want.contains_key(*n)) {
            return Err(format!("{n} was created"));
        }
    }
    Ok(h(&(stdout.len(), c.jobs.iter().map(|j| j.1).collect::<Vec<_>>())))
}

fn show(n: &Node) -> String {
    match n {
        Node::File(b) => format!("file {:?}", String::from_utf8_lossy(b)),
        other => format!("{other:?}"),
    }
}

/// the scratch directory of a worker is left out
fn plain_paths(b: &[u8], root: &Path) -> Vec<u8> {
    String::from_utf8_lossy(b).replace(&root.display().to_string(), "ROOT").into_bytes()
}

/// the directory to run in, and the base directory; without one, the program runs in `p` itself
fn base_of(w: &Path, i: usize) -> (PathBuf, Option<String>) {
    match BASES[i] {
        "" => (w.join("p"), None),
        "/" => (w.to_owned(), Some(w.join("p").display().to_string())),
        b => (w.to_owned(), Some(b.to_owned())),
    }
}

/// what each job reports, per base directory
fn references(ctx: &Ctx) -> Vec<Vec<Vec<u8>>> {
    let dir = ctx.scratch.join("refs");
    fs::create_dir_all(&dir).unwrap();
    let mut wk = Wk {
        ctx,
        tid: 0,
        dir,
        runs: 0,
        extra: BTreeMap::new(),
    };
    (0..BASES.len())
        .map(|i| {
            let root = fresh(&wk, "s", &[]);
            prepare(&root);
            let (cwd, base) = base_of(&root.join("w"), i);
            let (_, mut config) = crate::fault::tiny_project(false);
            let mut jobs = serde_json::Map::new();
            for (n, q, f) in crate::fault::JOBS {
                jobs.insert(n.into(), job(q, f, "-"));
            }
            config["jobs"] = Value::Object(jobs);
            fs::write(cwd.join("requirements.toml"), toml(&config)).unwrap();
            crate::fault::JOBS
                .iter()
                .map(|(n, _, _)| {
                    let mut args = vec![*n];
                    if let Some(b) = &base {
                        args.extend(["-b", b]);
                    }
                    let o = cli(&mut wk, &cwd, &args, &Opt::default());
                    plain_paths(&o.stdout, &root)
                })
                .collect()
        })
        .collect()
}

pub fn run_all(ctx: &Ctx) {
    let refs = references(ctx);
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Case> + Sync)| {
        ctx.explore(fam, 1, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check(wk, &refs, c))).collect());
    };
    go("targets", &|c| gen(c, 1, true));
    go("words", &gen_words);
    go("two", &|c| gen(c, 2, false));
    if ctx.thorough() {
        go("three", &|c| gen(c, 3, false));
    }
}
