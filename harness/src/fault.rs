//! Failures of inputs (C16) and outputs (C17): every operation of a run fails in every way

use crate::cli::*;
use crate::core::*;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::PathBuf;

const EINTR: i32 = 4;

pub type Files = Vec<(String, Vec<u8>)>;

/// a project with all kinds of artefacts. `pad` bytes of text make the files longer than a buffer
pub fn project(pad: usize) -> (Files, Value) {
    let filler: String = "Lorem ipsum dölor sit ämet.\n".repeat(pad / 28 + 1);
    let filler = if pad == 0 { "" } else { &filler };
    let md = format!(
        "# Project\n\n## MD_1: First\n\nText one\n{filler}\nCovers: Mono\n\n## MD_2: Second\n\nCovers:\n* Mono\nDepends: rs_a\n\n# Tail\n\n## MD_3: Thürd\n\nCovers: Mono\n"
    );
    let md2 = "# XA_1: Xa\nCovers:\n* MD_1: First\n# XA_2: Xb\nCovers: MD_2\n* QQ\n".to_owned();
    let mono = format!("Some Título\n\n=> MD_1: First\n{filler}\n=> MD_2 => MD_3\n");
    let a = format!("// {}\nfn rs_a() {{ requirement_covered!(MD_1); }}\nfn rs_a2() {{ requirement_covered!(MD_2, \"Second\"); }}\n", filler.replace('\n', " "));
    let b = "mod m { fn rs_b() { requirement_covered!(MD_3); } }\n".to_owned();
    let c = "requirement_covered!(MD_1, \"First\");\nimpl T { fn c() { requirement_covered!(); } }\n".to_owned();
    let mut j1 = Req::new("JS_1", Some("J"), Loc::line("x.json", 1));
    j1.covers.push(Ref {
        id: "MD_1".into(),
        title: None,
        loc: Loc::line("x.json", 2),
    });
    if pad > 0 {
        j1.attrs.insert("Description".into(), filler.to_owned());
    }
    let j2 = Req::new("JS_2", None, Loc::line("x.json", 5));
    let json_file = Value::Array(vec![j1.json(), j2.json()]).to_string();
    let part = "fn rs_p() { requirement_covered!(MD_1); }\n".to_owned();
    let other = "fn rs_q() { requirement_covered!(MD_2); }\n".to_owned();
    let json2 = json!({"version": 0, "requirements": [Req::new("JY_1", None, Loc::line("y", 5)).json()], "errors": []}).to_string();
    let mono2 = "Other one\n=> MD_1\n".to_owned();
    // names do not tell the format
    let files = vec![
        ("in.md".to_owned(), md.into_bytes()),
        ("xa.txt".to_owned(), md2.into_bytes()),
        ("inc/part.inc".to_owned(), part.into_bytes()),
        ("inc/other".to_owned(), other.into_bytes()),
        ("y".to_owned(), json2.into_bytes()),
        ("Other.md".to_owned(), mono2.into_bytes()),
        ("Mono.txt".to_owned(), mono.into_bytes()),
        ("src/a.rs".to_owned(), a.into_bytes()),
        ("src/sub/b.rs".to_owned(), b.into_bytes()),
        ("extra.rs".to_owned(), c.into_bytes()),
        ("x.json".to_owned(), json_file.into_bytes()),
    ];
    let config = json!({
        "artefacts": [
            {"id": "mono", "paths": ["Mono.txt"], "parser": "MonoRequirement"},
            {"id": "md", "paths": ["in.md"], "parser": "Markdown"},
            {"id": "xa", "paths": ["xa.txt"], "parser": "Markdown"},
            {"id": "js", "paths": ["x.json"], "parser": "Json"},
            {"id": "ot", "paths": ["Other.md"], "parser": "MonoRequirement"},
            {"id": "jy", "paths": ["y"], "parser": "Json"},
            {"id": "rs", "paths": ["src/**/*.rs", "extra.rs", "inc/*"], "parser": "Rust"},
        ],
        "relations": [
            {"upper": "mono", "lower": ["md"]},
            {"upper": "md", "lower": ["rs", "js", "xa"]},
        ],
    });
    (files, config)
}

/// a small project, with one problem of each kind or with none
pub fn tiny_project(clean: bool) -> (Files, Value) {
    let up = "# UP_1: One\n\nText\n\n# UP_2: Two\n";
    let lo = if clean {
        "# LO_1: Lo\nCovers: UP_1, UP_2\n"
    } else {
        "# LO_1: Lo\nCovers: UP_1, XX\n# LO_2: Derived\nbad\n# LO_2: Twice\n"
    };
    (
        vec![("up.md".to_owned(), up.into()), ("lo.md".to_owned(), lo.into())],
        json!({
            "artefacts": [
                {"id": "up", "paths": ["up.md"], "parser": "Markdown"},
                {"id": "lo", "paths": ["lo.md"], "parser": "Markdown"},
            ],
            "relations": [{"upper": "up", "lower": ["lo"]}],
        }),
    )
}

fn with_config(mut files: Files, config: &Value) -> Files {
    files.push(("r.toml".into(), toml(config).into_bytes()));
    files
}

/// scratch directory for runs outside of the exploration
fn prep<'a>(ctx: &'a Ctx, name: &str) -> Wk<'a> {
    let dir = ctx.scratch.join(name);
    fs::create_dir_all(&dir).unwrap();
    Wk {
        ctx,
        tid: 0,
        dir,
        runs: 0,
        extra: BTreeMap::new(),
    }
}

// ---------------------------------------------------------------------------------------------
// C16

const REPORTS: [&str; 3] = ["out/p.json", "out/t.json", "out/t.md"];

fn scene(pad: usize) -> Files {
    let (files, mut config) = project(pad);
    config["jobs"] = json!({
        "p": job("Parse", "Json", REPORTS[0]),
        "t": job("Trace", "Json", REPORTS[1]),
        "m": job("Trace", "Markdown", REPORTS[2]),
    });
    with_config(files, &config)
}

const ARGS: [&str; 7] = ["-c", "r.toml", "-b", ".", "p", "t", "m"];

struct Base {
    files: Files,
    out: CliOut,
    reports: Vec<String>,
    reqs: BTreeMap<String, Vec<Req>>,
}

fn read_reports(dir: &std::path::Path) -> Vec<String> {
    REPORTS
        .iter()
        .map(|r| String::from_utf8_lossy(&fs::read(dir.join(r)).unwrap_or_default()).into_owned())
        .collect()
}

fn base(ctx: &Ctx, pad: usize) -> Base {
    let mut wk = prep(ctx, &format!("base{pad}"));
    let files = scene(pad);
    let dir = fresh(&wk, "s", &files);
    let out = cli(&mut wk, &dir, &ARGS, &Opt { log: true, ..Opt::default() });
    let reports = read_reports(&dir);
    let reqs = parse_report(&reports[0]).map(|r| by_file(&r.0)).unwrap_or_default();
    let _ = fs::remove_dir_all(&dir);
    Base {
        files,
        out,
        reports,
        reqs,
    }
}

/// the run without faults is as it should be
fn check_base(b: &Base) -> Result<u64, String> {
    if b.out.code != 1 {
        return Err(format!("the run without faults exits with {}: {}", b.out.code, b.out.stderr));
    }
    let (reqs, errs, _) = parse_report(&b.reports[0])?;
    let ids: BTreeSet<&str> = reqs.iter().map(|r| r.id.as_str()).collect();
    for id in ["MD_1", "MD_2", "MD_3", "XA_1", "XA_2", "Mono", "JS_1", "JS_2", "rs_a", "rs_a2", "m::rs_b", "rs_p", "rs_q", "JY_1", "Other"] {
        if !ids.contains(id) {
            return Err(format!("{id} is missing: {ids:?}"));
        }
    }
    if errs.len() != 1 {
        return Err(format!("unexpected errors {errs:?}"));
    }
    Ok(0)
}

/// what the errors of a report say about a file
fn names_file(errs: &[Er], f: &str) -> bool {
    errs.iter().any(|e| match e {
        Er::Io(p) => plain(p) == f || plain(p).starts_with(&format!("{f}/")),
        Er::Format(l) => plain(&l.file) == f,
        _ => false,
    })
}

fn dropped(b: &Base, bad: &BTreeSet<String>) -> BTreeMap<String, Vec<Req>> {
    b.reqs
        .iter()
        .filter(|(f, _)| !bad.iter().any(|x| *f == x || f.starts_with(&format!("{x}/"))))
        .map(|(f, r)| (f.clone(), r.clone()))
        .collect()
}

/// files in `bad` could not be read, everything else is as without the failure
fn check_harm(b: &Base, out: &CliOut, reports: &[String], bad: &BTreeSet<String>) -> Result<u64, String> {
    if out.code != 1 {
        return Err(format!("exit code {} instead of 1: {}", out.code, out.stderr));
    }
    let (reqs, errs, _) = parse_report(&reports[0])?;
    let facts = facts_from_json(&reports[1])?;
    let terrs: Vec<Er> = facts.art_errs.values().flatten().cloned().collect();
    for f in bad {
        if !names_file(&errs, f) || !names_file(&terrs, f) {
            return Err(format!("no error names {f}: {errs:?} / {terrs:?}"));
        }
        if !reports[2].contains(f.as_str()) {
            return Err(format!("the Markdown report does not name {f}"));
        }
    }
    let want = dropped(b, bad);
    let all = by_file(&reqs);
    let treqs: Vec<Req> = facts.reqs.values().flatten().cloned().collect();
    let tall = by_file(&treqs);
    for (f, r) in &want {
        if all.get(f) != Some(r) {
            return Err(format!("requirements of {f}:\n expected {r:?}\n actual   {:?}", all.get(f)));
        }
        if tall.get(f) != Some(r) {
            return Err(format!("traced requirements of {f}:\n expected {r:?}\n actual   {:?}", tall.get(f)));
        }
    }
    for (f, r) in &all {
        if bad.contains(f) && !b.reqs.contains_key(f) {
            continue;
        }
        let was: BTreeSet<&String> = b.reqs.get(f).into_iter().flatten().map(|r| &r.id).collect();
        if let Some(x) = r.iter().find(|r| !was.contains(&r.id)) {
            return Err(format!("requirement out of nowhere: {x:?}"));
        }
    }
    Ok(h(&(bad, errs.len())))
}

fn check_same(b: &Base, out: &CliOut, reports: &[String]) -> Result<u64, String> {
    if out.code != b.out.code {
        return Err(format!("exit code {} instead of {}: {}", out.code, b.out.code, out.stderr));
    }
    for (i, r) in REPORTS.iter().enumerate() {
        if reports[i] != b.reports[i] {
            return Err(format!(
                "{r} changed:\n expected {}\n actual   {}",
                b.reports[i], reports[i]
            ));
        }
    }
    Ok(1)
}

#[derive(Clone, Debug, Hash)]
struct Fault {
    spec: String,
    bad: BTreeSet<String>,
}

fn input_faults(ops: &[Op]) -> Vec<Fault> {
    let mut v = vec![];
    for (o, i) in indexed(ops) {
        if o.name == "r.toml" {
            continue;
        }
        let acts: &[&str] = match o.class {
            'o' => &["E13", "E2", "E24", "E4", "E5", "E40"],
            'r' => &["E5", "E21", "E11", "E4", "S1", "S3", "E12", "S100"],
            'd' => &["E13", "E24", "E5"],
            'e' => &["E5"],
            _ => continue,
        };
        for a in acts {
            let benign = *a == format!("E{EINTR}") || a.starts_with('S');
            v.push(Fault {
                spec: format!("{}{i}={a}", o.class),
                bad: if benign {
                    BTreeSet::new()
                } else {
                    BTreeSet::from([o.name.clone()])
                },
            });
        }
    }
    v
}

pub fn run_inputs(ctx: &Ctx) {
    for pad in [0, 20000] {
        let b = base(ctx, pad);
        let fam = |n: &str| format!("{n}_{}", if pad == 0 { "small" } else { "big" });
        ctx.explore(
            &fam("base"),
            1,
            |c| Some(c.n(1)),
            |_, _| vec![verdict(check_base(&b))],
        );
        if ctx.violated() {
            return;
        }
        let single = input_faults(&b.out.ops);
        let run_fault = |wk: &mut Wk<'_>, f: &Fault| -> Result<u64, String> {
            let dir = fresh(wk, "s", &b.files);
            let out = cli(wk, &dir, &ARGS, &Opt { faults: &f.spec, ..Opt::default() });
            let reports = read_reports(&dir);
            if f.bad.is_empty() {
                check_same(&b, &out, &reports)
            } else {
                check_harm(&b, &out, &reports, &f.bad)
            }
        };
        ctx.explore(
            &fam("single"),
            1,
            |c| Some(single[c.n(single.len())].clone()),
            |wk, c| c.iter().map(|f| verdict(run_fault(wk, f))).collect(),
        );
        // two failures; the log tells which files were really hit
        let few: Vec<Fault> = single
            .iter()
            .filter(|f| ctx.q(&["E5", "E4"][..], &["E5", "E13", "E4", "S1", "E24"]).iter().any(|a| f.spec.ends_with(&format!("={a}"))))
            .cloned()
            .collect();
        if pad > 0 || ctx.thorough() {
            ctx.explore(
                &fam("pairs"),
                1,
                |c| {
                    let x = c.n(few.len());
                    let y = x + 1 + c.n(few.len() - x);
                    let (x, y) = (&few[x].spec, &few.get(y)?.spec);
                    // an operation fails in one way only
                    if x.split('=').next() == y.split('=').next() {
                        return None;
                    }
                    Some(format!("{x},{y}"))
                },
                |wk, c| c.iter().map(|f| verdict(run_logged(wk, &b, f))).collect(),
            );
        }
        // the size in which data arrives
        ctx.explore(
            &fam("chunks"),
            1,
            |c| Some(Fault {
                spec: format!("r*=S{}", *c.of(&[1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64, 100, 127, 255, 1000, 4095, 4096, 8191])),
                bad: BTreeSet::new(),
            }),
            |wk, c| c.iter().map(|f| verdict(run_fault(wk, f))).collect(),
        );
    }
    natural(ctx);
    utf8(ctx);
}

/// run with faults whose victims are known only afterwards
fn run_logged(wk: &mut Wk<'_>, b: &Base, spec: &str) -> Result<u64, String> {
    let dir = fresh(wk, "s", &b.files);
    let out = cli(wk, &dir, &ARGS, &Opt { faults: spec, log: true, ..Opt::default() });
    let reports = read_reports(&dir);
    let mut bad = BTreeSet::new();
    for (o, i) in indexed(&out.ops) {
        for f in spec.split(',') {
            let (at, act) = f.split_once('=').unwrap();
            if at == format!("{}{i}", o.class) && act.starts_with('E') && act != format!("E{EINTR}") {
                bad.insert(o.name.clone());
            }
        }
    }
    if bad.is_empty() {
        check_same(b, &out, &reports)
    } else {
        check_harm(b, &out, &reports, &bad)
    }
}

/// what can be wrong with a file without any fault injection
fn natural(ctx: &Ctx) {
    let b = base(ctx, 0);
    ctx.explore(
        "natural",
        1,
        |c| {
            // which files, and how
            let n = b.files.len() - 1;
            let f = c.n(n);
            let g = c.n(n);
            let how = c.n(4);
            let how2 = if g != f { c.n(4) } else { 0 };
            Some((f, g, how, how2))
        },
        |wk, c| {
            c.iter()
                .map(|(f, g, how, how2)| {
                    let dir = fresh(wk, "s", &b.files);
                    let mut bad = BTreeSet::new();
                    for (f, how) in [(f, how), (g, how2)] {
                        let name = &b.files[*f].0;
                        let p = dir.join(name);
                        let _ = fs::remove_file(&p);
                        match how {
                            0 => {}
                            1 => {
                                let _ = fs::create_dir_all(&p);
                            }
                            2 => {
                                let _ = std::os::unix::fs::symlink("nowhere", &p);
                            }
                            _ => {
                                let _ = std::os::unix::fs::symlink(p.file_name().unwrap(), &p);
                            }
                        }
                        // a pattern does not miss a file that is not there
                        if *how != 0 || !(name.starts_with("src/") || name.starts_with("inc/")) {
                            bad.insert(name.clone());
                        }
                        if f == g {
                            break;
                        }
                    }
                    // both files of src/ are gone: the pattern matches nothing
                    let out = cli(wk, &dir, &ARGS, &Opt::default());
                    let reports = read_reports(&dir);
                    let gone: BTreeSet<String> = [(f, how), (g, how2)]
                        .iter()
                        .map(|(f, _)| b.files[**f].0.clone())
                        .collect();
                    let mut b2 = Base {
                        files: vec![],
                        out: b.out.clone(),
                        reports: vec![],
                        reqs: dropped(&b, &gone),
                    };
                    for f in &gone {
                        // nothing can come out of these
                        b2.reqs.remove(f);
                    }
                    verdict(check_harm(&b2, &out, &reports, &bad))
                })
                .collect()
        },
    );
}

/// every byte of every file replaced by one that is not UTF-8, and by NUL
fn utf8(ctx: &Ctx) {
    let b = base(ctx, 0);
    let n = b.files.len() - 1;
    ctx.explore(
        "utf8",
        1,
        |c| {
            let f = c.n(n);
            let i = c.n(b.files[f].1.len() + 1);
            let byte = *c.of(&[0xff_u8, 0xc3, 0]);
            let insert = c.bool();
            if byte == 0xc3 && !insert && !ctx.thorough() {
                return None;
            }
            if i == b.files[f].1.len() && !insert {
                return None;
            }
            Some((f, i, byte, insert))
        },
        |wk, c| {
            c.iter()
                .map(|&(f, i, byte, insert)| {
                    let mut files = b.files.clone();
                    if insert {
                        files[f].1.insert(i, byte);
                    } else {
                        files[f].1[i] = byte;
                    }
                    let valid = std::str::from_utf8(&files[f].1).is_ok();
                    let name = files[f].0.clone();
                    let dir = fresh(wk, "s", &files);
                    let out = cli(wk, &dir, &ARGS, &Opt::default());
                    verdict((|| {
                        if out.code != 1 {
                            return Err(format!("exit code {}: {}", out.code, out.stderr));
                        }
                        let reports = read_reports(&dir);
                        let (reqs, errs, _) = parse_report(&reports[0])?;
                        let all = by_file(&reqs);
                        for (g, r) in dropped(&b, &BTreeSet::from([name.clone()])) {
                            if all.get(&g) != Some(&r) {
                                return Err(format!("requirements of {g}:\n expected {r:?}\n actual   {:?}", all.get(&g)));
                            }
                        }
                        let md = ["in.md", "xa.txt"].contains(&name.as_str());
                        let text = md || ["Mono.txt", "Other.md"].contains(&name.as_str());
                        if !text && !valid && !names_file(&errs, &name) {
                            return Err(format!("no error names {name}: {errs:?}"));
                        }
                        if text && !names_file(&errs, &name) {
                            // read on: nothing may be lost
                            let want: BTreeMap<String, Req> = if md {
                                let x = crate::md::expect(&name, &files[f].1);
                                let mut m = BTreeMap::new();
                                for r in x.reqs.iter().chain(&x.k1) {
                                    m.entry(r.id.clone()).or_insert_with(|| crate::docs::norm_req(r));
                                }
                                m
                            } else {
                                let r = crate::mono::expect(&name, &files[f].1);
                                BTreeMap::from([(r.id.clone(), r)])
                            };
                            let got: BTreeMap<String, Req> = all
                                .get(&name)
                                .into_iter()
                                .flatten()
                                .map(|r| {
                                    let mut r = crate::docs::norm_req(r);
                                    r.loc.file = plain(&r.loc.file);
                                    for x in r.covers.iter_mut().chain(&mut r.depends) {
                                        x.loc.file = plain(&x.loc.file);
                                    }
                                    (r.id.clone(), r)
                                })
                                .collect();
                            if want != got {
                                return Err(format!("requirements of {name}:\n expected {want:?}\n actual   {got:?}"));
                            }
                        }
                        Ok(h(&(f, errs.len(), all.get(&name).map(Vec::len))))
                    })())
                })
                .collect()
        },
    );
}

// ---------------------------------------------------------------------------------------------
// C17

pub const JOBS: [(&str, &str, &str); 6] = [
    ("pj", "Parse", "Json"),
    ("pm", "Parse", "Markdown"),
    ("pt", "Parse", "Tags"),
    ("tj", "Trace", "Json"),
    ("tm", "Trace", "Markdown"),
    ("tg", "Trace", "GnuError"),
];

/// a run: the jobs, and where the reports go
#[derive(Clone, Debug, Hash)]
struct OutScene {
    jobs: Vec<usize>,
    target: usize, // 0 file, 1 file in directories that do not exist, 2 stdout, 3 absolute path
    clean: bool,
    /// set_return_code
    rc: Option<bool>,
}

impl OutScene {
    fn target(&self, k: usize, dir: &std::path::Path) -> String {
        match self.target {
            0 => format!("{}.out", JOBS[k].0),
            1 => format!("new/dir/{}.out", JOBS[k].0),
            2 => "-".into(),
            _ => format!("{}/abs/{}.out", dir.display(), JOBS[k].0),
        }
    }
    fn files(&self, dir: &std::path::Path) -> Files {
        let (files, mut config) = tiny_project(self.clean);
        let mut jobs = serde_json::Map::new();
        for &k in &self.jobs {
            let mut j = job(JOBS[k].1, JOBS[k].2, &self.target(k, dir));
            if let Some(rc) = self.rc {
                j["set_return_code"] = json!(rc);
            }
            jobs.insert(JOBS[k].0.into(), j);
        }
        config["jobs"] = Value::Object(jobs);
        with_config(files, &config)
    }
    fn args(&self) -> Vec<&'static str> {
        let mut a = vec!["-c", "r.toml", "-b", "."];
        a.extend(self.jobs.iter().map(|k| JOBS[*k].0));
        a
    }
    fn reports(&self, dir: &std::path::Path, out: &CliOut) -> Vec<Option<Vec<u8>>> {
        if self.target == 2 {
            return vec![Some(out.stdout.clone())];
        }
        self.jobs.iter().map(|&k| fs::read(dir.join(self.target(k, dir))).ok()).collect()
    }
}

/// `expect`: None: nothing may change, Some(texts): exit 2 and one of the texts on stderr
#[derive(Clone, Debug, Hash)]
struct OutFault {
    spec: String,
    texts: Option<Vec<String>>,
}

fn errno_text(e: i32) -> String {
    let s = std::io::Error::from_raw_os_error(e).to_string();
    s.split(" (os").next().unwrap().to_owned()
}

fn out_faults(ops: &[Op], thorough: bool) -> Vec<OutFault> {
    let mut v = vec![];
    let idx = indexed(ops);
    for (n, (o, i)) in idx.iter().enumerate() {
        let acts: Vec<String> = match o.class {
            'c' => ["E13", "E28", "E24", "E4", "E21", "E30"].iter().map(|s| (*s).to_owned()).collect(),
            'm' | 'n' => ["E13", "E28"].iter().map(|s| (*s).to_owned()).collect(),
            'w' => {
                let mut a: Vec<String> = ["E28", "E5", "E32", "Z", "E4", "S1"].iter().map(|s| (*s).to_owned()).collect();
                if o.size > 3 {
                    a.push(format!("S{}", o.size / 2));
                    a.push(format!("S{}", o.size - 1));
                }
                if thorough {
                    a.push("E11".into());
                    a.push("E27".into());
                }
                a
            }
            _ => continue,
        };
        for a in acts {
            let benign = a == "E4" || a.starts_with('S');
            let texts = if benign {
                None
            } else if let Some(e) = a.strip_prefix('E') {
                Some(vec![errno_text(e.parse().unwrap()), o.name.clone()])
            } else {
                Some(vec![String::new()])
            };
            v.push(OutFault {
                spec: format!("{}{i}={a}", o.class),
                texts,
            });
        }
        // a partial or interrupted write, and then a failure
        if o.class == 'w' && (n % 4 == 0 || thorough) {
            for (a, b) in [("S1", "E28"), ("E4", "E5"), ("S1", "Z")] {
                if a == "S1" && o.size < 2 {
                    continue;
                }
                v.push(OutFault {
                    spec: format!("w{i}={a},w{}={b}", i + 1),
                    texts: Some(vec![String::new()]),
                });
            }
        }
    }
    for a in ["S1", "S2", "S3", "S7", "S64"] {
        v.push(OutFault {
            spec: format!("w*={a}"),
            texts: None,
        });
    }
    v
}

struct OutBase {
    scene: OutScene,
    out: CliOut,
    reports: Vec<Option<Vec<u8>>>,
    faults: Vec<OutFault>,
}

pub fn run_outputs(ctx: &Ctx) {
    crate::cli::broken_pipe();
    let mut scenes = vec![];
    for k in 0..6 {
        for target in 0..3 {
            scenes.push(OutScene {
                jobs: vec![k],
                target,
                clean: false,
                rc: None,
            });
        }
        scenes.push(OutScene {
            jobs: vec![k],
            target: if k % 2 == 0 { 2 } else { 0 },
            clean: true,
            rc: None,
        });
        for rc in [true, false] {
            scenes.push(OutScene {
                jobs: vec![k],
                target: if (k % 2 == 0) == rc { 2 } else { 0 },
                clean: false,
                rc: Some(rc),
            });
        }
    }
    for target in [0, 1, 2, 3] {
        scenes.push(OutScene {
            jobs: vec![1, 5, 2],
            target,
            clean: target == 3,
            rc: if target == 1 { Some(false) } else { None },
        });
    }
    let bases: Vec<OutBase> = scenes
        .into_iter()
        .enumerate()
        .map(|(n, scene)| {
            let mut wk = prep(ctx, &format!("ob{n}"));
            let dir = fresh(&wk, "s", &[]);
            put(&dir, &scene.files(&dir));
            let out = cli(&mut wk, &dir, &scene.args(), &Opt { log: true, ..Opt::default() });
            // paths of the scratch directory are in absolute reports only as job files
            let reports = scene.reports(&dir, &out);
            let faults = out_faults(&out.ops, ctx.thorough());
            let _ = fs::remove_dir_all(&dir);
            OutBase {
                scene,
                out,
                reports,
                faults,
            }
        })
        .collect();
    ctx.explore(
        "base",
        1,
        |c| Some(c.n(bases.len())),
        |wk, c| {
            c.iter()
                .map(|i| {
                    wk.runs += 1;
                    let b = &bases[*i];
                    verdict(check_out_base(b))
                })
                .collect()
        },
    );
    if ctx.violated() {
        return;
    }
    ctx.explore(
        "faults",
        1,
        |c| {
            let b = c.n(bases.len());
            let f = c.n(bases[b].faults.len());
            Some((b, bases[b].scene.clone(), bases[b].faults[f].clone()))
        },
        |wk, c| c.iter().map(|(b, _, f)| verdict(out_fault(wk, &bases[*b], f))).collect(),
    );
    // real conditions
    ctx.explore(
        "real",
        1,
        |c| {
            let k = c.n(6);
            let how = c.n(7);
            let second = c.bool();
            let rc = *c.of(&[None, Some(false), Some(true)]);
            Some((k, how, second, rc, c.bool()))
        },
        |wk, c| c.iter().map(|&(k, how, second, rc, clean)| verdict(real(wk, k, how, second, rc, clean))).collect(),
    );
}

fn check_out_base(b: &OutBase) -> Result<u64, String> {
    let want = i32::from(!b.scene.clean && b.scene.rc != Some(false));
    if b.out.code != want {
        return Err(format!("exit code {} instead of {want}: {}", b.out.code, b.out.stderr));
    }
    for (i, r) in b.reports.iter().enumerate() {
        match r {
            None => return Err(format!("no report of job {i}")),
            Some(r) if r.is_empty() && !b.scene.clean => return Err(format!("report {i} is empty")),
            _ => {}
        }
    }
    Ok(h(&b.reports))
}

fn out_fault(wk: &mut Wk<'_>, b: &OutBase, f: &OutFault) -> Result<u64, String> {
    let dir = fresh(wk, "s", &[]);
    put(&dir, &b.scene.files(&dir));
    let out = cli(
        wk,
        &dir,
        &b.scene.args(),
        &Opt {
            faults: &f.spec,
            log: f.texts.is_some() && f.spec.contains(','),
            ..Opt::default()
        },
    );
    let reports = b.scene.reports(&dir, &out);
    // was the second of two failures reached?
    let reached = if f.spec.contains(',') {
        let n: usize = f.spec.split(",w").nth(1).unwrap().split('=').next().unwrap().parse().unwrap();
        out.ops.iter().filter(|o| o.class == 'w').count() >= n
    } else {
        true
    };
    match &f.texts {
        Some(texts) if reached => {
            if out.code != 2 {
                return Err(format!("exit code {} instead of 2: {}", out.code, out.stderr));
            }
            if out.stderr.trim().is_empty() {
                return Err("nothing on standard error".into());
            }
            if !texts.iter().any(|t| out.stderr.contains(t.as_str())) {
                return Err(format!("standard error says {:?}, expected one of {texts:?}", out.stderr));
            }
        }
        _ => {
            if out.code != b.out.code {
                return Err(format!("exit code {} instead of {}: {}", out.code, b.out.code, out.stderr));
            }
            if reports != b.reports {
                let s = |r: &Vec<Option<Vec<u8>>>| {
                    r.iter()
                        .map(|r| r.as_ref().map(|r| String::from_utf8_lossy(r).into_owned()))
                        .collect::<Vec<_>>()
                };
                return Err(format!("report changed:\n expected {:?}\n actual   {:?}", s(&b.reports), s(&reports)));
            }
        }
    }
    Ok(h(&(out.code, f.spec.split('=').next_back(), &b.scene.jobs)))
}

/// full devices, closed pipes and paths that are occupied
fn real(wk: &mut Wk<'_>, k: usize, how: usize, second: bool, rc: Option<bool>, clean: bool) -> Result<u64, String> {
    let dir = fresh(wk, "s", &[]);
    let (files, mut config) = tiny_project(clean);
    let mut target = "-".to_owned();
    let mut opt = Opt::default();
    let full = PathBuf::from("/dev/full");
    match how {
        0 => opt.stdout_to = Some(&full),
        1 => opt.broken_pipe = true,
        2 => target = "/dev/full".into(),
        3 => {
            target = "isdir".into();
            fs::create_dir_all(dir.join("isdir")).unwrap();
        }
        4 => {
            target = "isfile/x.out".into();
            fs::write(dir.join("isfile"), "x").unwrap();
        }
        5 => {
            target = "isfile/deep/x.out".into();
            fs::write(dir.join("isfile"), "x").unwrap();
        }
        _ => {
            target = "loop".into();
            std::os::unix::fs::symlink("loop", dir.join("loop")).unwrap();
        }
    }
    let mut bad = job(JOBS[k].1, JOBS[k].2, &target);
    if let Some(rc) = rc {
        bad["set_return_code"] = json!(rc);
    }
    config["jobs"] = json!({
        "bad": bad,
        "good": job("Parse", "Tags", "good.out"),
    });
    put(&dir, &with_config(files, &config));
    let mut args = vec!["-c", "r.toml", "-b", "."];
    if second {
        args.push("good");
    }
    args.push("bad");
    // a clean GNU report is empty: there is nothing to write
    let out = cli(wk, &dir, &args, &opt);
    let nothing_to_write = clean && JOBS[k].2 == "GnuError" && how <= 2;
    if nothing_to_write && out.code == 0 {
        return Ok(0);
    }
    if out.code != 2 {
        return Err(format!("exit code {} instead of 2: {}", out.code, out.stderr));
    }
    if out.stderr.trim().is_empty() {
        return Err("nothing on standard error".into());
    }
    Ok(h(&(k, how)))
}
