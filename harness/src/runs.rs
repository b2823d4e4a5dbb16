//! Result codes (C12), configurations (C18), independence of runs (C19): the program itself

use crate::cli::*;
use crate::core::*;
use crate::fault::Files;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

fn write_config(dir: &Path, config: &Value) {
    fs::write(dir.join("r.toml"), toml(config)).unwrap();
}

// ---------------------------------------------------------------------------------------------
// C12

/// inputs with every combination of kinds of problems: (files, config, input error, any problem)
fn problem_world(input: bool, tracing: bool, uncovered: bool, derived: bool) -> (Files, Value) {
    let mut up = "# UP_1: One\n".to_owned();
    let mut lo = "# LO_1: Lo\nCovers: UP_1\n".to_owned();
    if uncovered {
        up.push_str("# UP_2: Two\n");
    }
    if tracing {
        lo.push_str("* XX_1: unknown\n");
    }
    if derived {
        lo.push_str("# LO_2: Two\n");
    }
    if input {
        lo.push_str("# LO_3: Three\nCovers: UP_1\nwrong\n# End\n");
    }
    (
        vec![("up.md".into(), up.into_bytes()), ("lo.md".into(), lo.into_bytes())],
        json!({
            "artefacts": [
                {"id": "up", "paths": ["up.md"], "parser": "Markdown"},
                {"id": "lo", "paths": ["lo.md"], "parser": "Markdown"},
            ],
            "relations": [{"upper": "up", "lower": ["lo"]}],
        }),
    )
}

#[derive(Clone, Debug, Hash)]
struct RcCase {
    problems: [bool; 4],
    /// job: query/format, set_return_code, kind of target
    jobs: Vec<(usize, Option<bool>)>,
    /// the jobs whose report goes to standard output
    stdout: Vec<usize>,
    by_default: bool,
    order: Vec<usize>,
}

const Q: [(&str, &str); 6] = [
    ("Trace", "GnuError"),
    ("Parse", "Json"),
    ("Trace", "Json"),
    ("Parse", "Tags"),
    ("Trace", "Markdown"),
    ("Parse", "Markdown"),
];
const BAD_TARGET: usize = 6;
const BAD_FORMAT: usize = 7;
const UNKNOWN: usize = 8;

fn check_rc(wk: &mut Wk<'_>, c: &RcCase) -> Result<u64, String> {
    let [i, t, u, d] = c.problems;
    let (files, mut config) = problem_world(i, t, u, d);
    let mut jobs = serde_json::Map::new();
    for (n, (k, rc)) in c.jobs.iter().enumerate() {
        let mut j = match *k {
            BAD_TARGET => job("Parse", "Tags", "up.md/x.out"),
            BAD_FORMAT => job("Trace", "Tags", "bad.out"),
            UNKNOWN => continue,
            k if c.stdout.contains(&n) => job(Q[k].0, Q[k].1, "-"),
            k => job(Q[k].0, Q[k].1, &format!("o{n}.out")),
        };
        if let Some(rc) = rc {
            j["set_return_code"] = json!(rc);
        }
        jobs.insert(format!("j{n}"), j);
    }
    config["jobs"] = Value::Object(jobs);
    let names: Vec<String> = c.order.iter().map(|n| format!("j{n}")).collect();
    if c.by_default {
        config["default_jobs"] = json!(names);
    } else {
        // defaults must not matter
        config["default_jobs"] = json!(["j0"]);
    }
    let dir = fresh(wk, "s", &files);
    write_config(&dir, &config);
    let mut args = vec!["-c", "r.toml"];
    if !c.by_default {
        args.extend(names.iter().map(String::as_str));
    }
    let out = cli(wk, &dir, &args, &Opt::default());
    let mut want = 0;
    for n in &c.order {
        let (k, rc) = c.jobs[*n];
        if k >= BAD_TARGET {
            want = 2;
            break;
        }
        let found = if Q[k].0 == "Parse" { i } else { i || t || u || d };
        if found && rc.unwrap_or(true) {
            want = 1;
        }
    }
    if out.code != want {
        return Err(format!("exit code {} instead of {want}: {}", out.code, out.stderr));
    }
    // reports of all jobs that were run
    if want < 2 {
        for n in &c.order {
            if !c.stdout.contains(n) && !dir.join(format!("o{n}.out")).exists() {
                return Err(format!("job {n} was not run"));
            }
        }
        for n in 0..c.jobs.len() {
            if !c.order.contains(&n) && dir.join(format!("o{n}.out")).exists() {
                return Err(format!("job {n} was run, but not asked for"));
            }
        }
    }
    Ok(h(&(want, c.problems)))
}

/// (name of the job, problem, jobs as arguments or by default, before or after another job)
fn gen_job_words(c: &mut Ch) -> Option<(String, bool, bool, usize)> {
    let w = crate::words::form(c.n(2), c.of(&crate::words::dict().words));
    if w == "other" || w == "unused" {
        return None;
    }
    Some((w, c.bool(), c.bool(), c.n(3)))
}

fn check_job_words(wk: &mut Wk<'_>, c: &(String, bool, bool, usize)) -> Result<u64, String> {
    let (name, problem, by_default, at) = c;
    let (files, mut config) = problem_world(*problem, false, false, false);
    let mut jobs = serde_json::Map::new();
    jobs.insert(name.clone(), job("Parse", "Json", "o.out"));
    jobs.insert("other".into(), job("Parse", "Tags", "other.out"));
    jobs["other"]["set_return_code"] = json!(false);
    jobs.insert("unused".into(), job("Trace", "Markdown", "unused.out"));
    config["jobs"] = Value::Object(jobs);
    let names: Vec<&str> = match at {
        0 => vec![name],
        1 => vec![name, "other"],
        _ => vec!["other", name],
    };
    config["default_jobs"] = if *by_default { json!(names) } else { json!(["unused"]) };
    let dir = fresh(wk, "s", &files);
    write_config(&dir, &config);
    let mut args = vec!["-c", "r.toml"];
    if !by_default {
        args.push("--");
        args.extend(&names);
    }
    let out = cli(wk, &dir, &args, &Opt::default());
    if out.code != i32::from(*problem) {
        return Err(format!("exit code {} instead of {}: {}", out.code, i32::from(*problem), out.stderr));
    }
    for (f, want) in [("o.out", true), ("other.out", *at > 0), ("unused.out", false)] {
        if dir.join(f).exists() != want {
            return Err(format!("{f} is {}there", if want { "not " } else { "" }));
        }
    }
    Ok(h(&(problem, by_default, at)))
}

pub fn run_rc(ctx: &Ctx) {
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<RcCase> + Sync)| {
        ctx.explore(fam, 1, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check_rc(wk, c))).collect());
    };
    let problems = |c: &mut Ch| [c.bool(), c.bool(), c.bool(), c.bool()];
    let rcs = [None, Some(false), Some(true)];
    // one job of every kind on every combination of problems
    go("single", &|c| {
        let p = problems(c);
        let k = c.n(8);
        let rc = *c.of(&rcs);
        let by_default = c.bool();
        Some(RcCase {
            problems: p,
            jobs: vec![(k, rc)],
            stdout: if c.bool() { vec![0] } else { vec![] },
            by_default,
            order: vec![0],
        })
    });
    // two jobs of all kinds, either of them to standard output
    go("two", &|c| {
        let p = *c.of(&[
            [false, false, false, false],
            [true, false, false, false],
            [false, true, false, false],
            [false, false, true, false],
            [false, false, false, true],
            [true, true, true, true],
        ]);
        let jobs: Vec<_> = (0..2).map(|_| (c.n(6), if c.bool() { Some(c.bool()) } else { None })).collect();
        let stdout = [vec![], vec![0], vec![1], vec![0, 1]][c.n(4)].clone();
        Some(RcCase {
            problems: p,
            jobs,
            stdout,
            by_default: true,
            order: vec![0, 1],
        })
    });
    // sequences of jobs out of a fixed set
    let set = vec![
        (0, None),
        (1, None),
        (2, Some(false)),
        (3, Some(false)),
        (4, Some(true)),
        (BAD_TARGET, None),
        (BAD_FORMAT, Some(false)),
        (UNKNOWN, None),
    ];
    go("sequences", &|c| {
        let p = *c.of(&[
            [false, false, false, false],
            [true, false, false, false],
            [false, true, false, false],
            [false, false, true, false],
            [false, false, false, true],
        ]);
        let by_default = c.bool();
        let len = 1 + c.n(ctx.q(3, 4));
        let order: Vec<usize> = (0..len).map(|_| c.n(set.len())).collect();
        Some(RcCase {
            problems: p,
            jobs: set.clone(),
            stdout: vec![],
            by_default,
            order,
        })
    });
    ctx.explore("job_words", 1, gen_job_words, |wk, cs| cs.iter().map(|c| verdict(check_job_words(wk, c))).collect());
    use crate::world::*;
    crate::mixed::explore(ctx, P::C12);
    explore_worlds(ctx, P::C12, "words", |c| crate::words::fam_problem(c, ctx.thorough()));
    explore_worlds(ctx, P::C12, "mut", |c| fam_mut(c, &[0, 1, 2, 3, 4, 5, 6, 7], ctx.q(1, 2)));
    explore_worlds(ctx, P::C12, "titles_rel", fam_titles_rel);
    explore_worlds(ctx, P::C12, "rels1", |c| fam_rels(c, 1, false));
    explore_worlds(ctx, P::C12, "one_problem", fam_one_problem);
    explore_worlds(ctx, P::C12, "scale", fam_scale);
    explore_worlds(ctx, P::C12, "dups", |c| fam_dups(c, 2, 2, false));
    if ctx.thorough() {
        explore_worlds(ctx, P::C12, "derived", fam_derived);
    }
}

// ---------------------------------------------------------------------------------------------
// C18

#[derive(Clone, Debug, Hash)]
enum Mistake {
    None,
    /// exit 2, and one of these on standard error
    Refused(Vec<String>),
    /// anything but a crash
    NoCrash,
}

#[derive(Clone, Debug, Hash)]
struct CfgCase {
    config: Vec<u8>,
    args: Vec<String>,
    mistake: Mistake,
    /// no report may be touched
    no_job: bool,
    /// the file of the configuration: 0 as is, 1 missing, 2 a directory
    file: usize,
}

fn full_config() -> Value {
    json!({
        "version": 0,
        "artefacts": [
            {"id": "A", "paths": ["a.md"], "parser": "Markdown", "ignore_derived_requirements": true},
            {"id": "B", "paths": ["b.json"], "parser": "Json", "reference_with_title": false},
            {"id": "C", "paths": ["c.rs", "d*.rs"], "parser": "Rust"},
        ],
        "relations": [
            {"upper": "A", "lower": ["B", "C"]},
            {"upper": "B", "lower": ["C"]},
        ],
        "jobs": {
            "j1": {"query": "Trace", "format": "Markdown", "file": "j1.out"},
            "j2": {"query": "Parse", "format": "Tags", "file": "j2.out", "set_return_code": false},
            "j3": {"query": "Parse", "format": "Json", "file": "j3.out"},
        },
        "default_jobs": ["j1", "j2"],
    })
}

const CFG_FILES: [(&str, &str); 4] = [
    ("a.md", "# AA_1: a\n"),
    ("b.json", "[]"),
    ("c.rs", "fn c() { requirement_covered!(AA_1); }"),
    ("d1.rs", "fn d() { requirement_covered!(AA_1); }"),
];

fn check_cfg(wk: &mut Wk<'_>, c: &CfgCase) -> Result<u64, String> {
    let files: Files = CFG_FILES.iter().map(|(n, t)| ((*n).to_owned(), t.as_bytes().to_vec())).collect();
    let dir = fresh(wk, "s", &files);
    match c.file {
        0 => fs::write(dir.join("r.toml"), &c.config).unwrap(),
        1 => {}
        _ => fs::create_dir(dir.join("r.toml")).unwrap(),
    }
    for j in ["j1", "j2", "j3"] {
        fs::write(dir.join(format!("{j}.out")), "old").unwrap();
    }
    let mut args = vec!["-c", "r.toml"];
    args.extend(c.args.iter().map(String::as_str));
    let out = cli(wk, &dir, &args, &Opt::default());
    let touched: Vec<&str> = ["j1", "j2", "j3"]
        .into_iter()
        .filter(|j| fs::read(dir.join(format!("{j}.out"))).ok().as_deref() != Some(b"old"))
        .collect();
    match &c.mistake {
        Mistake::None => {
            if out.code != 0 && out.code != 1 {
                return Err(format!("a correct configuration is refused, exit code {}: {}", out.code, out.stderr));
            }
        }
        Mistake::NoCrash => {
            if ![0, 1, 2].contains(&out.code) || out.stderr.contains("panicked") {
                return Err(format!("crash: exit code {}: {}", out.code, out.stderr));
            }
            // refused as a whole or run as a whole
            if out.code == 2 && !touched.is_empty() && c.no_job {
                return Err(format!("exit code 2, but reports {touched:?} were written"));
            }
        }
        Mistake::Refused(names) => {
            if out.code != 2 {
                return Err(format!("exit code {} instead of 2: {}", out.code, out.stderr));
            }
            if out.stderr.contains("panicked") {
                return Err(format!("panic: {}", out.stderr));
            }
            if !names.iter().any(|n| out.stderr.contains(n.as_str())) {
                return Err(format!("the message does not name {names:?}: {:?}", out.stderr));
            }
        }
    }
    if c.no_job && matches!(c.mistake, Mistake::Refused(_)) && !touched.is_empty() {
        return Err(format!("jobs were run all the same: {touched:?}"));
    }
    Ok(h(&(out.code, touched)))
}

fn case(config: &Value, args: &[&str], mistake: Mistake, no_job: bool) -> CfgCase {
    CfgCase {
        config: toml(config).into_bytes(),
        args: args.iter().map(|s| (*s).to_owned()).collect(),
        mistake,
        no_job,
        file: 0,
    }
}

fn refused(n: &[&str]) -> Mistake {
    Mistake::Refused(n.iter().map(|s| (*s).to_owned()).collect())
}

/// one mistake, or none, in an otherwise correct configuration, with every way to run it
fn fam_mistakes(c: &mut Ch) -> Option<CfgCase> {
    let mut v = full_config();
    let args: &[&str] = *c.of(&[&[][..], &["j1"], &["j3", "j2"], &["j2"]]);
    match c.n(12) {
        0 => {
            // version
            let (x, bad) = *c.of(&[
                ("0", false),
                ("1", true),
                ("2", true),
                ("4294967295", true),
                ("4294967296", true),
                ("-1", true),
                ("\"0\"", true),
                ("0.0", true),
                ("[]", true),
            ]);
            v["version"] = serde_json::from_str(x).unwrap();
            let m = if bad { refused(&[x, "r.toml"]) } else { Mistake::None };
            Some(case(&v, args, m, bad))
        }
        1 => {
            // unknown artefacts in every place of a relation
            let name = *c.of(&["X", "a", "AB", "A ", ""]);
            match c.n(5) {
                0 => v["relations"][0]["upper"] = json!(name),
                1 => v["relations"][0]["lower"][0] = json!(name),
                2 => v["relations"][0]["lower"][1] = json!(name),
                3 => v["relations"][1]["upper"] = json!(name),
                _ => v["relations"][1]["lower"] = json!(["A", "B", "C", name]),
            }
            Some(case(&v, args, refused(&[name]), true))
        }
        2 => {
            // ids defined twice
            let (i, j) = *c.of(&[(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)]);
            let id = v["artefacts"][i]["id"].clone();
            match c.n(3) {
                0 => {
                    v["artefacts"][j]["id"] = id.clone();
                    v["relations"] = json!([]);
                }
                1 => {
                    let mut a = v["artefacts"][j].clone();
                    a["id"] = id.clone();
                    v["artefacts"].as_array_mut().unwrap().push(a);
                }
                _ => {
                    let mut a = v["artefacts"][j].clone();
                    a["id"] = id.clone();
                    v["artefacts"].as_array_mut().unwrap().insert(0, a);
                }
            }
            Some(case(&v, args, refused(&[id.as_str().unwrap()]), true))
        }
        3 => {
            // unknown jobs
            let name = *c.of(&["j4", "J1", "j", "j1 ", "", "-"]);
            let k = c.n(4);
            let lists: [&[&str]; 4] = [&[name], &["j1", name], &[name, "j2"], &["j3", name, "j1"]];
            if c.bool() {
                Some(case(&v, lists[k], refused(&[name]), true))
            } else {
                v["default_jobs"] = json!(lists[k]);
                Some(case(&v, &[], refused(&[name]), true))
            }
        }
        4 => {
            // no default jobs
            if c.bool() {
                v["default_jobs"] = json!([]);
            } else {
                v.as_object_mut().unwrap().remove("default_jobs");
            }
            if args.is_empty() {
                Some(case(&v, args, refused(&["default"]), true))
            } else {
                Some(case(&v, args, Mistake::None, false))
            }
        }
        5 => {
            // formats that do not exist for the query
            let (q, f, n) = c.of(&[
                ("Trace", json!("Tags"), "Tags"),
                ("Parse", json!("GnuError"), "GnuError"),
                ("Trace", json!({"TemplateFile": "a.md"}), "TemplateFile"),
                ("Parse", json!({"TemplateString": "x"}), "TemplateString"),
                ("Trace", json!({"TemplateString": "x"}), "TemplateString"),
                ("Parse", json!({"TemplateFile": "a.md"}), "TemplateFile"),
            ])
            .clone();
            let j = *c.of(&["j1", "j2", "j3"]);
            v["jobs"][j]["query"] = json!(q);
            v["jobs"][j]["format"] = f;
            let ran: Vec<&str> = if args.is_empty() { vec!["j1", "j2"] } else { args.to_vec() };
            let m = if ran.contains(&j) { refused(&[n]) } else { Mistake::None };
            Some(case(&v, args, m, false))
        }
        6 => {
            // names that mean nothing
            match c.n(5) {
                0 => v["artefacts"][c.n(3)]["parser"] = json!(*c.of(&["markdown", "", "Xml"])),
                1 => v["jobs"]["j1"]["query"] = json!(*c.of(&["trace", "", "Graph"])),
                2 => v["jobs"]["j1"]["format"] = json!(*c.of(&["json", "", "Html"])),
                3 => v["artefacts"][0]["parser"] = json!(5),
                _ => v["jobs"]["j1"]["format"] = json!(["Json"]),
            }
            Some(case(&v, args, refused(&["r.toml"]), true))
        }
        7 => {
            // required fields missing
            let (a, b) = *c.of(&[
                ("artefacts", "id"),
                ("artefacts", "paths"),
                ("artefacts", "parser"),
                ("relations", "upper"),
                ("relations", "lower"),
                ("jobs", "query"),
                ("jobs", "format"),
                ("jobs", "file"),
            ]);
            let t = if a == "jobs" { &mut v[a]["j2"] } else { &mut v[a][1] };
            t.as_object_mut().unwrap().remove(b);
            Some(case(&v, args, refused(&["r.toml"]), true))
        }
        8 => {
            // values of a wrong type
            let x = c.of(&[json!(5), json!(true), json!([5]), json!({"x": 1})]).clone();
            match c.n(9) {
                0 => v["artefacts"][0]["id"] = x,
                1 => v["artefacts"][1]["paths"] = x,
                2 => v["relations"][0]["upper"] = x,
                3 => v["relations"][0]["lower"] = x,
                4 => v["jobs"]["j3"]["file"] = x,
                5 => v["default_jobs"] = x,
                6 => {
                    if x == json!(true) {
                        return None;
                    }
                    v["jobs"]["j3"]["set_return_code"] = x;
                }
                7 => {
                    if x == json!(true) {
                        return None;
                    }
                    v["artefacts"][0]["ignore_derived_requirements"] = x;
                }
                _ => {
                    if x == json!(true) {
                        return None;
                    }
                    v["artefacts"][2]["reference_with_title"] = x;
                }
            }
            Some(case(&v, args, refused(&["r.toml"]), true))
        }
        9 => {
            // files
            let file = 1 + c.n(2);
            let mut x = case(&v, args, refused(&["r.toml"]), true);
            x.file = file;
            Some(x)
        }
        10 => {
            // what is not TOML
            let junk: &[u8] = *c.of(&[
                &b"["[..], b"x", b"x =", b"[[artefacts]", b"= 5", b"\"", b"\xff\xfe", b"\0", b"a = 1\na = 2", b"jobs = 5", b"{}", b"<xml>",
            ]);
            let mut x = case(&v, args, refused(&["r.toml"]), true);
            if c.bool() {
                x.config = junk.to_vec();
            } else {
                x.config.extend_from_slice(b"\n");
                x.config.extend_from_slice(junk);
                if junk == b"jobs = 5" || junk == b"a = 1\na = 2" {
                    x.mistake = Mistake::NoCrash;
                }
            }
            Some(x)
        }
        _ => {
            // two mistakes at once: refused all the same
            v["relations"][0]["upper"] = json!("X");
            match c.n(4) {
                0 => v["version"] = json!(1),
                1 => v["relations"][1]["lower"][0] = json!("Y"),
                2 => v["artefacts"][2]["id"] = json!("A"),
                _ => {
                    v["default_jobs"] = json!(["nope"]);
                    return Some(case(&v, &["nope", "j1"], refused(&["X", "nope"]), true));
                }
            }
            Some(case(&v, args, refused(&["X", "A", "r.toml"]), true))
        }
    }
}

/// configurations without mistakes
fn fam_correct(c: &mut Ch) -> Option<CfgCase> {
    let mut v = full_config();
    let o = v.as_object_mut().unwrap();
    if c.bool() {
        o.remove("version");
    }
    let fields = [
        ("artefacts", 0, "ignore_derived_requirements"),
        ("artefacts", 1, "reference_with_title"),
    ];
    for (t, i, f) in fields {
        match c.n(3) {
            0 => {}
            1 => {
                v[t][i].as_object_mut().unwrap().remove(f);
            }
            _ => v[t][i][f] = json!(v[t][i][f] != json!(true)),
        }
    }
    match c.n(3) {
        0 => {}
        1 => {
            v["jobs"]["j2"].as_object_mut().unwrap().remove("set_return_code");
        }
        _ => v["jobs"]["j1"]["set_return_code"] = json!(true),
    }
    v["relations"] = c
        .of(&[
            v["relations"].clone(),
            json!([]),
            json!([{"upper": "A", "lower": []}]),
            json!([{"upper": "A", "lower": ["A"]}]),
            json!([{"upper": "A", "lower": ["B"]}, {"upper": "B", "lower": ["A"]}]),
            json!([{"upper": "A", "lower": ["B"]}, {"upper": "A", "lower": ["B"]}]),
            json!([{"upper": "C", "lower": ["B", "A"]}, {"upper": "A", "lower": ["B", "C"]}]),
        ])
        .clone();
    match c.n(4) {
        0 => {}
        1 => v["artefacts"][0]["paths"] = json!([]),
        2 => v["artefacts"][2]["paths"] = json!([]),
        _ => v["artefacts"][0]["paths"] = json!(["a.md", "b.json"]),
    }
    let args: &[&str] = *c.of(&[&[][..], &["j1", "j2", "j3"], &["j3", "j3"]]);
    if c.bool() {
        v["relations"] = json!([]);
        v["artefacts"] = json!([]);
    }
    Some(case(&v, args, Mistake::None, false))
}

/// words as names of artefacts and jobs, of those that exist and of those that do not
fn fam_words(c: &mut Ch) -> Option<CfgCase> {
    let mut v = full_config();
    let k = c.n(11);
    let w = crate::words::form(if k < 8 { c.n(2) } else { 0 }, c.of(&crate::words::dict().words));
    let arg: &[&str] = *c.of(&[&[][..], &["j1"]]);
    if ["A", "B", "C", "j1", "j2", "j3"].contains(&w.as_str()) {
        return None;
    }
    // (a message may show a name as a string of Rust or of TOML)
    let named = |w: &str| {
        let d = format!("{w:?}");
        refused(&[w, d[1..d.len() - 1].as_ref(), &w.replace('\\', "\\\\"), &w.escape_default().to_string()])
    };
    let accepted = |v: &Value, a: &[&str]| Some(case(v, a, Mistake::None, false));
    match k {
        0 => v["relations"][0]["upper"] = json!(w),
        1 => v["relations"][0]["lower"][1] = json!(w),
        2 => v["relations"][1]["lower"] = json!([w]),
        3 => {
            v["artefacts"][0]["id"] = json!(w);
            v["relations"][0]["upper"] = json!(w);
            return accepted(&v, arg);
        }
        4 => {
            v["artefacts"][0]["id"] = json!(w);
            v["artefacts"][2]["id"] = json!(w);
            v["relations"] = json!([]);
        }
        5 => {
            if !arg.is_empty() {
                return None;
            }
            let args = if c.bool() { vec!["--", w.as_str()] } else { vec!["--", "j2", w.as_str()] };
            return Some(case(&v, &args, named(&w), true));
        }
        6 => {
            if !arg.is_empty() {
                return None;
            }
            v["default_jobs"] = json!(["j3", w]);
        }
        7 => {
            v["jobs"][&w] = v["jobs"]["j2"].clone();
            v["default_jobs"] = json!([w]);
            return accepted(&v, arg);
        }
        8 => {
            if ["Markdown", "MonoRequirement", "Rust", "Json"].contains(&w.as_str()) {
                return None;
            }
            v["artefacts"][1]["parser"] = json!(w);
            return Some(case(&v, arg, Mistake::NoCrash, true));
        }
        9 => {
            v["artefacts"][1]["paths"] = json!([w]);
            return accepted(&v, arg);
        }
        _ => {
            v["artefacts"][2]["paths"] = json!([w, "c.rs"]);
            return accepted(&v, arg);
        }
    }
    Some(case(&v, arg, named(&w), true))
}

/// every prefix of a configuration, every byte removed or replaced
fn fam_text(c: &mut Ch, all: bool) -> Option<CfgCase> {
    let mut v = full_config();
    v["artefacts"].as_array_mut().unwrap().truncate(2);
    v["relations"] = json!([{"upper": "A", "lower": ["B"]}]);
    v["jobs"].as_object_mut().unwrap().remove("j2");
    v["default_jobs"] = json!(["j1"]);
    let mut x = case(&v, &[], Mistake::NoCrash, true);
    let i = c.n(x.config.len());
    match c.n(if all { 9 } else { 4 }) {
        0 => x.config.truncate(i),
        1 => {
            x.config.remove(i);
        }
        k => x.config[i] = b"\"\xff]\n=0#"[k - 2],
    }
    Some(x)
}

/// all small configurations: up to three artefacts with one of two ids, with and without files, and
/// up to two relations between these ids and one that no artefact has
fn fam_small(c: &mut Ch, many: bool) -> Option<CfgCase> {
    let ids = ["A", "B", "X"];
    let arts: Vec<(&str, usize)> = if many {
        c.of(&[vec![("A", 0)], vec![("A", 0), ("B", 1)], vec![("B", 2), ("A", 0)]]).clone()
    } else {
        let n = c.n(4);
        (0..n).map(|_| (ids[c.n(2)], c.n(3))).collect()
    };
    let nrel = if many { 2 } else { c.n(2) };
    let mut rels = vec![];
    for _ in 0..nrel {
        let upper = *c.of(&ids);
        let n = c.n(3);
        let lower: Vec<&str> = (0..n).map(|_| *c.of(&ids)).collect();
        rels.push((upper, lower));
    }
    let mut offenders = vec![];
    for (i, (a, _)) in arts.iter().enumerate() {
        if arts[..i].iter().any(|b| b.0 == *a) {
            offenders.push(*a);
        }
    }
    for (u, l) in &rels {
        for x in std::iter::once(u).chain(l) {
            if !arts.iter().any(|a| a.0 == *x) {
                offenders.push(*x);
            }
        }
    }
    let mut v = full_config();
    v["artefacts"] = arts
        .iter()
        .map(|(id, k)| match k {
            0 => json!({"id": id, "paths": ["a.md"], "parser": "Markdown"}),
            1 => json!({"id": id, "paths": ["b.json"], "parser": "Json"}),
            _ => json!({"id": id, "paths": [], "parser": "Markdown"}),
        })
        .collect();
    v["relations"] = rels.iter().map(|(u, l)| json!({"upper": u, "lower": l})).collect();
    let m = if offenders.is_empty() { Mistake::None } else { refused(&offenders) };
    let bad = !offenders.is_empty();
    Some(case(&v, &["j1"], m, bad))
}

pub fn run_cfg(ctx: &Ctx) {
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<CfgCase> + Sync)| {
        ctx.explore(fam, 1, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check_cfg(wk, c))).collect());
    };
    go("mistakes", &fam_mistakes);
    go("correct", &fam_correct);
    go("small", &|c| fam_small(c, false));
    go("small2", &|c| fam_small(c, true));
    go("words", &fam_words);
    go("text", &|c| fam_text(c, ctx.thorough()));
}

// ---------------------------------------------------------------------------------------------
// C19

fn history_project() -> (Files, Value) {
    let (mut files, mut config) = crate::fault::tiny_project(false);
    files.push(("Mono.txt".into(), b"Mono\n=> UP_1: One\n".to_vec()));
    files.push(("src/a.rs".into(), b"fn a() { requirement_covered!(UP_2); }".to_vec()));
    files.push(("src/b/b.rs".into(), b"fn b() { requirement_covered!(); }".to_vec()));
    files.push(("x.json".into(), b"[]".to_vec()));
    let arts = config["artefacts"].as_array_mut().unwrap();
    arts.push(json!({"id": "rs", "paths": ["src/**/*.rs"], "parser": "Rust"}));
    arts.push(json!({"id": "mono", "paths": ["Mono.txt"], "parser": "MonoRequirement"}));
    arts.push(json!({"id": "js", "paths": ["x.json"], "parser": "Json"}));
    config["relations"] = json!([{"upper": "mono", "lower": ["up"]}, {"upper": "up", "lower": ["lo", "rs", "js"]}]);
    let mut jobs = serde_json::Map::new();
    for (n, q, f) in crate::fault::JOBS {
        jobs.insert(n.into(), job(q, f, &format!("out/{n}.out")));
    }
    config["jobs"] = Value::Object(jobs);
    (files, config)
}

const N: usize = 6;

fn reports(dir: &Path) -> Vec<Option<Vec<u8>>> {
    crate::fault::JOBS
        .iter()
        .map(|(n, _, _)| fs::read(dir.join(format!("out/{n}.out"))).ok())
        .collect()
}

/// reports of every job when it is run alone in a fresh directory
fn references(ctx: &Ctx) -> (Vec<Vec<u8>>, Vec<CliOut>) {
    let dir = ctx.scratch.join("refs");
    fs::create_dir_all(&dir).unwrap();
    let mut wk = Wk {
        ctx,
        tid: 0,
        dir,
        runs: 0,
        extra: BTreeMap::new(),
    };
    let (files, config) = history_project();
    let mut r = vec![];
    let mut outs = vec![];
    for (i, (n, _, _)) in crate::fault::JOBS.iter().enumerate() {
        let d = fresh(&wk, "s", &files);
        write_config(&d, &config);
        let o = cli(
            &mut wk,
            &d,
            &["-c", "r.toml", "-b", ".", n],
            &Opt { log: true, ..Opt::default() },
        );
        r.push(reports(&d)[i].clone().unwrap_or_default());
        outs.push(o);
    }
    (r, outs)
}

#[derive(Clone, Debug, Hash, PartialEq)]
enum Step {
    /// run these jobs
    Run(Vec<usize>),
    /// run a job, killed at an operation
    Killed(usize, String),
    /// put something into all report files
    Fill(usize),
    Remove,
}

fn check_history(wk: &mut Wk<'_>, refs: &[Vec<u8>], steps: &[Step]) -> Result<u64, String> {
    let (files, config) = history_project();
    let dir = fresh(wk, "s", &files);
    write_config(&dir, &config);
    // what every report file holds; None: unknown
    let mut hold: Vec<Option<Option<Vec<u8>>>> = vec![Some(None); N];
    for s in steps {
        match s {
            Step::Run(js) => {
                let mut args = vec!["-c", "r.toml", "-b", "."];
                args.extend(js.iter().map(|j| crate::fault::JOBS[*j].0));
                let o = cli(wk, &dir, &args, &Opt::default());
                if o.code != 1 {
                    return Err(format!("{s:?}: exit code {}: {}", o.code, o.stderr));
                }
                for j in js {
                    hold[*j] = Some(Some(refs[*j].clone()));
                }
            }
            Step::Killed(j, spec) => {
                let o = cli(
                    wk,
                    &dir,
                    &["-c", "r.toml", "-b", ".", crate::fault::JOBS[*j].0],
                    &Opt { faults: spec, ..Opt::default() },
                );
                if o.code != -9 && o.code != 1 {
                    return Err(format!("{s:?}: exit code {}: {}", o.code, o.stderr));
                }
                hold[*j] = None;
            }
            Step::Fill(k) => {
                fs::create_dir_all(dir.join("out")).unwrap();
                for j in 0..N {
                    let b: Vec<u8> = match k {
                        0 => vec![],
                        1 => b"garbage\n".to_vec(),
                        2 => vec![b'x'; 100_000],
                        _ => refs[j].iter().chain(b"more").copied().collect(),
                    };
                    fs::write(dir.join(format!("out/{}.out", crate::fault::JOBS[j].0)), &b).unwrap();
                    hold[j] = Some(Some(b));
                }
            }
            Step::Remove => {
                let _ = fs::remove_dir_all(dir.join("out"));
                hold = vec![Some(None); N];
            }
        }
        let r = reports(&dir);
        for j in 0..N {
            if let Some(w) = &hold[j] {
                if *w != r[j] {
                    let show = |x: &Option<Vec<u8>>| x.as_ref().map(|b| String::from_utf8_lossy(b).into_owned());
                    return Err(format!(
                        "after {s:?}, report of {}:\n expected {:?}\n actual   {:?}",
                        crate::fault::JOBS[j].0,
                        show(w),
                        show(&r[j])
                    ));
                }
            }
        }
        // inputs are not touched
        for (n, b) in &files {
            if fs::read(dir.join(n)).ok().as_ref() != Some(b) {
                return Err(format!("after {s:?}, the input {n} changed"));
            }
        }
        if fs::read(dir.join("r.toml")).ok() != Some(toml(&config).into_bytes()) {
            return Err(format!("after {s:?}, the configuration changed"));
        }
        // nothing else appears
        let mut extra = vec![];
        list(&dir, "", &mut extra);
        extra.retain(|f| !files.iter().any(|x| x.0 == *f) && f != "r.toml" && !(0..N).any(|j| *f == format!("out/{}.out", crate::fault::JOBS[j].0)));
        if !extra.is_empty() && !steps.iter().any(|s| matches!(s, Step::Killed(..))) {
            return Err(format!("after {s:?}, unexpected files {extra:?}"));
        }
    }
    Ok(h(&reports(&dir)))
}

fn list(dir: &Path, prefix: &str, out: &mut Vec<String>) {
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = format!("{prefix}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            list(&e.path(), &format!("{n}/"), out);
        } else {
            out.push(n);
        }
    }
}

pub fn run_independence(ctx: &Ctx) {
    let (refs, outs) = references(ctx);
    ctx.explore(
        "base",
        1,
        |c| Some(c.n(N)),
        |_, c| {
            c.iter()
                .map(|i| {
                    verdict(if outs[*i].code == 1 && !refs[*i].is_empty() {
                        Ok(h(&refs[*i]))
                    } else {
                        Err(format!("exit code {}: {}", outs[*i].code, outs[*i].stderr))
                    })
                })
                .collect()
        },
    );
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Vec<Step>> + Sync)| {
        ctx.explore(fam, 1, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check_history(wk, &refs, c))).collect());
    };
    // sequences of jobs in one run
    go("one_run", &|c| {
        let len = 1 + c.n(ctx.q(3, 4));
        Some(vec![Step::Run((0..len).map(|_| c.n(N)).collect())])
    });
    // histories of runs, with files in between
    go("histories", &|c| {
        let len = 2 + c.n(ctx.q(2, 3));
        let steps: Vec<Step> = (0..len)
            .map(|_| match c.n(9) {
                0 => Step::Run(vec![0]),
                1 => Step::Run(vec![4]),
                2 => Step::Run(vec![5, 2]),
                3 => Step::Run(vec![3, 1, 3]),
                4 => Step::Remove,
                k => Step::Fill(k - 5),
            })
            .collect();
        Some(steps)
    });
    // a run that is killed at every operation, and everything after it
    let mut kills = vec![];
    for (j, o) in outs.iter().enumerate() {
        for (op, i) in indexed(&o.ops) {
            match op.class {
                'w' => {
                    kills.push((j, format!("w{i}=K")));
                    if op.size > 1 && (ctx.thorough() || i % 3 == 0) {
                        kills.push((j, format!("w{i}=T{}", op.size / 2)));
                    }
                }
                'o' | 'c' | 'm' | 'r' | 'd' | 'n' | 'u' => kills.push((j, format!("{}{i}=K", op.class))),
                _ => {}
            }
        }
    }
    go("killed", &|c| {
        let (j, spec) = kills[c.n(kills.len())].clone();
        let before = if ctx.thorough() { c.n(3) } else { 2 };
        let mut s = match before {
            0 => vec![],
            1 => vec![Step::Run(vec![j])],
            _ => vec![Step::Fill(2)],
        };
        s.push(Step::Killed(j, spec));
        s.push(Step::Run(vec![j, (j + 1) % N]));
        Some(s)
    });
    settings(ctx, &refs);
    orders(ctx);
    crate::mixed::explore_orders(ctx);
    crate::surround::explore(ctx);
}

/// logging and how the program is called make no difference
fn settings(ctx: &Ctx, refs: &[Vec<u8>]) {
    ctx.explore(
        "settings",
        1,
        |c| {
            let j = c.n(N);
            let log: &str = *c.of(&["", "off", "error", "warn", "info", "debug", "trace", "reqtrace=trace", "nonsense=5=3"]);
            let flag: &str = *c.of(&["", "-q", "-ltrace", "-ldebug", "-loff", "--quiet"]);
            let twice = c.bool();
            Some((j, log.to_owned(), flag.to_owned(), twice))
        },
        |wk, cs| {
            cs.iter()
                .map(|(j, log, flag, twice)| {
                    let (files, mut config) = history_project();
                    let name = crate::fault::JOBS[*j].0;
                    if *twice {
                        config["jobs"][name]["file"] = json!("-");
                    }
                    let dir = fresh(wk, "s", &files);
                    write_config(&dir, &config);
                    let mut args = vec!["-c", "r.toml", "-b", "."];
                    if !flag.is_empty() {
                        args.push(flag);
                    }
                    args.push(name);
                    let o = cli(wk, &dir, &args, &Opt { env: &[("REQTRACE_LOG", log)], ..Opt::default() });
                    let got = if *twice { o.stdout.clone() } else { reports(&dir)[*j].clone().unwrap_or_default() };
                    verdict(if o.code != 1 {
                        Err(format!("exit code {}: {}", o.code, o.stderr))
                    } else if got != refs[*j] {
                        Err(format!("the report of {name} is different:\n expected {}\n actual   {}", String::from_utf8_lossy(&refs[*j]), String::from_utf8_lossy(&got)))
                    } else {
                        Ok(h(&(j, flag)))
                    })
                })
                .collect()
        },
    );
}

/// the order of artefacts and relations in the configuration
fn orders(ctx: &Ctx) {
    use crate::exec::*;
    use crate::world::*;
    const ALL: [(&str, &str); 6] = [PJ, PM, PT, TJ, TM, TG];
    let check = |wk: &mut Wk<'_>, (w, arts, rels): &(World, Vec<usize>, Vec<usize>)| -> Result<u64, String> {
        let a = run_world(wk, w, &ALL)?;
        let mut w2 = w.clone();
        w2.arts = arts.iter().map(|i| w.arts[*i].clone()).collect();
        w2.rels = rels.iter().map(|i| w.rels[*i].clone()).collect();
        let b = run_world(wk, &w2, &ALL)?;
        if a.code != b.code {
            return Err(format!("result {} becomes {} {}", a.code, b.code, b.msg));
        }
        if a.code == 2 {
            return Err(format!("the run failed: {}", a.msg));
        }
        let same = rels.iter().enumerate().all(|(i, r)| i == *r);
        for (i, j) in ALL.iter().enumerate() {
            let (mut x, mut y) = (a.files[i].clone(), b.files[i].clone());
            if !same && j.0 == "Trace" {
                // only the order in which relations are listed
                x = canon(*j, &x)?;
                y = canon(*j, &y)?;
            }
            if x != y {
                return Err(format!("{} depends on the order:\n {x}\n {y}", job_name(*j)));
            }
        }
        Ok(h(&a.files[0].len()))
    };
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<(World, Vec<usize>, Vec<usize>)> + Sync)| {
        ctx.explore(fam, 4, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check(wk, c))).collect());
    };
    go("orders", &|c| {
        // errors depend on the order in which duplicates across artefacts are met only by id
        let w = fam_mut(c, &[0, 1, 2, 3, 4, 5, 6, 7], 1)?;
        let few = w.arts.len() <= 3 && w.rels.len() <= 3 && ctx.thorough();
        let (arts, rels) = if few {
            (permutation(c, w.arts.len()), permutation(c, w.rels.len()))
        } else {
            (rotation(c, w.arts.len()), rotation(c, w.rels.len()))
        };
        let id = |v: &[usize]| v.iter().enumerate().all(|(i, x)| i == *x);
        if id(&arts) && id(&rels) {
            return None;
        }
        Some((w, arts, rels))
    });
    go("orders_dups", &|c| {
        let w = fam_dups(c, 3, 1, false)?;
        let arts = permutation(c, w.arts.len());
        let rels = permutation(c, w.rels.len());
        Some((w, arts, rels))
    });
}

/// some permutations: none, reversed, rotated
fn rotation(c: &mut Ch, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match c.n(3) {
        0 => {}
        1 => v.reverse(),
        _ => v.rotate_left(usize::from(n > 0)),
    }
    v
}

fn permutation(c: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| left.remove(c.n(left.len()))).collect()
}

/// a report with the parts that are listed per relation in a fixed order
pub fn canon(j: (&str, &str), text: &str) -> Result<String, String> {
    match j.1 {
        _ if j.0 == "Parse" => Ok(text.to_owned()),
        "Json" => {
            let mut v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
            let t = v.get_mut("trace").ok_or("no trace")?;
            for k in ["traced_relations", "errors"] {
                if let Some(a) = t.get_mut(k).and_then(Value::as_array_mut) {
                    a.sort_by_key(Value::to_string);
                }
            }
            Ok(v.to_string())
        }
        _ => {
            // the same lines
            let mut l: Vec<&str> = text.lines().collect();
            l.sort_unstable();
            Ok(l.join("\n"))
        }
    }
}
