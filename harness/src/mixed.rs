//! Projects with artefacts of all kinds: what is traced and reported is a function of what was
//! parsed, whatever parser it came from

use crate::core::*;
use crate::exec::*;
use crate::model::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fs;
use std::path::PathBuf;

/// an artefact: parser, files, paths, how many requirements and errors are read from it
struct Var {
    parser: &'static str,
    files: &'static [(&'static str, &'static [u8])],
    paths: &'static [&'static str],
    reqs: usize,
    errs: usize,
}

const fn var(
    parser: &'static str,
    files: &'static [(&'static str, &'static [u8])],
    paths: &'static [&'static str],
    reqs: usize,
    errs: usize,
) -> Var {
    Var {
        parser,
        files,
        paths,
        reqs,
        errs,
    }
}

const J_UP: &[u8] = br#"[{"id":"UP_1","title":"One","location":{"file":"x.y","location_in_file":{"String":"Sheet 1"}},"covers":[],"depends":[{"id":"LO_2","title":null,"location":{"file":"x.y","location_in_file":{"Line":7}}}],"tags":["t"],"attributes":{"Description":"text","Comment":"c"}},
{"id":"UP_2","title":null,"location":{"file":"x.y","location_in_file":null},"covers":[],"depends":[],"tags":[],"attributes":{}}]"#;
const J_LO: &[u8] = br#"{"version":0,"requirements":[{"id":"LO_1","title":"Lo one","location":{"file":"z","location_in_file":{"LineAndColumn":[3,4]}},"covers":[{"id":"UP_1","title":"One","location":{"file":"z","location_in_file":{"LineAndColumn":[3,9]}}}],"depends":[],"tags":[],"attributes":{}}],"errors":[]}"#;

const UPPER: [Var; 13] = [
    var("Markdown", &[("u.md", b"# UP_1: One\n\nText\n\n# UP_2: Two\n\nDepends:\n* LO_1\n* LO_2: Lo two\n")], &["u.md"], 2, 0),
    var("Markdown", &[("u.md", b"# UP_1: One\n\nCovers: XX_1\n\noops\n\n# UP_2: Two\n\nComment: a\nComment: b\n\n# UP_1: Again\n\n# End\n")], &["u.md"], 2, 3),
    var("Markdown", &[("u.md", b"no requirement\n")], &["u.md"], 0, 0),
    var("Markdown", &[], &["u.md"], 0, 1),
    var("MonoRequirement", &[("UP_1.md", b"One\n=> LO_1\n=> m::f\n=> LO_2: wrong\n")], &["UP_1.md"], 1, 0),
    var("MonoRequirement", &[("UP_1.txt", b"")], &["UP_1.txt"], 1, 0),
    var("Json", &[("u.json", J_UP)], &["u.json"], 2, 0),
    var("Json", &[("u.json", b"[{")], &["u.json"], 0, 1),
    var("Json", &[("u.json", b"{\"version\":7,\"requirements\":[]}")], &["u.json"], 0, 1),
    var("Rust", &[("a.rs", b"mod m { fn g() { requirement_covered!(UP_1); } }\n")], &["*.rs"], 1, 0),
    var("Rust", &[("a.rs", b"fn (\n"), ("b.rs", b"struct\n")], &["*.rs"], 0, 2),
    var("Markdown", &[("u.md", b"# UP_1: One\n"), ("v.md", b"")], &["u.md", "v.md"], 0, 1),
    var("Rust", &[], &[], 0, 1),
];

const LOWER: [Var; 18] = [
    var("Markdown", &[("l.md", b"# LO_1: Lo one\n\nCovers: UP_1\n\n# LO_2: Lo two\n\nCovers:\n* UP_1: One\n* UP_2: wrong\n* XX_1\n")], &["l.md"], 2, 0),
    var("Markdown", &[("l.md", b"# LO_1: Lo one\nCovers: UP_1\nbad\n\n# LO_2: Lo\n\nText\n\nCovers: UP_2, UP_1\nCovers: UP_1\n\n")], &["l.md"], 2, 2),
    var("Markdown", &[("l.md", b"# UP_1: The same\n\nCovers: UP_2\n\n# UP_1: And again\n")], &["l.md"], 1, 1),
    var("Rust", &[("a.rs", b"mod m {\n fn f() { requirement_covered!(UP_1); requirement_covered!(UP_2, \"Two\"); }\n fn g() { requirement_covered!(UP_1, \"wrong\"); }\n}\n")], &["*.rs"], 2, 0),
    var("Rust", &[("a.rs", b"mod m { fn f() { requirement_covered!(UP_1); } }\n"), ("b.rs", b"mod m { fn f() { requirement_covered!(UP_2); } }\n")], &["*.rs"], 1, 1),
    var("Rust", &[("a.rs", b"fn a() { requirement_covered!(UP_1); }\n"), ("b.rs", b"fn b() { requirement_covered!(UP_2); }\n"), ("c.rs", b"fn c() {}\n")], &["*.rs"], 2, 0),
    var("Rust", &[("a.rs", b"fn a() {\n"), ("b.rs", b"fn b() { requirement_covered!(); requirement_covered!(1 2 3); requirement_covered!(UP_2); }\n")], &["*.rs"], 1, 3),
    var("Rust", &[("a.rs", b"fn a() {\n"), ("b.rs", b"fn b() { requirement_covered!(); }\n")], &["*.rs"], 0, 2),
    var("Rust", &[("a.rs", b"fn a() {\n")], &["*.rs"], 0, 1),
    var("Rust", &[("a.rs", b"// \xff\n"), ("b.rs", b"fn b() { requirement_covered!(UP_1); }\n")], &["*.rs"], 1, 1),
    var("Rust", &[("a.rs", b"fn a() { requirement_covered!(UP_1); }\n")], &["a.rs", "none/*.rs", "missing.rs"], 1, 2),
    var("Rust", &[("a.rs", b"fn a() { requirement_covered!(UP_1); }\n")], &["a.rs", "***"], 1, 1),
    var("Rust", &[], &["none/*.rs"], 0, 1),
    var("MonoRequirement", &[("LO_1.md", b"# Lo one\n\n=> UP_1\n")], &["LO_1.md"], 1, 0),
    var("MonoRequirement", &[], &["LO_1.md"], 0, 1),
    var("Json", &[("l.json", J_LO)], &["l.json"], 1, 0),
    var("Json", &[], &["l.json"], 0, 1),
    var("Markdown", &[("l.md", b"")], &["l.md"], 0, 0),
];

#[derive(Clone, Debug, Hash)]
pub struct Case {
    up: usize,
    lo: usize,
    rels: usize,
    rwt: [Option<bool>; 2],
    ignore: Option<bool>,
    /// ids of the artefacts: which one comes first
    swap: bool,
}

fn gen(c: &mut Ch) -> Option<Case> {
    Some(Case {
        up: c.n(UPPER.len()),
        lo: c.n(LOWER.len()),
        rels: c.n(6),
        rwt: *c.of(&[[None, None], [Some(true), None], [None, Some(true)]]),
        ignore: *c.of(&[None, Some(false)]),
        swap: c.bool(),
    })
}

/// files, artefacts and relations of a case
fn project(wk: &mut Wk<'_>, c: &Case) -> (PathBuf, [&'static str; 2], Vec<Value>, Vec<Rel>) {
    let (u, l) = (&UPPER[c.up], &LOWER[c.lo]);
    let ids = if c.swap { ["Zup", "Low"] } else { ["Aup", "Low"] };
    let base = wk.dir.join("mixed");
    let mut arts: Vec<Value> = vec![];
    for (i, (slot, n, v)) in [("u", c.up, u), ("l", c.lo, l)].into_iter().enumerate() {
        let sub = format!("{slot}{n}");
        let dir = base.join(&sub);
        if !dir.exists() {
            fs::create_dir_all(&dir).unwrap();
            for (f, b) in v.files {
                fs::write(dir.join(f), b).unwrap();
            }
        }
        let paths: Vec<String> = v.paths.iter().map(|p| format!("{sub}/{p}")).collect();
        let mut a = json!({"id": ids[i], "paths": paths, "parser": v.parser});
        if let Some(b) = c.rwt[i] {
            a["reference_with_title"] = json!(b);
        }
        if let (1, Some(b)) = (i, c.ignore) {
            a["ignore_derived_requirements"] = json!(b);
        }
        arts.push(a);
    }
    let rel = |u: usize, l: &[usize]| Rel {
        upper: ids[u].to_owned(),
        lower: l.iter().map(|l| ids[*l].to_owned()).collect(),
    };
    let rels = match c.rels {
        0 => vec![rel(0, &[1])],
        1 => vec![],
        2 => vec![rel(1, &[0])],
        3 => vec![rel(0, &[1]), rel(1, &[0])],
        4 => vec![rel(0, &[0, 1])],
        _ => vec![rel(0, &[1]), rel(1, &[1])],
    };
    (base, ids, arts, rels)
}

fn config_of(arts: &[Value], rels: &[Rel]) -> Value {
    json!({"artefacts": arts, "relations": rels.iter().map(|r| json!({"upper": r.upper, "lower": r.lower})).collect::<Vec<_>>()})
}

/// the order of artefacts makes no difference, and that of relations next to none
fn check_order(wk: &mut Wk<'_>, c: &Case) -> Result<u64, String> {
    const ALL: [(&str, &str); 6] = [PJ, PM, PT, TJ, TM, TG];
    let (base, _, mut arts, mut rels) = project(wk, c);
    wk.runs += 3;
    let a = run(&base, config_of(&arts, &rels), &ALL)?;
    if a.code == 2 {
        return Err(format!("the run failed: {}", a.msg));
    }
    arts.reverse();
    let b = run(&base, config_of(&arts, &rels), &ALL)?;
    for (i, j) in ALL.iter().enumerate() {
        if (a.code, &a.files[i]) != (b.code, &b.files[i]) {
            return Err(format!("the {} {} report depends on the order of artefacts:\n {}\n {}", j.0, j.1, a.files[i], b.files[i]));
        }
    }
    rels.reverse();
    let b = run(&base, config_of(&arts, &rels), &ALL)?;
    for (i, j) in ALL.iter().enumerate() {
        let (x, y) = (crate::runs::canon(*j, &a.files[i])?, crate::runs::canon(*j, &b.files[i])?);
        if (a.code, &x) != (b.code, &y) {
            return Err(format!("the {} {} report depends on the order of relations:\n {x}\n {y}", j.0, j.1));
        }
    }
    Ok(h(&a.files))
}

pub fn explore_orders(ctx: &Ctx) {
    ctx.explore("orders_mixed", 8, |c| gen(c).filter(|c| ctx.thorough() || c.ignore.is_none()), |wk, cs| {
        cs.iter().map(|c| crate::cli::verdict(check_order(wk, c))).collect()
    });
}

fn check(wk: &mut Wk<'_>, p: P, c: &Case) -> Result<u64, String> {
    let (u, l) = (&UPPER[c.up], &LOWER[c.lo]);
    let (base, ids, arts, rels) = project(wk, c);
    let config = config_of(&arts, &rels);
    let mut jobs = jobs_for(p).to_vec();
    let known = jobs.iter().position(|j| *j == TJ).unwrap_or_else(|| {
        jobs.push(TJ);
        jobs.len() - 1
    });
    wk.runs += 1;
    let out = run(&base, config, &jobs)?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let j = facts_from_json(&out.files[known])?;
    // what was parsed is what it should be, as far as numbers go
    let mut w = World {
        arts: vec![],
        rels,
    };
    for (i, v) in [u, l].into_iter().enumerate() {
        let (Some(reqs), Some(errs)) = (j.reqs.get(ids[i]), j.art_errs.get(ids[i])) else {
            return Err(format!("artefact {} is missing", ids[i]));
        };
        let n = errs.iter().filter(|e| !matches!(e, Er::NoTitle(..))).count();
        if (reqs.len(), n) != (v.reqs, v.errs) {
            return Err(format!(
                "artefact {}: {} requirements and {n} errors instead of {} and {}: {reqs:?} {errs:?}",
                ids[i],
                reqs.len(),
                v.reqs,
                v.errs
            ));
        }
        let mut a = Art::new(ids[i]);
        a.reqs = reqs.clone();
        a.rwt = c.rwt[i];
        if i == 1 {
            a.ignore = c.ignore;
        }
        w.arts.push(a);
    }
    let prefix = format!("{}/", base.display());
    let mut x = trace(&w, &prefix);
    wk.count("model_steps", x.steps);
    for (a, errs) in &j.art_errs {
        let read: BTreeSet<Er> = errs.iter().filter(|e| !matches!(e, Er::NoTitle(..))).cloned().collect();
        x.dups.extend(read.iter().filter(|e| matches!(e, Er::Dup(..))).cloned());
        x.art_errs.entry(a.clone()).or_default().extend(read);
    }
    x.dups.sort();
    if p == P::C12 {
        if out.code != i32::from(x.any_problem()) {
            return Err(format!("result code {} for {x:?}", out.code));
        }
        return Ok(h(&x));
    }
    let ids: Vec<String> = ids.iter().map(|i| (*i).to_owned()).collect();
    judge_reports(p, &ids, &x, &out, &prefix)
}

pub fn explore(ctx: &Ctx, p: P) {
    ctx.explore("mixed", 8, gen, |wk, cs| {
        cs.iter()
            .map(|c| match check(wk, p, c) {
                Ok(o) => Verdict::Held(o),
                Err(e) => Verdict::Bad(e),
            })
            .collect()
    });
}
