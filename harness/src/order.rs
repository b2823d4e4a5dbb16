//! Which of two definitions of an id came first, in all reports (C06)

use crate::core::*;
use crate::exec::*;
use crate::model::*;
use serde_json::{json, Value};
use std::fs;

/// files of the definitions, per artefact (in order of their ids), and how far apart their lines are
#[derive(Clone, Debug, Hash)]
struct Case {
    arts: Vec<Vec<String>>,
}

fn gen(ch: &mut Ch) -> Option<Case> {
    let mut arts = vec![];
    let mut n = 0;
    for _ in 0..2 {
        let mut locs = vec![];
        for _ in 0..ch.n(4) {
            // lines and files whose names sort in all ways
            let file = *ch.of(&["m", "a", "z"]);
            let line = *ch.of(&[50usize, 9]);
            n += 1;
            locs.push(format!("{file}.x:{}", line + n));
        }
        arts.push(locs);
    }
    (n > 1).then_some(Case { arts })
}

fn check(wk: &mut Wk<'_>, c: &Case) -> Verdict {
    let dir = wk.dir.clone();
    // (first, later)
    let mut expected: Vec<(String, String)> = vec![];
    for a in &c.arts {
        for l in a.iter().skip(1) {
            expected.push((a[0].clone(), l.clone()));
        }
    }
    if let (Some(a), Some(b)) = (c.arts[0].first(), c.arts[1].first()) {
        expected.push((a.clone(), b.clone()));
    }
    expected.sort();
    let mut artefacts = vec![];
    for (name, locs) in ["a", "b"].iter().zip(&c.arts) {
        let reqs: Vec<Value> = locs
            .iter()
            .map(|l| {
                let (f, n) = l.split_once(':').unwrap();
                Req::new("REQ", Some("T"), Loc::line(f, n.parse().unwrap())).json()
            })
            .collect();
        fs::write(dir.join(format!("{name}.json")), Value::Array(reqs).to_string()).unwrap();
        artefacts.push(json!({"id": name, "paths": [format!("{name}.json")], "parser": "Json"}));
    }
    wk.runs += 1;
    let out = match run(&dir, json!({"artefacts": artefacts, "relations": []}), &[TG, TM, PM]) {
        Ok(o) => o,
        Err(e) => return Verdict::Bad(e),
    };
    let mut gnu = vec![];
    for (l, next) in out.files[0].lines().zip(out.files[0].lines().skip(1)) {
        if let (Some((later, _)), Some((first, _))) = (l.split_once(": Duplicate Requirement: REQ"), next.split_once(": note: previously seen here")) {
            gnu.push((first.to_owned(), later.to_owned()));
        }
    }
    gnu.sort();
    if gnu != expected {
        return Verdict::Bad(format!("GNU report: expected (first, later) {expected:?}, it says {gnu:?}"));
    }
    let swapped = |v: &[(String, String)]| {
        let mut s: Vec<_> = v.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
        s.sort();
        s
    };
    let mut known = false;
    for (what, text) in [("Trace", &out.files[1]), ("Parse", &out.files[2])] {
        let place = |l: &str, lead: &str| l.trim().strip_prefix(lead)?.trim().strip_prefix('[')?.split_once(']').map(|x| x.0.to_owned());
        let mut md = vec![];
        for (l, next) in text.lines().zip(text.lines().skip(1)) {
            if let (Some(a), Some(b)) = (place(l, "first seen in"), place(next, "then again in")) {
                md.push((a, b));
            }
        }
        md.sort();
        // the Parse report knows of the duplicates within artefacts only
        let mut want = expected.clone();
        if what == "Parse" {
            want.retain(|(a, b)| c.arts.iter().any(|l| l.contains(a) && l.contains(b)));
        }
        if md == want && md != swapped(&want) {
            continue;
        }
        if md != swapped(&want) {
            return Verdict::Bad(format!("Markdown report of {what}: expected (first, later) {want:?}, it says {md:?}"));
        }
        known |= !md.is_empty();
    }
    if known {
        return Verdict::Known("K3 the Markdown reports swap the first and the later definition of an id".into());
    }
    Verdict::Held(h(&expected.len()))
}

pub fn explore(ctx: &Ctx) {
    ctx.explore("order", 8, gen, |wk, cs| cs.iter().map(|c| check(wk, c)).collect());
}
