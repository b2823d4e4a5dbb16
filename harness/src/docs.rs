//! Running many small input files through the real parsers at once

use crate::core::*;
use crate::exec::*;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;

#[derive(Clone, Hash, PartialEq, Eq)]
pub struct Doc {
    pub name: String, // file name, unique within a batch is not required
    pub bytes: Vec<u8>,
}

impl std::fmt::Debug for Doc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: ", self.name)?;
        match std::str::from_utf8(&self.bytes) {
            Ok(s) => write!(f, "{s:?}"),
            Err(_) => write!(f, "b{:?}", self.bytes),
        }
    }
}

pub type Parsed = (Vec<Req>, Vec<Er>);

/// Parse every document as an artefact of its own. Paths in the result are relative to the
/// document's directory, that is, the name of the document.
pub fn run_docs(wk: &mut Wk<'_>, parser: &str, docs: &[Doc]) -> Result<Vec<Parsed>, String> {
    let mut arts: Vec<Value> = vec![];
    let mut index: BTreeMap<String, usize> = BTreeMap::new();
    let base = wk.dir.display().to_string();
    for (i, d) in docs.iter().enumerate() {
        let sub = wk.dir.join(format!("d{i}"));
        let path = sub.join(&d.name);
        if fs::write(&path, &d.bytes).is_err() {
            fs::create_dir_all(&sub).unwrap();
            fs::write(&path, &d.bytes).unwrap();
        }
        let rel = format!("d{i}/{}", d.name);
        index.insert(format!("{base}/{rel}"), i);
        arts.push(json!({"id": format!("D{i}"), "paths": [rel], "parser": parser}));
    }
    wk.runs += docs.len() as u64;
    let dir = wk.dir.clone();
    let out = run(&dir, json!({"artefacts": arts, "relations": []}), &[PJ])?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let (reqs, errs, _) = parse_report(&out.files[0])?;
    let mut res: Vec<Parsed> = docs.iter().map(|_| (vec![], vec![])).collect();
    let fix = |l: &mut Loc| -> Option<usize> {
        let i = *index.get(&l.file)?;
        l.file = docs[i].name.clone();
        Some(i)
    };
    for mut r in reqs {
        let Some(i) = fix(&mut r.loc) else {
            return Err(format!("requirement at an unknown place: {r:?}"));
        };
        // marks outside of any item belong to the file
        if r.id == format!("{base}/d{i}/{}", docs[i].name) {
            r.id = docs[i].name.clone();
        }
        for x in r.covers.iter_mut().chain(&mut r.depends) {
            if fix(&mut x.loc) != Some(i) {
                return Err(format!("reference at an unknown place: {x:?}"));
            }
        }
        res[i].0.push(r);
    }
    for mut e in errs {
        let i = match &mut e {
            Er::Dup(_, a, b) => {
                let i = fix(a);
                if i != fix(b) {
                    None
                } else {
                    i
                }
            }
            Er::Format(l) | Er::DupAttr(l, _, _) => fix(l),
            Er::Io(f) => {
                let i = index.get(f).copied();
                if let Some(i) = i {
                    *f = docs[i].name.clone();
                }
                i
            }
            _ => None,
        };
        match i {
            Some(i) => res[i].1.push(e),
            None => return Err(format!("error at an unknown place: {e:?}")),
        }
    }
    if out.code != i32::from(res.iter().any(|r| !r.1.is_empty())) {
        return Err(format!("result code {} does not fit the errors", out.code));
    }
    Ok(res)
}

/// Check each document with `judge`. When a batch fails as a whole, its documents are run one by
/// one.
pub fn check_docs<T>(
    wk: &mut Wk<'_>,
    parser: &str,
    cases: &[T],
    doc: impl Fn(&T) -> Doc,
    judge: impl Fn(&T, &Parsed) -> Verdict,
) -> Vec<Verdict> {
    let docs: Vec<Doc> = cases.iter().map(&doc).collect();
    match run_docs(wk, parser, &docs) {
        Ok(p) => cases.iter().zip(&p).map(|(c, p)| judge(c, p)).collect(),
        Err(e) if cases.len() == 1 => vec![Verdict::Bad(e)],
        Err(_) => docs
            .iter()
            .zip(cases)
            .map(|(d, c)| match run_docs(wk, parser, std::slice::from_ref(d)) {
                Ok(p) => judge(c, &p[0]),
                Err(e) => Verdict::Bad(e),
            })
            .collect(),
    }
}

/// Explore documents
pub fn explore_docs<T: Send + std::fmt::Debug + std::hash::Hash>(
    ctx: &Ctx,
    family: &str,
    parser: &str,
    gen: impl Fn(&mut Ch) -> Option<T> + Sync,
    doc: impl Fn(&T) -> Doc + Sync,
    judge: impl Fn(&T, &Parsed) -> Verdict + Sync,
) {
    ctx.explore(family, 64, gen, |wk, cases| {
        check_docs(wk, parser, cases, &doc, &judge)
    });
}

/// texts are compared without regard to the kind of line ends, blanks in blank lines, and line
/// ends at the end
pub fn norm_text(s: &str) -> String {
    let mut out: Vec<&str> = s
        .split('\n')
        .map(|l| l.strip_suffix('\r').unwrap_or(l))
        .map(|l| if l.trim().is_empty() { "" } else { l })
        .collect();
    while out.last().is_some_and(|l| l.is_empty()) {
        out.pop();
    }
    out.join("\n")
}

pub fn norm_req(r: &Req) -> Req {
    let mut r = r.clone();
    for v in r.attrs.values_mut() {
        *v = norm_text(v);
    }
    r
}
