//! The reference model: worlds (artefacts, requirements, references, relations) and what a trace
//! of them has to say, computed in the most boring way, straight from the property statements.

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum Pos {
    None,
    Line(u64),
    Col(u64, u64),
    Str(String),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Loc {
    pub file: String,
    pub pos: Pos,
}

impl Loc {
    pub fn line(file: &str, line: u64) -> Loc {
        Loc {
            file: file.into(),
            pos: Pos::Line(line),
        }
    }
    pub fn show(&self) -> String {
        match &self.pos {
            Pos::None => self.file.clone(),
            Pos::Line(l) => format!("{}:{l}", self.file),
            Pos::Col(l, c) => format!("{}:{l}:{c}", self.file),
            Pos::Str(s) => format!("{}:{s}", self.file),
        }
    }
    pub fn json(&self) -> Value {
        let p = match &self.pos {
            Pos::None => Value::Null,
            Pos::Line(l) => json!({ "Line": l }),
            Pos::Col(l, c) => json!({"LineAndColumn":[l,c]}),
            Pos::Str(s) => json!({ "String": s }),
        };
        json!({"file": self.file, "location_in_file": p})
    }
    pub fn from_json(v: &Value) -> Option<Loc> {
        let file = v.get("file")?.as_str()?.to_owned();
        let p = v.get("location_in_file")?;
        let pos = if p.is_null() {
            Pos::None
        } else if let Some(l) = p.get("Line") {
            Pos::Line(l.as_u64()?)
        } else if let Some(l) = p.get("LineAndColumn") {
            Pos::Col(l.get(0)?.as_u64()?, l.get(1)?.as_u64()?)
        } else {
            Pos::Str(p.get("String")?.as_str()?.to_owned())
        };
        Some(Loc { file, pos })
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ref {
    pub id: String,
    pub title: Option<String>,
    pub loc: Loc,
}

impl Ref {
    fn json(&self) -> Value {
        json!({"id": self.id, "title": self.title, "location": self.loc.json()})
    }
    fn from_json(v: &Value) -> Option<Ref> {
        Some(Ref {
            id: v.get("id")?.as_str()?.to_owned(),
            title: opt_str(v.get("title")?)?,
            loc: Loc::from_json(v.get("location")?)?,
        })
    }
}

fn opt_str(v: &Value) -> Option<Option<String>> {
    if v.is_null() {
        Some(None)
    } else {
        Some(Some(v.as_str()?.to_owned()))
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Req {
    pub id: String,
    pub title: Option<String>,
    pub loc: Loc,
    pub covers: Vec<Ref>,
    pub depends: Vec<Ref>,
    pub tags: Vec<String>,
    pub attrs: BTreeMap<String, String>,
}

impl Req {
    pub fn new(id: &str, title: Option<&str>, loc: Loc) -> Req {
        Req {
            id: id.into(),
            title: title.map(Into::into),
            loc,
            covers: vec![],
            depends: vec![],
            tags: vec![],
            attrs: BTreeMap::new(),
        }
    }
    pub fn json(&self) -> Value {
        json!({"id": self.id, "title": self.title, "location": self.loc.json(),
            "covers": self.covers.iter().map(Ref::json).collect::<Vec<_>>(),
            "depends": self.depends.iter().map(Ref::json).collect::<Vec<_>>(),
            "tags": self.tags, "attributes": self.attrs})
    }
    pub fn from_json(v: &Value) -> Option<Req> {
        let refs = |k: &str| -> Option<Vec<Ref>> {
            v.get(k)?.as_array()?.iter().map(Ref::from_json).collect()
        };
        Some(Req {
            id: v.get("id")?.as_str()?.to_owned(),
            title: opt_str(v.get("title")?)?,
            loc: Loc::from_json(v.get("location")?)?,
            covers: refs("covers")?,
            depends: refs("depends")?,
            tags: v
                .get("tags")?
                .as_array()?
                .iter()
                .map(|t| t.as_str().map(str::to_owned))
                .collect::<Option<_>>()?,
            attrs: v
                .get("attributes")?
                .as_object()?
                .iter()
                .map(|(k, v)| Some((k.clone(), v.as_str()?.to_owned())))
                .collect::<Option<_>>()?,
        })
    }
}

/// Where the requirements of an artefact come from
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Src {
    Good,
    /// the file does not exist
    Missing,
    /// the file has a syntax error
    Broken,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Art {
    pub id: String,
    pub reqs: Vec<Req>,
    pub src: Src,
    pub ignore: Option<bool>,
    pub rwt: Option<bool>,
}

impl Art {
    pub fn new(id: &str) -> Art {
        Art {
            id: id.into(),
            reqs: vec![],
            src: Src::Good,
            ignore: None,
            rwt: None,
        }
    }
    pub fn file(&self) -> String {
        match self.src {
            Src::Good => format!("in_{}.json", self.id),
            Src::Missing => format!("missing_{}.json", self.id),
            Src::Broken => format!("broken_{}.json", self.id),
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rel {
    pub upper: String,
    pub lower: Vec<String>,
}

impl Rel {
    pub fn new(u: &str, l: &[&str]) -> Rel {
        Rel {
            upper: u.into(),
            lower: l.iter().map(|s| (*s).to_owned()).collect(),
        }
    }
    pub fn key(&self) -> Vec<String> {
        let mut k = vec![self.upper.clone()];
        k.extend(self.lower.iter().cloned());
        k
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct World {
    pub arts: Vec<Art>,
    pub rels: Vec<Rel>,
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum Dir {
    Up,
    Down,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum Er {
    /// locations of the first and the later definition
    Dup(String, Loc, Loc),
    NoTitle(String, Loc),
    Io(String),
    Format(Loc),
    DupAttr(Loc, String, String),
    Config,
    WrongTitle {
        dir: Dir,
        upper: String,
        lower: String,
        wrong: String,
        actual: Option<String>,
        loc: Loc,
    },
    RefNoTitle {
        id: String,
        loc: Loc,
    },
    Unknown {
        dir: Dir,
        req: String,
        id: String,
        loc: Loc,
    },
    Unused(Rel),
    Other(String),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cover {
    pub upper: String,
    pub lower: String,
    pub loc: Loc,
    pub dir: Dir,
}

#[derive(Clone, Debug, Default, Hash, PartialEq, Eq)]
pub struct RelFacts {
    pub covered: Vec<Cover>,    // sorted
    pub uncovered: Vec<String>, // sorted
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Facts {
    /// per artefact: requirements in order
    pub reqs: BTreeMap<String, Vec<Req>>,
    pub art_errs: BTreeMap<String, BTreeSet<Er>>,
    pub errs: BTreeSet<Er>,
    /// in order of configuration
    pub rels: Vec<(Rel, RelFacts)>,
    pub derived: BTreeMap<String, BTreeSet<String>>,
    /// every report of a duplicate definition (sorted)
    pub dups: Vec<Er>,
    /// some id is defined in two artefacts
    pub cross_dup: bool,
    pub steps: u64,
}

impl Facts {
    pub fn any_art_err(&self) -> bool {
        self.art_errs.values().any(|e| !e.is_empty())
    }
    pub fn any_problem(&self) -> bool {
        self.any_art_err()
            || !self.errs.is_empty()
            || self.rels.iter().any(|r| !r.1.uncovered.is_empty())
            || self.derived.values().any(|d| !d.is_empty())
    }
}

/// The trace of a world, by definition. `prefix` is the base directory, with a slash.
pub fn trace(w: &World, prefix: &str) -> Facts {
    let mut f = Facts::default();
    let mut steps = 0;
    // artefacts, in order of their ids
    let mut arts: Vec<&Art> = w.arts.iter().collect();
    arts.sort_by(|a, b| a.id.cmp(&b.id));
    // kept: the first definition of every id in an artefact
    let mut kept: BTreeMap<&str, Vec<&Req>> = BTreeMap::new();
    for a in &arts {
        let errs = f.art_errs.entry(a.id.clone()).or_default();
        let k = kept.entry(&a.id).or_default();
        match a.src {
            Src::Missing => {
                errs.insert(Er::Io(format!("{prefix}{}", a.file())));
            }
            Src::Broken => {
                errs.insert(Er::Format(Loc {
                    file: format!("{prefix}{}", a.file()),
                    pos: Pos::None,
                }));
            }
            Src::Good => {
                for r in &a.reqs {
                    if let Some(first) = k.iter().find(|x| x.id == r.id) {
                        let e = Er::Dup(r.id.clone(), first.loc.clone(), r.loc.clone());
                        f.dups.push(e.clone());
                        errs.insert(e);
                    } else {
                        k.push(r);
                    }
                }
                k.sort_by(|a, b| a.id.cmp(&b.id));
                if a.rwt == Some(true) {
                    for r in k.iter() {
                        if r.title.is_none() {
                            errs.insert(Er::NoTitle(r.id.clone(), r.loc.clone()));
                        }
                    }
                }
            }
        }
        f.reqs
            .insert(a.id.clone(), k.iter().map(|r| (*r).clone()).collect());
    }
    // owners: the first artefact that defines an id
    let mut owner: BTreeMap<&str, (&str, &Req)> = BTreeMap::new();
    for a in &arts {
        for r in &kept[a.id.as_str()] {
            if let Some((_, first)) = owner.get(r.id.as_str()) {
                let e = Er::Dup(r.id.clone(), first.loc.clone(), r.loc.clone());
                f.dups.push(e.clone());
                f.errs.insert(e);
                f.cross_dup = true;
            } else {
                owner.insert(&r.id, (&a.id, r));
            }
        }
    }
    f.dups.sort();
    let owned = |art: &str, r: &Req| owner.get(r.id.as_str()).is_some_and(|o| o.0 == art);
    let rwt = |art: &str| {
        w.arts
            .iter()
            .find(|a| a.id == art)
            .and_then(|a| a.rwt)
            .unwrap_or(false)
    };

    let mut covering: BTreeSet<&str> = BTreeSet::new(); // requirements that cover something
    let mut resolved: BTreeSet<(Dir, &str, &str)> = BTreeSet::new(); // (dir, from, to)
    for rel in &w.rels {
        let mut rf = RelFacts::default();
        for u in &kept[rel.upper.as_str()] {
            let mut is_covered = false;
            for lo in &rel.lower {
                for d in &kept[lo.as_str()] {
                    if !owned(lo, d) {
                        continue;
                    }
                    let mut refs: Vec<(Dir, &Ref, &Req, &str)> = vec![];
                    for r in &u.depends {
                        steps += 1;
                        if r.id == d.id {
                            refs.push((Dir::Down, r, d, lo));
                            resolved.insert((Dir::Down, &u.id, &d.id));
                        }
                    }
                    for r in &d.covers {
                        steps += 1;
                        if r.id == u.id {
                            refs.push((Dir::Up, r, u, &rel.upper));
                            resolved.insert((Dir::Up, &d.id, &u.id));
                        }
                    }
                    for (dir, r, target, target_art) in refs {
                        is_covered = true;
                        covering.insert(&d.id);
                        rf.covered.push(Cover {
                            upper: u.id.clone(),
                            lower: d.id.clone(),
                            loc: r.loc.clone(),
                            dir,
                        });
                        match &r.title {
                            Some(t) => {
                                if Some(t) != target.title.as_ref() {
                                    f.errs.insert(Er::WrongTitle {
                                        dir,
                                        upper: u.id.clone(),
                                        lower: d.id.clone(),
                                        wrong: t.clone(),
                                        actual: target.title.clone(),
                                        loc: r.loc.clone(),
                                    });
                                }
                            }
                            None => {
                                if rwt(target_art) {
                                    f.errs.insert(Er::RefNoTitle {
                                        id: target.id.clone(),
                                        loc: r.loc.clone(),
                                    });
                                }
                            }
                        }
                    }
                }
            }
            if !is_covered {
                rf.uncovered.push(u.id.clone());
            }
        }
        if rf.covered.is_empty() {
            f.errs.insert(Er::Unused(rel.clone()));
        }
        rf.covered.sort();
        rf.uncovered.sort();
        f.rels.push((rel.clone(), rf));
    }
    for (id, (art, r)) in &owner {
        for (dir, list) in [(Dir::Up, &r.covers), (Dir::Down, &r.depends)] {
            let mut seen = BTreeSet::new();
            for rf in list {
                if seen.insert(&rf.id) && !resolved.contains(&(dir, id, &rf.id)) {
                    f.errs.insert(Er::Unknown {
                        dir,
                        req: r.id.clone(),
                        id: rf.id.clone(),
                        loc: rf.loc.clone(),
                    });
                }
            }
        }
        let a = w.arts.iter().find(|a| a.id == *art).unwrap();
        let root = !w.rels.iter().any(|r| r.lower.contains(&a.id));
        if !a.ignore.unwrap_or(root) && !covering.contains(id) {
            f.derived
                .entry(a.id.clone())
                .or_default()
                .insert(r.id.clone());
        }
    }
    f.steps = steps;
    f
}

// ---------------------------------------------------------------------------------------------
// JSON reports

fn er_from_json(v: &Value) -> Option<Er> {
    let o = v.as_object()?;
    let (k, v) = o.iter().next()?;
    let rid = |v: &Value| v.get("id")?.as_str().map(str::to_owned);
    let rloc = |v: &Value| Loc::from_json(v.get("location")?);
    Some(match k.as_str() {
        "DuplicateRequirement" => Er::Dup(rid(v.get(0)?)?, rloc(v.get(0)?)?, rloc(v.get(1)?)?),
        "RequirementWithoutTitle" => Er::NoTitle(rid(v)?, rloc(v)?),
        "Io" => Er::Io(v.get(0)?.as_str()?.to_owned()),
        "Format" => Er::Format(Loc::from_json(v.get(0)?)?),
        "DuplicateAttribute" => Er::DupAttr(
            Loc::from_json(v.get(0)?)?,
            v.get(1)?.as_str()?.to_owned(),
            v.get(2)?.as_str()?.to_owned(),
        ),
        "Config" => Er::Config,
        "CoveredWithWrongTitle" | "DependWithWrongTitle" => {
            let dir = if k.starts_with('C') {
                Dir::Up
            } else {
                Dir::Down
            };
            let target = v.get(if dir == Dir::Up { "upper" } else { "lower" })?;
            Er::WrongTitle {
                dir,
                upper: rid(v.get("upper")?)?,
                lower: rid(v.get("lower")?)?,
                wrong: v.get("wrong_title")?.as_str()?.to_owned(),
                actual: opt_str(target.get("title")?)?,
                loc: Loc::from_json(v.get("location")?)?,
            }
        }
        "ReferencedWithoutTitle" => Er::RefNoTitle {
            id: rid(v.get("referenced")?)?,
            loc: Loc::from_json(v.get("location")?)?,
        },
        "CoversUnknownRequirement" | "DependOnUnknownRequirement" => Er::Unknown {
            dir: if k.starts_with('C') {
                Dir::Up
            } else {
                Dir::Down
            },
            req: rid(v.get(0)?)?,
            id: v.get(1)?.as_str()?.to_owned(),
            loc: Loc::from_json(v.get(2)?)?,
        },
        "UnusedRelation" => Er::Unused(Rel {
            upper: v.get("upper")?.as_str()?.to_owned(),
            lower: v
                .get("lower")?
                .as_array()?
                .iter()
                .map(|x| x.as_str().map(str::to_owned))
                .collect::<Option<_>>()?,
        }),
        _ => Er::Other(v.to_string()),
    })
}

pub fn er_json(v: &Value) -> Er {
    er_from_json(v).unwrap_or_else(|| Er::Other(v.to_string()))
}

/// Facts of a JSON trace report
pub fn facts_from_json(text: &str) -> Result<Facts, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("JSON trace report: {e}"))?;
    let bad = || format!("JSON trace report has an unexpected structure: {text}");
    let t = v.get("trace").ok_or_else(bad)?;
    let mut f = Facts::default();
    let inner = || -> Option<Facts> {
        for (id, a) in t.get("artefacts")?.as_object()? {
            if a.get("id")?.as_str()? != id {
                return None;
            }
            let mut reqs = vec![];
            for (rid, r) in a.get("requirements")?.as_object()? {
                let r = Req::from_json(r)?;
                if &r.id != rid {
                    return None;
                }
                reqs.push(r);
            }
            f.reqs.insert(id.clone(), reqs);
            let errs: Vec<Er> = a.get("errors")?.as_array()?.iter().map(er_json).collect();
            f.dups.extend(errs.iter().filter(|e| matches!(e, Er::Dup(..))).cloned());
            f.art_errs.insert(id.clone(), errs.into_iter().collect());
        }
        for r in t.get("traced_relations")?.as_array()? {
            let rel = Rel {
                upper: r.get("upper")?.as_str()?.to_owned(),
                lower: r
                    .get("lower")?
                    .as_array()?
                    .iter()
                    .map(|x| x.as_str().map(str::to_owned))
                    .collect::<Option<_>>()?,
            };
            let mut rf = RelFacts::default();
            for c in r.get("covered")?.as_array()? {
                rf.covered.push(Cover {
                    upper: c.get("upper")?.as_str()?.to_owned(),
                    lower: c.get("lower")?.as_str()?.to_owned(),
                    loc: Loc::from_json(c.get("location")?)?,
                    dir: match c.get("direction")?.as_str()? {
                        "Upwards" => Dir::Up,
                        "Downwards" => Dir::Down,
                        _ => return None,
                    },
                });
            }
            for u in r.get("uncovered")?.as_array()? {
                rf.uncovered.push(u.as_str()?.to_owned());
            }
            rf.covered.sort();
            rf.uncovered.sort();
            f.rels.push((rel, rf));
        }
        for (a, d) in t.get("derived")?.as_object()? {
            let d = d.as_array()?;
            let set: BTreeSet<String> = d
                .iter()
                .map(|x| x.as_str().map(str::to_owned))
                .collect::<Option<_>>()?;
            if set.len() != d.len() {
                return None;
            }
            if !set.is_empty() {
                f.derived.insert(a.clone(), set);
            }
        }
        let errs: Vec<Er> = t.get("errors")?.as_array()?.iter().map(er_json).collect();
        f.dups.extend(errs.iter().filter(|e| matches!(e, Er::Dup(..))).cloned());
        f.dups.sort();
        f.errs = errs.into_iter().collect();
        Some(std::mem::take(&mut f))
    }();
    inner.ok_or_else(bad)
}

/// (requirements in order, errors in order) of a JSON Parse report
pub fn parse_report(text: &str) -> Result<(Vec<Req>, Vec<Er>, u64), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("JSON parse report: {e}"))?;
    (|| {
        let reqs = v
            .get("requirements")?
            .as_array()?
            .iter()
            .map(Req::from_json)
            .collect::<Option<Vec<_>>>()?;
        let errs = v.get("errors")?.as_array()?.iter().map(er_json).collect();
        let ver = v.get("version")?.as_u64()?;
        Some((reqs, errs, ver))
    })()
    .ok_or_else(|| format!("JSON parse report has an unexpected structure: {text}"))
}

// ---------------------------------------------------------------------------------------------
// text reports

/// `[text](target)` and `[text](target "title")` become `text`
pub fn delink(s: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ']' && b.get(i + 1) == Some(&'(') {
            // skip the target
            let mut j = i + 2;
            let mut quoted = false;
            while j < b.len() && b[j] != '\n' {
                if b[j] == '"' {
                    quoted = !quoted;
                }
                if b[j] == ')' && !quoted {
                    break;
                }
                j += 1;
            }
            // remove the opening bracket
            if let Some(p) = out.rfind('[') {
                out.remove(p);
            }
            i = j + 1;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// byte offsets at which `tok` occurs, not as part of a longer word
fn token_at(text: &str, tok: &str) -> Vec<usize> {
    let mut r = vec![];
    if tok.is_empty() {
        return r;
    }
    let mut from = 0;
    while let Some(p) = text[from..].find(tok) {
        let at = from + p;
        let before = text[..at].chars().next_back();
        let mut after = text[at + tok.len()..].chars();
        let a1 = after.next();
        let a2 = after.next();
        let first = tok.chars().next().unwrap();
        let last = tok.chars().next_back().unwrap();
        let ok_before = !(wordy(first) && before.is_some_and(|c| wordy(c) || c == '/' || c == '.'));
        let ok_after = !(wordy(last)
            && (a1.is_some_and(wordy)
                || (a1 == Some(':') && a2.is_some_and(|c| c.is_ascii_digit()))));
        if ok_before && ok_after {
            r.push(at);
        }
        from = at + text[at..].chars().next().unwrap().len_utf8();
    }
    r
}

pub fn has_token(text: &str, tok: &str) -> bool {
    !token_at(text, tok).is_empty()
}

/// artefact ids in a text, in order
pub fn art_ids_in(text: &str, arts: &[String]) -> Vec<String> {
    let mut found: Vec<(usize, String)> = vec![];
    for a in arts {
        for p in token_at(text, a) {
            found.push((p, a.clone()));
        }
    }
    found.sort();
    found.into_iter().map(|f| f.1).collect()
}

/// `a` stands in the text, and `b` behind (the start of) it
fn in_order(text: &str, a: &str, b: &str) -> bool {
    match (text.find(a), text.rfind(b)) {
        (Some(x), Some(y)) => x <= y,
        _ => false,
    }
}

impl Er {
    /// does a (delinked) block of a Markdown or GNU report state this error?
    pub fn stated_by(&self, text: &str, arts: &[String]) -> bool {
        let low = text.to_lowercase();
        let has = |t: &str| has_token(text, t);
        let kw = |k: &str| low.contains(k);
        match self {
            Er::Dup(id, a, b) => {
                kw("duplicate requirement") && has(id) && has(&a.show()) && has(&b.show())
                    // a GNU error is at the later one, its note at the first
                    && (!kw("previously seen") || in_order(text, &b.show(), &a.show()))
            }
            Er::NoTitle(id, _loc) => kw("without title") && kw("artefact") && has(id),
            Er::Io(file) => kw("io error") && has(file),
            Er::Format(loc) => has(&loc.show()) && !kw("io error") && !kw("duplicate"),
            Er::DupAttr(loc, attr, req) => {
                kw("duplicate attribute") && has(&loc.show()) && has(attr) && has(req)
            }
            Er::Config => kw("config"),
            Er::WrongTitle {
                dir,
                upper,
                lower,
                wrong,
                actual,
                loc,
            } => {
                // the title it has stands before the one that was used
                let ordered = match actual {
                    Some(a) => in_order(text, &format!("````{a}````"), &format!("````{wrong}````")) || in_order(text, &format!("{a:?}"), &format!("{wrong:?}")),
                    None => true,
                };
                // both requirements stand in a Markdown report, the upper one first
                let ordered = ordered && (!kw("lower requirement ") || in_order(text, upper, lower));
                let target = if *dir == Dir::Up { upper } else { lower };
                kw("wrong title")
                    && ordered
                    && kw(if *dir == Dir::Up { "covered" } else { "depended" })
                    && has(target)
                    && has(&loc.show())
                    && (text.contains(&format!("````{wrong}````"))
                        || text.contains(&format!("{wrong:?}")))
            }
            Er::RefNoTitle { id, loc } => {
                (kw("covered without title") || kw("should reference"))
                    && has(id)
                    && has(&loc.show())
            }
            Er::Unknown { dir, req, id, loc } => {
                let Some(p) = low.find("unknown requirement") else {
                    return false;
                };
                // lower casing keeps ascii lengths; ids here may not, so cut at the same text
                let Some(q) = text
                    .find("unknown requirement")
                    .or_else(|| text.find("unknown Requirement"))
                else {
                    return false;
                };
                let _ = p;
                let (pre, post) = text.split_at(q);
                let verb = if *dir == Dir::Up { "covers" } else { "depends" };
                pre.to_lowercase().contains(verb)
                    && has_token(pre, req)
                    && has_token(&post["unknown requirement".len()..], id)
                    && has(&loc.show())
            }
            Er::Unused(rel) => kw("relation") && art_ids_in(text, arts) == rel.key(),
            Er::Other(_) => false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct MdReq {
    pub id: String,
    pub title: Option<String>,
    pub origin: String,
    pub body: String,
    /// relation -> entries (id, location), and whether it says UNCOVERED
    pub up: Vec<(Vec<String>, Vec<(String, String)>)>,
    pub derived: bool,
    pub down: Vec<(Vec<String>, Vec<(String, String)>, bool)>,
}

#[derive(Clone, Debug, Default)]
pub struct TextFacts {
    pub art_errs: BTreeMap<String, Vec<String>>,
    pub errs: Vec<String>,
    pub uncovered: BTreeMap<Vec<String>, Vec<String>>,
    pub derived: BTreeMap<String, Vec<String>>,
    pub reqs: Vec<(String, Vec<MdReq>)>,
}

/// Structure of a Markdown trace report
pub fn md_trace(text: &str, arts: &[String]) -> Result<TextFacts, String> {
    let mut f = TextFacts::default();
    let mut section = String::new();
    let mut sub = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        if section == "requirements" {
            if let Some(a) = l.strip_prefix("## ") {
                f.reqs.push((a.trim().to_owned(), vec![]));
            } else if let Some(r) = l.strip_prefix("### ") {
                let Some((_, reqs)) = f.reqs.last_mut() else {
                    return Err("requirement outside of an artefact".into());
                };
                let mut body = String::new();
                while let Some(n) = lines.peek() {
                    if n.starts_with("### ") || n.starts_with("## ") {
                        break;
                    }
                    body.push_str(n);
                    body.push('\n');
                    lines.next();
                }
                reqs.push(md_req(r, &body, arts)?);
            } else if !l.trim().is_empty() {
                return Err(format!("unexpected line in Requirements: {l:?}"));
            }
            continue;
        }
        if let Some(s) = l.strip_prefix("# ") {
            let s = s.to_lowercase();
            section = if s.starts_with("input err") {
                "input"
            } else if s.starts_with("tracing err") {
                "tracing"
            } else if s.starts_with("uncovered") {
                "uncovered"
            } else if s.starts_with("derived") {
                "derived"
            } else if s.starts_with("requirements") {
                "requirements"
            } else {
                return Err(format!("unknown section {l:?}"));
            }
            .to_owned();
            sub.clear();
        } else if let Some(s) = l.strip_prefix("## ") {
            sub = s.trim().to_owned();
        } else if l.starts_with('*') {
            let mut block = l.to_owned();
            while let Some(n) = lines.peek() {
                if n.starts_with('*') || n.starts_with('#') || n.trim().is_empty() {
                    break;
                }
                block.push('\n');
                block.push_str(n);
                lines.next();
            }
            let block = delink(&block);
            match section.as_str() {
                "input" => f.art_errs.entry(sub.clone()).or_default().push(block),
                "tracing" => f.errs.push(block),
                "uncovered" => f
                    .uncovered
                    .entry(art_ids_in(&sub, arts))
                    .or_default()
                    .push(block[1..].trim().to_owned()),
                "derived" => f
                    .derived
                    .entry(sub.clone())
                    .or_default()
                    .push(block[1..].trim().to_owned()),
                _ => return Err(format!("item outside of a section: {block:?}")),
            }
        } else if !l.trim().is_empty() {
            return Err(format!("unexpected line {l:?} in section {section:?}"));
        }
    }
    Ok(f)
}

fn md_req(head: &str, body: &str, arts: &[String]) -> Result<MdReq, String> {
    let mut r = MdReq::default();
    match head.split_once(": ") {
        Some((id, t)) => {
            r.id = id.to_owned();
            r.title = Some(t.to_owned());
        }
        None => r.id = head.trim_end().trim_end_matches(':').to_owned(),
    }
    let up = body
        .find("\nUpwards Tracing:")
        .ok_or_else(|| format!("no Upwards Tracing in {head:?}"))?;
    let down = body
        .find("\nDownwards Tracing:")
        .ok_or_else(|| format!("no Downwards Tracing in {head:?}"))?;
    if down < up {
        return Err("Downwards before Upwards Tracing".into());
    }
    r.body = body[..up].to_owned();
    r.origin = r
        .body
        .lines()
        .find(|l| l.starts_with("Origin:"))
        .map(delink)
        .unwrap_or_default();
    for (is_up, part) in [(true, &body[up..down]), (false, &body[down..])] {
        let mut cur: Option<(Vec<String>, Vec<(String, String)>, bool)> = None;
        let mut all = vec![];
        for l in part.lines().skip(2) {
            let d = delink(l);
            let t = d.trim();
            if l.starts_with('*') {
                if let Some(c) = cur.take() {
                    all.push(c);
                }
                cur = Some((art_ids_in(t, arts), vec![], false));
            } else if let Some(item) = t.strip_prefix('*') {
                let item = item.trim();
                if is_up && item == "Derived" {
                    r.derived = true;
                    continue;
                }
                let c = cur
                    .as_mut()
                    .ok_or_else(|| format!("entry outside of a relation: {l:?}"))?;
                if !is_up && item == "UNCOVERED" {
                    c.2 = true;
                } else {
                    c.1.push((item.to_owned(), String::new()));
                }
            } else if let Some(loc) = t.strip_prefix("Reference:") {
                let c = cur
                    .as_mut()
                    .and_then(|c| c.1.last_mut())
                    .ok_or_else(|| format!("reference without an entry: {l:?}"))?;
                c.1 = loc.trim().to_owned();
            } else if !t.is_empty() {
                return Err(format!("unexpected line in the matrix: {l:?}"));
            }
        }
        if let Some(c) = cur.take() {
            all.push(c);
        }
        if is_up {
            r.up = all.into_iter().map(|c| (c.0, c.1)).collect();
        } else {
            r.down = all;
        }
    }
    Ok(r)
}

/// Structure of a GNU trace report
pub fn gnu_trace(text: &str, arts: &[String]) -> Result<TextFacts, String> {
    let mut f = TextFacts::default();
    let mut section = 0;
    let mut sub = String::new();
    let mut all: Vec<String> = vec![];
    for l in text.lines() {
        let low = l.to_lowercase();
        let head = low.trim_start_matches('#').trim();
        if section <= 1 && head == "parsing errors" {
            section = 1;
        } else if section <= 2 && head == "tracing errors" {
            section = 2;
        } else if section <= 3 && head.starts_with("uncovered requirement") {
            section = 3;
        } else if section <= 4 && head.starts_with("derived requirement") {
            section = 4;
        } else if section >= 3 && l.starts_with("## ") {
            sub = l[3..].trim().to_owned();
        } else if l.trim().is_empty() {
        } else {
            match section {
                1 | 2 => {
                    let list = if section == 1 {
                        &mut all
                    } else {
                        &mut f.errs
                    };
                    if l.contains(": note:") {
                        let last = list
                            .last_mut()
                            .ok_or_else(|| format!("note without an error: {l:?}"))?;
                        last.push('\n');
                        last.push_str(l);
                    } else {
                        list.push(l.to_owned());
                    }
                }
                3 => f
                    .uncovered
                    .entry(art_ids_in(&sub, arts))
                    .or_default()
                    .push(l.to_owned()),
                4 => f
                    .derived
                    .entry(sub.clone())
                    .or_default()
                    .push(l.to_owned()),
                _ => return Err(format!("unexpected line {l:?}")),
            }
        }
    }
    f.art_errs.insert(String::new(), all);
    Ok(f)
}

/// Every expected error is stated by a block, and every block states an expected error
pub fn match_blocks<'a>(
    what: &str,
    expected: impl Iterator<Item = &'a Er> + Clone,
    blocks: &[String],
    arts: &[String],
) -> Result<(), String> {
    // (most often both are in the same order: look next to the last one found first)
    let n = blocks.len();
    let mut at = 0;
    for e in expected.clone() {
        match (0..n).map(|i| (at + i) % n).find(|i| e.stated_by(&blocks[*i], arts)) {
            Some(i) => at = i + 1,
            None => return Err(format!("{what}: missing {e:?}; it says {blocks:?}")),
        }
    }
    let all: Vec<&Er> = expected.collect();
    let n = all.len();
    at = 0;
    for b in blocks {
        match (0..n).map(|i| (at + i) % n).find(|i| all[*i].stated_by(b, arts)) {
            Some(i) => at = i + 1,
            None => return Err(format!("{what}: unexpected {b:?}")),
        }
    }
    Ok(())
}
