//! JSON export and import

use crate::core::*;
use crate::docs::*;
use crate::exec::*;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fs;

const ALL: [(&str, &str); 6] = [PJ, PM, PT, TJ, TM, TG];

fn verdict(r: Result<u64, String>) -> Verdict {
    match r {
        Ok(o) => Verdict::Held(o),
        Err(e) => Verdict::Bad(e),
    }
}

fn config(n: usize) -> Value {
    let a: Vec<Value> = (0..n)
        .map(|i| json!({"id": format!("A{i}"), "paths": [format!("i{i}.json")], "parser": "Json"}))
        .collect();
    json!({"artefacts": a, "relations": []})
}

/// export the requirements (lists per artefact), read the exports, and export again
fn round_trip(wk: &mut Wk<'_>, lists: &[Vec<Req>]) -> Result<u64, String> {
    let dir = wk.dir.clone();
    let put = |i: usize, text: &str| fs::write(dir.join(format!("i{i}.json")), text).unwrap();
    for (i, l) in lists.iter().enumerate() {
        put(i, &Value::Array(l.iter().map(Req::json).collect()).to_string());
    }
    wk.runs += 2;
    let first = run(&dir, config(lists.len()), &ALL)?;
    if first.code == 2 {
        return Err(format!("the run failed: {}", first.msg));
    }
    let (reqs, errs, _) = parse_report(&first.files[0])?;
    let mut want: Vec<&Req> = lists.iter().flatten().collect();
    // requirements of one id (in several artefacts) come in any order
    let by = |a: &&Req, b: &&Req| (a.id.as_bytes(), &a.loc.file).cmp(&(b.id.as_bytes(), &b.loc.file));
    want.sort_by(by);
    let mut got: Vec<&Req> = reqs.iter().collect();
    if got.windows(2).any(|p| p[0].id.as_bytes() > p[1].id.as_bytes()) {
        return Err(format!("not sorted: {got:?}"));
    }
    got.sort_by(by);
    if !errs.is_empty() {
        return Err(format!("unexpected errors {errs:?}"));
    }
    if want != got {
        return Err(format!("exported:\n expected {want:?}\n actual   {got:?}"));
    }
    // every artefact alone, to get its export
    let mut exports = vec![];
    for i in 0..lists.len() {
        if lists.len() == 1 {
            exports.push(first.files[0].clone());
        } else {
            wk.runs += 1;
            let mut c = config(lists.len());
            c["artefacts"] = json!([c["artefacts"][i]]);
            exports.push(run(&dir, c, &[PJ])?.files[0].clone());
        }
    }
    for (i, e) in exports.iter().enumerate() {
        put(i, e);
    }
    let second = run(&dir, config(lists.len()), &ALL)?;
    same_reports(&first, &second)?;
    Ok(h(&first.files[0]))
}

fn same_reports(a: &Out, b: &Out) -> Result<(), String> {
    if a.code != b.code {
        return Err(format!("result code {} became {} with imported requirements: {}", a.code, b.code, b.msg));
    }
    for (i, j) in ALL.iter().enumerate() {
        if a.files[i] != b.files[i] {
            return Err(format!(
                "{} changed with imported requirements:\n before {}\n after  {}",
                job_name(*j),
                a.files[i],
                b.files[i]
            ));
        }
    }
    Ok(())
}

const STR: [&str; 18] = [
    "x", "", "\"", "\\", "/", "\n", "\r", "\t", "\u{0}", "\u{1f}", "\u{7f}", "é", "\u{2028}", "\u{1F980}", " ", "{", "<", "\u{feff}",
];

fn string(ch: &mut Ch, n: usize) -> String {
    let len = 1 + ch.n(n);
    (0..len).map(|_| *ch.of(&STR)).collect()
}

fn rf(id: &str, title: Option<&str>, line: u64) -> Ref {
    Ref {
        id: id.into(),
        title: title.map(Into::into),
        loc: Loc::line("r.md", line),
    }
}

fn sample() -> Req {
    let mut r = Req::new("REQ_1", Some("Title"), Loc::line("f.md", 3));
    r.covers = vec![rf("UP_1", Some("Up"), 4), rf("UP_2", None, 5)];
    r.depends = vec![rf("LO_1", None, 6)];
    r.tags = vec!["tag".into()];
    r.attrs.insert("Description".into(), "Text\n".into());
    r
}

/// every string in every field
fn fam_strings(ch: &mut Ch, n: usize) -> Option<Vec<Req>> {
    let mut r = sample();
    let field = ch.n(13);
    let s = string(ch, n);
    match field {
        0 => r.id = s,
        1 => r.title = Some(s),
        2 => r.loc.file = s,
        3 => r.loc.pos = Pos::Str(s),
        4 => r.covers[0].id = s,
        5 => r.covers[0].title = Some(s),
        6 => r.covers[1].loc.file = s,
        7 => r.covers[1].loc.pos = Pos::Str(s),
        8 => r.depends[0].id = s,
        9 => r.depends[0].title = Some(s),
        10 => r.tags.push(s),
        11 => {
            r.attrs.insert(s, "v".into());
        }
        _ => {
            r.attrs.insert("Note".into(), s);
        }
    }
    Some(vec![r])
}

fn pos(ch: &mut Ch) -> Pos {
    let n = [1u64, 0, 42, 1 << 32, (1 << 53) + 1, u64::MAX];
    match ch.n(4) {
        0 => Pos::Line(*ch.of(&n)),
        1 => Pos::None,
        2 => Pos::Col(*ch.of(&n), *ch.of(&n)),
        _ => Pos::Str("here".into()),
    }
}

/// every kind of location and list
fn fam_shape(ch: &mut Ch, full: bool) -> Option<Vec<Req>> {
    let many = |ch: &mut Ch| if full { ch.n(4) } else { 3 * ch.n(2) };
    let mut r = Req::new("REQ", *ch.of(&[Some("T"), None]), Loc::line("f.md", 1));
    match ch.n(3) {
        0 => {
            r.loc.pos = pos(ch);
        }
        1 => {
            let mut c = rf("AA", *ch.of(&[Some("T"), None]), 1);
            c.loc.pos = pos(ch);
            r.covers = vec![c];
        }
        _ => {
            let mut c = rf("AA", *ch.of(&[Some("T"), None]), 1);
            c.loc.pos = pos(ch);
            r.depends = vec![c];
        }
    }
    for i in 0..many(ch) {
        r.covers.push(rf(["AA", "BB", "AA"][i], None, 2 + i as u64));
    }
    for i in 0..many(ch) {
        r.depends.push(rf(["AA", "ZZ", "BB"][i], Some("t"), 2 + i as u64));
    }
    for i in 0..many(ch) {
        r.tags.push(["x", "y", "x"][i].into());
    }
    for i in 0..ch.n(3) {
        r.attrs.insert(["Note", "Description"][i].into(), "v".into());
    }
    Some(vec![r])
}

/// a word in every field, eight at a time
fn fam_words(ch: &mut Ch) -> Option<Vec<Req>> {
    use crate::words::{dict, form, FORMS};
    let k = ch.n(FORMS);
    let field = ch.n(14);
    let words = &dict().words;
    let from = 8 * ch.n(words.len().div_ceil(8));
    let mut all: Vec<Req> = vec![];
    for (i, w) in words.iter().enumerate().skip(from).take(8) {
        let s = form(k, w);
        let mut r = sample();
        r.id = format!("REQ_{i}");
        match field {
            0 => r.id = s,
            1 => r.title = Some(s),
            2 => r.loc.file = s,
            3 => r.loc.pos = Pos::Str(s),
            4 => r.covers[0].id = s,
            5 => r.covers[0].title = Some(s),
            6 => r.covers[1].loc.file = s,
            7 => r.covers[1].loc.pos = Pos::Str(s),
            8 => r.depends[0].id = s,
            9 => r.depends[0].title = Some(s),
            10 => r.tags = vec![s],
            11 => {
                r.attrs.insert(s, "v".into());
            }
            12 => {
                r.attrs.insert("Description".into(), s);
            }
            _ => {
                r.attrs.insert("Note".into(), s);
            }
        }
        all.retain(|x| x.id != r.id);
        all.push(r);
    }
    Some(all)
}

/// many of one thing, long strings
fn fam_scale(ch: &mut Ch) -> Option<Vec<Req>> {
    let n = *ch.of(&[1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 65_535, 65_536, 2_200_000]);
    let kind = ch.n(16);
    if n > 4096 && kind < 6 || n > 1025 && kind == 5 || n > 129 && kind < 2 {
        return None;
    }
    let mut r = sample();
    let rf = |i: usize| Ref {
        id: format!("REQ_{i}"),
        title: (i % 3 == 0).then(|| format!("t{i}")),
        loc: Loc::line("f.md", i as u64 + 1),
    };
    let long = |c: &str| c.repeat(n);
    match kind {
        0 => r.covers = (0..n).map(rf).collect(),
        1 => r.depends = (0..n).map(rf).collect(),
        2 => r.tags = (0..n).map(|i| format!("tag{i}")).collect(),
        3 => r.attrs = (0..n).map(|i| (format!("Attr{i:05}"), format!("v{i}"))).collect(),
        4 => return Some((0..n).map(|i| Req::new(&format!("REQ_{i:04}"), Some("t"), Loc::line("f.md", i as u64 + 1))).collect()),
        5 => {
            return Some(
                (0..n)
                    .map(|i| {
                        let mut r = sample();
                        r.id = format!("REQ_{i:04}");
                        r
                    })
                    .collect(),
            );
        }
        6 => r.id = long("i"),
        7 => r.title = Some(long("t")),
        8 => r.loc.file = long("f"),
        9 => r.loc.pos = Pos::Str(long("p")),
        10 => r.covers[0].id = long("c"),
        11 => r.covers[0].title = Some(long("é")),
        12 => r.depends[0].id = long("d"),
        13 => r.tags = vec![long("g")],
        14 => {
            r.attrs.insert(long("a"), "v".into());
        }
        _ => {
            r.attrs.insert("Description".into(), long("l\n"));
        }
    }
    Some(vec![r])
}

/// lists with repetitions
fn fam_lists(ch: &mut Ch, n: usize) -> Option<Vec<Req>> {
    let mut r = Req::new("REQ", Some("T"), Loc::line("f.md", 1));
    let field = ch.n(5);
    for i in 0..ch.n(n + 1) {
        let x = *ch.of(&["x", "b", "Y"]);
        let line = if ch.bool() { 7 } else { 9 - i as u64 };
        match field {
            0 => r.tags.push(x.into()),
            1 => r.covers.push(rf(x, None, line)),
            2 => r.covers.push(rf("AA", Some(x), line)),
            3 => r.depends.push(rf(x, None, line)),
            _ => r.depends.push(rf("AA", Some(x), line)),
        }
    }
    Some(vec![r])
}

/// ids in every order, in one or two artefacts
fn fam_ids(ch: &mut Ch, ids: usize, n: usize) -> Option<Vec<Vec<Req>>> {
    const IDS: [&str; 12] = ["AB", "A", "B", "a", "AB_1", "AB1", "Ab", "Ä", "REQ_10", "REQ_9", "_", "1"];
    let len = ch.n(n + 1);
    let mut lists: Vec<Vec<Req>> = vec![vec![], vec![]];
    for k in 0..len {
        let i = ch.n(ids);
        let a = ch.n(2);
        if lists[a].iter().any(|r| r.id == IDS[i]) {
            return None;
        }
        let mut r = sample();
        r.id = IDS[i].into();
        r.loc = Loc::line(["a.md", "b.md"][a], 1 + k as u64);
        lists[a].push(r);
    }
    Some(lists)
}

/// whole worlds: reports of the worlds made of exports are the same
fn check_world(wk: &mut Wk<'_>, w: &World) -> Result<u64, String> {
    let prefix = format!("{}/", wk.dir.display());
    let x = trace(w, &prefix);
    let first = run_world(wk, w, &ALL)?;
    if first.code == 2 {
        return Err(format!("the run failed: {}", first.msg));
    }
    crate::world::cmp_parse_json(&x, &first.files[0])?;
    // input errors are not imported: only worlds without are read back
    if x.any_art_err() {
        return Ok(h(&first.files[0].replace(&prefix, "")));
    }
    let dir = wk.dir.clone();
    let mut exports = vec![];
    for a in &w.arts {
        let c = json!({"artefacts": [{"id": a.id, "paths": [a.file()], "parser": "Json"}], "relations": []});
        exports.push(run(&dir, c, &[PJ])?.files[0].clone());
    }
    for (a, e) in w.arts.iter().zip(&exports) {
        fs::write(dir.join(a.file()), e).unwrap();
    }
    wk.runs += 1 + exports.len() as u64;
    let second = run(&dir, world_config(w), &ALL)?;
    same_reports(&first, &second)?;
    Ok(h(&second.files[0].replace(&prefix, "")))
}

/// documents in other formats: their exports, imported, are the same requirements
fn check_docs_rt(wk: &mut Wk<'_>, parser: &str, docs: &[Doc]) -> Vec<Verdict> {
    docs.iter()
        .map(|d| {
            let dir = wk.dir.clone();
            fs::write(dir.join("doc"), &d.bytes).unwrap();
            wk.runs += 2;
            verdict((|| {
                let c = |f: &str, p: &str| json!({"artefacts": [{"id": "A", "paths": [f], "parser": p}], "relations": []});
                let a = run(&dir, c("doc", parser), &[PJ, TJ])?;
                fs::write(dir.join("x.json"), &a.files[0]).unwrap();
                let b = run(&dir, c("x.json", "Json"), &[PJ])?;
                let (ra, ea, _) = parse_report(&a.files[0])?;
                // a trace shows the same input errors
                let t = crate::model::facts_from_json(&a.files[1])?;
                let t: BTreeSet<&Er> = t.art_errs.values().flatten().collect();
                let e: BTreeSet<&Er> = ea.iter().collect();
                if t != e {
                    return Err(format!("errors of the trace {t:?}\n of the export {e:?}"));
                }
                let (rb, eb, _) = parse_report(&b.files[0])?;
                if !eb.is_empty() {
                    return Err(format!("errors when reading an export: {eb:?}"));
                }
                if ra != rb {
                    return Err(format!("exported {ra:?}\n imported {rb:?}"));
                }
                Ok(h(&a.files[0].replace(&dir.display().to_string(), "")))
            })())
        })
        .collect()
}

/// a file that is perhaps not a requirement file
#[derive(Clone, Debug, Hash)]
pub struct Bad {
    bytes: Vec<u8>,
}

fn base(k: usize) -> String {
    let reqs = json!([sample().json(), Req::new("REQ_2", None, Loc::line("f.md", 9)).json()]);
    match k {
        0 => json!({"version": 0, "requirements": reqs, "errors": []}).to_string(),
        _ => reqs.to_string(),
    }
}

fn fam_bad_bytes(ch: &mut Ch) -> Option<Bad> {
    let mut b = base(ch.n(2)).into_bytes();
    let i = ch.n(b.len());
    match ch.n(9) {
        0 => b.truncate(i),
        1 => {
            b.remove(i);
        }
        k => b[i] = b"\"{]\xff5,: "[k - 2 + usize::from(k == 8)],
    }
    Some(Bad { bytes: b })
}

fn fam_bad_values(ch: &mut Ch) -> Option<Bad> {
    const V: [&str; 14] = [
        "null", "1", "2", "-1", "4294967296", "0.5", "1e3", "\"0\"", "[]", "{}", "true", "\"x\"", "[1]", "[[]]",
    ];
    let v: Value = serde_json::from_str(ch.of(&V)).unwrap();
    let out = match ch.n(9) {
        0 => v,
        1 => json!({"version": v, "requirements": [sample().json()], "errors": []}),
        2 => json!({"version": 0, "requirements": v, "errors": []}),
        3 => json!([v]),
        4 => json!([sample().json(), v]),
        k => {
            let mut r = sample().json();
            match k {
                5 => r["id"] = v,
                6 => r["covers"] = v,
                7 => r["location"] = v,
                _ => r["covers"][0]["id"] = v,
            }
            json!([r])
        }
    };
    let text = out.to_string();
    let mut bytes = (*ch.of(&["", " ", "\n\t"])).as_bytes().to_vec();
    bytes.extend(text.bytes());
    bytes.extend(ch.of(&["", "\n", " x", "]"]).bytes());
    Some(Bad { bytes })
}

enum Expect {
    Error,
    Reqs(Vec<Req>),
    Any,
}

fn expect_bad(b: &[u8]) -> Expect {
    let Ok(v) = serde_json::from_slice::<Value>(b) else {
        return Expect::Error;
    };
    let list = |a: &Value| -> Option<Vec<Req>> { a.as_array()?.iter().map(Req::from_json).collect() };
    match &v {
        Value::Array(a) => {
            if let Some(l) = list(&v) {
                return Expect::Reqs(l);
            }
            // an id, and objects are needed at least
            if a.iter().any(|r| !r.get("id").is_some_and(Value::is_string)) {
                return Expect::Error;
            }
            Expect::Any
        }
        Value::Object(o) => {
            if o.get("version").is_some_and(|v| v.as_u64() != Some(0)) || !o.get("requirements").is_some_and(Value::is_array) {
                return Expect::Error;
            }
            match (o.get("version"), list(&v["requirements"])) {
                (Some(_), Some(l)) => Expect::Reqs(l),
                _ => Expect::Any,
            }
        }
        _ => Expect::Error,
    }
}

fn check_bad(wk: &mut Wk<'_>, b: &Bad) -> Result<u64, String> {
    let dir = wk.dir.clone();
    fs::write(dir.join("i0.json"), &b.bytes).unwrap();
    fs::write(dir.join("i1.json"), json!([Req::new("OTHER", None, Loc::line("o.md", 1)).json()]).to_string()).unwrap();
    wk.runs += 1;
    let o = run(&dir, config(2), &[PJ])?;
    let (mut reqs, errs, _) = parse_report(&o.files[0])?;
    let Some(i) = reqs.iter().position(|r| r.id == "OTHER") else {
        return Err("the requirement of the other artefact is lost".into());
    };
    reqs.remove(i);
    let file = dir.join("i0.json").display().to_string();
    match expect_bad(&b.bytes) {
        Expect::Any => {}
        Expect::Error => match errs.as_slice() {
            [Er::Format(l)] if l.file == file && reqs.is_empty() && o.code == 1 => {}
            _ => return Err(format!("a format error expected, but code {} {errs:?} {reqs:?}", o.code)),
        },
        Expect::Reqs(mut l) => {
            l.sort_by(|a, b| a.id.cmp(&b.id));
            let dup = l.windows(2).any(|p| p[0].id == p[1].id);
            if !dup && (!errs.is_empty() || l != reqs) {
                return Err(format!("expected {l:?}\n actual   {reqs:?} {errs:?}"));
            }
        }
    }
    Ok(h(&(reqs, errs.len())))
}

pub fn run_all(ctx: &Ctx) {
    let lists = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Vec<Vec<Req>>> + Sync)| {
        ctx.explore(fam, 8, |c| gen(c), |wk, cs| cs.iter().map(|l| verdict(round_trip(wk, l))).collect());
    };
    lists("strings", &|c| fam_strings(c, ctx.q(2, 2)).map(|l| vec![l]));
    lists("shape", &|c| fam_shape(c, ctx.thorough()).map(|l| vec![l]));
    lists("lists", &|c| fam_lists(c, ctx.q(4, 5)).map(|l| vec![l]));
    lists("words", &|c| fam_words(c).map(|l| vec![l]));
    lists("scale", &|c| fam_scale(c).map(|l| vec![l]));
    lists("ids", &|c| fam_ids(c, ctx.q(8, 12), ctx.q(3, 4)));
    for (fam, gen) in [
        ("bad_bytes", fam_bad_bytes as fn(&mut Ch) -> Option<Bad>),
        ("bad_values", fam_bad_values),
    ] {
        ctx.explore(fam, 8, gen, |wk, cs| cs.iter().map(|b| verdict(check_bad(wk, b))).collect());
    }
    let worlds = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<World> + Sync)| {
        ctx.explore(fam, 8, |c| gen(c), |wk, ws| ws.iter().map(|w| verdict(check_world(wk, w))).collect());
    };
    worlds("mut", &|c| crate::world::fam_mut(c, &[0, 1, 2, 3, 4, 5, 6, 7], ctx.q(1, 2)));
    worlds("dups1", &|c| crate::world::fam_dups(c, 1, 4, false));
    worlds("dups2", &|c| crate::world::fam_dups(c, 2, 2, false));
    if ctx.thorough() {
        worlds("text", &crate::world::fam_text);
    }
    let all: Vec<usize> = (0..crate::md::LINES.len()).collect();
    ctx.explore("markdown", 8, |c| crate::md::fam_edits(c, 1, &all, 2), |wk, d| check_docs_rt(wk, "Markdown", d));
    ctx.explore("mono", 8, |c| crate::mono::fam_lines(c, 2), |wk, d| check_docs_rt(wk, "MonoRequirement", d));
    ctx.explore(
        "rust",
        8,
        |c| {
            crate::rustsrc::fam_forms(c, true).map(|p| Doc {
                name: p.name,
                bytes: p.src.into_bytes(),
            })
        },
        |wk, d| check_docs_rt(wk, "Rust", d),
    );
}
