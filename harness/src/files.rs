//! Which files make up an artefact (C21)

use crate::cli::{fresh, put, toml, verdict, Opt};
use crate::core::*;
use crate::exec::*;
use crate::fault::Files;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

/// the files of the tree; every Rust file has a mark with the number of the file
const TREE: [&str; 27] = [
    "a.rs", "b.rs", "ab.rs", "A.rs", ".h.rs", "a.txt", "d/a.rs", "d/e/a.rs", "d/e/b.txt", "sp ace.rs", "[x].rs", "é.rs", "f/g/h/deep.rs", "a-b.rs",
    "star*.rs", "m.rs/in.rs", "target/t.rs", "tests/u.rs", "build.rs", "d/node_modules/v.rs", ".git/w.rs", "d/.hid/x.rs", "d/e/..y.rs", "noext", "ln.rs", "d/ln.rs", "d/e/b.rs",
];

/// these are symbolic links to files elsewhere
const LINKS: [&str; 3] = ["ln.rs", "d/ln.rs", "d/e/b.rs"];

/// write the tree
fn put_tree(base: &std::path::Path) {
    for (n, b) in tree() {
        if !LINKS.contains(&n.as_str()) {
            put(base, &[(n, b)]);
            continue;
        }
        let store = base.with_extension("store");
        let real = n.replace('/', "_");
        put(&store, &[(real.clone(), b)]);
        let l = base.join(&n);
        fs::create_dir_all(l.parent().unwrap()).unwrap();
        std::os::unix::fs::symlink(store.join(real), l).unwrap();
    }
}

fn tree() -> Files {
    TREE.iter()
        .enumerate()
        .map(|(i, n)| ((*n).to_owned(), format!("fn f{i}() {{ requirement_covered!(REQ_{i}); }}\n").into_bytes()))
        .collect()
}

fn dirs() -> BTreeSet<String> {
    let mut d = BTreeSet::new();
    for f in TREE {
        let mut p = f;
        while let Some((q, _)) = p.rsplit_once('/') {
            d.insert(q.to_owned());
            p = q;
        }
    }
    d
}

/// a component of a path matches a component of a pattern
fn comp(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| comp(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && comp(&p[1..], &s[1..]),
        Some('[') => {
            let neg = p.get(1) == Some(&'!');
            let start = 1 + usize::from(neg);
            // the first character in brackets may be a closing one
            let Some(end) = (start + 1..p.len()).find(|i| p[*i] == ']') else {
                return false;
            };
            let Some(c) = s.first() else { return false };
            let set = &p[start..end];
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' {
                    hit |= set[i] <= *c && *c <= set[i + 2];
                    i += 3;
                } else {
                    hit |= set[i] == *c;
                    i += 1;
                }
            }
            hit != neg && comp(&p[end + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && comp(&p[1..], &s[1..]),
    }
}

fn path_match(p: &[&str], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|i| path_match(&p[1..], &s[i..])),
        Some(c) => {
            let cs = |x: &str| x.chars().collect::<Vec<_>>();
            !s.is_empty() && comp(&cs(c), &cs(s[0])) && path_match(&p[1..], &s[1..])
        }
    }
}

struct Pat {
    text: &'static str,
    /// relative to the base, in plain form; None: malformed
    plain: Option<&'static str>,
}

macro_rules! pats {
    ($($t:expr => $p:expr),* $(,)?) => { [$(Pat { text: $t, plain: $p }),*] };
}

static PATTERNS: [Pat; 51] = pats![
    "a.rs" => Some("a.rs"),
    "*.rs" => Some("*.rs"),
    "**/*.rs" => Some("**/*.rs"),
    "d/*.rs" => Some("d/*.rs"),
    "none*.rs" => Some("none*.rs"),
    "a***.rs" => None,
    "d/**/*.rs" => Some("d/**/*.rs"),
    "missing.rs" => Some("missing.rs"),
    "?.rs" => Some("?.rs"),
    "[ab].rs" => Some("[ab].rs"),
    "[!a].rs" => Some("[!a].rs"),
    "[a-z].rs" => Some("[a-z].rs"),
    "./a.rs" => Some("a.rs"),
    "d/e/a.rs" => Some("d/e/a.rs"),
    "d/../a.rs" => Some("a.rs"),
    "sp ace.rs" => Some("sp ace.rs"),
    "[[]x].rs" => Some("[[]x].rs"),
    "[x].rs" => Some("[x].rs"),
    "é.rs" => Some("é.rs"),
    "a*" => Some("a*"),
    "*b.rs" => Some("*b.rs"),
    "*/a.rs" => Some("*/a.rs"),
    "*/*/a.rs" => Some("*/*/a.rs"),
    "**/a.rs" => Some("**/a.rs"),
    ".h.rs" => Some(".h.rs"),
    ".*.rs" => Some(".*.rs"),
    "a.RS" => Some("a.RS"),
    "d/e/*.txt" => Some("d/e/*.txt"),
    "{a,b}.rs" => Some("{a,b}.rs"),
    "a[.rs" => None,
    "d/**.rs" => None,
    "f/**/deep.rs" => Some("f/**/deep.rs"),
    "**/h/*.rs" => Some("**/h/*.rs"),
    "**/**/deep.rs" => Some("**/**/deep.rs"),
    "a?.rs" => Some("a?.rs"),
    "a[-]b.rs" => Some("a[-]b.rs"),
    "star[*].rs" => Some("star[*].rs"),
    "m.rs/*.rs" => Some("m.rs/*.rs"),
    "*.txt" => Some("*.txt"),
    "x/y/z.rs" => Some("x/y/z.rs"),
    "target/*.rs" => Some("target/*.rs"),
    "*/*.rs" => Some("*/*.rs"),
    "d/*/*" => Some("d/*/*"),
    "noext" => Some("noext"),
    ".git/*" => Some(".git/*"),
    "d/.h*/*.rs" => Some("d/.h*/*.rs"),
    "d/**/*" => Some("d/**/*"),
    "../{B}/b.rs" => Some("b.rs"),
    "../{B}/d/**/*.rs" => Some("d/**/*.rs"),
    "d/e/../*.rs" => Some("d/*.rs"),
    "d/e/a.rs/b.rs" => Some("d/e/a.rs/b.rs"),
];

/// patterns that reach a file by different spellings of its path
fn two_spellings(p: usize, q: usize) -> bool {
    let up = |p: usize| PATTERNS[p].text.contains("..");
    p != q && (up(p) || up(q)) && hits(p).iter().any(|f| hits(q).contains(f))
}

/// files that a pattern matches
fn hits(p: usize) -> Vec<&'static str> {
    let Some(plain) = PATTERNS[p].plain else {
        return vec![];
    };
    let pc: Vec<&str> = plain.split('/').collect();
    TREE.iter()
        .copied()
        .filter(|f| path_match(&pc, &f.split('/').collect::<Vec<_>>()))
        .collect()
}

#[derive(Clone, Debug, Hash)]
struct GlobCase {
    pats: Vec<(usize, bool)>, // pattern, absolute
    base: usize,
}

const BASES: [&str; 5] = ["base", "b[1]", "b *?", "bä", "x/y"];

fn check_glob(wk: &mut Wk<'_>, c: &GlobCase) -> Result<u64, String> {
    let base = wk.dir.join(BASES[c.base]);
    if !base.join("d/e/b.rs").exists() {
        fs::create_dir_all(&base).unwrap();
        put_tree(&base);
        // decoys next to the base
        put(&wk.dir, &[("a.rs".into(), b"fn x() {}".to_vec()), ("b1/a.rs".into(), b"fn y() {}".to_vec())]);
    }
    // a file that is reached by two spellings of its path is out of scope
    if c.pats.iter().any(|p| c.pats.iter().any(|q| two_spellings(p.0, q.0))) {
        return Ok(0);
    }
    let b = base.display().to_string();
    let esc: String = b
        .chars()
        .map(|c| match c {
            '*' | '?' | '[' => format!("[{c}]"),
            ']' => "[]]".into(),
            c => c.to_string(),
        })
        .collect();
    let texts: Vec<String> = c
        .pats
        .iter()
        .map(|(p, abs)| {
            let t = PATTERNS[*p].text.replace("{B}", esc.rsplit('/').next().unwrap());
            if *abs {
                format!("{esc}/{t}")
            } else {
                t
            }
        })
        .collect();
    let config = json!({"artefacts": [{"id": "R", "paths": texts, "parser": "Rust"}], "relations": []});
    wk.runs += 1;
    let out = run(&base, config, &[TJ])?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let facts = facts_from_json(&out.files[0])?;
    let v: Value = serde_json::from_str(&out.files[0]).map_err(|e| e.to_string())?;
    let listed: Vec<String> = v["trace"]["artefacts"]["R"]["files"]
        .as_array()
        .ok_or("no list of files")?
        .iter()
        .map(|f| norm(f.as_str().unwrap_or(""), &b))
        .collect();
    // expectation
    let mut want: BTreeSet<&str> = BTreeSet::new();
    let mut maybe: BTreeSet<String> = BTreeSet::new();
    let mut bad: BTreeMap<String, ()> = BTreeMap::new();
    let d = dirs();
    for ((p, _), text) in c.pats.iter().zip(&texts) {
        let Some(plain) = PATTERNS[*p].plain else {
            bad.insert(text.clone(), ());
            continue;
        };
        let pc: Vec<&str> = plain.split('/').collect();
        let hits = hits(*p);
        // directories that match are no files; whatever is said about them
        let dirs: Vec<&String> = d.iter().filter(|f| path_match(&pc, &f.split('/').collect::<Vec<_>>())).collect();
        if hits.is_empty() && dirs.is_empty() {
            bad.insert(text.clone(), ());
        }
        want.extend(hits);
        maybe.extend(dirs.into_iter().cloned());
    }
    let mut got: BTreeSet<&str> = BTreeSet::new();
    for f in &listed {
        if maybe.contains(f) {
            continue;
        }
        if !got.insert(f) {
            return Err(format!("{f} is listed twice: {listed:?}"));
        }
    }
    if got != want {
        return Err(format!("files:\n expected {want:?}\n actual   {got:?}"));
    }
    let ids: BTreeSet<String> = facts.reqs["R"].iter().map(|r| r.id.clone()).collect();
    let want_ids: BTreeSet<String> = want
        .iter()
        .map(|f| format!("f{}", TREE.iter().position(|t| t == f).unwrap()))
        .collect();
    if ids != want_ids {
        return Err(format!("requirements:\n expected {want_ids:?}\n actual   {ids:?}"));
    }
    for r in &facts.reqs["R"] {
        let f = norm(&r.loc.file, &b);
        if format!("f{}", TREE.iter().position(|t| *t == f).unwrap_or(99)) != r.id {
            return Err(format!("{} comes from {f}", r.id));
        }
    }
    // errors: the bad patterns, and nothing else
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for e in &facts.art_errs["R"] {
        match e {
            Er::Io(f) if bad.contains_key(f) || bad.keys().any(|k| format!("{b}/{k}") == *f || format!("{esc}/{k}") == *f) => {
                for k in bad.keys() {
                    if k == f || f.ends_with(&format!("/{k}")) {
                        seen.insert(k.clone());
                    }
                }
            }
            Er::Io(f) if maybe.contains(&norm(f, &b)) => {}
            e => return Err(format!("unexpected error {e:?}")),
        }
    }
    if let Some(k) = bad.keys().find(|k| !seen.contains(*k)) {
        return Err(format!("no error for {k:?}: {:?}", facts.art_errs["R"]));
    }
    Ok(h(&(got, seen.len())))
}

/// relative to the base, without `.` and `..`
fn norm(f: &str, base: &str) -> String {
    let simple = |f: &str| {
        let mut out: Vec<String> = vec![];
        for c in f.split('/') {
            match c {
                "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c.to_owned()),
            }
        }
        out.join("/")
    };
    let all = if f.starts_with('/') { simple(f) } else { simple(&format!("{base}/{f}")) };
    match all.strip_prefix(&format!("{base}/")) {
        Some(r) => r.to_owned(),
        None => all,
    }
}

/// artefacts of a single file
#[derive(Clone, Debug, Hash)]
struct OneCase {
    parser: &'static str,
    paths: Vec<usize>,
    abs: bool,
    base: usize,
}

const ONE: [(&str, bool); 16] = [
    ("x.in", true),
    ("d/x.in", true),
    ("*.in", false),
    ("missing.in", false),
    ("a[b].in", true),
    ("st*r.in", true),
    ("d/../x.in", true),
    ("./x.in", true),
    ("sp ace.in", true),
    ("?.in", false),
    ("d", false),
    ("é.in", true),
    ("../up_x/o.in", true),
    ("../../up/o.in", true),
    ("..in", true),
    (".hid", true),
];

fn one_content(parser: &str, i: usize) -> String {
    match parser {
        "Markdown" => format!("# REQ_{i}: T\n"),
        "Json" => format!("[{}]", Req::new(&format!("REQ_{i}"), None, Loc::line("f", 1)).json()),
        _ => format!("T\n=> REQ_{i}\n"),
    }
}

fn check_one(wk: &mut Wk<'_>, c: &OneCase) -> Result<u64, String> {
    let base = wk.dir.join(format!("one_{}_{}/in/base", c.parser, BASES[c.base].replace('/', "_")));
    if !base.join("é.in").exists() {
        fs::create_dir_all(&base).unwrap();
        let files: Files = ONE
            .iter()
            .enumerate()
            .filter(|(i, (_, ok))| *ok && ![6, 7].contains(i))
            .map(|(i, (n, _))| ((*n).to_owned(), one_content(c.parser, i).into_bytes()))
            .collect();
        // ... and files of such names elsewhere
        for n in ["up_x/o.in", "up/o.in", "../x.in", "../d/x.in"] {
            put(&base, &[(n.to_owned(), one_content(c.parser, 99).into_bytes())]);
        }
        put(&base, &files);
    }
    let b = base.display().to_string();
    let paths: Vec<String> = c
        .paths
        .iter()
        .map(|i| if c.abs { format!("{b}/{}", ONE[*i].0) } else { ONE[*i].0.to_owned() })
        .collect();
    let config = json!({"artefacts": [{"id": "S", "paths": paths, "parser": c.parser}, {"id": "T", "paths": ["x.in"], "parser": c.parser}], "relations": []});
    wk.runs += 1;
    let out = run(&base, config, &[TJ])?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let facts = facts_from_json(&out.files[0])?;
    let v: Value = serde_json::from_str(&out.files[0]).map_err(|e| e.to_string())?;
    let files: Vec<String> = v["trace"]["artefacts"]["S"]["files"]
        .as_array()
        .ok_or("no list of files")?
        .iter()
        .map(|f| norm(f.as_str().unwrap_or(""), &b))
        .collect();
    let what = |a: &str| -> Vec<String> {
        facts.reqs[a]
            .iter()
            .flat_map(|r| match c.parser {
                "MonoRequirement" => r.depends.iter().map(|d| d.id.clone()).collect(),
                _ => vec![r.id.clone()],
            })
            .collect()
    };
    if what("T") != ["REQ_0"] {
        return Err(format!("the other artefact has {:?}", what("T")));
    }
    let (reqs, errs) = (what("S"), &facts.art_errs["S"]);
    match c.paths.as_slice() {
        [i] => {
            let name = norm(ONE[*i].0, &b);
            if files != [name.clone()] {
                return Err(format!("files {files:?}, expected {name}"));
            }
            if ONE[*i].1 {
                // which content is there
                let k = if [6, 7].contains(i) { 0 } else { *i };
                if reqs != [format!("REQ_{k}")] || !errs.is_empty() {
                    return Err(format!("expected REQ_{k}, got {reqs:?} {errs:?}"));
                }
            } else {
                if !reqs.is_empty() {
                    return Err(format!("requirements out of nowhere: {reqs:?}"));
                }
                if !errs.iter().any(|e| match e {
                    Er::Io(f) => norm(f, &b) == name,
                    Er::Format(l) => norm(&l.file, &b) == name,
                    _ => false,
                }) {
                    return Err(format!("no error for {name}: {errs:?}"));
                }
            }
        }
        _ => {
            if errs.is_empty() {
                return Err("no error for a wrong number of paths".into());
            }
            if !reqs.is_empty() {
                return Err(format!("requirements out of nowhere: {reqs:?}"));
            }
        }
    }
    Ok(h(&(reqs, errs.len(), c.parser)))
}

/// many files, many patterns, deep directories
fn check_many(wk: &mut Wk<'_>, c: &(usize, usize)) -> Result<u64, String> {
    let &(kind, n) = c;
    let content = |i: usize| format!("fn f{i}() {{ requirement_covered!(REQ_{i}); }}\n").into_bytes();
    let path = |i: usize| match kind {
        0 => format!("f{i}.rs"),
        1 => format!("d{}/e{}/f{i}.rs", i % 7, i % 3),
        2 => format!("p{i}/x.rs"),
        _ => format!("{}x{i}.rs", "s/".repeat(i)),
    };
    let mut files: Files = (0..n).map(|i| (path(i), content(i))).collect();
    files.push(("other.txt".into(), b"fn g() { requirement_covered!(REQ_OTHER); }".to_vec()));
    let base = fresh(wk, "many", &files);
    let pats: Vec<String> = match kind {
        0 => vec!["*.rs".into()],
        1 => vec!["**/*.rs".into()],
        2 => (0..n).map(|i| format!("p{i}/*.rs")).collect(),
        _ => vec!["**/x*.rs".into()],
    };
    wk.runs += 1;
    let config = json!({"artefacts": [{"id": "R", "paths": pats, "parser": "Rust"}], "relations": []});
    let out = run(&base, config, &[TJ])?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let facts = facts_from_json(&out.files[0])?;
    let mut got: Vec<String> = facts.reqs["R"].iter().flat_map(|r| r.covers.iter().map(|x| x.id.clone())).collect();
    let mut want: Vec<String> = (0..n).map(|i| format!("REQ_{i}")).collect();
    got.sort();
    want.sort();
    if got != want {
        let lost: Vec<&String> = want.iter().filter(|w| !got.contains(w)).take(5).collect();
        return Err(format!("{} of {n} files were read; not read are {lost:?}...", got.len()));
    }
    if !facts.art_errs["R"].is_empty() {
        return Err(format!("{:?}", facts.art_errs["R"]));
    }
    Ok(h(c))
}

/// what is in a file has no influence on whether it belongs to the artefact, and none on the others
const KINDS: [&str; 20] = [
    "mark", "empty", "newline", "byte", "blank", "no_mark", "comment", "no_newline", "bom", "crlf", "nul", "latin1", "syntax", "large", "same", "read_only", "executable",
    "old", "future", "huge_line",
];

/// (kinds of the files, pattern or names)
fn gen_contents(c: &mut Ch) -> Option<(Vec<usize>, bool)> {
    let n = 1 + c.n(7);
    if n > 3 {
        // one among more
        let mut kinds = vec![0; n];
        let at = c.n(n);
        kinds[at] = c.n(KINDS.len());
        return Some((kinds, c.bool()));
    }
    let kinds: Vec<usize> = (0..n).map(|_| c.n(KINDS.len())).collect();
    let names = c.bool();
    if n == 3 && names && kinds.iter().filter(|k| **k != 0).count() < 2 {
        return Some((kinds, names));
    }
    if n == 3 && (names || kinds[0] != 0) {
        return None;
    }
    Some((kinds, names))
}

fn content_of(kind: usize, i: usize) -> (Vec<u8>, bool) {
    let mark = format!("fn f{i}() {{ requirement_covered!(REQ_{i}); }}\n");
    match KINDS[kind] {
        "empty" => (vec![], false),
        "newline" => (b"\n".to_vec(), false),
        "byte" => (b";".to_vec(), false),
        "blank" => (b"  \n\t\n".to_vec(), false),
        "no_mark" => (b"fn g() { let x = 1; }\n".to_vec(), false),
        "comment" => (b"// nothing\n".to_vec(), false),
        "no_newline" => (mark.trim().into(), true),
        // what becomes of these is said by another property
        "bom" => ([&b"\xef\xbb\xbf"[..], mark.as_bytes()].concat(), false),
        "nul" => (b"\0".to_vec(), false),
        "latin1" => (b"// \xe9\n".to_vec(), false),
        "syntax" => (b"fn {\n".to_vec(), false),
        "crlf" => (mark.replace('\n', "\r\n").into(), true),
        "large" => (format!("{}{mark}", "// a line of a comment\n".repeat(100_000)).into(), true),
        "huge_line" => (format!("/* {} */ {mark}", "x".repeat(200_000)).into(), true),
        "same" => (b"fn f0() { requirement_covered!(REQ_0); }\n".to_vec(), false),
        _ => (mark.into(), true),
    }
}

fn check_contents(wk: &mut Wk<'_>, c: &(Vec<usize>, bool)) -> Result<u64, String> {
    let (kinds, names) = c;
    let files: Files = kinds.iter().enumerate().map(|(i, k)| (format!("x{i}.rs"), content_of(*k, i).0)).collect();
    let base = fresh(wk, "contents", &files);
    for (i, k) in kinds.iter().enumerate() {
        use std::os::unix::fs::PermissionsExt;
        let f = base.join(format!("x{i}.rs"));
        let mode = |m| fs::set_permissions(&f, fs::Permissions::from_mode(m)).unwrap();
        let time = |s| fs::File::options().append(true).open(&f).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(s)).unwrap();
        match KINDS[*k] {
            "read_only" => mode(0o444),
            "executable" => mode(0o755),
            "old" => time(1),
            "future" => time(1 << 33),
            _ => {}
        }
    }
    let pats: Vec<String> = if *names {
        (0..kinds.len()).map(|i| format!("x{i}.rs")).collect()
    } else {
        vec!["x*.rs".into()]
    };
    wk.runs += 1;
    let config = json!({"artefacts": [{"id": "R", "paths": pats, "parser": "Rust"}], "relations": []});
    let out = run(&base, config, &[TJ])?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let facts = facts_from_json(&out.files[0])?;
    let v: Value = serde_json::from_str(&out.files[0]).map_err(|e| e.to_string())?;
    let b = base.display().to_string();
    let mut listed: Vec<String> = v["trace"]["artefacts"]["R"]["files"]
        .as_array()
        .ok_or("no list of files")?
        .iter()
        .map(|f| norm(f.as_str().unwrap_or(""), &b))
        .collect();
    listed.sort();
    let want: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    if listed != want {
        return Err(format!("files: expected {want:?}, listed {listed:?} ({:?})", kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()));
    }
    let got: BTreeSet<(String, String)> = facts.reqs["R"]
        .iter()
        .flat_map(|r| r.covers.iter().map(|x| (x.id.clone(), norm(&x.loc.file, &b))))
        .collect();
    for (i, k) in kinds.iter().enumerate() {
        if content_of(*k, i).1 && !got.contains(&(format!("REQ_{i}"), format!("x{i}.rs"))) {
            return Err(format!("x{i}.rs ({}) was not read: {got:?}", KINDS[*k]));
        }
        // a file that cannot be read is said so
        if ["latin1", "syntax"].contains(&KINDS[*k]) && facts.art_errs["R"].is_empty() {
            return Err(format!("no error for x{i}.rs ({})", KINDS[*k]));
        }
    }
    Ok(h(&(got, facts.art_errs["R"].len())))
}

/// words as names of files, of directories, and of files that are not there
fn gen_words(c: &mut Ch) -> Option<(String, usize, usize)> {
    let d = crate::words::dict();
    let w = c.of(&d.words).clone();
    let form = c.n(6);
    let parser = c.n(4);
    if w.contains(['/', '\0']) || w.len() > 100 || w == "." || w == ".." {
        return None;
    }
    if form < 2 && (w == "other" || w.trim().is_empty()) {
        return None;
    }
    Some((w, form, parser))
}

fn check_words(wk: &mut Wk<'_>, c: &(String, usize, usize)) -> Result<u64, String> {
    let (w, form, parser) = c;
    let name = match form {
        0 => w.clone(),
        1 => format!("{w}/x.in"),
        2 => format!("X{w}"),
        3 => format!("{w}.in"),
        4 => format!("new/{w}X"),
        _ => format!("x{w}y/in"),
    };
    let (parser, text) = [
        ("Markdown", "# REQ_1: T\n"),
        ("MonoRequirement", "T\n=> REQ_1\n"),
        ("Rust", "fn f() { requirement_covered!(REQ_1); }\n"),
        ("Json", ""),
    ][*parser];
    let text = if text.is_empty() {
        format!("[{}]", Req::new("REQ_1", None, Loc::line("f", 1)).json())
    } else {
        text.to_owned()
    };
    let base = fresh(wk, "words", &[(name.clone(), text.into_bytes())]);
    let pat: String = if parser == "Rust" {
        name.chars()
            .map(|c| match c {
                '*' | '?' | '[' | ']' => format!("[{c}]"),
                c => c.to_string(),
            })
            .collect()
    } else {
        name.clone()
    };
    // `**` is malformed next to anything else, escaped as it is here it is two stars
    wk.runs += 1;
    let config = json!({"artefacts": [{"id": "R", "paths": [pat], "parser": parser}], "relations": []});
    let out = run(&base, config.clone(), &[TJ])?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    let facts = facts_from_json(&out.files[0])?;
    let v: Value = serde_json::from_str(&out.files[0]).map_err(|e| e.to_string())?;
    let b = base.display().to_string();
    let listed: Vec<String> = v["trace"]["artefacts"]["R"]["files"]
        .as_array()
        .ok_or("no list of files")?
        .iter()
        .map(|f| norm(f.as_str().unwrap_or(""), &b))
        .collect();
    let plain = norm(&name, &b);
    if listed != [plain.clone()] {
        return Err(format!("files {listed:?}, expected {plain:?}"));
    }
    let found = facts.reqs["R"].len() == 1
        && facts.reqs["R"].iter().all(|r| match parser {
            "MonoRequirement" => r.depends.len() == 1,
            "Rust" => r.covers.len() == 1,
            _ => r.id == "REQ_1",
        });
    if !found || !facts.art_errs["R"].is_empty() {
        return Err(format!("{name:?} was not read: {:?} {:?}", facts.reqs["R"], facts.art_errs["R"]));
    }
    // without the file, there is an error and nothing else
    fs::remove_file(base.join(&name)).unwrap();
    let out = run(&base, config, &[TJ])?;
    if out.code != 1 {
        return Err(format!("{name:?} is not there, and the code is {}", out.code));
    }
    let facts = facts_from_json(&out.files[0])?;
    if !facts.reqs["R"].is_empty() || facts.art_errs["R"].is_empty() {
        return Err(format!("{name:?} is not there: {:?} {:?}", facts.reqs["R"], facts.art_errs["R"]));
    }
    Ok(h(&(form, parser)))
}

/// base directory and configuration as given on the command line
fn check_base(wk: &mut Wk<'_>, c: &(usize, usize, usize, usize)) -> Result<u64, String> {
    let &(base, pat, cwd, out) = c;
    let top = fresh(wk, "cli", &[]);
    let dir = top.join(["base", "b[1]", "sub/b *"][base]);
    fs::create_dir_all(&dir).unwrap();
    put_tree(&dir);
    fs::create_dir_all(top.join("other")).unwrap();
    let (pattern, want): (&str, &[usize]) = [
        ("a.rs", &[0][..]),
        ("d/**/*.rs", &[6, 7, 19, 21, 22, 25, 26]),
        ("../*/a.rs", &[0, 6]),
    ][pat];
    if pat == 2 && base == 2 {
        return Ok(0);
    }
    let abs = top.join("abs").join("t.out");
    let target = ["t.out", "n/t.out", abs.to_str().unwrap()][out];
    let config = json!({
        "artefacts": [{"id": "R", "paths": [pattern], "parser": "Rust"}],
        "relations": [],
        "jobs": {"t": {"query": "Parse", "format": "Json", "file": target}},
        "default_jobs": ["t"],
    });
    fs::write(top.join("conf.toml"), toml(&config)).unwrap();
    fs::write(dir.join("requirements.toml"), toml(&config)).unwrap();
    let d = dir.display().to_string();
    let conf = top.join("conf.toml").display().to_string();
    let (at, args): (std::path::PathBuf, Vec<String>) = match cwd {
        0 => (dir.clone(), vec![]),
        1 => (top.join("other"), vec!["-c".into(), conf, "-b".into(), d]),
        2 => (
            top.join("other"),
            vec!["--config".into(), "../conf.toml".into(), "--base".into(), format!("../{}", ["base", "b[1]", "sub/b *"][base])],
        ),
        _ => (dir.clone(), vec!["-c".into(), conf]),
    };
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let o = crate::cli::cli(wk, &at, &args, &Opt::default());
    if o.code != 0 && o.code != 1 {
        return Err(format!("exit code {}: {}", o.code, o.stderr));
    }
    let report = if out == 2 { abs.clone() } else { dir.join(target) };
    let text = fs::read_to_string(&report).map_err(|e| format!("{}: {e}", report.display()))?;
    let (reqs, errs, _) = parse_report(&text)?;
    let ids: BTreeSet<String> = reqs.iter().map(|r| r.id.clone()).collect();
    let mut w: BTreeSet<String> = want.iter().map(|i| format!("f{i}")).collect();
    if pat == 2 {
        // only the base has Rust files of that name, directly below it
        w = BTreeSet::from(["f0".to_owned()]);
    }
    if ids != w || !errs.is_empty() {
        return Err(format!("expected {w:?}, got {ids:?} {errs:?}"));
    }
    Ok(h(c))
}

pub fn run_all(ctx: &Ctx) {
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<GlobCase> + Sync)| {
        ctx.explore(fam, 4, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check_glob(wk, c))).collect());
    };
    go("patterns", &|c| {
        let p = c.n(PATTERNS.len());
        let abs = c.bool();
        let base = c.n(BASES.len());
        Some(GlobCase {
            pats: vec![(p, abs)],
            base,
        })
    });
    go("pairs", &|c| {
        let p = c.n(PATTERNS.len());
        let q = c.n(PATTERNS.len());
        let abs = c.n(3);
        Some(GlobCase {
            pats: vec![(p, abs == 1), (q, abs == 2)],
            base: 0,
        })
    });
    go("triples", &|c| {
        let n = ctx.q(20, 40);
        let p: Vec<(usize, bool)> = (0..3).map(|_| (c.n(n), false)).collect();
        Some(GlobCase { pats: p, base: 1 })
    });
    ctx.explore(
        "many",
        1,
        |c| {
            let kind = c.n(4);
            let n = *c.of(&[1usize, 2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097]);
            if kind == 3 && n > 65 {
                return None;
            }
            Some((kind, n))
        },
        |wk, cs| cs.iter().map(|c| verdict(check_many(wk, c))).collect(),
    );
    ctx.explore("contents", 1, gen_contents, |wk, cs| cs.iter().map(|c| verdict(check_contents(wk, c))).collect());
    ctx.explore("words", 2, gen_words, |wk, cs| cs.iter().map(|c| verdict(check_words(wk, c))).collect());
    ctx.explore(
        "single_file",
        4,
        |c| {
            let parser = *c.of(&["Markdown", "Json", "MonoRequirement"]);
            let len = c.n(3);
            let paths = (0..len).map(|_| c.n(ONE.len())).collect();
            let abs = c.bool();
            let base = c.n(BASES.len());
            Some(OneCase {
                parser,
                paths,
                abs,
                base,
            })
        },
        |wk, cs| cs.iter().map(|c| verdict(check_one(wk, c))).collect(),
    );
    ctx.explore(
        "command_line",
        1,
        |c| Some((c.n(3), c.n(3), c.n(4), c.n(3))),
        |wk, cs| cs.iter().map(|c| verdict(check_base(wk, c))).collect(),
    );
}
