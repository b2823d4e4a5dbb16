//! Words: every text that occurs in the sources of the tool, and others that are special
//! somewhere, at every place of an input where a text can be. What the tool compares a text with
//! is one of its own literals, so that special treatment of a text shows up here.

use crate::core::*;
use crate::exec::*;
use crate::model::*;
use crate::world::*;
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

const USUAL: [&str; 118] = [
    "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]",
    "^", "_", "`", "{", "|", "}", "~", " ", "  ", "...", "\u{2026}", "..", "./", "../", "//", "::", "--", "---", "->", "=>", "<-", "==", "===",
    "**", "__", "``", "```", "~~~", "{}", "{0}", "[x]", "[ ]", "(x)", "<b>", "</b>", "<!--", "-->", "<br>", "&amp;", "%20", "\\n",
    "\\", "\\\\", "$HOME", "~/", "C:", "http://x", "TODO", "todo", "TBD", "FIXME", "XXX", "n/a", "N/A", "none", "None", "null",
    "true", "false", "yes", "no", "on", "off", "draft", "deprecated", "derived", "Derived", "optional", "internal", "ignore",
    "test", "tests", "Test", "Note", "Rationale", "0", "1", "-1", "00", "1.0", "1e5", "007", "\u{a0}", "\u{df}", "\u{130}", "\u{131}",
    "\u{e9}", "e\u{301}", "\u{1F980}", "\u{4e2d}", "\u{feff}", "\u{200b}", "\u{b5}",
];

pub struct Dict {
    pub words: Vec<String>,
    pub ints: Vec<u64>,
}

/// the directory of the tool: the path that this crate depends on
fn repo() -> PathBuf {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    let toml = fs::read_to_string(Path::new(&dir).join("harness/Cargo.toml"))
        .unwrap_or_else(|e| engine_error(&format!("harness/Cargo.toml: {e}")));
    let p = toml
        .lines()
        .find_map(|l| l.strip_prefix("reqtrace = { path = \"")?.split('"').next())
        .unwrap_or_else(|| engine_error("no path of reqtrace"));
    p.into()
}

fn sources(dir: &Path, to: &mut Vec<PathBuf>) {
    let Ok(d) = fs::read_dir(dir) else { return };
    let mut all: Vec<PathBuf> = d.flatten().map(|e| e.path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            sources(&p, to);
        } else if p.extension().is_some_and(|e| e == "rs") {
            to.push(p);
        }
    }
}

/// string, character and integer literals of a Rust source (approximately: this only widens what
/// is explored)
fn literals(src: &str, words: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) => {
                let mut n = 0;
                i += 1;
                while at(i) == '#' {
                    n += 1;
                    i += 1;
                }
                i += 1;
                let from = i;
                while i < c.len() && !(c[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) {
                    i += 1;
                }
                words.insert(c[from..i.min(c.len())].iter().collect());
                i += 1 + n;
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match at(i) {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'x' => {
                                let h: String = c[i + 1..(i + 3).min(c.len())].iter().collect();
                                s.extend(u8::from_str_radix(&h, 16).map(char::from));
                                i += 2;
                            }
                            'u' => {
                                let mut h = String::new();
                                while i < c.len() && c[i] != '}' {
                                    if c[i].is_ascii_hexdigit() {
                                        h.push(c[i]);
                                    }
                                    i += 1;
                                }
                                s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                            }
                            '\n' => {
                                while at(i + 1).is_whitespace() {
                                    i += 1;
                                }
                            }
                            x => s.push(x),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                words.insert(s);
            }
            '\'' if at(i + 1) != '\\' && at(i + 2) == '\'' => {
                words.insert(at(i + 1).to_string());
                i += 3;
            }
            '\'' if at(i + 1) == '\\' => {
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            }
            d if d.is_ascii_digit() => {
                let mut s = String::new();
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    s.push(at(i));
                    i += 1;
                }
                let s = s.replace('_', "");
                let s = s.split(['u', 'i']).next().unwrap_or("").to_owned();
                let v = match s.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16),
                    None => s.parse(),
                };
                ints.extend(v);
            }
            x if x.is_alphabetic() || x == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

/// words without control characters, the numbers next to those in the sources
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut lits = BTreeSet::new();
        let mut nums = BTreeSet::new();
        let mut files = vec![];
        sources(&repo().join("src"), &mut files);
        if files.is_empty() {
            engine_error("no sources of reqtrace");
        }
        for f in files {
            literals(&fs::read_to_string(&f).unwrap_or_default(), &mut lits, &mut nums);
        }
        let mut words: BTreeSet<String> = BTreeSet::new();
        for l in lits {
            // parts of format strings and of regular expressions
            for line in l.lines() {
                words.insert(line.to_owned());
                words.insert(line.trim().to_owned());
                for p in line.split(|c: char| c.is_whitespace() || "{}()[]|\\?*+^$\"'`,;".contains(c)) {
                    words.insert(p.to_owned());
                    words.insert(p.trim_matches(|c: char| !c.is_alphanumeric()).to_owned());
                }
            }
        }
        words.extend(USUAL.iter().map(|w| (*w).to_owned()));
        let words: Vec<String> = words
            .into_iter()
            .filter(|w| !w.is_empty() && w.chars().count() <= 32 && !w.chars().any(char::is_control))
            .take(1500)
            .collect();
        let ints: BTreeSet<u64> = nums
            .into_iter()
            .flat_map(|n| [n.saturating_sub(1), n, n.saturating_add(1)])
            .take(300)
            .collect();
        Dict {
            words,
            ints: ints.into_iter().collect(),
        }
    })
}

pub const FORMS: usize = 8;
/// the text around the words, alone, twice, two words
const AROUND: [&str; 4] = ["Xabcd", "XabcdXabcd", "Xabcd Xabcd", "Xabcd Xabcd Xabcd"];

/// a word in a text
pub fn form(k: usize, w: &str) -> String {
    let x = AROUND[0];
    match k {
        0 => w.to_owned(),
        1 => format!("{x}{w}"),
        2 => format!("{w}{x}"),
        3 => format!("{x}{w}{x}"),
        4 => format!("{x} {w}"),
        5 => format!("{w} {x}"),
        6 => format!("{}{w}", &x[..3]),
        _ => format!("{w}{}", &x[3..]),
    }
}

#[derive(Clone, Debug, Hash)]
pub struct Case {
    pub w: World,
    /// the text reports can be read without doubt
    text: bool,
}

/// can the readers of the text reports tell where this text begins and ends?
fn tame(f: &str, strict: bool) -> bool {
    let low = f.to_lowercase();
    const KEYS: [&str; 22] = [
        "duplicate", "unknown", "title", "reference", "relation", "note", "covered", "derived", "error", "tracing", "require", "origin",
        "attribute", "config", "lower", "upper", "tag", "depend", "cover", "descri", "artefact", "comment",
    ];
    if KEYS.iter().any(|k| low.contains(k)) || low != f.to_lowercase().trim() {
        return false;
    }
    if strict {
        f.chars().all(|c| c.is_alphanumeric() || c == '_')
    } else {
        f.chars().all(|c| c.is_alphanumeric() || "_-.#~@$%+!&".contains(c)) && f.starts_with(|c: char| c.is_alphanumeric())
    }
}

const CHUNK: usize = 16;
const FIELDS: usize = 15;

pub fn fam_words(ch: &mut Ch, full: bool, kinds: bool) -> Option<Case> {
    let d = dict();
    let field = ch.n(FIELDS);
    let k = ch.n(if full || field < 8 { FORMS } else { 3 });
    let text = ch.bool();
    let rwt = (5..8).contains(&field) && (full || field == 5) && ch.bool();
    let down = (5..8).contains(&field) && ch.bool();
    let kind = if kinds && (8..11).contains(&field) { ch.n(2) } else { 0 };
    let chunk = ch.n(d.words.len().div_ceil(CHUNK));
    let mut lg = Lg::new(1);
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    let mut c = Art::new("ArtC");
    let mut rels = vec![Rel::new("ArtA", &["ArtB"])];
    let mut more = vec![];
    if rwt {
        a.rwt = Some(true);
    }
    let new = |id: &str, s: &mut Lg| Req::new(id, Some(&format!("Title {id}")), s.next());
    let rf = |id: &str, t: Option<&str>, s: &mut Lg| Ref {
        id: id.into(),
        title: t.map(Into::into),
        loc: s.next(),
    };
    let mut any = false;
    match field {
        3 => a.reqs = AROUND.map(|x| new(x, &mut lg)).to_vec(),
        4 => b.reqs = AROUND.map(|x| new(x, &mut lg)).to_vec(),
        _ => {}
    }
    for (i, word) in d.words.iter().enumerate().skip(chunk * CHUNK).take(CHUNK) {
        let f = form(k, word);
        // (the reports have words of their own, such as No, Cov)
        let t = tame(&f, field == 14) && (field != 14 || k == 1 || k == 3);
        if f.trim().is_empty() || (text != t && !(field == 8 && text)) {
            continue;
        }
        if field == 8 && !text {
            continue;
        }
        let (u, v, dn, e, x) = (format!("U{i}"), format!("V{i}"), format!("D{i}"), format!("E{i}"), format!("C{i}"));
        match field {
            // the id of a requirement that is referenced, from below and from above
            0 => {
                a.reqs.push(new(&f, &mut lg));
                let mut r = new(&dn, &mut lg);
                r.covers.push(rf(&f, None, &mut lg));
                b.reqs.push(r);
            }
            1 => {
                let mut r = new(&u, &mut lg);
                r.depends.push(rf(&f, None, &mut lg));
                a.reqs.push(r);
                b.reqs.push(new(&f, &mut lg));
            }
            // only the requirement has it, only the reference
            2 => {
                a.reqs.push(new(&f, &mut lg));
                let mut r = new(&dn, &mut lg);
                for t in AROUND {
                    r.covers.push(rf(t, None, &mut lg));
                }
                b.reqs.push(r);
            }
            3 => {
                let mut r = new(&dn, &mut lg);
                r.covers.push(rf(&f, None, &mut lg));
                b.reqs.push(r);
            }
            4 => {
                let mut r = new(&u, &mut lg);
                r.depends.push(rf(&f, None, &mut lg));
                a.reqs.push(r);
            }
            // titles
            5..=7 => {
                
                let mut r = new(&u, &mut lg);
                let mut q = new(&dn, &mut lg);
                match field {
                    5 => {
                        r.title = Some(f.clone());
                        q.covers.push(rf(&u, Some(&f), &mut lg));
                        q.covers.push(rf(&u, None, &mut lg));
                    }
                    6 => {
                        r.title = Some(f.clone());
                        for t in &AROUND[..if full { 4 } else { 1 }] {
                            q.covers.push(rf(&u, Some(t), &mut lg));
                        }
                    }
                    _ => {
                        r.title = Some(AROUND[3].into());
                        q.covers.push(rf(&u, Some(&f), &mut lg));
                        for (j, t) in AROUND.iter().enumerate().take(if full { 3 } else { 1 }) {
                            let mut o = new(&format!("O{i}{j}"), &mut lg);
                            o.title = Some((*t).into());
                            q.covers.push(rf(&o.id, Some(&f), &mut lg));
                            a.reqs.push(o);
                        }
                    }
                }
                a.reqs.push(r);
                if down {
                    q.depends.append(&mut q.covers);
                }
                b.reqs.push(q);
            }
            // tags, attributes, files: nothing depends on them
            8..=11 => {
                let mut all = [&u, &v, &dn, &e, &x].map(|id| new(id, &mut lg));
                all[2].covers.push(rf(&u, None, &mut lg));
                all[3].depends.push(rf(&v, None, &mut lg));
                for r in &mut all {
                    match (field, kind) {
                        (8, 0) => r.tags = vec![f.clone()],
                        (8, _) => r.tags = vec!["z".into(), f.clone(), "a".into(), f.clone()],
                        (9, 0) => {
                            r.attrs.insert(f.clone(), "v".into());
                        }
                        (9, _) => {
                            r.attrs.insert(f.clone(), "v".into());
                            r.attrs.insert("Description".into(), "text".into());
                        }
                        (10, 0) => {
                            r.attrs.insert("Description".into(), f.clone());
                        }
                        (10, _) => {
                            r.attrs.insert("Zeta".into(), format!("one\n{f}\ntwo"));
                        }
                        _ => {
                            r.loc.file = f.clone();
                            for x in r.covers.iter_mut().chain(&mut r.depends) {
                                x.loc.file = f.clone();
                            }
                        }
                    }
                }
                let [u, v, dn, e, x] = all;
                a.reqs.extend([u, v]);
                b.reqs.extend([dn, e]);
                c.reqs.push(x);
            }
            // defined three times, with different references
            12 => {
                let mut r = new(&dn, &mut lg);
                r.covers.push(rf(&f, None, &mut lg));
                a.reqs.push(new(&f, &mut lg));
                a.reqs.push(new(&f, &mut lg));
                let mut o = new(&f, &mut lg);
                o.title = Some("another".into());
                c.reqs.push(o);
                b.reqs.push(r);
            }
            // positions
            13 => {
                let n = d.ints.get(i % d.ints.len().max(1)).copied().unwrap_or(1);
                for (j, p) in [Pos::Line(n), Pos::Col(n, 3), Pos::Col(3, n), Pos::Str(f.clone())].into_iter().enumerate() {
                    let mut r = new(&format!("{u}_{j}"), &mut lg);
                    r.loc.pos = p.clone();
                    a.reqs.push(r);
                    let mut r = new(&format!("{dn}_{j}"), &mut lg);
                    r.loc.pos = p.clone();
                    r.covers.push(rf("nothing", None, &mut lg));
                    r.covers[0].loc.pos = p;
                    b.reqs.push(r);
                }
            }
            // artefacts
            _ => {
                if f.contains(['/', '\\']) || f.len() > 60 || more.iter().any(|m: &Art| m.id == f) || f.starts_with("Art") {
                    continue;
                }
                let mut m = Art::new(&f);
                a.reqs.push(new(&u, &mut lg));
                let mut r = new(&dn, &mut lg);
                r.covers.push(rf(&u, None, &mut lg));
                m.reqs.push(r);
                m.reqs.push(new(&e, &mut lg));
                rels.push(Rel::new("ArtA", &[&f]));
                more.push(m);
            }
        }
        any = true;
    }
    if !any {
        return None;
    }
    if down {
        std::mem::swap(&mut a.reqs, &mut b.reqs);
        std::mem::swap(&mut a.rwt, &mut b.rwt);
    }
    let mut arts = vec![a, b, c];
    arts.extend(more);
    Some(Case {
        w: World { arts, rels },
        text,
    })
}

pub fn explore(ctx: &Ctx, p: P) {
    if p != P::C14 {
        ctx.explore("fields", 16, fam_fields, |wk, ws| ws.iter().map(|w| check_json(wk, p, w).map_or_else(Verdict::Bad, Verdict::Held)).collect());
    }
    let full = ctx.thorough() || p == P::C15;
    ctx.explore("words", 4, |ch| fam_words(ch, full, full || p == P::C13), |wk, cs| {
        cs.iter()
            .map(|c| {
                let r = if c.text { check_world_(wk, p, &c.w) } else { check_json(wk, p, &c.w) };
                r.map_or_else(Verdict::Bad, Verdict::Held)
            })
            .collect()
    });
}

/// what becomes of a requirement does not depend on what else is known about it: one requirement of
/// every kind, with every combination of what can be in its other fields
pub fn fam_fields(ch: &mut Ch) -> Option<World> {
    let status = ch.n(16);
    let id = *ch.of(&["RUT", ""]);
    let title = *ch.of(&[Some("Title RUT"), None, Some(""), Some(" "), Some("RUT")]);
    let attrs: &[(&str, &str)] = *ch.of(&[
        &[][..],
        &[("Description", "text")],
        &[("Description", "")],
        &[("Comment", "text"), ("Description", "a\n\nb"), ("Note", "")],
        &[("", "")],
        &[("Covers", "UP"), ("Depends", "XX"), ("Tags", "t"), ("Status", "deprecated")],
    ]);
    let tags: &[&str] = *ch.of(&[&[][..], &["a"], &["", "a", "a"]]);
    let at = |file: &str, pos| Loc { file: file.into(), pos };
    let loc = [at("r.md", Pos::None), at("r.md", Pos::Line(7)), at("r.md", Pos::Col(7, 3)), at("r.md", Pos::Str("p".into())), at("", Pos::None)][ch.n(5)].clone();
    let rloc = [at("r.md", Pos::Line(8)), at("s.md", Pos::Col(1, 1)), loc.clone()][ch.n(3)].clone();
    let rwt = ch.bool();
    let rf = |i: &str, t: Option<&str>| Ref {
        id: i.into(),
        title: t.map(Into::into),
        loc: rloc.clone(),
    };
    let mut r = Req::new(id, title, loc.clone());
    r.tags = tags.iter().map(|t| (*t).to_owned()).collect();
    r.attrs = attrs.iter().map(|(k, v)| ((*k).to_owned(), (*v).to_owned())).collect();
    let plain = |i: &str, n| Req::new(i, Some(&format!("Title {i}")), Loc::line("o.md", n));
    let mut arts = vec![Art::new("ArtA"), Art::new("ArtB"), Art::new("ArtC")];
    let mut low = plain("LOW", 1);
    match status {
        // not covered, not derived
        0 => arts[0].reqs.push(r),
        1 => arts[1].reqs.push(r),
        // covered
        2 => {
            low.covers.push(rf(id, None));
            arts[0].reqs.push(r);
        }
        3 => {
            r.depends.push(rf("LOW", None));
            arts[0].reqs.push(r);
        }
        4 => {
            low.covers.push(rf(id, title));
            arts[0].reqs.push(r);
        }
        5 => {
            low.covers.push(rf(id, Some("wrong")));
            arts[0].reqs.push(r);
        }
        6 => {
            low.covers.push(rf(id, Some("")));
            arts[0].reqs.push(r);
        }
        // covers
        7 => {
            r.covers.push(rf("UP", None));
            arts[1].reqs.push(r);
        }
        8 => {
            r.covers.push(rf("UP", Some("wrong")));
            arts[1].reqs.push(r);
        }
        9 => {
            r.covers.push(rf("UP", None));
            r.covers.push(rf("UP", None));
            arts[1].reqs.push(r);
        }
        // unknown, without a relation, itself
        10 => {
            r.covers.push(rf("NONE", None));
            arts[1].reqs.push(r);
        }
        11 => {
            r.depends.push(rf("NONE", Some("t")));
            arts[0].reqs.push(r);
        }
        12 => {
            r.covers.push(rf("OTHER", None));
            arts[1].reqs.push(r);
        }
        13 => {
            r.covers.push(rf(id, title));
            arts[0].reqs.push(r);
        }
        // twice
        14 => {
            arts[0].reqs.push(r.clone());
            r.loc = rloc;
            arts[1].reqs.push(r);
        }
        _ => {
            let mut s = r.clone();
            s.title = Some("Another".into());
            arts[0].reqs.extend([r, s]);
        }
    }
    if rwt {
        for a in &mut arts {
            a.rwt = Some(true);
        }
    }
    arts[0].reqs.push(plain("UP", 2));
    arts[1].reqs.push(low);
    arts[2].reqs.push(plain("OTHER", 3));
    Some(World {
        arts,
        rels: vec![Rel::new("ArtA", &["ArtB"])],
    })
}

/// a single problem, or none, and a word where the problem is (C12)
pub fn fam_problem(ch: &mut Ch, full: bool) -> Option<World> {
    let d = dict();
    let kind = ch.n(15);
    let k = if full { ch.n(FORMS) } else { *ch.of(&[0usize, 2, 3]) };
    let w = ch.of(&d.words);
    let f = form(k, w);
    if f.trim().is_empty() || f == "UP" || f == "LO" {
        return None;
    }
    let mut lg = Lg::new(1);
    let mut new = |id: &str| Req::new(id, Some(&format!("Title {id}")), lg.next());
    let (up, mut lo, mut more, mut last) = (new("UP"), new("LO"), new("MORE"), new(&f));
    let mut lg = Lg::new(50);
    let mut rf = |id: &str, t: Option<&str>| Ref {
        id: id.into(),
        title: t.map(Into::into),
        loc: lg.next(),
    };
    lo.covers.push(rf("UP", None));
    let (mut a, mut b) = (Art::new("ArtA"), Art::new("ArtB"));
    match kind {
        // not covered, derived, and covered
        0 => a.reqs.push(last),
        1 => b.reqs.push(last),
        2 => {
            lo.covers.push(rf(&f, None));
            a.reqs.push(last);
        }
        3 => {
            last.covers.push(rf("UP", None));
            b.reqs.push(last);
        }
        // unknown
        4 => lo.covers.push(rf(&f, None)),
        5 => lo.depends.push(rf(&f, None)),
        // twice
        6 => {
            lo.covers.push(rf(&f, None));
            a.reqs.push(last.clone());
            last.title = Some("other".into());
            a.reqs.push(last);
        }
        // a wrong title, and a right one
        7 => lo.covers.push(rf("UP", Some(&f))),
        8 => {
            more.title = Some(f.clone());
            lo.covers.push(rf("MORE", Some(&f)));
            a.reqs.push(more);
        }
        // of what is not covered, or derived
        _ => {
            match kind {
                9 | 10 => more.title = Some(f.clone()),
                11 => more.tags.push(f.clone()),
                12 => {
                    more.attrs.insert(f.clone(), "x".into());
                }
                13 => {
                    more.attrs.insert("Description".into(), f.clone());
                }
                _ => more.loc.file = f.clone(),
            }
            if kind % 2 == 0 { &mut a } else { &mut b }.reqs.push(more);
        }
    }
    a.reqs.push(up);
    b.reqs.push(lo);
    Some(World {
        arts: vec![a, b],
        rels: vec![Rel::new("ArtA", &["ArtB"])],
    })
}

/// what the JSON reports and the tags say
fn check_json(wk: &mut Wk<'_>, p: P, w: &World) -> Result<u64, String> {
    let prefix = format!("{}/", wk.dir.display());
    let x = trace(w, &prefix);
    wk.count("model_steps", x.steps);
    if p == P::C14 {
        return Ok(0);
    }
    if p == P::C15 {
        let ids = x.reqs.values().flatten();
        if !ids.clone().all(|r| r.id.starts_with(|c: char| c.is_alphabetic() || c == '_')) {
            return Ok(0);
        }
        return check_world_(wk, p, w);
    }
    let out = run_world(wk, w, if p == P::C13 { &[TJ, PJ] } else { &[TJ] })?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    judge_json(p, &x, &out.files[0], out.files.last().unwrap())
}
