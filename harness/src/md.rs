//! Markdown artefacts: reference model and families of documents

use crate::core::*;
use crate::docs::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

fn start(c: char) -> bool {
    c.is_alphabetic()
}
fn cont(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || ('\u{300}'..='\u{36f}').contains(&c) || c == '\u{b7}'
}

/// an id at the start of `s` (at least two characters), and the rest
pub fn take_id(s: &str) -> Option<(&str, &str)> {
    let mut it = s.char_indices();
    let (_, c) = it.next()?;
    if !start(c) {
        return None;
    }
    let end = it.find(|(_, c)| !cont(*c)).map_or(s.len(), |(i, _)| i);
    if s[..end].chars().count() < 2 {
        return None;
    }
    Some((&s[..end], &s[end..]))
}

enum Line<'a> {
    Blank,
    Req(usize, &'a str, &'a str),
    Head(usize),
    Text,
}

fn classify(l: &str) -> Line<'_> {
    if l.trim().is_empty() {
        return Line::Blank;
    }
    let rest = l.trim_start_matches('#');
    let level = l.len() - rest.len();
    if level == 0 {
        return Line::Text;
    }
    if let Some((id, rest)) = take_id(rest.trim_start()) {
        if let Some(t) = rest.strip_prefix(':') {
            if !t.trim().is_empty() {
                return Line::Req(level, id, t.trim());
            }
        }
    }
    Line::Head(level)
}

/// `Name: rest`
fn attribute(l: &str) -> Option<(&str, &str)> {
    let (name, rest) = l.split_once(':')?;
    let mut c = name.chars();
    let first = c.next()?;
    if first.is_ascii_uppercase() && name.len() > 1 && c.all(|c| c.is_ascii_lowercase()) {
        Some((name, rest))
    } else {
        None
    }
}

/// `* ID` or `* ID: Title`
fn bullet(l: &str) -> Option<(&str, Option<&str>)> {
    let l = l.trim();
    let rest = l.strip_prefix(['*', '+', '-'])?;
    if !rest.starts_with(char::is_whitespace) {
        return None;
    }
    let (id, rest) = take_id(rest.trim_start())?;
    if rest.is_empty() {
        return Some((id, None));
    }
    // blanks are allowed after the id only at the end of the line, which is trimmed
    let t = rest.strip_prefix(':')?.trim();
    if t.is_empty() {
        None
    } else {
        Some((id, Some(t)))
    }
}

#[derive(PartialEq, Debug, Clone)]
enum At {
    Outside,      // before the first requirement, or after a heading
    Start,        // no text yet
    Para,         // in a paragraph of the description
    Gap,          // after a blank line in the description
    Between,      // after a list of references: an attribute has to come
    Attr(String), // in the text of an attribute
    List(bool),   // in a list of references (true: Covers)
    Skip,         // after an error
}

#[derive(Debug, Clone, Default)]
pub struct MdExpect {
    pub reqs: Vec<Req>,
    pub errs: Vec<Er>,
    /// the last requirement, if it is one that has an error and nothing after it (finding K1)
    pub k1: Option<Req>,
    pub steps: u64,
}

fn finish(out: &mut MdExpect, cur: &mut Option<Req>) {
    if let Some(r) = cur.take() {
        out.reqs.push(r);
    }
}

pub fn expect(name: &str, bytes: &[u8]) -> MdExpect {
    let mut out = MdExpect::default();
    let mut cur: Option<Req> = None;
    let mut level = 0;
    let mut at = At::Outside;
    let mut lines: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
    if lines.last().is_some_and(|l| l.is_empty()) {
        lines.pop();
    }
    for (no, raw) in lines.iter().enumerate() {
        out.steps += 1;
        let line = String::from_utf8_lossy(raw);
        let line: &str = &line;
        let loc = Loc::line(name, no as u64 + 1);
        let text_ok = matches!(at, At::Start | At::Para | At::Gap | At::Attr(_));
        let text: &str;
        match classify(line) {
            Line::Req(l, id, title) => {
                finish(&mut out, &mut cur);
                cur = Some(Req::new(id, Some(title), loc));
                level = l;
                at = At::Start;
                continue;
            }
            Line::Head(l) => {
                if l > level && text_ok {
                    text = &line[level..];
                } else {
                    finish(&mut out, &mut cur);
                    at = At::Outside;
                    continue;
                }
            }
            Line::Blank => {
                match &at {
                    At::Para | At::Gap => {
                        add_text(&mut cur, "Description", "");
                        at = At::Gap;
                    }
                    At::Attr(k) => {
                        let k = k.clone();
                        add_text(&mut cur, &k, "");
                    }
                    At::List(_) => at = At::Between,
                    _ => {}
                }
                continue;
            }
            Line::Text => text = line,
        }
        // a line of text
        let attr = match at {
            At::Start | At::Gap | At::Between | At::Attr(_) => attribute(text),
            At::List(_) if bullet(text).is_none() => attribute(text),
            _ => None,
        };
        if let Some((k, rest)) = attr {
            let r = cur.as_mut().unwrap();
            let repeated = match k {
                "Covers" => !r.covers.is_empty(),
                "Depends" => !r.depends.is_empty(),
                _ => r.attrs.contains_key(k),
            };
            if repeated {
                out.errs
                    .push(Er::DupAttr(loc.clone(), k.to_owned(), r.id.clone()));
            }
            if k == "Covers" || k == "Depends" {
                let list: Vec<Ref> = rest
                    .split(',')
                    .map(str::trim)
                    .filter(|i| !i.is_empty())
                    .map(|i| Ref {
                        id: i.to_owned(),
                        title: None,
                        loc: loc.clone(),
                    })
                    .collect();
                if k == "Covers" {
                    r.covers = list;
                } else {
                    r.depends = list;
                }
                at = At::List(k == "Covers");
            } else {
                r.attrs.insert(k.to_owned(), String::new());
                if !rest.trim().is_empty() {
                    add_text(&mut cur, k, rest.trim());
                }
                at = At::Attr(k.to_owned());
            }
            continue;
        }
        match at.clone() {
            At::Outside | At::Skip => {}
            At::Start | At::Para | At::Gap => {
                add_text(&mut cur, "Description", text);
                at = At::Para;
            }
            At::Attr(k) => add_text(&mut cur, &k, text),
            At::Between => {
                out.errs.push(Er::Format(loc));
                at = At::Skip;
            }
            At::List(covers) => {
                if let Some((id, title)) = bullet(text) {
                    let r = cur.as_mut().unwrap();
                    let l = if covers { &mut r.covers } else { &mut r.depends };
                    l.push(Ref {
                        id: id.to_owned(),
                        title: title.map(Into::into),
                        loc,
                    });
                } else {
                    out.errs.push(Er::Format(loc));
                    at = At::Skip;
                }
            }
        }
    }
    if at == At::Skip {
        out.k1 = cur.take();
    }
    finish(&mut out, &mut cur);
    out
}

fn add_text(cur: &mut Option<Req>, k: &str, text: &str) {
    let v = cur
        .as_mut()
        .unwrap()
        .attrs
        .entry(k.to_owned())
        .or_default();
    v.push_str(text);
    v.push('\n');
}

/// the first definition of every id, and the errors for the others
fn dedup(reqs: &[Req]) -> (BTreeMap<String, Req>, BTreeSet<Er>) {
    let mut m: BTreeMap<String, Req> = BTreeMap::new();
    let mut e = BTreeSet::new();
    for r in reqs {
        if let Some(f) = m.get(&r.id) {
            e.insert(Er::Dup(r.id.clone(), f.loc.clone(), r.loc.clone()));
        } else {
            m.insert(r.id.clone(), norm_req(r));
        }
    }
    (m, e)
}

pub fn judge(errors: bool, doc: &Doc, got: &Parsed) -> Verdict {
    let x = expect(&doc.name, &doc.bytes);
    let mut got_reqs = BTreeMap::new();
    for r in &got.0 {
        if got_reqs.insert(r.id.clone(), norm_req(r)).is_some() {
            return Verdict::Bad(format!("{} is reported twice", r.id));
        }
    }
    let outcome = h(&(&got.0, &got.1));
    let (want, dups) = dedup(&x.reqs);
    let (got_dups, got_errs): (BTreeSet<Er>, BTreeSet<Er>) = got
        .1
        .iter()
        .cloned()
        .partition(|e| matches!(e, Er::Dup(..)));
    let want_errs: BTreeSet<Er> = x.errs.iter().cloned().collect();
    if errors && got_errs != want_errs {
        return Verdict::Bad(format!(
            "errors:\n expected {want_errs:?}\n actual   {got_errs:?}"
        ));
    }
    if errors && want_errs.is_empty() {
        return Verdict::Held(outcome);
    }
    if let Some(k1) = &x.k1 {
        let mut all = x.reqs.clone();
        all.push(k1.clone());
        let (w2, d2) = dedup(&all);
        if got_reqs == w2 && got_dups == d2 {
            return Verdict::Held(outcome);
        }
        if got_reqs == want && got_dups == dups {
            return Verdict::Known(
                "K1 a Markdown requirement with a format error that nothing follows is dropped"
                    .into(),
            );
        }
    }
    if got_reqs != want {
        return Verdict::Bad(format!(
            "requirements:\n expected {want:?}\n actual   {got_reqs:?}"
        ));
    }
    if got_dups != dups {
        return Verdict::Bad(format!(
            "duplicates:\n expected {dups:?}\n actual   {got_dups:?}"
        ));
    }
    Verdict::Held(outcome)
}

// ---------------------------------------------------------------------------------------------
// families

pub const LINES: [&str; 20] = [
    "",
    "text",
    "# AA: Title A",
    "* R1: Ref title",
    "Covers: X1, Y1",
    "Comment: c1",
    "## AB: Title B",
    "# Head",
    "### Sub",
    "Depends: Z1",
    "Covers:",
    "* R2",
    "Comment:",
    "  - R3:  padded title ",
    "Description: d",
    "Depends:",
    "Rationale: r: s",
    "not * a: bullet",
    "    indented",
    "lower: case",
];

/// the lines that the short documents are made of
pub const CORE: [usize; 9] = [0, 1, 2, 3, 4, 5, 7, 8, 9];

pub fn doc(lines: &[&str], end: usize) -> Doc {
    let nl = if end >= 2 { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if end % 2 == 0 && !lines.is_empty() {
        s.push_str(nl);
    }
    Doc {
        name: "doc.md".into(),
        bytes: s.into_bytes(),
    }
}

/// a requirement followed by every sequence of up to n lines
pub fn fam_lines(ch: &mut Ch, alph: &[usize], n: usize, exact: bool, prefix: &[&str], end: usize) -> Option<Doc> {
    let mut lines: Vec<&str> = prefix.to_vec();
    let len = if exact { n } else { ch.n(n + 1) };
    for _ in 0..len {
        lines.push(LINES[*ch.of(alph)]);
    }
    Some(doc(&lines, end))
}

pub const BASES: [&[&str]; 4] = [
    &[
        "# Document",
        "Intro",
        "",
        "## AA: Title A",
        "",
        "Paragraph one",
        "goes on",
        "",
        "Paragraph two",
        "",
        "Covers: X1, Y1",
        "",
        "Depends:",
        "* R1: Ref title",
        "* R2",
        "",
        "Comment: c1",
        "more",
        "",
        "## AC: Title C",
        "Text C",
    ],
    &[
        "# AA: Title A",
        "Covers:",
        "* R1: Ref title",
        "Depends: Z1",
        "",
        "Comment:",
        "long",
        "",
        "### Sub",
        "",
        "tail",
        "Rationale: r",
        "# AB: Title B",
        "",
        "Description: d",
        "# Head",
        "stray",
        "# AC: Title C",
        "Covers: X1",
    ],
    &[
        "## AA: Title A",
        "Text",
        "",
        "### AB: Title B",
        "Covers: X1",
        "oops",
        "ignored",
        "",
        "#### AC: Title C",
        "Depends: Y1",
        "",
        "oops",
        "## Head",
        "## AD: Title D",
        "Comment: a",
        "Comment: b",
        "",
        "Covers: Z1",
        "Covers: Z2",
        "# End",
    ],
    &[
        "# AA: Title A",
        "para",
        "",
        "## Sub one",
        "para",
        "",
        "### Sub two",
        "",
        "Comment: c",
        "## Sub three",
        "text",
        "",
        "Depends:",
        "* R1",
        "",
        "Covers:",
        "+ R2: T",
        "- R3",
        "",
    ],
];

/// long documents with up to k edits: a line removed, inserted or replaced
pub fn fam_edits(ch: &mut Ch, k: usize, alph: &[usize], ends: usize) -> Option<Doc> {
    let base = *ch.of(&BASES);
    let end = ch.n(ends);
    let mut lines: Vec<&str> = base.to_vec();
    let n = ch.n(k + 1);
    let mut from = 0;
    for _ in 0..n {
        if from >= lines.len() {
            return None;
        }
        let i = from + ch.n(lines.len() - from);
        match ch.n(3) {
            0 => {
                lines.remove(i);
                from = i;
            }
            1 => {
                lines.insert(i, LINES[*ch.of(alph)]);
                from = i + 1;
            }
            _ => {
                lines[i] = LINES[*ch.of(alph)];
                from = i + 1;
            }
        }
    }
    Some(doc(&lines, end))
}

/// every string over an alphabet, as one line of a document
pub fn fam_chars(ch: &mut Ch, context: &[(&[&str], &[&str])], alph: &[&str], n: usize) -> Option<Doc> {
    let (pre, post) = *ch.of(context);
    let end = ch.n(4);
    let len = ch.n(n + 1);
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(ch.of(alph));
    }
    let mut lines: Vec<&str> = pre.to_vec();
    lines.push(&s);
    lines.extend_from_slice(post);
    Some(doc(&lines, end))
}

/// arbitrary bytes
pub fn fam_bytes(ch: &mut Ch, n: usize) -> Option<Doc> {
    const B: [&[u8]; 12] = [
        b"#", b"A", b"\n", b":", b" ", b"*", b"\xff", b"\xc3\x84", b"\xc3", b"\r", b"\0", b"\xf0\x9f\xa6\x80",
    ];
    let ctx: &[u8] = *ch.of(&[&b""[..], b"# AA: T\n", b"# AA: T\nCovers:\n", b"# AA: T\n\nNote:"]);
    let mut bytes = ctx.to_vec();
    for _ in 0..ch.n(n + 1) {
        bytes.extend_from_slice(ch.of(&B));
    }
    Some(Doc {
        name: "b.md".into(),
        bytes,
    })
}

/// every byte of a document at the end of a buffer
pub fn fam_buffer(ch: &mut Ch) -> Option<Doc> {
    let base = *ch.of(&BASES);
    let end = ch.n(4);
    let size = *ch.of(&[8192usize, 16384]);
    let fill = *ch.of(&["x", "\u{e4}"]);
    let mut lines: Vec<String> = vec!["# ZZ: z".into(), String::new()];
    lines.extend(base.iter().map(|l| l.replace("Title", "T\u{ef}tle")));
    let lines: Vec<&str> = lines.iter().map(String::as_str).collect();
    let d = doc(&lines, end);
    let tail = &d.bytes[8..];
    let off = ch.n(tail.len() + 1);
    let mut bytes = b"# ZZ: z\n".to_vec();
    while bytes.len() + fill.len() <= size - off {
        bytes.extend_from_slice(fill.as_bytes());
    }
    bytes.extend_from_slice(tail);
    Some(Doc {
        name: d.name,
        bytes,
    })
}

pub const SIZES: [usize; 26] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256,
];
pub const BIG: [usize; 9] = [257, 999, 1000, 1001, 4096, 65534, 65535, 65536, 2_200_000];

/// much of one thing
pub fn fam_scale(ch: &mut Ch) -> Option<Doc> {
    let kind = ch.n(17);
    let i = ch.n(SIZES.len() + BIG.len());
    let n = *SIZES.iter().chain(&BIG).nth(i).unwrap();
    if n > 1001 && ![0, 8, 9, 10, 11].contains(&kind) {
        return None;
    }
    let mut l: Vec<String> = vec![];
    let many = |l: &mut Vec<String>, f: &dyn Fn(usize) -> String| l.extend((0..n).map(f));
    let word = |i: usize| {
        let mut s = String::from("A");
        for d in [26 * 26, 26, 1] {
            s.push((b'a' + (i / d % 26) as u8) as char);
        }
        s
    };
    let aa = || "# AA: Title".to_owned();
    match kind {
        0 => {
            many(&mut l, &|_| String::new());
            l.push(aa());
            l.push("Covers: X1".into());
        }
        1 => {
            for i in 0..n {
                l.extend([format!("## R{i}: t{i}"), format!("text {i}"), String::new(), format!("Covers: X{i}")]);
            }
        }
        2 => {
            l.extend([aa(), "Covers:".into()]);
            many(&mut l, &|i| format!("* X{i}: title {i}"));
        }
        3 => {
            l.push(aa());
            l.push(format!("Depends: {}", (0..n).map(|i| format!("X{i}")).collect::<Vec<_>>().join(",")));
        }
        4 => {
            l.push(aa());
            many(&mut l, &|i| format!("{}: v{i}", word(i)));
        }
        5 => {
            l.push(aa());
            for i in 0..n {
                l.extend([format!("para {i}"), String::new()]);
            }
            l.push("Comment: c".into());
        }
        6 => {
            let hash = "#".repeat(n);
            l.extend([format!("{hash} AA: t"), "text".into(), format!("{hash} Head"), "stray".into()]);
        }
        7 => {
            let hash = "#".repeat(n);
            l.extend(["### AA: t".into(), "text".into(), format!("{hash} Head"), "more".into(), String::new(), "Covers: X".into()]);
        }
        8 => l.push(format!("# A{}: t", "a".repeat(n))),
        9 => l.push(format!("# AA: {}", "t".repeat(n))),
        10 => l.extend([aa(), "x".repeat(n), String::new(), "Comment: ".to_owned() + &"y".repeat(n)]),
        11 => l.extend([aa(), "Covers:".into(), format!("* A{}: {}", "b".repeat(n), "c".repeat(n))]),
        12 => {
            for i in 0..n {
                l.extend([format!("# R{i}: t"), "Covers: X".into(), "bad".into()]);
            }
            l.push("# End".into());
        }
        13 => {
            for i in 0..n {
                l.extend([format!("# R{i}: t"), "Comment: X".into()]);
            }
            l.push("Comment: Y".into());
        }
        14 => {
            l.push(aa());
            many(&mut l, &|_| "Comment: again".into());
        }
        15 => {
            l.extend([aa(), "text".into()]);
            many(&mut l, &|_| String::new());
            l.extend(["Covers: X".into()]);
            many(&mut l, &|_| String::new());
            l.extend(["Comment: c".into()]);
            many(&mut l, &|_| String::new());
            l.push("end".into());
        }
        _ => {
            let hash = "#".repeat(n);
            l.extend([format!("{hash} AA: t"), "text".into(), format!("#{hash} Sub"), "more".into()]);
            l.extend([format!("{hash} BB: u"), "text".into(), "Covers: X".into()]);
            l.extend([format!("#{hash} CC: v"), "Covers: Y".into()]);
            if n > 1 {
                l.extend([hash[1..].to_owned() + " Up", "stray".into()]);
            }
        }
    }
    let lines: Vec<&str> = l.iter().map(String::as_str).collect();
    Some(doc(&lines, 0))
}

/// what else is found in Markdown documents, and what resembles the lines that have a meaning
pub const EXOTIC: [&str; 116] = [
    "```", "```rust", "~~~", "---", "===", "***", "* * *", "- - -", "| a | b |", "|---|---|", "> quote", "> # QQ: quoted", "<!--", "-->",
    "<!-- # QQ: hidden -->", "<pre>", "</pre>", "1. RR", "1) RR: numbered", "* [ ] RR", "* `RR`", "* **RR**", "* [RR](x)", "* RR, SS", "* RR:",
    "*RR", "** RR", "\t* RR: tab", "*\tRR", "* RR :title", "+ RR: plus", "- RR: minus", "* RR: t: u", "* RR: 'q'", "  * RR", "       * RR", "\u{2022} RR",
    "* R-1", "* R.1: t", "* 1R: t", "* _R: t", "* RR: t *", "* RR: #1", "* RR: TODO", "**Covers:** RR", "*Covers*: RR", "covers: RR", "COVERS: RR", "Covers : RR",
    "Covers:RR,SS", "Covers: RR,", "Covers: ,RR", "Covers: RR: t", "Covers: * RR", " Covers: RR", "\tCovers: RR", "Covers; RR", "Cover: RR", "Covered: RR", "Covers: RR SS",
    "Depend: RR", "Depends: RR;SS", "Dependson: RR", "Tags: a, b", "Tags:", "Title: t", "Id: x", "Status: done", "Note: n", "X: short", "Xy: two", "TODO: x", "Camel_case: x",
    "CamelCase: x", "Two words: x", "\u{c4}rger: x", "Note::", "Note:: x", "Note:  # AA: x", "http://x.org/", "Http://x.org/", "Description:", "Description: again", "Requirement: RR",
    "#AA: no blank", "#\tRR: tab", "# RR:no blank", "# RR : t", "# R: short", "# R-1: t", "# R.1: t", "# 1R: t", "# _R: t", "# RR: t #", "# RR: t ##", "#### RR: deep",
    "####### RR: seven", " # RR: blank", "\t# RR: tab", "# [RR]: t", "# `RR`: t", "# RR: `t`", "# RR: t: u", "# RR:", "# RR", "#", "##", "#!", "#tag", "#include <x>",
    "\\# RR: t", "\u{a0}", "\u{3000}\u{3000}", "\u{b}", "\u{c}", "\u{85}",
];

/// an unusual line anywhere in a document
pub fn fam_exotic1(ch: &mut Ch) -> Option<Doc> {
    let base = *ch.of(&BASES);
    let mut lines = base.to_vec();
    let i = ch.n(base.len() + 1);
    let x = *ch.of(&EXOTIC);
    if i < base.len() && ch.bool() {
        lines[i] = x;
    } else {
        lines.insert(i, x);
    }
    Some(doc(&lines, 0))
}

/// two unusual lines, next to each other or around something, in every part of a requirement
pub fn fam_exotic2(ch: &mut Ch, full: bool) -> Option<Doc> {
    let pre: &[&str] = *ch.of(&[
        &["# AA: Title A"][..],
        &["# AA: Title A", "para"],
        &["# AA: Title A", "para", ""],
        &["# AA: Title A", "Covers:"],
        &["# AA: Title A", "Covers: X1", ""],
        &["# AA: Title A", "Comment: c"],
    ]);
    let mid: &[&str] = if full {
        *ch.of(&[&["# AB: Title B", "Depends: Y1"][..], &["", "Covers: X2", ""], &["* R1: t"], &[]])
    } else {
        &["# AB: Title B", "Depends: Y1"]
    };
    let mut lines = pre.to_vec();
    lines.push(ch.of(&EXOTIC));
    lines.extend_from_slice(mid);
    lines.push(ch.of(&EXOTIC));
    lines.extend(["", "Comment: d", "# AC: Title C"]);
    Some(doc(&lines, 0))
}

/// a word at every place of every kind of line, in every part of a requirement
fn fam_words(ch: &mut Ch) -> Option<Doc> {
    const AT: [(&str, &str); 29] = [
        ("", ""), ("# ", ""), ("# ", ": T"), ("# X", ": T"), ("# ", "X: T"), ("# AB: ", ""), ("# AB: x", ""), ("# AB: ", "x"), ("", "# AB: T"),
        ("", ": v"), ("X", ": v"), ("Com", ": v"), ("Covers", ": X1"), ("Covers: ", ""), ("Covers: X1, ", ""), ("Covers: ", ", X2"),
        ("Covers: X", ", X2"), ("* ", ""), ("* ", ": t"), ("* R1: ", ""), ("* R1: x", "x"), ("", " R1: t"), ("", "* R1"), ("* R", "1"),
        ("Comment: ", ""), ("Comment:", ""), ("", "Comment: c"), ("Depends:", " Y1"), ("text ", " text"),
    ];
    let pre: &[&str] = *ch.of(&[
        &[][..],
        &["# AA: Title A"],
        &["# AA: Title A", "para"],
        &["# AA: Title A", "Covers:"],
        &["# AA: Title A", "Comment: c", "d"],
        &["# AA: Title A", "Depends: Q1", ""],
    ]);
    let (a, b) = *ch.of(&AT);
    let l = format!("{a}{}{b}", ch.of(&crate::words::dict().words));
    let mut lines = pre.to_vec();
    lines.extend([l.as_str(), "more", "", "Rationale: r", "# ZZ: Z"]);
    Some(doc(&lines, 0))
}

/// all kinds of blanks at every place where a line can have them
fn fam_blanks(ch: &mut Ch, budget: usize) -> Option<Doc> {
    const W: [&str; 12] = ["", " ", "  ", "\t", " \t", "\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{2003}", "\u{85}", "\u{200b}"];
    const SHAPES: [(&[&str], &[&str]); 7] = [
        (&["# ZZ: z"], &["", "#", " ", "AA", "", ":", " ", "T", " ", "U", ""]),
        (&["# ZZ: z"], &["", "Covers", "", ":", " ", "X1", "", ",", " ", "X2", ""]),
        (&["# ZZ: z"], &["", "Comment", "", ":", " ", "c", " ", "d", ""]),
        (&["# ZZ: z", "Covers:"], &["", "*", " ", "R1", "", ":", " ", "t", " ", "u", ""]),
        (&["# ZZ: z", "Covers:"], &["", "+", " ", "R1", "", ":", " ", "t", ""]),
        (&["# ZZ: z", "Depends:"], &["", "-", " ", "R1", ""]),
        (&["# ZZ: z", "para"], &["", "para", " ", "two", ""]),
    ];
    let (pre, shape) = ch.of(&SHAPES);
    let mut budget = budget;
    let mut l = String::new();
    // even: blanks
    for (i, p) in shape.iter().enumerate() {
        if i % 2 == 1 {
            l.push_str(p);
            continue;
        }
        let k = ch.dev(&mut budget, W.len() + 1);
        l.push_str(if k == 0 { p } else { W[k - 1] });
    }
    let mut lines = pre.to_vec();
    lines.push(&l);
    lines.extend(["* QQ", "", "# YY: y"]);
    Some(doc(&lines, 0))
}

pub fn run(ctx: &Ctx, errors: bool) {
    let j = |d: &Doc, p: &Parsed| judge(errors, d, p);
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Doc> + Sync)| {
        explore_docs(ctx, fam, "Markdown", |c| gen(c), Doc::clone, j);
    };
    let all: Vec<usize> = (0..LINES.len()).collect();
    let aa: &[&str] = &["# AA: Title A"];
    let two: &[&str] = &["# AC: Title C", "para", "", "# AA: Title A"];
    go("nothing_before", &|c| fam_lines(c, &all, 2, false, &[], 0));
    go("words", &fam_words);
    go("blanks", &|c| fam_blanks(c, ctx.q(3, 4)));
    go("lines3", &|c| fam_lines(c, &all, 3, false, aa, 0));
    go("lines3_noeol", &|c| fam_lines(c, &all, 3, true, aa, 1));
    go("lines3_crlf", &|c| fam_lines(c, &all, 3, true, aa, 2));
    go("lines2_crlf_noeol", &|c| fam_lines(c, &all, 2, true, aa, 3));
    go("edits1", &|c| fam_edits(c, 1, &all, 4));
    go("bytes", &|c| fam_bytes(c, ctx.q(3, 4)));
    // one line under the microscope
    let head: &[(&[&str], &[&str])] = &[(&[], &["after"])];
    go("chars_heading", &|c| {
        fam_chars(c, head, &["#", "A", "b", ":", " ", "Ä", "\t"], ctx.q(5, 7))
    });
    go("chars_heading_id", &|c| {
        let pre = *c.of(&["#", "# A", "## \u{c4}", " #", ""]);
        let post = *c.of(&[": T", "b: T", ":T\r", " : T"]);
        let n = c.n(ctx.q(4, 5));
        let mut s = pre.to_owned();
        for _ in 0..n {
            s.push_str(c.of(&["#", "A", "b", ":", " ", "_", "1", "\u{c4}", "-", "\t", "\u{301}", "\u{b7}", "\u{1f354}"]));
        }
        s.push_str(post);
        Some(doc(&[&s, "after"], 0))
    });
    go("chars_heading_tail", &|c| {
        let d = fam_chars(c, &[(&[], &["after"])], &[":", " ", "T", "\t", "#", "b"], ctx.q(4, 6))?;
        let mut b = b"# AA".to_vec();
        b.extend_from_slice(&d.bytes);
        Some(Doc { name: d.name, bytes: b })
    });
    let attr: &[(&[&str], &[&str])] = &[(&["# ZZ: z"], &["after"]), (&["# ZZ: z", "Covers:"], &["", "# YY: y"])];
    go("chars_attribute", &|c| {
        fam_chars(c, attr, &["A", "b", ":", " ", "B", ",", "ö"], ctx.q(4, 5))
    });
    let list: &[(&[&str], &[&str])] = &[(&["# ZZ: z", "Depends:"], &["* QQ", "", "# YY: y"])];
    go("chars_bullet", &|c| {
        fam_chars(c, list, &["*", " ", "A", "b", ":", "-", "_", "é"], ctx.q(4, 5))
    });
    go("chars_bullet_tail", &|c| {
        let d = fam_chars(c, &[(&[], &["* QQ", "", "# YY: y"])], &[":", " ", "T", ",", "\t", "*"], ctx.q(4, 6))?;
        let mut b = b"# ZZ: z\nCovers:\n* AA".to_vec();
        b.extend_from_slice(&d.bytes);
        Some(Doc { name: d.name, bytes: b })
    });
    go("chars_list", &|c| {
        let d = fam_chars(c, &[(&[], &["* QQ", "", "# YY: y"])], &[",", " ", "T", "\t", "U", ":"], ctx.q(4, 6))?;
        let mut b = b"# ZZ: z\n\nCovers:".to_vec();
        b.extend_from_slice(&d.bytes);
        Some(Doc { name: d.name, bytes: b })
    });
    go("core4", &|c| fam_lines(c, &CORE, 4, true, two, 0));
    go("exotic1", &fam_exotic1);
    go("exotic2", &|c| fam_exotic2(c, ctx.thorough()));
    go("scale", &fam_scale);
    go("buffer", &fam_buffer);
    go("lines4", &|c| fam_lines(c, &all, 4, true, aa, 0));
    go("core5", &|c| fam_lines(c, &CORE, 5, true, aa, 0));
    go("edits2", &|c| fam_edits(c, 2, &CORE, ctx.q(1, 4)));
    if ctx.thorough() {
        go("core6", &|c| fam_lines(c, &CORE, 6, true, aa, 1));
        go("core7", &|c| fam_lines(c, &CORE, 7, true, aa, 0));
        go("lines5", &|c| fam_lines(c, &all, 5, true, aa, 2));
        go("edits2_all", &|c| fam_edits(c, 2, &all, 1));
    }
}
