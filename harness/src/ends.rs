//! Every run ends by itself (C24): bytes, texts of all lengths, characters of all kinds and words at
//! all places of all kinds of inputs, through all reports; arguments; nesting

use crate::cli::{cli, fresh, toml, verdict, Opt};
use crate::core::*;
use crate::exec::*;
use crate::model::*;
use serde_json::{json, Value};
use std::fs;

const JOBS: [(&str, &str); 6] = [PJ, PM, PT, TJ, TM, TG];
pub const PARSERS: [&str; 4] = ["Markdown", "MonoRequirement", "Rust", "Json"];

/// what is replaced by the text
const HOLE: &str = "\u{1}";

fn templates(parser: &str) -> Vec<String> {
    let j = |f: &dyn Fn(&mut Req)| {
        let mut r = Req::new("AA_1", Some("Title"), Loc::line("f.x", 3));
        r.covers.push(Ref { id: "UP_1".into(), title: Some("One".into()), loc: Loc::line("f.x", 4) });
        r.covers.push(Ref { id: "XX_1".into(), title: None, loc: Loc::line("f.x", 5) });
        r.depends.push(Ref { id: "LO_1".into(), title: None, loc: Loc::line("f.x", 6) });
        r.attrs.insert("Description".into(), "text\n".into());
        f(&mut r);
        let r = r.json();
        json!([r, {"id": "BB_1", "title": null, "location": {"file": "f.x", "location_in_file": null}, "covers": [], "depends": [], "tags": [], "attributes": {}}]).to_string()
    };
    let v: Vec<String> = match parser {
        "Markdown" => [
            "# \u{1}: T\n",
            "# AA_1: \u{1}\n",
            "# AA_1:\u{1}\n\n",
            "\u{1}\n# AA_1: T\n",
            "# AA_1: T\n\n\u{1}\n",
            "# AA_1: T\n\nText\n\u{1}\nText\n",
            "# AA_1: T\n\n\u{1}: x\n",
            "# AA_1: T\n\nNote: \u{1}\n\nmore \u{1}\n",
            "# AA_1: T\n\nCovers: \u{1}\n",
            "# AA_1: T\n\nCovers: UP_1: \u{1}, \u{1}: One\n",
            "# AA_1: T\n\nDepends: \u{1}\n",
            "# AA_1: T\n\nCovers:\n* \u{1}: One\n* UP_1: \u{1}\n",
            "# AA_1: T\n\nCovers:\n\u{1} UP_1: One\n",
            "# AA_1: T\n\nCovers: UP_1\n\u{1}\n# AA_1: T\n",
            "# AA_1: T\n# AA_1: \u{1}\n",
            "\u{1}# AA_1: T\n",
            "# AA_1: T\u{1}# BB_1: T\u{1}* UP_1\u{1}",
        ]
        .map(str::to_owned)
        .to_vec(),
        "MonoRequirement" => [
            "\u{1}",
            "\u{1}\n=> UP_1: One\n",
            "Title\n=> \u{1}\n",
            "Title\n=> UP_1: \u{1}\n",
            "Title\n\u{1}\n<= LO_1\n",
            "=>\u{1}=> UP_1\n",
            "Title => UP_1\u{1}\n",
        ]
        .map(str::to_owned)
        .to_vec(),
        "Rust" => [
            "\u{1}",
            "fn f() { requirement_covered!(\"\u{1}\"); }\n",
            "fn f() { requirement_covered!(UP_1, \"\u{1}\"); }\n",
            "// \u{1}\nfn f() { requirement_covered!(UP_1); }\n",
            "/// \u{1}\nfn f() { requirement_covered!(UP_1, \"One\"); }\n",
            "fn f() { /* \u{1} */ requirement_covered!(\u{1}); requirement_covered!(UP_1, \u{1}); }\n",
            "mod \u{1} { fn f() { requirement_covered!(UP_1); } }\n",
            "fn \u{1}() { requirement_covered!(UP_1); }\n",
            "impl A for B<\u{1}> { fn f() { requirement_covered!(r#\"\u{1}\"#); } }\n",
        ]
        .map(str::to_owned)
        .to_vec(),
        _ => vec![
            HOLE.into(),
            j(&|r| r.id = HOLE.into()),
            j(&|r| r.title = Some(HOLE.into())),
            j(&|r| r.loc.file = HOLE.into()),
            j(&|r| r.loc.pos = Pos::Str(HOLE.into())),
            j(&|r| r.covers[0].id = HOLE.into()),
            j(&|r| r.covers[0].title = Some(HOLE.into())),
            j(&|r| r.covers[1].id = HOLE.into()),
            j(&|r| r.covers[1].loc.file = HOLE.into()),
            j(&|r| r.depends[0].id = HOLE.into()),
            j(&|r| r.depends[0].title = Some(HOLE.into())),
            j(&|r| r.tags = vec![HOLE.into()]),
            j(&|r| {
                r.attrs.insert("Description".into(), HOLE.into());
            }),
            j(&|r| {
                r.attrs.insert("Note".into(), format!("{HOLE}\n{HOLE}"));
            }),
            j(&|r| {
                r.attrs.insert(HOLE.into(), "x".into());
            }),
        ],
    };
    v
}

fn fill(parser: &str, template: usize, text: &str) -> Vec<u8> {
    let t = &templates(parser)[template];
    if parser == "Json" && template > 0 {
        let q = Value::String(text.to_owned()).to_string();
        // as it is written by serde
        let hole = Value::String(HOLE.into()).to_string();
        return t.replace(&hole[1..hole.len() - 1], &q[1..q.len() - 1]).into_bytes();
    }
    t.replace(HOLE, text).into_bytes()
}

#[derive(Clone, Debug, Hash)]
struct Case {
    parser: &'static str,
    content: Vec<u8>,
}

fn config(parser: &str) -> Value {
    json!({
        "artefacts": [
            {"id": "up", "paths": ["up.json"], "parser": "Json"},
            {"id": "doc", "paths": ["doc.in"], "parser": parser, "reference_with_title": true},
            {"id": "lo", "paths": ["lo.json"], "parser": "Json"},
        ],
        "relations": [{"upper": "up", "lower": ["doc"]}, {"upper": "doc", "lower": ["lo"]}],
    })
}

fn surroundings(dir: &std::path::Path) {
    let mut up = Req::new("UP_1", Some("One"), Loc::line("u", 1));
    up.depends.push(Ref { id: "AA_1".into(), title: Some("Title".into()), loc: Loc::line("u", 2) });
    let mut lo = Req::new("LO_1", None, Loc::line("l", 1));
    for t in [None, Some("T"), Some("other")] {
        lo.covers.push(Ref { id: "AA_1".into(), title: t.map(Into::into), loc: Loc::line("l", 2) });
    }
    fs::write(dir.join("up.json"), json!([up.json()]).to_string()).unwrap();
    fs::write(dir.join("lo.json"), json!([lo.json()]).to_string()).unwrap();
}

fn check(wk: &mut Wk<'_>, c: &Case) -> Result<u64, String> {
    let dir = wk.dir.clone();
    if !dir.join("up.json").exists() {
        surroundings(&dir);
    }
    fs::write(dir.join("doc.in"), &c.content).unwrap();
    wk.runs += 1;
    let out = run(&dir, config(c.parser), &JOBS).map_err(|e| format!("{e}\ncontent: {:?}", String::from_utf8_lossy(&c.content)))?;
    if out.code == 2 {
        return Err(format!("the run failed: {}\ncontent: {:?}", out.msg, String::from_utf8_lossy(&c.content)));
    }
    complete(&out)?;
    Ok(h(&(out.code, c.parser, out.files[5].lines().count())))
}

fn complete(out: &Out) -> Result<(), String> {
    for i in [0, 3] {
        serde_json::from_str::<Value>(&out.files[i]).map_err(|e| format!("{} is not complete: {e}", job_name(JOBS[i])))?;
    }
    for (j, f) in JOBS.iter().zip(&out.files) {
        if !(f.is_empty() && j.1 == "GnuError" || f.ends_with('\n') || j.1 == "Json") {
            return Err(format!("{} does not end with a line end: {f:?}", job_name(*j)));
        }
    }
    Ok(())
}

fn fam_bytes(ch: &mut Ch, len: usize) -> Option<Case> {
    let parser = *ch.of(&PARSERS);
    let alphabet: &[&[u8]] = match parser {
        "Markdown" => &[b"#", b" ", b"\n", b"\r", b":", b"*", b"A", b"A_1", b",", b"\t", b"\xff", b"\xc3", b"\xa9", b"\0", b"Covers", b"\xef\xbb\xbf", b"-", b"`"],
        "MonoRequirement" => &[b"=", b">", b"=>", b" ", b"\n", b"\r", b":", b"A_1", b"<", b"\t", b"\xff", b"\xc3", b"\xa9", b"\0", b"\xef\xbb\xbf", b"=> UP_1: One\n"],
        "Rust" => &[b"fn", b" ", b"\n", b"(", b")", b"{", b"}", b"!", b"\"", b"'", b"\\", b"\xff", b"\xc3\xa9", b"\0", b"requirement_covered", b"0", b"#", b"/*", b"\xef\xbb\xbf", b"mod a", b"impl", b";"],
        _ => &[b"[", b"]", b"{", b"}", b"\"", b":", b",", b" ", b"\\", b"u", b"null", b"1", b"1e999", b"-", b"\xff", b"\xc3\xa9", b"\0", b"\"id\"", b"\"location\"", b"\"a\""],
    };
    let n = ch.n(len + 1);
    let content: Vec<u8> = (0..n).flat_map(|_| ch.of(alphabet).to_vec()).collect();
    Some(Case { parser, content })
}

/// characters of all widths and kinds
const CHARS: [&str; 40] = [
    "a", "A", "_", "1", " ", "\t", "\n", "\r", "\r\n", "\0", "\u{1b}", "\u{7f}", "\u{85}", "\u{a0}", "\u{e9}", "\u{df}", "\u{130}", "e\u{301}", "\u{301}", "\u{5d0}",
    "\u{200b}", "\u{200d}", "\u{2028}", "\u{202e}", "\u{3000}", "\u{4e2d}", "\u{ac00}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{1f600}", "\u{10ffff}", "\u{fb01}", "\u{2126}", "\"", "\\", ":", "#", "`", "|",
];

fn fam_chars(ch: &mut Ch, len: usize) -> Option<Case> {
    let parser = *ch.of(&PARSERS);
    let t = ch.n(templates(parser).len());
    let n = 1 + ch.n(len);
    // in the quick tier only some of them behind another one
    let some: &[&str] = if len > 2 { &CHARS } else { &[" ", "\n", "a", ":", "\u{e9}", "\u{301}", "\""] };
    let text: String = (0..n).map(|i| *ch.of(if i == 0 { &CHARS } else { some })).collect();
    Some(Case { parser, content: fill(parser, t, &text) })
}

fn fam_words(ch: &mut Ch, full: bool) -> Option<Case> {
    let parser = *ch.of(&PARSERS);
    let t = ch.n(templates(parser).len());
    let k = if full { ch.n(crate::words::FORMS) } else { 0 };
    let w = ch.of(&crate::words::dict().words);
    Some(Case { parser, content: fill(parser, t, &crate::words::form(k, w)) })
}

/// texts of every length, of characters of every width, with every number of bytes before them
fn fam_lengths(ch: &mut Ch, most: usize) -> Option<Case> {
    let parser = *ch.of(&PARSERS);
    let t = ch.n(templates(parser).len());
    let x = *ch.of(&["\u{e9}", "\u{4e2d}", "\u{1f600}", "\u{e9} "]);
    let shift = ch.n(x.len().min(3));
    let mut lens: Vec<usize> = (0..=most).filter(|n| most > 200 || *n < 36 || n % 9 == 0).collect();
    lens.extend([255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192].iter().filter(|n| **n > most));
    lens.extend(crate::words::dict().ints.iter().filter(|n| **n > most as u64 && **n < 20_000).map(|n| *n as usize));
    let n = *ch.of(&lens);
    let text = format!("{}{}", "abc".get(..shift).unwrap_or(""), x.repeat(n));
    Some(Case { parser, content: fill(parser, t, &text) })
}

/// nested things: what is repeated before, in the middle, and behind
const NESTED: [(&str, &str, &str, &str); 24] = [
    ("Rust", "(", "1", ")"),
    ("Rust", "{", "1", "}"),
    ("Rust", "[", "1", "]"),
    ("Rust", "-", "1", ""),
    ("Rust", "return ", "1", ""),
    ("Rust", "|x| ", "1", ""),
    ("Rust", "if a {", "1", "} else { 2 }"),
    ("Rust", "match a { _ => ", "1", "}"),
    ("Rust", "vec![", "1", "]"),
    ("Rust", "f(", "1", ")"),
    ("Rust", "if a { 1 } else ", "{ 2 }", ""),
    ("Rust", "1 + ", "1", ""),
    ("Rust", "&", "1", ""),
    ("Rust items", "mod m { ", "", "}"),
    ("Rust items", "fn f() { ", "", "}"),
    ("Rust items", "impl A<", "B", ">"),
    ("Rust items", "/*", "", "*/"),
    ("Json", "[", "", "]"),
    ("Json", "{\"a\":", "1", "}"),
    ("Markdown", "#", " AA_1: T", ""),
    ("Markdown", "  ", "* AA_1: T", ""),
    ("Markdown", "> ", "# AA_1: T", ""),
    ("Markdown", "# AA_1: T\n\n* ", "x", ""),
    ("Config", "[", "", "]"),
];

fn check_depth(wk: &mut Wk<'_>, c: &(usize, usize, usize)) -> Verdict {
    let &(k, depth, j) = c;
    let (what, open, mid, close) = NESTED[k];
    let nested = format!("{}{mid}{}", open.repeat(depth), close.repeat(depth));
    let (parser, text) = match what {
        "Rust" => ("Rust", format!("fn f() {{ let a = {nested}; requirement_covered!(UP_1); }}\n")),
        "Rust items" => ("Rust", format!("{nested}\nfn g() {{ requirement_covered!(UP_1); }}\n")),
        "Config" => ("Markdown", "# AA_1: T\n".into()),
        p => (p, format!("{nested}\n")),
    };
    let dir = fresh(wk, "depth", &[("doc.in".into(), text.into_bytes())]);
    surroundings(&dir);
    let mut v = config(parser);
    let name = job_name(JOBS[j]);
    v["jobs"] = jobs_json(&[JOBS[j]]);
    let mut text = toml(&v);
    if what == "Config" {
        text = format!("extra = {nested}\n{text}");
    }
    fs::write(dir.join("r.toml"), text).unwrap();
    let o = cli(wk, &dir, &["-c", "r.toml", &name], &Opt::default());
    let ok = match what {
        "Config" => (0..=2).contains(&o.code),
        _ => (0..=1).contains(&o.code) && dir.join(format!("{name}.out")).exists(),
    };
    if ok {
        return Verdict::Held(h(&(k, o.code)));
    }
    let rust = parser == "Rust" || what == "Config";
    if rust && depth > 100 && o.code == -6 && o.stderr.contains("overflow") {
        return Verdict::Known("K2 deeply nested Rust or TOML overflows the stack".into());
    }
    Verdict::Bad(format!("{what}, {depth} times {open:?}: exit code {}: {}", o.code, o.stderr))
}

/// arguments that mean something else than a job, or nothing
fn fam_args(ch: &mut Ch, len: usize) -> Option<Vec<String>> {
    const ARGS: [&str; 28] = [
        "", " ", "-", "--", "-c", "-b", "--config", "--base", "r.toml", ".", "p", "nope", "-x", "--nope", "-h", "--help", "-V", "--version", "-cr.toml", "-b.", "--config=r.toml",
        "--base=", "-v", "-q", "-l", "-ltrace", "\u{e9}", "-\u{e9}",
    ];
    let n = ch.n(len + 1);
    Some((0..n).map(|_| (*ch.of(&ARGS)).to_owned()).collect())
}

fn fam_arg_words(ch: &mut Ch) -> Option<Vec<String>> {
    let w = ch.of(&crate::words::dict().words).clone();
    let a = |v: &[&str]| Some(v.iter().map(|s| (*s).to_owned()).collect());
    match ch.n(7) {
        0 => a(&[&w]),
        1 => a(&["-c", &w]),
        2 => a(&["-c", "r.toml", "-b", &w]),
        3 => a(&[&format!("-{w}")]),
        4 => a(&[&format!("--{w}"), "p"]),
        5 => a(&["-c", "r.toml", "p", &w]),
        _ => a(&[&format!("--{w}=1"), "-c", "r.toml", "p"]),
    }
}

/// with all messages of the log, and if it fails also without
fn logged(wk: &mut Wk<'_>, dir: &std::path::Path, args: &[&str]) -> crate::cli::CliOut {
    let o = cli(wk, dir, args, &Opt { env: &[("REQTRACE_LOG".into(), "trace".into())], ..Opt::default() });
    if o.code == 2 {
        return cli(wk, dir, args, &Opt::default());
    }
    o
}

fn check_args(wk: &mut Wk<'_>, args: &[String]) -> Result<u64, String> {
    let dir = fresh(wk, "args", &[]);
    surroundings(&dir);
    let mut v = config("Markdown");
    v["jobs"] = json!({"p": crate::cli::job("Parse", "Json", "-")});
    v["default_jobs"] = json!(["p"]);
    fs::write(dir.join("r.toml"), toml(&v)).unwrap();
    fs::write(dir.join("requirements.toml"), toml(&v)).unwrap();
    fs::write(dir.join("doc.in"), "# AA_1: T\n").unwrap();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let o = logged(wk, &dir, &a);
    if !(0..=2).contains(&o.code) || o.stderr.contains("panicked") {
        return Err(format!("exit code {}: {}", o.code, o.stderr));
    }
    if o.code == 2 && o.stderr.trim().is_empty() {
        return Err("exit code 2 without a message".into());
    }
    Ok(h(&(o.code, o.stdout.len())))
}

/// formats every message, as a log at the finest level does
struct Sink;
struct Nothing;
impl std::fmt::Write for Nothing {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        let _ = std::fmt::Write::write_fmt(&mut Nothing, *r.args());
    }
    fn flush(&self) {}
}

/// requirements and references between them in all directions, also around in circles
#[derive(Clone, Debug, Hash)]
struct Graph {
    rels: Vec<(usize, Vec<usize>)>,
    refs: Vec<(usize, usize, bool)>,
}
const GIDS: [(&str, usize); 4] = [("A_1", 0), ("A_2", 0), ("B_1", 1), ("C_1", 2)];

fn fam_graphs(ch: &mut Ch, most: usize) -> Option<Graph> {
    let rel = |i: usize| match i {
        0 => (0, vec![1]),
        1 => (1, vec![2]),
        2 => (2, vec![0]),
        3 => (0, vec![0]),
        4 => (1, vec![0, 2]),
        _ => (0, vec![1, 2]),
    };
    let n = ch.n(most + 1);
    // all sets of relations with few references, chains and circles with more
    let mask = if n < 3 { ch.n(64) } else { *ch.of(&[3usize, 7, 11, 17, 63]) };
    let rels = (0..6).filter(|i| mask & (1 << i) != 0).map(rel).collect();
    let mut refs = vec![];
    let mut least = 0;
    for left in (0..n).rev() {
        let k = least + ch.n(32 - left - least);
        least = k + 1;
        refs.push((k / 8, (k / 2) % 4, k % 2 == 0));
    }
    Some(Graph { rels, refs })
}

fn check_graph(wk: &mut Wk<'_>, g: &Graph) -> Result<u64, String> {
    let dir = wk.dir.clone();
    let mut reqs: Vec<Req> = GIDS.iter().map(|(id, _)| Req::new(id, Some("T"), Loc::line("f", 1))).collect();
    for &(from, to, covers) in &g.refs {
        let r = Ref { id: GIDS[to].0.into(), title: None, loc: Loc::line("f", 2) };
        if covers {
            reqs[from].covers.push(r);
        } else {
            reqs[from].depends.push(r);
        }
    }
    let names = ["a", "b", "c"];
    let mut arts = vec![];
    for (i, n) in names.iter().enumerate() {
        let v: Vec<Value> = reqs.iter().zip(GIDS).filter(|(_, (_, a))| *a == i).map(|(r, _)| r.json()).collect();
        fs::write(dir.join(format!("{n}.json")), Value::Array(v).to_string()).unwrap();
        arts.push(json!({"id": n, "paths": [format!("{n}.json")], "parser": "Json"}));
    }
    let rels: Vec<Value> = g.rels.iter().map(|(u, l)| json!({"upper": names[*u], "lower": l.iter().map(|i| names[*i]).collect::<Vec<_>>()})).collect();
    wk.runs += 1;
    let out = run(&dir, json!({"artefacts": arts, "relations": rels}), &JOBS)?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    complete(&out)?;
    Ok(h(&(out.code, out.files[5].lines().count())))
}

/// much of one thing: parser, what is before it, the thing, what is behind it, by what factor less often
const MANY: [(&str, &str, &str, &str, usize); 26] = [
    ("Markdown", "", "# AA_{n}: T\n", "", 1),
    ("Markdown", "", "\n", "# AA_1: T\n", 1),
    ("Markdown", "# AA_1: T\n\n", "Text\n", "", 1),
    ("Markdown", "# AA_1: T\n\n", "\n", "Text\n", 1),
    ("Markdown", "# AA_1: T\n\nCovers:\n", "* UP_1: One\n", "", 4),
    ("Markdown", "# AA_1: T\n\nCovers: UP_1", ", X_{n}", "\n", 700),
    ("Markdown", "# AA_1: T\n\n", "Note: x\n\n", "", 1),
    ("Markdown", "", "#", " AA_1: T\n\nText\n", 1),
    ("Markdown", "# ", "A", ": T\n", 1),
    ("Markdown", "# AA_1: T", "t", "\n", 1),
    ("Markdown", "# AA_1: T\n", "# AA_1: T\n", "", 10),
    ("MonoRequirement", "", "\n", "Title\n=> UP_1", 1),
    ("MonoRequirement", "T", "t", "", 1),
    ("MonoRequirement", "Title\n", "=> UP_{n}\n", "", 700),
    ("MonoRequirement", "Title ", "=> UP_1: One ", "", 2),
    ("MonoRequirement", "Title\n", "=>", " UP_1\n", 1),
    ("Rust", "", "\n", "fn f() { requirement_covered!(UP_1); }", 1),
    ("Rust", "", " ", "fn f() { requirement_covered!(UP_1); }", 1),
    ("Rust", "fn f() {\n", "requirement_covered!(UP_1);\n", "}\n", 4),
    ("Rust", "fn f() { requirement_covered!(UP_1, \"", "t", "\"); }\n", 1),
    ("Rust", "", "fn f{n}() { requirement_covered!(UP_1); }\n", "", 70),
    ("Rust", "fn f() {\n", "requirement_covered!(1);\n", "}\n", 10),
    ("Json chain", "covers", "", "", 10),
    ("Json chain", "depends", "", "", 10),
    ("Json circle", "covers", "", "", 10),
    ("Json circle", "depends", "", "", 10),
];

fn check_many(wk: &mut Wk<'_>, c: &(usize, usize)) -> Result<u64, String> {
    let &(k, n) = c;
    let (parser, pre, rep, post, less) = MANY[k];
    let n = n / less + 1;
    let mut text = String::from(pre);
    let mut name = parser;
    if parser.starts_with("Json") {
        name = "Json";
        let reqs: Vec<Value> = (0..n)
            .map(|i| {
                let mut r = Req::new(&format!("AA_{i}"), None, Loc::line("f", 1));
                let x = Ref { id: format!("AA_{}", if parser == "Json circle" { (i + 1) % n } else { i + 1 }), title: None, loc: Loc::line("f", 2) };
                if pre == "covers" {
                    r.covers.push(x);
                } else {
                    r.depends.push(x);
                }
                r.json()
            })
            .collect();
        text = Value::Array(reqs).to_string();
    } else {
        for i in 0..n {
            text.push_str(&rep.replace("{n}", &i.to_string()));
        }
        text.push_str(post);
    }
    let dir = wk.dir.clone();
    surroundings(&dir);
    fs::write(dir.join("doc.in"), text).unwrap();
    wk.runs += 1;
    let mut v = config(name);
    v["relations"].as_array_mut().unwrap().push(json!({"upper": "doc", "lower": ["doc"]}));
    let out = run(&dir, v, &JOBS)?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    complete(&out)?;
    Ok(h(&(out.code, k)))
}

/// pieces of configuration files, at every place of a good one, or alone
fn fam_config(ch: &mut Ch, len: usize) -> Option<Vec<u8>> {
    const PIECES: [&[u8]; 30] = [
        b"=", b"[", b"]", b"{", b"}", b"\"", b"'", b"\"\"\"", b"'''", b"\n", b"\r", b" ", b".", b",", b"-", b"1", b"a", b"#", b"\\", b"\\u", b"\0", b"\xff", b"\xc3\xa9", b"\xc3",
        b"true", b"1979-05-27", b"1e999", b"\xef\xbb\xbf", b"[[artefacts]]\n", b"\xf0\x9f\x98\x80",
    ];
    let good = good_config().into_bytes();
    if ch.n(2) == 0 {
        let n = ch.n(len + 1);
        return Some((0..n).flat_map(|_| ch.of(&PIECES).to_vec()).collect());
    }
    // after a token, with or without what follows
    let word = |i: usize| good[i].is_ascii_alphanumeric();
    let at: Vec<usize> = (0..=good.len()).filter(|&i| i == 0 || i == good.len() || !word(i - 1) || !word(i)).collect();
    let i = *ch.of(&at);
    let mut c = good[..i].to_vec();
    c.extend_from_slice(ch.of(&PIECES));
    if ch.n(2) == 1 {
        c.extend_from_slice(&good[i..]);
    }
    Some(c)
}

fn good_config() -> String {
    let mut v = config("Markdown");
    v["jobs"] = json!({"\u{e9}": crate::cli::job("Parse", "Json", "-")});
    v["default_jobs"] = json!(["\u{e9}"]);
    toml(&v)
}

fn check_config(wk: &mut Wk<'_>, text: &[u8]) -> Result<u64, String> {
    let dir = fresh(wk, "config", &[]);
    surroundings(&dir);
    fs::write(dir.join("r.toml"), text).unwrap();
    fs::write(dir.join("doc.in"), "# AA_1: T\n").unwrap();
    let o = logged(wk, &dir, &["-c", "r.toml"]);
    let shown = || format!("\nconfiguration: {:?}", String::from_utf8_lossy(text));
    if !(0..=2).contains(&o.code) || o.stderr.contains("panicked") {
        return Err(format!("exit code {}: {}{}", o.code, o.stderr, shown()));
    }
    if o.code == 2 && o.stderr.trim().is_empty() {
        return Err(format!("exit code 2 without a message{}", shown()));
    }
    Ok(h(&(o.code, o.stdout.len())))
}

pub fn run_all(ctx: &Ctx) {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Case> + Sync)| {
        ctx.explore(fam, 8, |c| gen(c), |wk, cs| cs.iter().map(|c| verdict(check(wk, c))).collect());
    };
    go("bytes", &|c| fam_bytes(c, ctx.q(3, 4)));
    go("chars", &|c| fam_chars(c, ctx.q(2, 3)));
    go("words", &|c| fam_words(c, ctx.thorough()));
    go("lengths", &|c| fam_lengths(c, ctx.q(130, 300)));
    ctx.explore(
        "depth",
        1,
        |c| Some((c.n(NESTED.len()), *c.of(&[1usize, 10, 50, 90, 200, 1000, 5000]), c.n(JOBS.len()))),
        |wk, cs| cs.iter().map(|c| check_depth(wk, c)).collect(),
    );
    ctx.explore("graphs", 8, |c| fam_graphs(c, ctx.q(3, 4)), |wk, cs| cs.iter().map(|c| verdict(check_graph(wk, c))).collect());
    // not here: a message shows a requirement with all its references
    log::set_max_level(log::LevelFilter::Off);
    ctx.explore(
        "many",
        1,
        |c| Some((c.n(MANY.len()), *c.of(&[999usize, 20_000, 70_000]))),
        |wk, cs| cs.iter().map(|c| verdict(check_many(wk, c))).collect(),
    );
    ctx.explore("config", 1, |c| fam_config(c, ctx.q(2, 3)), |wk, cs| cs.iter().map(|c| verdict(check_config(wk, c))).collect());
    ctx.explore("args", 1, |c| fam_args(c, ctx.q(3, 4)), |wk, cs| cs.iter().map(|c| verdict(check_args(wk, c))).collect());
    ctx.explore("arg_words", 1, fam_arg_words, |wk, cs| cs.iter().map(|c| verdict(check_args(wk, c))).collect());
}
