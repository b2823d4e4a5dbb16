//! Mono requirement files: reference model and families of documents

use crate::core::*;
use crate::docs::*;
use crate::md::take_id;
use crate::model::*;

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || ('\u{300}'..='\u{36f}').contains(&c)
}

fn stem(name: &str) -> &str {
    match name.rfind('.') {
        None | Some(0) => name,
        Some(i) => &name[..i],
    }
}

pub fn expect(name: &str, bytes: &[u8]) -> Req {
    let text = String::from_utf8_lossy(bytes);
    let mut r = Req::new(
        stem(name),
        None,
        Loc {
            file: name.into(),
            pos: Pos::None,
        },
    );
    for (i, line) in text.split('\n').enumerate() {
        if r.title.is_none() && line.chars().any(word) {
            r.title = Some(line.trim_matches(|c| !word(c)).to_owned());
        }
        // everything before the first arrow is of no interest
        for piece in line.split("=>").skip(1) {
            let Some((id, rest)) = take_id(piece.trim_start()) else {
                continue;
            };
            let title = rest
                .strip_prefix(':')
                .map(str::trim)
                .filter(|t| !t.is_empty());
            r.depends.push(Ref {
                id: id.into(),
                title: title.map(Into::into),
                loc: Loc::line(name, i as u64 + 1),
            });
        }
    }
    r
}

pub fn judge(d: &Doc, got: &Parsed) -> Verdict {
    let want = expect(&d.name, &d.bytes);
    if !got.1.is_empty() {
        return Verdict::Bad(format!("unexpected errors {:?}", got.1));
    }
    if got.0 != [want.clone()] {
        return Verdict::Bad(format!("expected {want:?}\n actual   {:?}", got.0));
    }
    Verdict::Held(h(&got.0))
}

fn tokens(ch: &mut Ch, pre: &str, post: &str, alph: &[&str], n: usize) -> Option<Doc> {
    let len = ch.n(n + 1);
    let mut s = pre.to_owned();
    for _ in 0..len {
        s.push_str(ch.of(alph));
    }
    s.push_str(post);
    Some(Doc {
        name: "Mono.md".into(),
        bytes: s.into_bytes(),
    })
}

const LINES: [&str; 15] = [
    "",
    "text",
    "=> REQ_1",
    "see =>REQ_2: some title",
    "=> A1 => B1",
    "=> A1: t1 => B1: t2 =>C1:",
    "## ** Head line! **",
    "**--**",
    "= > REQ_3",
    "=> 1AB",
    "=> X",
    "\t=>\tREQ_4 :\tno title",
    "=>REQ_5:no blank, and a comma",
    "Ünïcode => ÄÖ: Grüße  ",
    "=> REQ_1",
];

pub fn fam_lines(ch: &mut Ch, n: usize) -> Option<Doc> {
    let end = ch.n(4);
    let nl = if end >= 2 { "\r\n" } else { "\n" };
    let len = ch.n(n + 1);
    let mut l = vec![];
    for _ in 0..len {
        l.push(*ch.of(&LINES));
    }
    let mut s = l.join(nl);
    if end % 2 == 0 {
        s.push_str(nl);
    }
    Some(Doc {
        name: "Mono.md".into(),
        bytes: s.into_bytes(),
    })
}

fn fam_names(ch: &mut Ch) -> Option<Doc> {
    let name = *ch.of(&[
        "AB.md", "AB", "A.B.md", ".hidden", "AB.", "a b.txt", "Ä.md", "AB.CD", ".x.md", "x.tar.gz", "0", "A-B.md",
        "..md", "a[b].md", "a*b.md", "a?.md", "{a}.md", "a\\b.md", "a:5.md", "a:5",
    ]);
    let text = *ch.of(&["", "Title\n=> AB: x\n", "\n\n", "=> CD"]);
    Some(Doc {
        name: name.into(),
        bytes: text.as_bytes().to_vec(),
    })
}

fn fam_bytes(ch: &mut Ch, n: usize) -> Option<Doc> {
    const B: [&[u8]; 12] = [
        b"=>", b"A", b"\n", b":", b" ", b"\xff", b"\xc3\x84", b"\xc3", b"\r", b"\0", b"\xf0\x9f\xa6\x80", b"\xa4",
    ];
    let mut bytes = (*ch.of(&[&b""[..], b"=>AB"])).to_vec();
    for _ in 0..ch.n(n + 1) {
        bytes.extend_from_slice(ch.of(&B));
    }
    Some(Doc {
        name: "b.md".into(),
        bytes,
    })
}

/// long lines and long files, around the sizes of buffers
fn fam_long(ch: &mut Ch) -> Option<Doc> {
    let size = *ch.of(&[4096usize, 8192, 16384, 65536]);
    let off = ch.n(24);
    let fill = *ch.of(&["x", "x\n", "\n", "é"]);
    let tail = *ch.of(&["=> REQ_1: title", "Ä => ÖÖ: ÜÜ => REQ_2: t\r\n", "\r\n=>REQ_3\r\n"]);
    let mut s = String::new();
    while s.len() + fill.len() <= size - off {
        s.push_str(fill);
    }
    s.push_str(tail);
    Some(Doc {
        name: "Long.md".into(),
        bytes: s.into_bytes(),
    })
}

/// lines as they are found in documents of many kinds
const EXOTIC: [&str; 58] = [
    "```", "    => REQ_6", "> => REQ_7: quoted", "<!-- => REQ_8 -->", "// => REQ_9", "/* => REQ_A */", "# => REQ_B", "-- => REQ_C: dash",
    "==> REQ_D", "=>=> REQ_E", "=> => REQ_F", "=>> REQ_G", "=>REQ_H=>REQ_I", "->REQ_J", "=> REQ_K, REQ_L", "=> `REQ_M`", "=> **REQ_N**",
    "=> [REQ_O](x)", "=> \"REQ_P\"", "(=> REQ_Q)", "=> REQ_R.", "=> REQ_S; => REQ_T", "|=> REQ_U|=> REQ_V: x|", "=> REQ_W:", "=> REQ_X: ",
    "=> REQ_Y:: two", "=> REQ_Z: a: b", "=> REQ_1A: a => b", "=> REQ-1", "=> _REQ", "=> __", "=> a1", "=> \u{e9}\u{e9}", "=> e\u{301}x: comb",
    "=>\u{a0}NBSP1", "=> \u{3b1}\u{3b2}: greek", "=> \u{4e2d}\u{6587}: \u{4e2d}", "=> REQ_2A\u{a0}: x", "fn x() => REQ_2B {}", "x => y", "a=>b1",
    "* => REQ_2C", "1. => REQ_2D: one", "\t\t=> REQ_2E\t:\tx", "=> REQ_2F:x\ty", "Title: => REQ_2G", "____", "1", "- 1 -", "'quoted title'",
    "\u{201c}Title\u{201d}", "T\u{e9}", "\u{1f980} crab", "a", "=>", "=> ", "=\t> REQ_2H", "%PDF => REQ_2I: => ",
];

fn fam_exotic(ch: &mut Ch, n: usize) -> Option<Doc> {
    let len = 1 + ch.n(n);
    let mut s = String::new();
    s.push_str(ch.of(&["", "Head\n"]));
    for i in 0..len {
        if i > 0 {
            s.push('\n');
        }
        s.push_str(ch.of(&EXOTIC));
    }
    Some(Doc {
        name: "Mono.md".into(),
        bytes: s.into_bytes(),
    })
}

/// titles of references, character by character
fn fam_ref_title(ch: &mut Ch, n: usize) -> Option<Doc> {
    const C: [&str; 32] = [
        ".", ",", ";", "!", "?", "(", ")", "[", "]", "{", "}", "\"", "'", "`", "*", "_", "#", "/", "\\", "|", "<", ">", "=", "-", "+", "&", "%",
        "$", "@", "~", "^", "\u{2026}",
    ];
    let len = 1 + ch.n(n);
    let t: String = (0..len).map(|_| *ch.of(&C)).collect();
    let s = match ch.n(4) {
        0 => format!("T\n=> AB: x{t}\n"),
        1 => format!("T\n=> AB:{t}\n=> CD: {t}x => EF"),
        2 => format!("{t}\n=> AB{t}\n"),
        _ => format!("x{t}y{t}\n=> AB {t} => CD : {t}\r\n"),
    };
    Some(Doc {
        name: "Mono.md".into(),
        bytes: s.into_bytes(),
    })
}

/// many lines, many arrows, long ids and titles
fn fam_scale(ch: &mut Ch) -> Option<Doc> {
    let n = *ch.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 65_536, 2_200_000]);
    let kind = ch.n(8);
    if n > 1001 && kind != 4 && kind != 5 {
        return None;
    }
    let mut s = String::from("Title\n");
    match kind {
        0 => (0..n).for_each(|i| s.push_str(&format!("=> REQ_{i}: t{i}\n"))),
        1 => (0..n).for_each(|i| s.push_str(&format!("=> REQ_{i} "))),
        2 => (0..n).for_each(|i| s.push_str(&format!("=> REQ_{i}: t ") )),
        3 => s.push_str(&format!("=> REQ{}: t\n=> REQ_2", "x".repeat(n))),
        4 => s.push_str(&format!("=> REQ: {}\n=> REQ_2", "x y ".repeat(n))),
        5 => s.push_str(&format!("{}=> REQ: t\n=> REQ_2", "\n".repeat(n))),
        6 => s = format!("{}Title{}\n=> AB", "# ".repeat(n), " word".repeat(n)),
        _ => (0..n).for_each(|_| s.push_str("=> REQ_SAME\n")),
    }
    Some(Doc {
        name: "Mono.md".into(),
        bytes: s.into_bytes(),
    })
}

/// a word at every place of a file, and in its name
fn fam_words(ch: &mut Ch) -> Option<Doc> {
    const AT: [(&str, &str); 18] = [
        ("", ""), ("", " T"), ("# ", ""), ("T ", ""), ("", "\n# T\n"), ("", "\n\nT\n=> R1"), ("T\n=> ", ""), ("T\n", " => R1: t"), ("T\n=> R1", ""), ("T\n=> R1 ", ""),
        ("T\n=> R1: ", "\n"), ("T\n=> R1: x", "x\r\n=> R2"), ("T\n=> R1:", " => R2: u"), ("T\n=> R", ": t"), ("T\n=> ", "R: t"), ("T\n=", "> R1"), ("T\n=>", "=> R1"),
        ("T\nx ", " y => R1 z\n"),
    ];
    let w = ch.of(&crate::words::dict().words);
    let k = ch.n(AT.len() + 4);
    if k < AT.len() {
        return Some(Doc {
            name: "Mono.md".into(),
            bytes: format!("{}{w}{}", AT[k].0, AT[k].1).into_bytes(),
        });
    }
    let name = match k - AT.len() {
        0 => w.clone(),
        1 => format!("{w}.md"),
        2 => format!("X{w}.md"),
        _ => format!("X.{w}"),
    };
    if name.contains(['/', '[', ']', '{', '}', '*', '?', '\\', '\0']) || name == "." || name == ".." {
        return None;
    }
    Some(Doc {
        name,
        bytes: b"T\n=> R1: t\n".to_vec(),
    })
}

pub fn run(ctx: &Ctx) {
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Doc> + Sync)| {
        explore_docs(ctx, fam, "MonoRequirement", |c| gen(c), Doc::clone, judge);
    };
    go("names", &fam_names);
    go("words", &fam_words);
    go("long", &fam_long);
    go("scale", &fam_scale);
    go("exotic", &|c| fam_exotic(c, ctx.q(2, 3)));
    go("ref_title", &|c| fam_ref_title(c, ctx.q(3, 4)));
    go("bytes", &|c| fam_bytes(c, ctx.q(4, 5)));
    go("lines", &|c| fam_lines(c, ctx.q(3, 4)));
    go("tokens", &|c| {
        tokens(c, "", "", &["=>", "AB", " ", ":", "\n", "-", "T"], ctx.q(7, 8))
    });
    go("chars", &|c| {
        tokens(
            c,
            "",
            "",
            &["=", ">", "A", "b", "_", "1", ":", " ", "\n", "\r", "\t", "é"],
            ctx.q(4, 5),
        )
    });
    go("after_arrow", &|c| {
        tokens(c, "T =>", "\n", &["A", "1", "_", ":", " ", "=>", "-", "é", "\t", "="], ctx.q(5, 6))
    });
    go("after_id", &|c| {
        tokens(c, "=>AB", "\n=>YZ", &[":", " ", "t", "=", ">", "\r", ",", "\t"], ctx.q(5, 7))
    });
    go("title", &|c| {
        tokens(c, "", "x", &["#", " ", "T", "_", "é", "\n", "\r", "e\u{301}", "-", "1"], ctx.q(5, 6))
    });
}
