//! Locations as text

use crate::core::*;
use reqtrace::models::{Location, LocationInFile};
use std::path::PathBuf;

const TOKENS: [&str; 14] = [
    ":", "1", "0", "a", "9", "18446744073709551615", "18446744073709551616", " ", ".", "/", "é", "\u{663}", "-", "\r",
];

fn text(ch: &mut Ch, n: usize, alph: &[&str]) -> String {
    let len = ch.n(n + 1);
    (0..len).map(|_| *ch.of(alph)).collect()
}

/// `rest` and number of `rest:number`
fn number(s: &str) -> Option<(&str, &str)> {
    let (rest, digits) = s.rsplit_once(':')?;
    if !rest.is_empty() && !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) {
        Some((rest, digits))
    } else {
        None
    }
}

/// file, line, column; None if refused
fn expect(s: &str) -> Option<(&str, Option<usize>, Option<usize>)> {
    if s.is_empty() || s.contains('\n') {
        return None;
    }
    match number(s) {
        None => Some((s, None, None)),
        Some((r, last)) => match number(r) {
            None => Some((r, Some(last.parse().ok()?), None)),
            Some((f, line)) => Some((f, Some(line.parse().ok()?), Some(last.parse().ok()?))),
        },
    }
}

fn parts(l: &Location) -> Result<(String, Option<usize>, Option<usize>), String> {
    let f = l.file.to_str().ok_or("file name damaged")?.to_owned();
    Ok(match &l.location_in_file {
        None => (f, None, None),
        Some(LocationInFile::Line(n)) => (f, Some(*n), None),
        Some(LocationInFile::LineAndColumn(n, c)) => (f, Some(*n), Some(*c)),
        Some(LocationInFile::String(s)) => return Err(format!("position {s:?}")),
    })
}

fn check_text(s: &String) -> Result<u64, String> {
    let want = expect(s);
    let got = guarded(|| Location::parse(s)).map_err(|p| format!("panic: {p}"))?;
    match (&want, &got) {
        (None, Err(_)) => {}
        (Some((f, l, c)), Ok(loc)) => {
            let have = parts(loc)?;
            if have != ((*f).to_owned(), *l, *c) {
                return Err(format!("{s:?} is {have:?}, expected {want:?}"));
            }
        }
        _ => return Err(format!("{s:?} gives {got:?}, expected {want:?}")),
    }
    Ok(h(&(want.is_some(), want.map(|w| (w.1.is_some(), w.2.is_some())))))
}

fn check_round(l: &(String, Option<usize>, Option<usize>)) -> Result<u64, String> {
    let file = PathBuf::from(&l.0);
    let loc = match *l {
        (_, None, _) => Location::new_with_no_pos(file),
        (_, Some(n), None) => Location::new_with_line_no(file, n),
        (_, Some(n), Some(c)) => Location::new_with_line_and_column(file, n, c),
    };
    let (s, got) = guarded(|| {
        let s = loc.to_string();
        let p = Location::parse(&s);
        (s, p)
    })
    .map_err(|p| format!("panic: {p}"))?;
    let mut form = l.0.clone();
    for x in [l.1, l.2].into_iter().flatten() {
        form.push_str(&format!(":{x}"));
    }
    if s != form {
        return Err(format!("{l:?} is printed as {s:?}"));
    }
    match got {
        Err(e) => Err(format!("{s:?} is refused: {e}")),
        Ok(g) => {
            let have = parts(&g)?;
            if have != *l || g != loc {
                return Err(format!("{l:?} is printed as {s:?} and read back as {have:?}"));
            }
            Ok(h(&s))
        }
    }
}

fn verdict(r: Result<u64, String>) -> Verdict {
    match r {
        Ok(o) => Verdict::Held(o),
        Err(e) => Verdict::Bad(e),
    }
}

fn numbers(ch: &mut Ch) -> usize {
    *ch.of(&[1, 0, 9, 10, 42, 65536, 4294967296, 9007199254740993, usize::MAX])
}

fn position(ch: &mut Ch) -> (Option<usize>, Option<usize>) {
    match ch.n(3) {
        0 => (None, None),
        1 => (Some(numbers(ch)), None),
        _ => (Some(numbers(ch)), Some(numbers(ch))),
    }
}

pub fn run(ctx: &Ctx) {
    let file_ok = |f: &str| !f.is_empty() && !f.contains('\n') && !is_num_end(f);
    ctx.explore(
        "texts",
        256,
        |ch| Some(text(ch, ctx.q(5, 6), &TOKENS)),
        |wk, c| {
            wk.runs += c.len() as u64;
            c.iter().map(|s| verdict(check_text(s))).collect()
        },
    );
    ctx.explore(
        "colons",
        256,
        |ch| Some(text(ch, ctx.q(9, 11), &[":", "1", "a", "\n"])),
        |wk, c| {
            wk.runs += c.len() as u64;
            c.iter().map(|s| verdict(check_text(s))).collect()
        },
    );
    ctx.explore(
        "round_trip",
        256,
        |ch| {
            let f = text(ch, ctx.q(4, 5), &["a", ":", "1", ".", "/", " ", "é", "C:\\", "\t", "(", "0x"]);
            if !file_ok(&f) {
                return None;
            }
            let p = position(ch);
            Some((f, p.0, p.1))
        },
        |wk, c| {
            wk.runs += c.len() as u64;
            c.iter().map(|l| verdict(check_round(l))).collect()
        },
    );
    ctx.explore(
        "words",
        256,
        |ch| {
            use crate::words::{dict, form, FORMS};
            let k = ch.n(FORMS);
            let w = form(k, ch.of(&dict().words));
            let f = match ch.n(4) {
                0 => w,
                1 => format!("{w}:x"),
                2 => format!("x:{w}"),
                _ => format!("d/{w}.md"),
            };
            if !file_ok(&f) {
                return None;
            }
            let p = position(ch);
            Some((f, p.0, p.1))
        },
        |wk, c| {
            wk.runs += c.len() as u64;
            c.iter().map(|l| verdict(check_round(l))).collect()
        },
    );
    ctx.explore(
        "numbers",
        256,
        |ch| {
            let l = ch.n(ctx.q(400, 2000));
            let c = ch.n(ctx.q(400, 2000) + 1);
            Some(("f.md".to_owned(), Some(l), c.checked_sub(1)))
        },
        |wk, c| {
            wk.runs += c.len() as u64;
            c.iter().map(|l| verdict(check_round(l))).collect()
        },
    );
}

/// ends in a colon and digits
fn is_num_end(f: &str) -> bool {
    f.rsplit_once(':')
        .is_some_and(|(_, d)| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))
}
