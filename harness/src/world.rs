//! Families of worlds, and the comparison of what the tool reports with what the model says

use crate::core::*;
use crate::exec::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// names and locations

pub const SCHEMES: usize = 7;

/// ids that are easily confused with each other
pub fn name(scheme: usize, i: usize) -> String {
    let s: &[&str] = match scheme {
        0 => &[],
        1 => &[
            "REQ_A", "req_a", "Req_A", "REQ_a", "rEQ_A", "REq_A", "reQ_A", "req_A", "Req_a", "rEq_a",
        ],
        2 => &["R", "RR", "RRR", "RRRR", "RRRRR", "RRRRRR", "RRRRRRR", "RRRRRRRR"],
        3 => &["R1", "R01", "R10", "R001", "R100", "R010", "R11", "R0"],
        4 => &["Ä", "A\u{308}", "A", "ä", "Ae", "a\u{308}", "a", "AA"],
        5 => &["a::b", "a::b::c", "b::c", "a::c", "b", "a", "c::b", "c"],
        6 => &["X_Y", "X-Y", "X Y", "X__Y", "XY", "X_Y_", "_X_Y", "Y_X"],
        _ => unreachable!(),
    };
    s.get(i)
        .map_or_else(|| format!("REQ_{i}"), |s| (*s).to_owned())
}

pub struct Lg {
    n: u64,
    kind: usize,
}

impl Lg {
    pub fn new(kind: usize) -> Lg {
        Lg { n: 0, kind }
    }
    pub fn next(&mut self) -> Loc {
        self.n += 1;
        let n = self.n;
        match self.kind {
            0 => Loc::line("doc/all.md", n),
            3 => Loc::line("doc/same.md", 7),
            2 => Loc {
                file: "doc/all.md".into(),
                pos: match n % 3 {
                    0 => Pos::Line(65_530 + n),
                    1 => Pos::Col(4_294_967_290 + n, 250 + n),
                    _ => Pos::Col(n, 65_530 + n),
                },
            },
            _ => {
                let pos = match n % 4 {
                    0 => Pos::None,
                    1 => Pos::Line(n + 100),
                    2 => Pos::Col(n, n + 1),
                    _ => Pos::Str(format!("row{n}")),
                };
                Loc {
                    file: format!("d/f{n}.x"),
                    pos,
                }
            }
        }
    }
}

fn rf(id: &str, title: Option<&str>, lg: &mut Lg) -> Ref {
    Ref {
        id: id.into(),
        title: title.map(Into::into),
        loc: lg.next(),
    }
}

pub fn title_of(id: &str) -> String {
    format!("Title of {}", id.replace(':', "."))
}

fn req(id: &str, lg: &mut Lg) -> Req {
    Req::new(id, Some(&title_of(id)), lg.next())
}

// ---------------------------------------------------------------------------------------------
// families

/// two artefacts with two requirements each, one relation; every pattern of references between
/// them, each up to `mult` times
pub fn fam_pair(ch: &mut Ch, mult: usize, schemes: usize) -> Option<World> {
    let scheme = ch.n(schemes);
    let mut lg = Lg::new(*ch.of(&[0, 1, 3]));
    let ids: Vec<String> = (0..4).map(|i| name(scheme, i)).collect();
    let mut rs: Vec<Req> = ids.iter().map(|i| req(i, &mut lg)).collect();
    for u in 0..2 {
        for d in 2..4 {
            for _ in 0..ch.n(mult + 1) {
                let r = rf(&ids[d], None, &mut lg);
                rs[u].depends.push(r);
            }
            for _ in 0..ch.n(mult + 1) {
                let r = rf(&ids[u], None, &mut lg);
                rs[d].covers.push(r);
            }
        }
    }
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    b.reqs = rs.split_off(2);
    a.reqs = rs;
    Some(World {
        arts: vec![a, b],
        rels: vec![Rel::new("ArtA", &["ArtB"])],
    })
}

/// like fam_pair without repetition, with all settings for derived requirements and three
/// relations shapes
pub fn fam_derived(ch: &mut Ch) -> Option<World> {
    let rels = ch.n(5);
    let ia = *ch.of(&[None, Some(false), Some(true)]);
    let ib = *ch.of(&[None, Some(false), Some(true)]);
    let ic = *ch.of(&[None, Some(false), Some(true)]);
    let mut lg = Lg::new(1);
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    let mut c = Art::new("ArtC");
    let mut a1 = req("A1", &mut lg);
    let mut b1 = req("B1", &mut lg);
    let mut b2 = req("B2", &mut lg);
    let mut c1 = req("C1", &mut lg);
    match ch.n(4) {
        1 => b1.covers.push(rf("A1", None, &mut lg)),
        2 => a1.depends.push(rf("B1", None, &mut lg)),
        3 => b1.covers.push(rf("C1", None, &mut lg)),
        _ => {}
    }
    match ch.n(4) {
        1 => b2.covers.push(rf("A1", None, &mut lg)),
        2 => a1.depends.push(rf("B2", None, &mut lg)),
        3 => b2.depends.push(rf("C1", None, &mut lg)),
        _ => {}
    }
    match ch.n(4) {
        1 => c1.covers.push(rf("A1", None, &mut lg)),
        2 => c1.covers.push(rf("B1", None, &mut lg)),
        3 => b1.depends.push(rf("C1", None, &mut lg)),
        _ => {}
    }
    a.reqs = vec![a1];
    b.reqs = vec![b1, b2];
    c.reqs = vec![c1];
    a.ignore = ia;
    b.ignore = ib;
    c.ignore = ic;
    let rels = match rels {
        0 => vec![],
        1 => vec![Rel::new("ArtA", &["ArtB"])],
        2 => vec![Rel::new("ArtA", &["ArtB", "ArtC"])],
        3 => vec![Rel::new("ArtA", &["ArtB"]), Rel::new("ArtB", &["ArtC"])],
        _ => vec![
            Rel::new("ArtA", &["ArtC"]),
            Rel::new("ArtB", &["ArtC"]),
            Rel::new("ArtC", &["ArtB"]),
        ],
    };
    Some(World {
        arts: vec![a, b, c],
        rels,
    })
}

/// requirements a1.. in ArtA and b1.. in ArtB; every requirement covers and depends on at most
/// one id out of all of them and an unknown one
pub fn fam_stray(ch: &mut Ch, full: bool) -> Option<World> {
    let (na, nb) = if full {
        (2, 2)
    } else {
        *ch.of(&[(1, 2), (2, 1)])
    };
    let scheme = ch.n(2) * 2; // plain, or each a prefix of the next
    let n = na + nb;
    let mut lg = Lg::new(1);
    let ids: Vec<String> = (0..=n).map(|i| name(scheme, i)).collect();
    let mut rs: Vec<Req> = ids[..n].iter().map(|i| req(i, &mut lg)).collect();
    for r in &mut rs {
        let c = ch.n(n + 2);
        if c > 0 {
            r.covers.push(rf(&ids[c - 1], None, &mut lg));
        }
        let d = ch.n(n + 2);
        if d > 0 {
            r.depends.push(rf(&ids[d - 1], None, &mut lg));
        }
    }
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    b.reqs = rs.split_off(na);
    a.reqs = rs;
    Some(World {
        arts: vec![a, b],
        rels: vec![Rel::new("ArtA", &["ArtB"])],
    })
}

/// one requirement with up to `n` references in either list, ids out of an alphabet with
/// repetition: order and repetition of references
pub fn fam_lists(ch: &mut Ch, n: usize) -> Option<World> {
    let mut lg = Lg::new(*ch.of(&[0, 1, 3]));
    let ids = ["X", "Y", "NOPE"];
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    let down = ch.bool();
    let mut r = req("R", &mut lg);
    let len = ch.n(n + 1);
    for _ in 0..len {
        let id = *ch.of(&ids);
        let t = match ch.n(3) {
            0 => None,
            1 => Some(title_of(id)),
            _ => Some("Wrong".to_owned()),
        };
        let reference = rf(id, t.as_deref(), &mut lg);
        if down {
            r.depends.push(reference);
        } else {
            r.covers.push(reference);
        }
    }
    let x = req("X", &mut lg);
    let y = req("Y", &mut lg);
    if down {
        a.reqs = vec![r];
        b.reqs = vec![x, y];
    } else {
        a.reqs = vec![x, y];
        b.reqs = vec![r];
    }
    Some(World {
        arts: vec![a, b],
        rels: vec![Rel::new("ArtA", &["ArtB"])],
    })
}

fn all_rels() -> Vec<Rel> {
    let ids = ["ArtA", "ArtB", "ArtC"];
    let mut r = vec![];
    // natural relations first
    for u in ids {
        for mask in 1..8_usize {
            let l: Vec<&str> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| ids[i]).collect();
            r.push(Rel::new(u, &l));
        }
    }
    r
}

/// three artefacts with one requirement each, every set of relations (of up to `nrel`), and every
/// way the requirements can reference each other
pub fn fam_rels(ch: &mut Ch, nrel: usize, full: bool) -> Option<World> {
    let all = all_rels();
    let mut rels = vec![];
    let k = ch.n(nrel + 1);
    let mut from = 0;
    for _ in 0..k {
        let i = from + ch.n(all.len() - from);
        rels.push(all[i].clone());
        from = i;
    }
    let mut lg = Lg::new(1);
    let ids = ["A", "B", "C"];
    let mode = if full { 2 } else { ch.n(2) };
    let mut arts = vec![];
    for (i, id) in ids.iter().enumerate() {
        let mut a = Art::new(["ArtA", "ArtB", "ArtC"][i]);
        let mut r = req(id, &mut lg);
        if mode != 1 {
            let c = ch.n(4);
            if c > 0 {
                r.covers.push(rf(ids[c - 1], None, &mut lg));
            }
        }
        if mode != 0 {
            let d = ch.n(4);
            if d > 0 {
                r.depends.push(rf(ids[d - 1], None, &mut lg));
            }
        }
        a.reqs.push(r);
        arts.push(a);
    }
    Some(World { arts, rels })
}

/// many artefacts, relations, requirements, references; large line numbers
pub fn fam_scale(ch: &mut Ch) -> Option<World> {
    const SIZES: [usize; 25] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257];
    let kind = ch.n(9);
    // the numbers in the sources, too
    let more: Vec<usize> = crate::words::dict()
        .ints
        .iter()
        .map(|n| usize::try_from(*n).unwrap_or(usize::MAX))
        .filter(|n| (2..400).contains(n) && !SIZES.contains(n))
        .take(100)
        .collect();
    let n = ch.n(SIZES.len() + more.len());
    let n = if n < SIZES.len() { SIZES[n] } else { more[n - SIZES.len()] };
    // one of the requirements, in the middle, is different, or all but one are
    let broken = ch.n(7);
    let (most, broken) = if broken > 3 { (true, broken - 3) } else { (false, broken) };
    if most && n < SIZES[SIZES.len() - 1] && [3, 4, 6, 7, 8, 11, 12, 16, 31, 32, 64, 100, 128, 256].contains(&n) {
        return None;
    }
    let mut lg = Lg::new(if most { 0 } else { 2 * ch.n(2) });
    let id = |p: &str, i: usize| format!("{p}{i:03}");
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    let mut rels = vec![Rel::new("ArtA", &["ArtB"])];
    let mut more: Vec<Art> = vec![];
    let odd = |i: usize| broken > 0 && (i == n / 2) != most;
    match kind {
        // n requirements that are covered by one
        0 | 1 => {
            let mut d = req("D", &mut lg);
            for i in 0..n {
                let mut u = req(&id("U", i), &mut lg);
                if !odd(i) {
                    if kind == 0 {
                        d.covers.push(rf(&u.id, None, &mut lg));
                    } else {
                        u.depends.push(rf("D", None, &mut lg));
                    }
                } else if broken == 2 {
                    d.covers.push(rf(&id("X", i), None, &mut lg));
                } else if broken == 3 {
                    d.covers.push(rf(&u.id, Some("wrong"), &mut lg));
                }
                a.reqs.push(u);
            }
            b.reqs.push(d);
        }
        // n requirements that cover one
        2 => {
            a.reqs.push(req("U", &mut lg));
            for i in 0..n {
                let mut d = req(&id("D", i), &mut lg);
                match broken {
                    1 if odd(i) => {}
                    2 if odd(i) => d.covers.push(rf("X", None, &mut lg)),
                    3 if odd(i) => d.depends.push(rf("U", None, &mut lg)),
                    _ => d.covers.push(rf("U", None, &mut lg)),
                }
                b.reqs.push(d);
            }
        }
        // one by one
        3 => {
            for i in 0..n {
                let u = req(&id("U", i), &mut lg);
                let mut d = req(&id("D", i), &mut lg);
                match broken {
                    1 if odd(i) => {}
                    2 if odd(i) => d.covers.push(rf(&id("U", n), None, &mut lg)),
                    3 if odd(i) => d.covers.push(rf(&id("U", (i + 1) % n), Some("Wrong"), &mut lg)),
                    _ => d.covers.push(rf(&u.id, Some(&title_of(&u.id)), &mut lg)),
                }
                a.reqs.push(u);
                b.reqs.push(d);
            }
        }
        // the same reference n times
        4 => {
            a.reqs.push(req("U", &mut lg));
            let mut d = req("D", &mut lg);
            for i in 0..n {
                let (t, x) = match broken {
                    1 if odd(i) => (None, "X"),
                    2 if odd(i) => (Some("wrong"), "U"),
                    3 => (None, "X"),
                    _ => (Some("Title of U"), "U"),
                };
                d.covers.push(rf(x, t, &mut lg));
            }
            b.reqs.push(d);
        }
        // a chain of artefacts
        5 => {
            if n > 65 {
                return None;
            }
            rels.clear();
            a.reqs.push(req("R000", &mut lg));
            b.reqs.push(req("Q", &mut lg));
            for i in 1..=n {
                let mut m = Art::new(&id("M", i));
                let mut r = req(&id("R", i), &mut lg);
                match broken {
                    1 if odd(i) => {}
                    2 if odd(i) => r.covers.push(rf(&id("R", i.saturating_sub(2)), None, &mut lg)),
                    3 if odd(i) => r.covers.push(rf(&id("R", i - 1), Some("w"), &mut lg)),
                    _ => r.covers.push(rf(&id("R", i - 1), None, &mut lg)),
                }
                m.reqs.push(r);
                rels.push(Rel {
                    upper: if i == 1 { "ArtA".into() } else { id("M", i - 1) },
                    lower: vec![m.id.clone()],
                });
                more.push(m);
            }
        }
        // the same id n times
        8 => {
            for i in 0..n {
                let mut r = req("U", &mut lg);
                match broken {
                    1 if odd(i) => r.title = None,
                    2 if odd(i) => r.depends.push(rf("D", None, &mut lg)),
                    3 if odd(i) => {
                        let mut r = req("U", &mut lg);
                        r.covers.push(rf("U", None, &mut lg));
                        b.reqs.push(r);
                        continue;
                    }
                    _ => {}
                }
                a.reqs.push(r);
            }
            b.reqs.push(req("D", &mut lg));
        }
        // n artefacts below one, in one relation or in n
        _ => {
            if n > 65 {
                return None;
            }
            rels.clear();
            a.reqs.push(req("U", &mut lg));
            a.reqs.push(req("V", &mut lg));
            b.reqs.push(req("Q", &mut lg));
            let mut all = vec![];
            for i in 0..n {
                let mut m = Art::new(&id("M", i));
                let mut r = req(&id("R", i), &mut lg);
                match broken {
                    1 if odd(i) => {}
                    2 if odd(i) => r.covers.push(rf("V", None, &mut lg)),
                    3 if odd(i) => a.reqs[1].depends.push(rf(&id("R", i), None, &mut lg)),
                    _ => r.covers.push(rf("U", None, &mut lg)),
                }
                m.reqs.push(r);
                if kind == 6 {
                    rels.push(Rel {
                        upper: "ArtA".into(),
                        lower: vec![m.id.clone()],
                    });
                }
                all.push(m.id.clone());
                more.push(m);
            }
            if kind == 7 {
                rels.push(Rel {
                    upper: "ArtA".into(),
                    lower: all,
                });
            }
        }
    }
    let mut arts = vec![a, b];
    arts.extend(more);
    Some(World { arts, rels })
}

/// a project of n artefacts in which everything is as it should be but for one thing, in one
/// place of it
pub fn fam_one_problem(ch: &mut Ch) -> Option<World> {
    const SIZES: [usize; 16] = [2, 1, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65];
    let shape = ch.n(4);
    let n = *ch.of(&SIZES);
    let problem = ch.n(10);
    // where it is
    let p = *ch.of(&[n - 1, 0, n / 2, 1, n.saturating_sub(2)]);
    if p >= n {
        return None;
    }
    let mut lg = Lg::new(0);
    let id = |p: &str, i: usize| format!("{p}{i:03}");
    let mut top = Art::new("ArtA");
    let mut arts: Vec<Art> = vec![];
    let mut rels: Vec<Rel> = vec![];
    if shape < 3 {
        top.reqs.push(req("U", &mut lg));
        if shape != 2 {
            rels.extend((0..usize::from(shape == 0)).map(|_| Rel {
                upper: "ArtA".into(),
                lower: (0..n).map(|i| id("M", i)).collect(),
            }));
        }
        for i in 0..n {
            let mut m = Art::new(&id("M", i));
            let up = if shape == 2 && i > 0 { id("R", i - 1) } else { "U".to_owned() };
            let mut r = req(&id("R", i), &mut lg);
            r.covers.push(rf(&up, Some(&title_of(&up)), &mut lg));
            m.reqs.push(r);
            match shape {
                1 => rels.push(Rel {
                    upper: "ArtA".into(),
                    lower: vec![m.id.clone()],
                }),
                2 => rels.push(Rel {
                    upper: if i == 0 { "ArtA".into() } else { id("M", i - 1) },
                    lower: vec![m.id.clone()],
                }),
                _ => {}
            }
            arts.push(m);
        }
    } else {
        // one artefact with n requirements below another
        let mut m = Art::new("M");
        for i in 0..n {
            let u = req(&id("U", i), &mut lg);
            let mut r = req(&id("R", i), &mut lg);
            r.covers.push(rf(&u.id, Some(&title_of(&u.id)), &mut lg));
            top.reqs.push(u);
            m.reqs.push(r);
        }
        rels.push(Rel::new("ArtA", &["M"]));
        arts.push(m);
    }
    let (a, k) = if shape == 3 { (0, p) } else { (p, 0) };
    match problem {
        0 => {}
        // derived
        1 => {
            let x = req("X", &mut lg);
            arts[a].reqs.insert(k, x);
        }
        // derived, as it may be
        2 => {
            let x = req("X", &mut lg);
            arts[a].reqs.insert(k, x);
            arts[a].ignore = Some(true);
        }
        // the title is wrong
        3 => arts[a].reqs[k].covers[0].title = Some("wrong".into()),
        // a reference to what does not exist
        4 => {
            let r = rf("NONE", None, &mut lg);
            arts[a].reqs[k].covers.push(r);
        }
        5 => {
            let r = rf("NONE", None, &mut lg);
            arts[a].reqs[k].depends.push(r);
        }
        // twice
        6 => {
            let r = Req::new(&arts[a].reqs[k].id.clone(), Some("again"), lg.next());
            top.reqs.push(r);
        }
        // no relation
        7 => {
            let r = req("LONE", &mut lg);
            let mut l = Art::new("Lone");
            arts[a].reqs[k].depends.push(rf("LONE", None, &mut lg));
            l.reqs.push(r);
            arts.insert(a, l);
        }
        // not covered
        8 => {
            arts[a].reqs[k].covers.clear();
            arts[a].ignore = Some(true);
        }
        // not there at all
        _ => arts[a].src = Src::Broken,
    }
    arts.insert(0, top);
    Some(World { arts, rels })
}

/// up to n requirements in two artefacts, with every kind of id, file and position
pub fn fam_tags(ch: &mut Ch, n: usize) -> Option<World> {
    const IDS: [&str; 12] = ["B", "A", "a", "AB", "A B", "A!", "A_", "_A", "A::b", "\u{c4}", "A\u{1f4a9}", "A~"];
    const FILES: [&str; 5] = ["f.md", "/abs/dir/f.md", "a b.md", "\u{e9}.md", "f.md;"];
    let mut arts = vec![Art::new("ArtA"), Art::new("ArtB")];
    let len = ch.n(n + 1);
    let mut used: Vec<usize> = vec![];
    for _ in 0..len {
        let i = ch.n(IDS.len());
        // an id twice makes a second definition, in the other artefact
        let a = ch.n(2);
        if used.contains(&i) {
            return None;
        }
        used.push(i);
        let f = *ch.of(if n > 2 { &FILES[..2] } else { &FILES });
        let pos = match ch.n(7) {
            0 => Pos::Line(1),
            1 => Pos::Line(10),
            2 => Pos::Col(9, 2),
            3 => Pos::None,
            4 => Pos::Str("7".into()),
            5 => Pos::Line(4_294_967_297),
            _ => Pos::Line(0),
        };
        arts[a].reqs.push(Req::new(
            IDS[i],
            None,
            Loc {
                file: f.into(),
                pos,
            },
        ));
    }
    Some(World { arts, rels: vec![] })
}

pub const TITLES: [Option<&str>; 22] = [
    Some("T"),
    None,
    Some("t"),
    Some(""),
    Some(" T"),
    Some("T "),
    Some("TT"),
    Some("T T"),
    Some("T  T"),
    Some("\u{dc}"),
    Some("U\u{308}"),
    Some("T."),
    Some("T:"),
    Some("\u{a0}T"),
    Some("T\t"),
    Some("\"T\""),
    Some("`T`"),
    Some("A title that is as long as a line of text would be, which has at most eighty columns, or a bit longer X"),
    Some("A title that is as long as a line of text would be, which has at most eighty columns, or a bit longer Y"),
    Some("R"),
    Some("R: T"),
    Some("\u{fc}"),
];

/// all titles of a requirement and of two references to it, from below or above
pub fn fam_titles(ch: &mut Ch, second: bool) -> Option<World> {
    let mut lg = Lg::new(*ch.of(&[0, 1, 3]));
    let down = ch.bool();
    let rw = [None, Some(true), Some(false)];
    let (rt, ro) = if second {
        (*ch.of(&[None, Some(true)]), None)
    } else {
        (*ch.of(&rw), *ch.of(&rw))
    };
    let few = [Some("T"), None, Some("t"), Some("T "), Some("")];
    let alph: &[Option<&str>] = if second { &few } else { &TITLES };
    let target_title = *ch.of(alph);
    let t1 = *ch.of(alph);
    let mut target = Req::new("R", target_title, lg.next());
    target.attrs.insert("Comment".into(), "T".into());
    let mut o1 = req("O1", &mut lg);
    let mut o2 = req("O2", &mut lg);
    let mut refs1 = vec![rf("R", t1, &mut lg)];
    let mut refs2 = vec![];
    if second {
        let t2 = *ch.of(alph);
        let r = rf("R", t2, &mut lg);
        if ch.bool() {
            refs1.push(r);
        } else {
            refs2.push(r);
        }
        // a second requirement that is referenced, with the title of the first
    }
    let (mut ta, mut oa) = if down {
        (Art::new("ArtB"), Art::new("ArtA"))
    } else {
        (Art::new("ArtA"), Art::new("ArtB"))
    };
    if down {
        o1.depends = refs1;
        o2.depends = refs2;
    } else {
        o1.covers = refs1;
        o2.covers = refs2;
    }
    ta.reqs = vec![target];
    oa.reqs = vec![o1, o2];
    ta.rwt = rt;
    oa.rwt = ro;
    Some(World {
        arts: vec![ta, oa],
        rels: vec![Rel::new("ArtA", &["ArtB"])],
    })
}

/// titles along several relations: an artefact that demands titles below or above others
pub fn fam_titles_rel(ch: &mut Ch) -> Option<World> {
    let mut lg = Lg::new(1);
    let t = [Some("T"), None, Some("wrong")];
    let rw = [None, Some(true)];
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    let mut c = Art::new("ArtC");
    a.rwt = *ch.of(&rw);
    b.rwt = *ch.of(&rw);
    c.rwt = *ch.of(&rw);
    let mut ra = Req::new("RA", *ch.of(&t[..2]), lg.next());
    let mut rb = Req::new("RB", *ch.of(&t[..2]), lg.next());
    let mut rc = Req::new("RC", *ch.of(&t[..2]), lg.next());
    rb.covers.push(rf("RA", *ch.of(&t), &mut lg));
    rc.covers.push(rf("RB", *ch.of(&t), &mut lg));
    if ch.bool() {
        rb.depends.push(rf("RC", *ch.of(&t), &mut lg));
    }
    if ch.bool() {
        ra.depends.push(rf("RC", *ch.of(&t), &mut lg));
    }
    let rels = match ch.n(3) {
        0 => vec![Rel::new("ArtA", &["ArtB"]), Rel::new("ArtB", &["ArtC"])],
        1 => vec![Rel::new("ArtA", &["ArtB", "ArtC"])],
        _ => vec![
            Rel::new("ArtA", &["ArtB"]),
            Rel::new("ArtB", &["ArtC"]),
            Rel::new("ArtA", &["ArtB", "ArtC"]),
        ],
    };
    a.reqs = vec![ra];
    b.reqs = vec![rb];
    c.reqs = vec![rc];
    Some(World {
        arts: vec![a, b, c],
        rels,
    })
}

/// every distribution of two ids over lists in `narts` artefacts
pub fn fam_dups(ch: &mut Ch, narts: usize, len: usize, covers: bool) -> Option<World> {
    // the last: everything at the same place
    let mut lg = Lg::new(*ch.of(&[0, 1, 3]));
    let names = ["ArtA", "ArtB", "ArtC"];
    let ids = ["X", "Y"];
    // configured in an order that is not the order of the ids
    let order: &[usize] = match (ch.n(2), narts) {
        (0, _) => &[0, 1, 2],
        (_, 2) => &[1, 0],
        _ => &[2, 0, 1],
    };
    let mut arts: Vec<Art> = (0..narts).map(|i| Art::new(names[i])).collect();
    for a in &mut arts {
        let n = ch.n(len + 1);
        for _ in 0..n {
            let mut r = req(*ch.of(&ids), &mut lg);
            if lg.kind != 3 {
                r.title = Some(format!("T{}", lg.next().show().len()));
            }
            if covers {
                match ch.n(3) {
                    1 => r.covers.push(rf("X", None, &mut lg)),
                    2 => r.covers.push(rf("Y", None, &mut lg)),
                    _ => {}
                }
            }
            a.reqs.push(r);
        }
    }
    let rels = if narts == 1 {
        vec![]
    } else if narts == 2 {
        match ch.n(3) {
            0 => vec![Rel::new("ArtA", &["ArtB"])],
            1 => vec![],
            _ => vec![Rel::new("ArtB", &["ArtA"])],
        }
    } else {
        match ch.n(3) {
            0 => vec![Rel::new("ArtA", &["ArtB", "ArtC"])],
            1 => vec![Rel::new("ArtA", &["ArtB"]), Rel::new("ArtB", &["ArtC"])],
            _ => vec![Rel::new("ArtC", &["ArtB", "ArtA"])],
        }
    };
    let arts: Vec<Art> = order
        .iter()
        .filter_map(|i| arts.get(*i).cloned())
        .collect();
    Some(World { arts, rels })
}

// -- completely traced worlds, and up to k deviations from them

fn topology(t: usize) -> World {
    let mut lg = Lg::new(t % 2);
    let mut w = World {
        arts: vec![],
        rels: vec![],
    };
    let mk = |w: &mut World, id: &str| w.arts.push(Art::new(id));
    // (upper art, id) covered by...
    let mut add = |w: &mut World, art: &str, id: &str, covers: &[&str], depends: &[&str]| {
        let mut r = req(id, &mut lg);
        r.attrs
            .insert("Description".into(), format!("Text of {id}."));
        for c in covers {
            r.covers.push(rf(c, Some(&title_of(c)), &mut lg));
        }
        for d in depends {
            r.depends.push(rf(d, Some(&title_of(d)), &mut lg));
        }
        w.arts
            .iter_mut()
            .find(|a| a.id == art)
            .unwrap()
            .reqs
            .push(r);
    };
    match t {
        // chain
        0 => {
            for a in ["ArtA", "ArtB", "ArtC"] {
                mk(&mut w, a);
            }
            w.rels = vec![Rel::new("ArtA", &["ArtB"]), Rel::new("ArtB", &["ArtC"])];
            add(&mut w, "ArtA", "A1", &[], &[]);
            add(&mut w, "ArtA", "A2", &[], &["B2"]);
            add(&mut w, "ArtB", "B1", &["A1"], &[]);
            add(&mut w, "ArtB", "B2", &[], &["C1"]);
            add(&mut w, "ArtC", "C1", &["B1"], &[]);
        }
        // one relation with three lower artefacts
        1 => {
            for a in ["ArtA", "ArtB", "ArtC", "ArtD"] {
                mk(&mut w, a);
            }
            w.rels = vec![Rel::new("ArtA", &["ArtB", "ArtC", "ArtD"])];
            add(&mut w, "ArtA", "A1", &[], &["B1", "C1"]);
            add(&mut w, "ArtA", "A2", &[], &[]);
            add(&mut w, "ArtB", "B1", &[], &[]);
            add(&mut w, "ArtC", "C1", &["A1"], &[]);
            add(&mut w, "ArtD", "D1", &["A2", "A1"], &[]);
        }
        // diamond
        2 => {
            for a in ["Top", "Left", "Right", "Bot"] {
                mk(&mut w, a);
            }
            w.rels = vec![
                Rel::new("Top", &["Left"]),
                Rel::new("Top", &["Right"]),
                Rel::new("Left", &["Bot"]),
                Rel::new("Right", &["Bot"]),
            ];
            add(&mut w, "Top", "T1", &[], &["L1"]);
            add(&mut w, "Left", "L1", &[], &[]);
            add(&mut w, "Right", "R1", &["T1"], &["Z1"]);
            add(&mut w, "Bot", "Z1", &["L1"], &[]);
        }
        // like the project's own configuration
        3 => {
            for a in ["readme", "reqs", "arch", "dsg", "fmts", "code"] {
                mk(&mut w, a);
            }
            w.rels = vec![
                Rel::new("readme", &["reqs"]),
                Rel::new("reqs", &["dsg", "fmts", "arch"]),
                Rel::new("arch", &["dsg"]),
                Rel::new("dsg", &["fmts", "code"]),
                Rel::new("fmts", &["code"]),
            ];
            add(&mut w, "readme", "README", &[], &["REQ_1"]);
            add(&mut w, "reqs", "REQ_1", &[], &["ARCH_1"]);
            add(&mut w, "arch", "ARCH_1", &[], &[]);
            add(&mut w, "dsg", "DSG_1", &["ARCH_1"], &["FMT_1"]);
            add(&mut w, "fmts", "FMT_1", &["REQ_1"], &[]);
            add(&mut w, "code", "m::f", &["FMT_1", "DSG_1"], &[]);
        }
        // cycle, and a relation of an artefact with itself
        4 => {
            for a in ["ArtA", "ArtB"] {
                mk(&mut w, a);
            }
            w.rels = vec![
                Rel::new("ArtA", &["ArtB"]),
                Rel::new("ArtB", &["ArtA"]),
                Rel::new("ArtA", &["ArtA"]),
            ];
            add(&mut w, "ArtA", "A1", &["B1"], &["A2"]);
            add(&mut w, "ArtA", "A2", &["A1"], &["B1"]);
            add(&mut w, "ArtB", "B1", &["A1", "A2"], &["A2"]);
            // A2 is covered along ArtA => ArtA by itself
            w.arts[0].reqs[1].covers.push(rf("A2", Some(&title_of("A2")), &mut Lg { n: 50, kind: 0 }));
        }
        // an artefact without relations and one without requirements
        5 => {
            for a in ["ArtA", "ArtB", "Empty", "Lone"] {
                mk(&mut w, a);
            }
            w.rels = vec![Rel::new("ArtA", &["Empty", "ArtB"])];
            add(&mut w, "ArtA", "A1", &[], &[]);
            add(&mut w, "ArtB", "B1", &["A1"], &[]);
            add(&mut w, "Lone", "L1", &[], &[]);
            add(&mut w, "Lone", "L2", &[], &[]);
        }
        // wide: many requirements and references
        6 => {
            for a in ["ArtA", "ArtB"] {
                mk(&mut w, a);
            }
            w.rels = vec![Rel::new("ArtA", &["ArtB"])];
            for i in 0..13 {
                let d = format!("B{i}");
                let d: &[&str] = if i % 3 == 0 { &[&d] } else { &[] };
                add(&mut w, "ArtA", &format!("A{i}"), &[], d);
            }
            for i in 0..13 {
                let c = format!("A{i}");
                let c: &[&str] = if i % 3 != 0 { &[&c] } else { &[] };
                add(&mut w, "ArtB", &format!("B{i}"), c, &[]);
            }
        }
        // many artefacts and relations
        7 => {
            let mut lowers = vec![];
            mk(&mut w, "Top");
            for i in 0..11 {
                let a = format!("Sub{i}");
                mk(&mut w, &a);
                w.rels.push(Rel::new("Top", &[&a]));
                lowers.push(a);
            }
            add(&mut w, "Top", "T1", &[], &["S3", "S10"]);
            for (i, a) in lowers.iter().enumerate() {
                let c: &[&str] = if i == 3 || i == 10 { &[] } else { &["T1"] };
                add(&mut w, a, &format!("S{i}"), c, &[]);
            }
        }
        _ => unreachable!(),
    }
    w
}

#[derive(Clone, Debug)]
enum Mut {
    DropRef(usize, usize, Dir, usize),
    Retarget(usize, usize, Dir, usize, String),
    AddRef(usize, usize, Dir, String, Option<String>),
    RefTitle(usize, usize, Dir, usize, Option<String>),
    Title(usize, usize, Option<String>),
    Ignore(usize, bool),
    Rwt(usize, bool),
    DropReq(usize, usize),
    Double(usize, usize, usize), // define requirement again in artefact
    Src(usize, Src),
    DropRel(usize),
    RepeatRel(usize),
    NewReq(usize),
}

fn mutations(w: &World) -> Vec<Mut> {
    let mut m = vec![];
    let ids: Vec<String> = w
        .arts
        .iter()
        .flat_map(|a| a.reqs.iter().map(|r| r.id.clone()))
        .collect();
    let small = ids.len() <= 6;
    for (ai, a) in w.arts.iter().enumerate() {
        for b in [false, true] {
            m.push(Mut::Ignore(ai, b));
            m.push(Mut::Rwt(ai, b));
        }
        m.push(Mut::Src(ai, Src::Missing));
        m.push(Mut::Src(ai, Src::Broken));
        m.push(Mut::NewReq(ai));
        for (ri, r) in a.reqs.iter().enumerate() {
            m.push(Mut::DropReq(ai, ri));
            m.push(Mut::Title(ai, ri, None));
            m.push(Mut::Title(ai, ri, Some(title_of(&r.id).to_uppercase())));
            m.push(Mut::Double(ai, ri, ai));
            if small {
                m.push(Mut::Double(ai, ri, (ai + 1) % w.arts.len()));
            }
            for (dir, list) in [(Dir::Up, &r.covers), (Dir::Down, &r.depends)] {
                for (i, x) in list.iter().enumerate() {
                    m.push(Mut::DropRef(ai, ri, dir, i));
                    m.push(Mut::RefTitle(ai, ri, dir, i, None));
                    m.push(Mut::RefTitle(ai, ri, dir, i, Some(format!("{} ", title_of(&x.id)))));
                    m.push(Mut::Retarget(ai, ri, dir, i, x.id.to_lowercase()));
                    m.push(Mut::Retarget(ai, ri, dir, i, format!("{}1", x.id)));
                    if small {
                        for id in &ids {
                            if *id != x.id {
                                m.push(Mut::Retarget(ai, ri, dir, i, id.clone()));
                            }
                        }
                    }
                }
                let targets: Vec<String> = if small {
                    ids.clone()
                } else {
                    vec![ids[0].clone(), ids[ids.len() - 1].clone()]
                };
                for id in targets {
                    m.push(Mut::AddRef(ai, ri, dir, id.clone(), Some(title_of(&id))));
                }
            }
        }
    }
    for i in 0..w.rels.len() {
        m.push(Mut::DropRel(i));
        m.push(Mut::RepeatRel(i));
    }
    m
}

fn list_of(w: &mut World, a: usize, r: usize, d: Dir) -> Option<&mut Vec<Ref>> {
    let r = w.arts.get_mut(a)?.reqs.get_mut(r)?;
    Some(if d == Dir::Up {
        &mut r.covers
    } else {
        &mut r.depends
    })
}

/// false if the mutation cannot be applied any more
fn mutate(w: &mut World, m: &Mut, lg: &mut Lg) -> bool {
    match m {
        Mut::DropRef(a, r, d, i) => match list_of(w, *a, *r, *d) {
            Some(l) if *i < l.len() => {
                l.remove(*i);
                true
            }
            _ => false,
        },
        Mut::Retarget(a, r, d, i, id) => match list_of(w, *a, *r, *d) {
            Some(l) if *i < l.len() => {
                l[*i].id = id.clone();
                true
            }
            _ => false,
        },
        Mut::RefTitle(a, r, d, i, t) => match list_of(w, *a, *r, *d) {
            Some(l) if *i < l.len() => {
                l[*i].title = t.clone();
                true
            }
            _ => false,
        },
        Mut::AddRef(a, r, d, id, t) => match list_of(w, *a, *r, *d) {
            Some(l) => {
                l.push(Ref {
                    id: id.clone(),
                    title: t.clone(),
                    loc: lg.next(),
                });
                true
            }
            _ => false,
        },
        Mut::Title(a, r, t) => match w.arts[*a].reqs.get_mut(*r) {
            Some(x) => {
                x.title = t.clone();
                true
            }
            _ => false,
        },
        Mut::Ignore(a, b) => {
            w.arts[*a].ignore = Some(*b);
            true
        }
        Mut::Rwt(a, b) => {
            w.arts[*a].rwt = Some(*b);
            true
        }
        Mut::DropReq(a, r) => {
            if *r < w.arts[*a].reqs.len() {
                w.arts[*a].reqs.remove(*r);
                true
            } else {
                false
            }
        }
        Mut::Double(a, r, to) => {
            if let Some(x) = w.arts[*a].reqs.get(*r) {
                let mut x = x.clone();
                x.loc = lg.next();
                x.title = Some("Again".into());
                x.depends.clear();
                for c in &mut x.covers {
                    c.loc = lg.next();
                }
                w.arts[*to].reqs.push(x);
                true
            } else {
                false
            }
        }
        Mut::Src(a, s) => {
            w.arts[*a].src = s.clone();
            true
        }
        Mut::DropRel(i) => {
            if *i < w.rels.len() {
                w.rels.remove(*i);
                true
            } else {
                false
            }
        }
        Mut::RepeatRel(i) => {
            if *i < w.rels.len() {
                let r = w.rels[*i].clone();
                w.rels.push(r);
                true
            } else {
                false
            }
        }
        Mut::NewReq(a) => {
            let id = format!("NEW_{a}");
            if w.arts[*a].reqs.iter().any(|r| r.id == id) {
                return false;
            }
            let r = req(&id, lg);
            w.arts[*a].reqs.push(r);
            true
        }
    }
}

/// completely traced worlds with up to `k` mistakes (one for the big ones)
pub fn fam_mut(ch: &mut Ch, topologies: &[usize], k: usize) -> Option<World> {
    let t = *ch.of(topologies);
    let mut w = topology(t);
    let ms = mutations(&w);
    let k = if t == 6 || t == 7 || t == 3 { k - 1 } else { k };
    let n = ch.n(k + 1);
    let mut from = 0;
    let mut lg = Lg {
        n: 300,
        kind: t % 2,
    };
    for _ in 0..n {
        if from == ms.len() {
            return None;
        }
        let i = from + ch.n(ms.len() - from);
        if !mutate(&mut w, &ms[i], &mut lg) {
            return None;
        }
        from = i + 1;
    }
    Some(w)
}

/// requirements with all kinds of text in them
pub fn fam_text(ch: &mut Ch) -> Option<World> {
    let mut lg = Lg::new(1);
    let values: [Option<&str>; 9] = [
        None,
        Some("x\n"),
        Some("two\nlines\n"),
        Some("para\n\npara2\n"),
        Some(" padded "),
        Some(""),
        Some("* bullet\n* bullet2"),
        Some("ümläut \u{1F980}"),
        Some("Covers: nothing"),
    ];
    let mut a = Art::new("ArtA");
    let mut b = Art::new("ArtB");
    let mut r = Req::new("R", *ch.of(&[Some("Title"), None, Some("")]), lg.next());
    for _ in 0..ch.n(4) {
        lg.next();
    }
    r.loc = lg.next();
    for k in ["Description", "Comment", "Zeta"] {
        if let Some(v) = ch.of(&values) {
            r.attrs.insert(k.into(), (*v).to_owned());
        }
    }
    let nc = ch.n(3);
    for i in 0..nc {
        r.covers.push(rf(["U", "V"][i], [Some("Tit le"), None][i], &mut lg));
    }
    if ch.bool() {
        r.depends.push(rf("W", None, &mut lg));
        r.depends.push(rf("W", Some("WW"), &mut lg));
    }
    r.tags = vec!["t1".into()];
    b.reqs = vec![req("AA", &mut lg), r, req("Z", &mut lg)];
    a.reqs = vec![req("M", &mut lg)];
    Some(World {
        arts: vec![a, b],
        rels: vec![],
    })
}

const PIECES: [&str; 22] = [
    "a", "B c", "\n", "\n\n", "\n\n\n", " ", "\t", "\r\n", "x # x", "x#", "* REQ", "- ", "`", "**", "x Covers:", "<a>", "|", "\\", "\"", "'", ":",
    "\u{fc}\u{1F980}",
];

/// texts made of up to `n` pieces, as descriptions and as other attributes
pub fn fam_pieces(ch: &mut Ch, n: usize) -> Option<World> {
    let mut lg = Lg::new(1);
    let place = ch.n(3);
    let len = 1 + ch.n(n);
    let text: String = (0..len).map(|_| *ch.of(&PIECES)).collect();
    let mut r = Req::new("R", Some("Title"), lg.next());
    if place != 1 {
        r.attrs.insert("Description".into(), text.clone());
    }
    if place != 0 {
        r.attrs.insert("Comment".into(), text);
    }
    let mut a = Art::new("ArtA");
    a.reqs = vec![req("AA", &mut lg), r, req("Z", &mut lg)];
    Some(World {
        arts: vec![a],
        rels: vec![],
    })
}

const KEYS: [&str; 16] = [
    "Comment", "Zeta", "Descriptions", "Descriptio", "Descr", "description", "DESCRIPTION", "A", "Zz", "Title", "Covered",
    "Depend", "Note", "a b", "\u{c4}", "Description ",
];

/// up to three attributes with names that are easily confused, next to a description or without
pub fn fam_keys(ch: &mut Ch) -> Option<World> {
    let mut lg = Lg::new(1);
    let mut a = Art::new("ArtA");
    let mut r = Req::new("R", Some("Title"), lg.next());
    if ch.bool() {
        r.attrs.insert("Description".into(), "what it is".into());
    }
    let n = 1 + ch.n(3);
    let mut from = 0;
    for i in 0..n {
        if from == KEYS.len() {
            return None;
        }
        let k = from + ch.n(KEYS.len() - from);
        from = k + 1;
        let v = if n == 1 { *ch.of(&["v", "two\nlines", " padded\n", "what it is"]) } else { ["v0", "v1", "v2"][i] };
        r.attrs.insert(KEYS[k].into(), v.into());
    }
    a.reqs = vec![req("AA", &mut lg), r, req("Z", &mut lg)];
    Some(World {
        arts: vec![a],
        rels: vec![],
    })
}

/// an artefact in the middle of up to `k` relations of its own, above or below it; all ways its
/// `n` requirements can be covered along them
pub fn fam_star(ch: &mut Ch, k: usize, n: usize) -> Option<World> {
    let mut lg = Lg::new(1);
    let above = ch.bool();
    let k = 1 + ch.n(k);
    // all in one relation (below), or one relation each
    let one = !above && k > 1 && ch.bool();
    let mut hub = Art::new("Hub");
    let mut arts: Vec<Art> = (0..k).map(|i| Art::new(["ArtE", "ArtB", "Zed", "ArtC", "ArtD"][i])).collect();
    for (i, a) in arts.iter_mut().enumerate() {
        a.reqs.push(req(&format!("S{i}"), &mut lg));
    }
    for j in 0..n {
        let mut h = req(&format!("H{j}"), &mut lg);
        for (i, a) in arts.iter_mut().enumerate() {
            let id = format!("S{i}");
            match (ch.n(3), above) {
                (0, _) => {}
                (1, true) => h.covers.push(rf(&id, None, &mut lg)),
                (1, false) => h.depends.push(rf(&id, None, &mut lg)),
                (_, true) => a.reqs[0].depends.push(rf(&h.id, None, &mut lg)),
                (_, false) => a.reqs[0].covers.push(rf(&h.id, None, &mut lg)),
            }
        }
        hub.reqs.push(h);
    }
    let ids: Vec<&str> = arts.iter().map(|a| a.id.as_str()).collect();
    let rels = if one {
        vec![Rel::new("Hub", &ids)]
    } else if above {
        ids.iter().map(|i| Rel::new(i, &["Hub"])).collect()
    } else {
        ids.iter().map(|i| Rel::new("Hub", &[i])).collect()
    };
    arts.insert(k / 2, hub);
    Some(World { arts, rels })
}

// ---------------------------------------------------------------------------------------------
// comparison

type R = Result<(), String>;

fn differ<T: std::fmt::Debug>(what: &str, expected: T, actual: T) -> R {
    Err(format!("{what}:\n expected {expected:?}\n actual   {actual:?}"))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Dup,
    NoTitle,
    WrongTitle,
    RefNoTitle,
    Unknown,
    Unused,
    Other,
}

fn kind(e: &Er) -> K {
    match e {
        Er::Dup(..) => K::Dup,
        Er::NoTitle(..) => K::NoTitle,
        Er::WrongTitle { .. } => K::WrongTitle,
        Er::RefNoTitle { .. } => K::RefNoTitle,
        Er::Unknown { .. } => K::Unknown,
        Er::Unused(..) => K::Unused,
        _ => K::Other,
    }
}

fn block_kind(b: &str) -> K {
    let l = b.to_lowercase();
    if l.contains("duplicate requirement") {
        K::Dup
    } else if l.contains("unknown requirement") {
        K::Unknown
    } else if l.contains("wrong title") {
        K::WrongTitle
    } else if l.contains("covered without title") || l.contains("should reference") {
        K::RefNoTitle
    } else if l.contains("without title") {
        K::NoTitle
    } else if l.contains("relation") {
        K::Unused
    } else {
        K::Other
    }
}

fn arts_of(w: &World) -> Vec<String> {
    w.arts.iter().map(|a| a.id.clone()).collect()
}

/// errors of the given kinds agree, in all three trace reports
fn cmp_errors(kinds: &[K], arts: &[String], x: &Facts, j: &Facts, md: &TextFacts, gnu: &TextFacts) -> R {
    let pick = |s: &BTreeSet<Er>| -> BTreeSet<Er> {
        s.iter()
            .filter(|e| kinds.contains(&kind(e)))
            .cloned()
            .collect()
    };
    if pick(&x.errs) != pick(&j.errs) {
        return differ("errors of the JSON trace", pick(&x.errs), pick(&j.errs));
    }
    let none = BTreeSet::new();
    for a in arts {
        let e = pick(x.art_errs.get(a).unwrap_or(&none));
        let g = pick(j.art_errs.get(a).unwrap_or(&none));
        if e != g {
            return differ(&format!("errors of artefact {a} in the JSON trace"), e, g);
        }
        let no = vec![];
        let blocks = md.art_errs.get(a).unwrap_or(&no);
        match_kinds(&format!("Markdown report, errors of {a}"), kinds, &e, blocks, arts)?;
    }
    match_kinds("Markdown report, tracing errors", kinds, &pick(&x.errs), &md.errs, arts)?;
    match_kinds("GNU report, tracing errors", kinds, &pick(&x.errs), &gnu.errs, arts)?;
    if kinds.contains(&K::WrongTitle) {
        // where the requirement that was referenced with a wrong title is defined
        for b in &gnu.errs {
            let Some((first, note)) = b.split_once('\n').filter(|(_, n)| n.ends_with(": note: Defined here")) else { continue };
            let found = x.reqs.values().flatten().any(|r| note.strip_suffix(": note: Defined here") == Some(&r.loc.show()) && first.contains(&format!(": {} ", r.id)));
            if !found {
                return Err(format!("GNU report: {note:?} is no definition of the requirement of {first:?}"));
            }
        }
    }
    let all: BTreeSet<Er> = x.art_errs.values().flat_map(&pick).collect();
    match_kinds("GNU report, parsing errors", kinds, &all, &gnu.art_errs[""], arts)
}

fn match_kinds(what: &str, kinds: &[K], e: &BTreeSet<Er>, blocks: &[String], arts: &[String]) -> R {
    let blocks: Vec<String> = blocks
        .iter()
        .filter(|b| kinds.contains(&block_kind(b)))
        .cloned()
        .collect();
    match_blocks(what, e.iter(), &blocks, arts)
}

fn rel_map(f: &Facts) -> BTreeMap<Vec<String>, Vec<&RelFacts>> {
    let mut m: BTreeMap<Vec<String>, Vec<&RelFacts>> = BTreeMap::new();
    for (r, x) in &f.rels {
        m.entry(r.key()).or_default().push(x);
    }
    m
}

fn cmp_covered(x: &Facts, j: &Facts) -> R {
    let (a, b) = (rel_map(x), rel_map(j));
    if a.keys().ne(b.keys()) {
        return differ("relations in the JSON trace", a.keys().collect::<Vec<_>>(), b.keys().collect());
    }
    for (k, v) in &a {
        let e: Vec<_> = v.iter().map(|r| &r.covered).collect();
        let g: Vec<_> = b[k].iter().map(|r| &r.covered).collect();
        if e != g {
            return differ(&format!("covered along {k:?}"), e, g);
        }
    }
    Ok(())
}

fn cmp_uncovered_json(x: &Facts, j: &Facts) -> R {
    let (a, b) = (rel_map(x), rel_map(j));
    if a.keys().ne(b.keys()) {
        return differ("relations in the JSON trace", a.keys().collect::<Vec<_>>(), b.keys().collect());
    }
    for (k, v) in &a {
        let e: Vec<_> = v.iter().map(|r| &r.uncovered).collect();
        let g: Vec<_> = b[k].iter().map(|r| &r.uncovered).collect();
        if e != g {
            return differ(&format!("uncovered along {k:?} (JSON)"), e, g);
        }
    }
    Ok(())
}

fn loc_in(x: &Facts, art: &str, id: &str) -> Loc {
    x.reqs[art].iter().find(|r| r.id == id).unwrap().loc.clone()
}

/// lines of a GNU report `location: id Keyword`
fn gnu_lines(what: &str, keyword: &str, want: &BTreeSet<(String, Loc)>, lines: &[String]) -> R {
    let ok = |id: &str, loc: &Loc, l: &str| {
        l.strip_prefix(&format!("{}:", loc.show()))
            .is_some_and(|rest| {
                rest.to_lowercase().contains(keyword)
                    && rest
                        .trim()
                        .strip_prefix(id)
                        .is_some_and(|r| r.starts_with(' '))
            })
    };
    for (id, loc) in want {
        if !lines.iter().any(|l| ok(id, loc, l)) {
            return Err(format!("{what}: no line for {id} at {}; lines: {lines:?}", loc.show()));
        }
    }
    for l in lines {
        if !want.iter().any(|(id, loc)| ok(id, loc, l)) {
            return Err(format!("{what}: unexpected {l:?}"));
        }
    }
    Ok(())
}

fn cmp_uncovered_text(x: &Facts, md: &TextFacts, gnu: &TextFacts) -> R {
    let mut keys: BTreeSet<Vec<String>> = x.rels.iter().map(|r| r.0.key()).collect();
    keys.extend(md.uncovered.keys().cloned());
    keys.extend(gnu.uncovered.keys().cloned());
    let no = vec![];
    for k in keys {
        let e: BTreeSet<String> = x
            .rels
            .iter()
            .filter(|r| r.0.key() == k)
            .flat_map(|r| r.1.uncovered.iter().cloned())
            .collect();
        let g: BTreeSet<String> = md.uncovered.get(&k).unwrap_or(&no).iter().cloned().collect();
        if e != g {
            return differ(&format!("uncovered along {k:?} (Markdown)"), e, g);
        }
        let want = e
            .into_iter()
            .map(|id| {
                let l = loc_in(x, &k[0], &id);
                (id, l)
            })
            .collect();
        gnu_lines(
            &format!("uncovered along {k:?} (GNU)"),
            "uncovered",
            &want,
            gnu.uncovered.get(&k).unwrap_or(&no),
        )?;
    }
    Ok(())
}

fn cmp_derived(arts: &[String], x: &Facts, j: &Facts, md: &TextFacts, gnu: &TextFacts) -> R {
    if x.derived != j.derived {
        return differ("derived (JSON)", &x.derived, &j.derived);
    }
    let mut keys: BTreeSet<String> = arts.iter().cloned().collect();
    keys.extend(md.derived.keys().cloned());
    keys.extend(gnu.derived.keys().cloned());
    let no = vec![];
    let none = BTreeSet::new();
    for k in keys {
        let e = x.derived.get(&k).unwrap_or(&none).clone();
        let g: BTreeSet<String> = md.derived.get(&k).unwrap_or(&no).iter().cloned().collect();
        if e != g {
            return differ(&format!("derived in {k} (Markdown)"), e, g);
        }
        let want = e
            .into_iter()
            .map(|id| {
                let l = loc_in(x, &k, &id);
                (id, l)
            })
            .collect();
        gnu_lines(
            &format!("derived in {k} (GNU)"),
            "derived",
            &want,
            gnu.derived.get(&k).unwrap_or(&no),
        )?;
    }
    Ok(())
}

fn cmp_reqs(x: &Facts, j: &Facts) -> R {
    if x.reqs != j.reqs {
        return differ("requirements (JSON)", &x.reqs, &j.reqs);
    }
    Ok(())
}

/// every requirement is shown, in order, with everything about it
fn cmp_md_reqs(x: &Facts, md: &TextFacts) -> R {
    let want: Vec<(&String, Vec<&String>)> = x
        .reqs
        .iter()
        .map(|(a, r)| (a, r.iter().map(|r| &r.id).collect()))
        .collect();
    let got: Vec<(&String, Vec<&String>)> = md
        .reqs
        .iter()
        .map(|(a, r)| (a, r.iter().map(|r| &r.id).collect()))
        .collect();
    if want != got {
        return differ("requirements (Markdown trace)", want, got);
    }
    if x.cross_dup {
        return Ok(());
    }
    for ((_, rs), (a, ms)) in x.reqs.iter().zip(&md.reqs) {
        for (r, m) in rs.iter().zip(ms) {
            let w = format!("{} (Markdown trace)", r.id);
            if m.title != r.title {
                return differ(&format!("title of {w}"), &r.title, &m.title);
            }
            if !has_token(&m.origin, a) || !has_token(&m.origin, &r.loc.show()) {
                return Err(format!("origin of {w}: {:?}, expected {a} and {}", m.origin, r.loc.show()));
            }
            cmp_attrs(&w, r, &m.body)?;
        }
    }
    Ok(())
}

fn cmp_attrs(w: &str, r: &Req, body: &str) -> R {
    // (some reports are read line by line)
    let body = body.replace("\r\n", "\n");
    if let Some(d) = r.attrs.get("Description") {
        if !body.contains(&format!("\n{}\n", d.replace("\r\n", "\n").trim_end_matches('\n'))) {
            return Err(format!("{w}: description {d:?} is not in {body:?}"));
        }
    }
    let mut from = 0;
    for (k, v) in &r.attrs {
        let v = v.replace("\r\n", "\n");
        let v = v.trim();
        if k == "Description" || v.is_empty() {
            continue;
        }
        match body[from..].find(&format!("\n{k}:\n{v}\n")) {
            Some(p) => from += p + 1,
            None => {
                return Err(format!("{w}: attribute {k} with {v:?} is not in {body:?}"));
            }
        }
    }
    // what is shown as an attribute is one
    for l in body.lines().skip(1) {
        if let Some(k) = l.strip_suffix(':') {
            if KEYS.contains(&k) && !r.attrs.contains_key(k) {
                return Err(format!("{w}: unexpected attribute {k}"));
            }
        }
    }
    Ok(())
}

/// Markdown Parse report
fn cmp_md_parse(arts: &[String], x: &Facts, text: &str) -> R {
    let (head, body) = match text.find("\n### ") {
        Some(p) => (&text[..=p], &text[p..]),
        None => (text, ""),
    };
    let f = md_trace(head, arts)?;
    let no = vec![];
    let none = BTreeSet::new();
    for a in arts {
        match_blocks(
            &format!("Markdown Parse report, errors of {a}"),
            x.art_errs.get(a).unwrap_or(&none).iter(),
            f.art_errs.get(a).unwrap_or(&no),
            arts,
        )?;
    }
    let mut want: Vec<&Req> = x.reqs.values().flatten().collect();
    want.sort_by(|a, b| a.id.cmp(&b.id));
    let blocks: Vec<&str> = body.split("\n### ").skip(1).collect();
    if blocks.len() != want.len() {
        return Err(format!(
            "Markdown Parse report has {} requirements, not {}",
            blocks.len(),
            want.len()
        ));
    }
    for (r, b) in want.iter().zip(&blocks) {
        let what = format!("{} (Markdown Parse report)", r.id);
        let (headline, rest) = b.split_once('\n').unwrap_or((b, ""));
        let title = r.title.clone().unwrap_or_default();
        let ok = headline == format!("{}: {title}", r.id)
            || (title.is_empty() && headline.trim_end().trim_end_matches(':') == r.id);
        if !x.cross_dup && !ok || !headline.starts_with(&r.id) {
            return Err(format!("heading of {what}: {headline:?}, title should be {:?}", r.title));
        }
        if x.cross_dup {
            continue;
        }
        let rest = format!("\n{rest}\n");
        let origin = rest
            .lines()
            .find(|l| l.starts_with("Origin:"))
            .map(delink)
            .unwrap_or_default();
        if !has_token(&origin, &r.loc.show()) {
            return Err(format!("origin of {what}: {origin:?}, expected {}", r.loc.show()));
        }
        cmp_attrs(&what, r, &rest)?;
        for (k, list) in [("Covers", &r.covers), ("Depends", &r.depends)] {
            let mut s = String::new();
            for c in list {
                match &c.title {
                    Some(t) => s.push_str(&format!("{}: {t}\n", c.id)),
                    None => s.push_str(&format!("{}\n", c.id)),
                }
            }
            let shown = rest.find(&format!("\n{k}:\n")).map(|p| {
                let mut t = String::new();
                for l in rest[p + k.len() + 3..].lines() {
                    match l.strip_prefix('*') {
                        Some(i) => {
                            t.push_str(i.trim_start());
                            t.push('\n');
                        }
                        None => break,
                    }
                }
                t
            });
            if shown.clone().unwrap_or_default() != s {
                return differ(&format!("{k} of {what}"), s, shown.unwrap_or_default());
            }
        }
    }
    Ok(())
}

fn cmp_matrix(x: &Facts, md: &TextFacts) -> R {
    if x.cross_dup {
        return Ok(());
    }
    let mut rels: BTreeMap<Vec<String>, usize> = BTreeMap::new();
    for r in &x.rels {
        *rels.entry(r.0.key()).or_default() += 1;
    }
    for (a, rs) in &x.reqs {
        let none = vec![];
        let ms = md
            .reqs
            .iter()
            .find(|m| &m.0 == a)
            .map_or(&none, |m| &m.1);
        for r in rs {
            let Some(m) = ms.iter().find(|m| m.id == r.id) else {
                return Err(format!("{} is not in the matrix", r.id));
            };
            let mut up: BTreeMap<Vec<String>, Vec<(String, String)>> = BTreeMap::new();
            let mut down: BTreeMap<Vec<String>, Vec<(String, String)>> = BTreeMap::new();
            for (rel, rf) in &x.rels {
                if &rel.upper == a {
                    let e = down.entry(rel.key()).or_default();
                    for c in rf.covered.iter().filter(|c| c.upper == r.id) {
                        e.push((c.lower.clone(), c.loc.show()));
                    }
                }
                if rel.lower.contains(a) {
                    let e = up.entry(rel.key()).or_default();
                    for c in rf.covered.iter().filter(|c| c.lower == r.id) {
                        e.push((c.upper.clone(), c.loc.show()));
                    }
                }
            }
            let norm = |k: &Vec<String>, v: &mut Vec<(String, String)>| {
                v.sort();
                if rels.get(k).is_some_and(|n| *n > 1) {
                    v.dedup();
                }
            };
            let derived = up.values().all(Vec::is_empty);
            let mut got_up: BTreeMap<Vec<String>, Vec<(String, String)>> = BTreeMap::new();
            for (k, v) in &m.up {
                if got_up.insert(k.clone(), v.clone()).is_some() {
                    return Err(format!("{}: relation {k:?} is listed twice above", r.id));
                }
            }
            let mut got_down: BTreeMap<Vec<String>, Vec<(String, String)>> = BTreeMap::new();
            for (k, v, unc) in &m.down {
                if *unc != v.is_empty() {
                    return Err(format!(
                        "{}: along {k:?} marked UNCOVERED: {unc}, entries {v:?}",
                        r.id
                    ));
                }
                if got_down.insert(k.clone(), v.clone()).is_some() {
                    return Err(format!("{}: relation {k:?} is listed twice below", r.id));
                }
            }
            for map in [&mut up, &mut down, &mut got_up, &mut got_down] {
                for (k, v) in map.iter_mut() {
                    norm(k, v);
                }
            }
            if up != got_up {
                return differ(&format!("upwards tracing of {}", r.id), up, got_up);
            }
            if down != got_down {
                return differ(&format!("downwards tracing of {}", r.id), down, got_down);
            }
            if derived != m.derived {
                return differ(&format!("{} marked Derived", r.id), derived, m.derived);
            }
        }
    }
    Ok(())
}

pub fn cmp_parse_json(x: &Facts, text: &str) -> R {
    let (reqs, errs, _) = parse_report(text)?;
    let mut want: Vec<&Req> = x.reqs.values().flatten().collect();
    want.sort_by(|a, b| a.id.cmp(&b.id));
    let got: Vec<&Req> = reqs.iter().collect();
    if want != got {
        return differ("requirements of the JSON Parse report", want, got);
    }
    let e: BTreeSet<&Er> = x.art_errs.values().flatten().collect();
    let g: BTreeSet<&Er> = errs.iter().collect();
    if e != g {
        return differ("errors of the JSON Parse report", e, g);
    }
    Ok(())
}

fn cmp_tags(x: &Facts, text: &str) -> R {
    let mut want: Vec<String> = x
        .reqs
        .values()
        .flatten()
        .filter_map(|r| {
            let line = match r.loc.pos {
                Pos::Line(l) | Pos::Col(l, _) => l,
                _ => return None,
            };
            Some(format!("{}\t{}\t{line};\"\tr", r.id, r.loc.file))
        })
        .collect();
    want.sort();
    if !text.ends_with('\n') {
        return Err("tags file does not end with a line".into());
    }
    let lines: Vec<&str> = text.lines().collect();
    for p in lines.windows(2) {
        if p[0].as_bytes() > p[1].as_bytes() {
            return Err(format!("tags file is not sorted: {:?} before {:?}", p[0], p[1]));
        }
    }
    let got: Vec<String> = lines
        .iter()
        .filter(|l| !l.starts_with("!_TAG_"))
        .map(|l| (*l).to_owned())
        .collect();
    if !lines.first().is_some_and(|l| l.starts_with("!_TAG_FILE_SORTED\t1")) {
        return Err("tags file does not say that it is sorted".into());
    }
    if want != got {
        return differ("tags", want, got);
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    C01,
    C02,
    C03,
    C04,
    C05,
    C06,
    C12,
    C13,
    C14,
    C15,
}

pub fn jobs_for(p: P) -> &'static [(&'static str, &'static str)] {
    match p {
        P::C01 => &[TJ],
        P::C02 | P::C03 | P::C04 | P::C05 | P::C06 => &[TJ, TM, TG],
        P::C12 => &[],
        P::C13 => &[TJ, TM, TG, PJ, PM],
        P::C14 => &[TM],
        P::C15 => &[PT],
    }
}

/// Compare one world under one property
pub fn check_world(wk: &mut Wk<'_>, p: P, w: &World) -> Verdict {
    match check_world_(wk, p, w) {
        Ok(o) => Verdict::Held(o),
        Err(e) => Verdict::Bad(e),
    }
}

pub fn check_world_(wk: &mut Wk<'_>, p: P, w: &World) -> Result<u64, String> {
    let prefix = format!("{}/", wk.dir.display());
    let x = trace(w, &prefix);
    wk.count("model_steps", x.steps);
    if p == P::C12 {
        return check_rc(wk, w, &x);
    }
    let out = run_world(wk, w, jobs_for(p))?;
    if out.code == 2 {
        return Err(format!("the run failed: {}", out.msg));
    }
    judge_reports(p, &arts_of(w), &x, &out, &prefix)
}

/// compare the reports of `jobs_for(p)` with the facts
pub fn judge_reports(p: P, arts: &[String], x: &Facts, out: &Out, prefix: &str) -> Result<u64, String> {
    // outcomes are counted without the name of the scratch directory
    let seen = |i: usize| h(&out.files[i].replace(prefix, ""));
    let outcome;
    match p {
        P::C01 => {
            let j = facts_from_json(&out.files[0])?;
            cmp_covered(x, &j)?;
            outcome = h(&j.rels);
        }
        P::C02 | P::C03 | P::C04 | P::C05 | P::C06 => {
            let j = facts_from_json(&out.files[0])?;
            let md = md_trace(&out.files[1], arts)?;
            let gnu = gnu_trace(&out.files[2], arts)?;
            match p {
                P::C02 => {
                    cmp_uncovered_json(x, &j)?;
                    cmp_uncovered_text(x, &md, &gnu)?;
                    cmp_errors(&[K::Unused], arts, x, &j, &md, &gnu)?;
                    outcome = h(&j.rels.iter().map(|r| &r.1.uncovered).collect::<Vec<_>>());
                }
                P::C03 => {
                    cmp_derived(arts, x, &j, &md, &gnu)?;
                    outcome = h(&j.derived);
                }
                P::C04 => {
                    cmp_errors(&[K::Unknown], arts, x, &j, &md, &gnu)?;
                    outcome = seen(2);
                }
                P::C05 => {
                    cmp_errors(
                        &[K::NoTitle, K::WrongTitle, K::RefNoTitle],
                        arts,
                        x,
                        &j,
                        &md,
                        &gnu,
                    )?;
                    outcome = seen(2);
                }
                _ => {
                    cmp_reqs(x, &j)?;
                    cmp_errors(&[K::Dup], arts, x, &j, &md, &gnu)?;
                    if x.dups != j.dups {
                        return differ("duplicates in the JSON trace", &x.dups, &j.dups).map(|()| 0);
                    }
                    cmp_covered(x, &j)?;
                    cmp_uncovered_json(x, &j)?;
                    cmp_derived(arts, x, &j, &md, &gnu)?;
                    outcome = seen(2);
                }
            }
        }
        P::C13 => {
            let j = facts_from_json(&out.files[0])?;
            let md = md_trace(&out.files[1], arts)?;
            let gnu = gnu_trace(&out.files[2], arts)?;
            cmp_uncovered_json(x, &j)?;
            cmp_uncovered_text(x, &md, &gnu)?;
            cmp_derived(arts, x, &j, &md, &gnu)?;
            cmp_errors(
                &[
                    K::Dup,
                    K::NoTitle,
                    K::WrongTitle,
                    K::RefNoTitle,
                    K::Unknown,
                    K::Unused,
                    K::Other,
                ],
                arts,
                x,
                &j,
                &md,
                &gnu,
            )?;
            cmp_reqs(x, &j)?;
            cmp_md_reqs(x, &md)?;
            cmp_parse_json(x, &out.files[3])?;
            cmp_md_parse(arts, x, &out.files[4])?;
            outcome = seen(2);
        }
        P::C14 => {
            let md = md_trace(&out.files[0], arts)?;
            cmp_matrix(x, &md)?;
            outcome = seen(0);
        }
        P::C15 => {
            cmp_tags(x, &out.files[0])?;
            outcome = seen(0);
        }
        P::C12 => unreachable!(),
    }
    Ok(outcome)
}

/// what the JSON trace (and Parse report) says
pub fn judge_json(p: P, x: &Facts, tj: &str, pj: &str) -> Result<u64, String> {
    let j = facts_from_json(tj)?;
    let kinds: &[K] = match p {
        P::C01 | P::C03 => &[],
        P::C02 => &[K::Unused],
        P::C04 => &[K::Unknown],
        P::C05 => &[K::NoTitle, K::WrongTitle, K::RefNoTitle],
        P::C06 => &[K::Dup],
        _ => &[K::Dup, K::NoTitle, K::WrongTitle, K::RefNoTitle, K::Unknown, K::Unused, K::Other],
    };
    let pick = |s: &BTreeSet<Er>| -> BTreeSet<Er> { s.iter().filter(|e| kinds.contains(&kind(e))).cloned().collect() };
    if pick(&x.errs) != pick(&j.errs) {
        return differ("errors of the JSON trace", pick(&x.errs), pick(&j.errs)).map(|()| 0);
    }
    let none = BTreeSet::new();
    for a in x.reqs.keys() {
        let e = pick(x.art_errs.get(a).unwrap_or(&none));
        let g = pick(j.art_errs.get(a).unwrap_or(&none));
        if e != g {
            return differ(&format!("errors of artefact {a} in the JSON trace"), e, g).map(|()| 0);
        }
    }
    if matches!(p, P::C01 | P::C06 | P::C13) {
        cmp_covered(x, &j)?;
    }
    if matches!(p, P::C02 | P::C06 | P::C13) {
        cmp_uncovered_json(x, &j)?;
    }
    if matches!(p, P::C03 | P::C06 | P::C13) && x.derived != j.derived {
        return differ("derived (JSON)", &x.derived, &j.derived).map(|()| 0);
    }
    if matches!(p, P::C06 | P::C13) {
        cmp_reqs(x, &j)?;
        if x.dups != j.dups {
            return differ("duplicates in the JSON trace", &x.dups, &j.dups).map(|()| 0);
        }
    }
    if p == P::C13 {
        cmp_parse_json(x, pj)?;
    }
    Ok(h(tj))
}

fn check_rc(wk: &mut Wk<'_>, w: &World, x: &Facts) -> Result<u64, String> {
    for (jobs, want) in [
        (&[TJ][..], x.any_problem()),
        (&[TM], x.any_problem()),
        (&[TG], x.any_problem()),
        (&[PJ], x.any_art_err()),
        (&[PM], x.any_art_err()),
        (&[PT], x.any_art_err()),
    ] {
        let out = run_world(wk, w, jobs)?;
        if out.code != i32::from(want) {
            return Err(format!(
                "job {jobs:?} has result {} {}, expected {}; facts: {x:?}",
                out.code,
                out.msg,
                i32::from(want)
            ));
        }
    }
    Ok(h(&(x.any_problem(), x.any_art_err())))
}

pub fn explore_worlds(
    ctx: &Ctx,
    p: P,
    family: &str,
    gen: impl Fn(&mut Ch) -> Option<World> + Sync,
) {
    ctx.explore(family, 8, gen, |wk, ws| {
        ws.iter().map(|w| check_world(wk, p, w)).collect()
    });
}
