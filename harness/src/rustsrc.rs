//! Rust artefacts: programs are generated together with what has to be found in them

use crate::core::*;
use crate::docs::*;
use crate::model::*;

/// A program under construction, and what is expected of it
#[derive(Clone, Debug, Hash)]
pub struct Prog {
    pub name: String,
    pub src: String,
    pub reqs: Vec<Req>,
    /// positions of errors
    pub errs: Vec<Loc>,
    /// the file does not parse. Some(None): the position is up to the parser
    pub broken: Option<Option<Loc>>,
    scope: Vec<(String, Loc)>,
    n: usize,
}

impl Prog {
    fn new() -> Prog {
        Prog {
            name: "p.rs".into(),
            src: String::new(),
            reqs: vec![],
            errs: vec![],
            broken: None,
            scope: vec![],
            n: 0,
        }
    }
    fn put(&mut self, s: &str) {
        self.src.push_str(s);
    }
    fn loc(&self) -> Loc {
        let line = self.src.matches('\n').count() as u64 + 1;
        let last = self.src.rsplit('\n').next().unwrap_or("");
        Loc {
            file: self.name.clone(),
            pos: Pos::Col(line, last.chars().count() as u64),
        }
    }
    /// `pre` `ident` `post`: enter an item; `symbol` is its name in paths
    fn enter(&mut self, pre: &str, ident: &str, post: &str, symbol: &str) {
        self.put(pre);
        let l = self.loc();
        self.put(ident);
        self.put(post);
        self.scope.push((symbol.to_owned(), l));
    }
    fn leave(&mut self, post: &str) {
        self.scope.pop().unwrap();
        self.put(post);
    }
    fn reference(&mut self, id: &str, title: Option<&str>, loc: Loc) {
        let (rid, rloc) = if self.scope.is_empty() {
            (
                self.name.clone(),
                Loc {
                    file: self.name.clone(),
                    pos: Pos::None,
                },
            )
        } else {
            let p: Vec<&str> = self.scope.iter().map(|s| s.0.as_str()).collect();
            (p.join("::"), self.scope.last().unwrap().1.clone())
        };
        let r = Ref {
            id: id.into(),
            title: title.map(Into::into),
            loc,
        };
        match self.reqs.iter_mut().find(|r| r.id == rid) {
            Some(q) => q.covers.push(r),
            None => {
                let mut q = Req::new(&rid, None, rloc);
                q.covers.push(r);
                self.reqs.push(q);
            }
        }
    }
    /// a plain mark, as a statement or item, with an id of its own
    fn mark(&mut self) {
        self.n += 1;
        let id = format!("REQ_{}", self.n);
        let l = self.loc();
        self.put(&format!("requirement_covered!({id});"));
        self.reference(&id, None, l);
    }
    /// a mark of any form
    fn form(&mut self, f: &Form, delim: usize, gap: &str) {
        let (o, c) = [("(", ")"), ("[", "]"), ("{", "}")][delim];
        let l = self.loc();
        self.put("requirement_covered!");
        self.put(gap);
        self.put(o);
        self.put(gap);
        let err = |s: &mut Prog, pos: &[Loc]| match f.what {
            What::Good(id, title) => s.reference(id, title, l.clone()),
            What::BadAt(i) => s.errs.push(pos[i].clone()),
            What::BadMark => s.errs.push(l.clone()),
        };
        let mut pos = vec![];
        for t in f.tokens {
            pos.push(self.loc());
            self.put(t);
            self.put(gap);
        }
        self.put(c);
        err(self, &pos);
    }
}

#[derive(Clone, Copy)]
enum What {
    Good(&'static str, Option<&'static str>),
    /// error at the n-th token
    BadAt(usize),
    /// error at the mark itself
    BadMark,
}

struct Form {
    tokens: &'static [&'static str],
    what: What,
}

macro_rules! form {
    ($t:expr, $w:expr) => {
        Form {
            tokens: &$t,
            what: $w,
        }
    };
}

static FORMS: [Form; 30] = [
    form!(["REQ_A"], What::Good("REQ_A", None)),
    form!(["REQ_A", ",", "\"Title\""], What::Good("REQ_A", Some("Title"))),
    form!([], What::BadMark),
    form!(["17"], What::BadAt(0)),
    form!(["REQ_A", ",", "17"], What::BadAt(2)),
    form!(["\"REQ_S\""], What::Good("REQ_S", None)),
    form!(["17", ",", "\"Title\""], What::BadAt(0)),
    form!(["REQ_A", ",", "Title"], What::BadAt(2)),
    form!(["REQ_A", ":"], What::BadMark),
    form!(["REQ_A", ",", "\"T\"", ","], What::BadMark),
    form!(["REQ_A", ",", "\"T\"", ",", "\"U\""], What::BadMark),
    form!(["REQ_A", ",", "\"q\\\"uote\\\\\""], What::Good("REQ_A", Some("q\"uote\\"))),
    form!(["REQ_A", ",", "r\"raw\\n\""], What::Good("REQ_A", Some("raw\\n"))),
    form!(["REQ_A", ",", "r#\"ha\"sh\"#"], What::Good("REQ_A", Some("ha\"sh"))),
    form!(["REQ_A", ",", "\"t\\u{e4}\\tb\\n\""], What::Good("REQ_A", Some("tä\tb\n"))),
    form!(["REQ_A", ",", "\"two\\\n   lines\""], What::Good("REQ_A", Some("twolines"))),
    form!(["REQ_A", ",", "\"\""], What::Good("REQ_A", Some(""))),
    form!(["REQ_A", ",", "\" padded \""], What::Good("REQ_A", Some(" padded "))),
    form!(["REQ_A", ",", "\"Grüße 🦀\""], What::Good("REQ_A", Some("Grüße 🦀"))),
    form!(["r\"REQ_R\""], What::Good("REQ_R", None)),
    form!(["Äpfel_1"], What::Good("Äpfel_1", None)),
    form!(["_x"], What::Good("_x", None)),
    form!(["'c'"], What::BadAt(0)),
    form!(["b\"bytes\""], What::BadAt(0)),
    form!(["1.5"], What::BadAt(0)),
    form!(["REQ_A", ",", "'c'"], What::BadAt(2)),
    form!(["REQ_A", ",", "b\"x\""], What::BadAt(2)),
    form!(["REQ_A", ",", "(\"T\")"], What::BadAt(2)),
    form!(["(REQ_A)"], What::BadAt(0)),
    form!(["REQ_A", ",", "\"don't stop: [x](y) *z*\""], What::Good("REQ_A", Some("don't stop: [x](y) *z*"))),
];

#[derive(Clone, Copy, PartialEq)]
enum Cx {
    Item,
    Impl,
    Trait,
    Block,
}

/// enter container `k` of those possible in `cx`: returns the context inside and what ends it.
/// Some containers are items with a name, others are just expressions.
type Close = (bool, &'static str);

fn containers(cx: Cx) -> usize {
    match cx {
        Cx::Item => 15,
        Cx::Impl => 5,
        Cx::Trait => 4,
        Cx::Block => 15 + 16,
    }
}

fn open(p: &mut Prog, cx: Cx, k: usize, d: usize) -> (Cx, Close) {
    let f = format!("f{d}");
    let m = format!("m{d}");
    let t = format!("T{d}");
    macro_rules! plain {
        ($s:expr, $cx:expr, $e:expr) => {{
            p.put($s);
            ($cx, (false, $e))
        }};
    }
    match cx {
        Cx::Impl | Cx::Trait => match k {
            0 => {
                p.enter("fn ", &f, "(&self) {", &f);
                (Cx::Block, (true, "}"))
            }
            1 => plain!("const C: u8 = { ", Cx::Block, "0 };"),
            2 => {
                p.enter("#[inline]\nasync unsafe fn ", &f, "<X>(x: X) -> u8 where X: Y {", &f);
                (Cx::Block, (true, "0 }"))
            }
            3 => {
                p.enter("/** doc */ fn\n ", &f, "()\n{", &f);
                (Cx::Block, (true, "}"))
            }
            _ => {
                p.enter("pub(crate) const fn ", &f, "(self) {", &f);
                (Cx::Block, (true, "}"))
            }
        },
        Cx::Item | Cx::Block => match k {
            0 => {
                p.enter("fn ", &f, "() {", &f);
                (Cx::Block, (true, "}"))
            }
            1 => {
                p.enter("mod ", &m, " {", &m);
                (Cx::Item, (true, "}"))
            }
            2 => {
                p.enter("impl ", &t, " {", &t);
                (Cx::Impl, (true, "}"))
            }
            3 => {
                p.enter("impl Tr for ", &t, " {", &format!("({t} as Tr)"));
                (Cx::Impl, (true, "}"))
            }
            4 => {
                p.enter("trait ", &t, " {", &t);
                (Cx::Trait, (true, "}"))
            }
            5 => plain!("const C: u8 = { ", Cx::Block, "0 };"),
            6 => plain!("static S: u8 = { ", Cx::Block, "0 };"),
            7 => {
                p.enter("pub async fn ", &f, "<X: Y>(x: X) -> X where X: Z {", &f);
                (Cx::Block, (true, "x }"))
            }
            8 => {
                p.enter("#[cfg(test)]\npub(crate) mod ", &m, "\n{", &m);
                (Cx::Item, (true, "}"))
            }
            9 => {
                p.enter("impl<A> a::b::Tr<A> for ", &format!("{t}<A>"), " {", &format!("({t}<A>asa::b::Tr<A>)"));
                (Cx::Impl, (true, "}"))
            }
            10 => {
                p.enter("impl<'a> ", &format!("&'a {t}"), " {", &format!("&'a{t}"));
                (Cx::Impl, (true, "}"))
            }
            11 => plain!("struct S([u8; { ", Cx::Block, "1 }]);"),
            12 => plain!("enum E { A = { ", Cx::Block, "1 } }"),
            13 => {
                p.enter("impl !Tr for ", &t, " {", &format!("({t} as !Tr)"));
                (Cx::Impl, (true, "}"))
            }
            14 => {
                p.enter("unsafe trait ", &t, ": A + B {", &t);
                (Cx::Trait, (true, "}"))
            }
            15 => plain!("if x { ", Cx::Block, "}"),
            16 => plain!("if y { 0; } else { ", Cx::Block, "}"),
            17 => plain!("while z { ", Cx::Block, "}"),
            18 => plain!("for i in 0..1 { ", Cx::Block, "}"),
            19 => plain!("loop { ", Cx::Block, "}"),
            20 => plain!("match v { 1 => 0, _ => { ", Cx::Block, "} }"),
            21 => plain!("let c = |a| { ", Cx::Block, "a };"),
            22 => plain!("let c = async move { ", Cx::Block, "};"),
            23 => plain!("unsafe { ", Cx::Block, "}"),
            24 => plain!("{ ", Cx::Block, "}"),
            25 => plain!("call(1, { ", Cx::Block, "2 });"),
            26 => plain!("return Some({ ", Cx::Block, "2 });"),
            27 => plain!("let s = S { a: 1, b: { ", Cx::Block, "1 } };"),
            28 => plain!("let v = a + ({ ", Cx::Block, "1 }) * 2;"),
            29 => plain!("'l: loop { break 'l { ", Cx::Block, "1 } }"),
            _ => plain!("let a = [1, { ", Cx::Block, "2 }];"),
        },
    }
}

/// the containers for deep nesting
const CORE: [usize; 9] = [0, 1, 2, 3, 4, 5, 15, 20, 21];

fn nest(ch: &mut Ch, p: &mut Prog, cx: Cx, d: usize, depth: usize, sep: &str, core: bool) {
    let before = ch.bool();
    if before {
        p.mark();
        p.put(sep);
    }
    if d < depth {
        let k = if core && (cx == Cx::Item || cx == Cx::Block) {
            CORE[ch.n(if cx == Cx::Item { 6 } else { CORE.len() })]
        } else {
            ch.n(if core { 2 } else { containers(cx) })
        };
        let (c2, (item, end)) = open(p, cx, k, d);
        p.put(sep);
        nest(ch, p, c2, d + 1, depth, sep, core);
        if item {
            p.leave(end);
        } else {
            p.put(end);
        }
        p.put(sep);
        if ch.bool() {
            p.mark();
        }
    }
}

/// chains of nested items and expressions with marks before and after
fn fam_nest(ch: &mut Ch, depth: usize, core: bool) -> Option<Prog> {
    let mut p = Prog::new();
    let sep = if depth < 3 { *ch.of(&["\n", " ", "\r\n\t"]) } else { "\n" };
    nest(ch, &mut p, Cx::Item, 0, depth, sep, core);
    Some(p)
}

/// marks of every form, delimiter and layout in several contexts, two at a time
pub fn fam_forms(ch: &mut Ch, pairs: bool) -> Option<Prog> {
    let mut p = Prog::new();
    let a = ch.n(FORMS.len());
    let b = if pairs { ch.n(FORMS.len()) } else { 0 };
    let delim = if pairs { 0 } else { ch.n(3) };
    let gap = if pairs { " " } else { *ch.of(&["", " ", "\n    ", " /* é */ ", "// c\n\t"]) };
    let (pre, post): (&str, &str) = if pairs {
        ("", ";")
    } else {
        *ch.of(&[
            ("", ";"),
            ("let x = ", ";"),
            ("/* ä🦀 */ call(", ");"),
            ("if ", " {}"),
            ("#[cfg(x)] ", ";"),
            ("let _: ", ";"),
            ("let ", " = 1;"),
            ("vec![1, 2]; ", "; vec![3];"),
            ("return ", ";"),
            ("match x { ", " => 1 };"),
        ])
    };
    let place = if pre.is_empty() || pre.starts_with('#') { ch.n(if pairs { 2 } else { 5 }) } else { 0 };
    let cx = if place == 0 { Cx::Block } else { Cx::Item };
    // (what is in braces is an item without a semicolon)
    let post = if cx == Cx::Item && delim == 2 { "" } else { post };
    let close = [None, None, Some(("mod m {", "m")), Some(("impl Ty {", "Ty")), Some(("trait Tr {", "Tr"))][place];
    if let Some((o, n)) = close {
        let (pre, rest) = o.split_at(o.find(' ').unwrap() + 1);
        p.enter(pre, n, &rest[n.len()..], n);
    }
    if cx == Cx::Block {
        p.enter("mod m {\n impl Ty { fn ", "func", "() {\n  ", "m::Ty::func");
    }
    p.put(pre);
    p.form(&FORMS[a], delim, gap);
    p.put(post);
    if pairs {
        p.put("\n  ");
        p.form(&FORMS[b], 0, "");
        p.put(";");
    }
    if cx == Cx::Block {
        p.leave("\n}}}\n");
    }
    if close.is_some() {
        p.leave("\n}\n");
    }
    p.put("\nfn last() { ");
    p.scope.push(("last".into(), Loc { file: "p.rs".into(), pos: Pos::None }));
    // position of the name
    let before_brace = p.src.len() - "last() { ".len();
    let saved = p.src.split_off(before_brace);
    let l = p.loc();
    p.src.push_str(&saved);
    p.scope.last_mut().unwrap().1 = l;
    p.mark();
    p.leave(" }\n");
    Some(p)
}

/// several items next to each other, with equal names among them
fn fam_siblings(ch: &mut Ch, n: usize) -> Option<Prog> {
    let mut p = Prog::new();
    let len = 1 + ch.n(n);
    for _ in 0..len {
        match ch.n(11) {
            0 => {
                p.enter("fn ", "a", "() { ", "a");
                p.mark();
                p.leave("}\n");
            }
            1 => {
                p.enter("fn ", "b", "() { ", "b");
                p.mark();
                p.mark();
                p.leave("}\n");
            }
            2 => {
                p.enter("mod ", "a", " { ", "a");
                p.enter("fn ", "a", "() { ", "a");
                p.mark();
                p.leave("}");
                p.mark();
                p.leave("}\n");
            }
            3 => {
                p.enter("impl ", "a", " { ", "a");
                p.enter("fn ", "b", "() { ", "b");
                p.mark();
                p.leave("}");
                p.enter("fn ", "a", "() { ", "a");
                p.mark();
                p.leave("}");
                p.leave("}\n");
            }
            4 => {
                p.mark();
                p.put("\n");
            }
            5 => p.put("fn e() { other!(); f(1); }\n"),
            6 => {
                p.enter("fn ", "a", "() { ", "a");
                p.form(&FORMS[3], 0, "");
                p.put("; ");
                p.mark();
                p.leave("}\n");
            }
            7 => {
                p.enter("trait ", "a", " { fn c(); ", "a");
                p.enter("fn ", "b", "() { ", "b");
                p.mark();
                p.leave("}");
                p.leave("}\n");
            }
            8 => p.put(
                "// requirement_covered!(NO_1)\n/* requirement_covered!(NO_2) */ const S: &str = \"requirement_covered!(NO_3);\";\n/// requirement_covered!(NO_4)\nfn requirement_covered() {}\n",
            ),
            9 => p.put("mod other;\nuse x::y;\ntype T = u8;\nextern \"C\" { fn q(); }\n"),
            _ => {
                p.enter("impl Tr for ", "a", " { ", "(a as Tr)");
                p.enter("fn ", "a", "() { ", "a");
                p.enter("fn ", "a", "() { ", "a");
                p.mark();
                p.leave("}");
                p.mark();
                p.leave("}");
                p.leave("}\n");
            }
        }
    }
    Some(p)
}

/// programs that do not parse: something that cannot be there, at every place
fn fam_broken(ch: &mut Ch) -> Option<Prog> {
    let mut p = Prog::new();
    const LEN: usize = 7;
    let at = ch.n(LEN);
    // what is put there, position of the offending token (None: up to the lexer)
    let (bad, off): (&str, Option<u64>) = *ch.of(&[
        ("fn = () {} ", Some(3)),
        ("let 1 += 2; ", None),
        ("struct 5; ", Some(7)),
        ("mod a mod ", Some(6)),
        ("\"open ", None),
        ("} } } } ) ", None),
        ("( ", None),
        ("é fn x ", None),
        ("const = ; ", Some(6)),
    ]);
    let pad = *ch.of(&["", "\n", "   ", "\n/* ä */ "]);
    let mut broken = None;
    for i in 0..LEN {
        if i == at {
            p.put(pad);
            let mut l = p.loc();
            if let (Some(o), Pos::Col(_, c)) = (off, &mut l.pos) {
                *c += o;
                broken = Some(Some(l));
            } else {
                broken = Some(None);
            }
            p.put(bad);
        }
        p.put(["fn a() { requirement_covered!(REQ_1); }\n", "mod b { ", "fn c() {\n", " x(); ", "} ", "}\n", ""][i]);
    }
    p.broken = broken;
    p.reqs.clear();
    Some(p)
}

/// names and attributes of items: none of them is special
fn fam_item_names(ch: &mut Ch) -> Option<Prog> {
    let names = ["main", "test", "tests", "new", "r#type", "_x", "\u{c4}b", "a", "requirement_covered", "T", "drop"];
    let attrs = [
        "", "#[test] ", "#[cfg(test)] ", "#[cfg(not(test))] ", "#[ignore]\n", "#[doc(hidden)] pub ", "#[allow(dead_code)] pub(super) ", "/// doc\n",
    ];
    let mut p = Prog::new();
    let outer = ch.n(5);
    let oa = *ch.of(&attrs);
    let on = *ch.of(&names);
    if (outer == 2 || outer == 3) && oa.contains("pub") {
        return None;
    }
    match outer {
        0 => p.enter(&format!("{oa}mod "), on, " {", on),
        1 => p.enter(&format!("{oa}trait "), on, " {", on),
        2 => p.enter(&format!("{oa}impl "), on, " {", on),
        3 => p.enter(&format!("{oa}impl Default for "), on, " {", &format!("({on} as Default)")),
        _ => p.enter(&format!("{oa}fn "), on, "() {", on),
    }
    let ia = *ch.of(&attrs);
    let n = *ch.of(&names);
    if outer == 1 && ia.contains("pub") {
        return None;
    }
    p.enter(&format!("{ia}fn "), n, "() {", n);
    p.mark();
    p.leave("}");
    p.leave("}\n");
    Some(p)
}

/// a word as the name of everything that has a name, and as a text
fn fam_words(ch: &mut Ch) -> Option<Prog> {
    const KEYWORDS: &str = " as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct \
        trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen ";
    let w = ch.of(&crate::words::dict().words);
    let place = ch.n(26);
    let mut p = Prog::new();
    let text = |w: &str| format!("\"{}\"", w.replace('\\', "\\\\").replace('"', "\\\""));
    let line = w.clone();
    if place >= 20 {
        // texts
        match place {
            20 => p.put(&format!("// {line}\n")),
            21 => p.put(&format!("#[doc = {}]\n", text(w))),
            22 => p.put(&format!("/// {line}\n")),
            _ => {}
        }
        p.enter("fn ", "f", "() { ", "f");
        match place {
            23 => {
                let l = p.loc();
                p.put(&format!("requirement_covered!(REQ_T, {});", text(w)));
                p.reference("REQ_T", Some(w), l);
            }
            24 => p.put(&format!("log({}); ", text(w))),
            25 => {
                let l = p.loc();
                p.put(&format!("requirement_covered!({});", text(w)));
                p.reference(w, None, l);
            }
            _ => {}
        }
        p.mark();
        p.leave("}\n");
        return Some(p);
    }
    let k = ch.n(3);
    let mut id = [w.clone(), format!("x_{w}"), format!("{w}_x")][k].clone();
    if id == "_" || !id.chars().enumerate().all(|(i, c)| c == '_' || if i == 0 { c.is_alphabetic() } else { c.is_alphanumeric() }) {
        return None;
    }
    if ["self", "super", "crate", "Self", "macro_rules", "requirement_covered", "union", "auto", "safe", "raw", "default"].contains(&id.as_str()) {
        return None;
    }
    if KEYWORDS.contains(&format!(" {id} ")) {
        id = format!("r#{id}");
    }
    let id = id.as_str();
    match place {
        0 => {
            p.enter("fn ", id, "() { ", id);
            p.mark();
            p.leave("}\n");
            return Some(p);
        }
        1 => p.enter("mod ", id, " { ", id),
        2 => p.enter("trait ", id, " { ", id),
        3 => p.enter("impl ", id, " { ", id),
        4 => p.enter("impl Tr for ", id, " { ", &format!("({id} as Tr)")),
        5 => p.enter(&format!("impl {id} for "), "Ty", " { ", &format!("(Ty as {id})")),
        6 => p.put(&format!("mod {id};\nuse {id};\nstruct {id};\n")),
        7 => p.put(&format!("#![{id}]\n")),
        8 => {
            p.put(&format!("#[{id}]\n"));
            p.enter("mod ", "m", " { ", "m");
        }
        9 => {
            p.put(&format!("#[cfg({id})]\n"));
            p.enter("mod ", "m", " { ", "m");
        }
        _ => {}
    }
    match place {
        10 => p.put(&format!("#[{id}]\n")),
        11 => p.put(&format!("#[{id}(x, y = \"z\")]\n")),
        12 => p.put(&format!("#[cfg({id})] #[cfg_attr({id}, inline)]\n")),
        13 => p.put(&format!("#[cfg(feature = \"{w}\")]\n")),
        _ => {}
    }
    p.enter("fn ", "f", "() { ", "f");
    let (a, b) = match place {
        14 => (format!("{id}!(x); "), String::new()),
        15 => (format!("{id}("), ");".into()),
        16 => (format!("x.{id}("), ");".into()),
        17 => (format!("S {{ {id}: "), "};".into()),
        18 => (format!("const {id}: u8 = {{ "), " };".into()),
        19 => (format!("if cfg!({id}) {{ "), " }".into()),
        _ => Default::default(),
    };
    p.put(&a);
    p.n += 1;
    let l = p.loc();
    p.put("requirement_covered!(REQ_W)");
    p.reference("REQ_W", None, l);
    p.put(if b.is_empty() { ";" } else { &b });
    p.leave("}\n");
    if !p.scope.is_empty() {
        p.leave("}\n");
    }
    Some(p)
}

/// many marks, items, levels, lines and columns
fn fam_scale(ch: &mut Ch) -> Option<Prog> {
    let mut p = Prog::new();
    let kind = ch.n(8);
    let n = *ch.of(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 65_535, 65_536, 2_200_000]);
    if kind < 6 && n > 257 || (kind == 2 || kind == 3) && n > 33 {
        return None;
    }
    match kind {
        0 => {
            p.enter("fn ", "f", "() {\n", "f");
            for _ in 0..n {
                p.mark();
                p.put("\n");
            }
            p.leave("}\n");
        }
        1 => {
            for i in 0..n {
                let f = format!("f{i}");
                p.enter("fn ", &f, "() { ", &f);
                p.mark();
                p.leave("}\n");
            }
        }
        2 | 3 => {
            let w = if kind == 2 { "mod " } else { "fn " };
            let o = if kind == 2 { " {" } else { "() {" };
            for i in 0..n {
                p.enter(w, &format!("m{i}"), o, &format!("m{i}"));
                p.mark();
            }
            for _ in 0..n {
                p.mark();
                p.leave("}");
            }
        }
        4 => {
            // marks of two items in turns
            for i in 0..n {
                let f = ["a", "b"][i % 2];
                p.enter("mod m { fn ", f, "() { ", &format!("m::{f}"));
                p.mark();
                p.leave("} }\n");
            }
        }
        5 => {
            // errors and marks in turns
            p.enter("fn ", "f", "() {\n", "f");
            for _ in 0..n {
                p.form(&FORMS[3], 0, "");
                p.put("; ");
                p.mark();
                p.put("\n");
            }
            p.leave("}\n");
        }
        _ => {
            p.put(&if kind == 6 { "\n" } else { " " }.repeat(n));
            p.enter("fn ", "f", "() {", "f");
            p.put(&if kind == 6 { "\n" } else { " " }.repeat(n));
            p.mark();
            p.leave("}\n");
        }
    }
    Some(p)
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn judge(p: &Prog, got: &Parsed) -> Verdict {
    let outcome = h(&(&got.0, &got.1));
    if let Some(at) = &p.broken {
        if !got.0.is_empty() {
            return Verdict::Bad(format!("requirements out of a broken file: {:?}", got.0));
        }
        return match got.1.as_slice() {
            [Er::Format(l)] if at.as_ref().is_none_or(|a| a == l) && l.pos != Pos::None => Verdict::Held(outcome),
            e => Verdict::Bad(format!("error expected at {at:?}, but {e:?}")),
        };
    }
    let norm = |v: &[Req]| {
        let mut v: Vec<Req> = v
            .iter()
            .map(|r| {
                let mut r = r.clone();
                r.id = squeeze(&r.id);
                r
            })
            .collect();
        v.sort();
        v
    };
    let (want, have) = (norm(&p.reqs), norm(&got.0));
    if want != have {
        return Verdict::Bad(format!("requirements:\n expected {want:?}\n actual   {have:?}"));
    }
    let mut want: Vec<Er> = p.errs.iter().map(|l| Er::Format(l.clone())).collect();
    let mut have = got.1.clone();
    want.sort();
    have.sort();
    if want != have {
        return Verdict::Bad(format!("errors:\n expected {want:?}\n actual   {have:?}"));
    }
    Verdict::Held(outcome)
}

pub fn run(ctx: &Ctx) {
    let go = |fam: &str, gen: &(dyn Fn(&mut Ch) -> Option<Prog> + Sync)| {
        explore_docs(
            ctx,
            fam,
            "Rust",
            |c| gen(c),
            |p| Doc {
                name: p.name.clone(),
                bytes: p.src.clone().into_bytes(),
            },
            judge,
        );
    };
    go("forms", &|c| fam_forms(c, false));
    go("form_pairs", &|c| fam_forms(c, true));
    go("words", &fam_words);
    go("broken", &fam_broken);
    go("names", &fam_item_names);
    go("scale", &fam_scale);
    go("nest1", &|c| fam_nest(c, 1, false));
    go("nest2", &|c| fam_nest(c, 2, false));
    go("siblings", &|c| fam_siblings(c, ctx.q(5, 6)));
    go("nest3", &|c| fam_nest(c, 3, true));
    files(ctx);
    if ctx.thorough() {
        go("nest4", &|c| fam_nest(c, 4, true));
        go("nest3_full", &|c| fam_nest(c, 3, false));
    }
}

/// several files in one artefact: what is in one file does not depend on the others
fn files(ctx: &Ctx) {
    const KINDS: usize = 8;
    // the position of a mark in file i
    let content = |i: usize, k: usize| -> Vec<u8> {
        match k {
            0 => format!("fn f{i}() {{ requirement_covered!(REQ_{i}); }}\n"),
            1 => format!("fn f{i}() {{ requirement_covered!(); requirement_covered!(REQ_{i}, \"t\"); }}\n"),
            2 => "fn broken( {".to_owned(),
            3 => "fn = ;".to_owned(),
            4 => String::new(),
            5 => format!("requirement_covered!(REQ_{i});"),
            6 => return b"fn x() { requirement_covered!(AA, \"\xff\"); }".to_vec(),
            _ => format!("fn same() {{ requirement_covered!(REQ_{i}); }}\n"),
        }
        .into_bytes()
    };
    ctx.explore(
        "files",
        1,
        |ch| {
            let n = 2 + ch.n(ctx.q(2, 3));
            let glob = ch.bool();
            Some(((0..n).map(|_| ch.n(KINDS)).collect::<Vec<usize>>(), glob))
        },
        |wk, cases| {
            cases
                .iter()
                .map(|(kinds, glob)| {
                    let dir = wk.dir.join("files");
                    let _ = std::fs::remove_dir_all(&dir);
                    std::fs::create_dir_all(&dir).unwrap();
                    for (i, k) in kinds.iter().enumerate() {
                        std::fs::write(dir.join(format!("x{i}.rs")), content(i, *k)).unwrap();
                    }
                    let paths: Vec<String> = if *glob {
                        vec!["x*.rs".into()]
                    } else {
                        (0..kinds.len()).map(|i| format!("x{i}.rs")).collect()
                    };
                    let config = serde_json::json!({"artefacts": [{"id": "R", "paths": paths, "parser": "Rust"}], "relations": []});
                    wk.runs += 1;
                    let r = crate::exec::run(&dir, config, &[crate::exec::PJ])
                        .and_then(|o| judge_files(&dir.display().to_string(), kinds, &o));
                    match r {
                        Ok(o) => Verdict::Held(o),
                        Err(e) => Verdict::Bad(e),
                    }
                })
                .collect()
        },
    );
}

fn judge_files(dir: &str, kinds: &[usize], o: &crate::exec::Out) -> Result<u64, String> {
    let (reqs, errs, _) = parse_report(&o.files[0])?;
    let mut want: Vec<(String, String, Loc)> = vec![]; // requirement, referenced id, location of mark
    let mut first_same: Option<usize> = None;
    for (i, k) in kinds.iter().enumerate() {
        let file = format!("{dir}/x{i}.rs");
        let at = |c| Loc {
            file: file.clone(),
            pos: Pos::Col(1, c),
        };
        match k {
            0 => want.push((format!("f{i}"), format!("REQ_{i}"), at(10))),
            1 => want.push((format!("f{i}"), format!("REQ_{i}"), at(34))),
            5 => want.push((file.clone(), format!("REQ_{i}"), at(0))),
            7 if first_same.is_none() => {
                first_same = Some(i);
                want.push(("same".into(), format!("REQ_{i}"), at(12)));
            }
            _ => {}
        }
        let of_file = |e: &&Er| match e {
            Er::Format(l) => l.file == file,
            Er::Io(f) => *f == file,
            Er::Dup(_, _, l) => l.file == file,
            _ => true,
        };
        let n = errs.iter().filter(of_file).count();
        let w = match k {
            1 | 2 | 3 | 6 => 1,
            7 if first_same != Some(i) => 1,
            _ => 0,
        };
        if n != w {
            return Err(format!("{n} errors about {file}, {w} expected: {errs:?}"));
        }
        if *k == 1 && !errs.contains(&Er::Format(at(10))) || *k == 3 && !errs.contains(&Er::Format(at(3))) {
            return Err(format!("error at the wrong place: {errs:?}"));
        }
    }
    let mut have: Vec<(String, String, Loc)> = reqs
        .iter()
        .flat_map(|r| r.covers.iter().map(|c| (r.id.clone(), c.id.clone(), c.loc.clone())))
        .collect();
    want.sort();
    have.sort();
    if want != have {
        return Err(format!("marks:\n expected {want:?}\n actual   {have:?}"));
    }
    Ok(h(kinds))
}
