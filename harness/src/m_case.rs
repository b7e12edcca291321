//! C14: sentence case.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::{sem, util};
use comrak::nodes::NodeValue as V;
use std::sync::OnceLock;

fn builtin() -> &'static Vec<String> {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    N.get_or_init(|| {
        let mut seen = std::collections::HashSet::new();
        include_str!("/repo/data/proper-nouns.tsv").lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty()).map(|l| l.split('\t').next().unwrap().trim().to_string()).filter(|l| !l.contains(['\'', '.', '-', '/']) && l.is_ascii() && seen.insert(l.to_lowercase())).collect()
    })
}
const WORDS: &[&str] = &["zorble", "quexit", "wuggle", "blent", "frandic", "snorp", "и", "слово", "λόγος", "übel", "çedille", "mip", "tarn", "yx"];
fn upper_first(s: &str) -> String { let mut c = s.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }
/// Some casing that is neither all capitals nor begins with two of them.
fn cased(r: &mut Rng, w: &str) -> String {
    match r.below(4) {
        0 => w.to_lowercase(),
        1 | 2 => upper_first(&w.to_lowercase()),
        _ => { let l: Vec<char> = w.to_lowercase().chars().collect(); let mut s = String::new(); for (i, c) in l.iter().enumerate() { if i > 1 && i + 1 < l.len() && r.chance(50) { s.extend(c.to_uppercase()) } else { s.push(*c) } } s }
    }
}
/// A word as written, as the first one, and elsewhere.
#[derive(Clone, Debug)]
struct Unit { src: String, first: String, rest: String, noun: bool, opaque: bool }
struct H<'a> { r: &'a mut Rng, user: Vec<String>, common: Vec<String> }
impl H<'_> {
    fn is_common(&self, w: &str) -> bool { self.common.iter().any(|c| c.to_lowercase() == w.to_lowercase()) }
    fn plain(&mut self) -> Unit {
        let w = self.r.pick(WORDS).to_string();
        let src = cased(self.r, &w);
        // a single capital is all capitals
        let src = if src.chars().filter(|c| c.is_alphabetic()).all(|c| c.is_uppercase()) { src.to_lowercase() } else { src };
        let low = src.to_lowercase();
        Unit { first: upper_first(&low), rest: low, src, noun: false, opaque: false }
    }
    fn same(s: &str) -> Unit { Unit { src: s.into(), first: s.into(), rest: s.into(), noun: false, opaque: false } }
    fn word(&mut self) -> Unit {
        match self.r.below(12) {
            0 => Self::same(*self.r.pick(&["ZQX", "ZQXs", "HTTPZed", "Q.X.", "Zh.D.", "АБВ", "Q", "漢字", "한글", "42", "3.14"])),
            1 => { let i = (*self.r.pick(&["i", "I", "I'm", "i'll"])).to_string(); let c = upper_first(&i.to_lowercase()); Unit { src: i, first: c.clone(), rest: c, noun: false, opaque: false } }
            2 | 3 => {
                let n = self.r.pick(builtin()).clone();
                let src = if self.r.chance(30) { n.clone() } else { cased(self.r, &n) };
                let caps: Vec<char> = src.chars().filter(|c| c.is_alphabetic()).collect();
                let loud = !src.contains(' ') && (caps.iter().all(|c| c.is_uppercase()) || src.chars().take(2).filter(|c| c.is_uppercase()).count() == 2);
                let canon = if loud { src.clone() } else { n.clone() };
                if self.user.iter().any(|u| u.to_lowercase() == n.to_lowercase()) { return self.plain(); }
                if self.is_common(&n) {
                    // several words of a common noun may be nouns themselves
                    if n.contains(' ') || loud { return self.plain(); }
                    let low = src.to_lowercase();
                    return Unit { first: upper_first(&low), rest: low, src, noun: true, opaque: false };
                }
                Unit { src, first: canon.clone(), rest: canon, noun: true, opaque: false }
            }
            4 if !self.user.is_empty() => {
                let n = self.r.pick(&self.user).clone();
                if self.is_common(&n) { return self.plain(); }
                let src = if self.r.chance(30) { n.clone() } else { n.to_lowercase() };
                let caps: Vec<char> = src.chars().filter(|c| c.is_alphabetic()).collect();
                if caps.iter().all(|c| c.is_uppercase()) || src.chars().take(2).filter(|c| c.is_uppercase()).count() == 2 { return Self::same(&src); }
                Unit { src, first: n.clone(), rest: n, noun: true, opaque: false }
            }
            6 if !self.user.is_empty() => {
                // a noun of several words that a letter touches is none
                let n = self.r.pick(&self.user).clone();
                if !n.contains(' ') { return self.plain(); }
                let src = if self.r.chance(70) { n.clone() } else { n.to_lowercase() };
                let (a, b) = *self.r.pick(&[("", "é"), ("", "x"), ("", "ж"), ("é", ""), ("z", ""), ("", "字"), ("", "7")]);
                let src = format!("{a}{src}{b}");
                let low = src.to_lowercase();
                if src.split(' ').any(|w| w.chars().take(2).filter(|c| c.is_uppercase()).count() == 2) { return self.plain(); }
                Unit { first: upper_first(&low), rest: low, src, noun: true, opaque: false }
            }
            5 => { let sep = *self.r.pick(&["-", "/"]); let (a, b) = (self.plain(), self.plain()); Unit { src: format!("{}{sep}{}", a.src, b.src), first: format!("{}{sep}{}", a.first, b.rest), rest: format!("{}{sep}{}", a.rest, b.rest), noun: false, opaque: false } }
            _ => self.plain(),
        }
    }
    fn around(u: Unit, a: &str, b: &str) -> Unit { Unit { src: format!("{a}{}{b}", u.src), first: format!("{a}{}{b}", u.first), rest: format!("{a}{}{b}", u.rest), ..u } }
    fn unit(&mut self, at: usize) -> Unit {
        match self.r.below(22) {
            0 if at > 0 => { let c = format!("`{} {}`", self.plain().src, self.plain().src); Unit { opaque: true, ..Self::same(&c) } }
            1 => { let u = self.word(); if u.pron() { return u; } Self::around(u, "*", "*") }
            2 => { let u = self.word(); if u.pron() { return u; } Self::around(u, "**", "**") }
            3 => { let u = self.word(); if u.pron() { return u; } let d = format!("](./{}X)", cased(self.r, "zorBle")); Self::around(u, "[", &d) }
            4 => { let u = self.word(); if u.pron() { return u; } Self::around(u, "(", ")") }
            5 => { let u = self.word(); if u.pron() || u.src == "Q" || u.noun || !u.src.ends_with(|c: char| c.is_alphabetic()) { return u; } Self::around(u, "", "'s") }
            6 => { let u = self.word(); if u.pron() || u.src.ends_with('.') { return u; } let p = *self.r.pick(&[",", "!", "?", "."]); if p == "." && u.src.chars().any(|c| c.is_uppercase()) { return u; } Self::around(u, "", p) }
            7 => { let u = self.word(); if u.pron() { return u; } Unit { opaque: true, ..Self::around(Self::same(""), "<b title=\"Zq Mip\">", &format!("{}</b>", u.rest)) } .with_src(&u) }
            8 => {
                // quotation: sentence case inside if it begins with a capital, else as it is
                let (a, b) = (self.plain(), self.plain());
                let (o, c) = if self.r.chance(70) { ("“", "”") } else { ("‘", "’") };
                let q = if o == "“" { '"' } else { '\'' };
                let up = a.src.chars().next().unwrap().is_uppercase();
                let inner = if up { format!("{} {}", a.first, b.rest) } else { format!("{} {}", a.src, b.src) };
                let s = format!("{o}{inner}{c}");
                Unit { src: format!("{q}{} {}{q}", a.src, b.src), first: s.clone(), rest: s, noun: false, opaque: false }
            }
            9 if at > 0 => { let n = cased(self.r, "zorble"); Self::same(&format!("![{}](./{n}.PNG)", self.r.pick(&["zq", "mip"]))) }
            _ => self.word(),
        }
    }
}
impl Unit { fn pron(&self) -> bool { self.src.to_lowercase().split('\'').next() == Some("i") } fn with_src(self, u: &Unit) -> Unit { Unit { src: format!("<b title=\"Zq Mip\">{}</b>", u.src), first: self.rest.clone(), noun: u.noun, ..self } } }

fn exact_case(r: &mut Rng) -> Case {
    let mut o = hongdown::Options::default();
    opts::punct_off(&mut o);
    o.curly_double_quotes = true;
    o.curly_single_quotes = true;
    o.line_width = hongdown::LineWidth::new(2000).unwrap();
    o.heading_sentence_case = r.chance(90);
    let names = ["ZorBase", "myCo", "vexIT", "GranDic", "Plorp", "X11z", "iWug", "Grand Plac", "Zor Wug Tarn"];
    let mut h = H { user: vec![], common: vec![], r };
    let conf_user: Vec<String> = names.iter().filter(|_| h.r.chance(30)).map(|s| s.to_string()).collect();
    let conf_common: Vec<String> = (0..h.r.below(3)).map(|_| if h.r.chance(60) { cased(h.r, h_pick()) } else { names[h.r.below(names.len())].to_lowercase() }).collect();
    fn h_pick() -> &'static str { "Python" }
    h.user = conf_user.clone();
    h.common = conf_common.clone();
    for _ in 0..h.r.below(3) { let n = h.r.pick(builtin()).clone(); if !n.contains(' ') { h.common.push(n); } }
    o.heading_proper_nouns = conf_user;
    o.heading_common_nouns = h.common.clone();
    let on = o.heading_sentence_case;
    let mut src = String::new();
    let mut want = vec![];
    for _ in 0..h.r.range(1, 5) {
        if h.r.chance(15) {
            // nouns of the document: from here on
            let proper = h.r.chance(60);
            let n = if proper { names[h.r.below(names.len())].to_string() } else { h.r.pick(builtin()).clone() };
            if proper && !h.user.iter().any(|u| u.to_lowercase() == n.to_lowercase()) { src.push_str(&format!("<!-- hongdown-proper-nouns: {n}, Zq9q -->\n\n")); h.user.push(n); }
            else if !proper && !n.contains(' ') { src.push_str(&format!("<!-- hongdown-common-nouns: {n} -->\n\n")); h.common.push(n); }
        }
        let mut s = String::new();
        let mut w = String::new();
        let mut noun = false;
        let mut delim = false;
        let n = h.r.range(1, 8);
        for i in 0..n {
            let mut u = h.unit(i);
            let mut tries = 0;
            while (noun && u.noun || delim && !u.src.starts_with(|c: char| c.is_alphabetic())) && tries < 50 { u = h.unit(i); tries += 1; }
            if noun && u.noun || delim && !u.src.starts_with(|c: char| c.is_alphabetic()) { u = H::same("zz"); }
            noun = u.noun;
            if i > 0 { s.push(' '); w.push(' '); }
            let keeps = delim && u.src.chars().next().unwrap().is_uppercase();
            // markup ends the first word
            let f = if i == 0 || keeps { &u.first } else { &u.rest };
            s.push_str(&u.src);
            w.push_str(if on { f } else { &u.src });
            delim = false;
            if i + 1 < n && !u.opaque && u.src.ends_with(|c: char| c.is_alphabetic()) && h.r.chance(8) { let d = *h.r.pick(&[":", ";", " —", " –"]); s.push_str(d); w.push_str(d); delim = true; }
        }
        if !on { let q = |x: &str| curl(x); w = q(&w); }
        let l = h.r.range(3, 6);
        src.push_str(&format!("{} {s}\n\n", "#".repeat(l)));
        want.push(format!("{} {w}", "#".repeat(l)));
    }
    let mut c = Case::new(&format!("{src}{:?}{:?}", o.heading_proper_nouns, o.heading_common_nouns));
    c.ev("headings", want.len());
    let out = match util::fmt(&src, &o) { Ok(x) => x, Err(e) => { c.fail(e, src); return c; } };
    let have: Vec<String> = out.lines().filter(|l| l.starts_with('#')).map(|l| l.to_string()).collect();
    c.ev("headings changed", have.iter().filter(|x| !src.contains(x.as_str())).count());
    if have != want {
        let (a, b) = want.iter().zip(&have).find(|(a, b)| a != b).map(|(a, b)| (a.clone(), b.clone())).unwrap_or_default();
        c.fail(if on { "a heading is not in sentence case" } else { "a heading changed although sentence case is off" }, format!("rules  {a}\noutput {b}\n--- input\n{src}--- proper {:?} common {:?}", o.heading_proper_nouns, o.heading_common_nouns));
    }
    c
}
/// Quotes of the quotation units; apostrophes stay.
fn curl(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    for i in 0..c.len() {
        let open = i == 0 || c[i - 1] == ' ';
        let apos = i > 0 && i + 1 < c.len() && c[i - 1].is_alphanumeric() && c[i + 1].is_alphanumeric();
        out.push(match c[i] { '"' if i > 0 && c[i - 1] == '=' || i + 1 < c.len() && c[i + 1] == '>' => '"', '"' => if open { '“' } else { '”' }, '\'' if !apos => if open { '‘' } else { '’' }, x => x });
    }
    out
}
/// Everything in headings that has no letter case to change, and the text of everything else.
fn fixed(md: &str) -> (Vec<String>, Vec<String>) {
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, md, &co);
    let (mut heads, mut lit) = (vec![], vec![]);
    for h in root.descendants().filter(|n| matches!(n.data.borrow().value, V::Heading(_))) {
        let mut t = String::new();
        for c in h.descendants() {
            match &c.data.borrow().value { V::Text(x) => t.push_str(x), V::Code(k) => { t.push('\u{1}'); lit.push(k.literal.clone()) } V::HtmlInline(x) => { t.push('\u{1}'); lit.push(x.to_string()) } V::FootnoteReference(f) => { t.push('\u{1}'); lit.push(f.name.clone()) } V::Link(l) | V::Image(l) => lit.push(format!("{} {}", l.url, l.title)), _ => {} }
        }
        heads.push(t);
    }
    (heads, lit)
}
fn wide_bad(src: &str, o: &hongdown::Options) -> Option<String> {
    let mut off = o.clone();
    off.heading_sentence_case = false;
    let (a, b) = match (util::fmt(src, &off), util::fmt(src, o)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return Some(e) };
    let so = semo(o);
    if let Some(d) = sem::first_diff(&sem::sem(&a, &so), &sem::sem(&b, &so)) { return Some(format!("more than letter case changed: {d}")); }
    let ((h0, l0), (h1, l1)) = (fixed(&a), fixed(&b));
    if l0 != l1 { return Some(format!("code, HTML or targets in headings changed: {l0:?} became {l1:?}")); }
    let plain = |s: &str| s.replace(['“', '”'], "\"").replace(['‘', '’'], "'");
    for (x, y) in h0.iter().zip(&h1) {
        let f = |s: &str| plain(s).to_uppercase().to_lowercase();
        if f(x) != f(y) { return Some(format!("a heading differs in more than letter case: {x:?} became {y:?}")); }
        let n = |s: &str| plain(s).chars().filter(|c| !c.is_alphabetic()).collect::<String>();
        if n(x) != n(y) { return Some(format!("a heading differs in more than letter case: {x:?} became {y:?}")); }
    }
    // everything else is written as without
    let strip = |out: &str| -> Vec<String> {
        let ar = comrak::Arena::new();
        let co = sem::comrak_options();
        let root = comrak::parse_document(&ar, out, &co);
        let mut drop = std::collections::HashSet::new();
        for h in root.descendants() { let d = h.data.borrow(); if matches!(d.value, V::Heading(_)) { drop.extend(d.sourcepos.start.line..=d.sourcepos.end.line); } }
        out.lines().enumerate().filter(|(i, l)| !drop.contains(&(i + 1)) && !(l.starts_with('[') && l.contains("]: "))).map(|(_, l)| l.to_string()).collect()
    };
    if o.setext_h1 == off.setext_h1 && strip(&a) != strip(&b) { let (x, y) = (strip(&a), strip(&b)); let d = x.iter().zip(&y).find(|(p, q)| p != q); return Some(format!("text outside headings changed: {d:?}")); }
    None
}
fn wide_case(r: &mut Rng) -> Case {
    let mut d = make(r, Punct::Default, true, |c, _| {
        // references in headings: the label is the text; quotes become curly
        c.f = c.f.and(&[F::HeadInl, F::CodeSpan]).but(&[F::Sp2, F::LinkExt, F::LinkColl, F::LinkShort, F::LinkFull, F::ImgRef, F::Badge]);
        c.kinds.iter_mut().for_each(|k| if k.0 == K::Head { k.1 = 12; });
    });
    d.o.heading_sentence_case = true;
    let mut c = Case::new(&d.key());
    census(&d.doc, &mut c);
    let bad = |s: &str| wide_bad(s, &d.o);
    if bad(&d.src).is_some() { let t = d.explain(&bad); c.fail(t.lines().next().unwrap_or("").to_string(), t); }
    c
}
pub fn c14(c: &mut Ctx) {
    let n = c.n(60000, 1500000);
    c.section("exact", "headings of plain words, acronyms, pronouns, built-in, configured and in-document nouns, common nouns, compounds, possessives, emphasis, links, images, code, HTML, quotations and delimiters in several scripts; each must come out exactly as the rules say, and unchanged with the option off", n, |r, _| exact_case(r));
    let n = c.n(30000, 800000);
    c.section("case only", "documents of every kind with and without sentence case: headings differ in letter case only, code, HTML and targets in them not at all, and nothing outside headings changes", n, |r, _| wide_case(r));
}
