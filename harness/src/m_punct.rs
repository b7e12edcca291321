//! C06: punctuation.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::{sem, util};
use comrak::nodes::{AstNode, NodeValue as V};
use hongdown::{DashPattern, DashSetting, Options};

/// What a document holds: prose runs (one per block), and everything that must not be touched.
fn split(md: &str) -> (Vec<String>, Vec<String>) {
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, md, &co);
    let (mut prose, mut fixed) = (vec![], vec![]);
    fn inline<'a>(n: &'a AstNode<'a>, p: &mut String, fixed: &mut Vec<String>) {
        for c in n.children() {
            match &c.data.borrow().value {
                V::Text(t) => p.push_str(t),
                V::SoftBreak | V::LineBreak => p.push(' '),
                V::Code(k) => { fixed.push(format!("code {}", k.literal)); p.push('\u{1}'); }
                V::HtmlInline(h) => { fixed.push(format!("html {h}")); p.push('\u{1}'); }
                V::FootnoteReference(f) => { fixed.push(format!("note {}", f.name)); p.push('\u{1}'); }
                V::Link(l) => { fixed.push(format!("link {} {}", l.url, l.title)); p.push('\u{2}'); inline(c, p, fixed); p.push('\u{2}'); }
                V::Image(l) => { fixed.push(format!("image {} {}", l.url, l.title)); p.push('\u{2}'); inline(c, p, fixed); p.push('\u{2}'); }
                _ => inline(c, p, fixed),
            }
        }
    }
    for n in root.descendants() {
        match &n.data.borrow().value {
            V::Paragraph | V::Heading(_) | V::TableCell | V::DescriptionTerm => {
                if n.children().next().is_some_and(|c| c.data.borrow().value.block()) { continue; }
                let mut p = String::new();
                inline(n, &mut p, &mut fixed);
                prose.push(p.split_whitespace().collect::<Vec<_>>().join(" "));
            }
            V::CodeBlock(c) => fixed.push(format!("block {:?} {}", c.info, c.literal)),
            V::HtmlBlock(h) => fixed.push(format!("html {}", h.literal)),
            V::FootnoteDefinition(f) => fixed.push(format!("footnote {}", f.name)),
            V::FrontMatter(f) => fixed.push(format!("front {f}")),
            V::Alert(a) => fixed.push(format!("alert {:?}", a.title)),
            _ => {}
        }
    }
    (prose, fixed)
}
/// Can `on` be `off` with only characters the options name replaced?
fn aligned(off: &str, on: &str, o: &Options) -> Result<usize, String> {
    let a: Vec<char> = off.chars().collect();
    let (em, en) = (opts::dash_str(&o.em_dash), opts::dash_str(&o.en_dash));
    let mut i = 0;
    let mut n = 0;
    for (k, c) in on.chars().enumerate() {
        let at = |s: &str| { let s: Vec<char> = s.chars().collect(); a[i..].starts_with(&s).then_some(s.len()) };
        if i < a.len() && a[i] == c && !(c == '—' || c == '–') { i += 1; continue; }
        let took = match c {
            '“' | '”' if o.curly_double_quotes => at("\""),
            '‘' if o.curly_single_quotes => at("'"),
            '’' if o.curly_single_quotes || o.curly_apostrophes => at("'"),
            '…' if o.ellipsis => at("..."),
            '—' => em.and_then(at),
            '–' => en.and_then(at),
            _ => None,
        };
        match took {
            Some(k) => { i += k; n += 1; }
            None if i < a.len() && a[i] == c => i += 1,
            None => return Err(format!("{c:?} at {k} of {on:?} does not stand for anything in {off:?} at {i}")),
        }
    }
    if i != a.len() { return Err(format!("{on:?} lacks the end of {off:?}")); }
    Ok(n)
}
/// What an enabled option leaves no trace of.
fn residue(on: &str, o: &Options) -> Option<String> {
    if o.ellipsis && on.contains("...") { return Some("three dots are left".into()); }
    if o.curly_double_quotes && on.contains('"') { return Some("a straight double quote is left".into()); }
    for (p, n) in [(&o.em_dash, "em"), (&o.en_dash, "en")] {
        if let Some(p) = opts::dash_str(p) { if p.chars().count() > 1 && on.contains(p) { return Some(format!("an {n} dash pattern is left")); } }
    }
    let w: Vec<char> = on.chars().collect();
    for t in w.windows(3) {
        if t[0].is_alphabetic() && t[2].is_alphabetic() {
            if t[1] == '‘' { return Some(format!("an apostrophe became an opening quote: {t:?}")); }
            if t[1] == '\'' && o.curly_apostrophes { return Some(format!("a straight apostrophe is left: {t:?}")); }
        }
    }
    None
}
fn compare(src: &str, o: &Options, events: &mut usize) -> Option<String> {
    let mut off = o.clone();
    opts::punct_off(&mut off);
    let (a, b) = match (util::fmt(src, &off), util::fmt(src, o)) { (Ok(a), Ok(b)) => (a, b), (Err(e), _) | (_, Err(e)) => return Some(e) };
    let ((p0, f0), (p1, f1), (p2, f2)) = (split(src), split(&a), split(&b));
    // definitions move: compare as multisets
    let sorted = |v: &[String]| { let mut v = v.to_vec(); v.sort(); v };
    let (mut s0, mut s1) = (sorted(&p0), sorted(&p1));
    s0.retain(|x| !x.is_empty());
    s1.retain(|x| !x.is_empty());
    if s0 != s1 {
        let x = s0.iter().find(|x| !s1.contains(x)).or(s1.iter().find(|x| !s0.contains(x)));
        return Some(format!("with every option off the prose changed: {x:?}"));
    }
    if f1 != f2 || sorted(&f0).len() != f1.len() { let x = f2.iter().find(|x| !f1.contains(x)); return Some(format!("something that is no prose changed: {x:?}")); }
    if p1.len() != p2.len() { return Some("number of blocks differs".into()); }
    for (x, y) in p1.iter().zip(&p2) {
        match aligned(x, y, o) { Ok(n) => *events += n, Err(e) => return Some(e) }
        let clean: String = y.clone();
        if let Some(w) = residue(&clean, o) { return Some(format!("{w} in {y:?}")); }
    }
    None
}
fn wide_case(r: &mut Rng) -> Case {
    let mut d = make(r, Punct::Any, true, |c, _| {
        c.f = c.f.and(&[F::Quotes, F::Apos, F::Dash, F::Dots]).but(&[F::Sp2, F::Esc, F::Ent, F::Backslash]);
        c.spice = 60;
    });
    // default code language and wrapping are other properties' business
    d.o.default_language = String::new();
    let mut c = Case::new(&d.key());
    let mut n = 0;
    let w = compare(&d.src, &d.o, &mut n);
    c.ev("characters converted", n);
    if w.is_some() { let t = d.explain(&|s| compare(s, &d.o, &mut 0)); c.fail(t.lines().next().unwrap_or("").to_string(), t); }
    c
}

// ---------------------------------------------------------------- exact
/// Words, and constructs whose converted form the options determine.
fn piece(r: &mut Rng, o: &Options) -> (String, String) {
    let ws = ["alpha", "beta", "한글", "word", "x", "Zeta", "éa", "日本"];
    let w = |r: &mut Rng| r.pick(&ws).to_string();
    let dash = |s: &str, p: &DashSetting, ch: &str| match opts::dash_str(p) { Some(p) if p.chars().count() > 1 => s.replace(p, ch), Some(p) => s.split(' ').map(|x| if x == p { ch } else { x }).collect::<Vec<_>>().join(" "), None => s.to_string() };
    let dashes = |s: &str| dash(&dash(s, &o.em_dash, "—"), &o.en_dash, "–");
    let (dl, dr) = if o.curly_double_quotes { ("“", "”") } else { ("\"", "\"") };
    let (sl, sr) = if o.curly_single_quotes { ("‘", "’") } else { ("'", "'") };
    let ap = if o.curly_apostrophes { "’" } else { "'" };
    let (a, b, c) = (w(r), w(r), w(r));
    match r.below(20) {
        0 => (format!("\"{a} {b}\""), format!("{dl}{a} {b}{dr}")),
        1 => (format!("\"{a}\""), format!("{dl}{a}{dr}")),
        2 => (format!("'{a} {b}'"), format!("{sl}{a} {b}{sr}")),
        3 => (format!("(\"{a} {b}\")"), format!("({dl}{a} {b}{dr})")),
        4 => (format!("('{a}')"), format!("({sl}{a}{sr})")),
        5 => (format!("{a}'{b}"), format!("{a}{ap}{b}")),
        6 => (format!("{a}'s"), format!("{a}{ap}s")),
        7 => { let (d, e) = *r.pick(&[("...", "…"), ("....", "…."), (".....", "….."), ("......", "……"), (".......", "……."), (".........", "………")]); (format!("{a}{d}"), if o.ellipsis { format!("{a}{e}") } else { format!("{a}{d}") }) }
        8 => (format!("{a}...{b}"), if o.ellipsis { format!("{a}…{b}") } else { format!("{a}...{b}") }),
        9 | 10 => { let p = [opts::dash_str(&o.em_dash), opts::dash_str(&o.en_dash), Some("--"), Some("---"), Some("-")]; let p = r.pick(&p).unwrap_or("--").to_string(); let s = if r.chance(50) { format!("{a} {p} {b}") } else { format!("{a}{p}{b}") }; let t = dashes(&s); (s, t) }
        11 => (format!("\"{a} '{b}' {c}\""), format!("{dl}{a} {sl}{b}{sr} {c}{dr}")),
        12 => { let p = *r.pick(&[",", ".", ";", ":", "!", "?"]); (format!("\"{a} {b}\"{p}"), format!("{dl}{a} {b}{dr}{p}")) }
        13 => { let p = *r.pick(&[",", ".", ";", ":", "!", "?"]); (format!("'{a} {b}'{p}"), format!("{sl}{a} {b}{sr}{p}")) }
        14 => (format!("\"{a} {b}'{c} {a}\""), format!("{dl}{a} {b}{ap}{c} {a}{dr}")),
        15 => (a.clone(), a),
        // around markup
        k => {
            let (x, y) = match r.below(6) { 0 => (format!("*{a}*"), a), 1 => (format!("**{a} {b}**"), format!("{a} {b}")), 2 => (format!("[{a}](./u)"), a), 3 => ("`c`".into(), "\u{1}".into()), 4 => (format!("![{a}](./i.png)"), a), _ => (format!("{a} *{b}*"), format!("{a} {b}")) };
            let p = *r.pick(&["", "", ",", ".", ";", ":", "!", "?", ")"]);
            let (l, m) = if p == ")" { ("(", "(") } else { ("", "") };
            if k < 18 || x.starts_with(|c: char| c.is_alphanumeric()) || a_first(&x) { (format!("{l}\"{x}\"{p}"), format!("{m}{dl}{y}{dr}{p}")) } else { (format!("{l}'{x}'{p}"), format!("{m}{sl}{y}{sr}{p}")) }
        }
    }
}
/// Single quotes pair within one run of text only (known finding).
fn a_first(x: &str) -> bool { x.contains(' ') && !x.starts_with("**") }
fn exact_case(r: &mut Rng) -> Case {
    let mut o = opts::random(r, Punct::Any, false);
    o.line_width = hongdown::LineWidth::new(2000).unwrap();
    if r.chance(30) { for (k, p) in [(0, &mut o.em_dash), (1, &mut o.en_dash)] { if let Ok(x) = DashPattern::new(if k == 0 { "--".into() } else { "-".to_string() }) { *p = DashSetting::Pattern(x); } } }
    let mut src = String::new();
    let mut want: Vec<String> = vec![];
    let mut prev_kind = 99;
    for id in 0..r.range(1, 6) {
        let tok = format!("zq{id}z");
        let (mut s, mut w) = (tok.clone(), tok);
        for _ in 0..r.range(1, 8) {
            let (a, b) = piece(r, &o);
            let wrap = if a.contains(['*', '[', '`']) { 11 } else { r.below(12) };
            let (x, y) = match wrap { 0 => (format!("*{a}*"), b), 1 => (format!("**{a}**"), b), 2 => (format!("[{a}](./u--v'w...x)"), b), 3 => ("`a--b 'c' \"d\" ...`".into(), "\u{1}".into()), 4 => ("<b title=\"a--b...\">".into(), "\u{1}".into()), 5 => (format!("![{a}](./i.png \"t--u ... it's\")"), b), _ => (a, b) };
            // markup glued to what the dash patterns look at is not this section's business
            s.push(' '); s.push_str(&x);
            w.push(' '); w.push_str(&y);
        }
        let k = loop { let k = r.below(8); if !(matches!(k, 2 | 3 | 6) && matches!(prev_kind, 2 | 3 | 6)) && !(k == 4 && prev_kind == 4) && !(k == 6 && prev_kind == 0) { break k; } };
        prev_kind = k;
        src.push_str(&match k {
            0 | 7 => format!("{s}\n\n"),
            1 => format!("{} {s}\n\n", "#".repeat(r.range(1, 6))),
            2 => format!("- {s}\n\n"),
            3 => format!("1. {s}\n\n"),
            4 => format!("> {s}\n\n"),
            5 => format!("| {s} | x |\n|---|---|\n| a--b | y |\n\n"),
            _ => format!("{s}\n:   term\n\n"),
        });
        want.push(w);
    }
    let mut c = Case::new(&format!("{src}{o:?}"));
    let out = match util::fmt(&src, &o) { Ok(x) => x, Err(e) => { c.fail(e, src); return c; } };
    let (have, _) = split(&out);
    let (src_prose, _) = split(&src);
    for (id, w) in want.iter().enumerate() {
        let tok = format!("zq{id}z");
        // a spelling Markdown reads otherwise
        if !src_prose.iter().any(|p| p.starts_with(&tok)) { continue; }
        c.ev("blocks compared", 1);
        let h = have.iter().find(|h| h.starts_with(&tok)).map(|h| h.replace('\u{2}', ""));
        let w = w.replace('\u{2}', "");
        if h.as_deref() != Some(w.as_str()) {
            c.fail("converted prose differs from what the options say", format!("want {w:?}\nhave {h:?}\n--- input\n{src}--- output\n{out}--- options {o:?}"));
        }
    }
    c
}
// ---------------------------------------------------------------- phrases
pub const PIECES: [&str; 27] = ["a", "S", "1", "한", " ", ",", ".", "...", "'", "\"", "--", "-", "(", ")", "[", "]", "{", "}", ";", "!", "—", "“", "’", "s", "é", "/", "&"];
/// Double quotes that unmistakably open (after a blank or opening bracket, before a letter or digit)
/// or close (after a letter or digit, before a blank or the end), when every one of them is either and they alternate.
fn plain_pairs(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    let mut open = false;
    let mut any = false;
    for (i, &x) in c.iter().enumerate() {
        if x == '“' || x == '”' { return false; }
        if x != '"' { continue; }
        let (p, n) = (if i == 0 { ' ' } else { c[i - 1] }, *c.get(i + 1).unwrap_or(&' '));
        let opens = (p == ' ' || "([{".contains(p)) && n.is_alphanumeric();
        let closes = p.is_alphanumeric() && n == ' ';
        if opens == closes || opens == open { return false; }
        open = opens;
        any = true;
    }
    any && !open
}
pub fn phrase(pieces: &[&str], mut i: usize, len: usize) -> String { let mut s = String::new(); for _ in 0..len { s.push_str(pieces[i % pieces.len()]); i /= pieces.len(); } s }
const PER: usize = 192;
fn phrase_case(r: &mut Rng, docs: usize, len: usize, index: usize, total: usize) -> Case {
    let mut o = opts::random(r, Punct::Any, false);
    o.line_width = hongdown::LineWidth::new(2000).unwrap();
    let mut src = String::new();
    let mut lines = vec![];
    for k in 0..PER {
        // every document takes phrases from all over the list
        let i = index + k * docs;
        if i >= total { break; }
        let p = phrase(&PIECES, i / 3, len);
        let l = match i % 3 { 0 => format!("w {p} w"), 1 => format!("w{p}"), _ => format!("w {p}") };
        src.push_str(&l); src.push_str("\n\n");
        lines.push(l);
    }
    let mut c = Case::new(&format!("{src}{o:?}"));
    let mut n = 0;
    let judge = |s: &str, n: &mut usize| -> Option<String> {
        if let Some(w) = compare(s, &o, n) { return Some(w); }
        if o.curly_double_quotes {
            let (have, _) = split(&util::fmt(s, &o).unwrap());
            let (src, _) = split(s);
            if have.len() != src.len() { return Some("number of blocks differs".into()); }
            for (a, b) in src.iter().zip(&have) {
                if a.contains('\u{2}') || !plain_pairs(a) { continue; }
                *n += 1;
                let q: Vec<char> = b.chars().filter(|x| "\"“”".contains(*x)).collect();
                if q.chunks(2).any(|t| t != ['“', '”']) { return Some(format!("quotes do not pair in {b:?}")); }
            }
        }
        None
    };
    if judge(&src, &mut n).is_some() {
        for l in &lines {
            let s = format!("{l}\n");
            if let Some(w) = judge(&s, &mut 0) { c.fail(w.clone(), format!("{w}\n--- input\n{s}--- output\n{}--- options {o:?}", util::fmt(&s, &o).unwrap_or_default())); break; }
        }
        if c.fail.is_none() { c.fail("a document of phrases fails", src.clone()); }
    }
    c.ev("phrases", lines.len());
    c.ev("characters converted or pairs judged", n);
    c
}
pub fn c06(c: &mut Ctx) {
    c.assumptions.push("single quotes of a pair stand in one run of text on one line, at most fifty characters apart (known findings)".into());
    let n = c.n(40000, 1000000);
    c.section("exact", "blocks of quoted, apostrophised, dotted and dashed constructs whose converted form each option determines, in seven kinds of blocks and inside emphasis, links and images; the converted prose must be exactly that", n, |r, _| exact_case(r));
    let n = c.n(40000, 1000000);
    c.section("alignment", "documents of every kind formatted with all options off and with random ones: off leaves the prose as written, on replaces only what it names and leaves none of it, and nothing that is no prose changes", n, |r, _| wide_case(r));
    for len in 1..=4usize {
        let total = 27usize.pow(len as u32) * 3;
        let docs = total.div_ceil(PER);
        c.section(&format!("phrases of {len}"), &format!("every phrase of {len} of 27 quotes, dashes, dots, brackets, letters and other marks, in three places of a paragraph, under random options, judged like alignment; double quotes that plainly open and close come out in pairs"), docs, move |r, i| phrase_case(r, docs, len, i, total));
    }
}
