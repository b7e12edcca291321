//! C07, C08: references and footnotes; C18: warnings.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::{sem, util};
use comrak::nodes::{AstNode, NodeValue as V};
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- ledger
#[derive(Debug, Clone, PartialEq)]
struct Link { line: usize, note: Option<String>, key: String }
#[derive(Debug, Default)]
struct Ledger {
    links: Vec<Link>,
    /// (name, line of the reference), in order
    notes: Vec<(String, usize, bool)>,
    /// name, line, content
    defs: Vec<(String, usize, String)>,
    /// lines of headings that start a section
    sections: Vec<usize>,
    /// last line and first line of top-level blocks
    blocks: Vec<(usize, usize, &'static str)>,
}
fn ledger(md: &str) -> Ledger {
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, md, &co);
    let mut l = Ledger::default();
    fn text<'a>(n: &'a AstNode<'a>) -> String {
        n.descendants().map(|c| match &c.data.borrow().value { V::Text(t) => t.to_string(), V::Code(k) => k.literal.clone(), V::SoftBreak | V::LineBreak => " ".into(), _ => String::new() }).collect::<String>().split_whitespace().collect::<Vec<_>>().join(" ")
    }
    fn walk<'a>(n: &'a AstNode<'a>, note: &Option<String>, l: &mut Ledger) {
        for c in n.children() {
            let d = c.data.borrow();
            let line = d.sourcepos.start.line;
            match &d.value {
                V::Link(k) => l.links.push(Link { line, note: note.clone(), key: format!("link {:?} {:?} {:?}", text(c), k.url, k.title) }),
                V::Image(k) => l.links.push(Link { line, note: note.clone(), key: format!("image {:?} {:?} {:?}", text(c), k.url, k.title) }),
                V::FootnoteReference(f) => l.notes.push((f.name.clone(), line, note.is_some())),
                V::FootnoteDefinition(f) => {
                    let content: Vec<String> = c.descendants().skip(1).map(|x| match &x.data.borrow().value { V::Text(t) => format!("t {t}"), V::Code(k) => format!("c {}", k.literal), V::CodeBlock(k) => format!("k {} {}", k.info, k.literal), V::SoftBreak => "t  ".into(), V::FootnoteReference(f) => format!("r {}", f.name), V::HtmlBlock(h) => h.literal.clone(), V::HtmlInline(h) => h.to_string(), V::Paragraph => "P".into(), V::List(_) => "L".into(), V::Item(_) => "I".into(), V::BlockQuote => "Q".into(), V::Link(k) => format!("l {} {}", k.url, k.title), V::Image(k) => format!("i {} {}", k.url, k.title), V::LineBreak => "br".into(), _ => String::new() }).collect();
                    // text runs may be split elsewhere
                    let mut joined = String::new();
                    for p in content { if let Some(t) = p.strip_prefix("t ") { joined.push_str(t); } else if !p.is_empty() { joined.push_str(&format!("\u{1}{p}\u{1}")); } }
                    l.defs.push((f.name.clone(), line, joined.split_whitespace().collect::<Vec<_>>().join(" ")));
                    walk(c, &Some(f.name.clone()), l);
                    continue;
                }
                _ => {}
            }
            walk(c, note, l);
        }
    }
    walk(root, &None, &mut l);
    for (i, c) in root.children().enumerate() {
        let d = c.data.borrow();
        let (a, b) = (d.sourcepos.start.line, d.sourcepos.end.line);
        match &d.value {
            V::Heading(h) if (h.level == 2 || h.level == 3) && i > 0 => { l.sections.push(a); l.blocks.push((a, b, "heading")); }
            V::FootnoteDefinition(_) => {}
            V::HtmlBlock(_) => l.blocks.push((a, b, "html")),
            _ => l.blocks.push((a, b, "block")),
        }
    }
    l
}
impl Ledger {
    fn section(&self, line: usize) -> usize { self.sections.iter().filter(|s| **s <= line).count() }
}
/// Definition lines of formatted text: (line number, label, the line).
fn def_lines(out: &str, l: &Ledger) -> Vec<(usize, String, String)> {
    let lines: Vec<&str> = out.lines().collect();
    let mut v = vec![];
    for (i, s) in lines.iter().enumerate() {
        if !s.starts_with('[') || s.starts_with("[^") { continue; }
        let n = i + 1;
        if l.blocks.iter().any(|b| b.0 <= n && n <= b.1) { continue; }
        // the end of the label
        let mut esc = false;
        let Some(end) = s.char_indices().skip(1).find(|(_, c)| { let e = !esc && *c == ']'; esc = !esc && *c == '\\'; e }).map(|x| x.0) else { continue };
        if !s[end + 1..].starts_with(": ") { continue; }
        v.push((n, s[1..end].to_string(), s.to_string()));
    }
    v
}
fn norm(label: &str) -> String { label.split_whitespace().collect::<Vec<_>>().join(" ").to_lowercase() }
fn number(label: &str) -> Option<u64> { label.strip_prefix('#').unwrap_or(label).parse().ok() }
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
fn lost(a: &[String], b: &[String]) -> Option<String> {
    let mut m: HashMap<&str, i64> = HashMap::new();
    for x in a { *m.entry(x).or_default() += 1; }
    for x in b { *m.entry(x).or_default() -= 1; }
    let mut k: Vec<_> = m.into_iter().filter(|x| x.1 != 0).collect();
    k.sort();
    k.first().map(|(x, n)| format!("{} {x}", if *n > 0 { "lost:" } else { "invented:" }))
}
fn refs_bad(src: &str, o: &hongdown::Options, ev: &mut BTreeMap<&'static str, usize>) -> Option<String> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let (a, b) = (ledger(src), ledger(&out));
    *ev.entry("links followed").or_default() += a.links.len();
    let body = |l: &Ledger| l.links.iter().filter(|x| x.note.is_none()).map(|x| x.key.clone()).collect::<Vec<_>>();
    let notes = |l: &Ledger| l.links.iter().filter(|x| x.note.is_some()).map(|x| format!("{:?} {}", x.note, x.key)).collect::<Vec<_>>();
    if let Some(w) = lost(&body(&a), &body(&b)) { return Some(format!("a link changed: {w}")); }
    if body(&a) != body(&b) { return Some("links changed their order".into()); }
    if let Some(w) = lost(&sorted(notes(&a)), &sorted(notes(&b))) { return Some(format!("a link of a footnote changed: {w}")); }
    let defs = def_lines(&out, &b);
    *ev.entry("definitions found in outputs").or_default() += defs.len();
    let mut seen = HashSet::new();
    for (_, l, _) in &defs { if !seen.insert(norm(l)) { return Some(format!("two definitions of [{l}]")); } }
    let lines: Vec<&str> = out.lines().collect();
    let mut use_of: Vec<(usize, usize, bool)> = vec![];
    for (n, _, text) in &defs {
        // what disappears without it is what uses it
        let without: String = lines.iter().enumerate().map(|(i, s)| format!("{}\n", if i + 1 == *n { "" } else { s })).collect();
        let c = ledger(&without);
        let have: HashSet<(usize, &str)> = c.links.iter().map(|x| (x.line, x.key.as_str())).collect();
        let Some(first) = b.links.iter().filter(|x| !have.contains(&(x.line, x.key.as_str()))).min_by_key(|x| (x.note.is_some(), x.line)) else { return Some(format!("nothing uses the definition {text:?}")) };
        let in_body = first.note.is_none();
        let first = b.links.iter().filter(|x| !have.contains(&(x.line, x.key.as_str()))).map(|x| b.section(x.line)).min().unwrap_or(b.section(first.line));
        let sec = b.section(*n);
        if sec != first { return Some(format!("{text:?} stands in section {sec} and is first used in section {first}")); }
        let body_here = in_body && b.links.iter().any(|x| x.note.is_none() && b.section(x.line) == sec && !have.contains(&(x.line, x.key.as_str())));
        use_of.push((sec, *n, body_here));
        // nothing but definitions follows it in its section; at the end of the document HTML may
        let last = sec == b.sections.len();
        if let Some(x) = b.blocks.iter().find(|x| x.0 > *n && b.section(x.0) == sec && !(last && x.2 == "html")) { return Some(format!("{text:?} is followed by a {} of its section at line {}", x.2, x.0)); }
        if let Some(x) = b.defs.iter().find(|x| x.1 > *n && b.section(x.1) == sec) { return Some(format!("{text:?} stands before the footnote [^{}]", x.0)); }
    }
    // numbers ascend among the definitions of a section's body, after the others
    let secs: HashSet<usize> = use_of.iter().map(|x| x.0).collect();
    for s in secs {
        let nums: Vec<Option<u64>> = defs.iter().zip(&use_of).filter(|(_, u)| u.0 == s && u.2).map(|(d, _)| number(&d.1)).collect();
        let v: Vec<u64> = nums.iter().flatten().copied().collect();
        if v.len() >= 2 {
            *ev.entry("sections with numeric labels").or_default() += 1;
            if v.windows(2).any(|w| w[0] > w[1]) { return Some(format!("numeric labels {v:?} are not in ascending order")); }
            if let Some(i) = nums.iter().position(|x| x.is_some()) { if nums[i..].iter().any(|x| x.is_none()) { return Some("a numeric label stands before another one".into()); } }
        }
    }
    None
}
fn notes_bad(src: &str, o: &hongdown::Options, ev: &mut BTreeMap<&'static str, usize>) -> Option<String> {
    let mut off = o.clone();
    opts::punct_off(&mut off);
    off.default_language = String::new();
    let out = match util::fmt(src, &off) { Ok(x) => x, Err(e) => return Some(e) };
    let (a, b) = (ledger(src), ledger(&out));
    *ev.entry("footnote references").or_default() += a.notes.len();
    *ev.entry("footnote definitions").or_default() += a.defs.len();
    let body = |l: &Ledger| l.notes.iter().filter(|x| !x.2).map(|x| x.0.clone()).collect::<Vec<_>>();
    if body(&a) != body(&b) { return Some(format!("references changed: {:?} became {:?}", body(&a), body(&b))); }
    let content = |l: &Ledger| sorted(l.defs.iter().map(|x| format!("{} {}", x.0, x.2)).collect());
    if let Some(w) = lost(&content(&a), &content(&b)) { return Some(format!("a definition changed: {w}")); }
    for (name, ..) in &b.defs {
        let n = out.lines().filter(|l| l.starts_with(&format!("[^{name}]:"))).count();
        if n != 1 { return Some(format!("{n} definitions of [^{name}]")); }
    }
    let mut per: BTreeMap<usize, Vec<(usize, String)>> = BTreeMap::new();
    for (name, line, _) in &b.defs {
        let sec = b.section(*line);
        per.entry(sec).or_default().push((*line, name.clone()));
        let Some(first) = b.notes.iter().find(|x| x.0 == *name && !x.2) else { continue };
        if b.section(first.1) != sec { return Some(format!("[^{name}] is defined in section {sec} and first used in section {}", b.section(first.1))); }
        let last = sec == b.sections.len();
        if let Some(x) = b.blocks.iter().find(|x| x.0 > *line && b.section(x.0) == sec && !(last && x.2 == "html")) { return Some(format!("[^{name}] is followed by a {} of its section at line {}", x.2, x.0)); }
    }
    for d in def_lines(&out, &b) {
        if let Some(x) = b.defs.iter().find(|x| x.1 > d.0 && b.section(x.1) == b.section(d.0)) { return Some(format!("{:?} stands before the footnote [^{}]", d.2, x.0)); }
    }
    for (_, mut v) in per {
        v.sort();
        let nums: Vec<Option<u64>> = v.iter().map(|x| x.1.parse().ok()).collect();
        let k: Vec<u64> = nums.iter().flatten().copied().collect();
        if k.len() >= 2 {
            *ev.entry("sections with numbered footnotes").or_default() += 1;
            if k.windows(2).any(|w| w[0] > w[1]) { return Some(format!("numbered footnotes {k:?} are not in ascending order")); }
            if let Some(i) = nums.iter().position(|x| x.is_some()) { if nums[i..].iter().any(|x| x.is_none()) { return Some("a numbered footnote stands before another one".into()); } }
        }
    }
    None
}
type Bad = fn(&str, &hongdown::Options, &mut BTreeMap<&'static str, usize>) -> Option<String>;
fn wide_case(r: &mut Rng, bad: Bad, need: &[F]) -> Case {
    let d = make(r, Punct::Off, true, |c, r| {
        c.f = c.f.and(need).without(F::Sp2);
        c.spice = *r.pick(&[20, 40, 70]);
        c.blocks = (2, 9);
        c.kinds.iter_mut().for_each(|k| if k.0 == K::Head { k.1 = 6; });
    });
    let mut c = Case::new(&d.key());
    let mut ev = BTreeMap::new();
    let w = bad(&d.src, &d.o, &mut ev);
    for (k, n) in ev { c.ev(k, n); }
    if w.is_some() { let t = d.explain(&|s| bad(s, &d.o, &mut BTreeMap::new())); c.fail(t.lines().next().unwrap_or("").to_string(), t); }
    c
}

// ---------------------------------------------------------------- exact
#[derive(Clone, Debug)]
struct Def { label: String, url: String, title: String }
impl Def {
    fn line(&self) -> String { if self.title.is_empty() { format!("[{}]: {}", self.label, self.url) } else { format!("[{}]: {} \"{}\"", self.label, self.url, self.title) } }
}
/// A piece of prose: as written, as formatted, and what it uses.
#[derive(Clone, Debug, Default)]
struct Piece { src: String, out: String, defs: Vec<Def>, notes: Vec<String> }
struct X<'a> {
    r: &'a mut Rng,
    n: usize,
    known: Vec<Def>,
    /// names and bodies of footnotes
    notes: Vec<(String, Vec<Piece>, bool)>,
    with_notes: usize,
    in_note: bool,
}
impl X<'_> {
    fn id(&mut self) -> usize { self.n += 1; self.n }
    fn url(&mut self, ext: bool) -> String { let i = self.id(); if ext { format!("https://{}.example/{i}", self.r.pick(&["a", "www.b"])) } else { format!("./p{i}.md#x") } }
    fn title(&mut self) -> String { if self.r.chance(20) { let i = self.id(); format!("Title {i} of it") } else { String::new() } }
    fn def(&mut self) -> Def {
        if !self.known.is_empty() && self.r.chance(25) { let mut d = self.r.pick(&self.known).clone(); if self.r.chance(15) { d.label = if self.r.chance(50) { d.label.to_uppercase() } else { d.label.to_lowercase() }; } return d; }
        let i = self.id();
        let k = self.r.below(100);
        let label = match self.r.below(7) { 0 => format!("{k}{i:05}"), 1 => format!("#{k}{i:05}"), 2 => format!("two words{i}"), 3 => format!("MiXed{i}"), 4 => format!("가나{i}"), 5 => format!("{k}{i:05}"), _ => format!("l-{i}.x") };
        let ext = self.r.chance(70);
        let d = Def { label, url: self.url(ext), title: self.title() };
        self.known.push(d.clone());
        d
    }
    fn note(&mut self) -> String {
        if !self.notes.is_empty() && self.r.chance(20) { let n = self.r.below(self.notes.len()); return self.notes[n].0.clone(); }
        let i = self.id();
        let k = self.r.below(100);
        let name = match self.r.below(4) { 0 => format!("n{i}"), 1 => format!("한{i}"), _ => format!("{k}{i:05}") };
        self.in_note = true;
        let n = self.r.range(1, 5);
        let mut body = vec![];
        for _ in 0..n { let p = self.piece(); body.push(p); }
        self.in_note = false;
        let two = self.r.chance(25);
        self.notes.push((name.clone(), body, two));
        name
    }
    fn piece(&mut self) -> Piece {
        let i = self.id();
        let w = format!("w{i}");
        let plain = |s: String| Piece { src: s.clone(), out: s, ..Default::default() };
        let one = |s: String, o: String, d: Def| Piece { src: s, out: o, defs: vec![d], notes: vec![] };
        match self.r.below(if self.in_note { 10 } else { 13 + self.with_notes }) {
            0 | 1 => plain(w),
            2 | 3 => { let d = self.def(); let s = format!("[{w}][{}]", d.label); one(s.clone(), s, d) }
            4 => { let d = self.def(); let s = format!("[{}][]", d.label); one(s.clone(), s, d) }
            5 => { let d = self.def(); let s = format!("[{}]", d.label); one(s.clone(), s, d) }
            6 => { let d = Def { label: w.clone(), url: self.url(true), title: self.title() };
                   let s = if d.title.is_empty() { format!("[{w}]({})", d.url) } else { format!("[{w}]({} \"{}\")", d.url, d.title) };
                   one(s, format!("[{w}]"), d) }
            7 => { let (u, t) = (self.url(false), self.title()); let s = if t.is_empty() { format!("[{w}]({u})") } else { format!("[{w}]({u} \"{t}\")") }; plain(s) }
            8 => { let u = self.url(true); plain(format!("<{u}>")) }
            9 => { let d = self.def(); let s = format!("![{w}][{}]", d.label); one(s.clone(), s, d) }
            10 => { let u = self.url(true); plain(format!("![{w}]({u})")) }
            // badges
            11 => { let (d, e) = (self.def(), self.def()); let s = format!("[![{w}][{}]][{}]", d.label, e.label); Piece { src: s.clone(), out: s, defs: vec![d, e], notes: vec![] } }
            12 => { let d = self.def(); let u = self.url(true); let s = format!("[![{w}]({u})][{}]", d.label); one(s.clone(), s, d) }
            13 => { let d = Def { label: w.clone(), url: self.url(true), title: String::new() }; let n = self.note(); Piece { src: format!("[{w}]({})[^{n}]", d.url), out: format!("[{w}][][^{n}]"), defs: vec![d], notes: vec![n] } }
            _ => { let n = self.note(); let s = format!("{w}[^{n}]"); Piece { src: s.clone(), out: s, defs: vec![], notes: vec![n] } }
        }
    }
    fn prose(&mut self, hi: usize) -> Vec<Piece> {
        let n = self.r.range(1, hi);
        let i = self.id();
        let mut v = vec![Piece { src: format!("P{i}"), out: format!("P{i}"), ..Default::default() }];
        for _ in 0..n { let p = self.piece(); v.push(p); }
        v
    }
}
fn join(v: &[Piece], out: bool) -> String { v.iter().map(|p| if out { p.out.as_str() } else { p.src.as_str() }).collect::<Vec<_>>().join(" ") }
#[derive(Default)]
struct Pend { refs: Vec<Def>, notes: Vec<String>, done: HashSet<String>, done_notes: HashSet<String> }
fn order<T>(v: Vec<T>, num: impl Fn(&T) -> Option<u64>) -> Vec<T> {
    if v.iter().filter(|x| num(x).is_some()).count() < 2 { return v; }
    let (mut a, mut b) = (vec![], vec![]);
    for x in v { if num(&x).is_some() { b.push(x) } else { a.push(x) } }
    b.sort_by_key(|x| num(x));
    a.extend(b);
    a
}
impl Pend {
    fn add(&mut self, d: &Def) { if !self.done.contains(&norm(&d.label)) && !self.refs.iter().any(|x| norm(&x.label) == norm(&d.label)) { self.refs.push(d.clone()); } }
    fn take(&mut self, v: &[Piece]) {
        for p in v {
            for d in &p.defs { self.add(d); }
            for n in &p.notes { if !self.done_notes.contains(n) && !self.notes.contains(n) { self.notes.push(n.clone()); } }
        }
    }
    /// What stands at the end of the section.
    fn flush(&mut self, notes: &[(String, Vec<Piece>, bool)]) -> Vec<String> {
        let mut out = vec![];
        let names = std::mem::take(&mut self.notes);
        let mut note_defs: Vec<Def> = vec![];
        let all: Vec<&(String, Vec<Piece>, bool)> = names.iter().filter_map(|n| notes.iter().find(|x| x.0 == *n)).collect();
        for n in &all { for p in &n.1 { note_defs.extend(p.defs.iter().cloned()); } self.done_notes.insert(n.0.clone()); }
        let all = order(all, |x| x.0.parse().ok());
        if !all.is_empty() {
            out.push(all.iter().map(|(name, body, two)| {
                let b = join(body, true);
                if *two { format!("[^{name}]: {b}\n\n    second {name}\n") } else { format!("[^{name}]: {b}\n") }
            }).collect::<String>());
        }
        let refs = order(std::mem::take(&mut self.refs), |d| number(&d.label));
        for d in &refs { self.done.insert(norm(&d.label)); }
        if !refs.is_empty() { out.push(refs.iter().map(|d| d.line() + "\n").collect()); }
        let mut rest = vec![];
        for d in note_defs { if self.done.insert(norm(&d.label)) { rest.push(d); } }
        if !rest.is_empty() { out.push(rest.iter().map(|d| d.line() + "\n").collect()); }
        out
    }
}
fn exact_case(r: &mut Rng, with_notes: usize) -> Case {
    let mut o = hongdown::Options::default();
    opts::punct_off(&mut o);
    o.line_width = hongdown::LineWidth::new(4000).unwrap();
    let mut x = X { r, n: 9, known: vec![], notes: vec![], with_notes, in_note: false };
    let mut blocks: Vec<(u8, Vec<Piece>)> = vec![];
    let nb = x.r.range(1, 14);
    let mut prev = 99;
    for _ in 0..nb {
        // 1..6 headings, 10 paragraph, 11 list, 12 quote, 13 numbered list
        let k = loop { let k = *x.r.pick(&[1u8, 2, 2, 2, 3, 3, 4, 10, 10, 10, 10, 10, 11, 12, 13]); if !(k > 10 && prev > 10) { break k; } };
        prev = k;
        let v = if k < 10 { x.r.chance(25).then(|| x.prose(1)).unwrap_or_else(|| { let i = x.id(); vec![Piece { src: format!("H{i}"), out: format!("H{i}"), ..Default::default() }] }) } else { x.prose(6) };
        blocks.push((k, v));
    }
    // where the definitions stand in the source: any place between blocks
    let mut at: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut defs = x.known.clone();
    defs.sort_by_key(|d| norm(&d.label));
    defs.dedup_by_key(|d| norm(&d.label));
    for d in &defs {
        let p = x.r.range(0, nb);
        let s = match x.r.below(4) { 0 => Def { label: d.label.to_uppercase(), ..d.clone() }.line(), 1 => format!("  [{}]:   {}{}", d.label, d.url, if d.title.is_empty() { String::new() } else { format!("  '{}'", d.title) }), _ => d.line() };
        at.entry(p).or_default().push(s + "\n");
    }
    for (name, body, two) in &x.notes {
        let p = x.r.range(0, nb);
        let b = join(body, false);
        at.entry(p).or_default().push(if *two { format!("[^{name}]: {b}\n\n    second {name}\n") } else { format!("[^{name}]: {b}\n") });
    }
    let notes = x.notes.clone();
    let mut src = String::new();
    let mut out = String::new();
    let mut pend = Pend::default();
    for i in 0..=nb {
        if let Some(v) = at.get_mut(&i) {
            for k in (1..v.len()).rev() { let j = x.r.below(k + 1); v.swap(k, j); }
            for d in v.iter() { src.push_str(d); src.push('\n'); }
        }
        let Some((k, v)) = blocks.get(i) else { break };
        let (a, b) = (join(v, false), join(v, true));
        let (s, f) = match k {
            1 | 2 => { let c = if *k == 1 { "=" } else { "-" }; (if x.r.chance(50) { format!("{} {a}\n", "#".repeat(*k as usize)) } else { format!("{a}\n{}\n", c.repeat(3)) }, format!("{b}\n{}\n", c.repeat(unicode_width::UnicodeWidthStr::width(b.as_str())))) }
            3..=6 => (format!("{} {a}\n", "#".repeat(*k as usize)), format!("{} {b}\n", "#".repeat(*k as usize))),
            11 => (format!("* {a}\n"), format!(" -  {b}\n")),
            12 => (format!("> {a}\n"), format!("> {b}\n")),
            13 => (format!("1. {a}\n"), format!("1.  {b}\n")),
            _ => (format!("{a}\n"), format!("{b}\n")),
        };
        src.push_str(&s);
        src.push('\n');
        if i > 0 {
            if matches!(k, 2 | 3) { for b in pend.flush(&notes) { out.push('\n'); out.push_str(&b); } }
            out.push_str(if *k == 2 && blocks[i - 1].0 > 6 { "\n\n" } else { "\n" });
        }
        out.push_str(&f);
        pend.take(v);
    }
    for b in pend.flush(&notes) { out.push('\n'); out.push_str(&b); }
    // the parser stops resolving references when their targets exceed the size of the document
    let uses = blocks.iter().flat_map(|b| &b.1).chain(notes.iter().flat_map(|n| &n.1)).flat_map(|p| &p.defs).map(|d| d.url.len() + d.title.len()).sum::<usize>();
    if uses >= src.len().min(out.len()) { return Case::trivial(); }
    let mut c = Case::new(&src);
    c.ev("definitions placed", defs.len());
    c.ev("footnotes placed", notes.len());
    c.ev("sections", 1 + blocks.iter().skip(1).filter(|b| matches!(b.0, 2 | 3)).count());
    match util::fmt(&src, &o) {
        Err(e) => c.fail(e, src),
        Ok(have) => if have != out { c.fail("the document is not as the rules say", format!("{}\n--- input\n{src}", similar::TextDiff::from_lines(&out, &have).unified_diff().context_radius(2).header("rules", "output"))); }
    }
    c
}
pub fn c07(c: &mut Ctx) {
    let n = c.n(30000, 600000);
    c.section("exact", "documents of sections with reference, inline, automatic, image and badge links, titles, shared and numeric labels, definitions at any place in any order; the whole output must be what the placement rules give", n, |r, _| exact_case(r, 1));
    let n = c.n(6000, 200000);
    c.section("ledger", "documents of every kind: links in = links out, one definition per label, each in the section of its first use, after the footnotes, used by something, numbers ascending", n, |r, _| wide_case(r, refs_bad, &[F::LinkExt, F::LinkFull, F::LinkColl, F::LinkShort, F::ImgRef, F::LinkTitle, F::FootRef]));
}
pub fn c08(c: &mut Ctx) {
    let n = c.n(30000, 600000);
    c.section("exact", "documents of sections with footnotes of one or two paragraphs, shared, numeric and named, defined at any place, holding links; the whole output must be what the placement rules give", n, |r, _| exact_case(r, 8));
    let n = c.n(30000, 600000);
    c.section("ledger", "documents of every kind: footnote references and definitions in = out, one definition per name in the section of its first use, before reference definitions, numbers ascending", n, |r, _| wide_case(r, notes_bad, &[F::FootRef, F::LinkFull]));
}
