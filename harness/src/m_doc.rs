//! C01 meaning, C02 idempotence, C15 concatenation, C16 respelling, C17 determinism.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;

fn judge(d: &D, bad: fn(&str, &hongdown::Options) -> Option<String>) -> Case {
    let mut c = Case::new(&d.key());
    census(&d.doc, &mut c);
    if bad(&d.src, &d.o).is_some() {
        let t = d.explain(&|s| bad(s, &d.o));
        c.fail(t.lines().next().unwrap_or("").to_string(), t);
    }
    c
}
fn families(c: &mut Ctx, bad: fn(&str, &hongdown::Options) -> Option<String>) {
    let n = c.n(60000, 1500000);
    c.section("documents", "random documents of every block and inline kind, nested up to four deep, random spelling, random layout and punctuation options", n, |r, _| {
        let layout = r.chance(80);
        let p = if r.chance(60) { Punct::AnyStable } else { Punct::Off };
        judge(&make(r, p, layout, |_, _| {}), bad)
    });
    let ps = paths(2);
    let n = ps.len() * c.n(30, 500);
    c.section("paths", "every block kind inside every container path of depth 0 to 2 (first, middle and last in its container)", n, |r, i| {
        let (p, k) = &ps[i % ps.len()];
        let lay = r.chance(60);
        let o = opts::random(r, Punct::AnyStable, lay);
        let mut f = if r.chance(50) { Feats::none().and(&[F::Soft]) } else { Feats::swarm(r) };
        f = f.without(F::Sp2);
        let Some(doc) = path_doc(r, p, *k, f) else { return Case::trivial() };
        let style = r.next();
        let src = render(&doc, style);
        judge(&D { doc, src, o, style }, bad)
    });
    let n = c.n(20000, 400000);
    c.section("inline", "one or two paragraphs, headings or cells with one inline feature in focus and narrow widths", n, |r, i| {
        let focus = ALL_F[i % ALL_F.len()];
        let lay = r.chance(50);
        let mut d = make(r, Punct::AnyStable, lay, |c, _| {
            c.f = Feats::none().and(&[F::Soft, F::HeadInl, F::TableInl, F::HeadEsc, focus]);
            c.spice = 50;
            c.kinds = vec![(K::Para, 4), (K::Head, 1), (K::Table, 1), (K::Ul, 1), (K::Quote, 1)];
            c.max_depth = 2;
            c.blocks = (1, 2);
        });
        if focus != F::Sp2 { d.o.line_width = hongdown::LineWidth::new(r.range(10, 60)).unwrap(); }
        judge(&d, bad)
    });
    let n = c.n(12000, 250000);
    c.section("sentence case", "documents formatted with sentence case on (letter case of headings folded)", n, |r, _| {
        let mut d = make(r, Punct::AnyStable, true, |c, _| { c.f = c.f.but(&[F::Quotes, F::LinkShort, F::LinkColl, F::LinkExt, F::Badge]); c.kinds = vec![(K::Head, 5), (K::Para, 3), (K::Ul, 1), (K::Quote, 1)]; });
        d.o.heading_sentence_case = true;
        judge(&d, bad)
    });
    let n = c.n(12000, 250000);
    c.section("ragged tables", "tables with rows shorter than the header", n, |r, _| {
        let d = make(r, Punct::AnyStable, true, |c, _| { c.table_ragged = true; c.kinds = vec![(K::Table, 4), (K::Para, 2), (K::Ul, 1), (K::Quote, 1)]; });
        judge(&d, bad)
    });
    let n = c.n(6000, 100000);
    c.section("front matter", "documents that start with a YAML front matter", n, |r, _| {
        let mut d = make(r, Punct::AnyStable, true, |c, _| { c.f = c.f.without(F::Sp2); });
        let l = front(r);
        d.doc.insert(0, Blk::Front(l));
        d.src = d.render(&d.doc);
        judge(&d, bad)
    });
}
/// Every short phrase of some pieces, many paragraphs to a document.
fn phrases(c: &mut Ctx, name: &str, pieces: &'static [&'static str], len: usize, o: fn(&mut Rng) -> hongdown::Options, bad: fn(&str, &hongdown::Options) -> Option<String>) {
    const PER: usize = 128;
    let total = pieces.len().pow(len as u32) * 3;
    let docs = total.div_ceil(PER);
    let rule = format!("every sequence of {len} of the pieces {pieces:?} between words, after one and as the end of a paragraph, {PER} paragraphs to a document");
    c.section(&format!("{name} of {len}"), &rule, docs, move |r, index| {
        let o = o(r);
        let lines: Vec<String> = (0..PER).map(|k| index + k * docs).filter(|i| *i < total).map(|i| {
            let p = crate::m_punct::phrase(pieces, i / 3, len);
            match i % 3 { 0 => format!("w {p} w"), 1 => format!("w{p}"), _ => format!("w {p}") }
        }).collect();
        let src = lines.join("\n\n") + "\n";
        let mut case = Case::new(&format!("{src}{o:?}"));
        case.ev("phrases", lines.len());
        if let Some(all) = bad(&src, &o) {
            // name the paragraph, if one fails on its own
            let one = lines.iter().find_map(|l| { let s = format!("{l}\n"); bad(&s, &o).map(|w| (s, w)) });
            let (s, w) = one.unwrap_or((src, all));
            case.fail(w.lines().next().unwrap_or("").to_string(), format!("{w}\n--- input\n{s}--- options {o:?}"));
        }
        case
    });
}
/// Every short document of some pieces, each on its own.
fn tiny(c: &mut Ctx, name: &str, pieces: &'static [&'static str], len: usize, bad: fn(&str, &hongdown::Options) -> Option<String>) {
    const PER: usize = 400;
    let total = pieces.len().pow(len as u32);
    let cases = total.div_ceil(PER);
    let rule = format!("every document of {len} of the pieces {pieces:?}, except those of known findings, {PER} to a case");
    c.section(&format!("{name} of {len}"), &rule, cases, move |_, index| {
        let o = hongdown::Options::default();
        let mut case = Case::new(&format!("{pieces:?}{len} {index}"));
        for i in (0..PER).map(|k| index + k * cases).filter(|i| *i < total) {
            let s = crate::m_punct::phrase(pieces, i, len) + "\n";
            if known_tiny(&s) { case.ev("documents of known findings left out", 1); continue; }
            case.ev("documents", 1);
            if let Some(w) = bad(&s, &o) { case.fail(w.lines().next().unwrap_or("").to_string(), format!("{w}\n--- input {s:?}\n{s}--- options {o:?}")); }
        }
        case
    });
}
/// The structures of known findings that tiny documents come by.
fn known_tiny(s: &str) -> bool {
    let l: Vec<&str> = s.lines().collect();
    // an empty description
    l.iter().any(|l| l.trim_end().ends_with(':') && !l.ends_with(':'))
        // footnotes nothing refers to, or more than one of a name
        || s.matches("[^1]:").count() > 1
        // lists that only a definition keeps apart
        || s.match_indices("]: ").any(|(i, _)| s[..i].contains("- c") && s[i..].contains("- c"))
        // a thematic break after a list whose marker stands alone
        || l.iter().any(|l| l.trim() == "- - -")
        // a hard break in a setext heading
        || (1..l.len()).any(|i| l[i - 1].trim_start().contains("  ") && l[i..].iter().any(|l| l.trim() == "-"))
        // a definition before an indented line that is a lazy one
        || s.contains("> [x]: ") && s.contains("\n    ")
        // a block quote whose text reads like the start of an alert
        || s.match_indices("[!").any(|(i, _)| {
            let before = &s[s[..i].rfind('\n').map_or(0, |n| n + 1)..i];
            let bare = before.trim_end_matches(' ');
            bare.ends_with('>') && before.len() != bare.len() + 1
        }) || (1..l.len()).any(|i| l[i].contains("> [!") && l[i - 1].trim_end().ends_with('>'))
}
const LINES: [&str; 16] = ["a", "\n", " ", "#", "-", "1.", ">", "|", ":", "=", "~~~", "    ", "\n\n", "[^1]", "[x]", "\t"];
const NESTED: [&str; 10] = ["- ", "> ", "\n", "a", "    ", "1. ", "# ", "```", "| a |", "\n\n"];
const DEFINED: [&str; 12] = ["a", "\n", ": b", "    ", "\n\n", "- c", "[x]: u", "> ", "![x]", "[x]", "[y][x]", "<http://a.b>"];
const NOTED: [&str; 10] = ["a", "\n", ": b", "    ", "\n\n", "- c", "[^1]: d", "> e", "# f", "[^1]"];
const ALERTED: [&str; 11] = ["a", "\n", "> [!NOTE]", "> ", "> a", ">", "- ", "    ", "\n\n", "[!TIP] b", "1. "];
const TARGETS: [&str; 13] = ["[a]", "(", "u", " ", "\"", ")", "<", ">", "\n", "\\", "!", "&amp;", "'"];
const CELLS: [&str; 12] = ["a", "\n", "| a ", "|", "-|", "\\", "`", ":", "- ", "    ", "\n\n", "[^1]"];
fn enumerated(c: &mut Ctx, bad: fn(&str, &hongdown::Options) -> Option<String>) {
    // one more piece, for exploration: minutes to an hour
    let deep = std::env::var("HDMON_DEEPER").is_ok() as usize;
    for len in 1..=4 + deep { phrases(c, "markup phrases", &MARKUP, len, default_opts, bad); }
    for len in 1..=4 + deep { tiny(c, "lines", &LINES, len, bad); }
    for len in 1..=5 + deep { tiny(c, "nested blocks", &NESTED, len, bad); }
    for len in 1..=4 + deep { tiny(c, "text and definitions", &DEFINED, len, bad); }
    for len in 1..=4 + deep { tiny(c, "text and footnotes", &NOTED, len, bad); }
    for len in 1..=4 + deep { tiny(c, "quotes and alerts", &ALERTED, len, bad); }
    for len in 1..=4 + deep { tiny(c, "links", &TARGETS, len, bad); }
    for len in 1..=4 + deep { tiny(c, "tables and code", &CELLS, len, bad); }
}
const MARKUP: [&str; 18] = ["a", "1", "é", " ", "*", "_", "`", "[", "]", "(", ")", "\\", "&", "<", ">", "!", "#", "|"];
fn default_opts(_: &mut Rng) -> hongdown::Options { hongdown::Options::default() }
fn quote_opts(r: &mut Rng) -> hongdown::Options { opts::random(r, Punct::AnyStable, false) }
pub fn front(r: &mut Rng) -> Vec<String> {
    // an empty front matter reads as a rule
    let n = r.range(0, 5);
    std::iter::once("id: 1".to_string()).chain((0..n).map(|i| {
        let base = ["title: \"It's -- a ... title\"", "tags: [a, b]", "# comment", "", "key:", "  - item", "url: https://example.com/a_b", "text: |", "  *x* 'y'", "date: 2024-01-01", "trailing:   ", "한글: 값", "a: '''"];
        if r.chance(20) { format!("k{i}: v") } else { r.pick(&base).to_string() }
    })).collect()
}
pub fn c01(c: &mut Ctx) {
    c.assumptions.push("comrak reads input and output alike; the generator stays outside the structures listed as known findings in DESIGN.md".into());
    families(c, sem_bad);
    enumerated(c, sem_bad);
}
pub fn c02(c: &mut Ctx) {
    c.assumptions.push("the generator stays outside the structures listed as known findings in DESIGN.md".into());
    families(c, idem_bad);
    for len in 1..=3 + std::env::var("HDMON_DEEPER").is_ok() as usize { phrases(c, "punctuation phrases", &crate::m_punct::PIECES, len, quote_opts, idem_bad); }
    enumerated(c, idem_bad);
}
