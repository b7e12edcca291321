//! C04 literal contents, C13 fences.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::Punct;
use crate::rng::Rng;
use crate::util;
use comrak::nodes::NodeValue as V;

const BITS: &[&str] = &["\"q\"", "'s'", "it's", "--", "---", "...", "*e*", "**s**", "_u_", "__", "[x]", "[a](b)", "![i](j)", "\\*", "\\", "\\\\", "&amp;", "&lt;", "<b>", "</b>", "<!-- c -->", "#", "## H", "- i", "1. n", "> q", ":", "a|b", "https://e.x/y", "www.e.x", "a@b.c", "한글", "日本語", "e\u{301}", "✅", "  ", "   ", "$x$", "{{v}}", "~t~", "^s^", "==m==", "“c”", "‘d’", "…", "—", "–", "[^1]", "[!NOTE]", "*[A]: b", "x = y;", "HTTP Server", "The END", "\u{a0}", "~~~", "----", "====", "+", "!", "?", "%20", "@", "\u{3000}", "e.g."];
/// Hostile literal text on one line, with a token of its own.
fn hostile(r: &mut Rng, id: usize, no: &[&str]) -> String {
    let n = *r.pick(&[1usize, 2, 4, 12, 40]);
    let mut s = format!("zq{id}z");
    for _ in 0..n {
        let b = *r.pick(BITS);
        if no.iter().any(|x| b.contains(x)) { continue; }
        s.push_str(if r.chance(40) { "" } else { " " });
        s.push_str(b);
    }
    s
}
#[derive(Default)]
pub struct Ledger { id: usize, pub code: Vec<(String, String)>, pub spans: Vec<String>, pub html: Vec<String>, pub blocks: Vec<String>, pub auto: Vec<String> }
impl Ledger {
    fn inl(&mut self, r: &mut Rng, v: &mut [Inl], cell: bool) {
        for x in v {
            match x {
                Inl::Code(c) => {
                    self.id += 1;
                    let mut s = hostile(r, self.id, if cell { &["|"] } else { &[] });
                    if r.chance(20) { s.push_str(*r.pick(&["`t", " `` x", "```js", "` "])); s.push('e'); }
                    if r.chance(10) { s = format!("`{s}"); }
                    *c = s.trim_end().to_string();
                    self.spans.push(c.clone());
                }
                Inl::Html(h) => {
                    self.id += 1;
                    *h = match r.below(4) {
                        0 => format!("<b class=\"{}\">", hostile(r, self.id, &["\"", "|", ">", "<"])),
                        1 => format!("<!-- {} -->", hostile(r, self.id, &["--", ">", "|"])),
                        2 => format!("<img alt='{}' src=a_b_c/>", hostile(r, self.id, &["'", "|", ">", "<"])),
                        _ => format!("<kbd data-x=zq{}z>", self.id),
                    };
                    self.html.push(h.clone());
                }
                Inl::Auto(u) => {
                    self.id += 1;
                    let t = self.id;
                    *u = match r.below(3) { 0 => format!("https://e.x/zq{t}z/a_b--c...d?q='1'&r=(2)"), 1 => format!("mailto:zq{t}z@example.com"), _ => format!("http://e.x/zq{t}z*a*/__b__#~f") };
                    self.auto.push(u.clone());
                }
                Inl::Em(x) | Inl::Strong(x) | Inl::Link(_, x, _) => self.inl(r, x, cell),
                _ => {}
            }
        }
    }
    pub fn blocks(&mut self, r: &mut Rng, v: &mut [Blk]) {
        for b in v {
            match b {
                Blk::Head(_, x) | Blk::Para(x) => self.inl(r, x, false),
                Blk::List { items, .. } => for i in items { self.blocks(r, &mut i.blocks) },
                Blk::Quote(x) | Blk::Alert(_, _, x) | Blk::FootDef(_, x) => self.blocks(r, x),
                Blk::Desc(x) => for (t, d) in x { self.inl(r, t, false); self.blocks(r, d) },
                Blk::Table { rows, .. } => for row in rows { for c in row { self.inl(r, c, true) } },
                Blk::Code(info, lines, ind) => {
                    self.id += 1;
                    let n = *r.pick(&[1usize, 1, 3, 8]);
                    let id = self.id;
                    *lines = (0..n).map(|k| {
                        if k > 0 && k + 1 < n && r.chance(15) { return String::new(); }
                        if !*ind && k > 0 && r.chance(6) { return r.pick(&[" ", "   ", "      ", "\t", " \t "]).to_string(); }
                        let ind = *r.pick(&["", "", "  ", "    ", "\t", "      "]);
                        let fence = if r.chance(20) { r.pick(&["~~~", "~~~~", "~~~~~~ x", "```", "`````", "````````", "~~~~~~~~~", "   ~~~~", "```` `"]).to_string() } else { hostile(r, id * 100 + k, &[]) };
                        let tail = if r.chance(10) { "  " } else { "" };
                        if k == 0 { hostile(r, id * 100, &[]) } else { format!("{ind}{fence}{tail}") }
                    }).collect();
                    if *ind { while lines.last().is_some_and(|x| x.trim().is_empty()) { lines.pop(); } }
                    self.code.push((if *ind { String::new() } else { info.clone() }, lines.iter().map(|l| format!("{l}\n")).collect()));
                }
                Blk::Html(lines) => {
                    self.id += 1;
                    let id = self.id;
                    *lines = match r.below(5) {
                        0 => vec![format!("<!-- {} -->", hostile(r, id, &["--", ">"]))],
                        1 => vec!["<!--".into(), hostile(r, id, &["--", ">"]), format!("  {}", hostile(r, id, &["--", ">"])), "-->".into()],
                        2 => vec![format!("<div id=\"zq{id}z\">"), format!("  <p>{}</p>", hostile(r, id, &["  ", "   "])), "</div>".into()],
                        3 => vec![format!("<pre zq{id}z>"), hostile(r, id, &[]), "".into(), "\t x".into(), "</pre>".into()],
                        _ => vec![format!("<table><tr><td>{}</td></tr></table>", hostile(r, id, &["</"]))],
                    };
                    self.blocks.push(lines.join("\n"));
                }
                _ => {}
            }
        }
    }
}
/// The literals of a formatted text, as a Markdown reader sees them.
fn seen(out: &str) -> Ledger {
    let ar = comrak::Arena::new();
    let co = crate::sem::comrak_options();
    let mut l = Ledger::default();
    for n in comrak::parse_document(&ar, out, &co).descendants() {
        match &n.data.borrow().value {
            V::CodeBlock(c) => l.code.push((c.info.clone(), c.literal.clone())),
            V::Code(c) => l.spans.push(c.literal.clone()),
            V::HtmlInline(h) => l.html.push(h.clone()),
            V::HtmlBlock(h) => l.blocks.push(h.literal.trim_end_matches('\n').to_string()),
            V::Link(k) => l.auto.push(k.url.clone()),
            _ => {}
        }
    }
    l
}
fn missing<T: Ord + Clone + std::fmt::Debug>(want: &[T], have: &[T]) -> Option<T> {
    let mut h = have.to_vec();
    h.sort();
    let mut w = want.to_vec();
    w.sort();
    let mut i = 0;
    for x in w {
        while i < h.len() && h[i] < x { i += 1; }
        if i < h.len() && h[i] == x { i += 1; } else {
            if std::env::var("LOUD").is_ok() {
                let d = format!("{x:?}");
                let tok: String = d.split("zq").nth(1).unwrap_or("").chars().take_while(|c| *c != 'z').collect();
                for y in have { let y = format!("{y:?}"); if y.contains(&format!("zq{tok}z")) { println!("WANT {d}\nHAVE {y}"); } }
            }
            return Some(x);
        }
    }
    None
}
fn literal_doc(r: &mut Rng) -> (D, Ledger) {
    let sc = r.chance(30);
    let pu = *r.pick(&[Punct::Off, Punct::Default, Punct::Any, Punct::Any]);
    let mut d = make(r, pu, true, |c, _| {
        c.f = c.f.and(&[F::CodeSpan, F::HtmlInl, F::Auto]);
        c.kinds = vec![(K::Para, 4), (K::Head, 2), (K::Ul, 3), (K::Ol, 2), (K::Quote, 2), (K::Alert, 1), (K::Code, 4), (K::IndCode, 2), (K::Html, 3), (K::Table, 2), (K::Desc, 1)];
        c.spice = 40;
    });
    d.o.heading_sentence_case = sc;
    if r.chance(40) { d.o.heading_proper_nouns = vec!["HTTP".into(), "zq".into()]; d.o.heading_common_nouns = vec!["Server".into(), "END".into()]; }
    let mut l = Ledger::default();
    let mut doc = std::mem::take(&mut d.doc);
    l.blocks(r, &mut doc);
    d.doc = doc;
    if r.chance(25) { d.doc.insert(0, Blk::Front(crate::m_doc::front(r))); }
    d.src = d.render(&d.doc);
    (d, l)
}
fn c04_case(r: &mut Rng) -> Case {
    let (d, l) = literal_doc(r);
    let mut c = Case::new(&d.key());
    c.ev("code blocks", l.code.len());
    c.ev("code spans", l.spans.len());
    c.ev("inline tags", l.html.len());
    c.ev("html blocks", l.blocks.len());
    c.ev("autolinks", l.auto.len());
    // the generated text must itself hold what the ledger says (spellings Markdown reads otherwise are dropped)
    let Some(why) = c04_bad(&d, &l, &d.src, &d.src, false).is_none().then(|| util::fmt(&d.src, &d.o)) else { return Case::trivial() };
    let out = match why { Ok(o) => o, Err(e) => { c.fail(e, d.key()); return c; } };
    if let Some(w) = c04_bad(&d, &l, &d.src, &out, true) { c.fail(w.clone(), format!("{w}\n--- input\n{}--- output\n{out}--- options {:?}", d.src, d.o)); }
    c
}
fn c04_bad(d: &D, l: &Ledger, src: &str, out: &str, raw: bool) -> Option<String> {
    let s = seen(out);
    let bodies = |l: &Ledger| l.code.iter().map(|c| c.1.clone()).collect::<Vec<_>>();
    if let Some(x) = missing(&bodies(l), &bodies(&s)) { return Some(format!("code block content changed or lost: {x:?}")); }
    if let Some(x) = missing(&l.spans, &s.spans) { return Some(format!("code span changed or lost: {x:?}")); }
    if let Some(x) = missing(&l.html, &s.html) { return Some(format!("inline HTML changed or lost: {x:?}")); }
    if let Some(x) = missing(&l.blocks, &s.blocks) { return Some(format!("HTML block changed or lost: {x:?}")); }
    if let Some(x) = missing(&l.auto, &s.auto) { return Some(format!("autolink changed or lost: {x:?}")); }
    if let Some(Blk::Front(f)) = d.doc.first() {
        let t = format!("---\n{}\n---\n", f.join("\n"));
        if !out.starts_with(&t) { return Some(format!("front matter changed: {t:?}")); }
    }
    if raw {
        // the same, byte for byte in the text
        for c in &l.code { for x in c.1.lines() { if !x.trim().is_empty() && !out.lines().any(|o| o.ends_with(x)) { return Some(format!("code line not in the output as written: {x:?}")); } } }
        for x in l.spans.iter().chain(&l.html) { if src.contains(x.as_str()) && !out.contains(x.as_str()) { return Some(format!("not in the output as written: {x:?}")); } }
        for x in &l.auto { if !out.contains(&format!("<{x}>")) { return Some(format!("autolink not in the output as written: {x:?}")); } }
        for b in &l.blocks { for x in b.lines() { if !x.trim().is_empty() && !out.lines().any(|o| o.ends_with(x)) { return Some(format!("HTML line not in the output as written: {x:?}")); } } }
    }
    None
}
pub fn c04(c: &mut Ctx) {
    c.assumptions.push("comrak reads the output as other Markdown readers do".into());
    let n = c.n(60000, 2000000);
    c.section("ledger", "documents whose code, HTML, autolinks and front matter hold hostile text with unique tokens, in every container; each literal must be found again, parsed and byte for byte", n, |r, _| c04_case(r));
}

// ---------------------------------------------------------------- C13
fn c13_case(r: &mut Rng) -> Case {
    let (mut d, mut l) = literal_doc(r);
    // more fences, odd info strings
    let mut doc = std::mem::take(&mut d.doc);
    fn infos(r: &mut Rng, v: &mut [Blk]) {
        for b in v {
            match b {
                Blk::Code(info, lines, false) => {
                    *info = r.pick(&["", "", "rust", "rust,ignore", "sh -x \"a\"", "{.py #id}", "c++", "한", "text hongdown-no-format", "rust `x`", "diff ~~", "ts title=\"a  b\""]).to_string();
                    if info.is_empty() && r.chance(30) { *info = String::new(); }
                    for x in lines.iter_mut().skip(1) { if r.chance(30) { let k = r.range(2, 12); let f = r.pick(&["~", "`"]).repeat(k); let p = r.pick(&["", " ", "   ", "     ", "x "]).to_string(); let t = r.pick(&["", " ", " x", "y"]).to_string(); *x = format!("{p}{f}{t}"); } }
                }
                Blk::List { items, .. } => for i in items { infos(r, &mut i.blocks) },
                Blk::Quote(x) | Blk::Alert(_, _, x) | Blk::FootDef(_, x) => infos(r, x),
                Blk::Desc(x) => for (_, d) in x { infos(r, d) },
                _ => {}
            }
        }
    }
    infos(r, &mut doc);
    d.doc = doc;
    l = { let mut l2 = Ledger::default(); collect(&d.doc, &mut l2); let _ = l; l2 };
    d.o.default_language = r.pick(&["", "", "text", "plain x"]).to_string();
    let style = r.next();
    let src = fence_safe(&d.doc, style);
    let mut c = Case::new(&format!("{src}{:?}", d.o));
    let bodies: Vec<String> = l.code.iter().map(|c| c.1.clone()).collect();
    let s = seen(&src);
    if missing(&bodies, &s.code.iter().map(|c| c.1.clone()).collect::<Vec<_>>()).is_some() || bodies.is_empty() || bodies.len() != s.code.len() { return Case::trivial(); }
    c.ev("code blocks", l.code.len());
    let out = match util::fmt(&src, &d.o) { Ok(o) => o, Err(e) => { c.fail(e, src); return c; } };
    if let Some(w) = c13_bad(&l, &out, &d.o) { c.fail(w.clone(), format!("{w}\n--- input\n{src}--- output\n{out}--- options {:?}", d.o)); }
    c
}
fn collect(v: &[Blk], l: &mut Ledger) {
    for b in v {
        match b {
            Blk::Code(info, lines, ind) => l.code.push((if *ind { String::new() } else { info.clone() }, lines.iter().map(|l| format!("{l}\n")).collect())),
            Blk::List { items, .. } => for i in items { collect(&i.blocks, l) },
            Blk::Quote(x) | Blk::Alert(_, _, x) | Blk::FootDef(_, x) => collect(x, l),
            Blk::Desc(x) => for (_, d) in x { collect(d, l) },
            _ => {}
        }
    }
}
/// Info strings with backticks need a tilde fence in the source.
fn fence_safe(doc: &[Blk], style: u64) -> String { render(doc, style) }
fn c13_bad(l: &Ledger, out: &str, o: &hongdown::Options) -> Option<String> {
    let ar = comrak::Arena::new();
    let co = crate::sem::comrak_options();
    let root = comrak::parse_document(&ar, out, &co);
    let lines: Vec<&str> = out.lines().collect();
    let mut found: Vec<(String, String)> = vec![];
    for n in root.descendants() {
        let data = n.data.borrow();
        let V::CodeBlock(c) = &data.value else { continue };
        if !c.fenced { return Some(format!("a code block is not fenced: {:?}", c.literal)); }
        let (a, b) = (data.sourcepos.start.line, data.sourcepos.end.line);
        let open = &lines[a - 1][data.sourcepos.start.column - 1..];
        let close = lines[b - 1];
        let want = if c.info.contains('`') { '~' } else { o.fence_char.as_char() };
        let len = open.chars().take_while(|x| *x == want).count();
        if len == 0 { return Some(format!("fence of the wrong character: {open:?}")); }
        let longest = c.literal.lines().map(|x| { let t = x.trim_start(); t.chars().take_while(|y| *y == want).count() }).max().unwrap_or(0);
        let min = o.min_fence_length.get();
        if len < min { return Some(format!("fence of {len} is shorter than the configured {min}: {open:?}")); }
        if len <= longest { return Some(format!("fence of {len} is not longer than the run of {longest} in the code: {open:?}")); }
        if len != min.max(longest + 1) { return Some(format!("fence of {len} where {} would do: {open:?}", min.max(longest + 1))); }
        let fence: String = std::iter::repeat_n(want, len).collect();
        if !close.ends_with(&fence) || close.ends_with(&format!("{want}{fence}")) { return Some(format!("closing fence {close:?} differs from {fence:?}")); }
        let rest = &open[len..];
        let info = if rest.is_empty() { "" } else if o.space_after_fence {
            match rest.strip_prefix(' ') { Some(x) => x, None => return Some(format!("no space after the fence: {open:?}")) }
        } else { rest };
        if info != info.trim() { return Some(format!("info string with outer blanks: {open:?}")); }
        found.push((info.to_string(), c.literal.clone()));
    }
    let want: Vec<(String, String)> = l.code.iter().map(|(i, b)| (if i.is_empty() { o.default_language.clone() } else { i.clone() }, b.clone())).collect();
    missing(&want, &found).map(|x| format!("code block not found with this info string: {x:?}")).or_else(|| (want.len() != found.len()).then(|| format!("{} code blocks in the input, {} in the output", want.len(), found.len())))
}
pub fn c13(c: &mut Ctx) {
    c.assumptions.push("comrak finds the fences of the output".into());
    let n = c.n(60000, 2000000);
    c.section("fences", "documents with code in every container, whose lines hold runs of both fence characters, with and without info strings", n, |r, _| c13_case(r));
}
