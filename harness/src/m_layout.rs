//! C10 headings and spacing, C11 lists, C12 tables.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::Punct;
use crate::rng::Rng;
use crate::{sem, util};
use comrak::nodes::{AstNode, ListType, NodeValue as V, TableAlignment as TA};
use hongdown::Options;
use unicode_width::UnicodeWidthStr;

fn kind<'a>(n: &'a AstNode<'a>) -> V { n.data.borrow().value.clone() }
fn path<'a>(n: &'a AstNode<'a>) -> String {
    let mut v: Vec<char> = n.ancestors().skip(1).filter_map(|a| Some(match a.data.borrow().value { V::List(_) => 'L', V::BlockQuote | V::Alert(_) => 'Q', V::DescriptionDetails => 'D', V::FootnoteDefinition(_) => 'F', _ => return None })).collect();
    v.reverse();
    v.into_iter().collect()
}
fn shrunk(d: &D, c: &mut Case, bad: &dyn Fn(&str) -> Option<String>) {
    if bad(&d.src).is_some() { let t = d.explain(bad); c.fail(t.lines().next().unwrap_or("").to_string(), t); }
}
// ---------------------------------------------------------------- C10
fn head_text<'a>(n: &'a AstNode<'a>) -> String {
    let mut t = String::new();
    for c in n.descendants() { match &c.data.borrow().value { V::Text(x) => t.push_str(x), V::Code(k) => t.push_str(&format!("`{}`", k.literal)), V::HtmlInline(h) => t.push_str(h), V::Link(l) | V::Image(l) => t.push_str(&format!("<{}>", l.url)), V::SoftBreak | V::LineBreak => t.push(' '), V::FootnoteReference(f) => t.push_str(&f.name), _ => {} } }
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn heads(md: &str) -> Vec<(u8, String, String)> {
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, md, &co);
    root.descendants().filter_map(|n| match kind(n) { V::Heading(h) => Some((h.level, head_text(n), path(n))), _ => None }).collect()
}
fn heads_bad(src: &str, o: &Options, c: Option<&mut Case>) -> Option<String> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let key = |v: Vec<(u8, String, String)>| { let mut v: Vec<_> = v.into_iter().map(|(l, t, p)| (p.contains('F'), l, t)).collect(); v.sort_by_key(|x| x.0); v };
    let (a, b) = (key(heads(src)), key(heads(&out)));
    if a != b { let d = a.iter().zip(&b).find(|(x, y)| x != y); return Some(format!("headings changed: {d:?} ({} before, {} after)", a.len(), b.len())); }
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, &out, &co);
    let lines: Vec<&str> = out.lines().collect();
    let mut n = [0usize; 3];
    for h in root.descendants() {
        let V::Heading(hd) = kind(h) else { continue };
        let p = h.data.borrow().sourcepos;
        let first = lines[p.start.line - 1];
        let from: String = first.chars().collect();
        let text = from.get(p.start.column - 1..).unwrap_or(&from).to_string();
        let empty = h.first_child().is_none();
        let under = (hd.level == 1 && o.setext_h1 || hd.level == 2 && o.setext_h2) && !empty;
        if hd.level > 2 && hd.setext { return Some("impossible".into()); }
        // a text that would itself start a block cannot be underlined
        let starter = text.trim_start_matches('#').trim_start().starts_with(|c: char| !c.is_alphanumeric());
        if under && !hd.setext && !starter && !text.trim_start_matches('#').trim_start().starts_with(|c: char| c.is_ascii_digit()) && !text.contains('|') { return Some(format!("a level {} heading is not underlined: {first:?}", hd.level)); }
        if !under && hd.setext { return Some(format!("a level {} heading is underlined: {first:?}", hd.level)); }
        if hd.setext {
            n[0] += 1;
            let last = lines[p.end.line - 1];
            let mark = if hd.level == 1 { '=' } else { '-' };
            let u = last.chars().rev().take_while(|c| *c == mark).count();
            if p.end.line != p.start.line + 1 { return Some(format!("an underlined heading takes {} lines: {first:?}", p.end.line - p.start.line + 1)); }
            if u != text.width() { return Some(format!("the underline of {text:?} has {u} columns, the text {}", text.width())); }
            let lead = &last[..last.len() - u];
            if lead.chars().any(|c| !matches!(c, ' ' | '>')) { return Some(format!("underline after {lead:?}")); }
        } else {
            n[1] += 1;
            let want = "#".repeat(hd.level as usize);
            if !text.starts_with(&want) || text[want.len()..].starts_with('#') || !empty && (!text[want.len()..].starts_with(' ') || text[want.len()..].starts_with("  ")) { return Some(format!("level {} heading written as {first:?}", hd.level)); }
            // closing marks would stand after a blank; `\#` is text
            if text.trim_end() != text { return Some(format!("blanks after the heading {first:?}")); }
            let body = text[want.len()..].trim_start();
            if body.trim_end_matches('#').ends_with(' ') && body.ends_with('#') || !body.is_empty() && body.chars().all(|c| c == '#') { return Some(format!("closing marks: {first:?}")); }
        }
    }
    // spacing of top-level blocks
    let mut pos = 0;
    let mut prev: Option<V> = None;
    let list_src = crate::m_layout::disabled(src);
    if !list_src {
        let mut blocks: Vec<_> = root.children().collect();
        blocks.sort_by_key(|b| b.data.borrow().sourcepos.start.line);
        let mut after_head = false;
        for b in blocks {
            let p = b.data.borrow().sourcepos;
            let v = kind(b);
            let (s, e) = (p.start.line - 1, end_line(b, &lines));
            let gap: Vec<&str> = lines[pos.min(s)..s].to_vec();
            let defs = gap.iter().any(|l| !l.is_empty());
            let trail = gap.iter().rev().take_while(|l| l.is_empty()).count();
            let lead = gap.iter().take_while(|l| l.is_empty()).count();
            let want = match (&prev, &v) {
                (None, _) if !defs => 0,
                (Some(V::FootnoteDefinition(_)), V::FootnoteDefinition(_)) if !defs => 99,
                // one more after content only
                (_, V::Heading(h)) if h.level == 2 && after_head => 1,
                (_, V::Heading(h)) if h.level == 2 => 2,
                _ => 1,
            };
            let front = matches!(prev, Some(V::FrontMatter(_)));
            if want != 99 && !front && (trail != want || defs && prev.is_some() && lead != 1) { return Some(format!("{} blank lines (expected {want}) before {:?}", trail, lines[s])); }
            n[2] += 1;
            pos = e;
            if !matches!(v, V::FootnoteDefinition(_)) { after_head = matches!(v, V::Heading(_)); }
            prev = Some(v);
        }
    }
    if let Some(c) = c { c.ev("underlined headings", n[0]); c.ev("prefixed headings", n[1]); c.ev("block gaps", n[2]); }
    None
}
pub fn disabled(src: &str) -> bool { src.contains("hongdown-disable") }
/// Index of the line after the block (comrak sometimes counts blank lines into a block).
fn end_line<'a>(b: &'a AstNode<'a>, lines: &[&str]) -> usize {
    let p = b.data.borrow().sourcepos;
    let mut e = p.end.line.min(lines.len());
    while e > p.start.line && lines[e - 1].is_empty() { e -= 1; }
    e
}
fn heads_case(r: &mut Rng) -> Case {
    let d = make(r, Punct::Off, true, |c, r| {
        c.f = if r.chance(60) { c.f.and(&[F::HeadInl, F::Cjk, F::Emoji, F::Comb]) } else { c.f };
        c.f = c.f.but(&[F::Sp2]);
        c.kinds.iter_mut().for_each(|k| if k.0 == K::Head { k.1 = 12; });
    });
    let mut c = Case::new(&d.key());
    if heads_bad(&d.src, &d.o, Some(&mut c)).is_some() { shrunk(&d, &mut c, &|s| heads_bad(s, &d.o, None)); }
    c
}
pub fn c10(c: &mut Ctx) {
    let n = c.n(60000, 1500000);
    c.section("headings", "documents full of headings of all levels and spellings with inline markup and wide text, every heading option: level, text, form, underline width, blank lines between blocks", n, |r, _| heads_case(r));
}
// ---------------------------------------------------------------- C11
#[derive(Debug, PartialEq, Clone)]
struct L { ordered: bool, tight: bool, items: Vec<(Option<bool>, Vec<String>)>, path: String }
fn lists(md: &str, expect: bool) -> Vec<L> {
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, md, &co);
    let mut v = vec![];
    for n in root.descendants() {
        let V::List(l) = kind(n) else { continue };
        let items: Vec<_> = n.children().map(|i| (match kind(i) { V::TaskItem(t) => Some(t.symbol.is_some()), _ => None }, i.children().map(|b| format!("{:?}", std::mem::discriminant(&kind(b)))).collect::<Vec<_>>())).collect();
        let spread = n.children().any(|i| i.children().skip(1).any(|b| !matches!(kind(b), V::List(_))));
        // the parser is of two minds about the tightness of lists with descriptions
        let desc = n.descendants().any(|x| matches!(kind(x), V::DescriptionList));
        // as it is where the marker is alone on its line, since blank lines after rules do not count
        let alone = n.children().any(|i| i.first_child().is_some_and(|b| matches!(kind(b), V::List(_) | V::ThematicBreak)));
        let desc = desc || alone && n.descendants().any(|b| matches!(kind(b), V::ThematicBreak));
        v.push(L { ordered: l.list_type == ListType::Ordered, tight: desc || l.tight && !(expect && spread), items, path: path(n) });
    }
    v.sort_by_key(|l| l.path.contains('F'));
    v
}
fn lists_bad(src: &str, o: &Options, c: Option<&mut Case>) -> Option<String> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let (a, b) = (lists(src, true), lists(&out, false));
    if a.len() != b.len() { return Some(format!("{} lists became {}", a.len(), b.len())); }
    for (x, y) in a.iter().zip(&b) { if x != y { return Some(format!("a list changed: {x:?} became {y:?}")); } }
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, &out, &co);
    let lines: Vec<&str> = out.lines().collect();
    let mut n = [0usize; 4];
    for l in root.descendants() {
        let V::List(nl) = kind(l) else { continue };
        let p = path(l);
        // nesting is counted from the innermost quote or description
        let depth = p.rsplit(['Q', 'D']).next().unwrap().matches('L').count() + 1;
        let ordered = nl.list_type == ListType::Ordered;
        for (i, it) in l.children().enumerate() {
            let sp = it.data.borrow().sourcepos;
            let line = lines[sp.start.line - 1];
            let (before, rest) = (&line[..sp.start.column - 1], &line[sp.start.column - 1..]);
            let marker = if ordered { format!("{}{}", i + 1, if depth % 2 == 1 { o.odd_level_marker.as_char() } else { o.even_level_marker.as_char() }) } else { o.unordered_marker.as_char().to_string() };
            if !rest.starts_with(&marker) { return Some(format!("item {} of a list at nesting level {depth} is written {line:?} (expected {marker:?})", i + 1)); }
            let gap = if ordered { o.ordered_list_indent_width.get().saturating_sub(marker.len()).max(1) } else { o.trailing_spaces.get() };
            let body = &rest[marker.len()..];
            let have = body.len() - body.trim_start_matches(' ').len();
            // an item that starts with a list or quote has its marker alone on the line
            if have != gap && !body.trim().is_empty() { return Some(format!("{have} blanks after the marker of {line:?} (expected {gap})")); }
            if let V::TaskItem(t) = kind(it) {
                n[2] += 1;
                let want = if t.symbol.is_some() { "[x] " } else { "[ ] " };
                if !body.trim_start().starts_with(want) { return Some(format!("task item written {line:?}")); }
            }
            // columns
            if !p.contains('D') {
                let own = if ordered { o.ordered_list_indent_width.get() } else { o.indent_width.get() };
                let lead = if ordered { 0 } else { o.leading_spaces.get() };
                let q = before.rfind('>');
                let blank = match q { Some(at) => before[at + 1..].strip_prefix(' ').unwrap_or(""), None => before };
                let note = if p.starts_with('F') && !p.contains('Q') { 4 } else { 0 };
                // numbers too wide for the indentation move what is in their items
                let mut extra = 0;
                for a in l.ancestors() {
                    match kind(a) {
                        V::BlockQuote | V::Alert(_) | V::DescriptionDetails => break,
                        V::Item(_) | V::TaskItem(_) => if let Some(V::List(x)) = a.parent().map(kind) && x.list_type == ListType::Ordered {
                            extra += ((a.preceding_siblings().count()).to_string().len() + 2).saturating_sub(o.ordered_list_indent_width.get());
                        },
                        _ => {}
                    }
                }
                let want = own * (depth - 1) + lead + note + extra;
                if !p.ends_with('Q') && p.contains('Q') && q.is_none() { return Some(format!("no quote mark before {line:?}")); }
                if blank.chars().any(|c| c != ' ') || blank.len() != want { return Some(format!("{} blanks before the marker of {line:?} (expected {want})", blank.len())); }
                // what follows in the item starts below its text
                let content = before.len() + marker.len() + gap;
                for b in it.children().skip(1) {
                    if matches!(kind(b), V::List(_)) { continue; }
                    let bp = b.data.borrow().sourcepos;
                    let l = lines[bp.start.line - 1];
                    let code = matches!(kind(b), V::CodeBlock(_) | V::HtmlBlock(_) | V::ThematicBreak);
                    let at = l.char_indices().find(|(k, c)| *k >= before.len() && *c != ' ').map(|x| x.0).unwrap_or(0);
                    n[3] += 1;
                    if !code && at != content { return Some(format!("a later block of an item starts in column {} instead of {}: {l:?}", at + 1, content + 1)); }
                }
            }
            n[ordered as usize] += 1;
        }
    }
    if let Some(c) = c { c.ev("bullet items", n[0]); c.ev("numbered items", n[1]); c.ev("task items", n[2]); c.ev("later blocks of items", n[3]); }
    None
}
fn lists_case(r: &mut Rng) -> Case {
    let d = make(r, Punct::Off, true, |c, r| {
        c.kinds.iter_mut().for_each(|k| if matches!(k.0, K::Ul | K::Ol) { k.1 = 12; });
        if r.chance(50) { c.kinds.retain(|k| matches!(k.0, K::Ul | K::Ol | K::Para | K::Quote | K::Code)); }
        c.max_depth = r.range(2, 5);
        c.words = (1, *r.pick(&[3, 12]));
        c.spice = 10;
        c.tight_pct = *r.pick(&[0, 50, 100]);
    });
    let mut c = Case::new(&d.key());
    if lists_bad(&d.src, &d.o, Some(&mut c)).is_some() { shrunk(&d, &mut c, &|s| lists_bad(s, &d.o, None)); }
    c
}
/// Long numbered lists: the blanks shrink as the numbers grow.
fn long_case(r: &mut Rng) -> Case {
    let mut o = crate::opts::random(r, Punct::Off, true);
    o.line_width = hongdown::LineWidth::new(80).unwrap();
    if r.chance(20) { o.ordered_list_indent_width = hongdown::IndentWidth::new(3).unwrap(); }
    let n = *r.pick(&[8usize, 9, 10, 11, 12, 99, 100, 101, 120]);
    let start = *r.pick(&[1usize, 1, 0, 3, 7, 95, 998]);
    let mut tight = r.chance(50);
    // items with more in them
    let mut more: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) { let v = (0..r.range(1, 2)).map(|_| r.below(7)).collect(); more.insert(if r.chance(50) { n - 1 - r.below(3) } else { r.below(n) }, v); }
    if o.ordered_list_indent_width.get() == 3 { more.values_mut().flatten().for_each(|k| if *k == 1 { *k = 0; }); }
    if more.values().flatten().any(|k| *k > 1) { tight = false; }
    let mut src = String::new();
    let d = if r.chance(50) { '.' } else { ')' };
    let deep = r.chance(25);
    for i in 0..n {
        let m = format!("{}{d} ", start + i);
        src.push_str(&format!("{m}word{i}\n"));
        let pad = " ".repeat(m.len());
        for k in more.get(&i).unwrap_or(&vec![]) {
            if !tight { src.push('\n'); }
            let b = match k { 0 => "1. inner\n2. inner\n".into(), 1 => "- bullet\n- bullet\n".into(), 2 => "para one\npara two\n".into(), 3 => "```\ncode\n```\n".into(), 4 => "> quote\n> quote\n".into(), 5 => "| a | b |\n| - | - |\n| c | d |\n".into(), _ => (1..=12).map(|x| format!("{x}. in {x}\n\n{}deep {x}\n\n", " ".repeat(if x > 9 { 4 } else { 3 }))).collect::<String>() };
            for l in b.lines() { if !l.is_empty() { src.push_str(&pad); src.push_str(l); } src.push('\n'); }
        }
        if !tight { src.push('\n'); }
    }
    // only a list that starts at 1 interrupts a paragraph
    if deep { let w = if tight && start == 1 { "" } else { "\n" }; src = format!("1. outer\n{w}{}", src.lines().map(|l| if l.is_empty() { "\n".into() } else { format!("   {l}\n") }).collect::<String>()); }
    let mut c = Case::new(&format!("{src}{o:?}"));
    c.ev("long lists", 1);
    c.ev("items with more in them", more.len());
    if let Some(w) = lists_bad(&src, &o, Some(&mut c)).or_else(|| crate::docs::sem_bad(&src, &o)).or_else(|| crate::docs::idem_bad(&src, &o)) { c.fail(w.clone(), format!("{w}\n--- input\n{src}--- options {o:?}")); }
    c
}
pub fn c11(c: &mut Ctx) {
    let n = c.n(60000, 1500000);
    c.section("lists", "documents of nested bullet, numbered and task lists with paragraphs, code, quotes and other blocks in items, inside and outside quotes, alerts, descriptions and notes, every list option: markers, numbers, delimiters, columns, tightness, structure", n, |r, _| lists_case(r));
    let n = c.n(3000, 60000);
    c.section("long lists", "numbered lists of up to 120 items from any start number", n, |r, _| long_case(r));
}
// ---------------------------------------------------------------- C12
fn cells(md: &str) -> Vec<(Vec<TA>, Vec<Vec<String>>)> {
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, md, &co);
    let mut v = vec![];
    for t in root.descendants() {
        let V::Table(tb) = kind(t) else { continue };
        let rows = t.children().map(|r| r.children().map(|c| { let mut s = String::new(); for x in c.descendants() { match &x.data.borrow().value { V::Text(x) => s.push_str(x), V::Code(k) => s.push_str(&format!("`{}`", k.literal)), V::HtmlInline(h) => s.push_str(h), V::Link(l) | V::Image(l) => s.push_str(&format!("<{} {}>", l.url, l.title)), V::Emph => s.push('*'), V::Strong => s.push_str("**"), V::FootnoteReference(f) => s.push_str(&f.name), _ => {} } } s }).collect()).collect();
        v.push((path(t).contains('F'), (tb.alignments.clone(), rows)));
    }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
fn split_pipes(l: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut esc = false;
    for c in l.chars() {
        if c == '|' && !esc { v.push(String::new()); } else { v.last_mut().unwrap().push(c); }
        esc = c == '\\' && !esc;
    }
    v
}
fn tables_bad(src: &str, o: &Options, c: Option<&mut Case>) -> Option<String> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let (a, b) = (cells(src), cells(&out));
    if a != b { let d = a.iter().zip(&b).find(|(x, y)| x != y); return Some(format!("tables changed ({} before, {} after): {d:?}", a.len(), b.len())); }
    let ar = comrak::Arena::new();
    let co = sem::comrak_options();
    let root = comrak::parse_document(&ar, &out, &co);
    let lines: Vec<&str> = out.lines().collect();
    let mut n = [0usize; 3];
    for t in root.descendants() {
        let V::Table(tb) = kind(t) else { continue };
        let sp = t.data.borrow().sourcepos;
        let rows = t.children().count();
        let mut widths: Option<Vec<usize>> = None;
        n[0] += 1;
        for i in 0..=rows {
            let l = lines[sp.start.line - 1 + i];
            let at = if i == 0 { sp.start.column - 1 } else { l.find('|')? };
            let seg = split_pipes(&l[at..]);
            if seg.len() != tb.alignments.len() + 2 || !seg[0].is_empty() || !seg.last().unwrap().is_empty() { return Some(format!("row {l:?} is not written as {} cells", tb.alignments.len())); }
            let w: Vec<usize> = std::iter::once(l[..at].width()).chain(seg[1..seg.len() - 1].iter().map(|s| s.width())).collect();
            // the first row may stand behind a list marker
            match &widths { None => widths = Some(w.clone()), Some(x) => if x[1..] != w[1..] || x[0] != w[0] { return Some(format!("pipes do not line up: {:?} under {:?}", l, lines[sp.start.line - 1])); } }
            for (k, s) in seg[1..seg.len() - 1].iter().enumerate() {
                n[1] += 1;
                let al = tb.alignments[k];
                if !s.starts_with(' ') || !s.ends_with(' ') { return Some(format!("a cell of {l:?} has no blanks around it")); }
                let body = &s[1..s.len() - 1];
                if i == 1 {
                    let want = match al { TA::Left => format!(":{}", "-".repeat(body.len().max(2) - 1)), TA::Right => format!("{}:", "-".repeat(body.len().max(2) - 1)), TA::Center => format!(":{}:", "-".repeat(body.len().max(3) - 2)), TA::None => "-".repeat(body.len()) };
                    if body != want || body.len() < 3 { return Some(format!("column {} of {l:?} does not carry its alignment {al:?}", k + 1)); }
                    continue;
                }
                let (lp, rp) = (body.len() - body.trim_start_matches(' ').len(), body.len() - body.trim_end_matches(' ').len());
                if body.trim().is_empty() { continue; }
                let ok = match al { TA::Right => rp == 0, TA::Center => rp == lp || rp == lp + 1, _ => lp == 0 };
                if !ok { return Some(format!("cell {body:?} is not aligned {al:?}")); }
            }
        }
        // as narrow as the content allows
        for k in 0..tb.alignments.len() {
            let w = widths.as_ref().unwrap()[k + 1] - 2;
            let need = (0..=rows).filter(|i| *i != 1).map(|i| { let l = lines[sp.start.line - 1 + i]; let at = if i == 0 { sp.start.column - 1 } else { l.find('|').unwrap() }; split_pipes(&l[at..])[k + 1].trim_matches(' ').width() }).max().unwrap_or(0).max(3);
            if w != need { return Some(format!("column {} is {w} wide, its content {need}: {:?}", k + 1, lines[sp.start.line - 1])); }
        }
        n[2] += rows;
    }
    if let Some(c) = c { c.ev("tables", n[0]); c.ev("cells", n[1]); c.ev("rows", n[2]); }
    None
}
fn tables_case(r: &mut Rng) -> Case {
    let d = make(r, Punct::Off, true, |c, r| {
        c.f = if r.chance(60) { c.f.and(&[F::TableInl, F::Cjk, F::Emoji, F::Comb, F::Pipe, F::CodeSpan]) } else { c.f };
        c.f = c.f.but(&[F::Sp2]);
        c.table_ragged = r.chance(50);
        c.kinds.iter_mut().for_each(|k| if k.0 == K::Table { k.1 = 25; });
        c.words = (1, 8);
    });
    let mut c = Case::new(&d.key());
    if tables_bad(&d.src, &d.o, Some(&mut c)).is_some() { shrunk(&d, &mut c, &|s| tables_bad(s, &d.o, None)); }
    c
}
/// Tables written cell by cell with hostile contents, escaped pipes first of all.
fn pipes_case(r: &mut Rng) -> Case {
    const BITS: &[&str] = &["a", "word", "\\|", "`x \\| y`", "`\\|`", "**b \\| c**", "\\\\", "한글", "日本", "e\u{301}", "✅", "⚠️", "👩\u{200d}💻", "*em*", "[t](./u)", "\\*", "&amp;", "<b>q</b>", "\"q\"", "--", "...", "#", "-", ":", ":-:", "`` ` ``", "\\\\\\|", "x\\|\\|y", "~", "$", "1."];
    let cols = r.range(1, 6);
    let rows = r.range(1, 6);
    let cell = |r: &mut Rng| -> String { if r.chance(12) { return String::new(); } let n = r.range(1, 4); (0..n).map(|_| *r.pick(BITS)).collect::<Vec<_>>().join(" ") };
    let head: Vec<String> = (0..cols).map(|_| cell(r)).collect();
    let pad = |r: &mut Rng, s: &str| format!("{}{s}{}", " ".repeat(r.range(1, 4)), " ".repeat(r.range(1, 4)));
    let mut src = String::new();
    let q = *r.pick(&["", "", "> ", "> > "]);
    src.push_str(&format!("{q}|{}|\n", head.iter().map(|x| pad(r, x)).collect::<Vec<_>>().join("|")));
    src.push_str(&format!("{q}|{}|\n", (0..cols).map(|_| format!("{}{}{}", r.pick(&["", ":"]), "-".repeat(r.range(1, 5)), r.pick(&["", ":"]))).collect::<Vec<_>>().join("|")));
    for _ in 0..rows {
        // short rows are padded with empty cells, further cells are dropped by Markdown itself
        let n = if r.chance(20) { r.range(1, cols) } else { cols };
        let mut v: Vec<String> = (0..n).map(|_| cell(r)).collect();
        if v.iter().all(|x| x.is_empty()) { v[0] = "k".into(); }
        src.push_str(&format!("{q}|{}|\n", v.iter().map(|x| pad(r, x)).collect::<Vec<_>>().join("|")));
    }
    let mut o = crate::opts::random(r, Punct::Off, true);
    o.line_width = hongdown::LineWidth::new(r.range(8, 100)).unwrap();
    let mut c = Case::new(&format!("{src}{o:?}"));
    if let Some(w) = tables_bad(&src, &o, Some(&mut c)) { c.fail(w.clone(), format!("{w}\n--- input\n{src}--- output\n{}", util::fmt(&src, &o).unwrap_or_default())); }
    c
}
pub fn c12(c: &mut Ctx) {
    let n = c.n(40000, 1200000);
    c.section("tables", "documents full of tables of any alignment and row length with inline markup and wide text, in every container: pipes in one column, delimiter row, cell alignment, column widths, every cell kept", n, |r, _| tables_case(r));
    let n = c.n(60000, 1500000);
    c.section("pipes", "tables of hostile cells: escaped pipes in and out of code, backslashes, wide and joined characters, empty cells, short rows", n, |r, _| pipes_case(r));
}
