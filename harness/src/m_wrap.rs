//! C09: line width and filling.
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::util;
use unicode_width::UnicodeWidthStr;

/// An unbreakable piece of prose as it stands in the output, and the blanks behind it.
#[derive(Clone, Debug)]
struct Tok { out: String, gap: usize }
/// A paragraph: segments between hard breaks, each made of source lines.
struct Par { id: usize, inl: Vec<Inl>, segs: Vec<Vec<Vec<Tok>>>, ctx: Ctxt }
/// How the first line of a paragraph is measured.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctxt { /// with its prefix
    Plain, /// without the marker before it
    Item, /// with its prefix; the source lines are not kept
    Note }

const CJK: &[&str] = &["한글", "문서는", "日本語", "中文", "漢字です", "안녕", "全角ｶﾅ", "ﾊﾝｶｸ"];
const ODD: &[&str] = &["cafe\u{301}", "e\u{301}e\u{308}", "✅", "⚠️", "👩\u{200d}💻", "🇰🇷", "naïve", "Ⅷ", "ｆｕｌｌ", "и", "λόγος", "שלום", "ไทย"];
const BLK: &[&str] = &["-", "+", "1.", "2)", "10.", "#", "##", "=", "==", "---", ">", ":"];

struct W<'a> { r: &'a mut Rng, id: usize, ext: usize, refs: bool, script: usize }
impl W<'_> {
    fn word(&mut self) -> String {
        let r = &mut *self.r;
        match r.below(100) {
            0..=1 => "x".repeat(r.range(20, 90)),
            2..=9 => (*r.pick(ODD)).to_string(),
            x if x < 10 + self.script => { let n = r.range(1, 3); (0..n).map(|_| *r.pick(CJK)).collect() }
            _ => { let n = r.range(1, 12); (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() }
        }
    }
    /// (as written, as put out)
    fn tok(&mut self) -> (String, String) {
        let same = |s: String| (s.clone(), s);
        self.id += 1;
        let i = self.id;
        let (a, b) = (self.word(), self.word());
        match self.r.below(40) {
            0 | 1 => same(format!("`{a} {b}`")),
            2 => same(format!("``{a} ` {b}``,")),
            3 | 4 => same(format!("[{a} {b}](./t{i}.md)")),
            5 => same(format!("[{a}](./t{i}.md \"{a} title\")")),
            6 => same(format!("<b class=\"{a} {i}\">{b}</b>")),
            7 => same(format!("![{a} {b}](./i{i}.png)")),
            8 => same(format!("<https://example.com/{i}/{}>", "p".repeat(self.r.range(1, 30)))),
            9 if self.refs => { self.ext += 1; (format!("[k{i} {a}](https://e.x/{i})"), format!("[k{i} {a}]")) }
            10 => same(format!("**{a}**")),
            11 => same(format!("({a},")),
            12 => same(format!("*{a}*;")),
            13 => same(format!("`{a}`-{b}")),
            14 => same(format!("[`{a} x`](./t{i}.md)")),
            _ => same(if self.r.chance(15) { format!("{a}{}", self.r.pick(&[",", ".", ";", "?"])) } else { a }),
        }
    }
    fn par(&mut self, ctx: Ctxt) -> Par {
        self.id += 1;
        let id = self.id;
        let (mut inl, mut segs) = (vec![Inl::W(format!("Pq{id}x"))], vec![vec![vec![Tok { out: format!("Pq{id}x"), gap: 0 }]]]);
        let n = *self.r.pick(&[1usize, 4, 10, 25, 60]);
        let n = self.r.range(1, n);
        let style = self.r.below(4);
        let mut emph = 0;
        for k in 0..=n {
            let (src, out) = if k == n { (format!("zq{id}"), format!("zq{id}")) } else { self.tok() };
            let line = segs.last_mut().unwrap().last_mut().unwrap();
            let brk = match style { 0 => 0, 1 => 6, 2 => 12, _ => 30 };
            // a paragraph that begins with a marker-like word would be none
            if k < n && self.r.chance(3) && !line.is_empty() {
                // would start a block at the start of a line: stays with the word before it
                let b = *self.r.pick(BLK);
                let l = line.last_mut().unwrap();
                l.out.push(' ');
                l.out.push_str(b);
                inl.push(Inl::Sp);
                inl.push(Inl::W(b.into()));
            }
            let last = line.last_mut().unwrap();
            // a line must not end in what would be closed or escaped by the break
            if self.r.chance(brk) { inl.push(Inl::Soft); last.gap = 0; segs.last_mut().unwrap().push(vec![]); }
            else if ctx != Ctxt::Note && self.r.chance(2) && emph == 0 { inl.push(Inl::Hard); last.gap = 0; segs.push(vec![vec![]]); }
            else if self.r.chance(4) { inl.push(Inl::Sp2); last.gap = 2; }
            else { inl.push(Inl::Sp); last.gap = 1; }
            emph = 0;
            inl.push(Inl::W(src));
            segs.last_mut().unwrap().last_mut().unwrap().push(Tok { out, gap: 0 });
        }
        Par { id, inl, segs, ctx }
    }
}
fn width(l: &[Tok]) -> usize { let n = l.len(); l.iter().enumerate().map(|(i, t)| t.out.width() + if i + 1 < n { t.gap } else { 0 }).sum() }
fn text(l: &[Tok]) -> String { let n = l.len(); l.iter().enumerate().map(|(i, t)| format!("{}{}", t.out, " ".repeat(if i + 1 < n { t.gap } else { 0 }))).collect() }
/// The lines of a segment, given the columns its first and its other lines start at.
fn fill(lines: &[Vec<Tok>], first: usize, cont: usize, w: usize) -> Vec<Vec<Tok>> {
    let mut out: Vec<Vec<Tok>> = vec![];
    for (i, l) in lines.iter().enumerate() {
        let p = if out.is_empty() { first } else { cont };
        if lines.len() > 1 && p + width(l) <= w { out.push(l.clone()); continue; }
        // from the first line that is too long on, everything is filled
        let mut toks: Vec<Tok> = vec![];
        for (j, m) in lines[i..].iter().enumerate() {
            if j > 0 { toks.last_mut().unwrap().gap = 1; }
            toks.extend(m.iter().cloned());
        }
        let mut cur: Vec<Tok> = vec![];
        let (mut at, mut first_line) = (p, true);
        let n = toks.len();
        for (k, t) in toks.into_iter().enumerate() {
            let gap = if k + 1 == n { 0 } else { t.gap };
            let need = t.out.width() + gap;
            if !cur.is_empty() && at + need > w { out.push(std::mem::take(&mut cur)); first_line = false; at = cont; }
            let _ = first_line;
            at += need;
            cur.push(t);
        }
        out.push(cur);
        break;
    }
    out
}
fn block(w: &mut W, depth: usize, ctx: Ctxt, pars: &mut Vec<Par>, d: &mut Vec<Blk>) {
    let mut p = |w: &mut W, d: &mut Vec<Blk>, ctx: Ctxt| { let x = w.par(ctx); d.push(Blk::Para(x.inl.clone())); pars.push(x); };
    if depth == 0 || w.r.chance(30) { for _ in 0..w.r.range(1, 2) { p(w, d, ctx); } return; }
    match w.r.below(6) {
        0 | 1 => {
            let (ordered, n) = (w.r.chance(50), w.r.range(1, 3));
            let mut items = vec![];
            for _ in 0..n {
                let mut b = vec![];
                let x = w.par(Ctxt::Item);
                b.push(Blk::Para(x.inl.clone()));
                pars.push(x);
                if w.r.chance(50) { block(w, depth - 1, Ctxt::Item, pars, &mut b); }
                items.push(Item { task: if w.r.chance(20) { Some(w.r.chance(50)) } else { None }, blocks: b });
            }
            d.push(Blk::List { ordered, tight: false, start: 1, items });
        }
        2 | 3 => { let mut v = vec![]; block(w, depth - 1, Ctxt::Plain, pars, &mut v); d.push(Blk::Quote(v)); }
        4 => { let mut v = vec![]; block(w, depth - 1, Ctxt::Plain, pars, &mut v); d.push(Blk::Alert("NOTE", false, v)); }
        _ => { for _ in 0..w.r.range(1, 2) { p(w, d, ctx); } }
    }
}
fn wrap_case(r: &mut Rng) -> Case {
    let mut o = opts::random(r, Punct::Off, true);
    let lw = match r.below(5) { 0 => r.range(8, 20), 1 => r.range(20, 40), 2 => 80, 3 => r.range(40, 100), _ => r.range(100, 200) };
    o.line_width = hongdown::LineWidth::new(lw).unwrap();
    let script = *r.pick(&[0usize, 0, 20, 70]);
    let mut w = W { r, id: 0, ext: 0, refs: true, script };
    let mut pars = vec![];
    let mut doc = vec![];
    for _ in 0..w.r.range(1, 4) {
        match w.r.below(10) {
            0 => {
                // a note: always filled, and its label counts
                w.refs = false;
                let n = format!("n{}", w.id);
                let x = w.par(Ctxt::Note);
                w.refs = true;
                doc.push(Blk::Para(vec![Inl::W("k".into()), Inl::Foot(n.clone())]));
                doc.push(Blk::FootDef(n, vec![Blk::Para(x.inl.clone())]));
                pars.push(x);
            }
            1 => {
                let x = w.par(Ctxt::Item);
                doc.push(Blk::Head(3, vec![Inl::W("k".into())]));
                doc.push(Blk::Desc(vec![(vec![Inl::W("term".into())], vec![Blk::Para(x.inl.clone())])]));
                pars.push(x);
                doc.push(Blk::Head(3, vec![Inl::W("k".into())]));
            }
            _ => { let d = w.r.below(4); block(&mut w, d, Ctxt::Plain, &mut pars, &mut doc); }
        }
    }
    // two lists in a row are one
    let mut i = 1;
    while i < doc.len() { if !may_follow(kind_of(&doc[i - 1]), kind_of(&doc[i]).unwrap_or(K::Para)) { doc.insert(i, Blk::Head(3, vec![Inl::W("k".into())])); } i += 1; }
    let src = Style { r: &mut *w.r, vary: true, flush: false }.doc(&doc);
    let mut c = Case::new(&format!("{src}\nwidth {lw}"));
    let out = match util::fmt(&src, &o) { Ok(x) => x, Err(e) => { c.fail(e, src); return c; } };
    let lines: Vec<&str> = out.lines().collect();
    for p in &pars {
        let (s, e) = (format!("Pq{}x", p.id), format!("zq{}", p.id));
        let Some(a) = lines.iter().position(|l| l.split_whitespace().any(|x| x == s)) else { c.fail("a paragraph is missing", format!("{s}\n{src}--- output\n{out}")); return c; };
        let Some(b) = (a..lines.len()).find(|i| lines[*i].split_whitespace().any(|x| x == e)) else { c.fail("the end of a paragraph is missing", format!("{e}\n{src}--- output\n{out}")); return c; };
        let pre = &lines[a][..lines[a].find(&s).unwrap()];
        let lead = |l: &str| -> String { l.chars().take_while(|c| matches!(c, ' ' | '>')).collect() };
        let cont = if b > a { lead(lines[a + 1]) } else { String::new() };
        // `>` or `-` of the text itself cannot open a line, so the prefix is all there is before the text
        let fp = if p.ctx == Ctxt::Item { 0 } else { pre.width() };
        let mut want: Vec<String> = vec![];
        let mut wide = 0;
        for (si, seg) in p.segs.iter().enumerate() {
            let seg = if p.ctx == Ctxt::Note { let mut l: Vec<Tok> = vec![]; for m in seg { if let Some(t) = l.last_mut() { t.gap = 1; } l.extend(m.iter().cloned()); } vec![l] } else { seg.clone() };
            let first = if p.ctx == Ctxt::Item { 0 } else if si == 0 { fp } else { cont.width() };
            let f = fill(&seg, first, cont.width(), lw);
            for (li, l) in f.iter().enumerate() {
                let p0 = if want.is_empty() { pre } else { &cont };
                let at = if li == 0 { first } else { cont.width() };
                if at + width(l) > lw { wide += 1; }
                want.push(format!("{p0}{}{}", text(l), if li + 1 == f.len() && si + 1 < p.segs.len() { "  " } else { "" }));
            }
        }
        c.ev("paragraphs", 1);
        c.ev("lines", want.len());
        c.ev("lines of one overlong unit", wide);
        c.ev("paragraphs refilled", (p.segs.iter().map(|s| s.len()).sum::<usize>() != want.len()) as usize);
        let have: Vec<String> = lines[a..=b].iter().map(|l| l.to_string()).collect();
        if have != want {
            let k = have.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(have.len().min(want.len()));
            let measured = |l: &str| l.width() - if p.ctx == Ctxt::Item && k == 0 { pre.width() } else { 0 };
            let over = have.get(k).is_some_and(|l| measured(l.trim_end()) > lw);
            c.fail(if over { "a line is wider than configured" } else { "a line is not filled or kept as it should be" }, format!("width {lw}, {:?}, line {}\nexpected {:?}\nfound    {:?}\n--- input\n{src}--- output\n{out}", p.ctx, k + 1, want.get(k), have.get(k)));
            return c;
        }
    }
    c
}
pub fn c09(c: &mut Ctx) {
    let n = c.n(100000, 2500000);
    c.section("fill", "paragraphs of words, code spans, links, images, HTML and addresses in several scripts, with kept and hard line breaks, in lists, quotes, alerts, descriptions and notes, at widths from 8 to 200: each line is the one greedy filling of whole units gives, and short source lines stay", n, |r, _| wrap_case(r));
}
