//! C05: disabling directives.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::{sem, util};
use hongdown::Options;

#[derive(Clone, Debug)]
enum Seg {
    /// formatted text: self-contained, starts with a plain paragraph or heading, ends with a plain paragraph
    Free(Vec<Blk>),
    Next(Vec<String>),
    /// blocks up to a heading of level one or two, which a Free segment starting with one provides
    Section(Vec<Vec<String>>),
    Dis(Vec<Vec<String>>, bool),
    File(Vec<String>),
}
fn lines(s: &[&str]) -> Vec<String> { s.iter().map(|x| x.to_string()).collect() }
/// A block in a form the formatter would change (or not), as source lines; a token makes it unique.
fn ugly(r: &mut Rng, id: usize, head12: bool) -> (Vec<String>, bool) {
    let t = format!("zq{id}z");
    let mut k = r.below(28);
    if k == 5 && !head12 { k = 6; }
    let v: Vec<String> = match k {
        0 => vec![format!("{t}   double   spaces  \"q\" it's -- ...")],
        1 => vec![format!("*   {t}"), "*  b".into()],
        2 => vec![format!("  - {t}"), "  - b".into(), "      - c".into()],
        3 => vec![format!("1) {t}"), "1) b".into(), "1) c".into()],
        4 => vec![format!("    {t}"), "      indented".into()],
        5 => vec![format!("{} {t} HEAD \"x\"  #  ", r.pick(&["#", "##"]))],
        6 => vec![format!("{} {t} HEAD  ###", r.pick(&["###", "####", "######"]))],
        7 => vec![format!("|{t}|b|"), "|-|:-:|".into(), "|x  | y|".into()],
        8 => vec!["```js".into(), format!("{t}  "), "```".into()],
        9 => vec!["   ~~~~~".into(), format!("   {t}"), "   ~~~~~".into()],
        10 => vec![format!(">{t}"), ">lazy".into(), "tail".into()],
        11 => vec![r.pick(&["* * *", "_____", "  ***", "- - - -"]).to_string()],
        12 => vec![format!("<div id={t}>"), "  <b>x</b>".into(), "</div>".into()],
        13 => vec![format!("<!-- {t} -->")],
        14 => vec![format!("{t} soft"), "  line".into(), "    and more  ".into(), "hard\\".into(), "end".into()],
        15 => vec![format!("{t} a very long line that would be wrapped if it were formatted, since it goes on and on and on for more than any width, one hundred and sixty columns or so, which is enough")],
        16 => vec![format!("__{t}__ *em* \\* &amp; <https://example.com> `code  x`")],
        17 => vec![format!("{t}"), ":  def".into()],
        18 => vec![format!("+ [ ] {t}"), "+ [X] done".into()],
        19 => vec!["> [!note]".into(), format!("> {t}")],
        20 => vec![format!("* {t}"), "".into(), "  para".into(), "".into(), "* other".into()],
        21 => vec![format!("\t{t} tab code")],
        23 => vec![format!("* {t}"), "".into(), "      code".into(), "".into(), "        more".into()],
        24 => vec![format!("+     {t} code"), "      b".into()],
        25 => vec![format!("1. {t}"), "   <div>".into(), "   x".into(), "   </div>".into()],
        26 => vec![format!("> * {t}"), ">".into(), ">       code".into(), ">       x".into()],
        22 => vec![format!("한글{t}  日本語\"x\"")],
        _ => vec![format!("{t}.  Two  sentences.  Here's 'one' and...")],
    };
    (v, matches!(k, 5 | 6))
}
/// Blocks for a region; kinds that would merge with or be read into a neighbour are kept apart.
fn region(r: &mut Rng, id: &mut usize, n: usize, head12: bool) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    while out.len() < n {
        *id += 1;
        let (b, _) = ugly(r, *id, head12);
        let listy = |b: &Vec<String>| { let t = b[0].trim_start(); t.starts_with(['*', '-', '+']) && !t.starts_with("* *") && !t.starts_with("- -") && !t.starts_with("**") || t.starts_with("1)") || b.len() > 1 && b[1].starts_with(": ") };
        let code = |b: &Vec<String>| b[0].starts_with("    ") || b[0].starts_with('\t');
        let para_desc = b.len() > 1 && b[1].starts_with(": ");
        if let Some(p) = out.last() {
            if listy(p) && (listy(&b) || code(&b) || b[0].starts_with(' ')) || code(p) && code(&b) || p[0].starts_with('>') && b[0].starts_with('>') || para_desc && !p[0].starts_with('#') { continue; }
        }
        out.push(b);
    }
    // directives within a disabled region change nothing
    if head12 && r.chance(30) {
        let i = r.below(out.len());
        out.insert(i, vec![format!("<!-- hongdown-disable{} -->", *r.pick(&["-next-line", "-next-line", "-next-section", ""]))]);
    } else if r.chance(20) {
        let i = r.below(out.len());
        if !is_head(&out[i]) || head12 { out.insert(i, vec!["<!-- hongdown-disable-next-line -->".into()]); }
    }
    out
}
fn free(r: &mut Rng, k: usize, c: &GenCfg, head: Option<u8>) -> Vec<Blk> {
    loop {
        let mut g = G::new(r, c.clone());
        g.uid = k * 10000;
        let w = vec![Inl::W(format!("Free{k}"))];
        let mut b = vec![match head { Some(l) => Blk::Head(l, w), None => Blk::Para(w) }];
        b.extend(g.blocks(&mut vec![], c.blocks.0, c.blocks.1));
        let p = g.para();
        b.push(Blk::Para(p));
        g.finish(&mut b);
        // definitions at the end, so that none stands before the first block
        b.sort_by_key(|x| kind_of(x).is_none());
        let kinds: Vec<K> = b.iter().filter_map(kind_of).collect();
        if !structure_ok(&b) || kinds.windows(2).any(|w| w == [K::Para, K::Desc]) { continue; }
        return b;
    }
}
struct Doc { o: Options, segs: Vec<Seg>, style: u64, glue: bool }
/// Definitions are collected before headings of level two and three: two formatted segments in
/// a row are apart only there.
fn joins(s: &[Seg]) -> bool {
    s.windows(2).all(|w| match (&w[0], &w[1]) {
        (Seg::Free(_), Seg::Free(b)) => matches!(b[0], Blk::Head(2 | 3, _)),
        (Seg::Section(_), Seg::Free(b)) => matches!(b[0], Blk::Head(1 | 2, _)),
        (Seg::Section(_), _) => false,
        _ => true,
    })
}
fn is_h2(b: &[String]) -> bool { b[0].starts_with("## ") }
fn is_head(b: &[String]) -> bool { b[0].starts_with('#') }
impl Doc {
    /// (source, expected output)
    fn texts(&self, segs: &[Seg]) -> Result<(String, String), String> {
        let mut src: Vec<String> = vec![];
        let mut want = String::new();
        let mut head = false;
        for (i, s) in segs.iter().enumerate() {
            if i > 0 { src.push(String::new()); }
            // a directive and the blocks after it
            let mut dir = |d: &str, bl: &[Vec<String>], src: &mut Vec<String>| {
                let d = format!("<!-- hongdown-{d} -->");
                src.push(d.clone());
                head = false;
                if !want.is_empty() { want.push('\n'); }
                want.push_str(&d);
                want.push('\n');
                for (j, b) in bl.iter().enumerate() {
                    let two = is_h2(b) && !head;
                    head = is_head(b);
                    // the comment ends its block at once: what follows needs no blank line
                    if !(self.glue && j == 0) { src.push(String::new()); }
                    src.extend(b.iter().cloned());
                    want.push_str(if two { "\n\n" } else { "\n" });
                    want.push_str(&b.join("\n"));
                    want.push('\n');
                }
            };
            match s {
                Seg::Free(b) => {
                    let t = render(b, self.style.wrapping_add(i as u64));
                    let f = util::fmt(&t, &self.o)?;
                    if !want.is_empty() { want.push_str(if matches!(b[0], Blk::Head(2, _)) && !head { "\n\n" } else { "\n" }); }
                    want.push_str(&f);
                    head = false;
                    src.push(t.trim_end_matches('\n').to_string());
                }
                Seg::Next(b) => dir("disable-next-line", std::slice::from_ref(b), &mut src),
                Seg::Section(b) => dir("disable-next-section", b, &mut src),
                Seg::Dis(b, closed) => {
                    dir("disable", b, &mut src);
                    if *closed {
                        if !self.glue || b.last().is_some_and(|b| b[0].starts_with(['<', ' ', '\t'])) { src.push(String::new()); }
                        dir("enable", &[], &mut src);
                    }
                }
                Seg::File(l) => {
                    dir("disable-file", &[], &mut src);
                    src.extend(l.iter().cloned());
                    for x in l { want.push_str(x); want.push('\n'); }
                }
            }
        }
        Ok((src.join("\n") + "\n", want))
    }
    fn bad(&self, segs: &[Seg]) -> Option<String> {
        let (src, want) = match self.texts(segs) { Ok(x) => x, Err(e) => return Some(e) };
        let got = match util::fmt(&src, &self.o) { Ok(x) => x, Err(e) => return Some(e) };
        (got != want).then(|| format!("{}--- input\n{src}", similar::TextDiff::from_lines(&want, &got).unified_diff().context_radius(1)))
    }
}
fn c05_case(r: &mut Rng) -> Case {
    let lay = r.chance(60);
    let mut o = opts::random(r, Punct::Any, lay);
    if r.chance(30) { o.heading_sentence_case = true; }
    let mut c = cfg(2, Feats::swarm(r).without(F::Sp2));
    c.words = (1, *r.pick(&[4, 20]));
    let style = r.next();
    let glue = r.chance(25);
    let n = r.range(2, 6);
    let mut id = 0;
    let mut segs: Vec<Seg> = vec![];
    let mut open = false;
    for k in 0..n {
        c.blocks = (1, r.range(1, 3));
        let last = k + 1 == n;
        if open { let l = *r.pick(&[1u8, 2]); segs.push(Seg::Free(free(r, k + 1, &c, Some(l)))); open = false; continue; }
        let m = r.range(1, 4);
        match r.below(10) {
            0..=2 => { let h = if matches!(segs.last(), Some(Seg::Free(_))) { *r.pick(&[Some(2), Some(3)]) } else { *r.pick(&[None, None, Some(1), Some(2), Some(3), Some(4)]) }; segs.push(Seg::Free(free(r, k + 1, &c, h))) }
            3 | 4 => { id += 1; let (b, _) = ugly(r, id, true); segs.push(Seg::Next(b)); }
            5 | 6 => { let b = region(r, &mut id, m, false); segs.push(Seg::Section(b)); open = true; }
            7 | 8 => { let closed = !last || r.chance(60); let b = region(r, &mut id, m, true); segs.push(Seg::Dis(b, closed)); }
            _ if last => {
                let mut l = vec![];
                for b in region(r, &mut id, m, true) { for _ in 0..r.below(3) { l.push(String::new()); } l.extend(b); }
                if r.chance(30) { l.extend(lines(&["", "<!-- hongdown-enable -->", "", "*   not  formatted"])); }
                segs.push(Seg::File(l));
            }
            _ => { let b = region(r, &mut id, m, true); segs.push(Seg::Dis(b, true)); }
        }
    }
    // html at the very end is moved after the definitions, which is not this property's business
    if let Some(Seg::Next(b)) = segs.last() { if b[0].starts_with('<') { segs.push(Seg::Free(free(r, n + 1, &c, None))); } }
    // a list and the block after it stay apart
    let d = Doc { o, segs, style, glue };
    let Ok((src, _)) = d.texts(&d.segs) else { return Case::trivial() };
    let mut case = Case::new(&format!("{src}{:?}", d.o));
    for s in &d.segs { case.ev(match s { Seg::Free(_) => "formatted segments", Seg::Next(_) => "disable-next-line", Seg::Section(_) => "disable-next-section", Seg::Dis(_, true) => "disable ... enable", Seg::Dis(..) => "disable to the end", Seg::File(_) => "disable-file" }, 1); }
    if let Some(w) = d.bad(&d.segs) {
        let mut cur = d.segs.clone();
        let mut w = w;
        'again: loop {
            for i in 0..cur.len() {
                let mut cands = vec![];
                if !(i > 0 && matches!(cur[i - 1], Seg::Section(_))) { let mut t = cur.clone(); t.remove(i); if !t.is_empty() { cands.push(t); } }
                match &cur[i] {
                    Seg::Section(b) | Seg::Dis(b, _) if b.len() > 1 => for j in 0..b.len() { let mut t = cur.clone(); if let Seg::Section(b) | Seg::Dis(b, _) = &mut t[i] { b.remove(j); } cands.push(t); },
                    Seg::Free(b) => for j in 1..b.len() { let mut e = b.clone(); e.remove(j); if matches!(e.last(), Some(Blk::Para(_))) && structure_ok(&e) { let mut t = cur.clone(); t[i] = Seg::Free(e); cands.push(t); } },
                    _ => {}
                }
                for t in cands { if !joins(&t) { continue; } if matches!(t.last(), Some(Seg::Section(_))) && t.len() < 2 { continue; } if let Some(x) = d.bad(&t) { cur = t; w = x; continue 'again; } }
            }
            break;
        }
        case.fail("a disabled region, or what surrounds it, is not as expected", format!("{w}--- options {:?}", d.o));
    }
    case
}
/// Links and footnotes in and around regions keep their meaning.
fn meaning_case(r: &mut Rng) -> Case {
    let mut d = make(r, Punct::Off, true, |c, _| { c.f = c.f.and(&[F::LinkFull, F::LinkShort, F::LinkColl, F::ImgRef, F::FootRef]).but(&[F::Sp2, F::BlockStart, F::Hard]); c.kinds = vec![(K::Para, 6), (K::Head, 2), (K::Ul, 1), (K::Quote, 1), (K::Table, 1), (K::Code, 1)]; c.max_depth = 2; c.blocks = (2, 8); c.spice = 60; c.foot_blocks = false; });
    let mut out = vec![];
    let mut n = 0;
    let mut open = false;
    for b in d.doc.drain(..) {
        if kind_of(&b).is_some() && r.chance(30) {
            let w = if open { "enable" } else { *r.pick(&["disable", "disable-next-line", "disable-next-section"]) };
            open = w == "disable";
            out.push(Blk::Raw(vec![format!("<!-- hongdown-{w} -->")]));
            n += 1;
        }
        out.push(b);
    }
    d.doc = out;
    d.src = render(&d.doc, d.style);
    let mut c = Case::new(&d.key());
    c.ev("directives", n);
    let bad = |s: &str| { let out = match util::fmt(s, &d.o) { Ok(x) => x, Err(e) => return Some(e) }; let so = semo(&d.o); let mut so2 = semo(&d.o); so2.default_lang = so.default_lang; sem::first_diff(&sem::sem(s, &so), &sem::sem(&out, &so2)) };
    if bad(&d.src).is_some() { let t = d.explain(&bad); c.fail(t.lines().next().unwrap_or("").to_string(), t); }
    c
}
pub fn c05(c: &mut Ctx) {
    c.assumptions.push("blank lines between protected blocks are one (two before a level-two heading); definitions are collected outside".into());
    let n = c.n(40000, 1000000);
    c.section("regions", "formatted segments and regions of all five directives in random order, blocks in forms the formatter would change; the output must be the formatted segments and the untouched regions, exactly", n, |r, _| c05_case(r));
    let n = c.n(20000, 400000);
    c.section("meaning", "directives dropped at random between the blocks of documents full of references and footnotes; the document must keep its meaning", n, |r, _| meaning_case(r));
}
