//! Documents shared by the monitors.
use crate::model::*;
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::{sem, util};
use hongdown::Options;

pub const KINDS: &[(K, usize)] = &[(K::Para, 6), (K::Head, 3), (K::Ul, 3), (K::Ol, 3), (K::Quote, 2), (K::Alert, 1), (K::Code, 2), (K::IndCode, 1), (K::Html, 1), (K::Hr, 1), (K::Table, 2), (K::Desc, 1)];

pub fn cfg(depth: usize, f: Feats) -> GenCfg {
    GenCfg { f, allow: dom, kinds: KINDS.to_vec(), max_depth: depth, words: (1, 25), blocks: (1, 6), foot_blocks: true, tight_pct: 50, spice: 30, table_ragged: false, multi_para_items: true, tasks: true }
}
pub struct D {
    pub doc: Vec<Blk>,
    pub src: String,
    pub o: Options,
    pub style: u64,
}
impl D {
    pub fn render(&self, d: &[Blk]) -> String { render(d, self.style) }
    pub fn key(&self) -> String { format!("{}\n--- {:?}", self.src, self.o) }
    /// A smaller document on which `bad` still says something.
    pub fn shrink(&self, bad: &dyn Fn(&str) -> Option<String>) -> (String, String) {
        let small = shrink_doc(&self.doc, dom, &|d| structure_ok(d) && bad(&self.render(d)).is_some());
        let src = self.render(&small);
        let w = bad(&src).unwrap_or_default();
        if std::env::var("DUMP").is_ok() { eprintln!("{small:?}"); }
        (src, w)
    }
    /// Failure text with a shrunk input.
    pub fn explain(&self, bad: &dyn Fn(&str) -> Option<String>) -> String {
        static SHRUNK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let first = SHRUNK.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 6;
        let (s, w) = if first { self.shrink(bad) } else { (self.src.clone(), bad(&self.src).unwrap_or_default()) };
        format!("{w}\n--- input\n{s}--- output\n{}--- options {:?}", util::fmt(&s, &self.o).unwrap_or_else(|e| e), self.o)
    }
}
pub fn render(d: &[Blk], style: u64) -> String {
    let mut r = Rng(style);
    Style { r: &mut r, vary: true, flush: false }.doc(d)
}
/// A document, a spelling of it and an option set. Rich in features or poor, at random.
pub fn make(r: &mut Rng, punct: Punct, layout: bool, tweak: impl Fn(&mut GenCfg, &mut Rng)) -> D {
    let mut o = opts::random(r, punct, layout);
    let f = if r.chance(15) { Feats::none().and(&[F::Soft]) } else { Feats::swarm(r) };
    let mut c = cfg(r.range(1, 4), f);
    c.blocks = (1, *r.pick(&[2, 4, 6, 8]));
    c.words = (1, *r.pick(&[6, 25, 25, 60]));
    c.spice = *r.pick(&[10, 30, 30, 60]);
    tweak(&mut c, r);
    if c.f.has(F::Sp2) && o.line_width.get() < 80 { o.line_width = hongdown::LineWidth::new(80).unwrap(); }
    let doc = G::new(r, c).doc();
    let style = r.next();
    let src = render(&doc, style);
    D { doc, src, o, style }
}
pub fn semo(o: &Options) -> sem::SemOpts<'_> {
    sem::SemOpts { fold_punct: true, em: opts::dash_str(&o.em_dash), en: opts::dash_str(&o.en_dash), default_lang: &o.default_language, fold_case_headings: o.heading_sentence_case, ..Default::default() }
}
/// C01: does the output mean what the input means?
pub fn sem_bad(src: &str, o: &Options) -> Option<String> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let so = semo(o);
    sem::first_diff(&sem::sem(src, &so), &sem::sem(&out, &so))
}
/// C02
pub fn idem_bad(src: &str, o: &Options) -> Option<String> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let out2 = match util::fmt(&out, o) { Ok(x) => x, Err(e) => return Some(e) };
    if out == out2 { return None; }
    let d = similar::TextDiff::from_lines(&out, &out2).unified_diff().context_radius(1).to_string();
    Some(format!("second pass differs:\n{d}"))
}
/// Counts of the constructs in a document, for the evidence.
pub fn census(d: &[Blk], c: &mut crate::mon::Case) {
    for b in d {
        match b {
            Blk::Head(..) => c.ev("headings", 1),
            Blk::Para(_) => c.ev("paragraphs", 1),
            Blk::List { items, .. } => { c.ev("list items", items.len()); for i in items { census(&i.blocks, c); } }
            Blk::Quote(v) | Blk::Alert(_, _, v) => { c.ev("quotes and alerts", 1); census(v, c); }
            Blk::Code(..) => c.ev("code blocks", 1),
            Blk::Html(_) => c.ev("html blocks", 1),
            Blk::Hr => c.ev("thematic breaks", 1),
            Blk::Table { rows, .. } => c.ev("table cells", rows.iter().map(|r| r.len()).sum()),
            Blk::Desc(v) => { c.ev("description items", v.len()); for (_, x) in v { census(x, c); } }
            Blk::FootDef(_, v) => { c.ev("footnotes", 1); census(v, c); }
            Blk::RefDef(..) => c.ev("reference definitions", 1),
            _ => {}
        }
    }
}
/// Structures one level deep in every container path up to a depth: (path, kind, variant) enumerated.
pub fn path_doc(r: &mut Rng, path: &[C], k: K, f: Feats) -> Option<Vec<Blk>> {
    let mut c = cfg(path.len() + 1, f);
    c.words = (1, 12);
    for _ in 0..20 {
        let d = {
            let mut g = G::new(r, c.clone());
            let mut p = path.to_vec();
            g.no_foot = path.contains(&C::Fn);
            let first = g.r.chance(40);
            let after = g.r.chance(40);
            let b = g.block(k, &mut p);
            let mut v = vec![];
            if !first { let p = g.para(); v.push(Blk::Para(p)); }
            v.push(b);
            if after { let p = g.para(); v.push(Blk::Para(p)); }
            for c in path.iter().rev() {
                let mut outer = vec![];
                if g.r.chance(50) { let p = g.para(); outer.push(Blk::Para(p)); }
                match c {
                    C::Ul | C::Ol => {
                        let mut items = vec![];
                        if g.r.chance(40) { let p = g.para(); items.push(Item { task: None, blocks: vec![Blk::Para(p)] }); }
                        items.push(Item { task: None, blocks: v });
                        if g.r.chance(40) { let p = g.para(); items.push(Item { task: None, blocks: vec![Blk::Para(p)] }); }
                        outer.push(Blk::List { ordered: *c == C::Ol, tight: false, start: 1, items });
                    }
                    C::Q => outer.push(Blk::Quote(v)),
                    C::A => { let b = g.r.chance(50); outer.push(Blk::Alert("NOTE", b, v)) }
                    C::D => { let t = g.prose(1, 2, false); outer = vec![Blk::Desc(vec![(t, v)])] }
                    C::Fn => { outer = vec![Blk::Para(vec![Inl::W("x".into()), Inl::Foot("n".into())]), Blk::FootDef("n".into(), v)] }
                }
                if g.r.chance(40) && !matches!(c, C::D) { let p = g.para(); outer.push(Blk::Para(p)); }
                v = outer;
            }
            g.finish(&mut v);
            v
        };
        if ok(&d) { return Some(d); }
    }
    None
}
fn ok(d: &[Blk]) -> bool {
    fn foot(d: &[Blk]) -> bool { d.iter().all(|b| match b { Blk::FootDef(_, v) => valid(v, &mut vec![C::Fn], dom), _ => true }) }
    valid(d, &mut vec![], dom) && structure_ok(d) && foot(d)
}
pub fn paths(depth: usize) -> Vec<(Vec<C>, K)> {
    let cs = [C::Ul, C::Ol, C::Q, C::A, C::D, C::Fn];
    let mut all: Vec<Vec<C>> = vec![vec![]];
    let mut cur = all.clone();
    for _ in 0..depth {
        let mut nx = vec![];
        for p in &cur { for c in cs { if c == C::Fn && !p.is_empty() { continue; } let mut q = p.clone(); q.push(c); nx.push(q); } }
        all.extend(nx.clone());
        cur = nx;
    }
    all.iter().flat_map(|p| ALL_K.iter().map(move |k| (p.clone(), *k))).collect()
}
