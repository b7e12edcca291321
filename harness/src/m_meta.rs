//! C15 concatenation, C16 respelling, C17 determinism.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::{sem, util};
use hongdown::Options;

pub fn diff(a: &str, b: &str) -> String { similar::TextDiff::from_lines(a, b).unified_diff().context_radius(1).to_string() }

// ---------------------------------------------------------------- C15
/// A self-contained section: a plain heading of level two or three, any blocks, a paragraph,
/// and every definition it uses; names carry the number of the section.
fn section_doc(r: &mut Rng, k: usize, c: GenCfg) -> (u8, Vec<Blk>) {
    let level = *r.pick(&[2u8, 2, 3]);
    loop {
        let mut g = G::new(r, c.clone());
        g.uid = k * 10000;
        let mut b = vec![Blk::Head(level, vec![Inl::W(format!("Part{k}"))])];
        b.extend(g.blocks(&mut vec![], c.blocks.0, c.blocks.1));
        let p = g.para();
        b.push(Blk::Para(p));
        g.finish(&mut b);
        let kinds: Vec<K> = b.iter().filter_map(kind_of).collect();
        if !structure_ok(&b) || kinds[kinds.len() - 2..] == [K::Para, K::Desc] { continue; }
        return (level, b);
    }
}
fn sections(r: &mut Rng, n: usize) -> (Options, Vec<(u8, Vec<Blk>)>) {
    let lay = r.chance(70);
    let o = opts::random(r, Punct::Any, lay);
    let f = Feats::swarm(r).without(F::Sp2);
    let mut c = cfg(r.range(1, 3), f);
    c.blocks = (1, *r.pick(&[1, 2, 4]));
    c.words = (1, *r.pick(&[5, 20, 40]));
    let v = (0..n).map(|k| section_doc(r, k + 1, c.clone())).collect();
    (o, v)
}
fn c15_case(r: &mut Rng, filler: bool) -> Case {
    let n = if filler { 1 } else { r.range(2, 5) };
    let (mut o, v) = sections(r, n);
    if r.chance(20) { o.heading_sentence_case = true; }
    let style = r.next();
    let pre = if filler {
        let k = *r.pick(&[1usize, 3, 30, 300]);
        let unit = *r.pick(&["A plain paragraph.\n\n", "## Head\n\nText.\n\n", "- item\n- item\n\nText.\n\n", "> quote\n\nText.\n\n", "~~~~\ncode\n~~~~\n\nText.\n\n", "| a |\n|---|\n| b |\n\nText.\n\n", "<!-- note -->\n\nText.\n\n", "Text한글 [l](./x) `c`.\n\n"]);
        Some(unit.repeat(k))
    } else { None };
    let mut parts: Vec<(u8, String)> = v.iter().enumerate().map(|(i, (l, b))| (*l, render(b, style.wrapping_add(i as u64)))).collect();
    if let Some(p) = pre { parts.insert(0, (3, p)); }
    let mut c = Case::new(&format!("{}{o:?}", parts.iter().map(|p| p.1.as_str()).collect::<Vec<_>>().join("\n")));
    c.ev("sections joined", parts.len());
    for (_, b) in &v { census(b, &mut c); }
    if let Some(w) = c15_bad(&parts, &o) {
        // smaller: fewer sections, then fewer blocks in each
        let mut docs: Vec<Option<Vec<Blk>>> = if parts.len() > v.len() { vec![None] } else { vec![] };
        docs.extend(v.iter().map(|x| Some(x.1.clone())));
        let mut i = 0;
        while i < parts.len() && parts.len() > 2 {
            let mut p = parts.clone();
            p.remove(i);
            if c15_bad(&p, &o).is_some() { parts = p; docs.remove(i); } else { i += 1; }
        }
        for i in 0..parts.len() {
            let Some(mut d) = docs[i].clone() else { continue };
            let mut j = 1;
            while j < d.len() {
                let mut e = d.clone();
                e.remove(j);
                let mut p = parts.clone();
                p[i].1 = render(&e, style);
                let end = matches!(e.iter().rev().find(|b| kind_of(b).is_some()), Some(Blk::Para(_)));
                if end && structure_ok(&e) && c15_bad(&p, &o).is_some() { parts = p; d = e; } else { j += 1; }
            }
        }
        let w2 = c15_bad(&parts, &o).unwrap_or(w);
        let show: String = parts.iter().map(|p| if p.1.len() > 3000 { p.1.chars().take(200).chain("[...]\n".chars()).collect() } else { p.1.clone() }).collect::<Vec<_>>().join("\n=====\n");
        c.fail("the text of a section depends on the others", format!("{w2}\n--- sections\n{show}--- options {o:?}"));
    }
    c
}
fn c15_bad(parts: &[(u8, String)], o: &Options) -> Option<String> {
    let src = parts.iter().map(|p| p.1.as_str()).collect::<Vec<_>>().join("\n");
    let mut want = String::new();
    for (i, (l, s)) in parts.iter().enumerate() {
        if i > 0 { want.push_str(if *l == 2 { "\n\n" } else { "\n" }); }
        want.push_str(&match util::fmt(s, o) { Ok(x) => x, Err(e) => return Some(e) });
    }
    let got = match util::fmt(&src, o) { Ok(x) => x, Err(e) => return Some(e) };
    (want != got).then(|| diff(&want, &got))
}
pub fn c15(c: &mut Ctx) {
    c.assumptions.push("a section is self-contained: it defines what it refers to, and names are not shared".into());
    let n = c.n(25000, 600000);
    c.section("join", "two to five generated sections formatted together and one by one", n, |r, _| c15_case(r, false));
    let n = c.n(8000, 150000);
    c.section("shift", "a generated section after 1 to 300 repetitions of a filler, formatted together and apart", n, |r, _| c15_case(r, true));
}

// ---------------------------------------------------------------- C16
fn c16_case(r: &mut Rng) -> Case {
    let lay = r.chance(70);
    let p = *r.pick(&[Punct::Off, Punct::Default, Punct::Any]);
    let sc = r.chance(20);
    let mut d = make(r, p, lay, |_, _| {});
    d.o.heading_sentence_case = sc;
    let mut c = Case::new(&d.key());
    census(&d.doc, &mut c);
    let styles: Vec<u64> = (0..3).map(|_| r.next()).collect();
    let same = sem::SemOpts { tight: true, ..Default::default() };
    for s in styles {
        let bad = |doc: &[Blk]| {
            let (a, b) = (render(doc, d.style), render(doc, s));
            // an unlucky spelling may read as another document
            if sem::sem(&a, &same) != sem::sem(&b, &same) { return None; }
            let (x, y) = (util::fmt(&a, &d.o), util::fmt(&b, &d.o));
            (x != y).then(|| format!("--- spelling 1\n{a}--- spelling 2\n{b}--- difference\n{}", diff(&x.unwrap_or_else(|e| e), &y.unwrap_or_else(|e| e))))
        };
        c.ev(if sem::sem(&d.src, &same) == sem::sem(&render(&d.doc, s), &same) { "spelling pairs" } else { "spellings read otherwise (skipped)" }, 1);
        if bad(&d.doc).is_some() {
            let small = shrink_doc(&d.doc, dom, &|x| bad(x).is_some());
            c.fail("two spellings of one document format differently", format!("{}--- options {:?}", bad(&small).unwrap_or_default(), d.o));
            break;
        }
    }
    c
}
pub fn c16(c: &mut Ctx) {
    c.assumptions.push("emphasis marks are not normalised and are the same in both spellings".into());
    let n = c.n(30000, 700000);
    c.section("respell", "a generated document in four random spellings (heading form, bullets, delimiters, item indentation, fences, table padding, rules, quote marks, blank lines, trailing hard-break marks)", n, |r, _| c16_case(r));
    let n = c.n(40000, 1000000);
    c.section("line endings", "documents of every kind, mutated ones and token soup, with lines ended by LF, CR LF, CR or a mixture, and with or without the last line end: same text and same warnings", n, |r, _| {
        let s = match r.below(4) {
            0 => { let k = *r.pick(&[3usize, 8, 20, 60]); crate::m_rob::soup(r, k) }
            1 => { let d = make(r, Punct::Any, true, |c, _| { c.allow = allow_all; c.table_ragged = true; }); crate::m_rob::mutate(r, &d.src) }
            _ => { let d = make(r, Punct::Any, true, |c, _| { c.table_ragged = true; }); if r.chance(20) { let v = crate::m_doc::front(r); format!("---\n{}\n---\n{}", v.join("\n"), d.src) } else { d.src } }
        };
        let s = s.replace('\r', "");
        let o = crate::m_rob::any_options(r);
        let mut case = Case::new(&format!("{s}{o:?}"));
        let want = util::fmt_w(&s, &o);
        // a last line may be read otherwise when nothing ends it
        let same = sem::SemOpts { tight: true, ..Default::default() };
        let mut mixed = String::new();
        for l in s.split_inclusive('\n') { match l.strip_suffix('\n') { Some(x) if r.chance(50) => { mixed.push_str(x); mixed.push_str("\r\n"); } _ => mixed.push_str(l) } }
        let mut forms = vec![("CR LF", s.replace('\n', "\r\n")), ("CR", s.replace('\n', "\r")), ("mixed", mixed)];
        if let Some(t) = s.strip_suffix('\n') { if !t.is_empty() && !s.contains("hongdown-disable-file") && !t.ends_with('\n') && sem::sem(&s, &same) == sem::sem(t, &same) { forms.push(("no last line end", t.to_string())); } }
        for (name, t) in forms {
            if t == s { continue; }
            case.ev(name, 1);
            let have = util::fmt_w(&t, &o);
            if have != want {
                let text = |x: &Result<(String, Vec<(usize, String)>), String>| match x { Ok((a, w)) => format!("{a}--- warnings {w:?}\n"), Err(e) => e.clone() };
                case.fail(format!("line ends ({name}) change the output"), format!("{s:?}\n--- difference\n{}--- options {o:?}", diff(&text(&want), &text(&have))));
            }
        }
        case
    });
}

// ---------------------------------------------------------------- C17
pub fn c17(c: &mut Ctx) {
    let n = c.n(300, 6000);
    c.section("repeat", "a batch of 40 documents: formatted once each in order, then twice more each by eight threads in shuffled orders with pauses, with and without warnings; every result must equal the first", n, |r, _| {
        let mut case = Case::default();
        let docs = c17_batch(r, 40);
        case.key = Some(crate::mon::hash(&docs.iter().map(|d| d.0.as_str()).collect::<String>()));
        case.sample = Some(docs[0].0.chars().take(300).collect());
        let first: Vec<_> = docs.iter().map(|(s, o)| util::fmt_w(s, o)).collect();
        // the same call again, right after itself and after all the others
        for (i, (s, o)) in docs.iter().enumerate() {
            let a = util::fmt(s, o);
            if a.as_ref().ok() != first[i].as_ref().ok().map(|x| &x.0) { case.fail("a later call, or one without warnings, gives another text", format!("{s}\n{}", diff(&first[i].as_ref().map(|x| x.0.clone()).unwrap_or_default(), &a.unwrap_or_default()))); return case; }
        }
        let seeds: Vec<u64> = (0..8).map(|_| r.next()).collect();
        let bad: Vec<(usize, String)> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds.iter().map(|&seed| { let (docs, first) = (&docs, &first); std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                let mut r = Rng(seed);
                let mut order: Vec<usize> = (0..docs.len()).chain(0..docs.len()).collect();
                for i in (1..order.len()).rev() { order.swap(i, r.below(i + 1)); }
                let mut bad = vec![];
                for i in order {
                    if r.chance(5) { std::thread::yield_now(); }
                    let (s, o) = &docs[i];
                    let same = if r.chance(50) { util::fmt_w(s, o) == first[i] } else { util::fmt(s, o).ok() == first[i].as_ref().ok().map(|x| x.0.clone()) };
                    if !same { bad.push((i, s.clone())); }
                }
                bad
            }).unwrap() }).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
        });
        case.ev("calls", docs.len() * 18);
        case.ev("concurrent calls", docs.len() * 16);
        if let Some((i, s)) = bad.first() { case.fail("a concurrent call gives another text", format!("document {i}\n{s}")); }
        case
    });
    // other processes: the same documents in another order, one process each
    let n = c.n(64, 400);
    let exe = std::env::current_exe().expect("own path");
    c.section("processes", "25 documents hashed in this process and in two fresh ones, forwards and backwards", n, |r, _| {
        let seed = r.next();
        let mut case = Case::new(&format!("{seed}"));
        let mine = c17_digest(seed, false);
        for back in ["", "back"] {
            let out = std::process::Command::new(&exe).args(["digest17", &seed.to_string(), back]).output();
            let got = out.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
            case.ev("processes", 1);
            if got.trim() != mine.trim() {
                let k = mine.lines().zip(got.lines()).position(|(a, b)| a != b).unwrap_or(0);
                case.fail("another process gives another text", format!("seed {seed}, document {k} of {}\n{mine}\n{got}", c17_docs(seed).len()));
            }
        }
        case
    });
    // the thorough check builds everything, the standard library included, for the race detector
    let Ok(bin) = std::env::var("HDMON_TSAN") else { return };
    let n = c.n(8, 60);
    c.section("race detector", "ten batches of 40 documents per process on eight threads in a build with ThreadSanitizer, and the program itself over a directory of 60 files", n, |r, i| {
        let seed = r.next();
        let mut case = Case::new(&format!("{seed}"));
        let out = if i % 4 == 3 {
            let dir = crate::cli::Scratch::new();
            for (k, (s, _)) in c17_batch(r, 60).iter().enumerate() { dir.put(&format!("w/f{k}.md"), s); }
            let out = std::process::Command::new(std::path::Path::new(&bin).with_file_name("hongdown")).arg("--diff").arg(".").current_dir(dir.p("w")).env("RAYON_NUM_THREADS", "6").env("TSAN_OPTIONS", "exitcode=66").output();
            case.ev("files formatted by the program", 60);
            out
        } else {
            case.ev("concurrent calls", 10 * 40 * 8);
            std::process::Command::new(&bin).args(["tsan17", &seed.to_string(), "10"]).env("TSAN_OPTIONS", "exitcode=66").output()
        };
        match out {
            Ok(o) if o.status.code() == Some(0) => {}
            Ok(o) => case.fail("the race detector reports a race or the run fails", format!("seed {seed}, status {:?}\n{}{}", o.status.code(), String::from_utf8_lossy(&o.stderr).chars().take(6000).collect::<String>(), String::from_utf8_lossy(&o.stdout).chars().take(300).collect::<String>())),
            Err(e) => case.fail("the race detector build does not run", e.to_string()),
        }
        case
    });
}
/// The workload of the race detector: every thread formats every document, no other synchronisation.
pub fn c17_threads(seed: u64, batches: usize) {
    for b in 0..batches {
        let docs = c17_batch(&mut Rng(seed.wrapping_add(b as u64)), 40);
        std::thread::scope(|sc| for t in 0..8usize { let docs = &docs; let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || for i in 0..docs.len() {
            let (s, o) = &docs[(i * [1, 3, 7, 9][t % 4] + t) % docs.len()];
            let _ = util::fmt_w(s, o);
        }); });
    }
}
/// Documents and, for some, twins: the same text with one option changed, or the same options
/// and a text that differs in one noun of the same length.
fn c17_batch(r: &mut Rng, n: usize) -> Vec<(String, Options)> {
    const NOUNS: &[&str] = &["Red Fox", "Big Cat", "Old Dog", "Alpha", "Gamma", "Delta", "XyZzy", "Server", "GitHub", "Python", "New York"];
    let mut v: Vec<(String, Options)> = vec![];
    while v.len() < n {
        let mut d = make(r, Punct::Any, true, |c, _| { c.words = (1, 12); c.blocks = (1, 3); });
        d.o.heading_sentence_case = r.chance(60);
        let mut some = |k: usize| (0..r.below(k)).map(|_| r.pick(NOUNS).to_string()).collect::<Vec<_>>();
        (d.o.heading_proper_nouns, d.o.heading_common_nouns) = (some(4), some(3));
        let (a, b) = (some(3), some(3));
        let mut src = String::new();
        if !a.is_empty() { src.push_str(&format!("<!-- hongdown-proper-nouns: {} -->\n\n", a.join(", "))); }
        if !b.is_empty() { src.push_str(&format!("<!-- hongdown-common-nouns: {} -->\n\n", b.join(", "))); }
        if r.chance(15) { src.push_str("<!-- hongdown-disable-next-line -->\n\n"); }
        let mut l: Vec<&str> = NOUNS.to_vec();
        for i in (1..l.len()).rev() { let j = r.below(i + 1); l.swap(i, j); }
        l.truncate(5);
        src.push_str(&format!("### The Words {} Here\n\n{}", l.join(" and "), d.src));
        v.push((src.clone(), d.o.clone()));
        for _ in 0..r.below(4) {
            let mut o = d.o.clone();
            let mut t = src.clone();
            match r.below(8) {
                0 => o.heading_proper_nouns = o.heading_proper_nouns.iter().map(|x| match x.as_str() { "Red Fox" => "Big Cat", "Big Cat" => "Old Dog", "Alpha" => "Gamma", "Gamma" => "XyZzy", _ => "Delta" }.to_string()).collect(),
                1 => o.heading_common_nouns = o.heading_common_nouns.iter().map(|x| match x.as_str() { "Server" => "GitHub", "GitHub" => "Python", "Python" => "Server", _ => "Alpha" }.to_string()).collect(),
                2 | 3 => if let Some(i) = t.find("-nouns: ") { let e = t[i..].find(" -->").unwrap_or(0) + i; let sub = t[i..e].replace("Red Fox", "Q1").replace("Big Cat", "Red Fox").replace("Q1", "Big Cat").replace("Alpha", "Delta").replace("GitHub", "Python"); t.replace_range(i..e, &sub); },
                4 => o.heading_sentence_case ^= true,
                5 => { o.curly_apostrophes ^= true; o.ellipsis ^= true; }
                6 => o.line_width = hongdown::LineWidth::new(o.line_width.get() + 1).unwrap(),
                _ => { let x = opts::random(r, Punct::Any, true); o = Options { heading_sentence_case: o.heading_sentence_case, heading_proper_nouns: o.heading_proper_nouns, heading_common_nouns: o.heading_common_nouns, ..x }; }
            }
            v.push((t, o));
        }
    }
    v.truncate(n);
    for i in (1..v.len()).rev() { if r.chance(50) { let j = r.below(i + 1); v.swap(i, j); } }
    v
}
fn c17_docs(seed: u64) -> Vec<(String, Options)> {
    let mut r = Rng(seed);
    c17_batch(&mut r, 25)
}
pub fn c17_digest(seed: u64, back: bool) -> String {
    let docs = c17_docs(seed);
    let mut v: Vec<(usize, String)> = vec![];
    let order: Vec<usize> = if back { (0..docs.len()).rev().collect() } else { (0..docs.len()).collect() };
    for i in order { let (s, o) = &docs[i]; v.push((i, format!("{:016x}", fnv(&format!("{:?}", util::fmt_w(s, o)))))); }
    v.sort();
    v.into_iter().map(|x| x.1).collect::<Vec<_>>().join("\n")
}
/// A hash that is the same in every process.
fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
