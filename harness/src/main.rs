#![allow(dead_code)]
mod cli;
mod docs;
mod known;
mod m_case;
mod m_cfg;
mod m_cli;
mod m_dir;
mod m_doc;
mod m_ext;
mod m_layout;
mod m_lit;
mod m_meta;
mod m_punct;
mod m_refs;
mod m_rob;
mod m_sel;
mod m_warn;
mod m_wrap;
mod model;
mod mon;
mod opts;
mod rng;
mod sem;
mod util;
use model::*;
use opts::Punct;
use rng::Rng;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("explore") => explore(&a[2..]),
        Some("tiny") => tiny(&a[2..]),
        Some("check") => match util::supervised(&a[2..]) {
            Ok(c) => std::process::exit(c),
            Err((how, cases)) => {
                // a case ended the whole process: find it
                let tier = a.get(3).map(|s| s.as_str()).unwrap_or("quick");
                let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1u64);
                for (s, i) in cases {
                    if let Err((how, _)) = util::supervised(&["one".into(), a[2].clone(), tier.into(), seed.to_string(), s.clone(), i.to_string()]) {
                        let mut c = mon::Ctx::new(&a[2], tier, seed);
                        c.only = None;
                        c.absorb(&s, &[i], vec![mon::Case { fail: Some((format!("the process died ({how})"), "stack overflow, abort or memory beyond the limit".into())), ..Default::default() }]);
                        std::process::exit(c.finish());
                    }
                }
                println!("{}: the run ended with {how} and no case does so alone", a[2]);
                std::process::exit(2);
            }
        },
        Some("run") if a.get(2).is_some_and(|x| x == "one") => {
            let mut c = mon::Ctx::new(&a[3], &a[4], a[5].parse().unwrap());
            c.only = Some((a[6].clone(), a[7].parse().unwrap()));
            std::process::exit(check(c));
        }
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            std::process::exit(check(mon::Ctx::new(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), seed)));
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            let g = |k: &str| j[k].as_str().unwrap().to_string();
            match util::supervised(&["one".into(), g("property"), g("tier"), j["seed"].to_string(), g("section"), j["index"].to_string()]) {
                Ok(c) => std::process::exit(c),
                Err((how, _)) => { println!("{}: the process died ({how})", g("property")); println!("VIOLATION property={} replay={}", g("property"), a[2]); std::process::exit(1); }
            }
        }
        Some("files") => {
            let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            let files: Vec<&str> = s.lines().collect();
            let mut o = hongdown::Options::default();
            if a.get(2).is_some_and(|x| x == "off") { opts::punct_off(&mut o); }
            let rnd = a.get(2).is_some_and(|x| x == "rand");
            let seed: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
            let res = util::par(files.len(), |i| {
                let mut o = o.clone();
                if rnd { o = opts::random(&mut Rng::new(seed, i as u64), Punct::AnyStable, true); }
                let Ok(t) = std::fs::read_to_string(files[i]) else { return None };
                let t = t.replace('\r', "");
                if let Some(x) = docs::sem_bad(&t, &o) { return Some(("sem", x)); }
                docs::idem_bad(&t, &o).map(|x| ("idem", x))
            });
            let mut n = [0, 0];
            for (i, r) in res.iter().enumerate() { if let Some((k, d)) = r { n[(*k == "idem") as usize] += 1; println!("== {k} {}\n{}", files[i], d.chars().take(400).collect::<String>()); } }
            println!("{} files, sem {} idem {}", files.len(), n[0], n[1]);
        }
        Some("helper") => m_ext::helper(&a[2..]),
        Some("tsan17") => m_meta::c17_threads(a[2].parse().expect("seed"), a[3].parse().expect("batches")),
        Some("digest17") => println!("{}", m_meta::c17_digest(a[2].parse().expect("seed"), a.get(3).is_some_and(|x| x == "back"))),
        Some("known") => known::list(),
        Some("fmt1") => { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); print!("{}", hongdown::format(&s, &hongdown::Options::default()).expect("format")); }
        Some("sem") => { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); for l in sem::sem(&s, &Default::default()) { println!("{l}"); } }
        Some("ast") => { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); let ar = comrak::Arena::new(); let co = sem::comrak_options(); let r = comrak::parse_document(&ar, &s, &co); for n in r.descendants() { let d = n.data.borrow(); println!("{} {:?}", d.sourcepos, d.value); } }
        _ => eprintln!("?"),
    }
}
fn check(mut c: mon::Ctx) -> i32 {
    match c.id.clone().as_str() {
        "C01" => m_doc::c01(&mut c),
        "C02" => m_doc::c02(&mut c),
        "C03" => m_rob::c03(&mut c),
        "C04" => m_lit::c04(&mut c),
        "C05" => m_dir::c05(&mut c),
        "C06" => m_punct::c06(&mut c),
        "C07" => m_refs::c07(&mut c),
        "C08" => m_refs::c08(&mut c),
        "C09" => m_wrap::c09(&mut c),
        "C10" => m_layout::c10(&mut c),
        "C11" => m_layout::c11(&mut c),
        "C12" => m_layout::c12(&mut c),
        "C13" => m_lit::c13(&mut c),
        "C14" => m_case::c14(&mut c),
        "C15" => m_meta::c15(&mut c),
        "C16" => m_meta::c16(&mut c),
        "C17" => m_meta::c17(&mut c),
        "C18" => m_warn::c18(&mut c),
        "C19" => m_ext::c19(&mut c),
        "C20" => m_cli::c20(&mut c),
        "C21" => m_cli::c21(&mut c),
        "C22" => m_cfg::c22(&mut c),
        "C23" => m_cfg::c23(&mut c),
        "C24" => m_cfg::c24(&mut c),
        "C25" => m_sel::c25(&mut c),
        x => { eprintln!("unknown property {x}"); return 2; }
    }
    known::report(&c);
    c.finish()
}

pub fn semo<'a>(o: &'a hongdown::Options) -> sem::SemOpts<'a> {
    sem::SemOpts { fold_punct: true, em: opts::dash_str(&o.em_dash), en: opts::dash_str(&o.en_dash), default_lang: &o.default_language, ..Default::default() }
}
fn verdict(src: &str, o: &hongdown::Options) -> Option<(String, String)> {
    let out = match util::fmt(src, o) { Ok(x) => x, Err(e) => return Some(("panic".into(), e)) };
    let so = semo(o);
    let (a, b) = (sem::sem(src, &so), sem::sem(&out, &so));
    if let Some(d) = sem::first_diff(&a, &b) { return Some(("sem".into(), d)); }
    match util::fmt(&out, o) { Ok(x) if x == out => None, Ok(x) => Some(("idem".into(), format!("--1--\n{out}--2--\n{x}"))), Err(e) => Some(("panic2".into(), e)) }
}

fn sig(v: &(String, String)) -> String {
    if v.0 == "sem" { format!("sem {}", v.1.split(']').next().unwrap_or("")) } else { v.0.clone() }
}
/// `tiny LEN PIECE...` prints every document of LEN pieces whose meaning changes or that takes two passes.
fn tiny(a: &[String]) {
    let len: usize = a[0].parse().unwrap();
    let pieces: Vec<String> = a[1..].iter().map(|p| p.replace("\\n", "\n").replace("\\t", "\t")).collect();
    let o = hongdown::Options::default();
    let total = pieces.len().pow(len as u32);
    util::par_watch(total.div_ceil(256), |k| {
        for i in k * 256..(k * 256 + 256).min(total) {
            let (mut s, mut i) = (String::new(), i);
            for _ in 0..len { s.push_str(&pieces[i % pieces.len()]); i /= pieces.len(); }
            s.push('\n');
            if let Some(v) = verdict(&s, &o) { println!("{s:?}\t{}\t{:?}", v.0, util::fmt(&s, &o)); }
        }
    }, &|_| {});
}
fn explore(a: &[String]) {
    let n: usize = a[0].parse().unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let mode = a.get(2).map(|s| s.as_str()).unwrap_or("paths");
    let layout = a.iter().any(|x| x == "layout");
    let base = GenCfg { f: Feats::none().and(&[F::Soft]), allow: allow_all, kinds: vec![(K::Para, 1)], max_depth: 3, words: (1, 25), blocks: (1, 3), foot_blocks: false, tight_pct: 50, spice: 30, table_ragged: false, multi_para_items: true, tasks: true };
    let report = |name: &str, cfg: &GenCfg, mk: &(dyn Fn(&mut Rng, &GenCfg) -> String + Sync)| {
        let res = util::par(n, |i| {
            let mut r = Rng::new(seed, i as u64);
            let o = opts::random(&mut r, Punct::Off, layout);
            let src = mk(&mut r, cfg);
            verdict(&src, &o).map(|v| (v, src, o))
        });
        let fails: Vec<_> = res.into_iter().flatten().collect();
        if fails.is_empty() { println!("{name}: ok {n}"); return; }
        println!("{name}: FAIL {}/{n}", fails.len());
        let show: usize = std::env::var("SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mut seen = vec![];
        for ((k, _), src, o) in fails.iter() {
            let sg = sig(&verdict(src, o).unwrap());
            if seen.contains(&sg) || seen.len() >= show { continue; }
            seen.push(sg.clone());
            let small = if std::env::var("RAW").is_ok() { src.clone() } else { util::shrink(src, &|s| verdict(s, o).is_some_and(|v| sig(&v) == sg)) };
            println!("  [{k}] {small:?}\n    -> {:?}\n    {}", util::fmt(&small, o), verdict(&small, o).map(|v| v.1.replace('\n', "\n    ")).unwrap_or_default());
            if layout { println!("    {:?}", o); }
        }
    };
    let docs = |name: &str, cfg: &GenCfg| {
        let src_of = |d: &[Blk], i: usize| { let mut r = Rng::new(seed ^ 0x5555, i as u64); Style { r: &mut r, vary: true, flush: false }.doc(d) };
        let res = util::par(n, |i| {
            let mut r = Rng::new(seed, i as u64);
            let o = opts::random(&mut r, if a.iter().any(|x| x == "punct") { Punct::AnyStable } else { Punct::Off }, layout);
            let mut cfg = cfg.clone();
            if name.starts_with("all") { cfg.f = Feats::swarm(&mut r); }
            let mut o = o;
            if cfg.f.has(F::Sp2) && o.line_width.get() < 80 { o.line_width = hongdown::LineWidth::new(80).unwrap(); }
            let d = G::new(&mut r, cfg).doc();
            verdict(&src_of(&d, i), &o).map(|v| (v, d, o, i))
        });
        let fails: Vec<_> = res.into_iter().flatten().collect();
        if fails.is_empty() { println!("{name}: ok {n}"); return; }
        println!("{name}: FAIL {}/{n}", fails.len());
        let show: usize = std::env::var("SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mut seen = vec![];
        for (v, d, o, i) in fails.iter() {
            let k = v.0.clone();
            if seen.len() >= show { continue; }
            if std::env::var("RAW").is_ok() { println!("RAW {}\n ->\n{}\n {}", src_of(d, *i), util::fmt(&src_of(d, *i), o).unwrap_or_default(), v.1); }
            let small = shrink_doc(d, cfg.allow, &|d| verdict(&src_of(d, *i), o).is_some_and(|v| v.0 == k));
            let src = src_of(&small, *i);
            let v = verdict(&src, o).unwrap();
            let sg = sig(&v);
            if seen.contains(&sg) { continue; }
            seen.push(sg);
            println!("  [{k}]\n{src}    ->\n{}    {}", util::fmt(&src, o).unwrap_or_default(), v.1.replace('\n', "\n    "));
            if layout { println!("    {:?}", o); }
        }
    };
    let gen_doc = |r: &mut Rng, cfg: &GenCfg| { let d = { let mut g = G::new(r, cfg.clone()); g.doc() }; let mut st = Style { r, vary: true, flush: false }; st.doc(&d) };
    match mode {
        "feats" => {
            for f in ALL_F {
                let mut c = base.clone();
                c.f = c.f.with(*f);
                report(&format!("{f:?}"), &c, &gen_doc);
            }
        }
        "docs" => {
            for (name, feats) in [("plain", Feats::none().and(&[F::Soft])), ("all", Feats::all())] {
                for depth in [1usize, 2, 3, 4] {
                    let mut c = base.clone();
                    c.f = feats;
                    c.allow = dom;
                    c.max_depth = depth;
                    c.foot_blocks = true;
                    c.blocks = (1, 6);
                    c.table_ragged = false;
                    c.kinds = vec![(K::Para, 6), (K::Head, 3), (K::Ul, 3), (K::Ol, 3), (K::Quote, 2), (K::Alert, 1), (K::Code, 2), (K::IndCode, 1), (K::Html, 1), (K::Hr, 1), (K::Table, 2), (K::Desc, 1)];
                    docs(&format!("{name} depth {depth}"), &c);
                }
            }
        }
        "paths" => {
            let cs: Vec<(Option<C>, &str)> = vec![(None, ""), (Some(C::Ul), "Ul"), (Some(C::Ol), "Ol"), (Some(C::Q), "Q"), (Some(C::A), "A"), (Some(C::D), "D"), (Some(C::Fn), "Fn")];
            let dmax: usize = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
            let mut paths: Vec<Vec<C>> = vec![vec![]];
            let mut all = vec![vec![]];
            for _ in 0..dmax {
                let mut nx = vec![];
                for p in &paths { for (c, _) in &cs { if let Some(c) = c { if *c == C::Fn && !p.is_empty() { continue; } let mut q = p.clone(); q.push(*c); nx.push(q); } } }
                all.extend(nx.clone());
                paths = nx;
            }
            if dmax > 1 { all.retain(|p| p.len() == dmax); }
            let only = std::env::var("ONLY").unwrap_or_default();
            for p in &all {
                for k in ALL_K {
                    let name = format!("{p:?} {k:?}");
                    if !only.is_empty() && !name.contains(&only) { continue; }
                    let p2 = p.clone();
                    let k2 = *k;
                    report(&name, &base, &move |r: &mut Rng, cfg: &GenCfg| {
                        let d = {
                            let mut c = cfg.clone();
                            c.max_depth = p2.len() + 1;
                            let mut g = G::new(r, c);
                            let mut path = p2.clone();
                            let first = g.r.chance(40);
                            let after = g.r.chance(40);
                            let b = g.block(k2, &mut path);
                            let mut v = vec![];
                            if !first { let p = g.para(); v.push(Blk::Para(p)); }
                            v.push(b);
                            if after { let p = g.para(); v.push(Blk::Para(p)); }
                            for c in p2.iter().rev() {
                                let mk = |g: &mut G, v: Vec<Blk>| -> Vec<Blk> { let _ = g; v };
                                let inner = mk(&mut g, v);
                                let mut outer = vec![];
                                if g.r.chance(50) { let p = g.para(); outer.push(Blk::Para(p)); }
                                match c {
                                    C::Ul | C::Ol => {
                                        let mut items = vec![];
                                        if g.r.chance(40) { let p = g.para(); items.push(Item { task: None, blocks: vec![Blk::Para(p)] }); }
                                        items.push(Item { task: None, blocks: inner });
                                        if g.r.chance(40) { let p = g.para(); items.push(Item { task: None, blocks: vec![Blk::Para(p)] }); }
                                        outer.push(Blk::List { ordered: *c == C::Ol, tight: false, start: 1, items });
                                    }
                                    C::Q => outer.push(Blk::Quote(inner)),
                                    C::A => outer.push(Blk::Alert("NOTE", g.r.chance(50), inner)),
                                    C::D => { let t = g.prose(1, 2, false); outer = vec![Blk::Desc(vec![(t, inner)])] }
                                    C::Fn => { outer = vec![Blk::Para(vec![Inl::W("x".into()), Inl::Foot("n".into())]), Blk::FootDef("n".into(), inner)] }
                                }
                                if g.r.chance(40) && !matches!(c, C::D) { let p = g.para(); outer.push(Blk::Para(p)); }
                                v = outer;
                            }
                            v
                        };
                        let mut st = Style { r, vary: true, flush: false };
                        st.doc(&d)
                    });
                }
            }
        }
        _ => {}
    }
}
