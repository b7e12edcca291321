//! C19: external code formatters.
use crate::cli::{Call, Scratch, cut};
use crate::docs;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::Punct;
use crate::rng::Rng;
use crate::util;
use hongdown::{CodeFormatter, Options};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

/// Helpers that succeed: what they print for an input.
pub fn transform(kind: &str, code: &str) -> Option<String> {
    Some(match kind {
        "echo" | "early" | "late" | "noise" | "slowread" => code.to_string(),
        "upper" => code.to_uppercase(),
        "prefix" => format!("// formatted\n\n{code}"),
        "suffix" => format!("{code}\n  last  \n"),
        "empty" => String::new(),
        "nonl" => code.trim_end_matches('\n').to_string(),
        "fence" => format!("~~~~~~\n``````\n  ~~~~~~~ x\n{code}"),
        "grow" => code.lines().map(|l| format!("{l}\n  {l}\n")).collect(),
        "noread" => "constant\n".into(),
        "big" => (0..6000).map(|i| format!("line {i} of a long output é\n")).collect(),
        _ => return None,
    })
}
pub const GOOD: &[&str] = &["echo", "early", "late", "noise", "slowread", "upper", "prefix", "suffix", "empty", "nonl", "fence", "grow", "noread", "big"];
pub const BAD: &[&str] = &["exit3", "exit1quiet", "partial", "sig", "abrt", "badutf8", "cututf8", "noreadfail", "missing", "notexec", "isdir", "noisyfail"];
pub const SLOW: &[&str] = &["hang", "hangread", "flood", "drip", "errflood"];

/// The helper program: `hdmon helper <log> <language> <kind>`.
pub fn helper(a: &[String]) -> ! {
    let (log, lang, kind) = (&a[0], &a[1], a[2].as_str());
    let note = |what: &str, code: &[u8]| {
        let mut b = format!("{} {lang} {what} {}\n", std::process::id(), code.len()).into_bytes();
        b.extend_from_slice(code);
        b.push(b'\n');
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(log) { let _ = f.write_all(&b); }
    };
    let mut out = std::io::stdout();
    let die = |c: i32| -> ! { unsafe { libc::_exit(c) } };
    match kind {
        "noread" => { note("unread", b""); let _ = out.write_all(b"constant\n"); let _ = out.flush(); die(0) }
        "noreadfail" => { note("unread", b""); die(7) }
        "hang" => { note("unread", b""); std::thread::sleep(Duration::from_secs(40)); die(0) }
        "flood" => { note("unread", b""); loop { if out.write_all(&[b'x'; 4096]).is_err() { die(0) } } }
        "errflood" => { note("unread", b""); loop { if std::io::stderr().write_all(&[b'x'; 4096]).is_err() { die(0) } } }
        "early" => { let _ = out.write_all(b""); }
        _ => {}
    }
    let mut code = vec![];
    if kind == "early" {
        // echoes while reading: fills the output pipe before the input is all written
        let mut buf = [0u8; 1000];
        loop { let n = std::io::stdin().read(&mut buf).unwrap_or(0); if n == 0 { break; } code.extend_from_slice(&buf[..n]); let _ = out.write_all(&buf[..n]); let _ = out.flush(); }
        note("read", &code);
        die(0)
    }
    if kind == "slowread" {
        let mut buf = [0u8; 50000];
        for _ in 0..4 { std::thread::sleep(Duration::from_millis(20)); let n = std::io::stdin().read(&mut buf).unwrap_or(0); code.extend_from_slice(&buf[..n]); if n == 0 { break; } }
    }
    let _ = std::io::stdin().read_to_end(&mut code);
    note("read", &code);
    let text = String::from_utf8_lossy(&code).into_owned();
    match kind {
        "exit3" => { let _ = out.write_all(b"garbage\n"); let _ = out.flush(); eprintln!("boom"); die(3) }
        "exit1quiet" => die(1),
        "partial" => { let _ = out.write_all(&code[..code.len() / 2]); let _ = out.flush(); eprintln!("half"); die(2) }
        "noisyfail" => { for _ in 0..3000 { let _ = std::io::stderr().write_all(&[b'e'; 100]); } die(4) }
        "sig" => unsafe { libc::kill(libc::getpid(), libc::SIGKILL); },
        "abrt" => unsafe { libc::kill(libc::getpid(), libc::SIGTERM); },
        "badutf8" => { let _ = out.write_all(b"ok \xff\xfe\n"); let _ = out.flush(); die(0) }
        "cututf8" => { let _ = out.write_all(b"ok \xe4\xb8"); let _ = out.flush(); die(0) }
        "hangread" => std::thread::sleep(Duration::from_secs(40)),
        "drip" => loop { if out.write_all(b"x").and_then(|_| out.flush()).is_err() { die(0) } std::thread::sleep(Duration::from_millis(10)); },
        "late" => { for c in text.as_bytes().chunks((text.len() / 5).max(1)) { std::thread::sleep(Duration::from_millis(10)); let _ = out.write_all(c); let _ = out.flush(); } die(0) }
        "noise" => { for _ in 0..3000 { let _ = std::io::stderr().write_all(&[b'e'; 100]); } }
        "orphan" => {
            // a child that outlives us keeps our output open
            let _ = out.write_all(&code);
            let _ = out.flush();
            unsafe { if libc::fork() == 0 { libc::sleep(8); libc::_exit(0); } }
            die(0)
        }
        _ => {}
    }
    let t = transform(kind, &text).unwrap_or(text);
    let _ = out.write_all(t.as_bytes());
    let _ = out.flush();
    die(0)
}
/// The command for a kind of helper; scratch files go to `s`.
fn command(s: &Scratch, lang: &str, kind: &str) -> Vec<String> {
    let exe = std::env::current_exe().expect("own path").display().to_string();
    let p = |x: &str| s.p(x).display().to_string();
    match kind {
        "missing" => vec![p("no-such-program"), "arg".into()],
        "notexec" => { s.put("plain-file", "text"); vec![p("plain-file")] }
        "isdir" => vec![p("home")],
        _ => vec![exe, "helper".into(), p("calls"), lang.into(), kind.into()],
    }
}
/// Calls recorded by the helpers: language, code (None: not read), process.
fn calls(s: &Scratch) -> Vec<(String, Option<Vec<u8>>, i32)> {
    let b = s.get("calls");
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let Some(e) = b[at..].iter().position(|x| *x == b'\n') else { break };
        let h = String::from_utf8_lossy(&b[at..at + e]).into_owned();
        let f: Vec<&str> = h.split(' ').collect();
        if f.len() != 4 { break; }
        let n: usize = f[3].parse().unwrap_or(0);
        let body = b.get(at + e + 1..at + e + 1 + n).unwrap_or_default().to_vec();
        v.push((f[1].to_string(), if f[2] == "read" { Some(body) } else { None }, f[0].parse().unwrap_or(0)));
        at += e + 1 + n + 1;
    }
    v
}
fn each_code(v: &mut Vec<Blk>, f: &mut dyn FnMut(&mut String, &mut Vec<String>, &mut bool)) {
    for b in v {
        match b {
            Blk::Code(i, l, d) => f(i, l, d),
            Blk::List { items, .. } => for it in items { each_code(&mut it.blocks, f); },
            Blk::Quote(v) | Blk::Alert(_, _, v) | Blk::FootDef(_, v) => each_code(v, f),
            Blk::Desc(v) => for (_, x) in v { each_code(x, f); },
            _ => {}
        }
    }
}
struct Block { info: String, literal: String, lines: (usize, usize) }
fn code_blocks(text: &str) -> Vec<Block> {
    let a = comrak::Arena::new();
    let root = comrak::parse_document(&a, text, &crate::sem::comrak_options());
    root.descendants().filter_map(|n| { let d = n.data.borrow(); if let comrak::nodes::NodeValue::CodeBlock(c) = &d.value { Some(Block { info: c.info.clone(), literal: c.literal.clone(), lines: (d.sourcepos.start.line, d.sourcepos.end.line) }) } else { None } }).collect()
}
/// The lines of a text that belong to no code block.
fn outside(text: &str) -> String {
    let b = code_blocks(text);
    text.lines().enumerate().filter(|(i, _)| !b.iter().any(|b| (b.lines.0..=b.lines.1).contains(&(i + 1)))).map(|(_, l)| format!("{l}\n")).collect()
}
fn foot_last(v: &[Blk]) -> bool { v.iter().any(|b| matches!(b, Blk::FootDef(..))) }
fn text(l: &[String]) -> String { l.iter().map(|x| format!("{x}\n")).collect() }

fn c19_case(r: &mut Rng, kinds: &[&str], timeout: u64, max_blocks: usize) -> Case {
    let s = Scratch::new();
    let d = docs::make(r, Punct::AnyStable, true, |c, _| { c.kinds.push((K::Code, 8)); c.kinds.push((K::IndCode, 2)); c.blocks = (1, 4); c.words = (1, 8); c.max_depth = c.max_depth.min(3); c.foot_blocks = false; });
    let mut doc = d.doc.clone();
    let mut o = d.o.clone();
    o.default_language = r.pick(&["", "", "rust", "zig"]).to_string();
    if r.chance(60) { doc.push(Blk::Code("rust".into(), vec!["last".into(), String::new(), "\u{a0}x ".into()], false)); }
    if r.chance(20) {
        doc.push(Blk::Para(vec![Inl::W("noted".into()), Inl::Foot("zz9".into())]));
        doc.push(Blk::FootDef("zz9".into(), vec![Blk::Para(vec![Inl::W("note".into())]), Blk::Code("rust".into(), vec!["in a note".into(), String::new(), "  -- ...".into()], false)]));
    }
    // footnotes and definitions are put out elsewhere than they stand: order is judged without them
    let ordered = !foot_last(&doc);
    let infos = ["rust", "rust", "py", "c++", "Rust", "text", "", "rust title=x", "py  numbers", "py hongdown-no-format", "rust x hongdown-no-format", "rust hongdown-no-formatting", "hongdown-no-format", "rusty", "rust\ttitle", "py\thongdown-no-format", "rust \t x"];
    let mut n = 0;
    each_code(&mut doc, &mut |i, l, ind| {
        n += 1;
        // (a tab may be expanded by the containers it stands in)
        for x in l.iter_mut() { *x = x.replace('\t', "  "); }
        if !*ind { *i = r.pick(&infos).to_string(); }
        if *ind || r.chance(70) { l.insert(0, format!("code number {n}")); }
        if n > max_blocks && !*ind { *i = "text".into(); }
        if n > max_blocks && *ind { *ind = false; *i = "text".into(); }
    });
    if n == 0 { return Case::trivial(); }
    let mut kind_of: HashMap<&str, &str> = HashMap::new();
    for l in ["rust", "py", "c++", "zig"] { if r.chance(85) { kind_of.insert(l, *r.pick(kinds)); } }
    let disabled = r.chance(15);
    if disabled { for l in ["<!-- hongdown-disable -->", "~~~ rust\nraw\n~~~", "<!-- hongdown-enable -->"] { doc.push(Blk::Raw(l.lines().map(|x| x.into()).collect())); } }
    let src = docs::render(&doc, d.style);
    // what should happen
    let mut want_calls: Vec<(String, String)> = vec![];
    let mut want_fail: Vec<(String, String)> = vec![];
    let mut slow = 0;
    let mut wanted_code: Vec<String> = vec![];
    for b in code_blocks(&src) {
        let words: Vec<&str> = b.info.split_whitespace().collect();
        let lang = words.first().copied().unwrap_or(&o.default_language).to_string();
        wanted_code.push(b.literal.clone());
        if lang.is_empty() || words.contains(&"hongdown-no-format") || (disabled && b.literal == "raw\n") { continue; }
        let Some(k) = kind_of.get(lang.as_str()) else { continue };
        want_calls.push((lang.clone(), b.literal.clone()));
        match transform(k, &b.literal) {
            Some(t) => *wanted_code.last_mut().unwrap() = t.lines().map(|x| format!("{x}\n")).collect(),
            None if *k == "orphan" => {}
            None => { want_fail.push((lang, k.to_string())); if SLOW.contains(k) { slow += 1; } }
        }
    }
    let n = wanted_code.len();
    let mut case = Case::new(&format!("{src}\n{kind_of:?}"));
    if want_calls.is_empty() { case.key = None; }
    let plain = o.clone();
    o.code_formatters = kind_of.iter().map(|(l, k)| (l.to_string(), CodeFormatter { command: command(&s, l, k), timeout_secs: if SLOW.contains(k) || *k == "orphan" { timeout } else { 30 } })).collect();
    let t = Instant::now();
    let got = util::fmt_w(&src, &o);
    let took = t.elapsed();
    let log = calls(&s);
    for c in &log { unsafe { if SLOW.contains(kind_of.get(c.0.as_str()).unwrap_or(&"")) && std::path::Path::new(&format!("/proc/{}/exe", c.2)).read_link().ok() == std::env::current_exe().ok() { case.ev("helpers left running", 1); libc::kill(c.2, libc::SIGKILL); } } }
    let orphan = kind_of.values().any(|k| *k == "orphan");
    let ctx = |more: &str| format!("{more}\nhelpers {kind_of:?} default language {:?}\n--- input\n{}", plain.default_language, cut(&src, 1500));
    let (out, warns) = match got { Ok(x) => x, Err(e) => { case.fail("formatting failed", ctx(&e)); return case; } };
    // the exact code, exactly once each
    let show = |c: &[(String, Option<Vec<u8>>, i32)]| c.iter().map(|c| format!("{} {:?}", c.0, c.1.as_ref().map(|b| cut(&String::from_utf8_lossy(b), 80)))).collect::<Vec<_>>().join("\n");
    let mut w: Vec<(String, Option<Vec<u8>>)> = want_calls.iter().filter(|(l, _)| !matches!(kind_of[l.as_str()], "missing" | "notexec" | "isdir")).map(|(l, c)| (l.clone(), if matches!(kind_of[l.as_str()], "noread" | "noreadfail" | "hang" | "flood" | "errflood") { None } else { Some(c.clone().into_bytes()) })).collect();
    let mut g: Vec<(String, Option<Vec<u8>>)> = log.iter().map(|c| (c.0.clone(), c.1.clone())).collect();
    if !ordered { w.sort(); g.sort(); }
    // a helper killed before it could say anything has still been run
    if w != g && !(slow > 0 && g.len() <= w.len()) { case.fail("the helpers were not given exactly the code", ctx(&format!("wanted {:?}\ngot {}", w.iter().map(|c| (&c.0, c.1.as_ref().map(|b| cut(&String::from_utf8_lossy(b), 80)))).collect::<Vec<_>>(), show(&log)))); }
    case.ev("helper calls", log.len());
    case.ev("bytes given to helpers", log.iter().map(|c| c.1.as_ref().map_or(0, |b| b.len())).sum());
    case.ev("failures expected", want_fail.len());
    case.ev("blocks not to be formatted", n - want_calls.len().min(n));
    case.ev("timeouts expected", slow);
    // time
    let limit = Duration::from_secs(timeout * (slow as u64 + want_calls.len() as u64 * orphan as u64) + 20);
    if took > limit { case.fail("formatting took longer than the timeouts", ctx(&format!("{took:?}"))); }
    if orphan { return case; }
    // output: that without helpers, but for the code
    match util::fmt_w(&src, &plain) {
        Ok((x, base)) => {
            let (mut g, mut w): (Vec<String>, Vec<String>) = (code_blocks(&out).into_iter().map(|b| b.literal).collect(), wanted_code);
            if !ordered { g.sort(); w.sort(); }
            if g != w { case.fail("the code in the output is not what the helpers printed", ctx(&format!("--- wanted\n{}--- got\n{}", cut(&w.join("----\n"), 1500), cut(&out, 1500)))); }
            let (p, q) = (outside(&x), outside(&out));
            if p != q { case.fail("the rest of the document is formatted in another way", ctx(&crate::m_meta::diff(&p, &q))); }
            if kind_of.values().all(|k| *k == "echo" || transform(k, "").is_none()) && x != out { case.fail("another text although no helper changed anything", ctx(&crate::m_meta::diff(&x, &out))); }
            let fails: Vec<&(usize, String)> = warns.iter().filter(|w| w.1.starts_with("code formatter")).collect();
            let rest: Vec<&String> = warns.iter().filter(|w| !w.1.starts_with("code formatter")).map(|w| &w.1).collect();
            if rest != base.iter().map(|w| &w.1).collect::<Vec<_>>() { case.fail("other warnings changed", ctx(&format!("{warns:?}\n{base:?}"))); }
            let mut left: Vec<&str> = fails.iter().map(|w| w.1.as_str()).collect();
            for (lang, k) in &want_fail {
                let word = match k.as_str() { "exit3" => "3: boom", "exit1quiet" => "code 1", "partial" => "2: half", "noisyfail" => "code 4: eee", "noreadfail" => "code 7", "sig" | "abrt" => "signal", "badutf8" | "cututf8" => "UTF-8", "missing" => "No such file", "notexec" | "isdir" => "ermission denied", _ => "timed out" };
                match left.iter().position(|l| l.contains(&format!("'{lang}'")) && l.contains(word) && l.contains(&command(&s, lang, k)[0])) { Some(i) => { left.remove(i); } None => case.fail("a failure is not named by a warning", ctx(&format!("{lang} {k}: {warns:?}"))) }
            }
            if !left.is_empty() { case.fail("a warning without failure", ctx(&format!("{left:?}"))); }
        }
        Err(e) => case.fail("formatting failed", ctx(&e)),
    }
    case
}

pub fn c19(c: &mut Ctx) {
    c.assumptions.push("helpers that must be killed get 1 s; a helper that leaves a child holding its output may count as failed or as successful".into());
    let n = c.n(420, 12000);
    c.section("successes", "generated documents with code in every container; languages with and without helper, default language, opt-outs, disabled regions; helpers echo, transform, print without reading, read slowly, write early, flood stderr; the helpers' own log must hold exactly the code, each block once, and the output must be that of the document with the helpers' output as code", n, |r, _| c19_case(r, GOOD, 30, 12));
    let n = c.n(400, 12000);
    c.section("failures", "the same with helpers that fail: missing, not executable, a directory, non-zero exit with and without output, killed by a signal, invalid and truncated UTF-8, exit without reading", n, |r, _| { let k: Vec<&str> = BAD.iter().chain(["echo", "upper", "prefix"].iter()).copied().collect(); c19_case(r, &k, 30, 12) });
    let n = c.n(24, 400);
    c.section("timeouts", "the same with helpers that never end: asleep before and after reading, flooding output or stderr, dripping output", n, |r, _| { let k: Vec<&str> = SLOW.iter().chain(["echo", "upper"].iter()).copied().collect(); c19_case(r, &k, 1, 3) });
    let n = c.n(8, 100);
    c.section("orphans", "helpers that leave a child holding their output open: formatting ends within the timeout", n, |r, _| c19_case(r, &["orphan"], 1, 2));
    let n = c.n(60, 1500);
    c.section("sizes", "one block of 0 bytes to megabytes, around the pipe capacity, through helpers that echo while reading, read all first, or do not read", n, |r, i| {
        let s = Scratch::new();
        let sizes = [0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200_000, 1_000_000, 3_000_000];
        let size = sizes[i % sizes.len()] + r.below(3) * (i / sizes.len() % 2);
        let mut code = String::new();
        while code.len() < size { let k = r.range(1, 90).min(size - code.len()); if k == 1 { code.push('\n'); } else { code.push_str(&"x".repeat(k - 1)); code.push('\n'); } }
        let kind = *r.pick(&["echo", "early", "noread", "late", "slowread", "noise", "exit3", "partial", "noreadfail"]);
        let mut o = Options::default();
        let plain = o.clone();
        o.code_formatters.insert("rust".into(), CodeFormatter { command: command(&s, "rust", kind), timeout_secs: 60 });
        let src = format!("before\n\n~~~~ rust\n{code}~~~~\n\nafter *x*\n");
        let mut case = Case::new(&format!("{kind} {} bytes {}", code.len(), crate::mon::hash(&code)));
        let (out, w) = match util::fmt_w(&src, &o) { Ok(x) => x, Err(e) => { case.fail("formatting failed", e); return case; } };
        let t = transform(kind, &code);
        let want = util::fmt(&format!("before\n\n~~~~ rust\n{}~~~~\n\nafter *x*\n", t.as_ref().unwrap_or(&code)), &plain).unwrap_or_default();
        if out != want { case.fail("another text", format!("{kind}, {} bytes in, {} out, {} wanted, warnings {w:?}", code.len(), out.len(), want.len())); }
        if w.len() != t.is_none() as usize { case.fail("warnings", format!("{kind}, {} bytes: {w:?}", code.len())); }
        let log = calls(&s);
        let reads = !matches!(kind, "noread" | "noreadfail");
        if log.len() != 1 || (reads && log[0].1.as_deref() != Some(code.as_bytes())) { case.fail("the helper was not given exactly the code", format!("{kind}, {} bytes, {} calls", code.len(), log.len())); }
        case.ev("bytes", code.len());
        case.ev("helper calls", log.len());
        case
    });
    let n = c.n(60, 1500);
    c.section("command line", "helpers configured in a configuration file as an array or a table with and without timeout; the binary's output and warnings must be the library's; an empty command is refused before any file is touched", n, |r, _| {
        let s = Scratch::new();
        let kind = *r.pick(&["echo", "upper", "prefix", "exit3", "badutf8", "missing", "sig", "hang"]);
        let cmd = command(&s, "rust", kind);
        let secs = if kind == "hang" { 1 } else { 30 };
        let list = format!("[{}]", cmd.iter().map(|x| serde_json::Value::from(x.as_str()).to_string()).collect::<Vec<_>>().join(", "));
        let form = if kind == "hang" { 1 } else { r.below(4) };
        let t = match form { 0 => format!("[code_block.formatters]\nrust = {list}\n"), 1 => format!("[code_block.formatters]\nrust = {{ command = {list}, timeout = {secs} }}\n"), 2 => format!("[code_block.formatters.rust]\ncommand = {list}\n"), _ => format!("code_block.formatters.rust = {list}\n") };
        let empty = r.chance(15);
        let t = if empty { format!("{t}{}", if form == 3 { "code_block.formatters.py = []\n" } else if form == 2 { "[code_block.formatters.py]\ncommand = []\n" } else if r.chance(50) { "py = []\n" } else if form < 2 { "py = { command = [] }\n" } else { "" }) } else { t };
        s.put("w/.hongdown.toml", &t);
        let src = format!("# Title\n\n* x\n\n```rust\nfn main() {{}} // {}\n```\n\n```python\nx\n```\n", r.below(1000));
        s.put("w/a.md", &src);
        let mut case = Case::new(&format!("{kind} {t}"));
        let mode = *r.pick(&["print", "--write"]);
        let started = Instant::now();
        let mut k = Call::new(&s, &[]);
        if mode != "print" { k = k.arg(mode); }
        let k = k.arg("a.md").run();
        case.ev("runs", 1);
        if started.elapsed() > Duration::from_secs(25) { case.fail("took longer than the timeout", format!("{t}\n{:?}", started.elapsed())); }
        if empty {
            case.ev("empty commands", 1);
            if k.code != Some(1) || !k.err.starts_with("Error") || !k.err.contains("py") || !k.out.is_empty() || s.get("w/a.md") != src.as_bytes() { case.fail("an empty formatter command is not refused", format!("{t}\n{}", k.show())); }
            return case;
        }
        let mut o = Options::default();
        o.code_formatters.insert("rust".into(), CodeFormatter { command: cmd, timeout_secs: secs });
        let (want, w) = util::fmt_w(&src, &o).unwrap_or_default();
        let got = if mode == "print" { k.out.clone() } else { s.get("w/a.md") };
        if got != want.as_bytes() { case.fail("another text than the library's", format!("{t}\n{}--- wanted\n{want}", k.show())); }
        if k.code != Some(0) { case.fail("exit status", k.show()); }
        let lines: Vec<String> = w.iter().map(|(l, m)| format!("a.md:{l}: warning: {m}")).collect();
        if k.err.trim_end() != lines.join("\n").trim_end() { case.fail("warnings", format!("wanted {lines:?}\n{}", k.show())); }
        case
    });
}
