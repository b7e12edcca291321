//! C20 (every mode agrees, only --write writes) and C21 (bad files do not spoil the others).
use crate::cli::*;
use crate::docs;
use crate::mon::{Case, Ctx};
use crate::opts::Punct;
use crate::rng::Rng;
use crate::util;
use hongdown::Options;

pub const NAMES: &[&str] = &["a.md", "b.md", "sub/c.md", "sub/deep/d.markdown", "with space.md", "ünïcødé 日本.md", "UPPER.MD", "no-extension", "x.txt", "sub dir/e.md", "'quoted'.md", "new\nline.md", "z.md", "--- z.md"];

/// Content for a file: unformatted, formatted, empty, odd.
fn content(r: &mut Rng, o: &Options) -> String {
    let d = docs::make(r, Punct::AnyStable, true, |c, _| { c.words = (1, 12); c.blocks = (1, 4); });
    let mut s = d.src;
    match r.below(12) {
        0 => String::new(),
        1 => "\n\n \n".into(),
        2 => s.trim_end().to_string(),
        3 => s.replace('\n', "\r\n"),
        4 | 5 | 6 => util::fmt(&s, o).unwrap_or(s),
        7 => { s.push_str("\nSee [the text][missing label] and [another][also missing].\n"); s }
        8 => format!("---\ntitle: x\n---\n\n{s}"),
        _ => s,
    }
}
fn wanted(o: &Options, src: &str) -> (String, Vec<(usize, String)>) {
    util::fmt_w(src, o).unwrap_or_else(|e| panic!("library: {e}"))
}
fn warn_lines(name: &str, w: &[(usize, String)]) -> Vec<String> { w.iter().map(|(l, m)| format!("{name}:{l}: warning: {m}")).collect() }
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
fn split_lines(v: &[String]) -> Vec<String> { v.iter().flat_map(|x| x.split('\n').map(|y| y.to_string())).collect() }

/// Applies a unified diff of one file, as printed, to the text; what is left of the diff.
fn apply_diff<'a>(name: &str, orig: &str, d: &'a str) -> Result<(Vec<String>, &'a str), String> {
    let head = format!("--- {name}\n+++ {name}\n");
    let mut rest = d.strip_prefix(&head).ok_or_else(|| format!("no header for {name} at {:?}", cut(d, 80)))?;
    let lines: Vec<&str> = if orig.is_empty() { vec![] } else { orig.strip_suffix('\n').unwrap_or(orig).split('\n').collect() };
    let mut at = 0;
    let mut out: Vec<String> = vec![];
    let take = |rest: &mut &'a str| -> Option<&'a str> { let (l, t) = rest.split_once('\n')?; *rest = t; Some(l) };
    let mut hunks = 0;
    while rest.starts_with("@@ ") {
        let h = take(&mut rest).ok_or("cut off")?;
        let f: Vec<&str> = h.split(' ').collect();
        let num = |x: &str| -> Option<(usize, usize)> { let x = &x[1..]; Some(match x.split_once(',') { Some((a, b)) => (a.parse().ok()?, b.parse().ok()?), None => (x.parse().ok()?, 1) }) };
        if f.len() != 4 || f[3] != "@@" { return Err(format!("hunk header {h:?}")); }
        let ((os, ol), (ns, nl)) = (num(f[1]).ok_or("hunk header")?, num(f[2]).ok_or("hunk header")?);
        let start = if ol == 0 { os } else { os.checked_sub(1).ok_or("hunk header")? };
        if start < at || start > lines.len() { return Err(format!("hunk {h:?} at line {at}")); }
        out.extend(lines[at..start].iter().map(|x| x.to_string()));
        at = start;
        if out.len() != if nl == 0 { ns } else { ns.wrapping_sub(1) } { return Err(format!("hunk {h:?} starts at new line {}", out.len())); }
        let (mut o, mut n) = (0, 0);
        while o < ol || n < nl {
            let l = take(&mut rest).ok_or("hunk cut off")?;
            let (c, t) = l.split_at_checked(1).ok_or("empty hunk line")?;
            match c {
                " " | "-" => {
                    if lines.get(at) != Some(&t) { return Err(format!("hunk line {l:?}, file line {:?}", lines.get(at))); }
                    at += 1;
                    o += 1;
                    if c == " " { out.push(t.into()); n += 1; }
                }
                "+" => { out.push(t.into()); n += 1; }
                _ => return Err(format!("hunk line {l:?}")),
            }
        }
        hunks += 1;
    }
    if hunks == 0 { return Err("no hunks".into()); }
    out.extend(lines[at..].iter().map(|x| x.to_string()));
    Ok((out, rest))
}
fn first_diff(have: &[String], want: &[String]) -> String {
    let i = have.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("first at line {}: have {:?}, want {:?}", i + 1, have.get(i), want.get(i))
}
fn text_lines(s: &str) -> Vec<String> { if s.is_empty() { vec![] } else { s.strip_suffix('\n').unwrap_or(s).split('\n').map(|x| x.into()).collect() } }

pub fn c20(c: &mut Ctx) {
    c.assumptions.push("files are written by nobody else meanwhile; a diff does not show a missing final newline".into());
    let n = c.n(500, 12000);
    c.section("modes", "a generated tree of 1-8 files (unformatted, formatted, empty, CRLF, without final newline, with undefined references) under a generated configuration file, run through print, diff, check, stdin (plain, check, diff), write, check and write again; content, inode, time and mode of every file and every modifying system call are compared with what the library returns", n, |r, _| {
        let s = Scratch::new();
        let o_set = if r.chance(30) { vec![] } else { random_set_idem(r) };
        if !o_set.is_empty() { s.put("w/.hongdown.toml", toml_of(&o_set, r)); }
        let mut o = options_of(&o_set);
        let mut flags: Vec<String> = vec![];
        if r.chance(20) { let w = r.range(30, 120); flags = vec!["--line-width".into(), w.to_string()]; o.line_width = hongdown::LineWidth::new(w).unwrap(); }
        let mut names: Vec<&str> = NAMES.to_vec();
        r.shuffle(&mut names);
        names.truncate(r.range(1, 8));
        let texts: Vec<String> = names.iter().map(|_| content(r, &o)).collect();
        for (n, t) in names.iter().zip(&texts) { s.put(&format!("w/{n}"), t); }
        if r.chance(20) {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(s.p(&format!("w/{}", names[0])), std::fs::Permissions::from_mode(*r.pick(&[0o600, 0o755, 0o664])));
        }
        // an unrelated file that nothing may touch
        s.put("w/other.md.bak", "* x\n");
        let mut case = Case::new(&format!("{names:?} {texts:?} {o_set:?}"));
        let want: Vec<_> = texts.iter().map(|t| wanted(&o, t)).collect();
        let differs: Vec<bool> = want.iter().zip(&texts).map(|(w, t)| &w.0 != t).collect();
        let any = differs.iter().any(|x| *x);
        let warns: Vec<String> = names.iter().zip(&want).flat_map(|(n, w)| warn_lines(n, &w.1)).collect();
        case.ev("files", names.len());
        case.ev("files to change", differs.iter().filter(|x| **x).count());
        case.ev("warnings", warns.len());
        case.ev("settings", o_set.len());
        let before = snapshot(&s.p("w"));
        let call = |m: &[&str], files: bool| { let mut k = Call::new(&s, m).args(&flags); if files { k = k.arg("--").args(&names); } k };
        let bad = |case: &mut Case, what: &str, run: &Run, more: String| case.fail(what, format!("{}\n{}\nfiles {names:?}\nconfig {o_set:?} flags {flags:?}", run.show(), more));
        let all_out: String = want.iter().map(|w| w.0.as_str()).collect();
        // print
        let k = call(&[], true).run();
        if k.out != all_out.as_bytes() { bad(&mut case, "printed text differs from the library's", &k, format!("--- wanted\n{}", cut(&all_out, 1500))); return case; }
        if k.code != Some(0) { bad(&mut case, "print: exit status", &k, String::new()); }
        if k.err_lines() != split_lines(&warns) { bad(&mut case, "print: warnings", &k, format!("wanted {warns:?}")); }
        let intact = |case: &mut Case, what: &str, k: &Run| { if snapshot(&s.p("w")) != before || !k.log.is_empty() { case.fail(format!("{what} modified something"), k.show()); } };
        intact(&mut case, "print", &k);
        // diff
        let k = call(&[*r.pick(&["-d", "--diff"])], true).run();
        if k.code != Some(0) { bad(&mut case, "diff: exit status", &k, String::new()); }
        if k.err_lines() != split_lines(&warns) { bad(&mut case, "diff: warnings", &k, format!("wanted {warns:?}")); }
        let d = k.out_str();
        let mut rest = d.as_str();
        for ((n, t), (w, df)) in names.iter().zip(&texts).zip(want.iter().zip(&differs)) {
            if !df { continue; }
            match apply_diff(n, t, rest) {
                Ok((l, x)) => { rest = x; if l != text_lines(&w.0) { bad(&mut case, "applying the diff gives another text", &k, format!("file {n}\n{}", first_diff(&l, &text_lines(&w.0)))); } }
                Err(e) => { bad(&mut case, "unusable diff", &k, format!("file {n}: {e}")); break; }
            }
            case.ev("diffs applied", 1);
        }
        if !rest.is_empty() && case.fail.is_none() { bad(&mut case, "diff output beyond the files that differ", &k, cut(rest, 300)); }
        intact(&mut case, "diff", &k);
        // check
        let k = call(&[*r.pick(&["-c", "--check"])], true).run();
        if k.code != Some(any as i32) { bad(&mut case, "check: exit status", &k, format!("wanted {}", any as i32)); }
        let mut w: Vec<String> = warns.clone();
        w.extend(names.iter().zip(&differs).filter(|x| *x.1).map(|x| format!("{}: not formatted", x.0)));
        if sorted(k.err_lines()) != sorted(split_lines(&w)) || !k.out.is_empty() { bad(&mut case, "check: messages", &k, format!("wanted {w:?}")); }
        intact(&mut case, "check", &k);
        // stdin
        let i = r.below(names.len());
        let how: &[&str] = *r.pick(&[&["--stdin"], &["-"]]);
        let sw = warn_lines("<stdin>", &want[i].1);
        let k = call(how, false).stdin(&texts[i]).run();
        if k.out != want[i].0.as_bytes() || k.code != Some(0) { bad(&mut case, "stdin differs from the library's text", &k, format!("--- input\n{}--- wanted\n{}", cut(&texts[i], 600), cut(&want[i].0, 600))); }
        if k.err_lines() != sw { bad(&mut case, "stdin: warnings", &k, format!("wanted {sw:?}")); }
        let k = call(&[how[0], "--check"], false).stdin(&texts[i]).run();
        let mut sw2 = sw.clone();
        if differs[i] { sw2.push("<stdin>: not formatted".into()); }
        if k.code != Some(differs[i] as i32) || sorted(k.err_lines()) != sorted(sw2.clone()) || !k.out.is_empty() { bad(&mut case, "stdin check", &k, format!("wanted {sw2:?}")); }
        let k = call(&[how[0], "--diff"], false).stdin(&texts[i]).run();
        if k.code != Some(0) { bad(&mut case, "stdin diff: exit status", &k, String::new()); }
        if !differs[i] { if !k.out.is_empty() { bad(&mut case, "stdin diff of formatted text", &k, String::new()); } }
        else {
            match apply_diff("<stdin>", &texts[i], &k.out_str()) {
                Ok((l, "")) if l == text_lines(&want[i].0) => {}
                x => bad(&mut case, "stdin diff does not give the library's text", &k, format!("{:?}", x.map(|y| y.1.to_string()))),
            }
        }
        intact(&mut case, "stdin", &k);
        // write
        let k = call(&[*r.pick(&["-w", "--write"])], true).env("HDS_DELAY", if r.chance(30) { r.below(1000).to_string() } else { "1".into() }).run();
        if k.code != Some(0) { bad(&mut case, "write: exit status", &k, String::new()); }
        let changed: Vec<String> = names.iter().zip(&differs).filter(|x| *x.1).map(|x| x.0.to_string()).collect();
        if sorted(k.out_str().lines().map(|x| x.to_string()).collect()) != sorted(split_lines(&changed)) { bad(&mut case, "write: files reported", &k, format!("wanted {changed:?}")); }
        if sorted(k.err_lines()) != sorted(split_lines(&warns)) { bad(&mut case, "write: messages", &k, format!("wanted {warns:?}")); }
        let after = snapshot(&s.p("w"));
        if after.len() != before.len() { bad(&mut case, "write: files appeared or vanished", &k, format!("{:?}", tree(&s.p("w")))); }
        for ((p, b), (_, a)) in before.iter().zip(&after) {
            let rel = p.strip_prefix(s.p("w")).unwrap().to_str().unwrap();
            match names.iter().position(|n| *n == rel) {
                Some(i) if differs[i] => {
                    let (a, b) = (a.as_ref().unwrap(), b.as_ref().unwrap());
                    if a.content.as_deref() != Some(want[i].0.as_bytes()) { bad(&mut case, "write: a file holds another text", &k, format!("{rel}\n--- wanted\n{}--- got\n{}", cut(&want[i].0, 800), cut(&String::from_utf8_lossy(a.content.as_deref().unwrap_or_default()), 800))); }
                    if a.mode != b.mode { bad(&mut case, "write: a file's mode changed", &k, rel.into()); }
                    case.ev("files rewritten", 1);
                }
                _ => if a != b { bad(&mut case, "write: a file that needs no change was touched", &k, rel.into()); }
            }
        }
        let opens = k.log.join("\n");
        for (n, d) in names.iter().zip(&differs) { if !d && opens.contains(&format!("{}\n", s.p(&format!("w/{n}")).display())) { bad(&mut case, "write: opened a file that needs no change for writing", &k, n.to_string()); } }
        // and again
        if want.iter().all(|w| wanted(&o, &w.0).0 == w.0) {
            let k = call(&["--check"], true).run();
            if k.code != Some(0) { bad(&mut case, "a check after write fails", &k, String::new()); }
            let snap = snapshot(&s.p("w"));
            let k = call(&["--write"], true).run();
            if k.code != Some(0) || !k.out.is_empty() || !k.log.is_empty() || snapshot(&s.p("w")) != snap { bad(&mut case, "a second write is not idle", &k, String::new()); }
            case.ev("checks after write", 1);
        }
        case.ev("invocations", 9);
        case
    });
    let n = c.n(60, 1200);
    c.section("directories", "the same tree given as directories, files and include patterns, with hard and symbolic links to files: every mode sees the same set and a file reached twice is written once", n, |r, _| {
        let s = Scratch::new();
        let o = defaults();
        let mut names: Vec<&str> = NAMES.iter().copied().filter(|n| { let l = n.to_lowercase(); (l.ends_with(".md") || l.ends_with(".markdown")) && !n.contains('\n') }).collect();
        r.shuffle(&mut names);
        names.truncate(r.range(1, 6));
        let texts: Vec<String> = names.iter().map(|_| content(r, &o)).collect();
        for (n, t) in names.iter().zip(&texts) { s.put(&format!("w/t/{n}"), t); }
        let link = r.chance(50);
        if link { std::os::unix::fs::symlink(s.p(&format!("w/t/{}", names[0])), s.p("w/t/zz-link.md")).unwrap(); }
        let mut case = Case::new(&format!("{names:?} {texts:?} {link}"));
        let want: Vec<_> = texts.iter().map(|t| wanted(&o, t).0).collect();
        let any = want.iter().zip(&texts).any(|(a, b)| a != b);
        let mut args: Vec<String> = vec!["t".into()];
        if r.chance(50) { args.push(format!("t/{}", names[0])); }
        if r.chance(30) { args.push("./t".into()); }
        let before = snapshot(&s.p("w"));
        let k = Call::new(&s, &["--check"]).args(&args).run();
        if k.code != Some(any as i32) || !k.log.is_empty() { case.fail("check of a directory", k.show()); }
        let nf = k.err_lines().iter().filter(|l| l.ends_with(": not formatted")).count();
        if nf != want.iter().zip(&texts).filter(|(a, b)| a != b).count() { case.fail("check of a directory: not every file once", k.show()); }
        let k = Call::new(&s, &[]).args(&args).run();
        let mut lens: Vec<usize> = want.iter().map(|x| x.len()).collect();
        if k.out.len() != lens.iter().sum::<usize>() { case.fail("print of a directory: not every file once", k.show()); }
        lens.sort();
        if snapshot(&s.p("w")) != before { case.fail("print or check modified something", k.show()); }
        let k = Call::new(&s, &["--write"]).args(&args).env("HDS_DELAY", r.below(1000).to_string()).run();
        if k.code != Some(0) { case.fail("write of a directory: exit status", k.show()); }
        for (n, w) in names.iter().zip(&want) { if s.get(&format!("w/t/{n}")) != w.as_bytes() { case.fail("write of a directory: another text", format!("{n}\n{}", k.show())); } }
        if link && stamp(&s.p("w/t/zz-link.md")).is_none_or(|x| x.link.is_none()) { case.fail("a symbolic link was replaced", k.show()); }
        let mut opens: Vec<&String> = k.log.iter().filter(|l| l.starts_with("open ")).collect();
        let total = opens.len();
        opens.sort();
        opens.dedup();
        if total != want.iter().zip(&texts).filter(|(a, b)| a != b).count() || opens.len() != total { case.fail("write of a directory: not every differing file opened for writing once", k.show()); }
        case.ev("files", names.len());
        case.ev("arguments", args.len());
        case.ev("files opened for writing", total);
        case
    });
}
/// Settings for which formatting is idempotent on the generated documents.
fn random_set_idem(r: &mut Rng) -> Vec<Set> {
    let mut v = random_set(r, 25);
    v.retain(|(p, _)| !matches!(*p, "unordered_list.leading_spaces" | "unordered_list.trailing_spaces" | "unordered_list.indent_width" | "ordered_list.indent_width" | "thematic_break.leading_spaces" | "heading.sentence_case" | "punctuation.curly_apostrophes"));
    if v.iter().any(|(p, x)| *p == "line_width" && matches!(x, V::N(n) if *n < 40)) { v.retain(|(p, _)| *p != "line_width"); }
    v
}

// ---------------------------------------------------------------- C21
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Fine, Done, Missing, Binary, NoRead, NoReadIo, NoWrite, ReadOnlyFs, Full, Dangling, Loop, Through }
pub fn c21(c: &mut Ctx) {
    c.assumptions.push("a file whose writing fails midway (disk full) may be left truncated: the statement is about the other files".into());
    let n = c.n(900, 20000);
    c.section("faults", "1-10 files in random order, each fine, already formatted, missing, not UTF-8, failing to open for reading (EACCES, EIO), failing to open for writing (EACCES, EROFS), failing in write() (ENOSPC), a dangling or looping link, or below a file; random delays around every open; every mode; each failure is reported once by name, every other file is handled as if alone, the exit status tells", n, |r, _| {
        let s = Scratch::new();
        let o = defaults();
        let k = r.range(1, 10);
        let pct = *r.pick(&[10, 30, 60]);
        let mode = *r.pick(&["--write", "--write", "--check", "--diff", "print"]);
        let mut names = vec![];
        let mut kinds = vec![];
        let mut texts = vec![];
        let mut faults = vec![];
        for i in 0..k {
            let n = format!("{}f{i}{}.md", r.pick(&["", "sub/", "s p/"]), r.pick(&["", "é", " x"]));
            let kind = if r.chance(pct) { *r.pick(&[Kind::Missing, Kind::Binary, Kind::NoRead, Kind::NoReadIo, Kind::NoWrite, Kind::ReadOnlyFs, Kind::Full, Kind::Dangling, Kind::Loop, Kind::Through]) } else { *r.pick(&[Kind::Fine, Kind::Fine, Kind::Done]) };
            let mut t = content(r, &o);
            if kind == Kind::Done { t = wanted(&o, &t).0; }
            let rel = format!("w/{n}");
            let rp = s.p(&rel);
            std::fs::create_dir_all(rp.parent().unwrap()).unwrap();
            match kind {
                Kind::Missing => {}
                Kind::Binary => { let mut b = t.clone().into_bytes(); let at = r.below(b.len() + 1); b.splice(at..at, r.pick(&[&[0xffu8][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0xf0, 0x9f]]).iter().copied()); if std::str::from_utf8(&b).is_ok() { b.push(0xff); } s.put(&rel, b) }
                Kind::Dangling => std::os::unix::fs::symlink("nowhere", &rp).unwrap(),
                Kind::Loop => std::os::unix::fs::symlink(rp.file_name().unwrap(), &rp).unwrap(),
                Kind::Through => { s.put(&format!("{rel}x"), "x"); }
                _ => s.put(&rel, &t),
            }
            let n = if kind == Kind::Through { format!("{n}x/y.md") } else { n };
            match kind {
                Kind::NoRead => faults.push(('r', libc::EACCES, rel)),
                Kind::NoReadIo => faults.push(('r', libc::EIO, rel)),
                Kind::NoWrite => faults.push(('w', libc::EACCES, rel)),
                Kind::ReadOnlyFs => faults.push(('w', libc::EROFS, rel)),
                Kind::Full => faults.push(('x', libc::ENOSPC, rel)),
                _ => {}
            }
            names.push(n);
            kinds.push(kind);
            texts.push(t);
        }
        let mut case = Case::new(&format!("{mode} {names:?} {kinds:?} {texts:?}"));
        let before = snapshot(&s.p("w"));
        let mut call = if mode == "print" { Call::new(&s, &[]) } else { Call::new(&s, &[mode]) };
        call = call.args(&names).faults(&faults);
        if r.chance(60) { call = call.env("HDS_DELAY", r.below(10000).to_string()); }
        let run = call.run();
        let bad = |case: &mut Case, what: &str, more: String| case.fail(format!("{mode}: {what}"), format!("{more}\n{names:?}\n{kinds:?}\n{}", run.show()));
        let unread = |k: Kind| matches!(k, Kind::Missing | Kind::Binary | Kind::NoRead | Kind::NoReadIo | Kind::Dangling | Kind::Loop | Kind::Through);
        let unwritten = |k: Kind| matches!(k, Kind::NoWrite | Kind::ReadOnlyFs | Kind::Full);
        let mut left: Vec<String> = run.err_lines();
        let mut take = |pre: String, exact: bool| -> bool { match left.iter().position(|l| if exact { *l == pre } else { l.starts_with(&pre) }) { Some(i) => { left.remove(i); true } None => false } };
        let mut failed = false;
        let mut out_want = String::new();
        let mut diff_rest = run.out_str();
        let mut written: Vec<String> = vec![];
        for i in 0..k {
            let (n, kd) = (&names[i], kinds[i]);
            if unread(kd) {
                failed = true;
                case.ev("unreadable files", 1);
                if !take(format!("Error reading {n}: "), false) { bad(&mut case, "a file that cannot be read is not reported", n.clone()); }
                continue;
            }
            let (w, ws) = wanted(&o, &texts[i]);
            let differs = w != texts[i];
            for l in warn_lines(n, &ws) { if !take(l.clone(), true) { bad(&mut case, "a warning is missing", l); } }
            match mode {
                "--write" => {
                    let now = s.get(&format!("w/{n}"));
                    if unwritten(kd) && differs && !(kd == Kind::Full && w.is_empty()) {
                        failed = true;
                        case.ev("unwritable files", 1);
                        if !take(format!("Error writing {n}: "), false) { bad(&mut case, "a file that cannot be written is not reported", n.clone()); }
                        if kd != Kind::Full && now != texts[i].as_bytes() { bad(&mut case, "a file that cannot be written changed", n.clone()); }
                    } else {
                        if now != w.as_bytes() { bad(&mut case, "a good file is not formatted", n.clone()); }
                        if differs { written.push(n.clone()); case.ev("good files", 1); }
                    }
                }
                "--check" => if differs { failed = true; case.ev("good files", 1); if !take(format!("{n}: not formatted"), true) { bad(&mut case, "a file is not reported as unformatted", n.clone()); } },
                "--diff" => if differs { case.ev("good files", 1); match apply_diff(n, &texts[i], &diff_rest.clone()) { Ok((l, x)) => { diff_rest = x.to_string(); if l != text_lines(&w) { bad(&mut case, "another text", format!("{n}\n{}", first_diff(&l, &text_lines(&w)))); } } Err(e) => bad(&mut case, "unusable diff", format!("{n}: {e}")) } },
                _ => { case.ev("good files", 1); out_want.push_str(&w) }
            }
        }
        if !left.is_empty() { bad(&mut case, "unexpected messages", format!("{left:?}")); }
        match mode {
            "--write" => if sorted(run.out_str().lines().map(|x| x.into()).collect()) != sorted(written.clone()) { bad(&mut case, "files reported as written", format!("wanted {written:?}")); },
            "--check" => if !run.out.is_empty() { bad(&mut case, "output", String::new()); },
            "--diff" => if !diff_rest.is_empty() && case.fail.is_none() { bad(&mut case, "output beyond the differing files", cut(&diff_rest, 300)); },
            _ => if run.out != out_want.as_bytes() { bad(&mut case, "another text", cut(&out_want, 800)); }
        }
        if run.code != Some(failed as i32) { bad(&mut case, "exit status", format!("wanted {}", failed as i32)); }
        if mode != "--write" && (snapshot(&s.p("w")) != before || !run.log.is_empty()) { bad(&mut case, "modified something", String::new()); }
        if failed { case.ev("failing runs", 1); } else { case.ev("clean runs", 1); }
        case.ev("faults injected", faults.len());
        case
    });
    let n = c.n(250, 5000);
    c.section("unreadable directories", "a directory argument with subdirectories, one of which may not be listed (EACCES, EIO): the files elsewhere are processed, the directory is reported by name and the exit status is not zero", n, |r, _| {
        let s = Scratch::new();
        let o = defaults();
        let dirs = ["w/t", "w/t/a", "w/t/a/b", "w/t/c", "w/t/d"];
        let mut files = vec![];
        for d in dirs { for i in 0..r.range(1, 2) { let t = content(r, &o); let f = format!("{d}/f{i}.md"); s.put(&f, &t); files.push((f, t)); } }
        let blocked = if r.chance(80) { Some(*r.pick(&dirs[1..])) } else { None };
        let errno = *r.pick(&[libc::EACCES, libc::EIO]);
        let mode = *r.pick(&["--write", "--check", "print"]);
        // a dangling link that is no Markdown file (as editors leave) is no failure
        if r.chance(30) { std::os::unix::fs::symlink("user@host.123:456", s.p("w/t/.#f0.lock")).unwrap(); }
        let mut case = Case::new(&format!("{files:?} {blocked:?} {mode}"));
        let mut call = if mode == "print" { Call::new(&s, &[]) } else { Call::new(&s, &[mode]) };
        call = call.arg("t");
        if let Some(b) = blocked { call = call.faults(&[('d', errno, b.to_string())]); case.ev("unreadable directories", 1); }
        let run = call.run();
        let mut fail = blocked.is_some();
        if let Some(b) = blocked {
            let b = b.strip_prefix("w/").unwrap();
            if !run.err_lines().iter().any(|l| l.starts_with("Error") && l.contains(b)) { case.fail("a directory that cannot be read is not reported", format!("{b}\n{}", run.show())); }
        }
        let mut out = String::new();
        let mut order: Vec<&(String, String)> = files.iter().collect();
        order.sort_by(|a, b| std::path::Path::new(&a.0).cmp(std::path::Path::new(&b.0)));
        for (f, t) in order {
            let hidden = blocked.is_some_and(|b| f.starts_with(&format!("{b}/")));
            let w = wanted(&o, t).0;
            let rel = f.strip_prefix("w/").unwrap();
            let now = s.get(f);
            match mode {
                "--write" => if now != if hidden { t.as_bytes() } else { w.as_bytes() } { case.fail("write: another text", format!("{f}\n{}", run.show())); },
                "--check" => { let said = run.err_lines().iter().any(|l| *l == format!("{rel}: not formatted")); if said != (!hidden && w != *t) { case.fail("check: files reported", format!("{f}\n{}", run.show())); } fail |= !hidden && w != *t; }
                _ => if !hidden { out.push_str(&w) }
            }
            case.ev(if hidden { "files out of reach" } else { "files in reach" }, 1);
        }
        if mode == "print" && run.out != out.as_bytes() { case.fail("print: another text", format!("{}\n--- wanted\n{}", run.show(), cut(&out, 800))); }
        if run.code != Some(fail as i32) { case.fail("exit status", run.show()); }
        case
    });
}
