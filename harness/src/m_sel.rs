//! C25: exactly the right files are processed, each once, in a stable order.
use crate::cli::*;
use crate::mon::{Case, Ctx};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- pattern oracle
/// A gitignore-style pattern, as gitignore(5) describes it.
#[derive(Debug, Clone)]
struct Pat { neg: bool, dir_only: bool, segs: Vec<String> }
impl Pat {
    fn parse(line: &str) -> Option<Pat> {
        if line.starts_with('#') { return None; }
        let mut s = line.to_string();
        while s.ends_with(' ') && !s.ends_with("\\ ") { s.pop(); }
        let neg = s.starts_with('!');
        if neg { s.remove(0); }
        if s.is_empty() { return None; }
        let dir_only = s.ends_with('/');
        if dir_only { s.pop(); }
        let anchored = s.contains('/');
        let s = s.strip_prefix('/').unwrap_or(&s).to_string();
        let mut segs: Vec<String> = s.split('/').map(|x| x.to_string()).collect();
        if !anchored { segs.insert(0, "**".into()); }
        Some(Pat { neg, dir_only, segs })
    }
    fn matches(&self, path: &[&str], is_dir: bool) -> bool { (!self.dir_only || is_dir) && segs(&self.segs, path) }
}
fn segs(p: &[String], t: &[&str]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some(x) if x == "**" => if p.len() == 1 { !t.is_empty() } else { (0..=t.len()).any(|i| segs(&p[1..], &t[i..])) },
        Some(x) => !t.is_empty() && name(&x.chars().collect::<Vec<_>>(), &t[0].chars().collect::<Vec<_>>()) && segs(&p[1..], &t[1..]),
    }
}
/// One name against a pattern without slashes.
fn name(p: &[char], t: &[char]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some('*') => (0..=t.len()).any(|i| name(&p[1..], &t[i..])),
        Some('?') => !t.is_empty() && name(&p[1..], &t[1..]),
        Some('\\') => p.len() > 1 && t.first() == Some(&p[1]) && name(&p[2..], &t[1..]),
        Some('[') => {
            let not = matches!(p.get(1), Some('!'));
            let from = 1 + not as usize;
            let end = (from + 1..p.len()).find(|i| p[*i] == ']').expect("class");
            let Some(c) = t.first() else { return false };
            let set = &p[from..end];
            let mut hit = false;
            let mut i = 0;
            while i < set.len() { if i + 2 < set.len() && set[i + 1] == '-' { hit |= set[i] <= *c && *c <= set[i + 2]; i += 3; } else { hit |= set[i] == *c; i += 1; } }
            hit != not && name(&p[end + 1..], &t[1..])
        }
        Some(c) => t.first() == Some(c) && name(&p[1..], &t[1..]),
    }
}
/// Last match wins.
fn verdict(pats: &[Pat], path: &[&str], is_dir: bool) -> Option<bool> { pats.iter().rev().find(|p| p.matches(path, is_dir)).map(|p| !p.neg) }
fn parse(lines: &[String]) -> Vec<Pat> { lines.iter().filter_map(|l| Pat::parse(l)).collect() }

// ---------------------------------------------------------------- trees
const DIRS: &[&str] = &["docs", "docs/api", "docs/api/v1", "node_modules", "node_modules/pkg", ".hidden", "build", "src dir", "a", "a/b", "a/b/c", "日本", "odd.md", "docs/build", "a/docs"];
const FILES: &[&str] = &["README.md", "a.md", "b.MD", "c.markdown", "d.txt", ".hidden.md", "notes.md.bak", "e.mdx", "md", "[x].md", "sp ace.md", "ünï.md", "CHANGELOG.md", "draft-1.md", "draft-2.md", "x.Markdown", "-dash.md", "#hash.md", "!bang.md", "new\nline.md"];
const PATTERNS: &[&str] = &["*.md", "**/*.md", "docs/**/*.md", "docs/*.md", "README.md", "/README.md", "a/b", "/a/b", "draft-?.md", "draft-[0-9].md", "draft-[!1].md", "*.mark*", ".*", "docs/**", "*", "src dir/*.md", "日本/**", "**/b/*.md", "?.md", "CHANGELOG.md", "\\[x\\].md", "[[]x].md", "d*.txt", "**/api/**", "*.MD", "a/**/c/*.md", "**/docs/*.md", "*/*.md", "/*.md", "docs/**/a.md", "[a-c].m*", "\\#hash.md", "\\!bang.md", "*.*"];
const EXCLUDING: &[&str] = &["build/", "node_modules", "/node_modules", "node_modules/", "a/", "/a/b/", ".hidden/", "docs/api", "**/build", "a/**", "d.txt/", "b", "docs/build/", "odd.md/", "odd.md"];
const MARK: &str = "mark";

#[derive(Debug, Clone)]
enum Node { File(usize), Dir, Link(String) }
/// Relative path → node; the order is the one they are created in.
type Tree = Vec<(String, Node)>;
fn random_tree(r: &mut Rng) -> Tree {
    let mut t: Tree = vec![];
    let mut dirs = vec![String::new()];
    for d in DIRS { if r.chance(45) { dirs.push(d.to_string()); t.push((d.to_string(), Node::Dir)); } }
    let mut n = 0;
    for d in &dirs {
        for f in FILES { if r.chance(25) { n += 1; t.push((if d.is_empty() { f.to_string() } else { format!("{d}/{f}") }, Node::File(n))); } }
    }
    t
}
fn add_links(r: &mut Rng, t: &mut Tree, outside: &str) {
    let files: Vec<String> = t.iter().filter(|x| matches!(x.1, Node::File(_))).map(|x| x.0.clone()).collect();
    let mut parents: Vec<String> = vec![String::new()];
    for (p, n) in t.iter() { if matches!(n, Node::Dir) { parents.push(format!("{p}/")); } }
    for k in 0..r.below(4) {
        let parent = r.pick(&parents).clone();
        let up = "../".repeat(parent.matches('/').count());
        let (nm, to) = match r.below(5) {
            0 | 1 if !files.is_empty() => (format!("link{k}.md"), format!("{up}{}", r.pick(&files))),
            2 => (format!("gone{k}.md"), format!("{up}nothing.md")),
            3 => (format!("dir{k}"), if up.is_empty() { ".".to_string() } else { up.clone() }),
            _ => (format!("out{k}"), outside.to_string()),
        };
        t.push((format!("{parent}{nm}"), Node::Link(to)));
    }
}
fn src(i: usize) -> String { format!("* {MARK} {i}\n") }
fn formatted(i: usize) -> String { format!(" -  {MARK} {i}\n") }
fn create(s: &Scratch, base: &str, t: &Tree) {
    for (p, n) in t {
        let at = s.p(base).join(p);
        match n {
            Node::Dir => std::fs::create_dir_all(&at).expect("scratch"),
            Node::File(i) => s.put(&format!("{base}/{p}"), src(*i)),
            Node::Link(to) => { let _ = std::fs::create_dir_all(at.parent().unwrap()); let _ = std::os::unix::fs::symlink(to, &at); }
        }
    }
}
/// All files below a directory as (path, canonical path); links to directories followed if asked for.
fn below(d: &Path, follow: bool, active: &mut Vec<PathBuf>, out: &mut Vec<PathBuf>) {
    let Ok(c) = std::fs::canonicalize(d) else { return };
    if active.contains(&c) { return; }
    active.push(c);
    let mut names: Vec<_> = std::fs::read_dir(d).expect("scratch").flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        let link = std::fs::symlink_metadata(&p).is_ok_and(|m| m.file_type().is_symlink());
        if p.is_dir() { if follow || !link { below(&p, follow, active, out); } } else if p.is_file() { out.push(p); }
    }
    active.pop();
}
fn canon(p: &Path) -> PathBuf { std::fs::canonicalize(p).expect("scratch") }
/// The number a file holds.
fn ids(s: &Scratch) -> BTreeMap<PathBuf, usize> {
    let mut v = vec![];
    below(&s.0, false, &mut vec![], &mut v);
    v.into_iter().filter(|p| !std::fs::symlink_metadata(p).unwrap().file_type().is_symlink()).filter_map(|p| { let t = std::fs::read_to_string(&p).ok()?; let i = t.strip_prefix(&format!("* {MARK} "))?.trim().parse().ok()?; Some((p, i)) }).collect()
}
fn printed(k: &Run) -> Vec<usize> { k.out_str().lines().filter_map(|l| l.split(&format!("{MARK} ")).nth(1).and_then(|x| x.trim().parse().ok())).collect() }

/// Files without marks, which patterns may select as well.
fn config(l: &str) -> bool { l.ends_with(".gitignore") || l.ends_with(".hongdown.toml") || l.ends_with("info/exclude") }
/// Runs one call in a random mode and compares what it processed with `want`.
fn judge(case: &mut Case, r: &mut Rng, s: &Scratch, make: &dyn Fn(&[&str], u64) -> Run, want: &BTreeSet<usize>, what: &str) {
    let id = ids(s);
    let fail = |case: &mut Case, m: &str, k: &Run, got: &[usize]| {
        let show = |i: &usize| id.iter().find(|x| x.1 == i).map(|x| x.0.strip_prefix(&s.0).unwrap().display().to_string()).unwrap_or(format!("#{i}"));
        let g: BTreeSet<usize> = got.iter().copied().collect();
        let miss: Vec<String> = want.difference(&g).map(show).collect();
        let more: Vec<String> = g.difference(want).map(show).collect();
        case.fail(m.to_string(), format!("{what}\nmissing {miss:?}\ntoo many {more:?}\nprocessed {:?}\n{}", got.iter().map(show).collect::<Vec<_>>(), k.show()));
    };
    case.ev("files selected", want.len());
    case.ev("files not selected", id.len() - want.len());
    let compare = |case: &mut Case, k: &Run, got: &[usize], how: &str| {
        let set: BTreeSet<usize> = got.iter().copied().collect();
        if set != *want { fail(case, &format!("other files are processed ({how})"), k, got); } else if set.len() != got.len() { fail(case, &format!("a file is processed more than once ({how})"), k, got); }
    };
    let order = r.next();
    let k = make(&[], order);
    if k.code != Some(0) { fail(case, "the run fails", &k, &[]); return; }
    if !k.log.is_empty() { fail(case, "files are modified", &k, &[]); }
    let first = printed(&k);
    compare(case, &k, &first, "print");
    if case.fail.is_some() { return; }
    // the same with the directory entries in another order
    let order = r.next();
    let k = make(&[], order);
    let other = printed(&k);
    case.ev("orders of directory entries", 2);
    if first != other { fail(case, "the order depends on the order of directory entries", &k, &other); }
    match r.below(3) {
        0 => {
            let k = make(&["--check"], order);
            case.ev("check runs", 1);
            // the names are those the files were found by
            let n = k.err.lines().filter_map(|l| l.strip_suffix(": not formatted")).filter(|l| !config(l)).count();
            if n != want.len() || (k.code != Some(!want.is_empty() as i32) && !(k.err.lines().any(|l| config(l.trim_end_matches(": not formatted"))))) { fail(case, "check counts other files", &k, &[]); }
        }
        1 => {
            let k = make(&["--diff"], order);
            case.ev("diff runs", 1);
            let got: Vec<usize> = k.out_str().lines().filter(|l| l.starts_with("+ -  ")).filter_map(|l| l.rsplit(' ').next()?.parse().ok()).collect();
            compare(case, &k, &got, "diff");
        }
        _ => {
            let k = make(&["--write"], order);
            case.ev("write runs", 1);
            let mut got = vec![];
            for (p, i) in &id {
                let t = std::fs::read_to_string(p).unwrap_or_default();
                if t == formatted(*i) { got.push(*i); } else if t != src(*i) { fail(case, "a file is spoilt", &k, &got); }
            }
            compare(case, &k, &got, "write");
            if k.log.iter().filter(|l| l.starts_with("open ") && !config(l)).count() != want.len() { fail(case, "a file is written more than once", &k, &got); }
            for (p, i) in &id { std::fs::write(p, src(*i)).expect("scratch"); }
        }
    }
}

pub fn c25(c: &mut Ctx) {
    c.assumptions.push("patterns are those of gitignore(5) without braces; a repository has no nested repositories; a file named only by its extension (.md) is not judged".into());
    let n = c.n(700, 20000);
    c.section("paths", "random trees with hidden, oddly named, linked and looping entries; files and directories given in several spellings, overlapping and repeated: every named file and every Markdown file below a named directory is processed once, in an order that does not depend on the order of directory entries (which the instrumentation shuffles)", n, |r, _| {
        let s = Scratch::new();
        let outside = s.p("outside");
        let mut t = random_tree(r);
        add_links(r, &mut t, outside.to_str().unwrap());
        s.put("outside/far.md", src(901));
        s.put("outside/far.txt", src(902));
        create(&s, "w/proj", &t);
        let mut args: Vec<String> = vec![];
        let mut want = BTreeSet::new();
        let id = ids(&s);
        let of = |p: &Path| id.get(&canon(p)).copied();
        for _ in 0..r.range(1, 5) {
            let (p, node) = if r.chance(15) || t.is_empty() { (String::new(), Node::Dir) } else { r.pick(&t).clone() };
            let at = s.p("w/proj").join(&p);
            if !at.exists() { continue; }
            if at.is_dir() {
                let mut v = vec![];
                below(&at, true, &mut vec![], &mut v);
                want.extend(v.iter().filter(|p| p.extension().is_some_and(|e| e.eq_ignore_ascii_case("md") || e.eq_ignore_ascii_case("markdown"))).filter_map(|p| of(p)));
                let _ = node;
            } else { want.extend(of(&at)); }
            let dir = at.is_dir();
            let spelled = match r.below(6) {
                0 => at.to_str().unwrap().to_string(),
                1 => format!("./{p}"),
                2 if dir => format!("./{p}/").replace("//", "/"),
                3 => format!("../proj/{p}"),
                _ if p.is_empty() => ".".into(),
                _ if p.starts_with('-') => format!("./{p}"),
                _ => p.clone(),
            };
            args.push(spelled);
        }
        if args.is_empty() { return Case::trivial(); }
        let mut case = Case::new(&format!("{t:?} {args:?}"));
        let make = |s: &Scratch, m: &[&str], order: u64| Call::new(s, m).args(&args).cwd("w/proj").env("HDS_ORDER", order.to_string()).run();
        judge(&mut case, r, &s, &|m, o| make(&s, m, o), &want, &format!("{args:?}\n{t:?}"));
        case
    });
    let n = c.n(1200, 40000);
    c.section("patterns", "random trees with random include and exclude patterns, .gitignore files at several heights and .git/info/exclude, with and without git-awareness and a repository, run from the project directory, from below it and with --config: the files the patterns select, decided by an own reading of gitignore(5), each once", n, |r, _| {
        let s = Scratch::new();
        let mut t = random_tree(r);
        add_links(r, &mut t, s.p("outside").to_str().unwrap());
        s.put("outside/far.md", src(901));
        create(&s, "w/proj", &t);
        let pats = |r: &mut Rng, k: usize, excl: bool| -> Vec<String> { (0..k).map(|_| if excl && r.chance(50) { r.pick(EXCLUDING).to_string() } else { r.pick(PATTERNS).to_string() }).collect() };
        let k = r.range(1, 3);
        // no configuration files, which have no marks
        let include: Vec<String> = pats(r, k, false).into_iter().map(|p| if [".*", "*", "*.*"].contains(&p.as_str()) { "*.md".into() } else { p }).collect();
        let k = r.below(4);
        let exclude = pats(r, k, true);
        let aware = r.chance(75);
        // where the repository is: 0 nowhere, 1 the project, 2 above it
        let repo = *r.pick(&[0, 1, 1, 1, 2, 2]);
        let mut ignores: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let git_lines = |r: &mut Rng| -> Vec<String> {
            let mut v = vec![];
            for _ in 0..r.range(1, 4) {
                let k = r.chance(50);
                let mut p = pats(r, 1, k).remove(0);
                if p == "*" && r.chance(80) { p = "*.md".into(); }
                if r.chance(25) { p = format!("!{p}"); }
                if r.chance(10) { p.push_str("  "); }
                if r.chance(15) { v.push((*r.pick(&["# a comment", "", "#*.md", "  "])).to_string()); }
                v.push(p);
            }
            v
        };
        let tops: Vec<String> = std::iter::once(String::new()).chain(t.iter().filter(|x| matches!(x.1, Node::Dir)).map(|x| format!("{}/", x.0))).collect();
        for _ in 0..r.below(3) { let d = r.pick(&tops).clone(); let l = git_lines(r); ignores.insert(d, l); }
        for (d, l) in &ignores { s.put(&format!("w/proj/{d}.gitignore"), l.join("\n") + "\n"); }
        let mut info = vec![];
        let mut above = vec![];
        if repo > 0 {
            let at = if repo == 1 { "w/proj/.git" } else { "w/.git" };
            if r.chance(30) { info = git_lines(r); if repo == 2 { info.retain(|p| !p.trim_end().trim_start_matches('!').starts_with('*')); } }
            s.put(&format!("{at}/info/exclude"), info.join("\n") + "\n");
            s.put(&format!("{at}/inside.md"), src(801));
        }
        if r.chance(30) {
            above = vec![r.pick(&["/proj/docs/", "proj/a/b", "README.md", "build/", "/README.md", "**/api/*.md", "draft-*.md"]).to_string()];
            s.put("w/.gitignore", above.join("\n") + "\n");
        }
        let list = |v: &[String]| serde_json::Value::from(v.to_vec()).to_string();
        let mut toml = format!("include = {}\n", list(&include));
        if !exclude.is_empty() { toml.push_str(&format!("exclude = {}\n", list(&exclude))); }
        if !aware || r.chance(30) { toml.push_str(&format!("git_aware = {aware}\n")); }
        s.put("w/proj/.hongdown.toml", &toml);
        // what the patterns select
        let base = s.p("w/proj");
        let (inc, exc) = (parse(&include), parse(&exclude));
        let (info_p, above_p) = (parse(&info), parse(&above));
        let nested: Vec<(Vec<String>, Vec<Pat>)> = ignores.iter().map(|(d, l)| (d.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), parse(l))).collect();
        let git = aware && repo > 0;
        let out_of = |path: &[&str], is_dir: bool| -> bool {
            if verdict(&exc, path, is_dir) == Some(true) { return true; }
            if aware && path.last() == Some(&".git") { return true; }
            if !git { return false; }
            let mut levels: Vec<&(Vec<String>, Vec<Pat>)> = nested.iter().filter(|(d, _)| path.len() > d.len() && d.iter().zip(path).all(|(a, b)| a == b)).collect();
            levels.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
            for (d, p) in levels { if let Some(v) = verdict(p, &path[d.len()..], is_dir) { return v; } }
            let from_above: Vec<&str> = std::iter::once("proj").chain(path.iter().copied()).collect();
            if repo == 2 && let Some(v) = verdict(&above_p, &from_above, is_dir) { return v; }
            verdict(&info_p, if repo == 2 { &from_above } else { path }, is_dir) == Some(true)
        };
        let mut all = vec![];
        below(&base, false, &mut vec![], &mut all);
        let id = ids(&s);
        let mut want = BTreeSet::new();
        let (mut by_exclude, mut by_git) = (0, 0);
        for p in &all {
            let rel: Vec<&str> = p.strip_prefix(&base).unwrap().to_str().unwrap().split('/').collect();
            if verdict(&inc, &rel, false) != Some(true) { continue; }
            if let Some(k) = (1..=rel.len()).find(|k| out_of(&rel[..*k], *k < rel.len())) {
                if verdict(&exc, &rel[..k], k < rel.len()) == Some(true) { by_exclude += 1; } else { by_git += 1; }
                continue;
            }
            if let Some(i) = id.get(&canon(p)) { want.insert(*i); }
        }
        let mut case = Case::new(&format!("{t:?} {toml} {ignores:?} {info:?} {above:?} {repo}"));
        case.ev("matched but excluded", by_exclude);
        case.ev("matched but ignored by git", by_git);
        let subs: Vec<&String> = t.iter().filter(|x| matches!(x.1, Node::Dir)).map(|x| &x.0).collect();
        let how = r.below(4);
        let cwd = if how == 1 && !subs.is_empty() { format!("w/proj/{}", r.pick(&subs)) } else if how == 2 { "w".into() } else { "w/proj".into() };
        let cfg = s.p("w/proj/.hongdown.toml");
        let make = |s: &Scratch, m: &[&str], order: u64| { let c = Call::new(s, m).cwd(&cwd).env("HDS_ORDER", order.to_string()); if how == 2 { c.arg("--config").arg(&cfg).run() } else { c.run() } };
        // links to what was not to be read do not matter here
        judge(&mut case, r, &s, &|m, o| make(&s, m, o), &want, &format!("from {cwd}\n{toml}\n.gitignore {ignores:?}\nabove {above:?}\ninfo/exclude {info:?}\nrepository {repo}\n{t:?}"));
        case
    });
}
