//! Running the real binary in a scratch directory, with the instrumentation of tools/shim.c.
use crate::rng::Rng;
use hongdown::*;
use std::io::Write;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Scratch(pub PathBuf);
static N: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    /// <scratch>/{home,w}: home directory and working directory.
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("hdmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(d.join("home")).expect("scratch");
        std::fs::create_dir_all(d.join("w")).expect("scratch");
        Scratch(std::fs::canonicalize(&d).expect("scratch"))
    }
    pub fn p(&self, rel: &str) -> PathBuf { self.0.join(rel) }
    pub fn put(&self, rel: &str, content: impl AsRef<[u8]>) {
        let p = self.p(rel);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        std::fs::write(&p, content).unwrap_or_else(|e| panic!("scratch {rel}: {e}"));
    }
    pub fn get(&self, rel: &str) -> Vec<u8> { std::fs::read(self.p(rel)).unwrap_or_default() }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
#[derive(Debug)]
pub struct Run {
    /// None: ended by a signal
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    /// what was opened for writing, removed, renamed, …
    pub log: Vec<String>,
}
impl Run {
    pub fn out_str(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    pub fn err_lines(&self) -> Vec<String> { self.err.lines().map(|x| x.to_string()).collect() }
    pub fn show(&self) -> String { format!("exit {:?}\n--- stdout\n{}--- stderr\n{}--- modified {:?}", self.code, cut(&self.out_str(), 1200), cut(&self.err, 1200), self.log) }
}
pub fn cut(s: &str, n: usize) -> String { if s.chars().count() > n { format!("{}…\n", s.chars().take(n).collect::<String>()) } else { s.to_string() } }
fn target() -> PathBuf { std::env::current_exe().expect("own path").parent().unwrap().to_path_buf() }
pub struct Call<'a> {
    pub cwd: PathBuf,
    pub args: Vec<std::ffi::OsString>,
    pub stdin: Option<Vec<u8>>,
    pub env: Vec<(String, std::ffi::OsString)>,
    pub s: &'a Scratch,
}
impl<'a> Call<'a> {
    pub fn new(s: &'a Scratch, args: &[&str]) -> Call<'a> { Call { cwd: s.p("w"), args: args.iter().map(|x| x.into()).collect(), stdin: None, env: vec![], s } }
    pub fn cwd(mut self, rel: &str) -> Self { self.cwd = self.s.p(rel); self }
    pub fn arg(mut self, a: impl AsRef<std::ffi::OsStr>) -> Self { self.args.push(a.as_ref().into()); self }
    pub fn args<A: AsRef<std::ffi::OsStr>>(mut self, a: &[A]) -> Self { for x in a { self.args.push(x.as_ref().into()); } self }
    pub fn stdin(mut self, b: impl AsRef<[u8]>) -> Self { self.stdin = Some(b.as_ref().to_vec()); self }
    pub fn env(mut self, k: &str, v: impl AsRef<std::ffi::OsStr>) -> Self { self.env.push((k.into(), v.as_ref().into())); self }
    /// kind 'r' 'w' 'x' 'd', errno, path relative to the scratch directory
    pub fn faults(self, f: &[(char, i32, String)]) -> Self {
        if f.is_empty() { return self; }
        let t: String = f.iter().map(|(k, e, p)| format!("{k} {e} {}\n", self.s.p(p).display())).collect();
        self.s.put("faults", t);
        let p = self.s.p("faults");
        self.env("HDS_FAIL", p)
    }
    pub fn run(self) -> Run {
        let log = self.s.p("log");
        let _ = std::fs::remove_file(&log);
        let mut c = Command::new(target().join("hongdown"));
        c.args(&self.args).current_dir(&self.cwd).env_clear();
        c.env("PATH", "/usr/local/bin:/usr/bin:/bin").env("HOME", self.s.p("home")).env("LANG", "C.UTF-8");
        c.env("LD_PRELOAD", target().parent().unwrap().join("shim.so")).env("HDS_LOG", &log).env("HDS_ETC", self.s.p("etc"));
        for (k, v) in &self.env { c.env(k, v); }
        c.stdin(if self.stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut ch = c.spawn().expect("the hongdown binary does not start");
        let w = self.stdin.map(|b| { let mut i = ch.stdin.take().unwrap(); std::thread::spawn(move || { let _ = i.write_all(&b); }) });
        let o = ch.wait_with_output().expect("wait");
        if let Some(w) = w { let _ = w.join(); }
        let log = std::fs::read_to_string(&log).unwrap_or_default().lines().map(|x| x.to_string()).collect();
        Run { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned(), log }
    }
}
/// Everything observable about a file.
#[derive(Debug, PartialEq, Clone)]
pub struct Stamp { pub content: Option<Vec<u8>>, pub ino: u64, pub mtime: (i64, i64), pub mode: u32, pub link: Option<PathBuf> }
pub fn stamp(p: &Path) -> Option<Stamp> {
    let m = std::fs::symlink_metadata(p).ok()?;
    Some(Stamp { content: if m.is_file() { std::fs::read(p).ok() } else { None }, ino: m.ino(), mtime: (m.mtime(), m.mtime_nsec()), mode: m.mode(), link: std::fs::read_link(p).ok() })
}
/// All paths below a directory (not following links), sorted.
pub fn tree(d: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let p = e.path();
            v.push(p.clone());
            if std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_dir()) { v.extend(tree(&p)); }
        }
    }
    v.sort();
    v
}
pub fn snapshot(d: &Path) -> Vec<(PathBuf, Option<Stamp>)> {
    tree(d).into_iter().map(|p| { let s = stamp(&p); (p, s) }).filter(|(_, s)| s.as_ref().is_none_or(|s| s.mode & libc::S_IFMT != libc::S_IFDIR)).collect()
}

// ---------------------------------------------------------------- settings
#[derive(Debug, Clone, PartialEq)]
pub enum V { B(bool), N(i64), S(String), L(Vec<String>) }
pub type Set = (&'static str, V);
pub const SECTIONS: &[&str] = &["heading", "unordered_list", "ordered_list", "code_block", "thematic_break", "punctuation"];
/// Every formatting setting, by path in the configuration file.
pub const SETTINGS: &[&str] = &[
    "line_width", "heading.setext_h1", "heading.setext_h2", "heading.sentence_case", "heading.proper_nouns", "heading.common_nouns",
    "unordered_list.unordered_marker", "unordered_list.leading_spaces", "unordered_list.trailing_spaces", "unordered_list.indent_width",
    "ordered_list.odd_level_marker", "ordered_list.even_level_marker", "ordered_list.pad", "ordered_list.indent_width",
    "code_block.fence_char", "code_block.min_fence_length", "code_block.space_after_fence", "code_block.default_language",
    "thematic_break.style", "thematic_break.leading_spaces",
    "punctuation.curly_double_quotes", "punctuation.curly_single_quotes", "punctuation.curly_apostrophes", "punctuation.ellipsis", "punctuation.en_dash", "punctuation.em_dash",
];
pub fn random_value(r: &mut Rng, path: &str) -> V {
    let s = |x: &str| V::S(x.into());
    match path {
        "line_width" => V::N(*r.pick(&[20, 33, 40, 60, 79, 80, 100, 160, 1000])),
        "heading.setext_h1" | "heading.setext_h2" | "heading.sentence_case" | "code_block.space_after_fence" => V::B(r.chance(50)),
        "punctuation.curly_double_quotes" | "punctuation.curly_single_quotes" | "punctuation.curly_apostrophes" | "punctuation.ellipsis" => V::B(r.chance(50)),
        "heading.proper_nouns" => V::L(r.pick(&[vec![], vec!["Frobnicator".to_string()], vec!["Frobnicator".into(), "Wibble Wobble".into(), "iThing".into()]]).clone()),
        "heading.common_nouns" => V::L(r.pick(&[vec![], vec!["Python".to_string()], vec!["Go".into(), "Python".into()]]).clone()),
        "unordered_list.unordered_marker" => s(r.pick(&["-", "*", "+"])),
        "unordered_list.leading_spaces" | "thematic_break.leading_spaces" => V::N(r.range(0, 3) as i64),
        "unordered_list.trailing_spaces" => V::N(r.range(1, 3) as i64),
        "unordered_list.indent_width" | "ordered_list.indent_width" => V::N(r.range(1, 8) as i64),
        "ordered_list.odd_level_marker" | "ordered_list.even_level_marker" => s(r.pick(&[".", ")"])),
        "ordered_list.pad" => s(r.pick(&["start", "end"])),
        "code_block.fence_char" => s(r.pick(&["~", "`"])),
        "code_block.min_fence_length" => V::N(r.range(3, 9) as i64),
        "code_block.default_language" => s(r.pick(&["", "text", "rust", "c++"])),
        "thematic_break.style" => s(r.pick(crate::opts::HR)),
        "punctuation.en_dash" => if r.chance(40) { V::B(false) } else { s(r.pick(&["--", "~~", "->"])) },
        "punctuation.em_dash" => if r.chance(40) { V::B(false) } else { s(r.pick(&["---", "==", "-"])) },
        _ => panic!("setting {path}"),
    }
}
/// The documented defaults (README), spelled out here.
pub fn default_value(path: &str) -> V {
    let s = |x: &str| V::S(x.into());
    match path {
        "line_width" => V::N(80),
        "heading.setext_h1" | "heading.setext_h2" => V::B(true),
        "heading.sentence_case" => V::B(false),
        "heading.proper_nouns" | "heading.common_nouns" => V::L(vec![]),
        "unordered_list.unordered_marker" => s("-"),
        "unordered_list.leading_spaces" => V::N(1),
        "unordered_list.trailing_spaces" => V::N(2),
        "unordered_list.indent_width" | "ordered_list.indent_width" => V::N(4),
        "ordered_list.odd_level_marker" => s("."),
        "ordered_list.even_level_marker" => s(")"),
        "ordered_list.pad" => s("start"),
        "code_block.fence_char" => s("~"),
        "code_block.min_fence_length" => V::N(4),
        "code_block.space_after_fence" => V::B(true),
        "code_block.default_language" => s(""),
        "thematic_break.style" => s(&["-"; 37].join(" ")),
        "thematic_break.leading_spaces" => V::N(3),
        "punctuation.curly_double_quotes" | "punctuation.curly_single_quotes" | "punctuation.ellipsis" => V::B(true),
        "punctuation.curly_apostrophes" => V::B(false),
        "punctuation.en_dash" => V::B(false),
        "punctuation.em_dash" => s("--"),
        _ => panic!("setting {path}"),
    }
}
pub fn apply(o: &mut Options, path: &str, v: &V) {
    let b = || if let V::B(b) = v { *b } else { panic!("{path} {v:?}") };
    let n = || if let V::N(n) = v { *n as usize } else { panic!("{path} {v:?}") };
    let s = || if let V::S(s) = v { s.clone() } else { panic!("{path} {v:?}") };
    let l = || if let V::L(l) = v { l.clone() } else { panic!("{path} {v:?}") };
    let dash = || match v { V::B(false) => DashSetting::Disabled, V::S(s) => DashSetting::Pattern(DashPattern::new(s.clone()).unwrap()), _ => panic!("{path} {v:?}") };
    match path {
        "line_width" => o.line_width = LineWidth::new(n()).unwrap(),
        "heading.setext_h1" => o.setext_h1 = b(),
        "heading.setext_h2" => o.setext_h2 = b(),
        "heading.sentence_case" => o.heading_sentence_case = b(),
        "heading.proper_nouns" => o.heading_proper_nouns = l(),
        "heading.common_nouns" => o.heading_common_nouns = l(),
        "unordered_list.unordered_marker" => o.unordered_marker = match s().as_str() { "-" => UnorderedMarker::Hyphen, "*" => UnorderedMarker::Asterisk, _ => UnorderedMarker::Plus },
        "unordered_list.leading_spaces" => o.leading_spaces = LeadingSpaces::new(n()).unwrap(),
        "unordered_list.trailing_spaces" => o.trailing_spaces = TrailingSpaces::new(n()).unwrap(),
        "unordered_list.indent_width" => o.indent_width = IndentWidth::new(n()).unwrap(),
        "ordered_list.odd_level_marker" => o.odd_level_marker = if s() == "." { OrderedMarker::Period } else { OrderedMarker::Parenthesis },
        "ordered_list.even_level_marker" => o.even_level_marker = if s() == "." { OrderedMarker::Period } else { OrderedMarker::Parenthesis },
        "ordered_list.pad" => o.ordered_list_pad = if s() == "start" { OrderedListPad::Start } else { OrderedListPad::End },
        "ordered_list.indent_width" => o.ordered_list_indent_width = IndentWidth::new(n()).unwrap(),
        "code_block.fence_char" => o.fence_char = if s() == "~" { FenceChar::Tilde } else { FenceChar::Backtick },
        "code_block.min_fence_length" => o.min_fence_length = MinFenceLength::new(n()).unwrap(),
        "code_block.space_after_fence" => o.space_after_fence = b(),
        "code_block.default_language" => o.default_language = s(),
        "thematic_break.style" => o.thematic_break_style = ThematicBreakStyle::new(s()).unwrap(),
        "thematic_break.leading_spaces" => o.thematic_break_leading_spaces = LeadingSpaces::new(n()).unwrap(),
        "punctuation.curly_double_quotes" => o.curly_double_quotes = b(),
        "punctuation.curly_single_quotes" => o.curly_single_quotes = b(),
        "punctuation.curly_apostrophes" => o.curly_apostrophes = b(),
        "punctuation.ellipsis" => o.ellipsis = b(),
        "punctuation.en_dash" => o.en_dash = dash(),
        "punctuation.em_dash" => o.em_dash = dash(),
        _ => panic!("setting {path}"),
    }
}
/// Options with the documented defaults.
pub fn defaults() -> Options {
    let mut o = Options::default();
    for p in SETTINGS { apply(&mut o, p, &default_value(p)); }
    o.code_formatters.clear();
    o
}
pub fn options_of(set: &[Set]) -> Options {
    let mut o = defaults();
    for (p, v) in set { apply(&mut o, p, v); }
    o
}
/// A random choice of settings with valid values that do not contradict each other.
pub fn random_set(r: &mut Rng, pct: usize) -> Vec<Set> {
    loop {
        let v: Vec<Set> = SETTINGS.iter().filter_map(|p| if r.chance(pct) { Some((*p, random_value(r, p))) } else { None }).collect();
        let o = options_of(&v);
        if validate_dash_settings(&o).is_ok() { return v; }
    }
}
pub fn toml_value(v: &V, r: &mut Rng) -> String {
    let q = |s: &str, r: &mut Rng| if r.chance(40) && !s.contains('\'') && !s.chars().any(|c| c.is_control()) { format!("'{s}'") } else { serde_json::Value::from(s).to_string().replace("\u{7f}", "\\u007f") };
    match v {
        V::B(b) => b.to_string(),
        V::N(n) => if r.chance(10) && *n >= 0 { format!("0x{n:x}") } else { n.to_string() },
        V::S(s) => q(s, r),
        V::L(l) => { let x: Vec<String> = l.iter().map(|s| q(s, r)).collect(); if r.chance(30) { format!("[\n  {}\n]", x.join(",\n  ")) } else { format!("[{}]", x.join(", ")) } }
    }
}
/// A TOML spelling of settings: tables, dotted keys or inline tables, in any order, with comments.
pub fn toml_of(set: &[Set], r: &mut Rng) -> String {
    let mut top = vec![];
    let mut tail = String::new();
    let mut rest: Vec<&Set> = set.iter().collect();
    r.shuffle(&mut rest);
    let mut secs: Vec<&str> = SECTIONS.to_vec();
    r.shuffle(&mut secs);
    for (p, v) in &rest { if !p.contains('.') { top.push(format!("{p} = {}", toml_value(v, r))); } }
    for s in secs {
        let mine: Vec<(&str, &V)> = rest.iter().filter_map(|(p, v)| p.strip_prefix(s).and_then(|x| x.strip_prefix('.')).map(|k| (k, v))).collect();
        if mine.is_empty() { continue; }
        match r.below(4) {
            0 => { for (k, v) in &mine { top.push(format!("{s}.{k} = {}", toml_value(v, r))); } }
            1 => { let x: Vec<String> = mine.iter().map(|(k, v)| format!("{k} = {}", toml_value(v, r).replace("\n", ""))).collect(); top.push(format!("{s} = {{ {} }}", x.join(", "))); }
            _ => { tail.push_str(&format!("\n[{s}]\n")); for (k, v) in &mine { tail.push_str(&format!("{}{k}{}={} {}\n", r.pick(&["", "  "]), r.pick(&[" ", ""]), toml_value(v, r), r.pick(&["", "# comment"]))); } }
        }
    }
    r.shuffle(&mut top);
    let nl = if r.chance(10) { "\r\n" } else { "\n" };
    format!("{}\n{tail}", top.join("\n")).replace('\n', nl)
}
/// Shows the effect of every setting.
pub const PROBE: &str = "# The Frobnicator And Python Of Wibble Wobble In a World With iThing\n\nText with \"double quotes\", 'single quotes', it's an apostrophe ... and -- double --- triple == equal ~~ tilde -> arrow - single dashes, that goes on and on so that it has to be broken somewhere even when the lines may become as long as a hundred and sixty columns, or even\nlonger than that.\n\n## Go For It\n\n* one\n\n  para\n  * two\n    * three\n* four\n\n1. one\n\n   para\n   1. two\n      1. three\n2. x\n3. x\n4. x\n5. x\n6. x\n7. x\n8. x\n9. x\n10. ten\n\n```\nno language\n```\n\n```python\nlanguage\n```\n\n***\n\nend\n";
