//! C18: warnings.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::util;

struct W<'a> {
    r: &'a mut Rng,
    n: usize,
    lines: Vec<String>,
    /// (line, label or "table")
    want: Vec<(usize, String)>,
    defined: Vec<String>,
    abbr: Vec<String>,
    notes: Vec<String>,
    quiet: bool,
    planted: usize,
}
impl W<'_> {
    fn id(&mut self) -> usize { self.n += 1; self.n }
    /// One unit of prose and the labels it leaves undefined.
    fn unit(&mut self, cell: bool) -> (String, Option<String>) {
        let i = self.id();
        let w = format!("w{i}");
        let u = match self.r.below(5) { 0 => format!("u {i} x"), 1 => format!("Ü{i}"), 2 => format!("{i}"), 3 => format!("u-{i}_z.q"), _ => format!("u{i}") };
        match self.r.below(34) {
            0 | 1 => (format!("[{u}]"), Some(u)),
            2 => (format!("[{w}][{u}]"), Some(u)),
            3 => (format!("[{u}][]"), Some(u)),
            4 => (format!("![{w}][{u}]"), Some(u)),
            5 => (format!("*[{u}]*"), Some(u)),
            6 => (format!("{w}[{u}]."), Some(u)),
            7 => (format!("[**{w}** b][{u}]"), Some(u)),
            8 => (format!("(\"[{u}]\")"), Some(u)),
            // no undefined references
            9 => (format!("\\[{u}\\]"), None),
            10 => (format!("\\[{u}]"), None),
            11 => { let n = format!("n{i}"); self.notes.push(n.clone()); (format!("{w}[^{n}]"), None) }
            12 => (format!("`[{u}]`"), None),
            13 => (format!("<b title=\"[{u}]\">x</b>"), None),
            14 => { self.defined.push(u.clone()); (format!("[{u}]"), None) }
            15 => { self.defined.push(u.clone()); (format!("[{w}][{}]", u.to_uppercase()), None) }
            16 => { self.defined.push(u.clone()); (format!("![{w}][{u}]"), None) }
            17 => { self.defined.push(u.clone()); (format!("[{u}][]"), None) }
            18 => (format!("[{w}](./{i})"), None),
            19 => (format!("![{w}](./{i} \"[{i}]\")"), None),
            20 => { let a = format!("ABBR{i}"); self.abbr.push(a.clone()); (format!("[{a}]"), None) }
            21 => (format!("{w}[^undefined{i}]"), None),
            22 => (format!("[{w}](https://x.example/{i})"), None),
            23 if !cell => ("x]".to_string(), None),
            24 => (format!("\\\\[{u}]"), Some(u)),
            _ => (w, None),
        }
    }
    fn push(&mut self, line: String, labels: Vec<String>) {
        self.lines.push(line);
        let n = self.lines.len();
        for l in labels { self.planted += 1; if !self.quiet { self.want.push((n, l)); } }
    }
    fn prose(&mut self, k: usize, cell: bool) -> (String, Vec<String>) {
        let mut s = vec![];
        let mut l = vec![];
        for _ in 0..k { let (a, b) = self.unit(cell); s.push(a); l.extend(b); }
        let i = self.id();
        (format!("P{i} {}", s.join(" ")), l)
    }
    /// Lines of one block, the later ones and the first behind a prefix.
    fn block(&mut self, first: &str, rest: &str, table: bool) {
        let i = self.id();
        match self.r.below(if table { 8 } else { 6 }) {
            0 => { let (s, l) = self.prose(1, false); let h = "#".repeat(self.r.range(1, 6)); self.push(format!("{first}{h} {s}"), l); }
            1 => { self.push(format!("{first}~~~~"), vec![]); for _ in 0..self.r.range(1, 3) { self.push(format!("{rest}[code{i}][x] | |"), vec![]); } self.push(format!("{rest}~~~~"), vec![]); }
            6 | 7 => {
                let cols = self.r.range(2, 4);
                let bare = self.r.chance(20);
                let row = |w: &mut W, n: usize| { let mut s = String::new(); let mut l = vec![]; for _ in 0..n { let (a, b) = if w.r.chance(70) { let i = w.id(); (format!("c{i}"), None) } else { let (mut a, b) = w.unit(true); if a.contains('|') { a = "x".into(); } (a, b) }; s.push_str(&format!("| {a} ")); l.extend(b); } s.push('|'); if w.r.chance(20) { s = s.replacen("| ", *w.r.pick(&["| x\\|y ", "| x\\\\|y ", "| \\\\\\|y ", "| `\\|` "]), 1); } if bare && n > 1 { s = s[2..s.len() - 2].to_string(); } (s, l) };
                let (s, l) = row(self, cols);
                self.push(format!("{first}{s}"), l);
                self.push(format!("{rest}{}|", "| :-- ".repeat(cols)), vec![]);
                for _ in 0..self.r.range(1, 4) {
                    let n = if self.r.chance(20) { cols + self.r.range(1, 3) } else if self.r.chance(15) { cols - 1 } else { cols };
                    let keep = self.notes.len();
                    let (s, l) = if self.r.chance(12) && n > 0 { let c = *self.r.pick(&["-", ":-", "---", ":", " "]); (format!("|{}", format!(" {c} |").repeat(n)), vec![]) } else { row(self, n) };
                    // cells in excess are dropped, and what they hold with them
                    if n > cols { if !l.is_empty() || s.contains("[^n") { self.notes.truncate(keep); continue; } }
                    self.push(format!("{rest}{s}"), l);
                    if n != cols { self.planted += 1; if !self.quiet { let k = self.lines.len(); self.want.push((k, "table".into())); } }
                }
            }
            _ => {
                for k in 0..self.r.range(1, 4) {
                    let n = self.r.range(1, 4);
                    let (s, l) = self.prose(n, false);
                    self.push(format!("{}{s}", if k == 0 { first } else { rest }), l);
                }
            }
        }
    }
}
fn planted_case(r: &mut Rng) -> Case {
    let o = opts::random(r, Punct::Default, true);
    let mut w = W { r, n: 9, lines: vec![], want: vec![], defined: vec![], abbr: vec![], notes: vec![], quiet: false, planted: 0 };
    if w.r.chance(15) { for l in ["---", "title: \"[front]\"", "---", ""] { w.lines.push(l.into()); } }
    let mut disabled = false;
    let n = w.r.range(1, 12);
    let mut next = false;
    for _ in 0..n {
        if w.r.chance(12) {
            if disabled { w.push("<!-- hongdown-enable -->".into(), vec![]); disabled = false; }
            else if w.r.chance(50) { w.push("<!-- hongdown-disable -->".into(), vec![]); disabled = true; }
            else { w.push("<!-- hongdown-disable-next-line -->".into(), vec![]); next = true; }
            w.push(String::new(), vec![]);
        }
        w.quiet = disabled || next;
        let i = w.id();
        match w.r.below(9) {
            0 => { for k in 0..w.r.range(1, 3) { let _ = k; w.block(" -  ", "    ", false); } }
            1 => w.block("1.  ", "    ", false),
            2 => w.block("> ", "> ", true),
            3 => { w.push("> [!NOTE]".into(), vec![]); w.block("> ", "> ", true); }
            4 => { w.push(format!("<div>[html{i}]"), vec![]); w.push("</div>".into(), vec![]); }
            5 => { let (s, l) = w.prose(2, false); w.push(format!(" -  [ ] {s}"), l); let (s, l) = w.prose(2, false); w.push(format!(" -  [x] {s}"), l); }
            _ => w.block("", "", true),
        }
        // blocks of one kind do not run into each other
        w.quiet = false;
        w.push(String::new(), vec![]);
        w.quiet = disabled;
        if !disabled { w.push(format!("between{i}"), vec![]); w.push(String::new(), vec![]); }
        next = false;
    }
    if disabled { w.push("<!-- hongdown-enable -->".into(), vec![]); w.push(String::new(), vec![]); }
    w.quiet = false;
    // abbreviations and definitions at the end or in front
    for n in std::mem::take(&mut w.notes) { let (s, l) = if w.r.chance(50) { let k = w.r.range(1, 3); let keep = w.notes.len(); let x = w.prose(k, false); w.notes.truncate(keep); x } else { ("note".into(), vec![]) }; if s.contains("[^n") { w.push(format!("[^{n}]: note"), vec![]); } else { w.push(format!("[^{n}]: {s}"), l); } }
    w.push(String::new(), vec![]);
    for a in std::mem::take(&mut w.abbr) { w.push(format!("*[{a}]: Long form"), vec![]); }
    w.push(String::new(), vec![]);
    for d in std::mem::take(&mut w.defined) { w.push(format!("[{d}]: ./def"), vec![]); }
    let src = w.lines.join("\n") + "\n";
    let mut want = w.want;
    want.sort();
    let planted = w.planted;
    let mut c = Case::new(&src);
    c.ev("warnings expected", want.len());
    c.ev("planted where none is due", planted - want.len());
    c.ev("lines", src.lines().count());
    if want.is_empty() && planted == 0 { c.key = None; }
    let have = match util::fmt_w(&src, &o) { Ok(x) => x.1, Err(e) => { c.fail(e, src); return c; } };
    let mut got: Vec<(usize, String)> = have.iter().map(|(l, m)| match m.strip_prefix("undefined reference link: [").and_then(|m| m.strip_suffix(']')) { Some(x) => (*l, x.to_string()), None if m.starts_with("table row has ") => (*l, "table".into()), None => (*l, m.clone()) }).collect();
    got.sort();
    if got != want {
        let miss: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        let what = match (miss.is_empty(), extra.is_empty()) { (true, true) => "warnings repeated", (true, _) => "warnings that are not due", (false, true) => "warnings missing", _ => "warnings at wrong places" };
        c.fail(what, format!("missing {miss:?}\nnot due {extra:?}\n--- input\n{}", src.lines().enumerate().map(|(i, l)| format!("{}: {l}\n", i + 1)).collect::<String>()));
    }
    c
}
fn quiet_bad(src: &str, o: &hongdown::Options) -> Option<String> {
    match util::fmt_w(src, o) { Ok((_, w)) if w.is_empty() => None, Ok((_, w)) => Some(format!("a well-formed document is warned about: {w:?}")), Err(e) => Some(e) }
}
fn quiet_case(r: &mut Rng) -> Case {
    let d = make(r, Punct::Any, true, |c, _| { c.f = c.f.but(&[F::Bracket, F::Sp2, F::BlockStart, F::Esc]); c.table_ragged = false; });
    let mut c = Case::new(&d.key());
    census(&d.doc, &mut c);
    let bad = |s: &str| quiet_bad(s, &d.o);
    if let Some(w) = bad(&d.src) { c.fail(w.clone(), format!("{w}\n{}", d.key())); }
    c
}
pub fn c18(c: &mut Ctx) {
    let n = c.n(60000, 1500000);
    c.section("planted", "documents with undefined references and inconsistent table rows planted at known lines among escaped, defined, footnote, alert, task, abbreviation, code and HTML look-alikes, in and out of disabled regions; the warnings must be exactly those planted", n, |r, _| planted_case(r));
    let n = c.n(30000, 800000);
    c.section("quiet", "well-formed documents of every kind; no warning is due", n, |r, _| quiet_case(r));
}
