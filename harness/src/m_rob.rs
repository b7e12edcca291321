//! C03: any text formats.
use crate::docs::*;
use crate::model::*;
use crate::mon::{Case, Ctx};
use crate::opts::{self, Punct};
use crate::rng::Rng;
use crate::util;
use std::collections::HashSet;

fn ctrl(s: &str) -> HashSet<char> { s.chars().filter(|c| c.is_control()).collect() }
/// Empty containers, paragraphs of Unicode blanks alone and unclosed HTML: their last line is blank.
fn empty_parts(src: &str) -> bool {
    use comrak::nodes::NodeValue as V;
    let ar = comrak::Arena::new();
    let co = crate::sem::comrak_options();
    comrak::parse_document(&ar, src, &co).descendants().any(|n| {
        let d = n.data.borrow();
        match &d.value {
            V::FootnoteDefinition(_) if n.parent().is_some_and(|p| !matches!(p.data.borrow().value, V::Document)) => true,
            V::Text(t) => t.trim_matches(|c: char| c.is_whitespace() || "\u{0}\u{1}\u{fffd}".contains(c)).is_empty(),
            V::HtmlBlock(h) => h.literal.ends_with("\n\n") || h.literal.trim_matches(['\n', ' ', '\t']).len() + 2 < h.literal.len(),
            V::Heading(_) | V::Item(_) | V::TaskItem(_) | V::DescriptionDetails | V::DescriptionTerm | V::FootnoteDefinition(_) | V::BlockQuote | V::Alert(_) => n.first_child().is_none(),
            _ => false,
        }
    })
}
/// What is wrong with the output for this input, if anything.
pub fn bad(src: &str, o: &hongdown::Options) -> Option<String> {
    let (out, warns) = match util::fmt_w(src, o) { Ok(x) => x, Err(e) => return Some(e) };
    let (a, b) = (ctrl(src), ctrl(&out));
    if let Some(c) = b.iter().find(|c| **c != '\n' && !a.contains(c)) { return Some(format!("control character {c:?} appeared in the output")); }
    if b.contains(&'\r') { return Some("a carriage return in the output".into()); }
    // Markdown also ends a line at a lone carriage return
    let src = &src.replace("\r\n", "\n").replace('\r', "\n");
    let disabled = src.contains("hongdown-disable");
    if !disabled && !out.is_empty() {
        if !out.ends_with('\n') { return Some("output does not end with a newline".into()); }
        if (out.ends_with("\n\n") || out == "\n") && !empty_parts(src) { return Some("output ends with more than one newline".into()); }
    }
    let lines = src.lines().count().max(1);
    if let Some(w) = warns.iter().find(|w| w.0 == 0 || w.0 > lines) { return Some(format!("warning on line {} of {lines}: {}", w.0, w.1)); }
    None
}
pub fn judge(src: String, o: hongdown::Options) -> Case {
    let mut c = Case::new(&format!("{src}\n--- {o:?}"));
    c.ev("input bytes", src.len());
    if let Some(w) = bad(&src, &o) {
        let w0 = w.split(':').next().unwrap_or("").to_string();
        let small = util::shrink(&src, &|s| bad(s, &o).is_some_and(|x| x.split(':').next() == Some(&w0)));
        let w = bad(&small, &o).unwrap_or(w);
        c.fail(w.clone(), format!("{w}\n--- input\n{small:?}\n--- output {:?}\n--- options {o:?}", util::fmt(&small, &o)));
    }
    c
}
pub const TOK: &[&str] = &[
    "\n", "\n\n", " ", "  ", "    ", "\t", "-", "- ", "*", "**", "***", "_", "__", "+ ", "1. ", "2) ", "10. ", "#", "## ", ">", "> ", ">> ", "`", "``", "```", "~~~", "```rust\n", "\n---\n", "===", "\n***\n",
    "[", "]", "(", ")", "[x]", "[x]: ", "[x](", "![", "[^1]", "[^1]: ", "[^n]:\n", "[a][b]", "[a][]", "<", ">", "<a>", "</a>", "<!--", "-->", "<!-- hongdown-disable -->", "<!-- hongdown-enable -->", "<!-- hongdown-disable-next-line -->", "<!-- hongdown-disable-next-section -->", "<!-- hongdown-disable-file -->", "<!-- hongdown-proper-nouns: X, Y -->", "<!-- hongdown-common-nouns: Z -->", "<!-- hongdown", "<?", "<![CDATA[", "<div>\n", "https://a.b/c", "<https://a.b>", "www.x.y", "a@b.c",
    "|", "| a | b |\n", "|---|:-:|\n", "\\|", ":   ", ": ", "term\n:   x\n", "[!NOTE]", "> [!NOTE]\n> ", "> [!TIP] t\n", "- [ ] ", "- [x] ", "\\", "\\\n", "  \n", "&", "&amp;", "&#0;", "&#x41;", "&nbsp;", "\"", "'", "\"a\"", "'a'", "it's", ")'s", "]'s", "}'S", "1's", "'s", "’s", "'80s", "'tis", "--", "---", "...", "…", "—", "“", "”", "‘", "’",
    "a", "b", "word", "Hello", "한글", "日本語", "é", "e\u{301}", "👩\u{200d}💻", "\u{200b}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{3000}", "\u{ad}", "ﬃ", "\u{202e}", "İ", "ß", "ǆ", "*[HTML]: x\n", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{7f}", "\u{1b}[0m", "\u{0}", "\u{1}", "\u{fffd}", "---\na: b\n---\n", "{{", "$$", "x^2", "||", "++", "==",
];
pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    let pool: Vec<&str> = if r.chance(60) { let k = r.range(2, 10); (0..k).map(|_| *r.pick(TOK)).collect() } else { TOK.to_vec() };
    for _ in 0..n { s.push_str(r.pick(&pool)); }
    s
}
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let n = match r.below(6) { 0 => r.below(0x80), 1 => r.below(0x300), 2 => r.below(0x3000), 3 => r.below(0x10000), 4 => r.below(0x110000), _ => 0x20 + r.below(0x5f) };
        if let Some(c) = char::from_u32(n as u32) { return c; }
    }
}
/// A few random edits of a text.
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..r.range(1, 8) {
        let cs: Vec<char> = s.chars().collect();
        let n = cs.len();
        if n == 0 { return s; }
        let i = r.below(n);
        let j = (i + r.range(1, 12)).min(n);
        let lines: Vec<&str> = s.split_inclusive('\n').collect();
        let (a, b) = (r.below(lines.len()), r.below(lines.len()));
        s = match r.below(12) {
            0 => cs[..i].iter().chain(&cs[j..]).collect(),
            1 => format!("{}{}{}", cs[..i].iter().collect::<String>(), r.pick(TOK), cs[i..].iter().collect::<String>()),
            2 => { let mut l = lines.clone(); l.swap(a, b); l.concat() }
            3 => { let mut l = lines.clone(); l.remove(a); l.concat() }
            4 => { let mut l = lines.clone(); l.insert(b, lines[a]); l.concat() }
            5 => { let mut c2 = cs.clone(); c2[i] = any_char(r); c2.iter().collect() }
            6 => { let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect(); let p = *r.pick(&[" ", "  ", "    ", "\t", "> ", "- ", "1. ", ">", "\u{a0}"]); l[a] = format!("{p}{}", l[a]); l.concat() }
            7 => { let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect(); l[a] = l[a].trim_start().to_string(); l.concat() }
            8 => { let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect(); l[a] = l[a].trim_end_matches('\n').to_string(); l.concat() }
            9 => cs[..i].iter().chain(&cs[i..j]).chain(&cs[i..j]).chain(&cs[j..]).collect(),
            10 => cs[..i].iter().collect(),
            _ => format!("{}{}{}", cs[..i].iter().collect::<String>(), r.pick(&["\n", "\n\n", "\r\n", "`", "[", "]", "*", "<", "\\", "\""]), cs[i..].iter().collect::<String>()),
        };
    }
    s
}
pub fn any_options(r: &mut Rng) -> hongdown::Options {
    use hongdown::*;
    let lay = r.chance(90);
    let mut o = opts::random(r, Punct::Any, lay);
    if r.chance(50) {
        o.leading_spaces = LeadingSpaces::new(r.below(4)).unwrap();
        o.trailing_spaces = TrailingSpaces::new(r.below(4)).unwrap();
        if let Ok(w) = IndentWidth::new(r.range(1, 12)) { o.indent_width = w; }
        if let Ok(w) = IndentWidth::new(r.range(1, 12)) { o.ordered_list_indent_width = w; }
        o.line_width = LineWidth::new(match r.below(3) { 0 => r.range(8, 20), 1 => 1000, _ => r.range(20, 100) }).unwrap();
        o.min_fence_length = MinFenceLength::new(r.range(3, 12)).unwrap();
        o.thematic_break_leading_spaces = LeadingSpaces::new(r.below(4)).unwrap();
    }
    o.heading_sentence_case = r.chance(40);
    o.heading_proper_nouns = (0..r.below(3)).map(|_| r.pick(&["iPhone", "New York", "café", "", " ", "x", "C++"]).to_string()).collect();
    o.heading_common_nouns = (0..r.below(3)).map(|_| r.pick(&["Python", "Go", "", "Rust"]).to_string()).collect();
    o.default_language = r.pick(&["", "text", "a b"]).to_string();
    o
}
pub fn c03(c: &mut Ctx) {
    c.assumptions.push("inputs up to a few hundred kilobytes; stack of 8 MB for the nesting cases".into());
    let n = c.n(60000, 2500000);
    c.section("mutated", "documents of every construct, then 1 to 8 random edits (cut, insert, duplicate, swap, join, indent, truncate), sometimes spliced with another or with CRLF ends", n, |r, _| {
        let d = make(r, Punct::Any, true, |c, _| { c.allow = allow_all; c.table_ragged = true; });
        let mut s = mutate(r, &d.src);
        if r.chance(20) { let e = make(r, Punct::Off, false, |_, _| {}); let k = e.src.chars().count(); let at = r.below(k + 1); s.extend(e.src.chars().skip(at)); }
        if r.chance(10) { s = s.replace('\n', "\r\n"); }
        if r.chance(10) { let v = crate::m_doc::front(r); s = format!("---\n{}\n---\n{s}", v.join("\n")); }
        judge(s, any_options(r))
    });
    let n = c.n(60000, 2500000);
    c.section("soup", "random sequences of Markdown tokens, directives, white space and odd characters", n, |r, _| {
        let k = *r.pick(&[3usize, 8, 20, 60]);
        let s = soup(r, k);
        judge(s, any_options(r))
    });
    let n = c.n(20000, 800000);
    c.section("unicode", "random Unicode strings with line breaks and markers", n, |r, _| {
        let k = r.range(0, 80);
        let s: String = (0..k).map(|_| match r.below(10) { 0 => '\n', 1 => ' ', 2 => *r.pick(&['-', '#', '>', '|', '*', '`', '[', '"', '\'']), _ => any_char(r) }).collect();
        judge(s, any_options(r))
    });
    let k = if c.quick() { 3 } else { 4 };
    c.section("short", "every text of up to two (thorough: three) pieces from a list of 28 letters, digits and marks in twelve containers, and of three (thorough: four) alone", short_count(k) / SHORT.len(), |_, i| {
        use hongdown::*;
        let plain = Options::default();
        let mut full = Options::default();
        full.curly_apostrophes = true;
        full.en_dash = DashSetting::Pattern(DashPattern::new("-".into()).unwrap());
        full.heading_sentence_case = true;
        full.heading_proper_nouns = vec!["A 1".into()];
        let mut c = Case::new(&format!("short {i}"));
        c.ev("texts", SHORT.len() * 2);
        for j in 0..SHORT.len() {
            let s = short(i * SHORT.len() + j);
            for o in [&plain, &full] { if bad(&s, o).is_some() { return judge(s, o.clone()); } }
        }
        c
    });
    // the same with fewer pieces, but longer
    let k = c.n(4, 5) as u32;
    c.section("short phrases", "every text of four (thorough: five) pieces from a list of 16 letters, quotation marks, brackets and dots", SMALL.len().pow(k - 1), |_, i| {
        let mut o = hongdown::Options::default();
        o.curly_apostrophes = true;
        o.heading_sentence_case = true;
        let mut c = Case::new(&format!("phrase {i}"));
        c.ev("texts", SMALL.len());
        for j in 0..SMALL.len() {
            let mut x = i * SMALL.len() + j;
            let s: String = (0..k).map(|_| { let t = SMALL[x % SMALL.len()]; x /= SMALL.len(); t }).collect();
            if bad(&s, &o).is_some() { return judge(s, o.clone()); }
        }
        c
    });
    let n = c.n(3000, 60000);
    c.section("repetition", "one to three tokens repeated 50 to 500 times, with line breaks between or without", n, |r, _| {
        let k = r.range(1, 3);
        let unit: String = (0..k).map(|_| *r.pick(TOK)).collect();
        let n = r.range(50, 500);
        let tail = soup(r, 3);
        judge(format!("{}{tail}", unit.repeat(n)), any_options(r))
    });
    c.section("growth", "each of the listed documents at size n and 4n: processor time may grow 4 times and, within tolerance, not 64 times", GROW.len() * 2, |r, i| growth(r, i));
    let n = c.n(24, 96);
    c.section("nesting", "containers nested 100 to 2000 deep, formatted in a separate process with a stack of 8 MB", n, |_, i| nesting(i));
}
const SHORT: &[&str] = &["a", "S", "1", "é", "'", "\"", ".", "-", " ", "\n", ")", "[", "]", "*", "_", "`", "&", ";", "#", "\\", "|", "<", ">", ":", "!", "s", "~", "="];
const SMALL: &[&str] = &["a", "s", "1", "é", "'", "\"", "...", "--", " ", "\n", ")", "[", "]", "# ", "\\", "&"];
const FRAME: &[(&str, &str)] = &[("", ""), ("", "\n"), ("# ", ""), ("- ", "\n- x\n"), ("> ", ""), ("| a |\n|---|\n| ", " |\n"), ("x[^1]\n\n[^1]: ", ""), ("t\n:   ", "\n"), ("*", "*\n"), ("[", "](u)"), ("<!-- hongdown-disable-next-line -->\n\n", "\n"), ("~~~ ", "\nx\n~~~\n")];
fn short_count(k: u32) -> usize { let n = SHORT.len(); (1..k).map(|j| n.pow(j) * FRAME.len()).sum::<usize>() + n.pow(k) }
/// The `i`th text: shorter ones in every frame, the longest ones alone.
fn short(mut i: usize) -> String {
    let n = SHORT.len();
    let word = |mut k: usize, len: u32| -> String { (0..len).map(|_| { let x = SHORT[k % n]; k /= n; x }).collect() };
    for len in 1.. {
        let m = n.pow(len) * FRAME.len();
        // the last length has one frame
        if i < m { let f = FRAME[i / n.pow(len) % FRAME.len()]; return format!("{}{}{}", f.0, word(i % n.pow(len), len), f.1); }
        i -= m;
    }
    unreachable!()
}
type Mk = fn(usize) -> String;
const GROW: &[(&str, Mk)] = &[
    ("one long paragraph", |n| format!("{}\n", "lorem *ipsum* `dolor` ".repeat(n))),
    ("many short lines", |n| "lorem ipsum\n".repeat(n)),
    ("many paragraphs", |n| "Lorem \"ipsum\" it's -- ... dolor.\n\n".repeat(n)),
    ("many list items", |n| "- item *a* `b`\n".repeat(n)),
    ("many ordered items", |n| "1. item\n".repeat(n)),
    ("many sections", |n| "## Heading of It\n\ntext [a](https://x.y/z)\n\n".repeat(n)),
    ("many links", |n| (0..n).map(|i| format!("[a{i}](https://x.y/{i}) ")).collect()),
    ("many references", |n| (0..n).map(|i| format!("[a{i}]\n\n[a{i}]: https://x.y/{i}\n\n")).collect()),
    ("many footnotes", |n| (0..n).map(|i| format!("x[^{i}]\n\n[^{i}]: note\n\n")).collect()),
    ("many rows", |n| format!("| a | b |\n|---|---|\n{}", "| x | y \\| z |\n".repeat(n))),
    ("many columns", |n| format!("{}|\n{}|\n{}|\n", "| a ".repeat(n), "|---".repeat(n), "| b ".repeat(n))),
    ("many quotes", |n| format!("{}\n", "\"a\" 'b' ".repeat(n))),
    ("open quotes", |n| format!("{}\n", "\"a 'b ".repeat(n))),
    ("open brackets", |n| format!("{}\n", "[a ".repeat(n))),
    ("undefined references", |n| format!("{}\n", "[a][b] ".repeat(n))),
    ("open code spans", |n| format!("{}\n", "`a ``b ".repeat(n))),
    ("open emphasis", |n| format!("{}\n", "*a **b _c ".repeat(n))),
    ("code lines", |n| format!("```\n{}```\n", "let x = 1; // ~~~\n".repeat(n))),
    ("html lines", |n| format!("<div>\n{}</div>\n", "<p>x</p>\n".repeat(n))),
    ("disabled region", |n| format!("<!-- hongdown-disable -->\n\n{}", "a *b* c\n\n".repeat(n))),
    ("directives", |n| "<!-- hongdown-disable-next-line -->\n\na  b\n\n".repeat(n)),
    ("headings", |n| "# A Heading Of `Code` And Words\n\n".repeat(n)),
    ("one long heading", |n| format!("# {}\n", "Word And ".repeat(n))),
    ("description list", |n| "term\n:   text\n\n".repeat(n)),
    ("escapes", |n| format!("{}\n", "\\* \\_ \\[x\\] &amp; ".repeat(n))),
    ("hard breaks", |n| format!("{}x\n", "a  \n".repeat(n))),
    ("wide text", |n| format!("{}\n", "한글 文書 ".repeat(n))),
    ("long word", |n| format!("{}\n", "abcdefgh".repeat(n))),
];
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
fn time(s: &str, o: &hongdown::Options) -> (f64, Option<String>) {
    let a = cpu();
    let e = bad(s, o);
    (cpu() - a, e)
}
fn growth(r: &mut Rng, i: usize) -> Case {
    let (name, mk) = GROW[i / 2];
    let mut o = hongdown::Options::default();
    if i % 2 == 1 { o = any_options(r); o.heading_sentence_case = true; }
    let n = 500;
    let (a, b) = (mk(n), mk(4 * n));
    let mut c = Case::new(&format!("{name} {i}"));
    let (t1, e1) = time(&a, &o);
    let (t2, e2) = time(&b, &o);
    c.ev("milliseconds at 4n", (t2 * 1000.0) as usize);
    if let Some(e) = e1.or(e2) { c.fail(e, name); return c; }
    // quadratic is 16 times; the margin is for small times and noise
    if std::env::var("GROW").is_ok() { println!("{name} {i}: {:.4} {:.4} x{:.1}", t1, t2, t2 / t1); }
    if t2 > 1.0 && t2 > 40.0 * t1.max(0.005) || t2 > 60.0 { c.fail("processor time explodes with the input size", format!("{name}: {t1:.3}s at {} bytes, {t2:.3}s at {} bytes, options {o:?}", a.len(), b.len())); }
    c
}
fn nesting(i: usize) -> Case {
    let depth = [100, 300, 1000, 2000][i % 4];
    let k = (i / 4) % 6;
    let s = match k {
        0 => format!("{} x\n", ">".repeat(depth)),
        1 => (0..depth).map(|d| format!("{}- a\n", "  ".repeat(d))).collect::<String>(),
        2 => format!("{}x{}\n", "*a **b ".repeat(depth / 2), "** c*".repeat(depth / 2)),
        3 => format!("{}x{}\n", "[".repeat(depth), "](u)".repeat(depth)),
        4 => format!("{}x{}\n", "<div>".repeat(depth), "</div>".repeat(depth)),
        _ => (0..depth).map(|d| format!("{}1. > a\n", "   ".repeat(d))).collect::<String>(),
    };
    let mut c = Case::new(&format!("{k} {depth}"));
    let exe = std::env::current_exe().unwrap();
    use std::io::Write;
    let mut p = std::process::Command::new(exe).arg("fmt1").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("spawn");
    p.stdin.take().unwrap().write_all(s.as_bytes()).ok();
    let out = p.wait_with_output().expect("wait");
    c.ev("bytes out", out.stdout.len());
    if !out.status.success() { c.fail("formatting deeply nested input crashed", format!("kind {k} depth {depth}: {:?}", out.status)); }
    c
}
