//! Meaning of a Markdown text: the comrak AST, normalised over what formatting may change.
use comrak::nodes::{AstNode, ListType, NodeValue};
use comrak::{Arena, Options as CO, parse_document};

pub fn comrak_options() -> CO<'static> {
    let mut o = CO::default();
    o.extension.front_matter_delimiter = Some("---".to_string());
    o.extension.table = true;
    o.extension.description_lists = true;
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.tasklist = true;
    o
}

#[derive(Clone, Copy, Default)]
pub struct SemOpts<'a> {
    /// fold typographic punctuation back to what the options would convert
    pub fold_punct: bool,
    pub em: Option<&'a str>,
    pub en: Option<&'a str>,
    pub default_lang: &'a str,
    pub fold_case_headings: bool,
    pub tight: bool,
}

pub fn fold(s: &str, o: &SemOpts) -> String {
    if !o.fold_punct {
        return s.to_string();
    }
    let mut r = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\u{201c}' | '\u{201d}' => r.push('"'),
            '\u{2018}' | '\u{2019}' => r.push('\''),
            '\u{2026}' => r.push_str("..."),
            '\u{2014}' => r.push_str(o.em.unwrap_or("\u{2014}")),
            '\u{2013}' => r.push_str(o.en.unwrap_or("\u{2013}")),
            c => r.push(c),
        }
    }
    r
}

fn squeeze(s: &str) -> String {
    let mut r = String::new();
    let mut sp = false;
    for c in s.chars() {
        if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
            sp = true;
        } else {
            if sp {
                r.push(' ');
            }
            sp = false;
            r.push(c);
        }
    }
    if sp {
        r.push(' ');
    }
    r
}

/// Inline content as one string in an unambiguous notation.
fn inl<'a>(node: &'a AstNode<'a>, out: &mut Vec<String>, text: &mut String, o: &SemOpts, in_heading: bool) {
    let flush = |out: &mut Vec<String>, text: &mut String| {
        if !text.is_empty() {
            let mut t = squeeze(&fold(text, o));
            if in_heading && o.fold_case_headings {
                t = t.to_uppercase().to_lowercase();
            }
            out.push(format!("t{:?}", t));
            text.clear();
        }
    };
    for ch in node.children() {
        let v = ch.data.borrow().value.clone();
        match v {
            NodeValue::Text(t) => text.push_str(&t),
            NodeValue::SoftBreak => text.push(' '),
            NodeValue::LineBreak => {
                let tr = text.trim_end().to_string();
                *text = tr;
                flush(out, text);
                out.push("BR".into());
            }
            NodeValue::Code(c) => {
                flush(out, text);
                out.push(format!("code{:?}", c.literal));
            }
            NodeValue::HtmlInline(h) => {
                flush(out, text);
                out.push(format!("html{:?}", squeeze(&h)));
            }
            NodeValue::FootnoteReference(f) => {
                flush(out, text);
                out.push(format!("fn{:?}", f.name));
            }
            other => {
                flush(out, text);
                let head = match &other {
                    NodeValue::Emph => "em".to_string(),
                    NodeValue::Strong => "strong".to_string(),
                    NodeValue::Link(l) => format!("link({:?},{:?})", l.url, l.title),
                    NodeValue::Image(l) => format!("img({:?},{:?})", l.url, l.title),
                    x => format!("other:{}", kind(x)),
                };
                out.push(format!("{head}{{"));
                let mut t2 = String::new();
                inl(ch, out, &mut t2, o, in_heading);
                out.push("}".into());
            }
        }
    }
    flush(out, text);
}

fn kind(v: &NodeValue) -> String {
    let s = format!("{v:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn inline_line<'a>(node: &'a AstNode<'a>, o: &SemOpts, heading: bool) -> String {
    let mut out = vec![];
    let mut t = String::new();
    inl(node, &mut out, &mut t, o, heading);
    // text at the borders of a block is insignificant at its outer side
    let mut s = out.join(" ");
    if s.starts_with("t\" ") {
        s = format!("t\"{}", &s[3..]);
    }
    if s.ends_with(" \"") {
        s.truncate(s.len() - 2);
        s.push('"');
    }
    s
}

pub fn sem(src: &str, o: &SemOpts) -> Vec<String> {
    let arena = Arena::new();
    let co = comrak_options();
    let root = parse_document(&arena, src, &co);
    let mut out = vec![];
    let mut foots: Vec<(String, Vec<String>)> = vec![];
    blocks(root, 0, &mut out, &mut foots, o);
    foots.sort();
    for (n, b) in foots {
        out.push(format!("footnote {n:?}"));
        for l in b {
            out.push(format!("  {l}"));
        }
    }
    out
}

fn blocks<'a>(node: &'a AstNode<'a>, d: usize, out: &mut Vec<String>, foots: &mut Vec<(String, Vec<String>)>, o: &SemOpts) {
    let pad = "  ".repeat(d);
    for ch in node.children() {
        let v = ch.data.borrow().value.clone();
        match &v {
            NodeValue::FrontMatter(f) => out.push(format!("{pad}front {:?}", f.trim())),
            NodeValue::Paragraph => {
                let s = inline_line(ch, o, false);
                out.push(format!("{pad}p {s}"));
            }
            NodeValue::Heading(h) => {
                let s = inline_line(ch, o, true);
                out.push(format!("{pad}h{} {s}", h.level));
            }
            NodeValue::List(l) => {
                let t = match l.list_type {
                    ListType::Bullet => "ul",
                    ListType::Ordered => "ol",
                };
                let tight = if o.tight { format!(" tight={}", l.tight) } else { String::new() };
                out.push(format!("{pad}{t}{tight}"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::Item(_) => {
                out.push(format!("{pad}li"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::TaskItem(t) => {
                out.push(format!("{pad}li[{}]", if t.symbol.is_some() { "x" } else { " " }));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::BlockQuote => {
                out.push(format!("{pad}quote"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::Alert(a) => {
                out.push(format!("{pad}alert {:?} {:?}", a.alert_type, a.title));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::CodeBlock(c) => {
                let info = c.info.trim();
                let info = if info.is_empty() { o.default_lang } else { info };
                out.push(format!("{pad}code {:?} {:?}", info, c.literal));
            }
            NodeValue::HtmlBlock(h) => out.push(format!("{pad}html {:?}", h.literal.trim_end())),
            NodeValue::ThematicBreak => out.push(format!("{pad}hr")),
            NodeValue::Table(t) => {
                out.push(format!("{pad}table {:?}", t.alignments));
                for row in ch.children() {
                    out.push(format!("{pad}  row"));
                    for cell in row.children() {
                        let s = inline_line(cell, o, false);
                        out.push(format!("{pad}    cell {s}"));
                    }
                }
            }
            NodeValue::DescriptionList => {
                out.push(format!("{pad}dl"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::DescriptionItem(_) => {
                out.push(format!("{pad}di"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::DescriptionTerm => {
                out.push(format!("{pad}dt"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::DescriptionDetails => {
                out.push(format!("{pad}dd"));
                blocks(ch, d + 1, out, foots, o);
            }
            NodeValue::FootnoteDefinition(f) => {
                let mut b = vec![];
                blocks(ch, 0, &mut b, foots, o);
                foots.push((f.name.clone(), b));
            }
            x => {
                out.push(format!("{pad}?{}", kind(x)));
                blocks(ch, d + 1, out, foots, o);
            }
        }
    }
}

pub fn first_diff(a: &[String], b: &[String]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let x = a.get(i).map(|s| s.as_str()).unwrap_or("<end>");
        let y = b.get(i).map(|s| s.as_str()).unwrap_or("<end>");
        if x != y {
            return Some(format!("[{}] at {i}: in  {x}\n      out {y}", chain(a, i)));
        }
    }
    None
}
/// Kinds of the nodes from the document down to entry i.
pub fn chain(a: &[String], i: usize) -> String {
    let ind = |s: &String| s.len() - s.trim_start().len();
    let word = |s: &String| s.trim().split(' ').next().unwrap_or("").to_string();
    if i >= a.len() {
        return "end".into();
    }
    let mut v = vec![word(&a[i])];
    let mut d = ind(&a[i]);
    for j in (0..i).rev() {
        if ind(&a[j]) < d {
            d = ind(&a[j]);
            v.push(word(&a[j]));
        }
    }
    v.reverse();
    v.join(">")
}
