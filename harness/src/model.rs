//! Abstract documents, their random generation, and their rendering in a random spelling.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Inl {
    /// a word as written in the source (no spaces or newlines)
    W(String),
    Sp,
    Sp2,
    Soft,
    Hard,
    Em(Vec<Inl>),
    Strong(Vec<Inl>),
    /// code span: literal content
    Code(String),
    Html(String),
    Auto(String),
    Foot(String),
    /// image?, text, destination
    Link(bool, Vec<Inl>, Dest),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dest {
    Inline { url: String, title: String },
    Full(String),
    Collapsed,
    Shortcut,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub task: Option<bool>,
    pub blocks: Vec<Blk>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Blk {
    Head(u8, Vec<Inl>),
    Para(Vec<Inl>),
    List { ordered: bool, tight: bool, start: usize, items: Vec<Item> },
    Quote(Vec<Blk>),
    Alert(&'static str, bool, Vec<Blk>),
    /// info, lines, indented
    Code(String, Vec<String>, bool),
    Html(Vec<String>),
    Hr,
    Table { align: Vec<char>, rows: Vec<Vec<Vec<Inl>>> },
    Desc(Vec<(Vec<Inl>, Vec<Blk>)>),
    FootDef(String, Vec<Blk>),
    RefDef(String, String, String),
    Front(Vec<String>),
    /// verbatim lines
    Raw(Vec<String>),
}

// ---------------------------------------------------------------- features
macro_rules! feats {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        #[allow(dead_code)]
        #[repr(u8)]
        pub enum F { $($n),* }
        pub const ALL_F: &[F] = &[$(F::$n),*];
    };
}
feats! {
    Em, Strong, NestEm, CodeSpan, CodeTick, LinkRel, LinkExt, LinkFull, LinkColl, LinkShort, LinkTitle, LinkFmt, LinkMulti,
    ImgRel, ImgExt, ImgRef, Badge, Auto, HtmlInl, FootRef, Hard, Soft, Sp2,
    Esc, Ent, Under, Star, Bracket, Angle, Amp, Pipe, Hash, Quotes, Apos, Dash, Dots, BlockStart, Backslash,
    Emoji, Cjk, Comb, UrlBare, LongWord, Tilde, Colon, Excl, Caret,
    HeadInl, TableInl, HeadEsc, UnderEm, Nbsp,
}
#[derive(Clone, Copy)]
pub struct Feats(pub u64);
impl Feats {
    pub fn none() -> Self { Feats(0) }
    pub fn all() -> Self {
        let mut f = Feats(0);
        for x in ALL_F { f = f.with(*x); }
        f
    }
    pub fn with(self, f: F) -> Self { Feats(self.0 | 1 << f as u8) }
    pub fn without(self, f: F) -> Self { Feats(self.0 & !(1 << f as u8)) }
    /// A random subset of the features (swarm testing): big and small documents, rich and plain.
    pub fn swarm(r: &mut Rng) -> Self {
        let p = *r.pick(&[5usize, 20, 50, 80, 100]);
        let mut f = Feats::none().with(F::Soft);
        for x in ALL_F { if r.chance(p) { f = f.with(*x); } }
        // double spaces are lost where a line is broken, so an overlong unit that makes the
        // paragraph be filled again can move words (known finding)
        if f.has(F::Sp2) { f = if r.chance(50) { f.without(F::Sp2) } else { f.but(&[F::LongWord, F::LinkTitle, F::UrlBare, F::LinkExt, F::LinkRel, F::ImgExt, F::ImgRel, F::ImgRef, F::Badge, F::Auto, F::LinkColl, F::LinkFull, F::LinkShort]) } }
        f
    }
    pub fn has(&self, f: F) -> bool { self.0 >> f as u8 & 1 == 1 }
    pub fn and(self, fs: &[F]) -> Self { fs.iter().fold(self, |a, f| a.with(*f)) }
    pub fn but(self, fs: &[F]) -> Self { fs.iter().fold(self, |a, f| a.without(*f)) }
}

/// Container kinds on the path from the document to a block.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C { Ul, Ol, Q, A, D, Fn }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Head, Para, Ul, Ol, Quote, Alert, Code, IndCode, Html, Hr, Table, Desc }
pub const ALL_K: &[K] = &[K::Head, K::Para, K::Ul, K::Ol, K::Quote, K::Alert, K::Code, K::IndCode, K::Html, K::Hr, K::Table, K::Desc];

pub type Allow = fn(&[C], K, bool) -> bool;

#[derive(Clone)]
pub struct GenCfg {
    pub f: Feats,
    /// (path, kind, first block of its container) may be generated
    pub allow: Allow,
    pub kinds: Vec<(K, usize)>,
    pub max_depth: usize,
    pub words: (usize, usize),
    pub blocks: (usize, usize),
    pub foot_blocks: bool,
    pub tight_pct: usize,
    pub spice: usize,
    pub table_ragged: bool,
    pub multi_para_items: bool,
    pub tasks: bool,
}

pub fn allow_all(_: &[C], _: K, _: bool) -> bool { true }
/// The domain of the document properties: everything but the places listed as known findings in
/// DESIGN.md (and the spellings Markdown itself reads differently).
pub fn dom(path: &[C], k: K, first: bool) -> bool {
    // comrak does not see an alert after ":   "
    if first && matches!(path.last(), Some(C::D)) && k == K::Alert { return false; }
    // lists that start a footnote are indented as if the label were not there; comrak misplaces
    // the cells of tables there
    if first && matches!(path.last(), Some(C::Fn)) && matches!(k, K::Ul | K::Ol | K::Table) { return false; }
    true
}

const ASCII: &[&str] = &["alpha", "beta", "gamma", "delta", "lorem", "ipsum", "dolor", "sit", "amet", "the", "a", "of", "in", "value", "system", "Rust", "index", "Server", "HTTP", "x", "foo", "bar", "quick", "brown", "fox", "jumps", "over", "lazy", "dog", "configuration", "documentation", "is", "not", "I", "to", "be", "word2", "v1.2.3", "3rd", "2024", "e.g.", "well-known", "ok", "README.md"];
const CJKW: &[&str] = &["한글", "문서", "테스트", "日本語", "中文字", "漢字", "テキスト", "안녕하세요", "형식화", "全角"];
const EMOJI: &[&str] = &["✅", "🚨", "🎉", "⚠️", "👩\u{200d}💻", "🇰🇷"];
const COMB: &[&str] = &["cafe\u{301}", "nai\u{308}ve", "éclair", "Å", "ﬁn", "a\u{300}b"];

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub c: GenCfg,
    pub uid: usize,
    pub refs: Vec<(String, String, String)>,
    pub foots: Vec<String>,
    pub no_foot: bool,
    pub in_cell: bool,
    pub in_head: bool,
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, c: GenCfg) -> Self {
        G { r, c, uid: 0, refs: vec![], foots: vec![], no_foot: false, in_cell: false, in_head: false }
    }
    fn id(&mut self) -> usize {
        self.uid += 1;
        self.uid
    }
    fn has(&self, f: F) -> bool { self.c.f.has(f) }

    pub fn plain_word(&mut self) -> String {
        if self.has(F::Nbsp) && self.r.chance(8) { return self.r.pick(&["10\u{a0}km", "a\u{3000}b", "c\u{2003}\u{a0}d"]).to_string(); }
        if self.has(F::Cjk) && self.r.chance(12) { return self.r.pick(CJKW).to_string(); }
        if self.has(F::Comb) && self.r.chance(4) { return self.r.pick(COMB).to_string(); }
        if self.has(F::Emoji) && self.r.chance(3) { return self.r.pick(EMOJI).to_string(); }
        if self.has(F::LongWord) && self.r.chance(2) {
            let n = self.r.range(15, 120);
            return (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect();
        }
        self.r.pick(ASCII).to_string()
    }

    /// One word of prose, possibly a spicy one. `first` is true at the start of a block.
    fn word(&mut self, first: bool) -> Vec<Inl> {
        if !self.r.chance(self.c.spice) {
            let mut w = self.plain_word();
            if first && w.chars().next().is_some_and(|c| c.is_ascii_digit()) { w = "Start".into(); }
            if self.r.chance(8) { w.push(*self.r.pick(&[',', '.', ';', '!', '?'])); }
            return vec![Inl::W(w)];
        }
        for _ in 0..20 {
            let f = *self.r.pick(ALL_F);
            if !self.has(f) { continue; }
            if self.in_head && matches!(f, F::Esc | F::Ent | F::Backslash | F::Bracket | F::Star | F::Under) && !self.has(F::HeadEsc) { continue; }
            let w = self.plain_word();
            let s: Option<Vec<String>> = match f {
                F::Esc => Some(vec![(*self.r.pick(&["\\*lit\\*", "snake\\_case", "\\[x\\]", "a\\*b", "\\`tick\\`", "\\<tag>", "\\_u\\_", "\\\\path", "\\# no", "\\!", "1\\. x", "\\- y", "\\&amp;"])).to_string()]),
                F::Ent => Some(vec![(*self.r.pick(&["&amp;", "&lt;b&gt;", "&copy;", "x&nbsp;y", "&#35;", "&#x41;", "&hellip;", "&quot;q&quot;", "&ouml;n", "&mdash;"])).to_string()]),
                F::Under => Some(vec![(*self.r.pick(&["snake_case", "__init", "a_b_c", "_x", "node_modules"])).to_string()]),
                F::Star => Some(vec![(*self.r.pick(&["*", "5 * 3"])).to_string()]),
                F::Bracket => Some(vec![(*self.r.pick(&["[x]", "[opt]", "a[0]", "[[w]]", "]", "[", "f(x)[1]"])).to_string()]),
                F::Angle => Some(vec![(*self.r.pick(&["<", ">", "x>y", "<=", "->", "=>", "a<3"])).to_string()]),
                F::Amp => Some(vec![(*self.r.pick(&["&", "AT&T", "a&b;", "&foo;", "x&amp"])).to_string()]),
                F::Pipe => Some(vec![(*self.r.pick(&["a|b", "|", "||"])).to_string()]),
                F::Hash => Some(vec![(*self.r.pick(&["C#", "#tag", "#1", "a#"])).to_string()]),
                F::Quotes => Some(vec![match self.r.below(5) {
                    0 => format!("\"{w}\""),
                    1 => format!("'{w}'"),
                    2 => { let v = self.plain_word(); return vec![Inl::W(format!("\"{w}")), Inl::Sp, Inl::W(format!("{v}\""))]; }
                    3 => format!("(\"{w}\")"),
                    _ => { let v = self.plain_word(); return vec![Inl::W(format!("'{w}")), Inl::Sp, Inl::W(format!("{v}'"))]; }
                }]),
                F::Apos => Some(vec![(*self.r.pick(&["it's", "don't", "users'", "rock'n'roll", "'90s", "O'Brien"])).to_string()]),
                F::Dash => Some(vec![(*self.r.pick(&["--", "a--b", "---", "x -- y", "1--2", "--flag", "well---known", "-"])).to_string()]),
                F::Dots => Some(vec![(*self.r.pick(&["...", "wait...", "....", "a...b", "..", "…"])).to_string()]),
                F::BlockStart => {
                    if first { None } else { Some(vec![(*self.r.pick(&["-", "+", "1.", "2)", "#", "##", ">", "=", "===", "---", "~~~", "*", "10.", ":", "|", "[^z]:", "<div>", "</p>"])).to_string()]) }
                }
                F::Backslash => Some(vec![(*self.r.pick(&["C:\\dir", "\\n", "a\\b", "\\\\", "\\path"])).to_string()]),
                F::Tilde => Some(vec![(*self.r.pick(&["~", "~5", "~/dir", "a~b"])).to_string()]),
                F::Colon => Some(vec![(*self.r.pick(&["a:", "x::y", "key:val"])).to_string()]),
                F::Excl => Some(vec![(*self.r.pick(&["!", "a!", "!x", "!="])).to_string()]),
                F::Caret => Some(vec![(*self.r.pick(&["^", "a^2", "x^y"])).to_string()]),
                F::UrlBare => Some(vec![(*self.r.pick(&["https://example.com/a_b", "www.example.com", "http://x.org/?q=1&r=2"])).to_string()]),
                F::Em | F::Strong | F::NestEm | F::CodeSpan | F::CodeTick | F::LinkRel | F::LinkExt | F::LinkFull | F::LinkColl | F::LinkShort | F::ImgRel | F::ImgExt | F::ImgRef | F::Badge | F::Auto | F::HtmlInl | F::FootRef => {
                    if self.in_head && !self.has(F::HeadInl) { continue; }
                    if self.in_cell && !self.has(F::TableInl) { continue; }
                    if first && matches!(f, F::HtmlInl | F::Auto) { continue; }
                    match self.inline_feature(f) { Some(v) => return v, None => continue }
                }
                _ => None,
            };
            if let Some(ws) = s {
                let w = &ws[0];
                if self.in_cell && w.contains('|') { continue; }
                if first && w.starts_with(|c: char| "-+*#>=~`:|<0123456789[".contains(c)) { continue; }
                let mut out = vec![];
                for (i, p) in w.split(' ').enumerate() {
                    if i > 0 { out.push(Inl::Sp); }
                    out.push(Inl::W(p.to_string()));
                }
                return out;
            }
        }
        vec![Inl::W(self.plain_word())]
    }

    pub fn code_text(&mut self) -> String {
        let base = ["x = 1", "foo", "a_b", "let \"s\"", "it's", "a -- b", "...", "<b>", "*p", "f(x)[0]", "a  b", "한글", "\\n", "--flag", "&amp;", "|"];
        let mut s = self.r.pick(&base).to_string();
        if self.in_cell { s = s.replace('|', "or"); }
        if self.r.chance(50) { s.push_str(&format!("{}", self.id())); }
        if self.has(F::CodeTick) { match self.r.below(12) { 0 | 1 => s = format!("{s}`t"), 2 => s = format!("{s} t`"), 3 => s = format!("`t {s}"), _ => {} } }
        if !self.in_head && !self.in_cell && self.has(F::Soft) && self.r.chance(10) {
            // over two lines
            if let Some(i) = s.find(' ').filter(|&i| i > 0 && s[i + 1..].starts_with(|c: char| c.is_alphabetic() || c == '"' || c == '=') && !s[..i].ends_with('\\')) { s.replace_range(i..i + 1, "\n"); }
        }
        s
    }
    pub fn url(&mut self, ext: bool) -> String {
        let i = self.id();
        if ext {
            match self.r.below(5) {
                0 => format!("https://example.com/p{i}"),
                1 => format!("http://example.org/a_b{i}?q=1&r=2"),
                2 => format!("https://example.com/#frag-{i}"),
                3 => format!("https://example.com/~u/{i}.html"),
                _ => format!("https://ko.example.com/한글/{i}"),
            }
        } else {
            match self.r.below(4) {
                0 => format!("./file{i}.md"),
                1 => format!("#anchor-{i}"),
                2 => format!("../dir/a_b{i}.png"),
                _ => format!("mailto:u{i}@example.com"),
            }
        }
    }
    fn title(&mut self) -> String {
        if self.has(F::LinkTitle) && self.r.chance(25) {
            let i = self.id();
            (*self.r.pick(&["Title", "A title here", "it's fine", "제목", "dots... -- x"])).to_string() + &format!(" {i}")
        } else { String::new() }
    }
    fn link_text(&mut self) -> Vec<Inl> {
        let i = self.id();
        let mut v = vec![Inl::W(format!("link{i}"))];
        if self.has(F::LinkMulti) && self.r.chance(50) { v.push(if self.r.chance(25) && !self.in_head && !self.in_cell { Inl::Soft } else { Inl::Sp }); let w = self.plain_word(); v.push(Inl::W(w)); }
        if self.has(F::LinkFmt) && self.r.chance(30) {
            v.push(Inl::Sp);
            let w = self.plain_word();
            v.push(match self.r.below(3) { 0 => Inl::Em(vec![Inl::W(w)]), 1 => Inl::Strong(vec![Inl::W(w)]), _ => Inl::Code(w) });
        }
        v
    }
    fn inline_feature(&mut self, f: F) -> Option<Vec<Inl>> {
        Some(vec![match f {
            F::Em | F::Strong => {
                let n = self.r.range(1, 3);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 { v.push(Inl::Sp); }
                    let w = self.plain_word();
                    v.push(if i == n - 1 && self.r.chance(15) && self.has(F::CodeSpan) { let t = self.code_text(); Inl::Code(t) } else { Inl::W(w) });
                }
                if self.r.chance(10) && self.has(F::Apos) { v.push(Inl::Sp); v.push(Inl::W("it's".into())); }
                if f == F::Em { Inl::Em(v) } else { Inl::Strong(v) }
            }
            F::NestEm => {
                let a = Inl::W(self.plain_word());
                let b = Inl::W(self.plain_word());
                let c = Inl::W(self.plain_word());
                if self.r.chance(50) { Inl::Strong(vec![a, Inl::Sp, Inl::Em(vec![b]), Inl::Sp, c]) } else { Inl::Em(vec![a, Inl::Sp, Inl::Strong(vec![b]), Inl::Sp, c]) }
            }
            F::CodeSpan | F::CodeTick => Inl::Code(self.code_text()),
            F::LinkRel | F::LinkExt => {
                let mut t = self.link_text();
                let url = self.url(f == F::LinkExt);
                // a text that is the address itself, which may or may not be written `<address>`
                if self.r.chance(15) && !url.contains(|c: char| "_~".contains(c)) {
                    let w = Inl::W(url.clone());
                    t = vec![if self.has(F::LinkFmt) && self.r.chance(30) { Inl::Strong(vec![w]) } else { w }];
                }
                let title = self.title();
                Inl::Link(false, t, Dest::Inline { url, title })
            }
            F::ImgRel | F::ImgExt => {
                let w = self.plain_word();
                let url = self.url(f == F::ImgExt);
                let title = self.title();
                Inl::Link(true, vec![Inl::W(w)], Dest::Inline { url, title })
            }
            F::LinkFull => {
                let t = self.link_text();
                let l = self.label();
                Inl::Link(false, t, Dest::Full(l))
            }
            F::LinkColl | F::LinkShort => {
                let i = self.id();
                let mut t = vec![Inl::W(format!("ref{i}"))];
                if self.has(F::LinkMulti) && self.r.chance(40) { t.push(Inl::Sp); t.push(Inl::W(self.r.pick(ASCII).to_string())); }
                let l = plain_text(&t);
                self.def(l);
                Inl::Link(false, t, if f == F::LinkColl { Dest::Collapsed } else { Dest::Shortcut })
            }
            F::ImgRef => {
                let w = self.plain_word();
                let l = self.label();
                Inl::Link(true, vec![Inl::W(w)], Dest::Full(l))
            }
            F::Badge => {
                let w = self.plain_word();
                let (u1, u2) = (self.url(true), self.url(true));
                let img = if self.r.chance(50) { Inl::Link(true, vec![Inl::W(w)], Dest::Inline { url: u1, title: String::new() }) } else { let l = self.label(); Inl::Link(true, vec![Inl::W(w)], Dest::Full(l)) };
                if self.r.chance(50) { Inl::Link(false, vec![img], Dest::Inline { url: u2, title: String::new() }) } else { let l = self.label(); Inl::Link(false, vec![img], Dest::Full(l)) }
            }
            F::Auto => { let u = self.url(true); if !u.is_ascii() { return None; } Inl::Auto(u) }
            F::HtmlInl => {
                // glued to a word: alone on a line a tag would be a block
                let h = Inl::Html((*self.r.pick(&["<br>", "<b class=\"x--y\">", "</b>", "<!-- it's \"c\" ... -->", "<kbd>"])).to_string());
                let w = Inl::W(self.r.pick(ASCII).to_string());
                return Some(if self.r.chance(50) { vec![w, h] } else { let v = Inl::W(self.r.pick(ASCII).to_string()); vec![w, h, v] });
            }
            F::FootRef => {
                if self.no_foot { return None; }
                let n = if !self.foots.is_empty() && self.r.chance(15) { self.r.pick(&self.foots).clone() } else {
                    let i = self.id();
                    let n = if self.r.chance(50) { format!("{i}") } else { format!("note{i}") };
                    self.foots.push(n.clone());
                    n
                };
                let w = self.plain_word();
                return Some(vec![Inl::W(w), Inl::Foot(n)]);
            }
            _ => return None,
        }])
    }
    pub fn label(&mut self) -> String {
        if !self.refs.is_empty() && self.r.chance(20) {
            return self.r.pick(&self.refs).0.clone();
        }
        let i = self.id();
        let l = match self.r.below(5) {
            0 => format!("{i}"),
            1 => format!("#{i}"),
            2 => format!("label {i}"),
            3 => format!("L{i}"),
            _ => format!("lab-{i}"),
        };
        self.def(l.clone());
        l
    }
    fn def(&mut self, l: String) {
        let e = self.r.chance(70);
        let u = self.url(e);
        let t = self.title();
        self.refs.push((l, u, t));
    }

    pub fn prose(&mut self, lo: usize, hi: usize, soft: bool) -> Vec<Inl> {
        let n = self.r.range(lo, hi);
        let mut v: Vec<Inl> = vec![];
        for i in 0..n {
            if i > 0 {
                let s = if soft && self.has(F::Hard) && self.r.chance(2) { Inl::Hard }
                    else if soft && self.has(F::Soft) && self.r.chance(10) { Inl::Soft }
                    else if self.has(F::Sp2) && self.r.chance(3) { Inl::Sp2 } else { Inl::Sp };
                v.push(s.clone());
                // no block-start hazards right after a line break in the source
                let w = self.word(matches!(s, Inl::Soft | Inl::Hard));
                v.extend(w);
            } else {
                v.extend(self.word(true));
            }
        }
        v
    }
    pub fn para(&mut self) -> Vec<Inl> {
        let (lo, hi) = self.c.words;
        let hi = if self.r.chance(50) { hi } else { lo + (hi - lo) / 4 };
        let mut v = self.prose(lo, hi, true);
        // blanks that are text, at the ends of lines as well
        if self.has(F::Nbsp) && !self.in_cell {
            let n = v.len();
            for i in 0..n {
                let edge = |x: Option<&Inl>| matches!(x, None | Some(Inl::Sp | Inl::Soft | Inl::Hard));
                if edge(if i == 0 { None } else { v.get(i - 1) }) && edge(v.get(i + 1)) && self.r.chance(if i == 0 || i + 1 == n { 25 } else { 4 }) {
                    let b = *self.r.pick(&["\u{a0}", "\u{3000}", "\u{2003}\u{a0}"]);
                    if let Inl::W(w) = &mut v[i] { match self.r.below(4) { 0 if w.chars().all(char::is_alphanumeric) => *w = format!("{b}{w}"), 1 => w.push_str(b), 2 if w.chars().all(char::is_alphanumeric) => *w = b.into(), _ => {} } }
                }
            }
        }
        v
    }
    pub fn code_lines(&mut self) -> Vec<String> {
        let n = self.r.below(6);
        let mut v: Vec<String> = (0..n).map(|_| {
            let base = ["fn main() {", "    x = \"1\";", "}", "", "~~~", "~~~~", "```", "`````", "a -- b ...", "# not heading", "> q", "- item", "  * two", "it's 'q'", "<!-- hongdown-disable -->", "\ttab", "[a]: b", "| a | b |", "한글 코드", "   ~~~~ x", "trailing  "];
            self.r.pick(&base).to_string()
        }).collect();
        // an unambiguous token so that a block can be found again
        let i = self.id();
        v.insert(0, format!("code{i}"));
        v
    }

    pub fn blocks(&mut self, path: &mut Vec<C>, lo: usize, hi: usize) -> Vec<Blk> {
        let n = self.r.range(lo, hi);
        let mut out: Vec<Blk> = vec![];
        let mut prev: Option<K> = None;
        for i in 0..n {
            let mut done = false;
            for _ in 0..30 {
                let tot: usize = self.c.kinds.iter().map(|k| k.1).sum();
                let mut x = self.r.below(tot);
                let mut k = K::Para;
                for (kk, w) in &self.c.kinds { if x < *w { k = *kk; break; } x -= w; }
                if path.len() >= self.c.max_depth && matches!(k, K::Ul | K::Ol | K::Quote | K::Alert | K::Desc) { continue; }
                if !(self.c.allow)(path, k, i == 0) { continue; }
                // adjacent lists of one kind merge, adjacent quotes merge, indented code continues a list
                if !may_follow(prev, k) { continue; }
                if k == K::IndCode && i == 0 && !path.is_empty() { continue; }
                let b = self.block(k, path);
                out.push(b);
                prev = Some(k);
                done = true;
                break;
            }
            if !done { let v = self.para(); out.push(Blk::Para(v)); prev = Some(K::Para); }
        }
        out
    }
    pub fn block(&mut self, k: K, path: &mut Vec<C>) -> Blk {
        match k {
            K::Head => {
                let l = *self.r.pick(&[1u8, 2, 2, 3, 3, 4, 5, 6]);
                self.in_head = true;
                let v = self.prose(1, 6, false);
                self.in_head = false;
                Blk::Head(l, v)
            }
            K::Para => { let v = self.para(); Blk::Para(v) }
            K::Ul | K::Ol => {
                let ordered = k == K::Ol;
                let tight = self.r.chance(self.c.tight_pct);
                let n = if ordered && self.r.chance(10) { self.r.range(9, 13) } else { self.r.range(1, 4) };
                path.push(if ordered { C::Ol } else { C::Ul });
                let mut items = vec![];
                let tasky = self.c.tasks && !ordered && self.r.chance(20);
                for _ in 0..n {
                    let task = if tasky { Some(self.r.chance(50)) } else { None };
                    let mut bl = vec![];
                    if task.is_some() || (self.c.allow)(path, K::Para, true) && self.r.chance(90) {
                        let p = self.para();
                        bl.push(Blk::Para(p));
                        if tight {
                            if self.r.chance(25) && path.len() < self.c.max_depth {
                                let k = if self.r.chance(60) { K::Ul } else { K::Ol };
                                if (self.c.allow)(path, k, false) && self.c.kinds.iter().any(|x| x.0 == k && x.1 > 0) { let b = self.block(k, path); bl.push(b); }
                            } else if self.r.chance(12) {
                                let k = *self.r.pick(&[K::Code, K::Quote, K::Head]);
                                if (k != K::Quote || path.len() < self.c.max_depth) && (self.c.allow)(path, k, false) && self.c.kinds.iter().any(|x| x.0 == k && x.1 > 0) { let b = self.block(k, path); bl.push(b); }
                            }
                        } else if self.c.multi_para_items && self.r.chance(40) {
                            let more = self.blocks_after_para(path, 1, 2);
                            bl.extend(more);
                        }
                    } else {
                        bl = self.blocks(path, 1, if tight { 1 } else { 2 });
                    }
                    items.push(Item { task, blocks: bl });
                }
                path.pop();
                let start = if ordered { *self.r.pick(&[1usize, 1, 1, 1, 0, 2, 5, 10]) } else { 1 };
                let tight = tight || n == 1 && items[0].blocks.len() == 1;
                Blk::List { ordered, tight, start, items }
            }
            K::Quote => { path.push(C::Q); let b = self.blocks(path, 1, 3); path.pop(); Blk::Quote(b) }
            K::Alert => {
                path.push(C::A);
                let b = self.blocks(path, 1, 2);
                path.pop();
                let t = *self.r.pick(&["NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION", "NOTE Title", "TIP It's *a* -- \"title\""]);
                Blk::Alert(t, self.r.chance(30), b)
            }
            K::Code => {
                let info = (*self.r.pick(&["", "rust", "sh", "python -x", "text hongdown-no-format", "c++", "한"])).to_string();
                let l = self.code_lines();
                Blk::Code(info, l, false)
            }
            K::IndCode => {
                let mut l = self.code_lines();
                while l.last().is_some_and(|x| x.trim().is_empty()) { l.pop(); }
                Blk::Code(String::new(), l, true)
            }
            K::Html => {
                let i = self.id();
                Blk::Html(match self.r.below(5) {
                    0 => vec![format!("<!-- comment {i} it's \"x\" -- ... -->")],
                    1 => vec!["<!--".into(), format!("multi {i}"), "  line".into(), "-->".into()],
                    2 => vec![format!("<div id=\"d{i}\">"), "  <p>it's *raw*</p>".into(), "</div>".into()],
                    3 => vec!["<details>".into(), format!("<summary>S{i}</summary>"), "</details>".into()],
                    _ => vec![format!("<img src=\"a{i}.png\" alt=\"...\">")],
                })
            }
            K::Hr => Blk::Hr,
            K::Table => {
                let cols = self.r.range(1, 4);
                let align: Vec<char> = (0..cols).map(|_| *self.r.pick(&['n', 'l', 'r', 'c'])).collect();
                let nrows = self.r.range(1, 4);
                self.in_cell = true;
                let mut rows = vec![];
                for i in 0..=nrows {
                    let n = if i > 0 && self.c.table_ragged && self.r.chance(10) { self.r.range(1, cols) } else { cols };
                    let mut row = vec![];
                    for j in 0..n {
                        row.push(if i > 0 && j > 0 && self.r.chance(8) { vec![] } else { self.prose(1, 3, false) });
                    }
                    rows.push(row);
                }
                self.in_cell = false;
                Blk::Table { align, rows }
            }
            K::Desc => {
                let n = self.r.range(1, 3);
                let mut v = vec![];
                for _ in 0..n {
                    let term = self.prose(1, 3, false);
                    path.push(C::D);
                    let b = if self.r.chance(60) { let p = self.para(); vec![Blk::Para(p)] } else { self.blocks(path, 1, 2) };
                    path.pop();
                    v.push((term, b));
                }
                Blk::Desc(v)
            }
        }
    }
    /// blocks that follow a paragraph in the same container
    fn blocks_after_para(&mut self, path: &mut Vec<C>, lo: usize, hi: usize) -> Vec<Blk> {
        let mut v = self.blocks(path, lo + 1, hi + 1);
        v.remove(0);
        // the removed first block stood for the paragraph; drop followers that would now follow it wrongly
        v.retain(|b| !matches!(b, Blk::Desc(_)));
        v
    }
    /// A whole document: blocks, then the definitions they need, scattered.
    pub fn doc(&mut self) -> Vec<Blk> {
        let (lo, hi) = self.c.blocks;
        loop {
            let mut b = self.blocks(&mut vec![], lo, hi);
            self.finish(&mut b);
            if structure_ok(&b) { return b; }
        }
    }
    pub fn finish(&mut self, b: &mut Vec<Blk>) {
        let foots = std::mem::take(&mut self.foots);
        self.no_foot = true;
        let old = self.c.f;
        self.c.f = old.without(F::Sp2);
        let mut defs = vec![];
        for n in foots {
            let bl = if self.c.foot_blocks && self.r.chance(25) {
                let p = self.para();
                let mut v = vec![Blk::Para(p)];
                let mut path = vec![C::Fn];
                v.extend(self.blocks_after_para(&mut path, 1, 2));
                v
            } else { let p = self.para(); vec![Blk::Para(p)] };
            defs.push(Blk::FootDef(n, bl));
        }
        self.no_foot = false;
        self.c.f = old;
        for (l, u, t) in std::mem::take(&mut self.refs) { defs.push(Blk::RefDef(l, u, t)); }
        if self.r.chance(50) {
            b.extend(defs);
        } else {
            for d in defs {
                // not between a list and what follows it in a way that changes adjacency
                let at = self.r.range(0, b.len());
                let ok = at == b.len() || !matches!(b[at], Blk::Front(_) | Blk::Code(_, _, true) | Blk::Desc(_));
                if ok { b.insert(at, d) } else { b.push(d) }
            }
        }
    }
}
pub fn plain_text(v: &[Inl]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            Inl::W(w) => s.push_str(w),
            Inl::Sp | Inl::Soft => s.push(' '),
            Inl::Sp2 => s.push_str("  "),
            Inl::Code(c) => s.push_str(c),
            Inl::Em(x) | Inl::Strong(x) => s.push_str(&plain_text(x)),
            Inl::Link(_, x, _) => s.push_str(&plain_text(x)),
            _ => {}
        }
    }
    s
}

// ---------------------------------------------------------------- rendering
pub struct Style<'a> {
    pub r: &'a mut Rng,
    /// free choice of every spelling; false: one fixed plain spelling
    pub vary: bool,
    pub flush: bool,
}

fn code_span(s: &str) -> String {
    let mut max = 0;
    let mut cur = 0;
    for c in s.chars() { if c == '`' { cur += 1; max = max.max(cur); } else { cur = 0; } }
    let d = "`".repeat(if max == 0 { 1 } else { max + 1 });
    if s.starts_with('`') || s.ends_with('`') { format!("{d} {s} {d}") } else { format!("{d}{s}{d}") }
}

impl<'a> Style<'a> {
    /// Blanks that mean nothing at the end of a line.
    fn tail(&mut self) -> String { if self.ch(6) { " ".repeat(self.r.range(1, 3)) } else { String::new() } }
    fn ch(&mut self, pct: usize) -> bool { self.vary && self.r.chance(pct) }

    pub fn inl(&mut self, v: &[Inl]) -> String {
        let mut s = String::new();
        for i in v {
            match i {
                Inl::W(w) => s.push_str(w),
                Inl::Sp => s.push(' '),
                Inl::Sp2 => s.push_str("  "),
                Inl::Soft => s.push('\n'),
                Inl::Hard => s.push_str(if self.ch(40) { "\\\n" } else { "  \n" }),
                Inl::Em(x) => { let t = self.inl(x); let c = if self.vary && crate::mon::hash(&t) % 10 < 4 && bound(&s) { "_" } else { "*" }; s.push_str(&format!("{c}{t}{c}")); }
                Inl::Strong(x) => { let t = self.inl(x); let c = if self.vary && crate::mon::hash(&t) % 10 < 3 && bound(&s) { "__" } else { "**" }; s.push_str(&format!("{c}{t}{c}")); }
                Inl::Code(c) => s.push_str(&code_span(c)),
                Inl::Html(h) => s.push_str(h),
                Inl::Auto(u) => s.push_str(&format!("<{u}>")),
                Inl::Foot(n) => s.push_str(&format!("[^{n}]")),
                Inl::Link(img, t, d) => {
                    let t = self.inl(t);
                    if *img { s.push('!'); }
                    s.push_str(&format!("[{t}]"));
                    match d {
                        Dest::Inline { url, title } => {
                            s.push('(');
                            s.push_str(url);
                            if !title.is_empty() { s.push_str(&format!(" \"{title}\"")); }
                            s.push(')');
                        }
                        Dest::Full(l) => s.push_str(&format!("[{l}]")),
                        Dest::Collapsed => s.push_str("[]"),
                        Dest::Shortcut => {}
                    }
                }
            }
        }
        s
    }
    fn lines(&mut self, v: &[Inl]) -> Vec<String> { self.inl(v).split('\n').map(|x| x.to_string()).collect() }

    pub fn doc(&mut self, b: &[Blk]) -> String {
        let l = self.blocks(b, true, 0);
        let mut s = l.join("\n");
        s.push('\n');
        s
    }
    /// sep: separate by blank lines
    pub fn blocks(&mut self, b: &[Blk], sep: bool, depth: usize) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        for (i, x) in b.iter().enumerate() {
            if i > 0 {
                let prev = &b[i - 1];
                let both_defs = matches!((prev, x), (Blk::RefDef(..), Blk::RefDef(..)));
                let atx_before = false;
                if sep && !((both_defs || atx_before) && self.ch(60)) {
                    let n = if self.ch(15) { 2 } else { 1 };
                    for _ in 0..n { let t = if depth == 0 { self.tail() } else { String::new() }; out.push(t); }
                }
            }
            let l = self.block(x, depth);
            out.extend(l);
        }
        out
    }
    pub fn block(&mut self, b: &Blk, depth: usize) -> Vec<String> {
        match b {
            Blk::Head(l, v) => {
                let t = self.inl(v);
                if *l <= 2 && self.ch(40) && !t.trim().is_empty() {
                    let n = if self.ch(50) { self.r.range(3, 10) } else { t.chars().count().max(3) };
                    let c = if *l == 1 { "=" } else { "-" };
                    vec![t, c.repeat(n)]
                } else {
                    let close = if self.ch(10) { format!(" {}", "#".repeat(*l as usize)) } else { String::new() };
                    let sp = if self.ch(10) { "   " } else { " " };
                    let tail = self.tail();
                    vec![format!("{}{sp}{t}{close}{tail}", "#".repeat(*l as usize))]
                }
            }
            Blk::Para(v) => self.lines(v),
            Blk::List { ordered, tight, start, items } => {
                let bullet = if self.vary { *self.r.pick(&['-', '*', '+']) } else { '-' };
                let delim = if self.ch(30) { ')' } else { '.' };
                // next to an outer marker, leading blanks would move the content of the outer item
                let lead = if !std::mem::take(&mut self.flush) && self.ch(50) { self.r.below(3) } else { 0 };
                let trail = if self.vary { self.r.range(1, 3) } else { 1 };
                let mut out = vec![];
                for (i, it) in items.iter().enumerate() {
                    if i > 0 && !*tight { out.push(String::new()); }
                    let m = if *ordered { format!("{}{delim}", start + i) } else { bullet.to_string() };
                    let w = lead + m.len() + trail;
                    let task = match it.task { Some(true) => if self.ch(30) { "[X] " } else { "[x] " }, Some(false) => "[ ] ", None => "" };
                    let glue = it.blocks.len() == 2 && matches!((&it.blocks[0], &it.blocks[1]), (Blk::Para(_), Blk::Code(_, _, false) | Blk::Quote(_) | Blk::Alert(..))) && self.ch(60);
                    let sep = !*tight || it.blocks.len() > 1 && !matches!(it.blocks[1], Blk::List { .. }) && !glue;
                    // a loose nested list in a tight item is joined directly
                    self.flush = matches!(it.blocks.first(), Some(Blk::List { .. }));
                    let mut ls = self.blocks(&it.blocks, sep, depth + 1);
                    // a marker before a rule of the same character is part of the rule
                    if matches!(it.blocks.first(), Some(Blk::Hr)) && !*ordered && ls[0].starts_with(bullet) { ls[0] = "___".into(); }
                    for (j, l) in ls.iter().enumerate() {
                        if j == 0 { out.push(format!("{}{m}{}{task}{l}", " ".repeat(lead), " ".repeat(trail))); }
                        else if l.is_empty() { out.push(String::new()); }
                        else { out.push(format!("{}{l}", " ".repeat(w))); }
                    }
                }
                out
            }
            Blk::Quote(v) => { let l = self.blocks(v, true, depth + 1); self.quote(l) }
            Blk::Alert(t, blank, v) => {
                let (t, title) = t.split_once(' ').map_or((*t, String::new()), |(t, x)| (t, format!(" {x}")));
                let mut l = vec![format!("[!{t}]{title}")];
                if *blank { l.push(String::new()); }
                l.extend(self.blocks(v, true, depth + 1));
                // `>[!NOTE]` without the space is no alert
                l.into_iter().map(|x| if x.is_empty() { ">".to_string() } else { format!("> {x}") }).collect()
            }
            Blk::Code(info, lines, ind) => {
                if *ind { return lines.iter().map(|l| if l.is_empty() { String::new() } else { format!("    {l}") }).collect(); }
                let c = if self.ch(50) && !info.contains('`') { '`' } else { '~' };
                let max = lines.iter().map(|l| l.trim_start().chars().take_while(|x| *x == c).count()).max().unwrap_or(0);
                let n = (max + 1).max(3) + if self.ch(30) { self.r.below(3) } else { 0 };
                let f: String = std::iter::repeat_n(c, n).collect();
                let sp = if self.ch(50) { " " } else { "" };
                let mut out = vec![if info.is_empty() { f.clone() } else { format!("{f}{sp}{info}") }];
                out.extend(lines.iter().cloned());
                out.push(f);
                out
            }
            Blk::Html(l) => l.clone(),
            Blk::Hr => vec![if self.vary { (*self.r.pick(&["***", "* * *", "___", "- - -", "-----"])).to_string() + &self.tail() } else { "***".into() }],
            Blk::Table { align, rows } => {
                let mut out = vec![];
                let pad = self.vary && self.r.chance(50);
                let outer = !(self.ch(25) && align.len() > 1);
                for (i, row) in rows.iter().enumerate() {
                    let cells: Vec<String> = row.iter().map(|c| self.inl(c)).collect();
                    let p = |s: &String| if pad { format!("   {s}  ") } else { format!(" {s} ") };
                    let mut l = cells.iter().map(p).collect::<Vec<_>>().join("|");
                    // rows without outer pipes cannot end in an empty cell
                    if outer || cells.len() < 2 || cells.last().is_some_and(|x| x.is_empty()) || cells[0].is_empty() { l = format!("|{l}|"); } else { l = l.trim().to_string(); }
                    let tail = self.tail();
                    out.push(l + &tail);
                    if i == 0 {
                        let d: Vec<String> = align.iter().map(|a| { let n = if self.vary { self.r.range(3, 6) } else { 3 }; let d = "-".repeat(n); match a { 'l' => format!(":{d}"), 'r' => format!("{d}:"), 'c' => format!(":{d}:"), _ => d } }).collect();
                        out.push(format!("| {} |", d.join(" | ")));
                    }
                }
                out
            }
            Blk::Desc(v) => {
                let mut out = vec![];
                for (i, (t, b)) in v.iter().enumerate() {
                    if i > 0 { out.push(String::new()); }
                    out.push(self.inl(t));
                    if self.ch(30) { out.push(String::new()); }
                    let ls = self.blocks(b, true, depth + 1);
                    for (j, l) in ls.iter().enumerate() {
                        if j == 0 { out.push(format!(":   {l}")) } else if l.is_empty() { out.push(String::new()) } else { out.push(format!("    {l}")) }
                    }
                }
                out
            }
            Blk::FootDef(n, b) => {
                let ls = self.blocks(b, true, depth + 1);
                ls.iter().enumerate().map(|(j, l)| if j == 0 { format!("[^{n}]: {l}") } else if l.is_empty() { String::new() } else { format!("    {l}") }).collect()
            }
            Blk::RefDef(l, u, t) => vec![if t.is_empty() { format!("[{l}]: {u}") } else { format!("[{l}]: {u} \"{t}\"") }],
            Blk::Front(l) => { let mut v = vec!["---".to_string()]; v.extend(l.iter().cloned()); v.push("---".into()); v }
            Blk::Raw(l) => l.clone(),
        }
    }
    fn quote(&mut self, l: Vec<String>) -> Vec<String> {
        let sp = if self.ch(15) { ">" } else { "> " };
        // without the space a leading blank of the content would be eaten
        let sp = if l.iter().any(|x| x.starts_with(' ')) { "> " } else { sp };
        l.into_iter().map(|x| if x.is_empty() { ">".to_string() } else { format!("{sp}{x}") }).collect()
    }
}
fn bound(s: &str) -> bool { s.chars().last().is_none_or(|c| c.is_whitespace()) }

// ---------------------------------------------------------------- validity and shrinking
pub fn kind_of(b: &Blk) -> Option<K> {
    Some(match b {
        Blk::Head(..) => K::Head,
        Blk::Para(_) => K::Para,
        Blk::List { ordered: true, .. } => K::Ol,
        Blk::List { .. } => K::Ul,
        Blk::Quote(_) => K::Quote,
        Blk::Alert(..) => K::Alert,
        Blk::Code(_, _, true) => K::IndCode,
        Blk::Code(..) => K::Code,
        Blk::Html(_) => K::Html,
        Blk::Hr => K::Hr,
        Blk::Table { .. } => K::Table,
        Blk::Desc(_) => K::Desc,
        _ => return None,
    })
}
/// May block kind k follow p in one container, as far as Markdown itself is concerned?
pub fn may_follow(p: Option<K>, k: K) -> bool {
    let listy = |k: K| matches!(k, K::Ul | K::Ol | K::Desc);
    let Some(p) = p else { return true };
    !(listy(p) && listy(k)
        || k == K::IndCode && (listy(p) || p == K::IndCode)
        || p == K::Para && k == K::Desc
)
}
/// Structures outside the domain (known findings or spellings Markdown reads differently):
/// an item that starts with a list or quote is written with its marker alone on the first line,
/// which moves its content column and lets HTML, rules and following rules slip.
pub fn structure_ok(b: &[Blk]) -> bool { structure_ok_in(b, false) }
fn structure_ok_in(b: &[Blk], in_desc: bool) -> bool {
    fn has_desc(b: &[Blk]) -> bool {
        b.iter().any(|x| match x {
            Blk::Desc(_) => true,
            Blk::List { items, .. } => items.iter().any(|it| has_desc(&it.blocks)),
            Blk::Quote(v) | Blk::Alert(_, _, v) => has_desc(v),
            _ => false,
        })
    }
    let cont = |x: Option<&Blk>| matches!(x, Some(Blk::List { .. } | Blk::Quote(_) | Blk::Alert(..)));
    let alone = |x: Option<&Blk>| cont(x) || matches!(x, Some(Blk::Hr));
    fn cont_last(b: &Blk) -> bool {
        match b {
            Blk::List { items, .. } => items.last().is_some_and(|it| matches!(it.blocks.first(), Some(Blk::List { .. } | Blk::Quote(_) | Blk::Alert(..) | Blk::Hr)) || it.blocks.last().is_some_and(cont_last)),
            _ => false,
        }
    }
    for (i, x) in b.iter().enumerate() {
        let hr_after_list = matches!(x, Blk::Hr) && b[..i].iter().any(|y| matches!(y, Blk::List { .. }));
        if hr_after_list && in_desc { return false; }
        if matches!(x, Blk::Hr) && b[..i].iter().rev().find(|y| kind_of(y).is_some()).is_some_and(cont_last) { return false; }
        let ok = match x {
            Blk::List { items, tight, .. } => items.iter().all(|it| {
                if alone(it.blocks.first()) && it.blocks.iter().any(|y| matches!(y, Blk::Html(_))) { return false; }
                if *tight && it.blocks.len() > 1 && matches!(it.blocks[0], Blk::Para(_)) {
                    if let Blk::List { ordered, start, items: sub, .. } = &it.blocks[1] {
                        if *ordered && *start != 1 || !matches!(sub[0].blocks.first(), Some(Blk::Para(_))) { return false; }
                    }
                }
                structure_ok_in(&it.blocks, in_desc)
            }),
            Blk::Quote(v) | Blk::Alert(_, _, v) | Blk::FootDef(_, v) => structure_ok_in(v, in_desc),
            Blk::Desc(v) => v.iter().all(|d| {
                // lists there are indented by one more than the content of their items
                let in_list = |b: &Blk| matches!(b, Blk::List { items, .. } if items.iter().any(|it| has_desc(&it.blocks) || alone(it.blocks.first()) && it.blocks.iter().any(|x| matches!(x, Blk::List { .. }))));
                structure_ok_in(&d.1, true) && !d.1.iter().any(in_list)
            }),
            _ => true,
        };
        if !ok { return false; }
    }
    true
}
pub fn valid(b: &[Blk], path: &mut Vec<C>, allow: Allow) -> bool {
    if b.is_empty() { return false; }
    let mut prev = None;
    for (i, x) in b.iter().enumerate() {
        if let Blk::FootDef(_, v) = x { path.push(C::Fn); let r = valid(v, path, allow); path.pop(); if !r { return false; } }
        let Some(k) = kind_of(x) else { continue };
        if !allow(path, k, i == 0) || !may_follow(prev, k) { return false; }
        if k == K::IndCode && i == 0 && !path.is_empty() { return false; }
        prev = Some(k);
        let mut sub = |c: C, v: &[Blk]| { path.push(c); let r = valid(v, path, allow); path.pop(); r };
        let ok = match x {
            Blk::List { ordered, items, .. } => !items.is_empty() && items.iter().all(|it| (it.task.is_none() || matches!(it.blocks.first(), Some(Blk::Para(_)))) && sub(if *ordered { C::Ol } else { C::Ul }, &it.blocks)),
            Blk::Quote(v) => sub(C::Q, v),
            Blk::Alert(_, _, v) => sub(C::A, v),
            Blk::Desc(v) => !v.is_empty() && v.iter().all(|(t, d)| !t.is_empty() && sub(C::D, d)),
            Blk::Para(v) | Blk::Head(_, v) => !v.is_empty(),
            _ => true,
        };
        if !ok { return false; }
    }
    true
}
fn inl_cands(v: &[Inl]) -> Vec<Vec<Inl>> {
    let mut out = vec![];
    if v.len() > 1 {
        out.push(v[..1].to_vec());
        for i in 0..v.len() {
            let mut w = v.to_vec();
            w.remove(i);
            let edge = |x: Option<&Inl>| matches!(x, Some(Inl::Sp | Inl::Sp2 | Inl::Soft | Inl::Hard));
            if !edge(w.first()) && !edge(w.last()) && !w.windows(2).any(|p| edge(Some(&p[0])) && edge(Some(&p[1]))) { out.push(w); }
            if i + 1 < v.len() { let mut w = v.to_vec(); w.drain(i..i + 2); if !w.is_empty() && !edge(w.first()) && !edge(w.last()) { out.push(w); } }
        }
    }
    for (i, x) in v.iter().enumerate() {
        if !matches!(x, Inl::W(w) if w == "k") && !matches!(x, Inl::Sp) {
            let mut w = v.to_vec();
            w[i] = if matches!(x, Inl::Sp2 | Inl::Soft | Inl::Hard) { Inl::Sp } else { Inl::W("k".into()) };
            out.push(w);
        }
    }
    out
}
pub fn cands(b: &[Blk]) -> Vec<Vec<Blk>> {
    let mut out = vec![];
    for i in 0..b.len() {
        let mut v = b.to_vec();
        v.remove(i);
        out.push(v);
    }
    for i in 0..b.len() {
        let mut put = |x: Vec<Blk>| { let mut v = b.to_vec(); v.splice(i..=i, x); out.push(v); };
        match &b[i] {
            Blk::Quote(x) | Blk::Alert(_, _, x) => put(x.clone()),
            Blk::List { items, .. } => for it in items { put(it.blocks.clone()) },
            Blk::Desc(v) => for (_, x) in v { put(x.clone()) },
            Blk::Para(_) => {}
            _ => put(vec![Blk::Para(vec![Inl::W("k".into())])]),
        }
        match &b[i] {
            Blk::Quote(x) => for c in cands(x) { put(vec![Blk::Quote(c)]) },
            Blk::Alert(t, f, x) => for c in cands(x) { put(vec![Blk::Alert(t, *f, c)]) },
            Blk::FootDef(n, x) => for c in cands(x) { put(vec![Blk::FootDef(n.clone(), c)]) },
            Blk::List { ordered, tight, start, items } => {
                for j in 0..items.len() {
                    let mk = |its: Vec<Item>| vec![Blk::List { ordered: *ordered, tight: *tight, start: *start, items: its }];
                    let mut v = items.clone();
                    v.remove(j);
                    put(mk(v));
                    if items[j].task.is_some() { let mut v = items.clone(); v[j].task = None; put(mk(v)); }
                    for c in cands(&items[j].blocks) { let mut v = items.clone(); v[j].blocks = c; put(mk(v)); }
                }
            }
            Blk::Desc(v) => for j in 0..v.len() {
                let mut w = v.clone();
                w.remove(j);
                put(vec![Blk::Desc(w)]);
                for c in cands(&v[j].1) { let mut w = v.clone(); w[j].1 = c; put(vec![Blk::Desc(w)]); }
                for c in inl_cands(&v[j].0) { let mut w = v.clone(); w[j].0 = c; put(vec![Blk::Desc(w)]); }
            },
            Blk::Para(x) => for c in inl_cands(x) { put(vec![Blk::Para(c)]) },
            Blk::Head(l, x) => for c in inl_cands(x) { put(vec![Blk::Head(*l, c)]) },
            Blk::Table { align, rows } => {
                if rows.len() > 2 { let mut r = rows.clone(); r.pop(); put(vec![Blk::Table { align: align.clone(), rows: r }]); }
                for r in 0..rows.len() { for c in 0..rows[r].len() { for x in inl_cands(&rows[r][c]) { let mut n = rows.clone(); n[r][c] = x; put(vec![Blk::Table { align: align.clone(), rows: n }]); } } }
            }
            Blk::Code(f, l, d) if l.len() > 1 => for j in 1..l.len() { let mut v = l.clone(); v.remove(j); put(vec![Blk::Code(f.clone(), v, *d)]); },
            _ => {}
        }
    }
    out
}
/// Structural shrinking: stays inside the generator's domain.
pub fn shrink_doc(doc: &[Blk], allow: Allow, fails: &dyn Fn(&[Blk]) -> bool) -> Vec<Blk> {
    let mut cur = doc.to_vec();
    let mut budget = 3000usize;
    let t = std::time::Instant::now();
    'outer: loop {
        for c in cands(&cur) {
            if budget == 0 || t.elapsed().as_secs() > 8 { return cur; }
            if !valid(&c, &mut vec![], allow) || !structure_ok(&c) { continue; }
            budget -= 1;
            if fails(&c) { cur = c; continue 'outer; }
        }
        return cur;
    }
}
