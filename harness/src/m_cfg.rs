//! C22 (layers), C23 (validation), C24 (effects and channels).
use crate::cli::*;
use crate::docs;
use crate::mon::{Case, Ctx};
use crate::opts::Punct;
use crate::rng::Rng;
use crate::util;
use hongdown::config::Config;
use hongdown::*;

fn probe(r: &mut Rng) -> String {
    let d = docs::make(r, Punct::Off, false, |c, _| { c.words = (1, 10); c.blocks = (1, 3); c.foot_blocks = false; });
    if r.chance(70) { PROBE.to_string() } else { format!("{PROBE}\n### More\n\n{}", d.src) }
}
fn lib(o: &Options, src: &str) -> String { util::fmt(src, o).unwrap_or_else(|e| panic!("library: {e}")) }

// ---------------------------------------------------------------- C22
pub fn c22(c: &mut Ctx) {
    c.assumptions.push("a section of a nearer file replaces the whole section of a farther one; no_inherit is judged in project files".into());
    let n = c.n(1500, 40000);
    c.section("layers", "random settings and file selections in up to four configuration files (/etc by redirection, home, XDG or ~/.config, project files at several heights above the working directory), with and without no_inherit, --config and --line-width; the printed text of a document that shows every setting must be the library's under the expected settings, and the files selected the expected ones", n, |r, _| {
        let s = Scratch::new();
        let mut descr = vec![];
        // directories from the scratch root down to the working directory
        let depth = r.range(0, 3);
        let mut dirs = vec!["w".to_string()];
        for i in 0..depth { dirs.push(format!("{}/d{i}", dirs[i])); }
        let cwd = dirs.last().unwrap().clone();
        std::fs::create_dir_all(s.p(&cwd)).unwrap();
        #[derive(Clone, Debug, Default)]
        struct Layer { set: Vec<Set>, include: Option<Vec<String>>, exclude: Option<Vec<String>>, no_inherit: bool }
        let pct = *r.pick(&[10, 30, 60]);
        let mut layer = |r: &mut Rng, rel: &str, project: bool| -> Layer {
            let l = Layer {
                set: random_set(r, pct),
                include: if r.chance(40) { Some(r.pick(&[vec!["one.md".to_string()], vec!["two.md".into(), "three.md".into()], vec!["*.md".into()], vec![]]).clone()) } else { None },
                exclude: if r.chance(30) { Some(r.pick(&[vec!["two.md".to_string()], vec![], vec!["t*.md".into()]]).clone()) } else { None },
                no_inherit: project && r.chance(25),
            };
            let mut top = String::new();
            let list = |l: &[String]| format!("[{}]", l.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(", "));
            if let Some(i) = &l.include { top.push_str(&format!("include = {}\n", list(i))); }
            if let Some(i) = &l.exclude { top.push_str(&format!("exclude = {}\n", list(i))); }
            if l.no_inherit || r.chance(10) { top.push_str(&format!("no_inherit = {}\n", l.no_inherit)); }
            let t = format!("{top}{}", toml_of(&l.set, r));
            s.put(rel, &t);
            descr.push(format!("## {rel}\n{t}"));
            l
        };
        let mut layers: Vec<Layer> = vec![];
        let mut used = 0;
        if r.chance(45) { layers.push(layer(r, "etc/config.toml", false)); used += 1; }
        if r.chance(45) { layers.push(layer(r, "home/.hongdown.toml", false)); used += 1; }
        let xdg_env = r.chance(60);
        if r.chance(45) { layers.push(layer(r, if xdg_env { "xdg/hongdown/config.toml" } else { "home/.config/hongdown/config.toml" }, false)); used += 1; }
        // a file at the place that does not count
        if r.chance(20) && xdg_env { layer(r, "home/.config/hongdown/config.toml", false); }
        let mut base = cwd.clone();
        // from the outermost to the nearest: only the nearest counts
        let heights: Vec<usize> = (0..dirs.len()).filter(|_| r.chance(40)).collect();
        let mut nearest = None;
        for h in &heights { nearest = Some(layer(r, &format!("{}/.hongdown.toml", dirs[*h]), true)); }
        if r.chance(15) && heights.is_empty() { nearest = Some(layer(r, ".hongdown.toml", true)); base = ".".into(); }
        if let Some(h) = heights.last() { base = dirs[*h].clone(); }
        if let Some(l) = nearest { if l.no_inherit { layers.clear(); } layers.push(l); used += 1; }
        // --config
        let explicit = r.chance(15);
        if explicit {
            let rel = *r.pick(&["w/my.toml", "elsewhere/conf.toml"]);
            let l = layer(r, rel, true);
            layers = vec![l];
            base = rel.rsplit_once('/').unwrap().0.into();
        }
        // expected settings: section by section
        let mut eff: Vec<Set> = vec![];
        let (mut include, mut exclude): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for l in &layers {
            for (p, v) in &l.set {
                let sec = p.split_once('.').map(|x| x.0);
                match sec {
                    None => { eff.retain(|(q, _)| q != p); eff.push((p, v.clone())); }
                    Some(_) => {}
                }
            }
            for sec in SECTIONS {
                let here: Vec<&Set> = l.set.iter().filter(|(p, _)| p.split_once('.').is_some_and(|x| x.0 == *sec)).collect();
                if !here.is_empty() { eff.retain(|(p, _)| p.split_once('.').is_none_or(|x| x.0 != *sec)); eff.extend(here.into_iter().cloned()); }
            }
            if let Some(i) = &l.include { include = i.clone(); }
            if let Some(i) = &l.exclude { exclude = i.clone(); }
        }
        let mut o = options_of(&eff);
        let mut call_args: Vec<String> = vec![];
        if explicit {
            let abs = s.p(if base == "w" { "w/my.toml" } else { "elsewhere/conf.toml" });
            call_args.push("--config".into());
            call_args.push(if r.chance(50) { abs.display().to_string() } else { format!("{}{}", "../".repeat(cwd.split('/').count()), abs.strip_prefix(&s.0).unwrap().display()) });
        }
        if r.chance(25) { let w = r.range(8, 200); call_args.push(format!("--line-width={w}")); o.line_width = LineWidth::new(w).unwrap(); }
        let mut case = Case::new(&format!("{descr:?} {cwd} {call_args:?}"));
        case.ev("configuration files", descr.len());
        case.ev("effective layers", if explicit { 1 } else { used });
        if layers.last().is_some_and(|l| l.no_inherit) { case.ev("no_inherit", 1); }
        if explicit { case.ev("--config", 1); }
        let src = probe(r);
        let mut k = Call::new(&s, &["--stdin"]).args(&call_args).cwd(&cwd).stdin(&src);
        if xdg_env { k = k.env("XDG_CONFIG_HOME", s.p("xdg")); }
        let k = k.run();
        let want = lib(&o, &src);
        let ctx = |k: &Run, more: &str| format!("{more}\n{}\n{}\ncwd {cwd} args {call_args:?}", descr.join("\n"), cut(&k.show(), 1500));
        if k.out != want.as_bytes() || k.code != Some(0) { case.fail("another text than under the expected settings", ctx(&k, &crate::m_meta::diff(&want, &k.out_str()))); }
        if k.err.contains("Warning") { case.fail("a valid configuration is complained about", ctx(&k, "")); }
        // file selection
        if include.is_empty() && !r.chance(10) { return case; }
        for (f, t) in [("one", "* first one\n"), ("two", "* second two\n"), ("three", "* third three\n")] { s.put(&format!("{base}/{f}.md"), t); }
        let hit = |pats: &[String], f: &str| pats.iter().any(|p| match p.as_str() { "*.md" => true, "t*.md" => f.starts_with('t'), x => x == f });
        let sel: Vec<&str> = ["one.md", "three.md", "two.md"].into_iter().filter(|f| hit(&include, f) && !hit(&exclude, f)).collect();
        let mut k = Call::new(&s, &[]).args(&call_args).cwd(&cwd);
        if xdg_env { k = k.env("XDG_CONFIG_HOME", s.p("xdg")); }
        let k = k.run();
        let want: String = sel.iter().map(|f| lib(&o, &String::from_utf8_lossy(&s.get(&format!("{base}/{f}"))))).collect();
        case.ev("selections", 1);
        if include.is_empty() { if k.code != Some(1) || !k.out.is_empty() { case.fail("nothing to format and no failure", ctx(&k, "")); } }
        else if k.out != want.as_bytes() || k.code != Some(0) { case.fail("other files than include and exclude of the expected layers select", ctx(&k, &format!("include {include:?} exclude {exclude:?} base {base}\n{want}"))); }
        case
    });
}

// ---------------------------------------------------------------- C23
/// A TOML value and whether the setting documents it as valid.
fn candidate(r: &mut Rng, path: &str) -> (String, bool) {
    let q = |s: &str| serde_json::Value::from(s).to_string();
    let wrong = |r: &mut Rng, except: &str| -> (String, bool) {
        let all = [("true", "b"), ("false", "b"), ("3", "n"), ("4.0", "f"), ("\"4\"", "s"), ("[]", "l"), ("[1]", "l"), ("{}", "t"), ("1979-05-27", "d"), ("inf", "f"), ("4.5", "f"), ("[[]]", "l")];
        let ok: Vec<_> = all.iter().filter(|x| x.1 != except).collect();
        (r.pick(&ok).0.to_string(), false)
    };
    let num = |r: &mut Rng, lo: i64, hi: Option<i64>| -> (String, bool) {
        let mut v = vec![-1, 0, 1, lo - 1, lo, lo + 1, 7, 8, 9, 100, i64::MIN, -128];
        if let Some(h) = hi { v.extend([h - 1, h, h + 1, 256, 4294967296 + lo, i64::MAX]); } else { v.extend([1_000_000]); }
        let x = *r.pick(&v);
        (x.to_string(), x >= lo && hi.is_none_or(|h| x <= h))
    };
    let bad_type = r.chance(12);
    match path {
        "line_width" => if bad_type { wrong(r, "n") } else { num(r, 8, None) },
        "unordered_list.leading_spaces" | "unordered_list.trailing_spaces" | "thematic_break.leading_spaces" => if bad_type { wrong(r, "n") } else { num(r, 0, Some(3)) },
        "unordered_list.indent_width" | "ordered_list.indent_width" => if bad_type { wrong(r, "n") } else { num(r, 1, None) },
        "code_block.min_fence_length" => if bad_type { wrong(r, "n") } else { num(r, 3, None) },
        "unordered_list.unordered_marker" => { let x = *r.pick(&["-", "*", "+", "-", "*", "+", "", "--", "x", " -", "•"]); if bad_type { wrong(r, "s") } else { (q(x), matches!(x, "-" | "*" | "+")) } }
        "ordered_list.odd_level_marker" | "ordered_list.even_level_marker" => { let x = *r.pick(&[".", ")", ".", ")", "", "..", "(", "]", "1."]); if bad_type { wrong(r, "s") } else { (q(x), matches!(x, "." | ")")) } }
        "ordered_list.pad" => { let x = *r.pick(&["start", "end", "start", "end", "", "Start", "END", "left", "middle"]); if bad_type { wrong(r, "s") } else { (q(x), matches!(x, "start" | "end")) } }
        "code_block.fence_char" => { let x = *r.pick(&["~", "`", "~", "`", "", "~~", "'", "\"", "-"]); if bad_type { wrong(r, "s") } else { (q(x), matches!(x, "~" | "`")) } }
        "code_block.default_language" => if bad_type { wrong(r, "s") } else { (q(r.pick(&["", "rust", "c++", "objective-c", "한국어"])), true) },
        "heading.proper_nouns" | "heading.common_nouns" => match r.below(5) { 0 => ("\"x\"".into(), false), 1 => ("[1]".into(), false), 2 => ("[\"a\", true]".into(), false), 3 => ("[]".into(), true), _ => ("[\"Foo\", \"Bar Baz\"]".into(), true) },
        "thematic_break.style" => {
            if bad_type { return wrong(r, "s"); }
            let m = *r.pick(&['*', '-', '_']);
            let k = r.range(0, 6);
            let mut t = String::new();
            for i in 0..k { if i > 0 { t.push_str(&" ".repeat(*r.pick(&[0, 1, 1, 3]))); } t.push(m); }
            let mut ok = k >= 3;
            match r.below(8) {
                0 => { let other = *r.pick(&['*', '-', '_', '=', '~', 'x', '.', '·', '−']); if other != m { let at = r.below(t.chars().count() + 1); let mut cs: Vec<char> = t.chars().collect(); cs.insert(at, other); t = cs.into_iter().collect(); ok = false; } }
                1 => { let cs: Vec<char> = t.chars().collect(); let at = r.below(cs.len() + 1); let mut cs = cs; cs.insert(at, *r.pick(&['\n', '\u{a0}', '\u{3000}', '\r'])); t = cs.into_iter().collect(); ok = false; }
                _ => {}
            }
            (q(&t), ok)
        }
        "punctuation.en_dash" | "punctuation.em_dash" => {
            let x = *r.pick(&["--", "---", "~", "->", "–", "", " ", "- -", "--\t", "\u{7f}", "\u{1}", "a\nb", "é"]);
            match r.below(6) { 0 => ("false".into(), true), 1 => ("true".into(), false), 2 => (r.pick(&["0", "1", "[]", "[\"--\"]", "{}"]).to_string(), false), _ => (q(x).replace('\u{7f}', "\\u007f"), !x.is_empty() && x.chars().all(|c| c.is_ascii_graphic())) }
        }
        _ => if bad_type || r.chance(30) { wrong(r, "b") } else { (r.chance(50).to_string(), true) },
    }
}
/// Rejected values that are kept out of most cases, so that other reasons are seen too.
fn valid_candidate(r: &mut Rng, path: &str) -> String { loop { let (t, ok) = candidate(r, path); if ok { return t; } } }
fn write_toml(v: &[(&str, String)]) -> String {
    let mut t = String::new();
    for (p, x) in v { if !p.contains('.') { t.push_str(&format!("{p} = {x}\n")); } }
    for s in SECTIONS {
        let mine: Vec<_> = v.iter().filter_map(|(p, x)| p.strip_prefix(s).and_then(|k| k.strip_prefix('.')).map(|k| (k, x))).collect();
        if mine.is_empty() { continue; }
        t.push_str(&format!("[{s}]\n"));
        for (k, x) in mine { t.push_str(&format!("{k} = {x}\n")); }
    }
    t
}
pub fn c23(c: &mut Ctx) {
    c.assumptions.push("whitespace at the ends of a thematic break style is not judged, nor are unknown keys".into());
    let n = c.n(200000, 5000000);
    c.section("acceptance", "configuration texts with 1-6 settings of which 0-2 hold a value at, beyond or far from a documented bound or of another type: parsing succeeds exactly when all are valid, and then gives exactly these values, the rest being the defaults", n, |r, _| {
        let k = r.range(1, 6);
        let mut paths: Vec<&str> = SETTINGS.to_vec();
        r.shuffle(&mut paths);
        paths.truncate(k);
        let bads = *r.pick(&[0, 0, 1, 1, 2]);
        let mut v = vec![];
        let mut ok = true;
        let mut reasons = vec![];
        for (i, p) in paths.iter().enumerate() {
            if i < bads { let (t, o) = candidate(r, p); if !o { reasons.push(format!("{p} = {t}")); } ok &= o; v.push((*p, t)); } else { v.push((*p, valid_candidate(r, p))); }
        }
        r.shuffle(&mut v);
        let t = write_toml(&v);
        let mut case = Case::new(&t);
        match (Config::from_toml(&t), ok) {
            (Ok(cfg), true) => {
                case.ev("accepted", 1);
                // the values are those written: compare with a TOML reading of the text
                let table: toml::Table = t.parse().expect("toml");
                let got = values_of(&cfg);
                for (p, g) in &got {
                    let w = match p.split_once('.') { None => table.get(*p), Some((s, k)) => table.get(s).and_then(|x| x.get(k)) };
                    let w = w.map(value_of).unwrap_or_else(|| default_value(p));
                    if *g != w { case.fail("a setting has another value than the file says", format!("{p}: {g:?}, should be {w:?}\n{t}")); }
                }
            }
            (Err(e), false) => {
                case.ev("rejected", 1);
                let m = e.to_string();
                if !reasons.iter().any(|x| { let key = x.split(" = ").next().unwrap(); m.contains(key.rsplit('.').next().unwrap()) }) { case.fail("the message does not name the setting", format!("{m}\n{reasons:?}")); }
            }
            (Ok(_), false) => case.fail("an invalid configuration is accepted", format!("{reasons:?}\n{t}")),
            (Err(e), true) => case.fail("a valid configuration is rejected", format!("{e}\n{t}")),
        }
        case
    });
    let n = c.n(60000, 1000000);
    c.section("constructors", "every validated option type built from numbers and texts around its bounds: accepted exactly when the configuration file accepts the same value", n, |r, _| {
        let path = *r.pick(&["line_width", "unordered_list.leading_spaces", "unordered_list.trailing_spaces", "thematic_break.leading_spaces", "unordered_list.indent_width", "ordered_list.indent_width", "code_block.min_fence_length", "thematic_break.style", "punctuation.en_dash", "punctuation.em_dash"]);
        let (t, ok) = candidate(r, path);
        let table: Option<toml::Table> = format!("x = {t}").parse().ok();
        let Some(v) = table.and_then(|x| x.get("x").cloned()) else { return Case::trivial() };
        let mut case = Case::new(&format!("{path} {t}"));
        let got: Option<bool> = match (&v, path) {
            (toml::Value::Integer(n), "line_width") => usize::try_from(*n).ok().map(|n| LineWidth::new(n).map(|x| assert_eq!(x.get(), n)).is_ok()),
            (toml::Value::Integer(n), "unordered_list.trailing_spaces") => usize::try_from(*n).ok().map(|n| TrailingSpaces::new(n).map(|x| assert_eq!(x.get(), n)).is_ok()),
            (toml::Value::Integer(n), "unordered_list.leading_spaces" | "thematic_break.leading_spaces") => usize::try_from(*n).ok().map(|n| LeadingSpaces::new(n).map(|x| assert_eq!(x.get(), n)).is_ok()),
            (toml::Value::Integer(n), "unordered_list.indent_width" | "ordered_list.indent_width") => usize::try_from(*n).ok().map(|n| IndentWidth::new(n).map(|x| assert_eq!(x.get(), n)).is_ok()),
            (toml::Value::Integer(n), "code_block.min_fence_length") => usize::try_from(*n).ok().map(|n| MinFenceLength::new(n).map(|x| assert_eq!(x.get(), n)).is_ok()),
            (toml::Value::String(s), "thematic_break.style") => Some(ThematicBreakStyle::new(s.clone()).map(|x| assert_eq!(x.as_str(), s)).is_ok()),
            (toml::Value::String(s), "punctuation.en_dash" | "punctuation.em_dash") => Some(DashPattern::new(s.clone()).map(|x| assert_eq!(x.as_str(), s)).is_ok()),
            _ => None,
        };
        match got {
            None => case.key = None,
            Some(g) => { case.ev(if ok { "valid values" } else { "invalid values" }, 1); if g != ok { case.fail("the constructor decides otherwise", format!("{path} = {t}: accepted {g}")); } }
        }
        case
    });
    let n = c.n(500, 10000);
    c.section("command line", "a project, home, XDG or --config file with one invalid value among valid ones, or text that is no TOML: the file and the setting are named on stderr and none of its settings takes effect; contradicting dash patterns and too small --line-width end the run before anything is written", n, |r, _| {
        let s = Scratch::new();
        let src = PROBE;
        let kind = r.below(6);
        if kind == 0 {
            // contradicting patterns
            let p = *r.pick(&["--", "~", "->"]);
            s.put("w/.hongdown.toml", if p == "--" && r.chance(50) { "[punctuation]\nen_dash = \"--\"\n".to_string() } else { format!("[punctuation]\nen_dash = \"{p}\"\nem_dash = \"{p}\"\n") });
            s.put("w/a.md", src);
            let mut case = Case::new(&format!("dash {p}"));
            let k = Call::new(&s, &[*r.pick(&["--write", "--check", "--diff"]), "a.md"]).run();
            case.ev("contradicting dashes", 1);
            if k.code != Some(1) || !k.err.starts_with("Error") || !k.err.contains(p) || !k.out.is_empty() || !k.log.is_empty() { case.fail("contradicting dash patterns are not refused", k.show()); }
            return case;
        }
        if kind == 1 {
            let w = r.pick(&["0", "7", "1", "-1", "x", "", "8.0", "99999999999999999999999"]).to_string();
            s.put("w/a.md", src);
            let mut case = Case::new(&format!("width {w}"));
            let k = Call::new(&s, &["--write", &format!("--line-width={w}"), "a.md"]).run();
            case.ev("bad widths", 1);
            if k.code == Some(0) || k.code.is_none() || k.err.is_empty() || !k.out.is_empty() || !k.log.is_empty() { case.fail("a bad --line-width is not refused", k.show()); }
            return case;
        }
        let mut paths: Vec<&str> = SETTINGS.to_vec();
        r.shuffle(&mut paths);
        paths.truncate(r.range(1, 6));
        let mut v: Vec<(&str, String)> = paths.iter().map(|p| (*p, valid_candidate(r, p))).collect();
        let broken = r.chance(25);
        let mut key = String::new();
        if !broken {
            let (t, p) = loop { let p = *r.pick(&paths); let (t, ok) = candidate(r, p); if !ok { break (t, p); } if r.chance(2) { break ("{ x = 1 }".into(), p); } };
            for x in v.iter_mut() { if x.0 == p { x.1 = t.clone(); } }
            key = p.rsplit('.').next().unwrap().into();
        }
        let mut t = write_toml(&v);
        if broken { t = format!("{t}{}", r.pick(&["\n= 3\n", "\n[heading\n", "\nline_width 80\n", "\nx = \"\n", "\u{1}\n"])); }
        let mut case = Case::new(&t);
        let place = *r.pick(&["w/.hongdown.toml", ".hongdown.toml", "home/.hongdown.toml", "xdg/hongdown/config.toml", "etc/config.toml", "conf/x.toml"]);
        s.put(place, &t);
        let k = if place.starts_with("conf") { Call::new(&s, &["--stdin", "--config"]).arg(s.p(place)) } else { Call::new(&s, &["--stdin"]) };
        let k = k.env("XDG_CONFIG_HOME", s.p("xdg")).stdin(src).run();
        case.ev(if broken { "not TOML" } else { "invalid values" }, 1);
        let name = if place.starts_with("etc") { "/etc/hongdown/config.toml".to_string() } else { s.p(place).display().to_string() };
        if !k.err.contains(&name) || !k.err.contains(&key) { case.fail("the file or the setting is not named", format!("{name} {key}\n{t}\n{}", cut(&k.show(), 800))); }
        if k.code == Some(0) && k.out != lib(&defaults(), src).as_bytes() { case.fail("a setting of an invalid file takes effect", format!("{t}\n{}\n{}", cut(&k.show(), 500), crate::m_meta::diff(&lib(&defaults(), src), &k.out_str()))); }
        // a missing --config file
        if r.chance(10) {
            let k = Call::new(&s, &["--stdin", "--config", "no-such.toml"]).cwd("w").stdin(src).run();
            if !k.err.contains("no-such.toml") { case.fail("a missing --config file is not reported", k.show()); }
        }
        case
    });
}
fn value_of(v: &toml::Value) -> V {
    match v {
        toml::Value::Boolean(b) => V::B(*b),
        toml::Value::Integer(n) => V::N(*n),
        toml::Value::String(s) => V::S(s.clone()),
        toml::Value::Array(a) => V::L(a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()),
        x => V::S(format!("{x:?}")),
    }
}
/// Every setting of a configuration, as values.
fn values_of(c: &Config) -> Vec<(&'static str, V)> {
    let ch = |c: char| V::S(c.to_string());
    let n = |n: usize| V::N(n as i64);
    let dash = |d: &DashSetting| match d { DashSetting::Disabled => V::B(false), DashSetting::Pattern(p) => V::S(p.as_str().into()) };
    vec![
        ("line_width", n(c.line_width.get())),
        ("heading.setext_h1", V::B(c.heading.setext_h1)),
        ("heading.setext_h2", V::B(c.heading.setext_h2)),
        ("heading.sentence_case", V::B(c.heading.sentence_case)),
        ("heading.proper_nouns", V::L(c.heading.proper_nouns.clone())),
        ("heading.common_nouns", V::L(c.heading.common_nouns.clone())),
        ("unordered_list.unordered_marker", ch(c.unordered_list.unordered_marker.as_char())),
        ("unordered_list.leading_spaces", n(c.unordered_list.leading_spaces.get())),
        ("unordered_list.trailing_spaces", n(c.unordered_list.trailing_spaces.get())),
        ("unordered_list.indent_width", n(c.unordered_list.indent_width.get())),
        ("ordered_list.odd_level_marker", ch(c.ordered_list.odd_level_marker.as_char())),
        ("ordered_list.even_level_marker", ch(c.ordered_list.even_level_marker.as_char())),
        ("ordered_list.pad", V::S(match c.ordered_list.pad { OrderedListPad::Start => "start", OrderedListPad::End => "end" }.into())),
        ("ordered_list.indent_width", n(c.ordered_list.indent_width.get())),
        ("code_block.fence_char", ch(c.code_block.fence_char.as_char())),
        ("code_block.min_fence_length", n(c.code_block.min_fence_length.get())),
        ("code_block.space_after_fence", V::B(c.code_block.space_after_fence)),
        ("code_block.default_language", V::S(c.code_block.default_language.clone())),
        ("thematic_break.style", V::S(c.thematic_break.style.as_str().into())),
        ("thematic_break.leading_spaces", n(c.thematic_break.leading_spaces.get())),
        ("punctuation.curly_double_quotes", V::B(c.punctuation.curly_double_quotes)),
        ("punctuation.curly_single_quotes", V::B(c.punctuation.curly_single_quotes)),
        ("punctuation.curly_apostrophes", V::B(c.punctuation.curly_apostrophes)),
        ("punctuation.ellipsis", V::B(c.punctuation.ellipsis)),
        ("punctuation.en_dash", dash(&c.punctuation.en_dash)),
        ("punctuation.em_dash", dash(&c.punctuation.em_dash)),
    ]
}

// ---------------------------------------------------------------- C24
/// A document and what a setting must make of it: (extra settings, input, expected output).
fn effect(path: &str, v: &V) -> Option<(Vec<Set>, String, String)> {
    let b = || matches!(v, V::B(true));
    let n = || if let V::N(n) = v { *n as usize } else { 0 };
    let s = || if let V::S(s) = v { s.clone() } else { String::new() };
    let has = |w: &str| matches!(v, V::L(l) if l.iter().any(|x| x == w));
    let sp = |n: usize| " ".repeat(n);
    let quotes = |set: &[(&'static str, bool)]| -> Vec<Set> { set.iter().map(|(p, b)| (*p, V::B(*b))).collect() };
    Some(match path {
        "line_width" => {
            // whether a word that ends just at the limit is still on the line is not judged
            if n() % 4 == 3 { return None; }
            let words: Vec<String> = (0..120).map(|i| format!("{}bc", (b'a' + (i % 26) as u8) as char)).collect();
            let mut out = String::new();
            let mut at = 0;
            for w in &words { if at == 0 { out.push_str(w); at = w.len(); } else if at + 1 + w.len() > n() { out.push('\n'); out.push_str(w); at = w.len(); } else { out.push(' '); out.push_str(w); at += 1 + w.len(); } }
            (vec![], words.join(" ") + "\n", out + "\n")
        }
        "heading.setext_h1" => (vec![], "Intro\n\n# Title\n\nx\n".into(), if b() { "Intro\n\nTitle\n=====\n\nx\n".into() } else { "Intro\n\n# Title\n\nx\n".into() }),
        "heading.setext_h2" => (vec![], "Intro\n\n## Title\n\nx\n".into(), if b() { "Intro\n\n\nTitle\n-----\n\nx\n".into() } else { "Intro\n\n\n## Title\n\nx\n".into() }),
        "heading.sentence_case" => (vec![], "### Big Red Words\n".into(), if b() { "### Big red words\n".into() } else { "### Big Red Words\n".into() }),
        "heading.proper_nouns" => (vec![("heading.sentence_case", V::B(true))], "### Use Frobnicator Words\n".into(), format!("### Use {} words\n", if has("Frobnicator") { "Frobnicator" } else { "frobnicator" })),
        "heading.common_nouns" => (vec![("heading.sentence_case", V::B(true))], "### Use Python Words\n".into(), format!("### Use {} words\n", if has("Python") { "python" } else { "Python" })),
        "unordered_list.unordered_marker" => (vec![], "-   x\n".into(), format!(" {}  x\n", s())),
        "unordered_list.leading_spaces" => (vec![], "* x\n".into(), format!("{}-  x\n", sp(n()))),
        "unordered_list.trailing_spaces" => (vec![], "* x\n".into(), format!(" -{}x\n", sp(n()))),
        "unordered_list.indent_width" => (vec![], "* x\n  * y\n".into(), format!(" -  x\n{} -  y\n", sp(n()))),
        "ordered_list.odd_level_marker" => (vec![], "1. x\n   1. y\n      1. z\n".into(), format!("1{0}  x\n    1)  y\n        1{0}  z\n", s())),
        "ordered_list.even_level_marker" => (vec![], "1. x\n   1. y\n      1. z\n".into(), format!("1.  x\n    1{}  y\n        1.  z\n", s())),
        "ordered_list.indent_width" => if n() < 4 || n() > 6 { return None } else { (vec![], "1. x\n   1. y\n".into(), format!("1.{0}x\n{1}1){0}y\n", sp(n() - 2), sp(n()))) },
        "code_block.fence_char" => (vec![], "~~~ rust\nx\n~~~\n".into(), format!("{0} rust\nx\n{0}\n", s().repeat(4))),
        "code_block.min_fence_length" => (vec![], "``` rust\nx\n```\n".into(), format!("{0} rust\nx\n{0}\n", "~".repeat(n()))),
        "code_block.space_after_fence" => (vec![], "```rust\nx\n```\n".into(), format!("~~~~{}rust\nx\n~~~~\n", if b() { " " } else { "" })),
        "code_block.default_language" => (vec![], "```\nx\n```\n".into(), if s().is_empty() { "~~~~\nx\n~~~~\n".into() } else { format!("~~~~ {}\nx\n~~~~\n", s()) }),
        "thematic_break.style" => (vec![], "a\n\n***\n\nb\n".into(), format!("a\n\n   {}\n\nb\n", s())),
        "thematic_break.leading_spaces" => (vec![("thematic_break.style", V::S("* * *".into()))], "a\n\n***\n\nb\n".into(), format!("a\n\n{}* * *\n\nb\n", sp(n()))),
        "punctuation.curly_double_quotes" => (vec![], "say \"x\" now\n".into(), if b() { "say \u{201c}x\u{201d} now\n".into() } else { "say \"x\" now\n".into() }),
        "punctuation.curly_single_quotes" => (vec![], "say 'x' now\n".into(), if b() { "say \u{2018}x\u{2019} now\n".into() } else { "say 'x' now\n".into() }),
        "punctuation.curly_apostrophes" => (quotes(&[("punctuation.curly_single_quotes", true)]), "it's so\n".into(), if b() { "it\u{2019}s so\n".into() } else { "it's so\n".into() }),
        "punctuation.ellipsis" => (vec![], "wait ... so\n".into(), if b() { "wait \u{2026} so\n".into() } else { "wait ... so\n".into() }),
        "punctuation.en_dash" | "punctuation.em_dash" => {
            let d = if path.ends_with("en_dash") { '\u{2013}' } else { '\u{2014}' };
            let other: Set = if d == '\u{2013}' { ("punctuation.em_dash", V::B(false)) } else { ("punctuation.en_dash", V::B(false)) };
            let p = if let V::S(s) = v { s.clone() } else { "--".into() };
            (vec![other], format!("one {p} two\n"), if matches!(v, V::S(_)) { format!("one {d} two\n") } else { format!("one {p} two\n") })
        }
        _ => return None,
    })
}
fn js_key(path: &str) -> &'static str {
    match path {
        "line_width" => "lineWidth", "heading.setext_h1" => "setextH1", "heading.setext_h2" => "setextH2", "heading.sentence_case" => "headingSentenceCase", "heading.proper_nouns" => "headingProperNouns", "heading.common_nouns" => "headingCommonNouns",
        "unordered_list.unordered_marker" => "unorderedMarker", "unordered_list.leading_spaces" => "leadingSpaces", "unordered_list.trailing_spaces" => "trailingSpaces", "unordered_list.indent_width" => "indentWidth",
        "ordered_list.odd_level_marker" => "oddLevelMarker", "ordered_list.even_level_marker" => "evenLevelMarker", "ordered_list.pad" => "orderedListPad", "ordered_list.indent_width" => "orderedListIndentWidth",
        "code_block.fence_char" => "fenceChar", "code_block.min_fence_length" => "minFenceLength", "code_block.space_after_fence" => "spaceAfterFence", "code_block.default_language" => "defaultLanguage",
        "thematic_break.style" => "thematicBreakStyle", "thematic_break.leading_spaces" => "thematicBreakLeadingSpaces",
        "punctuation.curly_double_quotes" => "curlyDoubleQuotes", "punctuation.curly_single_quotes" => "curlySingleQuotes", "punctuation.curly_apostrophes" => "curlyApostrophes", "punctuation.ellipsis" => "ellipsis", "punctuation.en_dash" => "enDash", "punctuation.em_dash" => "emDash",
        _ => panic!("{path}"),
    }
}
fn json_value(v: &V) -> serde_json::Value { match v { V::B(b) => (*b).into(), V::N(n) => (*n).into(), V::S(s) => s.as_str().into(), V::L(l) => l.clone().into() } }
fn json_of(set: &[Set]) -> serde_json::Value { serde_json::Value::Object(set.iter().map(|(p, v)| (js_key(p).to_string(), json_value(v))).collect()) }
#[cfg(feature = "js")]
fn js(v: serde_json::Value) -> Result<Options, String> { hongdown::verif::js_options(v).map_err(|e: serde_json::Error| e.to_string()) }
#[cfg(not(feature = "js"))]
fn js(_: serde_json::Value) -> Result<Options, String> { panic!("built without the JavaScript hook") }

pub fn c24(c: &mut Ctx) {
    c.assumptions.push("JavaScript objects are given as JSON values through the same deserialisation; the wasm binary itself cannot be built here".into());
    let mut cases: Vec<(&'static str, V)> = vec![];
    let mut r0 = Rng::new(c.seed, 24);
    for p in SETTINGS {
        let mut vs: Vec<V> = vec![default_value(p)];
        for _ in 0..40 { let v = random_value(&mut r0, p); if !vs.contains(&v) { vs.push(v); } }
        cases.extend(vs.into_iter().map(|v| (*p, v)));
    }
    let total = cases.len();
    c.section("effects", "every setting with every generated value, alone, by configuration file (three spellings), by flag, in memory and as JavaScript object: the text it names comes out literally", total, |r, i| {
        let (p, v) = &cases[i];
        let Some((extra, src, want)) = effect(p, v) else { return Case::trivial() };
        let mut set = vec![(*p, v.clone())];
        set.extend(extra);
        if validate_dash_settings(&options_of(&set)).is_err() { return Case::trivial(); }
        let mut case = Case::new(&format!("{p} = {v:?}"));
        let bad = |case: &mut Case, how: &str, got: &str| case.fail(format!("{p} has not the effect it names, by {how}"), format!("{set:?}\n--- input\n{src}--- wanted\n{want}--- got\n{got}"));
        let got = lib(&options_of(&set), &src);
        if got != want { bad(&mut case, "option", &got); }
        for _ in 0..3 {
            let s = Scratch::new();
            let t = toml_of(&set, r);
            s.put("w/.hongdown.toml", &t);
            let k = Call::new(&s, &["--stdin"]).stdin(&src).run();
            if k.out != want.as_bytes() || k.code != Some(0) { bad(&mut case, &format!("file\n{t}"), &k.show()); }
            case.ev("by file", 1);
        }
        if let ("line_width", V::N(n)) = (*p, v) {
            let s = Scratch::new();
            let k = Call::new(&s, &["--stdin", "--line-width", &n.to_string()]).stdin(&src).run();
            if k.out != want.as_bytes() { bad(&mut case, "flag", &k.show()); }
            case.ev("by flag", 1);
        }
        match js(json_of(&set)) { Ok(o) => { let got = lib(&o, &src); if got != want { bad(&mut case, "JavaScript", &got); } case.ev("by JavaScript", 1); } Err(e) => bad(&mut case, "JavaScript", &e) }
        case
    });
    let n = c.n(1000, 25000);
    c.section("channels", "random sets of settings as configuration file, typed options and JavaScript object, applied to a document that shows every setting and to generated ones: one and the same text; what is left out has the documented default", n, |r, _| {
        let pct = *r.pick(&[0, 5, 20, 60, 100]);
        let set = random_set(r, pct);
        let o = options_of(&set);
        let src = probe(r);
        let mut case = Case::new(&format!("{set:?}\n{}", crate::mon::hash(&src)));
        let want = lib(&o, &src);
        let s = Scratch::new();
        let t = toml_of(&set, r);
        s.put("w/.hongdown.toml", &t);
        let k = Call::new(&s, &["--stdin"]).stdin(&src).run();
        if k.out != want.as_bytes() || k.code != Some(0) || k.err.contains("Warning") { case.fail("the file leads to another text than the options", format!("{t}\n{}\n{}", crate::m_meta::diff(&want, &k.out_str()), cut(&k.err, 300))); }
        match Config::from_toml(&t) {
            Ok(cfg) => for (p, g) in values_of(&cfg) { let w = set.iter().find(|(q, _)| *q == p).map(|x| x.1.clone()).unwrap_or_else(|| default_value(p)); if g != w { case.fail("the file gives a setting another value", format!("{p} {g:?}, should be {w:?}\n{t}")); } },
            Err(e) => case.fail("a valid file is rejected", format!("{e}\n{t}")),
        }
        let mut j = json_of(&set);
        // null and undefined mean unset
        for p in SETTINGS { if r.chance(10) && !set.iter().any(|(q, _)| q == p) { j[js_key(p)] = serde_json::Value::Null; } }
        match js(j.clone()) {
            Ok(x) => {
                if format!("{x:?}") != format!("{o:?}") { case.fail("the JavaScript object leads to other options", format!("{j}\n{x:?}\nwanted\n{o:?}")); }
                if lib(&x, &src) != want { case.fail("the JavaScript object leads to another text", j.to_string()); }
            }
            Err(e) => case.fail("a valid JavaScript object is rejected", format!("{e} {j}")),
        }
        case.ev("settings", set.len());
        case.ev("settings left out", SETTINGS.len() - set.len());
        case
    });
    let n = c.n(20000, 300000);
    c.section("JavaScript fallbacks", "JavaScript objects with values outside the documented range among valid ones: these settings keep their default, the others theirs", n, |r, _| {
        let set = random_set(r, 30);
        let mut want = options_of(&set);
        let mut j = json_of(&set);
        let bads: &[(&str, &[&str])] = &[
            ("line_width", &["0", "7", "1"]), ("unordered_list.leading_spaces", &["4", "100"]), ("unordered_list.trailing_spaces", &["4", "9"]), ("unordered_list.indent_width", &["0"]), ("ordered_list.indent_width", &["0"]),
            ("code_block.min_fence_length", &["0", "1", "2"]), ("thematic_break.leading_spaces", &["4", "80"]), ("thematic_break.style", &["\"\"", "\"--\"", "\"*-*-*-\"", "\"abc\"", "\"= = =\""]),
            ("unordered_list.unordered_marker", &["\"\"", "\"x\"", "\"**\""]), ("ordered_list.odd_level_marker", &["\"\"", "\"x\"", "\"1\""]), ("ordered_list.even_level_marker", &["\"\"", "\"x\"", "\"1\""]), ("ordered_list.pad", &["\"\"", "\"left\"", "\"End\""]), ("code_block.fence_char", &["\"\"", "\"x\"", "\"``\""]),
        ];
        let mut named = vec![];
        for (p, vals) in bads { if r.chance(20) { let v = *r.pick(vals); j[js_key(p)] = serde_json::from_str(v).unwrap(); named.push(format!("{p} = {v}")); apply(&mut want, p, &default_value(p)); } }
        let mut case = Case::new(&j.to_string());
        case.ev("invalid values", named.len());
        match js(j.clone()) {
            Ok(x) => if format!("{x:?}") != format!("{want:?}") { case.fail("an invalid value does not fall back to the default", format!("{named:?}\n{j}\n{x:?}\nwanted\n{want:?}")); },
            Err(e) => case.fail("an invalid value is not tolerated", format!("{e} {j}")),
        }
        case
    });
}
