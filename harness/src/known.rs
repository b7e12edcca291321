//! Known findings: replayed on every run, printed while they still fail, never extended here.
use crate::mon::Ctx;
use crate::{docs, util};

pub fn report(c: &Ctx) {
    if c.only.is_some() { return; }
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.json")) else { return };
    let j: serde_json::Value = serde_json::from_str(&t).expect("known_findings.json");
    for f in j["findings"].as_array().expect("findings") {
        if f["property"] != c.id.as_str() { continue; }
        let still = match still_fails(f) { Some(b) => b, None => continue };
        if still { println!("KNOWN-FINDING: property={} {}: {}", c.id, f["id"].as_str().unwrap_or(""), f["what"].as_str().unwrap_or("")); }
        else { println!("note: known finding {} no longer fails", f["id"]); }
    }
}
/// `hdmon known`: every finding and whether it still fails.
pub fn list() {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{root}/known_findings.json")).expect("known_findings.json")).expect("json");
    for f in j["findings"].as_array().expect("findings") { println!("{} {} {:?}", f["property"], f["id"], still_fails(f)); }
}
/// None: judged elsewhere.
fn still_fails(f: &serde_json::Value) -> Option<bool> {
    let src = f["input"].as_str()?;
    let mut o = hongdown::Options::default();
    if let Some(t) = f["options"].as_object() { for (k, v) in t { apply(&mut o, k, v); } }
    Some(match f["judge"].as_str()? {
        "sem" => docs::sem_bad(src, &o).is_some(),
        "idem" => docs::idem_bad(src, &o).is_some(),
        "output" => util::fmt(src, &o).ok().as_deref() == f["output"].as_str(),
        "contains" => util::fmt(src, &o).ok()?.contains(f["output"].as_str()?),
        "warns" => util::fmt_w(src, &o).ok().is_some_and(|x| x.1.iter().any(|w| w.1.contains(f["output"].as_str().unwrap_or("")))),
        _ => return None,
    })
}
fn apply(o: &mut hongdown::Options, k: &str, v: &serde_json::Value) {
    use hongdown::*;
    let b = v.as_bool().unwrap_or(false);
    let n = v.as_u64().unwrap_or(0) as usize;
    match k {
        "line_width" => o.line_width = LineWidth::new(n).unwrap(),
        "heading_sentence_case" => o.heading_sentence_case = b,
        "ordered_list_pad_end" => o.ordered_list_pad = if b { OrderedListPad::End } else { OrderedListPad::Start },
        "curly_single_quotes" => o.curly_single_quotes = b,
        "curly_double_quotes" => o.curly_double_quotes = b,
        "curly_apostrophes" => o.curly_apostrophes = b,
        "ellipsis" => o.ellipsis = b,
        "em_dash_off" => o.em_dash = DashSetting::Disabled,
        "punct_off" => crate::opts::punct_off(o),
        "setext_h1" => o.setext_h1 = b,
        "setext_h2" => o.setext_h2 = b,
        "trailing_spaces" => o.trailing_spaces = TrailingSpaces::new(n).unwrap(),
        "leading_spaces" => o.leading_spaces = LeadingSpaces::new(n).unwrap(),
        "indent_width" => o.indent_width = IndentWidth::new(n).unwrap(),
        "ordered_list_indent_width" => o.ordered_list_indent_width = IndentWidth::new(n).unwrap(),
        _ => panic!("known findings: option {k}"),
    }
}
