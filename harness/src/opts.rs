//! Option sets.
use crate::rng::Rng;
use hongdown::*;

pub fn describe(o: &Options) -> String {
    format!("{o:?}")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Punct { Off, Default, Any, AnyStable }

pub const HR: &[&str] = &["***", "---", "___", "* * *", "- - -", "-----", "* * * * *", "- - - - - - - - - -", "_____"];

pub fn random(r: &mut Rng, p: Punct, layout: bool) -> Options {
    let mut o = Options::default();
    if layout {
        if r.chance(70) {
            let w = match r.below(6) { 0 => r.range(20, 40), 1 => r.range(120, 200), 2 => 80, _ => r.range(40, 120) };
            o.line_width = LineWidth::new(w).unwrap();
        }
        o.setext_h1 = r.chance(50);
        o.setext_h2 = r.chance(50);
        o.unordered_marker = *r.pick(&[UnorderedMarker::Hyphen, UnorderedMarker::Asterisk, UnorderedMarker::Plus]);
        if r.chance(60) {
            // (indent of both kinds, leading, trailing) for which every kind of list nests in
            // every other one, as Markdown reads them
            let (w, lead, trail) = *r.pick(&[(4, 0, 1), (4, 0, 2), (4, 0, 3), (4, 1, 1), (4, 1, 2), (5, 0, 1), (5, 0, 2), (5, 0, 3), (5, 1, 2), (5, 1, 3), (3, 0, 1), (3, 0, 2), (3, 1, 1)]);
            o.leading_spaces = LeadingSpaces::new(lead).unwrap();
            o.trailing_spaces = TrailingSpaces::new(trail).unwrap();
            o.indent_width = IndentWidth::new(w).unwrap();
            o.ordered_list_indent_width = IndentWidth::new(w).unwrap();
        }
        o.odd_level_marker = *r.pick(&[OrderedMarker::Period, OrderedMarker::Parenthesis]);
        o.even_level_marker = *r.pick(&[OrderedMarker::Period, OrderedMarker::Parenthesis]);
        o.ordered_list_pad = if r.chance(50) { OrderedListPad::Start } else { OrderedListPad::End };
        o.fence_char = if r.chance(50) { FenceChar::Tilde } else { FenceChar::Backtick };
        o.min_fence_length = MinFenceLength::new(r.range(3, 7)).unwrap();
        o.space_after_fence = r.chance(50);
        if r.chance(30) { o.default_language = "text".into(); }
        o.thematic_break_style = ThematicBreakStyle::new(r.pick(HR).to_string()).unwrap();
        o.thematic_break_leading_spaces = LeadingSpaces::new(r.range(0, 3.min(o.leading_spaces.get() + o.trailing_spaces.get()))).unwrap();
    }
    match p {
        Punct::Off => punct_off(&mut o),
        Punct::Default => {}
        Punct::Any | Punct::AnyStable => {
            o.curly_double_quotes = r.chance(50);
            o.curly_single_quotes = r.chance(50);
            o.curly_apostrophes = r.chance(50);
            o.ellipsis = r.chance(50);
            // a single-quoted span broken over two lines is no pair any more (known finding)
            if p == Punct::AnyStable && o.curly_apostrophes { o.curly_single_quotes = true; }
            loop {
                let pats = ["--", "---", "-", "~~", " - ", "->", "––"];
                let one = |r: &mut Rng| if r.chance(35) { DashSetting::Disabled } else { match DashPattern::new(r.pick(&pats).to_string()) { Ok(p) => DashSetting::Pattern(p), Err(_) => DashSetting::Disabled } };
                o.em_dash = one(r);
                o.en_dash = one(r);
                if validate_dash_settings(&o).is_ok() { break; }
            }
        }
    }
    o
}
pub fn punct_off(o: &mut Options) {
    o.curly_double_quotes = false;
    o.curly_single_quotes = false;
    o.curly_apostrophes = false;
    o.ellipsis = false;
    o.em_dash = DashSetting::Disabled;
    o.en_dash = DashSetting::Disabled;
}
pub fn dash_str(d: &DashSetting) -> Option<&str> {
    match d { DashSetting::Disabled => None, DashSetting::Pattern(p) => Some(p.as_str()) }
}
