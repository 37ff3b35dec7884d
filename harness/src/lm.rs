//! Reference model of a styled line, and serialisable specifications from
//! which both the real `liso::Line` and the model are built.
use liso::{Color, Line, Style};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use unicode_width::UnicodeWidthChar;

pub const BOLD: u8 = 1;
pub const DIM: u8 = 2;
pub const UNDERLINE: u8 = 4;
pub const INVERSE: u8 = 8;
pub const ITALIC: u8 = 16;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Serialize, Deserialize, Hash)]
pub struct Attr {
    pub style: u8,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
}
impl Attr {
    pub fn trails(&self) -> bool {
        self.style & (INVERSE | UNDERLINE) != 0 || self.bg.is_some()
    }
}

pub fn style_of(s: u8) -> Style {
    let mut r = Style::PLAIN;
    if s & BOLD != 0 {
        r |= Style::BOLD
    }
    if s & DIM != 0 {
        r |= Style::DIM
    }
    if s & UNDERLINE != 0 {
        r |= Style::UNDERLINE
    }
    if s & INVERSE != 0 {
        r |= Style::INVERSE
    }
    if s & ITALIC != 0 {
        r |= Style::ITALIC
    }
    r
}
pub fn style_to(s: Style) -> u8 {
    let mut r = 0;
    if s.contains(Style::BOLD) {
        r |= BOLD
    }
    if s.contains(Style::DIM) {
        r |= DIM
    }
    if s.contains(Style::UNDERLINE) {
        r |= UNDERLINE
    }
    if s.contains(Style::INVERSE) {
        r |= INVERSE
    }
    if s.contains(Style::ITALIC) {
        r |= ITALIC
    }
    r
}
/// Colour numbering used throughout the harness: the order of the documented enum.
pub fn color_of(c: u8) -> Color {
    match c {
        0 => Color::Black,
        1 => Color::Red,
        2 => Color::Green,
        3 => Color::Yellow,
        4 => Color::Blue,
        5 => Color::Cyan,
        6 => Color::Magenta,
        _ => Color::White,
    }
}
pub fn color_to(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::Red => 1,
        Color::Green => 2,
        Color::Yellow => 3,
        Color::Blue => 4,
        Color::Cyan => 5,
        Color::Magenta => 6,
        Color::White => 7,
    }
}
pub fn oc(c: Option<u8>) -> Option<Color> {
    c.map(color_of)
}

pub fn is_ctl(c: char) -> bool {
    let u = c as u32;
    (u < 0x20 || (0x7F..0xA0).contains(&u) || u == 0x2028 || u == 0x2029) && c != '\n'
}
pub fn ctl_form(c: char) -> String {
    let u = c as u32;
    if u < 32 {
        format!("^{}", char::from_u32(u + 64).unwrap())
    } else {
        format!("U+{:04X}", u)
    }
}
pub fn cw(c: char) -> usize {
    UnicodeWidthChar::width(c).unwrap_or(0)
}
/// true if both width tables in use (liso's and textwrap's) agree on the char
pub fn widths_agree(c: char) -> bool {
    cw(c) == unicode_width_02::UnicodeWidthChar::width(c).unwrap_or(0)
}

/// The model: characters with attributes, and the attributes now active.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ML {
    pub chars: Vec<(char, Attr)>,
    pub cur: Attr,
    /// some style or colour has been mentioned, or text added
    pub touched: bool,
}
impl ML {
    pub fn new() -> ML {
        ML::default()
    }
    pub fn text(&self) -> String {
        self.chars.iter().map(|x| x.0).collect()
    }
    pub fn is_empty(&self) -> bool {
        self.chars.is_empty()
    }
    fn push(&mut self, c: char) {
        self.chars.push((c, self.cur));
        self.touched = true;
    }
    pub fn add_text(&mut self, s: &str) {
        for c in s.chars() {
            if is_ctl(c) {
                self.cur.style ^= INVERSE;
                for f in ctl_form(c).chars() {
                    self.push(f);
                }
                self.cur.style ^= INVERSE;
            } else {
                self.push(c);
            }
        }
    }
    pub fn append(&mut self, o: &ML) {
        self.chars.extend_from_slice(&o.chars);
        if o.touched {
            self.cur = o.cur;
            self.touched = true;
        }
    }
    pub fn reset_and_break(&mut self) {
        self.push('\n');
        self.cur = Attr::default();
    }
    pub fn from_str(s: &str) -> ML {
        let mut m = ML::new();
        m.add_text(s);
        m
    }
    pub fn from_line(l: &Line) -> ML {
        let mut m = ML::new();
        for c in l.chars() {
            m.chars.push((
                c.ch,
                Attr {
                    style: style_to(c.style),
                    fg: c.fg.map(color_to),
                    bg: c.bg.map(color_to),
                },
            ));
        }
        let (f, b) = l.get_colors();
        m.cur = Attr {
            style: style_to(l.get_style()),
            fg: f.map(color_to),
            bg: b.map(color_to),
        };
        m.touched = true;
        m
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LOp {
    Text(String),
    Set(u8),
    Toggle(u8),
    Activate(u8),
    Deactivate(u8),
    ClearStyle,
    Fg(Option<u8>),
    Bg(Option<u8>),
    Colors(Option<u8>, Option<u8>),
    Reset,
    Break,
    Append(Vec<LOp>),
}
pub type LSpec = Vec<LOp>;

pub fn apply_real(l: &mut Line, op: &LOp) {
    match op {
        LOp::Text(t) => {
            l.add_text(t.as_str());
        }
        LOp::Set(s) => {
            l.set_style(style_of(*s));
        }
        LOp::Toggle(s) => {
            l.toggle_style(style_of(*s));
        }
        LOp::Activate(s) => {
            l.activate_style(style_of(*s));
        }
        LOp::Deactivate(s) => {
            l.deactivate_style(style_of(*s));
        }
        LOp::ClearStyle => {
            l.clear_style();
        }
        LOp::Fg(c) => {
            l.set_fg_color(oc(*c));
        }
        LOp::Bg(c) => {
            l.set_bg_color(oc(*c));
        }
        LOp::Colors(f, b) => {
            l.set_colors(oc(*f), oc(*b));
        }
        LOp::Reset => {
            l.reset_all();
        }
        LOp::Break => l.reset_and_break(),
        LOp::Append(o) => l.append_line(&build_real(o)),
    }
}
pub fn build_real(ops: &[LOp]) -> Line {
    let mut l = Line::new();
    for op in ops {
        apply_real(&mut l, op);
    }
    l
}
pub fn apply_model(m: &mut ML, op: &LOp) {
    match op {
        LOp::Text(t) => m.add_text(t),
        LOp::Set(s) => {
            m.cur.style = *s;
            m.touched = true
        }
        LOp::Toggle(s) => {
            m.cur.style ^= *s;
            m.touched = true
        }
        LOp::Activate(s) => {
            m.cur.style |= *s;
            m.touched = true
        }
        LOp::Deactivate(s) => {
            m.cur.style &= !*s;
            m.touched = true
        }
        LOp::ClearStyle => {
            m.cur.style = 0;
            m.touched = true
        }
        LOp::Fg(c) => {
            m.touched |= m.cur.fg != *c;
            m.cur.fg = *c
        }
        LOp::Bg(c) => {
            m.touched |= m.cur.bg != *c;
            m.cur.bg = *c
        }
        LOp::Colors(f, b) => {
            m.cur.fg = *f;
            m.cur.bg = *b;
            m.touched = true
        }
        LOp::Reset => {
            m.cur = Attr::default();
            m.touched = true
        }
        LOp::Break => m.reset_and_break(),
        LOp::Append(o) => {
            let o = build_model(o);
            m.append(&o)
        }
    }
}
pub fn build_model(ops: &[LOp]) -> ML {
    let mut m = ML::new();
    for op in ops {
        apply_model(&mut m, op);
    }
    m
}

// ---------------------------------------------------------------- strategies

/// Characters that display (no control characters, no newline).
pub fn vis_char() -> BoxedStrategy<char> {
    prop_oneof![
        10 => proptest::char::range('a', 'f'),
        2 => proptest::char::range('!', '~'),
        3 => Just(' '),
        2 => proptest::sample::select(vec!['é', 'ß', 'Ж', 'λ', '\u{a0}', '–', '█']),
        3 => proptest::sample::select(vec!['世', '界', '何', 'っ', '？', '😀', '🎉', '한']),
        1 => proptest::sample::select(vec!['\u{301}', '\u{300}', '\u{200b}', '\u{20dd}', '\u{fe0f}']),
        1 => any::<char>().prop_filter("not visible", |c| !c.is_control() && !matches!(c, '\u{2028}' | '\u{2029}') && widths_agree(*c)),
    ]
    .boxed()
}
/// As above, but never zero-width.
pub fn solid_char() -> BoxedStrategy<char> {
    prop_oneof![
        10 => proptest::char::range('a', 'f'),
        2 => proptest::char::range('!', '~'),
        3 => Just(' '),
        2 => proptest::sample::select(vec!['é', 'ß', 'Ж', 'λ', '–', '█']),
        3 => proptest::sample::select(vec!['世', '界', '何', 'っ', '？', '😀', '🎉', '한']),
    ]
    .boxed()
}
pub fn ctl_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => (0u32..32).prop_map(|c| char::from_u32(c).unwrap()),
        2 => Just('\u{1b}'),
        2 => (0x7Fu32..0xA0).prop_map(|c| char::from_u32(c).unwrap()),
        1 => Just('\u{2028}'),
        1 => Just('\u{2029}'),
    ]
    .boxed()
}
/// Anything at all, biased to the interesting.
pub fn any_char() -> BoxedStrategy<char> {
    prop_oneof![
        8 => vis_char(),
        3 => ctl_char(),
        1 => Just('\n'),
        1 => any::<char>().prop_filter("width tables disagree", |c| widths_agree(*c)),
        1 => proptest::sample::select(vec!['\u{7e}','\u{7f}','\u{80}','\u{9f}','\u{a0}','\u{a1}','\u{2027}','\u{2028}','\u{2029}','\u{202a}','\u{1f}',' ','\u{85}', '\u{ad}','\u{feff}','\u{fffd}','\u{10ffff}']),
    ]
    .boxed()
}
pub fn text_of(c: BoxedStrategy<char>, max: usize) -> BoxedStrategy<String> {
    proptest::collection::vec(c, 0..=max)
        .prop_map(|v| v.into_iter().collect())
        .boxed()
}
pub fn style_strat() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => Just(0u8),
        2 => Just(BOLD), 1 => Just(DIM), 2 => Just(UNDERLINE), 3 => Just(INVERSE), 1 => Just(ITALIC),
        3 => 0u8..32
    ]
    .boxed()
}
pub fn col_strat() -> BoxedStrategy<Option<u8>> {
    prop_oneof![2 => Just(None), 3 => (0u8..8).prop_map(Some)].boxed()
}
pub fn attr_op() -> BoxedStrategy<LOp> {
    prop_oneof![
        3 => style_strat().prop_map(LOp::Set),
        1 => style_strat().prop_map(LOp::Toggle),
        1 => style_strat().prop_map(LOp::Activate),
        1 => style_strat().prop_map(LOp::Deactivate),
        1 => Just(LOp::ClearStyle),
        3 => col_strat().prop_map(LOp::Fg),
        3 => col_strat().prop_map(LOp::Bg),
        1 => (col_strat(), col_strat()).prop_map(|(a, b)| LOp::Colors(a, b)),
        1 => Just(LOp::Reset),
    ]
    .boxed()
}
/// A line spec made of text over `c` and attribute changes.
pub fn lspec(c: BoxedStrategy<char>, max_ops: usize, max_text: usize, breaks: bool) -> BoxedStrategy<LSpec> {
    let text = text_of(c, max_text).prop_map(LOp::Text).boxed();
    let op = if breaks {
        prop_oneof![5 => text, 4 => attr_op(), 1 => Just(LOp::Break), 1 => Just(LOp::Text("\n".into()))].boxed()
    } else {
        prop_oneof![5 => text, 4 => attr_op()].boxed()
    };
    proptest::collection::vec(op, 0..=max_ops).boxed()
}
