//! Properties of pure functions: line building, ANSI text, wrapping,
//! serialisation, fill equality.
use crate::engine::*;
use crate::lm::*;
use liso::{liso, liso_add, Line, LineChar};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Everything observable about a line agrees with the model.
pub fn agrees(l: &Line, m: &ML) -> Result<(), String> {
    if l.as_str() != m.text() {
        return Err(format!("text is {:?}, expected {:?}", l.as_str(), m.text()));
    }
    if l.len() != m.text().len() {
        return Err(format!("len() is {}, expected {}", l.len(), m.text().len()));
    }
    if l.is_empty() != m.chars.is_empty() {
        return Err(format!("is_empty() is {}", l.is_empty()));
    }
    let (f, b) = l.get_colors();
    let a = Attr { style: style_to(l.get_style()), fg: f.map(color_to), bg: b.map(color_to) };
    if a != m.cur {
        return Err(format!("current attributes are {a:?}, expected {:?}", m.cur));
    }
    let mut idx = 0;
    let mut n = 0;
    for (i, c) in l.chars().enumerate() {
        let Some((ch, at)) = m.chars.get(i) else { return Err("too many characters".into()) };
        let ga = Attr { style: style_to(c.style), fg: c.fg.map(color_to), bg: c.bg.map(color_to) };
        if c.index != idx || c.ch != *ch || ga != *at {
            return Err(format!("character {i} is {:?} {ga:?} at byte {}, expected {ch:?} {at:?} at byte {idx}", c.ch, c.index));
        }
        idx += ch.len_utf8();
        n += 1;
    }
    if n != m.chars.len() {
        return Err(format!("iteration gave {n} characters, expected {}", m.chars.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Case {
    ops: LSpec,
    /// index at which to change an operation, giving a second line
    at: usize,
    other: LOp,
    replace: bool,
}
pub struct C01;

fn apply_macro(l: &mut Line, op: &LOp) {
    match op {
        LOp::Text(t) => {
            liso_add!(l, t.as_str());
        }
        LOp::Set(0) | LOp::ClearStyle => {
            liso_add!(l, plain);
        }
        LOp::Set(BOLD) => {
            liso_add!(l, bold);
        }
        LOp::Set(DIM) => {
            liso_add!(l, dim);
        }
        LOp::Set(UNDERLINE) => {
            liso_add!(l, underline);
        }
        LOp::Set(INVERSE) => {
            liso_add!(l, reverse);
        }
        LOp::Set(ITALIC) => {
            liso_add!(l, italic);
        }
        LOp::Activate(BOLD) => {
            liso_add!(l, +bold);
        }
        LOp::Activate(DIM) => {
            liso_add!(l, +dim);
        }
        LOp::Activate(UNDERLINE) => {
            liso_add!(l, +underline);
        }
        LOp::Activate(INVERSE) => {
            liso_add!(l, +inverse);
        }
        LOp::Activate(ITALIC) => {
            liso_add!(l, +italic);
        }
        LOp::Deactivate(BOLD) => {
            liso_add!(l, -bold);
        }
        LOp::Deactivate(DIM) => {
            liso_add!(l, -dim);
        }
        LOp::Deactivate(UNDERLINE) => {
            liso_add!(l, -underline);
        }
        LOp::Deactivate(INVERSE) => {
            liso_add!(l, -reverse);
        }
        LOp::Deactivate(ITALIC) => {
            liso_add!(l, -italic);
        }
        LOp::Toggle(BOLD) => {
            liso_add!(l, ^bold);
        }
        LOp::Toggle(DIM) => {
            liso_add!(l, ^dim);
        }
        LOp::Toggle(UNDERLINE) => {
            liso_add!(l, ^underline);
        }
        LOp::Toggle(INVERSE) => {
            liso_add!(l, ^inverse);
        }
        LOp::Toggle(ITALIC) => {
            liso_add!(l, ^italic);
        }
        LOp::Fg(None) => {
            liso_add!(l, fg = none);
        }
        LOp::Bg(None) => {
            liso_add!(l, bg = none);
        }
        LOp::Fg(Some(0)) => {
            liso_add!(l, fg = black);
        }
        LOp::Fg(Some(1)) => {
            liso_add!(l, fg = Red);
        }
        LOp::Fg(Some(2)) => {
            liso_add!(l, fg = green);
        }
        LOp::Fg(Some(3)) => {
            liso_add!(l, fg = Yellow);
        }
        LOp::Fg(Some(4)) => {
            liso_add!(l, fg = blue);
        }
        LOp::Fg(Some(5)) => {
            liso_add!(l, fg = Cyan);
        }
        LOp::Fg(Some(6)) => {
            liso_add!(l, fg = magenta);
        }
        LOp::Fg(Some(_)) => {
            liso_add!(l, fg = White);
        }
        LOp::Bg(Some(0)) => {
            liso_add!(l, bg = Black);
        }
        LOp::Bg(Some(1)) => {
            liso_add!(l, bg = red);
        }
        LOp::Bg(Some(2)) => {
            liso_add!(l, bg = Green);
        }
        LOp::Bg(Some(3)) => {
            liso_add!(l, bg = yellow);
        }
        LOp::Bg(Some(4)) => {
            liso_add!(l, bg = Blue);
        }
        LOp::Bg(Some(5)) => {
            liso_add!(l, bg = cyan);
        }
        LOp::Bg(Some(6)) => {
            liso_add!(l, bg = Magenta);
        }
        LOp::Bg(Some(_)) => {
            liso_add!(l, bg = white);
        }
        LOp::Reset => {
            liso_add!(l, reset);
        }
        LOp::Append(o) => l.append_line(&build_macro(o)),
        op => apply_real(l, op),
    }
}
fn build_macro(ops: &[LOp]) -> Line {
    let mut l = Line::new();
    for o in ops {
        apply_macro(&mut l, o);
    }
    l
}

/// Every form of the macros, applied to a line (and to an empty one)
fn macro_forms(l: &Line, m: &ML, t: &str) -> Result<(), String> {
    use liso::Color;
    fn check(what: &str, got: &Line, m: &ML, f: &dyn Fn(&mut ML)) -> Result<(), String> {
        let mut w = m.clone();
        f(&mut w);
        agrees(got, &w).map_err(|e| format!("`{what}`: {e}"))
    }
    let empty = ML::new();
    macro_rules! form {
        ($f:expr; $($x:tt)*) => {{
            let f: &dyn Fn(&mut ML) = &$f;
            let mut a = l.clone();
            liso_add!(a, $($x)*);
            check(concat!("liso_add!: ", stringify!($($x)*)), &a, m, f)?;
            check(concat!("liso!: ", stringify!($($x)*)), &liso!($($x)*), &empty, f)?;
        }};
    }
    macro_rules! styles {
        ($($w:ident $b:expr),*) => {$(
            form!(|m: &mut ML| m.cur.style = $b; $w);
            form!(|m: &mut ML| { m.cur.style = $b; m.add_text("z") }; $w "z");
            form!(|m: &mut ML| { m.cur.style = $b; m.add_text(t) }; $w, t);
            form!(|m: &mut ML| m.cur.style |= $b; + $w);
            form!(|m: &mut ML| { m.cur.style |= $b; m.add_text("z") }; + $w "z");
            form!(|m: &mut ML| { m.cur.style |= $b; m.add_text(t) }; + $w, t);
            form!(|m: &mut ML| m.cur.style &= !$b; - $w);
            form!(|m: &mut ML| { m.cur.style &= !$b; m.add_text("z") }; - $w "z");
            form!(|m: &mut ML| { m.cur.style &= !$b; m.add_text(t) }; - $w, t);
            form!(|m: &mut ML| m.cur.style ^= $b; ^ $w);
            form!(|m: &mut ML| { m.cur.style ^= $b; m.add_text("z") }; ^ $w "z");
            form!(|m: &mut ML| { m.cur.style ^= $b; m.add_text(t) }; ^ $w, t);
            form!(|m: &mut ML| { m.cur.style = 0; m.cur.style |= $b; m.add_text("z") }; plain + $w "z");
            form!(|m: &mut ML| { m.cur.style = $b | DIM; m.add_text("z") }; $w + dim, "z");
            form!(|m: &mut ML| { m.add_text(t); m.cur.style |= $b; m.cur.style ^= ITALIC; m.cur.style &= !BOLD; m.add_text("z") }; t, + $w ^italic -bold, "z");
        )*};
    }
    styles!(bold BOLD, dim DIM, underline UNDERLINE, inverse INVERSE, reverse INVERSE, italic ITALIC);
    form!(|m: &mut ML| m.cur.style = 0; plain);
    form!(|m: &mut ML| { m.cur.style = 0; m.add_text(t) }; plain, t);
    macro_rules! colors {
        ($($w:ident $c:expr),*) => {$(
            form!(|m: &mut ML| m.cur.fg = $c; fg = $w);
            form!(|m: &mut ML| { m.cur.fg = $c; m.add_text("z") }; fg = $w, "z");
            form!(|m: &mut ML| m.cur.bg = $c; bg = $w);
            form!(|m: &mut ML| { m.cur.bg = $c; m.cur.style |= BOLD }; bg = $w, +bold);
        )*};
    }
    colors!(black Some(0), red Some(1), green Some(2), yellow Some(3), blue Some(4), magenta Some(6), cyan Some(5), white Some(7), none None);
    colors!(Black Some(0), Red Some(1), Green Some(2), Yellow Some(3), Blue Some(4), Magenta Some(6), Cyan Some(5), White Some(7), None None);
    let var = Some(Color::Cyan);
    form!(|m: &mut ML| m.cur.fg = Some(5); fg = var);
    form!(|m: &mut ML| { m.cur.fg = Some(5); m.add_text(t) }; fg = var, t);
    form!(|m: &mut ML| m.cur.bg = Some(5); bg = var);
    form!(|m: &mut ML| { m.cur.bg = Some(5); m.add_text(t) }; bg = var, t);
    form!(|m: &mut ML| m.cur.fg = Some(1); fg = Some(Color::Red));
    form!(|m: &mut ML| { m.cur.fg = Some(1); m.add_text(t) }; fg = Some(Color::Red), t);
    form!(|m: &mut ML| m.cur.bg = None; bg = if t.len() > 9999 { var } else { None });
    form!(|m: &mut ML| { m.cur.bg = Some(6); m.cur.fg = Some(1); m.add_text(t) }; bg = Some(Color::Magenta), fg = red, t,);
    form!(|m: &mut ML| m.cur = Attr::default(); reset);
    form!(|m: &mut ML| { m.cur = Attr::default(); m.add_text(t); m.cur.style = BOLD }; reset, t, bold);
    form!(|m: &mut ML| m.cur = Attr { style: BOLD, fg: None, bg: None }; ansi "\x1b[0;1m", fg = none, bg = none);
    form!(|m: &mut ML| { m.cur = Attr { style: BOLD, fg: None, bg: None }; m.add_text("z") }; ansi "\x1b[0;1m", "z");
    form!(|m: &mut ML| { m.cur = Attr { style: 0, fg: Some(1), bg: None }; m.add_text("z") }; ansi String::from("\x1b[0;31mz"));
    form!(|m: &mut ML| { m.add_text(t); m.add_text(t) }; t, t.to_string());
    form!(|m: &mut ML| { m.add_text(t); m.add_text("7") }; t, format!("{}", 7),);
    form!(|m: &mut ML| m.add_text(t); std::borrow::Cow::Borrowed(t),);
    Ok(())
}
impl C01 {
    fn run(c: &C01Case) -> Result<(bool, Vec<String>), String> {
        // step by step, so that every intermediate state is compared as well
        let mut l = Line::new();
        let mut m = ML::new();
        agrees(&l, &m)?;
        for (i, op) in c.ops.iter().enumerate() {
            let (lb, mb) = (l.clone(), m.clone());
            apply_real(&mut l, op);
            apply_model(&mut m, op);
            agrees(&l, &m).map_err(|e| format!("after operation {i} ({op:?}): {e}"))?;
            if m == mb && l != lb {
                return Err(format!("operation {i} ({op:?}) should change nothing, but the line isn't equal to what it was"));
            }
        }
        let again = build_real(&c.ops);
        if again != l || l.clone() != l {
            return Err("two lines built with equal calls are not equal".into());
        }
        let mac = build_macro(&c.ops);
        agrees(&mac, &m).map_err(|e| format!("built with the macros: {e}"))?;
        if mac != l {
            return Err("the line built with liso_add! is not equal to the one built with methods".into());
        }
        if l.len() % 32 == 13 {
            if let Some(LOp::Text(t)) = c.ops.last() {
                macro_forms(&l, &m, t)?;
            }
        }
        // appending the whole to something else
        for pre in ["", "x"] {
            let mut a = Line::from(pre);
            a.set_style(style_of(UNDERLINE));
            let mut am = ML::from_str(pre);
            am.cur.style = UNDERLINE;
            a.append_line(&l);
            am.append(&m);
            agrees(&a, &am).map_err(|e| format!("after append_line: {e}"))?;
            a.add_text("y");
            am.add_text("y");
            agrees(&a, &am).map_err(|e| format!("text after append_line: {e}"))?;
        }
        // constructors
        if let Some(LOp::Text(t)) = c.ops.first() {
            let want = ML::from_str(t);
            let cons: Vec<(&str, Line)> = vec![
                ("from_str", Line::from_str(t)),
                ("from_string", Line::from_string(t.clone())),
                ("from_cow", Line::from_cow(std::borrow::Cow::Borrowed(t))),
                ("From<&str>", Line::from(t.as_str())),
                ("From<String>", Line::from(t.clone())),
                ("FromStr", t.parse::<Line>().map_err(|_| "FromStr failed")?),
                ("liso!", liso!(t.as_str())),
            ];
            for (n, l) in cons {
                agrees(&l, &want).map_err(|e| format!("{n}: {e}"))?;
            }
            // a whole-line macro of fixed shape
            let col = oc(Some((c.at % 8) as u8));
            let l = liso!(fg = col, "a", bold + underline, t.as_str(), bg = yellow, -bold, t.clone(), plain, "b", ^inverse, reset, "c",);
            let mut w = ML::new();
            w.cur.fg = Some((c.at % 8) as u8);
            w.add_text("a");
            w.cur.style = BOLD | UNDERLINE;
            w.add_text(t);
            w.cur.bg = Some(3);
            w.cur.style = UNDERLINE;
            w.add_text(t);
            w.cur.style = 0;
            w.add_text("b");
            w.cur = Attr::default();
            w.add_text("c");
            agrees(&l, &w).map_err(|e| format!("liso! template: {e}"))?;
        }
        // a slightly different line
        let mut ops2 = c.ops.clone();
        let at = c.at % (ops2.len() + 1);
        if c.replace && at < ops2.len() {
            ops2[at] = c.other.clone();
        } else {
            ops2.insert(at, c.other.clone());
        }
        let l2 = build_real(&ops2);
        let m2 = build_model(&ops2);
        agrees(&l2, &m2)?;
        let differ = m2.chars != m.chars;
        for (x, y) in l.chars().zip(l2.chars()) {
            let same = x.ch == y.ch && x.style == y.style && x.fg == y.fg && x.bg == y.bg;
            if (x == y) != same {
                return Err(format!("{x:?} == {y:?} gives {}", !same));
            }
        }
        if differ && (l2 == l || !(l2 != l)) {
            return Err("lines with different text or attributes compare equal".into());
        }
        let styles = m.chars.iter().map(|x| x.1).collect::<Vec<_>>();
        let runs = styles.windows(2).filter(|w| w[0] != w[1]).count();
        let mut lab = vec![];
        if differ {
            lab.push("differing-pair".to_string())
        }
        if runs > 0 {
            lab.push("several-attribute-runs".into())
        }
        if c.ops.iter().any(|o| matches!(o, LOp::Append(_))) {
            lab.push("append".into())
        }
        Ok((m.chars.len() >= 2 && runs >= 1, lab))
    }
}
fn line_ops() -> BoxedStrategy<LSpec> {
    let leaf = prop_oneof![5 => text_of(any_char(), 6).prop_map(LOp::Text), 6 => attr_op(), 1 => Just(LOp::Break)];
    let app = proptest::collection::vec(leaf.clone(), 0..6).prop_map(LOp::Append);
    let app2 = proptest::collection::vec(prop_oneof![3 => leaf.clone(), 1 => app.clone()], 0..5).prop_map(LOp::Append);
    let op = prop_oneof![10 => leaf, 1 => app, 1 => app2].boxed();
    // now and then, many of them, and long text
    let many = proptest::collection::vec(op.clone(), 30..200);
    let lengthy = proptest::collection::vec(prop_oneof![1 => text_of(any_char(), 400).prop_map(LOp::Text), 2 => op.clone()], 1..12);
    prop_oneof![600 => proptest::collection::vec(op, 0..14), 1 => many, 1 => lengthy].boxed()
}
impl Prop for C01 {
    type Case = C01Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "sequences of 0-14 (rarely 30-200, or with texts of up to 400 characters) builder calls over arbitrary characters, compared with a reference line model after every call, plus a variant with one call inserted or replaced for (in)equality; non-trivial: at least two characters and two different attribute runs"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C01Case> {
        (line_ops(), 0usize..20, prop_oneof![2 => attr_op(), 1 => text_of(any_char(), 2).prop_map(LOp::Text)], any::<bool>())
            .prop_map(|(ops, at, other, replace)| C01Case { ops, at, other, replace })
            .boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2_000_000, 20_000_000)
    }
    fn exec(&self, c: &C01Case) -> Verdict {
        guarded(c, C01::run)
    }
}

// ------------------------------------------------------------------ C03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03Case {
    pre: LSpec,
    parts: Vec<String>,
}
pub struct C03;

/// The reference meaning of ANSI text.  Returns false if the text contains
/// something whose meaning is not specified.
fn ansi_model(m: &mut ML, s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    let mut specified = true;
    let mut i = 0;
    while i < v.len() {
        if v[i] == '\x1b' && v.get(i + 1) == Some(&'[') {
            let mut j = i + 2;
            while j < v.len() && ('0'..='?').contains(&v[j]) {
                j += 1;
            }
            if v.get(j) == Some(&'m') {
                let body: String = v[i + 2..j].iter().collect();
                if !body.chars().all(|c| c.is_ascii_digit() || c == ';') {
                    specified = false;
                }
                let codes: Vec<u64> = body
                    .split(';')
                    .map(|x| if x.is_empty() { 0 } else { x.parse::<u64>().unwrap_or(u64::MAX).min(1 << 40) })
                    .collect();
                let mut k = 0;
                m.touched = true;
                while k < codes.len() {
                    let a = &mut m.cur;
                    let ansi = |n: u64| Some([0u8, 1, 2, 3, 4, 6, 5, 7][n as usize]);
                    match codes[k] {
                        0 => *a = Attr::default(),
                        1 => a.style |= BOLD,
                        2 => a.style |= DIM,
                        3 => a.style |= ITALIC,
                        4 => a.style |= UNDERLINE,
                        7 => a.style |= INVERSE,
                        21 => a.style &= !BOLD,
                        22 => a.style &= !(BOLD | DIM),
                        23 => a.style &= !ITALIC,
                        24 => a.style &= !UNDERLINE,
                        27 => a.style &= !INVERSE,
                        n @ 30..=37 => a.fg = ansi(n - 30),
                        39 => a.fg = None,
                        n @ 40..=47 => a.bg = ansi(n - 40),
                        49 => a.bg = None,
                        38 | 48 | 58 => match codes.get(k + 1) {
                            Some(5) => {
                                specified &= codes.len() > k + 2;
                                k += 2
                            }
                            Some(2) => {
                                specified &= codes.len() > k + 4;
                                k += 4
                            }
                            _ => {
                                specified = false;
                                k += 1
                            }
                        },
                        _ => (),
                    }
                    k += 1;
                }
                i = j + 1;
                continue;
            }
        }
        m.add_text(&v[i].to_string());
        i += 1;
    }
    specified
}
impl C03 {
    fn run(c: &C03Case) -> Result<(bool, Vec<String>), String> {
        let text: String = c.parts.concat();
        let mut l = build_real(&c.pre);
        let mut m = build_model(&c.pre);
        l.add_ansi_text(text.as_str());
        let specified = ansi_model(&mut m, &text);
        if specified {
            agrees(&l, &m)?;
            let mut l2 = build_real(&c.pre);
            {
                let t = text.clone();
                let l2 = &mut l2;
                liso_add!(l2, ansi t);
            }
            if l2 != l {
                return Err("liso_add!(ansi ...) and add_ansi_text differ".into());
            }
        } else if l.as_str() != m.text() {
            return Err(format!("text is {:?}, expected {:?}", l.as_str(), m.text()));
        }
        // and it can still be extended
        l.add_text("z");
        m.add_text("z");
        if specified {
            agrees(&l, &m)?;
        }
        let esc = text.matches("\x1b[").count();
        let mut lab = vec![];
        if !specified {
            lab.push("unspecified-codes".to_string());
        }
        if l.as_str().contains("^[") {
            lab.push("sequence-passed-through".into());
        }
        Ok((esc >= 1 && specified, lab))
    }
}
fn sgr_code() -> BoxedStrategy<String> {
    prop_oneof![
        10 => (0u32..110).prop_map(|x| x.to_string()),
        6 => proptest::sample::select(vec![0,1,2,3,4,7,21,22,23,24,27,30,31,32,33,34,35,36,37,39,40,41,42,43,44,45,46,47,49]).prop_map(|x: u32| x.to_string()),
        1 => Just(String::new()),
        1 => (0u32..256).prop_map(|n| format!("38;5;{n}")),
        1 => (0u32..256).prop_map(|n| format!("48;5;{n}")),
        1 => (0u32..256, 0u32..256).prop_map(|(n, k)| format!("38;2;{n};{k};1")),
        1 => (0u32..256, 0u32..256).prop_map(|(n, k)| format!("58;2;{n};{k};4")),
        1 => Just("48;2;7;1;4".to_string()),
        1 => proptest::sample::select(vec!["007", "4294967295", "4294967296", "4294967297", "99999999999999999999999", "01", "256", "031"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
impl Prop for C03 {
    type Case = C03Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "ANSI text built from well-formed SGR sequences (all codes 0-109, extended colours), other and truncated escape sequences, runs of ESC, and ordinary text (rarely, sequences of up to 150 codes or 300 digits, and up to 120 parts), compared with a reference interpreter; non-trivial: contains at least one ESC [ and nothing unspecified (malformed extended colours, private parameters)"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C03Case> {
        let sgr = proptest::collection::vec(sgr_code(), 0..5).prop_map(|v| format!("\x1b[{}m", v.join(";"))).boxed();
        let soup = proptest::collection::vec(
            proptest::sample::select(vec!["\x1b", "\x1b", "[", "[", "m", "m", ";", "1", "0", "3", "38", "5", "?", "K", " ", "é", "\n", "\u{9b}", "世", ":", "\x1b[", "\x1b[1", "\x1b[2J", "\x1b[1 m", "\x1b]0;x\x07", "\x1b[\x1b[4m", "\x1b\x1b[1m", "!"]),
            0..6,
        )
        .prop_map(|v| v.concat());
        let part = prop_oneof![6 => sgr, 3 => text_of(vis_char(), 4), 3 => soup, 1 => text_of(any_char(), 4)].boxed();
        // sequences with many codes, and many sequences
        let sgr_long = proptest::collection::vec(sgr_code(), 5..150).prop_map(|v| format!("\x1b[{}m", v.join(";"))).boxed();
        let digits = (1usize..300, "[0-9]", any::<bool>()).prop_map(|(n, d, z)| format!("\x1b[{}{}m", if z { "0".repeat(n) } else { "".into() }, d.repeat(if z { 1 } else { n }))).boxed();
        let part_long = prop_oneof![3 => part.clone(), 2 => sgr_long, 1 => digits, 1 => text_of(any_char(), 200), 1 => (1usize..200).prop_map(|n| "\x1b[".repeat(n))];
        let parts = prop_oneof![
            400 => proptest::collection::vec(part.clone(), 0..8),
            2 => proptest::collection::vec(part_long, 1..8),
            1 => proptest::collection::vec(part, 20..120)
        ];
        (lspec(vis_char(), 3, 3, false), parts).prop_map(|(pre, parts)| C03Case { pre, parts }).boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(4_000_000, 40_000_000)
    }
    fn exec(&self, c: &C03Case) -> Verdict {
        guarded(c, C03::run)
    }
    fn fixed(&self, _t: Tier) -> Vec<C03Case> {
        // every single code, on top of everything being on and everything off
        let mut v = vec![];
        for on in [false, true] {
            for n in 0..=120 {
                let pre = if on { vec![LOp::Set(31), LOp::Fg(Some(3)), LOp::Bg(Some(4)), LOp::Text("a".into())] } else { vec![] };
                v.push(C03Case { pre, parts: vec![format!("\x1b[{n}mb")] });
            }
        }
        v
    }
}

// ------------------------------------------------------------------ C04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C04Case {
    line: LSpec,
    w: usize,
}
pub struct C04;

type SChar = (char, Attr);
fn width(v: &[SChar]) -> usize {
    v.iter().map(|c| cw(c.0)).sum()
}
fn txt(v: &[SChar]) -> String {
    v.iter().map(|c| c.0).collect()
}

/// Is this certainly a word boundary?  (Spaces beside punctuation are not always.)
fn word_edge(seg: &[SChar], i: usize) -> bool {
    if seg[i - 1].0 != ' ' || seg[i].0 == ' ' {
        return false;
    }
    let plain = |c: char| c == '-' || c.is_alphanumeric();
    let before = seg[..i].iter().rev().find(|c| c.0 != ' ');
    plain(seg[i].0) && before.map(|c| plain(c.0)).unwrap_or(true)
}

/// Check one original newline-free segment against the rows it became.
fn check_segment(seg: &[SChar], rows: &[Vec<SChar>], w: usize) -> Result<(), String> {
    if width(seg) <= w {
        if rows.len() != 1 || rows[0] != seg {
            return Err(format!("{:?} fits in {w} columns but became {:?}", txt(seg), rows.iter().map(|r| txt(r)).collect::<Vec<_>>()));
        }
        return Ok(());
    }
    // align: the rows, in order, separated by dropped runs of spaces
    let mut i = 0;
    let mut gaps = vec![];
    for (n, r) in rows.iter().enumerate() {
        // spaces before this row (dropped in favour of the newline)
        if n > 0 {
            let s = i;
            while i < seg.len() && seg[i].0 == ' ' && !seg[i..].starts_with(r) {
                i += 1;
            }
            // a row never begins with a part of the run that was dropped
            gaps.push((s, i));
        }
        if !seg[i..].starts_with(r) {
            return Err(format!("row {n} ({:?}) is not what follows in the original at {:?}", txt(r), txt(&seg[i..])));
        }
        i += r.len();
    }
    if seg[i..].iter().any(|c| c.0 != ' ') {
        return Err(format!("{:?} at the end was lost", txt(&seg[i..])));
    }
    for (n, r) in rows.iter().enumerate() {
        let solid = r.iter().filter(|c| cw(c.0) > 0).count();
        if width(r) > w && solid > 1 {
            return Err(format!("row {n} ({:?}) is {} columns wide, more than {w}", txt(r), width(r)));
        }
    }
    for (n, &(s, e)) in gaps.iter().enumerate() {
        // an unnecessary break?
        let joined = width(&rows[n]) + width(&seg[s..e]) + width(&rows[n + 1]);
        if joined <= w {
            return Err(format!("unnecessary break between {:?} and {:?} ({w} columns)", txt(&rows[n]), txt(&rows[n + 1])));
        }
        if s == e && s > 0 && s < seg.len() {
            // broken where there were no spaces
            let (a, b) = (seg[s - 1].0, seg[s].0);
            let (mut x, mut y) = (s, s);
            while x > 0 && !word_edge(seg, x) {
                x -= 1;
            }
            while y < seg.len() && !word_edge(seg, y) {
                y += 1;
            }
            while y > x && seg[y - 1].0 == ' ' {
                y -= 1;
            }
            if a.is_ascii_alphanumeric() && b.is_ascii_alphanumeric() && width(&seg[x..y]) <= w {
                return Err(format!("the word {:?} was broken although it fits in {w} columns", txt(&seg[x..y])));
            }
        }
    }
    Ok(())
}

/// Is there a way to read `out` as `orig` wrapped?  (Where newlines were inserted next to existing
/// ones there can be several readings.)
fn check_segments(orig: &[Vec<SChar>], out: &[Vec<SChar>], w: usize) -> Result<(), String> {
    // dynamic programming: reach[o] = set of output rows consumed after orig segment o
    let mut reach: Vec<usize> = vec![0];
    let mut why = String::new();
    for (k, seg) in orig.iter().enumerate() {
        let mut next = vec![];
        for &r in &reach {
            let most = out.len().saturating_sub(orig.len() - k - 1);
            let upto = most.min(r + seg.len() + 2);
            for e in r + 1..=upto {
                match check_segment(seg, &out[r..e], w) {
                    Ok(()) => {
                        if !next.contains(&e) {
                            next.push(e)
                        }
                    }
                    Err(m) => {
                        // keep the most relevant message: the reading that is forced
                        if why.is_empty() || orig.len() == 1 && e == out.len() {
                            why = format!("segment {k}: {m}");
                        }
                    }
                }
            }
        }
        if next.is_empty() {
            return Err(why);
        }
        why.clear();
        reach = next;
    }
    if reach.contains(&out.len()) {
        Ok(())
    } else {
        Err("there are more rows than the text accounts for".into())
    }
}
fn split_rows(v: &[SChar]) -> (Vec<Vec<SChar>>, Vec<Attr>) {
    let mut rows = vec![vec![]];
    let mut nl = vec![];
    for c in v {
        if c.0 == '\n' {
            rows.push(vec![]);
            nl.push(c.1);
        } else {
            rows.last_mut().unwrap().push(*c);
        }
    }
    (rows, nl)
}
impl C04 {
    fn run(c: &C04Case) -> Result<(bool, Vec<String>), String> {
        let l = build_real(&c.line);
        let m = build_model(&c.line);
        let mut wl = l.clone();
        wl.wrap_to_width(c.w);
        let o = ML::from_line(&wl);
        let ctx = |e: String| format!("wrapping {:?} to {} gave {:?}: {e}", m.text(), c.w, o.text());
        agrees(&wl, &o).map_err(ctx)?;
        if o.cur != m.cur {
            return Err(ctx(format!("the active attributes changed from {:?} to {:?}", m.cur, o.cur)));
        }
        let (a, _) = split_rows(&m.chars);
        let (b, _) = split_rows(&o.chars);
        check_segments(&a, &b, c.w).map_err(ctx)?;
        // existing newlines keep their attributes, and new ones do not invent any
        let known: std::collections::HashSet<_> = m.chars.iter().map(|c| format!("{:?}", c.1)).collect();
        for ch in &o.chars {
            if !known.contains(&format!("{:?}", ch.1)) {
                return Err(ctx(format!("attributes {:?} appeared from nowhere", ch.1)));
            }
        }
        // the result is stable, and still extensible
        let mut w2 = wl.clone();
        w2.wrap_to_width(c.w);
        if ML::from_line(&w2).chars != o.chars {
            return Err(ctx(format!("wrapping again gave {:?}", w2.as_str())));
        }
        wl.add_text("Q");
        wl.set_fg_color(oc(Some(3)));
        wl.add_text("R");
        let mut o2 = o.clone();
        o2.add_text("Q");
        o2.cur.fg = Some(3);
        o2.add_text("R");
        agrees(&wl, &o2).map_err(|e| ctx(format!("after adding more text: {e}")))?;
        let broke = b.len() > a.len();
        let mut lab = vec![];
        if broke {
            lab.push("broken".to_string())
        }
        if a.len() > 1 {
            lab.push("newlines".into())
        }
        if m.chars.iter().any(|c| cw(c.0) == 2) {
            lab.push("wide".into())
        }
        let runs = m.chars.windows(2).filter(|p| p[0].1 != p[1].1).count();
        if runs > 0 && broke {
            lab.push("styled-and-broken".into())
        }
        Ok((broke, lab))
    }
}
impl Prop for C04 {
    type Case = C04Case;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "styled lines of words, space runs, newlines, hyphens, wide, combining and multi-byte characters, wrapped to widths 1-169 (and a few huge ones); output aligned with the input by a validity predicate; non-trivial: at least one break was inserted"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C04Case> {
        let word = text_of(prop_oneof![8 => proptest::char::range('a', 'f'), 1 => solid_char().prop_filter("no space", |c| *c != ' '), 1 => Just('-'), 1 => vis_char().prop_filter("no space", |c| *c != ' ')].boxed(), 7);
        let long = (20usize..160).prop_map(|n| "abcdefghij".repeat(16)[..n].to_string());
        let piece = prop_oneof![8 => word, 1 => long, 6 => (1usize..4).prop_map(|n| " ".repeat(n)), 1 => Just("\n".to_string()), 1 => (4usize..12).prop_map(|n| " ".repeat(n)), 1 => text_of(vis_char(), 12)];
        let op = prop_oneof![6 => proptest::collection::vec(piece, 0..6).prop_map(|v| LOp::Text(v.concat())), 3 => attr_op()];
        let op = op.boxed();
        let ops = prop_oneof![1500 => proptest::collection::vec(op.clone(), 0..7), 1 => proptest::collection::vec(op, 20..60)];
        (ops, prop_oneof![40 => 1usize..12, 20 => 1usize..41, 20 => 41usize..170, 1 => proptest::sample::select(vec![255usize, 256, 65535, 65536, usize::MAX / 2, usize::MAX - 1, usize::MAX])]).prop_map(|(line, w)| C04Case { line, w }).boxed()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_500_000, 20_000_000)
    }
    fn exec(&self, c: &C04Case) -> Verdict {
        guarded(c, C04::run)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["characters whose width differs between the two Unicode width tables in use (0.1.14 and 0.2) are not generated".into(),
             "spaces are ASCII spaces; where text other than spaces may be broken (hyphens, CJK) is not constrained beyond 'not between letters of a word that fits'".into()]
    }
}

// ------------------------------------------------------------------ C24
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C24Case {
    ops: LSpec,
    more: LSpec,
    w: usize,
}
pub struct C24;
impl C24 {
    fn run(c: &C24Case) -> Result<(bool, Vec<String>), String> {
        let l = build_real(&c.ops);
        let m = build_model(&c.ops);
        let js = serde_json::to_string(&l).map_err(|e| format!("serialising failed: {e}"))?;
        let back: Line = serde_json::from_str(&js).map_err(|e| format!("deserialising {js} failed: {e}"))?;
        let val = serde_json::to_value(&l).map_err(|e| format!("serialising failed: {e}"))?;
        let back2: Line = serde_json::from_value(val).map_err(|e| format!("deserialising failed: {e}"))?;
        // a format which doesn't describe itself, a binary one which does, and another text format
        let bin = bincode::serialize(&l).map_err(|e| format!("serialising with bincode failed: {e}"))?;
        let back3: Line = bincode::deserialize(&bin).map_err(|e| format!("deserialising {bin:?} failed: {e}"))?;
        let mut cbor = vec![];
        ciborium::into_writer(&l, &mut cbor).map_err(|e| format!("serialising as CBOR failed: {e}"))?;
        let back4: Line = ciborium::from_reader(&cbor[..]).map_err(|e| format!("deserialising {cbor:?} failed: {e}"))?;
        let mut copies = vec![(back, "JSON text"), (back2, "a JSON value"), (back3, "bincode"), (back4, "CBOR")];
        if js.len() % 8 == 0 {
            let t = toml::to_string(&l).map_err(|e| format!("serialising as TOML failed: {e}"))?;
            copies.push((toml::from_str(&t).map_err(|e| format!("deserialising {t:?} failed: {e}"))?, "TOML"));
        }
        for (mut b, how) in copies {
            if b != l {
                return Err(format!("after a round trip through {how}, the line is not equal to the original: {js}"));
            }
            agrees(&b, &m).map_err(|e| format!("after a round trip through {how}: {e}"))?;
            let mut o = l.clone();
            let mut om = m.clone();
            for op in &c.more {
                apply_real(&mut b, op);
                apply_real(&mut o, op);
                apply_model(&mut om, op);
            }
            if b != o {
                return Err("extending the copy and the original gave different lines".into());
            }
            agrees(&b, &om).map_err(|e| format!("extended copy: {e}"))?;
            // (whether wrapping itself is right is another property)
            let wrap = |l: &mut Line| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l.wrap_to_width(c.w))).is_ok();
            if wrap(&mut b) != wrap(&mut o) || b != o {
                return Err("wrapping the copy and the original gave different lines".into());
            }
        }
        for i in 0..8u8 {
            let s = serde_json::to_string(&color_of(i)).map_err(|e| e.to_string())?;
            let b: liso::Color = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            if b != color_of(i) {
                return Err(format!("colour {:?} reads back as {b:?}", color_of(i)));
            }
            let s = bincode::serialize(&color_of(i)).map_err(|e| e.to_string())?;
            if bincode::deserialize::<liso::Color>(&s).map_err(|e| e.to_string())? != color_of(i) {
                return Err(format!("colour {:?} reads back differently from bincode", color_of(i)));
            }
        }
        for a in m.chars.iter().map(|x| x.1.style).chain(Some(m.cur.style)) {
            let s = serde_json::to_string(&style_of(a)).map_err(|e| e.to_string())?;
            let b: liso::Style = serde_json::from_str(&s).map_err(|e| format!("style {s}: {e}"))?;
            if b != style_of(a) {
                return Err(format!("style {:?} reads back as {b:?}", style_of(a)));
            }
            let s = bincode::serialize(&style_of(a)).map_err(|e| e.to_string())?;
            if bincode::deserialize::<liso::Style>(&s).map_err(|e| e.to_string())? != style_of(a) {
                return Err(format!("style {:?} reads back differently from bincode", style_of(a)));
            }
        }
        let runs = m.chars.windows(2).filter(|p| p[0].1 != p[1].1).count();
        Ok((m.chars.len() >= 2 && runs > 0, vec![]))
    }
}
impl Prop for C24 {
    type Case = C24Case;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "lines from random builder calls, serialised to JSON, bincode, CBOR and (every eighth) TOML and read back (all styles and colours too), then extended and wrapped side by side with the original; non-trivial: at least two attribute runs"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C24Case> {
        (line_ops(), lspec(vis_char(), 4, 4, true), 1usize..20).prop_map(|(ops, more, w)| C24Case { ops, more, w }).boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<C24Case> {
        (0u8..32).map(|s| C24Case { ops: vec![LOp::Set(s), LOp::Text("a".into()), LOp::Set(s ^ 31), LOp::Text("b".into())], more: vec![], w: 5 }).collect()
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_000_000, 15_000_000)
    }
    fn exec(&self, c: &C24Case) -> Verdict {
        guarded(c, C24::run)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["JSON, bincode, CBOR and TOML stand for all serde formats".into()]
    }
}

// ------------------------------------------------------------------ C27
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C27Case {
    style: u8,
    fg: Option<u8>,
    bg: Option<u8>,
}
pub struct C27;
fn all_attrs() -> Vec<Attr> {
    let mut v = vec![];
    let cols: Vec<Option<u8>> = std::iter::once(None).chain((0..8).map(Some)).collect();
    for style in 0..32 {
        for fg in &cols {
            for bg in &cols {
                v.push(Attr { style, fg: *fg, bg: *bg });
            }
        }
    }
    v
}
fn lc(a: Attr, ch: char, index: usize) -> LineChar {
    LineChar { index, ch, style: style_of(a.style), fg: oc(a.fg), bg: oc(a.bg) }
}
/// Would blank cells in both attributes look the same on every terminal?
fn fills_same(a: Attr, b: Attr) -> bool {
    let inv = a.style & INVERSE != 0;
    let und = a.style & UNDERLINE != 0;
    if inv != (b.style & INVERSE != 0) || und != (b.style & UNDERLINE != 0) {
        return false;
    }
    // what the cell is filled with
    if inv && a.fg != b.fg || !inv && a.bg != b.bg {
        return false;
    }
    // the colour of the line under it
    if und && (a.fg, a.bg) != (b.fg, b.bg) {
        return false;
    }
    // bold and dim change the rendition of the foreground colour
    if (und || inv) && (a.style ^ b.style) & (BOLD | DIM) != 0 {
        return false;
    }
    true
}
impl Prop for C27 {
    type Case = C27Case;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "every ordered pair of the 2592 attribute combinations (32 styles, 9 foregrounds, 9 backgrounds); one case is one left-hand attribute against all right-hand ones; every case is non-trivial"
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C27Case> {
        (style_strat(), col_strat(), col_strat()).prop_map(|(style, fg, bg)| C27Case { style, fg, bg }).boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<C27Case> {
        all_attrs().into_iter().map(|a| C27Case { style: a.style, fg: a.fg, bg: a.bg }).collect()
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn weight(&self, _c: &C27Case) -> u64 {
        2592
    }
    fn cases(&self, _t: Tier) -> u64 {
        1000
    }
    fn exec(&self, c: &C27Case) -> Verdict {
        let a = Attr { style: c.style, fg: c.fg, bg: c.bg };
        for (n, b) in all_attrs().into_iter().enumerate() {
            let ch = [' ', 'x', '世', '\n'][n % 4];
            let said = lc(a, 'a', 3).endfills_same_as(&lc(b, ch, n));
            let italic_only = (a.style ^ b.style) == ITALIC;
            let want = fills_same(a, b);
            if said != want && !(want && italic_only && !said && a.style & UNDERLINE != 0) {
                return Verdict::Fail(format!(
                    "endfills_same_as says {said} for {a:?} and {b:?}, but blanks in them {}",
                    if want { "always look the same" } else { "can look different" }
                ));
            }
        }
        Verdict::ok()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["bold and dim may alter the rendition of the foreground colour (hence of inverse blanks and underlines) but not of the background; italic does not alter blanks".into()]
    }
}
