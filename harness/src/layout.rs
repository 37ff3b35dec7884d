//! Where a correct terminal application puts the characters of a line.
use crate::emu::{Cell, Emu, Kind, Row};
use crate::lm::{cw, Attr, BOLD, DIM, INVERSE, ML, UNDERLINE};

fn blank(attr: Attr) -> Cell {
    Cell { ch: ' ', comb: String::new(), attr }
}
fn put(row: &mut Row, ch: char, attr: Attr) {
    row.push(Cell { ch, comb: String::new(), attr });
    if cw(ch) == 2 {
        row.push(Cell { ch: '\0', comb: String::new(), attr });
    }
}
fn fill(row: &mut Row, w: usize, attr: Attr) {
    let a = if attr.trails() { attr } else { Attr::default() };
    while row.len() < w {
        row.push(blank(a));
    }
}

/// Rows of a printed line (println and friends).
pub fn printed_rows(m: &ML, w: usize) -> Vec<Row> {
    let mut rows = vec![];
    let mut row: Row = vec![];
    for (ch, attr) in &m.chars {
        if *ch == '\n' {
            fill(&mut row, w, *attr);
            rows.push(std::mem::take(&mut row));
            continue;
        }
        let width = cw(*ch);
        if width == 0 {
            if let Some(c) = row.iter_mut().rev().find(|c| c.ch != '\0') {
                c.comb.push(*ch);
            }
            continue;
        }
        if row.len() + width > w {
            fill(&mut row, w, *attr);
            rows.push(std::mem::take(&mut row));
        }
        put(&mut row, *ch, *attr);
    }
    fill(&mut row, w, m.cur);
    rows.push(row);
    rows
}

pub struct Live {
    pub rows: Vec<Row>,
    /// acceptable cursor positions (column, row)
    pub cursor: Vec<(usize, usize)>,
}
/// Rows of the live area; `cursor` is the index of the character the cursor is on.
pub fn live_rows(m: &ML, w: usize, cursor: Option<usize>) -> Live {
    let mut rows: Vec<Row> = vec![];
    let mut row: Row = vec![];
    let mut implied = false;
    let mut cur = vec![];
    for (i, (ch, attr)) in m.chars.iter().enumerate() {
        let width = cw(*ch);
        if cursor == Some(i) {
            cur.push((row.len(), rows.len()));
        }
        if *ch == '\n' {
            if implied {
                implied = false;
                continue;
            }
            fill(&mut row, w, *attr);
            rows.push(std::mem::take(&mut row));
            continue;
        }
        if width == 0 {
            continue;
        }
        if row.len() + width > w {
            fill(&mut row, w, *attr);
            rows.push(std::mem::take(&mut row));
            if cursor == Some(i) {
                cur.push((0, rows.len()));
            }
        }
        implied = false;
        put(&mut row, *ch, *attr);
        if row.len() >= w {
            rows.push(std::mem::take(&mut row));
            implied = true;
        }
    }
    if cursor == Some(m.chars.len()) {
        cur.push((row.len(), rows.len()));
    }
    if !m.chars.is_empty() || m.touched {
        fill(&mut row, w, m.cur);
    } else {
        fill(&mut row, w, Attr::default());
    }
    rows.push(row);
    Live { rows, cursor: cur }
}

#[derive(Clone, Copy, Debug)]
pub struct Vt {
    pub colors: u8,
    pub white_on_black: bool,
}
impl Vt {
    /// The documented mapping from attributes to Atari palette indices.
    pub fn map(&self, a: Attr) -> (u8, u8) {
        // order: Black Red Green Yellow Blue Cyan Magenta White
        const BRIGHT: [u8; 8] = [8, 1, 2, 13, 4, 9, 12, 0];
        const DIMC: [u8; 8] = [15, 3, 5, 11, 6, 10, 14, 7];
        const FOUR: [u8; 8] = [15, 1, 2, 2, 3, 2, 1, 0];
        let g = |t: &[u8; 8], c: Option<u8>, d: u8| c.map(|c| t[c as usize]).unwrap_or(d);
        let (f, b) = if self.white_on_black {
            match self.colors {
                16 => (g(&BRIGHT, a.fg, 0), g(&DIMC, a.bg, 15)),
                4 => (g(&FOUR, a.fg, 0), g(&FOUR, a.bg, 15)),
                _ => (0, 15),
            }
        } else {
            match self.colors {
                16 => (g(&DIMC, a.fg, 15), g(&BRIGHT, a.bg, 0)),
                4 => (g(&FOUR, a.fg, 15), g(&FOUR, a.bg, 0)),
                _ => (15, 0),
            }
        };
        if a.style & INVERSE != 0 {
            (b, f)
        } else {
            (f, b)
        }
    }
    pub fn row(&self, r: &Row) -> Row {
        let mut out = vec![];
        let mut prev_wide = false;
        for c in r {
            let (f, b) = self.map(c.attr);
            let attr = Attr { style: 0, fg: Some(f), bg: Some(b) };
            let ch = if c.ch == '\0' {
                if prev_wide {
                    '\u{394}'
                } else {
                    ' '
                }
            } else if (c.ch as u32) < 0x80 {
                c.ch
            } else {
                '\u{394}'
            };
            prev_wide = c.ch != '\0';
            out.push(Cell { ch, comb: String::new(), attr });
        }
        out
    }
}

/// Do two cells look the same on every terminal?
pub fn same_cell(kind: Kind, a: &Cell, b: &Cell, comb: bool) -> bool {
    if a.ch != b.ch {
        return false;
    }
    if comb && a.comb != b.comb {
        return false;
    }
    if a.ch == ' ' {
        if kind == Kind::Vt52 {
            return a.attr.bg == b.attr.bg;
        }
        let (x, y) = (a.attr, b.attr);
        let ui = UNDERLINE | INVERSE;
        if x.style & ui != y.style & ui {
            return false;
        }
        let inv = x.style & INVERSE != 0;
        let und = x.style & UNDERLINE != 0;
        let (shown, other) = if inv { ((x.fg, y.fg), (x.bg, y.bg)) } else { ((x.bg, y.bg), (x.fg, y.fg)) };
        if shown.0 != shown.1 {
            return false;
        }
        if und && other.0 != other.1 {
            return false;
        }
        if (und || inv) && (x.style ^ y.style) & (BOLD | DIM) != 0 {
            return false;
        }
        return true;
    }
    a.attr == b.attr
}

fn show(r: &Row) -> String {
    let mut s = String::new();
    let mut last = Attr::default();
    for c in r {
        if c.ch == '\0' {
            continue;
        }
        if c.attr != last {
            s += &format!("<{}{}{}>", c.attr.style, c.attr.fg.map(|x| format!(",f{x}")).unwrap_or_default(), c.attr.bg.map(|x| format!(",b{x}")).unwrap_or_default());
            last = c.attr;
        }
        s.push(c.ch);
        s += &c.comb;
    }
    s
}

/// Compare the whole transcript (scrollback + screen) with what is expected.
/// `prefix` comes before, and is compared as it is.
pub fn compare(emu: &Emu, prefix: &[Row], expected: &[Row], printed: usize, vt: Option<Vt>) -> Result<(), String> {
    let pre = prefix.len();
    let printed = printed + pre;
    let total = emu.scrollback.len() + emu.rows.len();
    if total < expected.len() + pre {
        return Err(format!(
            "only {} of the {} expected rows are on the terminal\n{}",
            total,
            expected.len() + pre,
            emu.dump()
        ));
    }
    let nothing: Row = {
        let b = vec![Cell::blank(); emu.w];
        match vt {
            Some(v) => v.row(&b),
            None => b,
        }
    };
    for i in 0..total {
        let actual = if i < emu.scrollback.len() { &emu.scrollback[i] } else { &emu.rows[i - emu.scrollback.len()] };
        let exp_owned;
        let exp: &Row = match if i < pre { None } else { expected.get(i - pre) } {
            Some(r) => match vt {
                Some(v) => {
                    exp_owned = v.row(r);
                    &exp_owned
                }
                None => r,
            },
            None if i < pre => &prefix[i],
            None => &nothing,
        };
        for x in 0..emu.w {
            if !same_cell(emu.kind, &actual[x], &exp[x], i < printed && vt.is_none()) {
                return Err(format!(
                    "row {i} column {x} is wrong ({})\n expected |{}|\n actual   |{}|\nterminal:\n{}",
                    if i >= expected.len() + pre { "should be blank below everything" } else if i < printed { "printed line" } else { "live area" },
                    show(exp),
                    show(actual),
                    emu.dump()
                ));
            }
        }
    }
    Ok(())
}
