//! Terminal emulators: an ANSI one (the sequences crossterm's ANSI back end can
//! produce, and nothing else) and a VT52/Atari one.  Anything unexpected is
//! recorded in `errors`.
use crate::layout::Vt;
use crate::lm::{cw, Attr, BOLD, DIM, INVERSE, ITALIC, UNDERLINE};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    /// '\0' is the right half of a wide character
    pub ch: char,
    pub comb: String,
    pub attr: Attr,
}
impl Cell {
    pub fn blank() -> Cell {
        Cell { ch: ' ', comb: String::new(), attr: Attr::default() }
    }
}
pub type Row = Vec<Cell>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ansi { bce: bool },
    Vt52,
    /// ANSI and VT52 sequences alike (colours of the latter are ignored)
    Either,
}

#[derive(Clone, Debug)]
pub struct Emu {
    pub kind: Kind,
    pub w: usize,
    pub h: usize,
    pub rows: Vec<Row>,
    pub scrollback: Vec<Row>,
    pub cx: usize,
    pub cy: usize,
    pub attr: Attr,
    pub cursor_visible: bool,
    /// automatic wrap at the right margin
    pub autowrap: bool,
    pending_wrap: bool,
    last_cell: Option<(usize, usize)>,
    pub bells: usize,
    pub errors: Vec<String>,
    pub bytes_seen: usize,
    pub escapes_seen: usize,
    state: St,
    buf: Vec<u8>,
    /// VT52: raw colour indices
    pub vfg: u8,
    pub vbg: u8,
    pub raw: Vec<u8>,
    pub clears: usize,
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Ground,
    Esc,
    Csi,
    Utf8(usize),
    VtArg(u8),
    VtY1,
    VtY2(u8),
}

impl Emu {
    pub fn new(kind: Kind, w: usize, h: usize) -> Emu {
        Emu {
            kind,
            w,
            h,
            rows: vec![vec![Cell::blank(); w]; h],
            scrollback: vec![],
            cx: 0,
            cy: 0,
            attr: Attr::default(),
            cursor_visible: true,
            autowrap: true,
            pending_wrap: false,
            last_cell: None,
            bells: 0,
            errors: vec![],
            bytes_seen: 0,
            escapes_seen: 0,
            state: St::Ground,
            buf: vec![],
            vfg: 15,
            vbg: 0,
            raw: vec![],
            clears: 0,
        }
    }
    /// VT52: the colours the terminal is set up with before we start
    pub fn power_on(&mut self, fg: u8, bg: u8) {
        self.vfg = fg;
        self.vbg = bg;
        let c = self.erase_cell();
        for r in &mut self.rows {
            for x in r.iter_mut() {
                *x = c.clone();
            }
        }
    }
    /// The window changes its width; rows are cut off or filled up, not wrapped anew.
    pub fn resize(&mut self, w: usize) {
        let fill = Cell::blank();
        for r in self.scrollback.iter_mut().chain(self.rows.iter_mut()) {
            if w < r.len() && r[w].ch == '\0' && w > 0 {
                r[w - 1].ch = ' ';
                r[w - 1].comb.clear();
            }
            r.resize(w, fill.clone());
        }
        self.w = w;
        self.cx = self.cx.min(w - 1);
        self.pending_wrap = false;
        self.last_cell = None;
    }
    fn err(&mut self, m: String) {
        if self.errors.len() < 10 {
            self.errors.push(m);
        }
    }
    fn erase_cell(&self) -> Cell {
        match self.kind {
            Kind::Ansi { bce: true } => Cell {
                ch: ' ',
                comb: String::new(),
                attr: Attr { style: 0, fg: None, bg: self.attr.bg },
            },
            Kind::Ansi { bce: false } | Kind::Either => Cell::blank(),
            Kind::Vt52 => Cell {
                ch: ' ',
                comb: String::new(),
                attr: Attr { style: 0, fg: Some(self.vfg), bg: Some(self.vbg) },
            },
        }
    }
    fn cur_attr(&self) -> Attr {
        match self.kind {
            Kind::Vt52 => Attr { style: 0, fg: Some(self.vfg), bg: Some(self.vbg) },
            _ => self.attr,
        }
    }
    fn linefeed(&mut self) {
        self.pending_wrap = false;
        if self.cy + 1 < self.h {
            self.cy += 1;
        } else {
            let r = self.rows.remove(0);
            self.scrollback.push(r);
            let c = self.erase_cell();
            self.rows.push(vec![c; self.w]);
        }
        self.last_cell = None;
    }
    /// Before overwriting a cell, blank the other half of a wide character there.
    fn clobber(&mut self, x: usize, y: usize) {
        if self.rows[y][x].ch == '\0' && x > 0 {
            let a = self.rows[y][x - 1].attr;
            self.rows[y][x - 1] = Cell { ch: ' ', comb: String::new(), attr: a };
        }
        if x + 1 < self.w && self.rows[y][x + 1].ch == '\0' {
            let a = self.rows[y][x + 1].attr;
            self.rows[y][x + 1] = Cell { ch: ' ', comb: String::new(), attr: a };
        }
    }
    fn put(&mut self, ch: char) {
        let width = cw(ch);
        if width == 0 {
            if let Some((x, y)) = self.last_cell {
                self.rows[y][x].comb.push(ch);
            }
            return;
        }
        if self.autowrap && self.pending_wrap {
            self.cx = 0;
            self.linefeed();
        }
        if self.cx + width > self.w {
            // a wide character that does not fit: what happens varies between terminals
            if self.autowrap {
                self.cx = 0;
                self.linefeed();
            } else {
                self.err(format!("wide character {ch:?} written across the right margin"));
                return;
            }
        }
        let attr = self.cur_attr();
        let (x, y) = (self.cx, self.cy);
        self.clobber(x, y);
        self.rows[y][x] = Cell { ch, comb: String::new(), attr };
        if width == 2 {
            self.clobber(x + 1, y);
            self.rows[y][x] = Cell { ch, comb: String::new(), attr };
            self.rows[y][x + 1] = Cell { ch: '\0', comb: String::new(), attr };
        }
        self.last_cell = Some((x, y));
        if self.cx + width >= self.w {
            self.cx = self.w - 1;
            self.pending_wrap = true;
        } else {
            self.cx += width;
            self.pending_wrap = false;
        }
    }
    pub fn feed(&mut self, data: &[u8]) {
        self.raw.extend_from_slice(data);
        for &b in data {
            self.bytes_seen += 1;
            self.byte(b);
        }
    }
    fn byte(&mut self, b: u8) {
        match self.state.clone() {
            St::Ground => match b {
                0x1b => {
                    self.escapes_seen += 1;
                    self.state = St::Esc
                }
                b'\r' => {
                    self.cx = 0;
                    self.pending_wrap = false;
                    self.last_cell = None
                }
                b'\n' => self.linefeed(),
                7 => self.bells += 1,
                0x7f if self.kind == Kind::Vt52 => self.put('\u{7f}'.to_placeholder()),
                0x20..=0x7e => self.put(b as char),
                0x00..=0x1f | 0x7f => self.err(format!("raw control byte {b:#04x} written to the terminal")),
                _ => {
                    if self.kind == Kind::Vt52 {
                        self.err(format!("8-bit byte {b:#04x} written to a VT52"));
                    } else if b >= 0xf0 {
                        self.buf = vec![b];
                        self.state = St::Utf8(3)
                    } else if b >= 0xe0 {
                        self.buf = vec![b];
                        self.state = St::Utf8(2)
                    } else if b >= 0xc0 {
                        self.buf = vec![b];
                        self.state = St::Utf8(1)
                    } else {
                        self.err(format!("stray UTF-8 byte {b:#04x}"));
                    }
                }
            },
            St::Utf8(n) => {
                self.buf.push(b);
                if n > 1 {
                    self.state = St::Utf8(n - 1);
                } else {
                    self.state = St::Ground;
                    match std::str::from_utf8(&self.buf).ok().and_then(|s| s.chars().next()) {
                        Some(c) => {
                            if crate::lm::is_ctl(c) {
                                self.err(format!("raw control character {c:?} written to the terminal"));
                            } else {
                                self.put(c)
                            }
                        }
                        None => {
                            let m = format!("invalid UTF-8 {:x?} written to the terminal", self.buf);
                            self.err(m)
                        }
                    }
                }
            }
            St::Esc => {
                if self.kind == Kind::Vt52 {
                    self.vt52_esc(b);
                } else if b == b'[' {
                    self.buf.clear();
                    self.state = St::Csi;
                } else if self.kind == Kind::Either {
                    self.vt52_esc(b);
                } else {
                    self.err(format!("unexpected escape sequence ESC {:?}", b as char));
                    self.state = St::Ground;
                }
            }
            St::Csi => {
                if (0x40..=0x7e).contains(&b) {
                    self.state = St::Ground;
                    let p = std::mem::take(&mut self.buf);
                    self.csi(&p, b);
                } else if (0x20..0x40).contains(&b) {
                    self.buf.push(b);
                } else {
                    self.err(format!("byte {b:#04x} inside a CSI sequence"));
                    self.state = St::Ground;
                }
            }
            St::VtArg(cmd) => {
                self.state = St::Ground;
                let v = b.wrapping_sub(0x20) & 0x0f;
                if !(0x20..0x30).contains(&b) {
                    self.err(format!("VT52 colour argument {b:#04x}"));
                }
                if cmd == b'b' {
                    self.vfg = v
                } else {
                    self.vbg = v
                }
            }
            St::VtY1 => self.state = St::VtY2(b),
            St::VtY2(r) => {
                self.state = St::Ground;
                self.cy = (r.wrapping_sub(0x20) as usize).min(self.h - 1);
                self.cx = (b.wrapping_sub(0x20) as usize).min(self.w - 1);
                self.pending_wrap = false;
                self.last_cell = None;
            }
        }
    }
    fn moved(&mut self) {
        self.pending_wrap = false;
        self.last_cell = None;
    }
    fn erase_eol(&mut self) {
        let c = self.erase_cell();
        let y = self.cy;
        let x = self.cx;
        if self.rows[y][x].ch == '\0' {
            self.clobber(x, y);
        }
        for x in x..self.w {
            self.rows[y][x] = c.clone();
        }
        self.pending_wrap = false;
    }
    fn erase_below(&mut self) {
        self.erase_eol();
        let c = self.erase_cell();
        for y in self.cy + 1..self.h {
            self.rows[y] = vec![c.clone(); self.w];
        }
    }
    fn erase_all(&mut self) {
        let c = self.erase_cell();
        for y in 0..self.h {
            self.rows[y] = vec![c.clone(); self.w];
        }
        self.clears += 1;
    }
    fn csi(&mut self, p: &[u8], f: u8) {
        let s = String::from_utf8_lossy(p).to_string();
        let num = |d: usize| -> usize { s.parse::<usize>().ok().filter(|x| *x != 0).unwrap_or(d) };
        match (f, s.as_str()) {
            (b'l', "?25") => self.cursor_visible = false,
            (b'h', "?25") => self.cursor_visible = true,
            (b'l', "?7") => {
                self.autowrap = false;
                self.pending_wrap = false
            }
            (b'h', "?7") => self.autowrap = true,
            (b'm', _) => self.sgr(&s),
            (b'A', _) => {
                self.cy = self.cy.saturating_sub(num(1));
                self.moved()
            }
            (b'B', _) => {
                self.cy = (self.cy + num(1)).min(self.h - 1);
                self.moved()
            }
            (b'C', _) => {
                self.cx = (self.cx + num(1)).min(self.w - 1);
                self.moved()
            }
            (b'D', _) => {
                self.cx = self.cx.saturating_sub(num(1));
                self.moved()
            }
            (b'E', _) => {
                self.cy = (self.cy + num(1)).min(self.h - 1);
                self.cx = 0;
                self.moved()
            }
            (b'F', _) => {
                self.cy = self.cy.saturating_sub(num(1));
                self.cx = 0;
                self.moved()
            }
            (b'G', _) => {
                self.cx = (num(1) - 1).min(self.w - 1);
                self.moved()
            }
            (b'H', _) => {
                let mut it = s.split(';').map(|x| x.parse::<usize>().unwrap_or(1).max(1));
                self.cy = (it.next().unwrap_or(1) - 1).min(self.h - 1);
                self.cx = (it.next().unwrap_or(1) - 1).min(self.w - 1);
                self.moved();
            }
            (b'J', "" | "0") => self.erase_below(),
            (b'J', "2") => self.erase_all(),
            (b'K', "" | "0") => self.erase_eol(),
            (b'K', "2") => {
                let x = self.cx;
                self.cx = 0;
                self.erase_eol();
                self.cx = x;
            }
            _ => self.err(format!("unexpected control sequence CSI {s}{}", f as char)),
        }
    }
    fn sgr(&mut self, s: &str) {
        let v: Vec<u32> = s.split(';').map(|x| x.parse().unwrap_or(0)).collect();
        let ansi = |n: u32| -> Option<u8> {
            Some(match n {
                5 => 6,
                6 => 5,
                n if n < 8 => n as u8,
                n => 100 + n as u8,
            })
        };
        let mut i = 0;
        while i < v.len() {
            match v[i] {
                0 => self.attr = Attr::default(),
                1 => self.attr.style |= BOLD,
                2 => self.attr.style |= DIM,
                3 => self.attr.style |= ITALIC,
                4 => self.attr.style |= UNDERLINE,
                7 => self.attr.style |= INVERSE,
                22 => self.attr.style &= !(BOLD | DIM),
                23 => self.attr.style &= !ITALIC,
                24 => self.attr.style &= !UNDERLINE,
                27 => self.attr.style &= !INVERSE,
                n @ 30..=37 => self.attr.fg = ansi(n - 30),
                39 => self.attr.fg = None,
                n @ 40..=47 => self.attr.bg = ansi(n - 40),
                49 => self.attr.bg = None,
                k @ (38 | 48) => {
                    if v.get(i + 1) == Some(&5) && v.get(i + 2).is_some() {
                        let c = ansi(v[i + 2]);
                        if k == 38 {
                            self.attr.fg = c
                        } else {
                            self.attr.bg = c
                        }
                        i += 2;
                    } else {
                        self.err(format!("unexpected SGR {s}"));
                        return;
                    }
                }
                _ => {
                    self.err(format!("unexpected SGR {s}"));
                    return;
                }
            }
            i += 1;
        }
    }
    fn vt52_esc(&mut self, b: u8) {
        self.state = St::Ground;
        match b {
            b'A' => {
                self.cy = self.cy.saturating_sub(1);
                self.moved()
            }
            b'B' => {
                self.cy = (self.cy + 1).min(self.h - 1);
                self.moved()
            }
            b'C' => {
                self.cx = (self.cx + 1).min(self.w - 1);
                self.moved()
            }
            b'D' => {
                self.cx = self.cx.saturating_sub(1);
                self.moved()
            }
            b'H' => {
                self.cx = 0;
                self.cy = 0;
                self.moved()
            }
            b'J' => self.erase_below(),
            b'K' => self.erase_eol(),
            b'E' => {
                self.cx = 0;
                self.cy = 0;
                self.moved();
                self.erase_all()
            }
            b'Y' => self.state = St::VtY1,
            b'b' | b'c' => self.state = St::VtArg(b),
            b'e' => self.cursor_visible = true,
            b'f' => self.cursor_visible = false,
            b'v' => self.autowrap = true,
            b'w' => {
                self.autowrap = false;
                self.pending_wrap = false
            }
            // normal / inverse video
            b'q' => (),
            _ => self.err(format!("unexpected VT52 sequence ESC {:?}", b as char)),
        }
    }
    /// Is new text shown in the terminal's own colours, without any styles?
    pub fn attr_is_default(&self, vt: Option<Vt>) -> bool {
        match (self.kind, vt) {
            (Kind::Vt52, Some(v)) => {
                let d = v.map(Attr::default());
                (self.vfg, self.vbg) == d
            }
            _ => self.attr == Attr::default(),
        }
    }
    /// True if in the middle of an escape sequence or character
    pub fn mid_sequence(&self) -> bool {
        self.state != St::Ground
    }
    pub fn row_text(r: &Row) -> String {
        r.iter().filter(|c| c.ch != '\0').map(|c| c.ch).collect()
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for r in &self.scrollback {
            s += &format!("  ~{}~\n", Emu::row_text(r));
        }
        for (y, r) in self.rows.iter().enumerate() {
            let t = Emu::row_text(r);
            if t.trim().is_empty() && y > self.cy {
                continue;
            }
            s += &format!("  |{}|{}\n", t, if y == self.cy { format!(" <- cursor col {}", self.cx) } else { String::new() });
        }
        s
    }
}
trait Ph {
    fn to_placeholder(self) -> char;
}
impl Ph for char {
    fn to_placeholder(self) -> char {
        // the Atari "delta" glyph
        '\u{394}'
    }
}
