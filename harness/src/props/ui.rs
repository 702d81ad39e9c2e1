//! Properties of interactive components: line and program editors.

use crate::rng::Rng;
use crate::runner::*;
use crate::screen::*;
use endbasic_repl::editor::Editor;
use endbasic_std::console::{CharsXY, Console, Key, read_line, read_line_secure};
use endbasic_std::program::Program;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    futures_lite::future::block_on(f)
}

const CHARS: &[char] = &[
    'a', 'b', 'c', 'X', 'Y', '0', '9', ' ', ' ', '"', '\'', ':', 'é', 'ñ', 'ß', 'Ж', '…', '\u{a0}', '\u{2003}', '*', '.', '\\',
];

fn text(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(CHARS)).collect()
}

fn length(r: &mut Rng, w: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 => r.below(4),
        2 => r.below(w + 1),
        3 => w.saturating_sub(r.below(4)),
        4 => w + r.below(4),
        _ => r.below(2 * w + 10),
    }
}

fn show(h: &[Key]) -> String {
    h.iter()
        .map(|k| match k {
            Key::Char(c) => c.to_string(),
            k => format!("<{:?}>", k),
        })
        .collect()
}

// S07 ------------------------------------------------------------------------------------------

struct Line {
    line: Vec<char>,
    pos: usize,
    history: Option<Vec<String>>,
    hpos: usize,
}

enum Step {
    More,
    Done,
    Eof,
    Interrupt,
}

impl Line {
    fn string(&self) -> String {
        self.line.iter().collect()
    }

    fn step(&mut self, k: &Key, width: usize) -> Step {
        match k {
            Key::ArrowLeft => self.pos = self.pos.saturating_sub(1),
            Key::ArrowRight => self.pos = (self.pos + 1).min(self.line.len()),
            Key::Home => self.pos = 0,
            Key::End => self.pos = self.line.len(),
            Key::Backspace => {
                if self.pos > 0 {
                    self.pos -= 1;
                    self.line.remove(self.pos);
                }
            }
            Key::Delete => {
                if self.pos < self.line.len() {
                    self.line.remove(self.pos);
                }
            }
            Key::EofOrDelete => {
                if self.line.is_empty() {
                    return Step::Eof;
                }
                if self.pos < self.line.len() {
                    self.line.remove(self.pos);
                }
            }
            Key::Char(c) => {
                // There is no place to type in the narrowest consoles.
                if width > 0 {
                    self.line.insert(self.pos, *c);
                    self.pos += 1;
                }
            }
            Key::ArrowUp | Key::ArrowDown => {
                let s = self.string();
                if let Some(h) = self.history.as_mut() {
                    let new = if *k == Key::ArrowUp {
                        if self.hpos == 0 {
                            return Step::More;
                        }
                        self.hpos - 1
                    } else {
                        if self.hpos + 1 == h.len() {
                            return Step::More;
                        }
                        self.hpos + 1
                    };
                    h[self.hpos] = s;
                    self.hpos = new;
                    self.line = h[new].chars().collect();
                    self.pos = self.line.len();
                }
            }
            Key::NewLine | Key::CarriageReturn => return Step::Done,
            Key::Interrupt => return Step::Interrupt,
            _ => (),
        }
        Step::More
    }
}

/// Prompt as displayed in a console of the given width.
fn shown_prompt(p: &str, w: usize) -> Vec<char> {
    let v: Vec<char> = p.chars().collect();
    if v.len() < w {
        v
    } else if w >= 5 {
        let mut v: Vec<char> = v[..w - 5].to_vec();
        v.extend("...".chars());
        v
    } else {
        vec![]
    }
}

pub(super) fn random_key(r: &mut Rng) -> Key {
    let fill = r.bool();
    rand_line_key(r, fill)
}

fn rand_line_key(r: &mut Rng, fill: bool) -> Key {
    if fill && r.chance(2, 3) {
        return Key::Char(*r.pick(CHARS));
    }
    match r.below(24) {
        0..=8 => Key::Char(*r.pick(CHARS)),
        9..=11 => Key::ArrowLeft,
        12 => Key::ArrowRight,
        13 => Key::Home,
        14 => Key::End,
        15 | 16 => Key::Backspace,
        17 => Key::Delete,
        18 => Key::EofOrDelete,
        19 | 20 => Key::ArrowUp,
        21 => Key::ArrowDown,
        22 => *r.pick(&[Key::Escape, Key::Tab, Key::PageUp, Key::PageDown, Key::Unknown]),
        _ => {
            if r.chance(1, 3) {
                Key::Interrupt
            } else {
                *r.pick(&[Key::NewLine, Key::CarriageReturn])
            }
        }
    }
}

fn s07(c: &mut Case) -> R {
    let w = *c.rng.pick(&[1, 2, 4, 5, 6, 7, 10, 12, 20, 40, 80]);
    let h = 2 + c.rng.below(5);
    let secure = c.rng.chance(1, 4);
    let with_history = !secure && c.rng.chance(2, 3);
    let mut history: Vec<String> = vec![];
    if with_history {
        for _ in 0..c.rng.few(4) {
            let n = 1 + length(&mut c.rng, w);
            history.push(text(&mut c.rng, n));
        }
    }
    let screen = Screen::shared(w, h);
    let mut ctx = format!("width {} height {} history {:?} secure {}\n", w, h, history, secure);
    for _ in 0..1 + c.rng.below(4) {
        let prompt = match c.rng.below(5) {
            0 => String::new(),
            1 => "> ".to_owned(),
            2 => {
                let n = length(&mut c.rng, w);
                "prompt text ".chars().cycle().take(n).collect()
            }
            _ => {
                let n = length(&mut c.rng, w);
                text(&mut c.rng, n)
            }
        };
        let previous = if secure {
            String::new()
        } else {
            let n = if c.rng.bool() { 0 } else { length(&mut c.rng, w) };
            text(&mut c.rng, n)
        };
        // Other lines of the console have text.
        let y0 = c.rng.below(h);
        {
            let mut s = screen.borrow_mut();
            s.clear(endbasic_std::console::ClearType::All).unwrap();
            for y in 0..h {
                if y != y0 {
                    s.locate(CharsXY::new(0, y as u16)).unwrap();
                    s.write(&"#".repeat(w)).unwrap();
                }
            }
            s.locate(CharsXY::new(0, y0 as u16)).unwrap();
            s.text.clear();
        }
        let p = shown_prompt(&prompt, w);
        let width = w - p.len() - 1;
        let model = Rc::new(RefCell::new(Line {
            line: previous.chars().collect(),
            pos: previous.chars().count(),
            history: if with_history {
                let mut h = history.clone();
                h.push(previous.clone());
                Some(h)
            } else {
                None
            },
            hpos: history.len(),
        }));
        ctx.push_str(&format!("prompt {:?} previous {:?} keys: ", prompt, previous));
        let n = c.rng.few(40);
        let fill = c.rng.bool();
        let mut keys: VecDeque<Key> = (0..n).map(|_| rand_line_key(&mut c.rng, fill)).collect();
        keys.push_back(Key::NewLine);
        let bad: Rc<RefCell<Option<Viol>>> = Rc::default();
        let end: Rc<RefCell<Option<Step>>> = Rc::default();
        let seen = Rc::new(RefCell::new((0u64, ctx.clone())));
        {
            let (model, bad, end, seen) = (model.clone(), bad.clone(), end.clone(), seen.clone());
            let p = p.clone();
            screen.borrow_mut().hook = Some(Box::new(move |sh: &Shown, _| {
                let mut m = model.borrow_mut();
                let mut seen = seen.borrow_mut();
                seen.0 += 1;
                let mut fail = |what: &str, want: String, got: String| {
                    *bad.borrow_mut() = Some(viol(
                        what,
                        format!("{}\n--- line {:?} position {}\n--- oracle {:?}\n--- observed {:?}", seen.1, m.string(), m.pos, want, got),
                    ));
                    Err(io::Error::other("monitor"))
                };
                let (cx, cy) = match sh.cursor {
                    Some(c) => c,
                    None => return fail("cursor is hidden", String::new(), String::new()),
                };
                if cy != y0 || cx < p.len() || cx - p.len() > m.pos {
                    return fail("cursor position", format!("line {} column {}+{}", y0, p.len(), m.pos), format!("{:?}", (cx, cy)));
                }
                let v = m.pos - (cx - p.len());
                let mut want = p.clone();
                let part: Vec<char> = m.line.iter().skip(v).take(width).cloned().collect();
                if secure {
                    want.extend(std::iter::repeat_n('*', part.len()));
                } else {
                    want.extend(part);
                }
                want.resize(w, ' ');
                if sh.rows[y0] != want {
                    return fail("text of the line", want.iter().collect(), sh.rows[y0].iter().collect());
                }
                for y in 0..h {
                    if y != y0 && sh.rows[y].iter().any(|c| *c != '#') {
                        return fail("other lines", "#".repeat(w), sh.rows[y].iter().collect());
                    }
                }
                let k = match keys.pop_front() {
                    Some(k) => k,
                    None => return fail("waits for more keys than needed", String::new(), String::new()),
                };
                seen.1.push_str(&show(&[k]));
                set_input(&seen.1);
                let s = m.step(&k, width);
                if !matches!(s, Step::More) {
                    *end.borrow_mut() = Some(s);
                    keys.clear();
                }
                Ok(k)
            }));
        }
        let res = {
            let mut s = screen.borrow_mut();
            if secure {
                wait(read_line_secure(&mut *s, &prompt))
            } else {
                let hist = if with_history { Some(&mut history) } else { None };
                wait(read_line(&mut *s, &prompt, &previous, hist))
            }
        };
        if let Some(v) = bad.borrow_mut().take() {
            return Err(v);
        }
        ctx = seen.borrow().1.clone();
        ctx.push('\n');
        c.saw("screens compared", seen.borrow().0);
        let m = model.borrow();
        let finished = end.borrow_mut().take();
        let got = match &res {
            Ok(s) => format!("line {:?}", s),
            Err(e) => format!("{:?}", e.kind()),
        };
        let (want, ok) = match finished {
            Some(Step::Done) => (format!("line {:?}", m.string()), true),
            Some(Step::Eof) => ("UnexpectedEof".to_owned(), false),
            Some(Step::Interrupt) => ("Interrupted".to_owned(), false),
            _ => ("more keys".to_owned(), false),
        };
        same("result", &ctx, &got, &want)?;
        c.saw(if ok { "lines" } else { "interruptions" }, 1);
        if let Some(h) = &m.history {
            let mut want = h.clone();
            want.pop();
            if ok && !m.line.is_empty() {
                want.push(m.string());
            }
            same("history", &ctx, &history, &want)?;
        }
        if ok {
            let pos = screen.borrow().position();
            same("position after line", &ctx, &pos, &(0, (y0 + 1).min(h - 1)))?;
        }
        if secure {
            let s = screen.borrow();
            let mut t = s.text.as_str();
            let ps: String = p.iter().collect();
            t = t.strip_prefix(ps.as_str()).unwrap_or(t);
            if t.chars().any(|c| c != '*' && c != ' ' && c != '\n') {
                return Err(viol("secret text shown", format!("{}--- {:?}", ctx, s.text)));
            }
            c.saw("secrets", 1);
        }
    }
    c.distinct(&ctx);
    c.sample(|| ctx.clone());
    Ok(())
}

/// Without a terminal.
fn s07_raw(c: &mut Case) -> R {
    let s = Screen::shared(20, 5);
    s.borrow_mut().interactive = false;
    let n = c.rng.few(30);
    let mut keys: VecDeque<Key> = (0..n).map(|_| rand_line_key(&mut c.rng, true)).collect();
    keys.push_back(Key::NewLine);
    let input = show(keys.make_contiguous());
    c.input(input.clone());
    let mut want: Option<Result<String, io::ErrorKind>> = None;
    let mut line = String::new();
    let mut used = 0;
    for k in &keys {
        used += 1;
        match k {
            Key::Char(c) => line.push(*c),
            Key::Unknown => line.push('?'),
            Key::Backspace => {
                line.pop();
            }
            Key::NewLine | Key::CarriageReturn => {
                want = Some(Ok(line.clone()));
                break;
            }
            Key::EofOrDelete => {
                want = Some(Err(io::ErrorKind::UnexpectedEof));
                break;
            }
            Key::Interrupt => {
                want = Some(Err(io::ErrorKind::Interrupted));
                break;
            }
            _ => (),
        }
    }
    s.borrow_mut().hook = Some(Box::new(move |_, _| Ok(keys.pop_front().unwrap())));
    let mut h = vec!["x".to_owned()];
    let got = {
        let mut s = s.borrow_mut();
        let r = wait(read_line(&mut *s, "prompt", "previous", Some(&mut h)));
        if wait(read_line_secure(&mut *s, "p")).is_ok() {
            return Err(viol("secret read without a terminal", input));
        }
        r.map_err(|e| e.kind())
    };
    same("raw line", &input, &Some(got), &want)?;
    same("keys read", &input, &s.borrow().st.keys_read, &used)?;
    same("output", &input, &s.borrow().text, &String::new())?;
    c.saw("raw lines", 1);
    c.distinct(&input);
    Ok(())
}

// S08 ------------------------------------------------------------------------------------------

/// Reference text editor.
#[derive(Clone, Default)]
pub struct Ed {
    pub name: Option<String>,
    pub lines: Vec<Vec<char>>,
    pub dirty: bool,
    pub line: usize,
    pub col: usize,
    sticky: usize,
}

impl Ed {
    pub fn load(&mut self, name: Option<&str>, text: &str) {
        *self = Ed {
            name: name.map(str::to_owned),
            lines: text.lines().map(|l| l.chars().collect()).collect(),
            ..Default::default()
        };
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s.extend(l.iter());
            s.push('\n');
        }
        s
    }

    pub fn start(&mut self) {
        if self.lines.is_empty() {
            self.lines.push(vec![]);
        }
    }

    fn vertical(&mut self, to: usize) {
        self.line = to.min(self.lines.len() - 1);
        self.col = self.sticky.min(self.lines[self.line].len());
    }

    /// Returns true if the editor exits.
    pub fn step(&mut self, k: &Key, height: usize) -> bool {
        let indent = self.lines[self.line].iter().take_while(|c| **c == ' ').count();
        let len = self.lines[self.line].len();
        let page = height - 2;
        match k {
            Key::Escape | Key::Interrupt => return true,
            Key::ArrowUp => self.vertical(self.line.saturating_sub(1)),
            Key::ArrowDown => self.vertical(self.line + 1),
            Key::PageUp => self.vertical(self.line.saturating_sub(page)),
            Key::PageDown => self.vertical(self.line + page),
            Key::ArrowLeft => {
                if self.col > 0 {
                    self.col -= 1;
                    self.sticky = self.col;
                }
            }
            Key::ArrowRight => {
                if self.col < len {
                    self.col += 1;
                    self.sticky = self.col;
                }
            }
            Key::Home => {
                self.col = if self.col == indent { 0 } else { indent };
                self.sticky = self.col;
            }
            Key::End => {
                self.col = len;
                self.sticky = self.col;
            }
            Key::Backspace => {
                if self.col > 0 {
                    let to = if self.col <= indent { (self.col - 1) / 4 * 4 } else { self.col - 1 };
                    self.lines[self.line].drain(to..self.col);
                    self.col = to;
                    self.dirty = true;
                } else if self.line > 0 {
                    let l = self.lines.remove(self.line);
                    self.line -= 1;
                    self.col = self.lines[self.line].len();
                    self.lines[self.line].extend(l);
                    self.dirty = true;
                }
                self.sticky = self.col;
            }
            Key::Delete | Key::EofOrDelete => {
                if self.col < len {
                    self.lines[self.line].remove(self.col);
                    self.dirty = true;
                } else if self.line + 1 < self.lines.len() {
                    let l = self.lines.remove(self.line + 1);
                    self.lines[self.line].extend(l);
                    self.dirty = true;
                }
            }
            Key::Char(c) => {
                self.lines[self.line].insert(self.col, *c);
                self.col += 1;
                self.sticky = self.col;
                self.dirty = true;
            }
            Key::NewLine | Key::CarriageReturn => {
                let mut l: Vec<char> = self.lines[self.line].iter().take_while(|c| c.is_whitespace()).cloned().collect();
                let n = l.len();
                l.extend(self.lines[self.line].split_off(self.col));
                self.lines.insert(self.line + 1, l);
                self.line += 1;
                self.col = n;
                self.sticky = n;
                self.dirty = true;
            }
            Key::Tab => {
                let n = 4 - self.col % 4;
                for _ in 0..n {
                    self.lines[self.line].insert(self.col, ' ');
                }
                self.col += n;
                self.sticky = self.col;
                self.dirty = true;
            }
            Key::Unknown => (),
        }
        false
    }

    /// Compares what is visible with what should be.
    pub fn check(&self, sh: &Shown) -> Result<(), (String, String, String)> {
        let (w, h) = (sh.rows[0].len(), sh.rows.len());
        let Some((cx, cy)) = sh.cursor else {
            return Err(("cursor is hidden".into(), String::new(), String::new()));
        };
        if cy + 1 >= h || cy > self.line || cx > self.col {
            return Err(("cursor position".into(), format!("line {} column {}", self.line, self.col), format!("{:?}", (cx, cy))));
        }
        let (top, left) = (self.line - cy, self.col - cx);
        for y in 0..h - 1 {
            let mut want: Vec<char> = match self.lines.get(top + y) {
                Some(l) => l.iter().skip(left).take(w).map(|c| if c.is_control() { ' ' } else { *c }).collect(),
                None => vec![],
            };
            want.resize(w, ' ');
            // All kinds of blanks look the same.
            if sh.rows[y].iter().zip(&want).any(|(a, b)| a != b && !(a.is_whitespace() && b.is_whitespace())) {
                return Err((
                    "text on screen".into(),
                    format!("row {}: {:?}", y, want.iter().collect::<String>()),
                    format!("{:?}", sh.rows[y].iter().collect::<String>()),
                ));
            }
        }
        let status: String = sh.rows[h - 1].iter().collect();
        let long = format!("Ln {}, Col {} ", self.line + 1, self.col + 1);
        let short = format!(" {}:{} ", self.line + 1, self.col + 1);
        if w > short.len() && !status.contains(&long) && !status.contains(&short) {
            return Err(("status line".into(), format!("{:?} or {:?}", long, short), status));
        }
        if status.contains(&long) {
            let name = format!(" {}{} ", self.name.as_deref().unwrap_or("<NO NAME>"), if self.dirty { "*" } else { "" });
            if !status.contains(&name) {
                return Err(("status line".into(), name, status));
            }
        }
        Ok(())
    }
}

pub fn rand_edit_key(r: &mut Rng, typing: bool) -> Key {
    if typing && r.chance(1, 2) {
        return Key::Char(*r.pick(CHARS));
    }
    match r.below(24) {
        0..=3 => Key::Char(*r.pick(CHARS)),
        4 => Key::Char(' '),
        5 | 6 => Key::NewLine,
        7 => *r.pick(&[Key::CarriageReturn, Key::Unknown]),
        8 | 9 => Key::Tab,
        10 | 11 => Key::Backspace,
        12 => Key::Delete,
        13 => Key::EofOrDelete,
        14 | 15 => Key::ArrowUp,
        16 | 17 => Key::ArrowDown,
        18 => Key::ArrowLeft,
        19 => Key::ArrowRight,
        20 => Key::Home,
        21 => Key::End,
        22 => Key::PageUp,
        _ => Key::PageDown,
    }
}

pub fn rand_text(r: &mut Rng, w: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.few(14) {
        if r.chance(1, 3) {
            s.push_str(&" ".repeat(r.below(10)));
        }
        let n = length(r, w);
        s.push_str(&text(r, n));
        if r.chance(1, 20) {
            s.push('\t');
        }
        s.push_str(r.pick(&["\n", "\n", "\n", "\r\n", "\n\n"]));
    }
    if r.chance(1, 4) {
        s.push_str("no newline");
    }
    s
}

/// Console hook that drives the model in lockstep with the editor.
pub fn edit_hook(model: Rc<RefCell<Ed>>, mut keys: VecDeque<Key>, bad: Rc<RefCell<Option<Viol>>>, ctx: Rc<RefCell<String>>, seen: Rc<RefCell<u64>>, resume: Option<Hook>) -> Hook {
    let mut resume = resume;
    Box::new(move |sh: &Shown, st: &ScreenState| {
        if !st.alt
            && let Some(f) = resume.as_mut()
        {
            return f(sh, st);
        }
        let mut m = model.borrow_mut();
        m.start();
        *seen.borrow_mut() += 1;
        if let Err((what, want, got)) = m.check(sh) {
            *bad.borrow_mut() = Some(viol(
                what,
                format!("{}\n--- line {} column {}\n--- oracle {}\n--- observed {}", ctx.borrow(), m.line, m.col, want, got),
            ));
            return Err(io::Error::other("monitor"));
        }
        let k = keys.pop_front().unwrap_or(Key::Escape);
        ctx.borrow_mut().push_str(&show(&[k]));
        set_input(&ctx.borrow());
        m.step(&k, sh.rows.len());
        Ok(k)
    })
}

fn s08(c: &mut Case) -> R {
    let mut ed = Editor::default();
    let model = Rc::new(RefCell::new(Ed::default()));
    let ctx = Rc::new(RefCell::new(String::new()));
    let seen = Rc::new(RefCell::new(0));
    let mut size = (0, 0);
    for _ in 0..1 + c.rng.below(4) {
        if size.0 == 0 || c.rng.chance(1, 3) {
            size = (
                *c.rng.pick(&[1, 2, 4, 8, 9, 12, 20, 30, 40, 60, 80]),
                *c.rng.pick(&[2, 3, 4, 5, 6, 10, 24]),
            );
            if c.rng.chance(1, 20) {
                size.1 = 1;
            }
        }
        match c.rng.below(4) {
            0 | 1 => {
                let t = rand_text(&mut c.rng, size.0);
                let name = match c.rng.below(3) {
                    0 => None,
                    1 => Some("MEMORY:/foo.bas".to_owned()),
                    _ => Some(text(&mut c.rng, 12)),
                };
                ctx.borrow_mut().push_str(&format!("load {:?} {:?}\n", name, t));
                ed.load(name.as_deref(), &t);
                model.borrow_mut().load(name.as_deref(), &t);
            }
            2 => {
                ctx.borrow_mut().push_str("set_name\n");
                ed.set_name("saved.bas");
                model.borrow_mut().name = Some("saved.bas".to_owned());
                model.borrow_mut().dirty = false;
            }
            _ => (),
        }
        ctx.borrow_mut().push_str(&format!("edit at {:?}: ", size));
        let screen = Screen::shared(size.0, size.1);
        let sync = c.rng.bool();
        screen.borrow_mut().set_sync(sync).unwrap();
        let n = c.rng.few(60);
        let typing = c.rng.bool();
        let mut keys: VecDeque<Key> = (0..n).map(|_| rand_edit_key(&mut c.rng, typing)).collect();
        keys.push_back(*c.rng.pick(&[Key::Escape, Key::Interrupt]));
        let bad = Rc::new(RefCell::new(None));
        screen.borrow_mut().hook = Some(edit_hook(model.clone(), keys, bad.clone(), ctx.clone(), seen.clone(), None));
        let res = wait(ed.edit(&mut *screen.borrow_mut()));
        if let Some(v) = bad.borrow_mut().take() {
            return Err(v);
        }
        ctx.borrow_mut().push('\n');
        let ctx = ctx.borrow().clone();
        if size.1 < 2 && res.is_err() {
            // There is no room for the text.
            same("text after failing to edit", &ctx, &ed.text(), &model.borrow().text())?;
            same("alternate screen", &ctx, &screen.borrow().st.alt, &false)?;
            same("video syncing", &ctx, &screen.borrow().st.sync, &sync)?;
            c.saw("screens too small", 1);
            continue;
        }
        if let Err(e) = res {
            return Err(viol("editor failed", format!("{}--- {}", ctx, e)));
        }
        let m = model.borrow();
        same("text after editing", &ctx, &ed.text(), &m.text())?;
        same("dirty flag", &ctx, &ed.is_dirty(), &m.dirty)?;
        same("name", &ctx, &ed.name().map(str::to_owned), &m.name)?;
        let s = screen.borrow();
        same("alternate screen", &ctx, &s.st.alt, &false)?;
        same("video syncing", &ctx, &s.st.sync, &sync)?;
        c.saw("sessions", 1);
        // Loading what was saved gives the same text.
        let mut again = Editor::default();
        let t = ed.text();
        again.load(None, &t);
        same("text after loading again", &ctx, &again.text(), &t)?;
    }
    c.saw("screens compared", *seen.borrow());
    c.distinct(&model.borrow().text());
    c.sample(|| ctx.borrow().clone());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S07",
            level: "exploration",
            rule: "Random key presses while reading lines, with any prompt, previous text, history and width; the emulated screen, result and history are compared with a model before every key; distinct = different sessions",
            assumptions: &["every character takes one cell"],
            require: &[("screens compared", 10_000), ("lines", 1000), ("interruptions", 100), ("secrets", 100), ("raw lines", 100)],
            stages: vec![
                Stage { name: "lines", quick: 600_000, thorough: 2_000_000, f: s07 },
                Stage { name: "raw", quick: 150_000, thorough: 300_000, f: s07_raw },
            ],
            probes: vec![],
        },
        Prop {
            id: "S08",
            level: "exploration",
            rule: "Random key presses in the program editor, over random programs and screen sizes; the emulated screen is compared with a model before every key and the text, name and modification mark after every session; distinct = different final texts",
            assumptions: &["every character takes one cell"],
            require: &[("screens compared", 10_000), ("sessions", 1000)],
            stages: vec![Stage { name: "sessions", quick: 200_000, thorough: 2_000_000, f: s08 }],
            probes: vec![],
        },
    ]
}
