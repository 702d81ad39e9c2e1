//! Recording console used as the observation boundary of a `Machine`.

use async_trait::async_trait;
use endbasic_std::Signal;
use endbasic_std::console::{CharsXY, ClearType, Console, Key, PixelsXY, SizeInPixels};
use endbasic_std::sound::Tone;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

/// One observed console operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Print(String),
    Write(String),
    Clear(ClearType),
    Color(Option<u8>, Option<u8>),
    EnterAlt,
    LeaveAlt,
    HideCursor,
    ShowCursor,
    Locate(u16, u16),
    Move(i16),
    SyncNow,
    SetSync(bool),
    Tone(u64, u128, u128),
    Gfx(String),
}

pub struct VConsole {
    pub keys: VecDeque<Key>,
    /// Keys to return, in turns, once there are no more keys.
    pub idle: Vec<Key>,
    pub idled: usize,
    pub log: Vec<Ev>,
    pub size: CharsXY,
    pub interactive: bool,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    pub sync: bool,
    pub alt: bool,
    pub cursor: bool,
    pub pixels: Option<(u16, u16)>,
    pub glyph: Option<(u16, u16)>,
    /// If set, each write operation decrements it and fails once it gets to zero.
    pub fail_after: Option<u64>,
    pub tx: Option<async_channel::Sender<Signal>>,
    /// Counter of yields to reset when a key is read.
    pub yields: Option<Rc<Cell<u64>>>,
    /// Number of keys consumed so far.
    pub keys_read: u64,
    /// Operations performed so far.
    pub ops: u64,
}

impl Default for VConsole {
    fn default() -> Self {
        Self {
            keys: VecDeque::new(),
            idle: vec![],
            idled: 0,
            log: vec![],
            size: CharsXY::new(80, 24),
            interactive: false,
            fg: None,
            bg: None,
            sync: true,
            alt: false,
            cursor: true,
            pixels: None,
            glyph: None,
            fail_after: None,
            tx: None,
            yields: None,
            keys_read: 0,
            ops: 0,
        }
    }
}

impl VConsole {
    pub fn shared() -> Rc<RefCell<VConsole>> {
        Rc::new(RefCell::new(VConsole::default()))
    }

    pub fn type_line(&mut self, s: &str) {
        for ch in s.chars() {
            self.keys.push_back(Key::Char(ch));
        }
        self.keys.push_back(Key::NewLine);
    }

    /// Text of all `print`/`write` operations, with newlines after prints.
    pub fn text(&self) -> String {
        let mut o = String::new();
        for e in &self.log {
            match e {
                Ev::Print(s) => {
                    o.push_str(s);
                    o.push('\n');
                }
                Ev::Write(s) => o.push_str(s),
                _ => (),
            }
        }
        o
    }

    fn op(&mut self) -> io::Result<()> {
        self.ops += 1;
        if let Some(n) = self.fail_after.as_mut() {
            if *n == 0 {
                return Err(io::Error::other("injected console fault"));
            }
            *n -= 1;
        }
        Ok(())
    }

    fn push(&mut self, e: Ev) -> io::Result<()> {
        self.op()?;
        self.log.push(e);
        Ok(())
    }
}

#[async_trait(?Send)]
impl Console for VConsole {
    fn clear(&mut self, how: ClearType) -> io::Result<()> {
        self.push(Ev::Clear(how))
    }
    fn color(&self) -> (Option<u8>, Option<u8>) {
        (self.fg, self.bg)
    }
    fn set_color(&mut self, fg: Option<u8>, bg: Option<u8>) -> io::Result<()> {
        self.fg = fg;
        self.bg = bg;
        self.push(Ev::Color(fg, bg))
    }
    fn enter_alt(&mut self) -> io::Result<()> {
        self.alt = true;
        self.push(Ev::EnterAlt)
    }
    fn hide_cursor(&mut self) -> io::Result<()> {
        self.cursor = false;
        self.push(Ev::HideCursor)
    }
    fn is_interactive(&self) -> bool {
        self.interactive
    }
    fn leave_alt(&mut self) -> io::Result<()> {
        self.alt = false;
        self.push(Ev::LeaveAlt)
    }
    fn locate(&mut self, pos: CharsXY) -> io::Result<()> {
        if pos.x >= self.size.x || pos.y >= self.size.y {
            panic!("MONITOR: cursor moved outside of the screen: {:?} in {:?}", pos, self.size);
        }
        self.push(Ev::Locate(pos.x, pos.y))
    }
    fn move_within_line(&mut self, off: i16) -> io::Result<()> {
        self.push(Ev::Move(off))
    }
    fn print(&mut self, text: &str) -> io::Result<()> {
        self.push(Ev::Print(text.to_owned()))
    }
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        let k = self.keys.pop_front();
        if k.is_some() {
            self.keys_read += 1;
        }
        if k == Some(Key::Interrupt)
            && let Some(tx) = self.tx.as_ref()
        {
            let _ = tx.send(Signal::Break).await;
        }
        Ok(k)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        if let Some(y) = &self.yields {
            y.set(0);
        }
        match self.keys.pop_front() {
            Some(k) => {
                self.keys_read += 1;
                if k == Key::Interrupt
                    && let Some(tx) = self.tx.as_ref()
                {
                    let _ = tx.send(Signal::Break).await;
                }
                Ok(k)
            }
            None if self.idle.is_empty() => Ok(Key::EofOrDelete),
            None => {
                self.idled += 1;
                Ok(self.idle[self.idled % self.idle.len()])
            }
        }
    }
    fn show_cursor(&mut self) -> io::Result<()> {
        self.cursor = true;
        self.push(Ev::ShowCursor)
    }
    fn size_chars(&self) -> io::Result<CharsXY> {
        Ok(self.size)
    }
    fn size_pixels(&self) -> io::Result<SizeInPixels> {
        match self.pixels {
            Some((w, h)) => Ok(SizeInPixels::new(w, h)),
            None => Err(io::Error::other("No graphics support in this console")),
        }
    }
    fn glyph_size(&self) -> io::Result<SizeInPixels> {
        match self.glyph {
            Some((w, h)) => Ok(SizeInPixels::new(w, h)),
            None => Err(io::Error::other("No graphics support in this console")),
        }
    }
    fn write(&mut self, text: &str) -> io::Result<()> {
        self.push(Ev::Write(text.to_owned()))
    }
    fn bucket_fill(&mut self, xy: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("fill {} {}", xy.x, xy.y)))
    }
    fn draw_circle(&mut self, c: PixelsXY, r: u16) -> io::Result<()> {
        self.push(Ev::Gfx(format!("circle {} {} {}", c.x, c.y, r)))
    }
    fn draw_circle_filled(&mut self, c: PixelsXY, r: u16) -> io::Result<()> {
        self.push(Ev::Gfx(format!("circlef {} {} {}", c.x, c.y, r)))
    }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("line {} {} {} {}", a.x, a.y, b.x, b.y)))
    }
    fn draw_pixel(&mut self, a: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("pixel {} {}", a.x, a.y)))
    }
    fn draw_poly(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        let s: Vec<String> = p.iter().map(|p| format!("{} {}", p.x, p.y)).collect();
        self.push(Ev::Gfx(format!("poly {}", s.join(" "))))
    }
    fn draw_poly_filled(&mut self, p: &[PixelsXY]) -> io::Result<()> {
        let s: Vec<String> = p.iter().map(|p| format!("{} {}", p.x, p.y)).collect();
        self.push(Ev::Gfx(format!("polyf {}", s.join(" "))))
    }
    fn draw_rect(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("rect {} {} {} {}", a.x, a.y, b.x, b.y)))
    }
    fn draw_rect_filled(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("rectf {} {} {} {}", a.x, a.y, b.x, b.y)))
    }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("tri {} {} {} {} {} {}", a.x, a.y, b.x, b.y, c.x, c.y)))
    }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        self.push(Ev::Gfx(format!("trif {} {} {} {} {} {}", a.x, a.y, b.x, b.y, c.x, c.y)))
    }
    fn peek_pixel(&self, xy: PixelsXY) -> io::Result<Option<u8>> {
        Ok(if xy.x < 0 || xy.y < 0 { None } else { Some(((xy.x as i32 * 7 + xy.y as i32) % 256) as u8) })
    }
    fn sync_now(&mut self) -> io::Result<()> {
        self.push(Ev::SyncNow)
    }
    fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
        let p = self.sync;
        self.sync = enabled;
        self.push(Ev::SetSync(enabled))?;
        Ok(p)
    }
    async fn play_tone(&mut self, t: Tone) -> io::Result<()> {
        let s = format!("{:?}", t);
        self.push(Ev::Gfx(format!("tone {}", s)))
    }
}
