//! In-memory LCDs used as the observation boundary of the graphical console.

use async_trait::async_trait;
use endbasic_std::console::RGB;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{GraphicsConsole, Key, SizeInPixels};
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, FONT_16X16, FONT_VGA8X16, Font};
use endbasic_std::gfx::lcd::{AsByteSlice, BufferedLcd, Lcd, LcdSize, LcdXY, RGB565Pixel};
use endbasic_std::sound::{AudioOps, Tone};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

/// What the panel shows.
#[derive(Clone, PartialEq)]
pub struct Panel {
    pub w: usize,
    pub h: usize,
    pub px: Vec<RGB>,
    pub updates: u64,
    /// If set, fail after this many updates.
    pub fail_after: Option<u64>,
}

impl Panel {
    pub fn at(&self, x: usize, y: usize) -> RGB {
        self.px[y * self.w + x]
    }
}

pub type Shared = Rc<RefCell<Panel>>;

fn update(p: &mut Panel, a: LcdXY, b: LcdXY, stride: usize, data: &[u8], decode: fn(&[u8]) -> RGB) -> io::Result<()> {
    if a.x > b.x || a.y > b.y || b.x >= p.w || b.y >= p.h {
        panic!("MONITOR: panel update outside of the panel: {},{} {},{}", a.x, a.y, b.x, b.y);
    }
    let (w, h) = (b.x - a.x + 1, b.y - a.y + 1);
    if data.len() != w * h * stride {
        panic!("MONITOR: panel update of {}x{} with {} bytes", w, h, data.len());
    }
    p.updates += 1;
    if let Some(n) = p.fail_after.as_mut() {
        if *n == 0 {
            return Err(io::Error::other("injected panel fault"));
        }
        *n -= 1;
    }
    for y in 0..h {
        for x in 0..w {
            let o = (y * w + x) * stride;
            p.px[(a.y + y) * p.w + a.x + x] = decode(&data[o..o + stride]);
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub struct Px888([u8; 3]);

impl AsByteSlice for Px888 {
    fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

pub struct Lcd888(pub Shared);

impl Lcd for Lcd888 {
    type Pixel = Px888;
    fn info(&self) -> (LcdSize, usize) {
        let p = self.0.borrow();
        (LcdSize { width: p.w, height: p.h }, 3)
    }
    fn decode(&self, p: &[u8]) -> RGB {
        (p[0], p[1], p[2])
    }
    fn encode(&self, c: RGB) -> Px888 {
        Px888([c.0, c.1, c.2])
    }
    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        update(&mut self.0.borrow_mut(), a, b, 3, data, |p| (p[0], p[1], p[2]))
    }
}

pub fn enc565(c: RGB) -> [u8; 2] {
    let v = ((c.0 as u16 >> 3) << 11) | ((c.1 as u16 >> 2) << 5) | (c.2 as u16 >> 3);
    v.to_be_bytes()
}

pub fn dec565(p: &[u8]) -> RGB {
    let v = u16::from_be_bytes([p[0], p[1]]);
    (((v >> 11) << 3) as u8, (((v >> 5) & 63) << 2) as u8, ((v & 31) << 3) as u8)
}

pub struct Lcd565(pub Shared);

impl Lcd for Lcd565 {
    type Pixel = RGB565Pixel;
    fn info(&self) -> (LcdSize, usize) {
        let p = self.0.borrow();
        (LcdSize { width: p.w, height: p.h }, 2)
    }
    fn decode(&self, p: &[u8]) -> RGB {
        dec565(p)
    }
    fn encode(&self, c: RGB) -> RGB565Pixel {
        RGB565Pixel(enc565(c))
    }
    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        update(&mut self.0.borrow_mut(), a, b, 2, data, dec565)
    }
}

/// The palette of 256 colors of ANSI terminals.
pub fn palette(c: u8) -> RGB {
    const LEVELS: [u8; 6] = [0, 95, 135, 175, 215, 255];
    match c {
        7 => (192, 192, 192),
        8 => (128, 128, 128),
        0..=15 => {
            let on = if c < 8 { 128 } else { 255 };
            let f = |bit: u8| if c & bit != 0 { on } else { 0 };
            (f(1), f(2), f(4))
        }
        16..=231 => {
            let f = |div: u8| LEVELS[usize::from((c - 16) / div % 6)];
            (f(36), f(6), f(1))
        }
        _ => {
            let g = 8 + 10 * (c - 232);
            (g, g, g)
        }
    }
}

/// Color of the panel for a color index.
pub fn shown(c: u8, depth565: bool) -> RGB {
    let rgb = palette(c);
    if depth565 { dec565(&enc565(rgb)) } else { rgb }
}

/// Keys to type and keys to return, in turns, after them.
#[derive(Default)]
pub struct Keys(pub Rc<RefCell<VecDeque<Key>>>, pub Rc<RefCell<VecDeque<Key>>>);

#[async_trait(?Send)]
impl InputOps for Keys {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.borrow_mut().pop_front())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        if let Some(k) = self.0.borrow_mut().pop_front() {
            return Ok(k);
        }
        let mut idle = self.1.borrow_mut();
        match idle.pop_front() {
            Some(k) => {
                idle.push_back(k);
                Ok(k)
            }
            None => Ok(Key::EofOrDelete),
        }
    }
}

#[derive(Default)]
pub struct Tones(pub Rc<RefCell<Vec<Tone>>>);

#[async_trait(?Send)]
impl AudioOps for Tones {
    async fn play_tone(&mut self, t: Tone) -> io::Result<()> {
        self.0.borrow_mut().push(t);
        Ok(())
    }
}

pub const FONTS: [&Font; 3] = [&FONT_5X8, &FONT_VGA8X16, &FONT_16X16];

pub struct Gc {
    pub con: Rc<RefCell<dyn endbasic_std::console::Console>>,
    pub panel: Shared,
    pub keys: Rc<RefCell<VecDeque<Key>>>,
    pub idle: Rc<RefCell<VecDeque<Key>>>,
    pub tones: Rc<RefCell<Vec<Tone>>>,
    pub font: &'static Font,
    pub w: usize,
    pub h: usize,
    pub deep: bool,
}

/// Creates a graphical console on an in-memory panel.  `deep` selects 24-bit color.
pub fn console(w: usize, h: usize, font: &'static Font, deep: bool, fg: Option<u8>, bg: Option<u8>) -> Gc {
    try_console(w, h, font, deep, fg, bg).unwrap()
}

pub fn try_console(
    w: usize,
    h: usize,
    font: &'static Font,
    deep: bool,
    fg: Option<u8>,
    bg: Option<u8>,
) -> std::io::Result<Gc> {
    let panel = Rc::new(RefCell::new(Panel { w, h, px: vec![(1, 2, 3); w * h], updates: 0, fail_after: None }));
    let keys = Keys::default();
    let tones = Tones::default();
    let (k, idle, t) = (keys.0.clone(), keys.1.clone(), tones.0.clone());
    let con: Rc<RefCell<dyn endbasic_std::console::Console>> = if deep {
        let l = BufferedLcd::new(Lcd888(panel.clone()), font);
        Rc::new(RefCell::new(GraphicsConsole::new(keys, l, tones, fg, bg)?))
    } else {
        let l = BufferedLcd::new(Lcd565(panel.clone()), font);
        Rc::new(RefCell::new(GraphicsConsole::new(keys, l, tones, fg, bg)?))
    };
    Ok(Gc { con, panel, keys: k, idle, tones: t, font, w, h, deep })
}

impl Gc {
    pub fn size(&self) -> SizeInPixels {
        SizeInPixels::new(self.w as u16, self.h as u16)
    }
}
