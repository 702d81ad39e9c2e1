//! D01: what the ST7735S driver sends to the chip, and what its buttons type.

use crate::rng::Rng;
use crate::runner::{Case, Prop, R, Stage, same, viol};
use async_trait::async_trait;
use endbasic_st7735s::St7735sConsoleFactory;
use endbasic_std::console::graphics::InputOps;
use endbasic_std::console::{
    CharsXY, ClearType, Console, ConsoleFactory, ConsoleSpec, GraphicsConsole, Key, PixelsXY, RGB,
};
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, FONT_16X16, FONT_VGA8X16, Font, Fonts};
use endbasic_std::gfx::lcd::{BufferedLcd, Lcd, LcdSize, LcdXY, RGB565Pixel};
use endbasic_std::gpio::{Pin, PinMode, Pins};
use endbasic_std::sound::NoopAudioOps;
use endbasic_std::spi::{SpiBus, SpiMode};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const N: usize = 128;
const BUTTONS: [(u8, Key); 8] = [
    (6, Key::ArrowUp),
    (19, Key::ArrowDown),
    (5, Key::ArrowLeft),
    (26, Key::ArrowRight),
    (13, Key::NewLine),
    (21, Key::Char('1')),
    (20, Key::Char('2')),
    (16, Key::Char('3')),
];

/// Emulation of the chip and of the wires around it.
struct Chip {
    levels: [Option<bool>; 64],
    modes: BTreeMap<u8, String>,
    cmd: u8,
    params: Vec<u8>,
    cols: (usize, usize),
    rows: (usize, usize),
    at: (usize, usize),
    left: usize,
    half: Option<u8>,
    awake: bool,
    on: bool,
    resets: u64,
    format: u8,
    scan: u8,
    gram: Vec<u16>,
    pixels: u64,
    writes: u64,
    partial: bool,
    rng: Rng,
    /// Fails the write after these many.
    fail: Option<u64>,
    failed: u64,
    max: usize,
    /// Presses to report for every button; each lasts a single poll.
    presses: BTreeMap<u8, u64>,
    read_fails: u64,
    polls: u64,
    errors: Vec<String>,
}

type Wire = Arc<Mutex<Chip>>;

impl Chip {
    fn err(&mut self, s: String) {
        if self.errors.len() < 5 {
            self.errors.push(s);
        }
    }

    fn level(&self, p: u8) -> Option<bool> {
        self.levels[p as usize]
    }

    fn reset(&mut self) {
        self.awake = false;
        self.on = false;
        self.format = 6;
        self.scan = 0;
        self.cmd = 0;
        self.left = 0;
        self.resets += 1;
    }

    fn byte(&mut self, b: u8) {
        if self.level(8) != Some(false) {
            self.err("write while the chip is not selected".into());
        }
        if self.level(27) != Some(true) || self.resets == 0 {
            self.err("write while the chip is not out of its reset".into());
        }
        match self.level(25) {
            None => self.err("write without selecting commands or data".into()),
            Some(false) => {
                if self.left > 0 && self.failed == 0 {
                    self.err(format!("{} pixels missing in the window", self.left));
                }
                if self.half.take().is_some() && self.failed == 0 {
                    self.err("half a pixel".into());
                }
                self.left = 0;
                self.cmd = b;
                self.params.clear();
                match b {
                    0x11 => self.awake = true,
                    0x10 => self.awake = false,
                    0x29 => self.on = true,
                    0x28 => self.on = false,
                    0x01 => self.reset(),
                    0x2c => {
                        self.at = (self.cols.0, self.rows.0);
                        self.left = (self.cols.1 + 1 - self.cols.0) * (self.rows.1 + 1 - self.rows.0);
                        if !self.awake || !self.on || self.level(24) != Some(true) {
                            self.err("drawing while the display is off".into());
                        }
                        if self.format != 5 || self.scan != 0x68 {
                            self.err(format!("drawing in format {:x} {:x}", self.format, self.scan));
                        }
                    }
                    _ => (),
                }
            }
            Some(true) => self.data(b),
        }
    }

    fn data(&mut self, b: u8) {
        if self.cmd == 0x2c {
            let Some(h) = self.half.take() else {
                self.half = Some(b);
                return;
            };
            if self.left == 0 {
                self.err("too many pixels for the window".into());
                return;
            }
            let (x, y) = self.at;
            self.gram[(y - 2) * N + x - 1] = (h as u16) << 8 | b as u16;
            self.pixels += 1;
            self.left -= 1;
            self.at = if x == self.cols.1 { (self.cols.0, y + 1) } else { (x + 1, y) };
            return;
        }
        self.params.push(b);
        let n = self.params.len();
        match self.cmd {
            0x3a => self.format = b & 7,
            0x36 => self.scan = b,
            0x2a | 0x2b if n == 4 => {
                let p = &self.params;
                let (s, e) =
                    ((p[0] as usize) << 8 | p[1] as usize, (p[2] as usize) << 8 | p[3] as usize);
                let off = if self.cmd == 0x2a { 1 } else { 2 };
                if s < off || e < s || e >= off + N {
                    self.err(format!("window {:x} {} {}", self.cmd, s, e));
                } else if self.cmd == 0x2a {
                    self.cols = (s, e);
                } else {
                    self.rows = (s, e);
                }
            }
            0x2a | 0x2b if n > 4 => self.err("too many parameters".into()),
            _ => (),
        }
    }
}

struct Gpio(Wire);

impl Pins for Gpio {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        let mut c = self.0.lock().unwrap();
        let m = match mode {
            PinMode::Out => "out",
            PinMode::InPullUp => "up",
            PinMode::InPullDown => "down",
            PinMode::In => "in",
        };
        c.modes.insert(pin.0, m.to_owned());
        Ok(())
    }
    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.0.lock().unwrap().modes.remove(&pin.0);
        Ok(())
    }
    fn clear_all(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().modes.clear();
        Ok(())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        let mut c = self.0.lock().unwrap();
        c.polls += 1;
        if c.modes.get(&pin.0).map(|s| s.as_str()) != Some("up") {
            c.err(format!("read of {:?}, which is not pulled up", pin));
        }
        if c.read_fails > 0 {
            c.read_fails -= 1;
            return Err(io::Error::other("injected pin fault"));
        }
        match c.presses.get_mut(&pin.0) {
            Some(n) if *n > 0 => {
                *n -= 1;
                Ok(false)
            }
            _ => Ok(true),
        }
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        let mut c = self.0.lock().unwrap();
        if c.modes.get(&pin.0).map(|s| s.as_str()) != Some("out") {
            c.err(format!("write to {:?}, which is not an output", pin));
        }
        if pin.0 == 27 && !v {
            c.reset();
        }
        c.levels[pin.0 as usize] = Some(v);
        Ok(())
    }
}

struct Bus(Wire);

impl io::Write for Bus {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        let mut c = self.0.lock().unwrap();
        c.writes += 1;
        if data.len() > c.max {
            let s = format!("transfer of {} bytes", data.len());
            c.err(s);
        }
        if let Some(n) = c.fail {
            if n == 0 {
                c.fail = None;
                c.failed += 1;
                return Err(io::Error::other("injected bus fault"));
            }
            c.fail = Some(n - 1);
        }
        let odds = if c.max > 64 { 3 } else { 12 };
        let n = if c.partial && c.rng.chance(1, odds) { c.rng.below(data.len() + 1) } else { data.len() };
        for b in &data[..n] {
            c.byte(*b);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl SpiBus for Bus {
    fn max_size(&self) -> usize {
        self.0.lock().unwrap().max
    }
}

struct Keyboard(async_channel::Receiver<Key>);

#[async_trait(?Send)]
impl InputOps for Keyboard {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(self.0.try_recv().ok())
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        self.0.recv().await.map_err(|e| io::Error::other(e.to_string()))
    }
}

/// The panel that the chip should show.
struct Plain(Rc<RefCell<Vec<u16>>>);

impl Lcd for Plain {
    type Pixel = RGB565Pixel;
    fn info(&self) -> (LcdSize, usize) {
        (LcdSize { width: N, height: N }, 2)
    }
    fn decode(&self, p: &[u8]) -> RGB {
        let v = (p[0] as u32) << 8 | p[1] as u32;
        let wide = |v: u32, bits: u32| ((v << (8 - bits)) | (v >> (2 * bits - 8))) as u8;
        (wide(v >> 11, 5), wide(v >> 5 & 63, 6), wide(v & 31, 5))
    }
    fn encode(&self, c: RGB) -> RGB565Pixel {
        let v = (c.0 as u32 / 8) * 2048 + (c.1 as u32 / 4) * 32 + c.2 as u32 / 8;
        RGB565Pixel([(v / 256) as u8, (v % 256) as u8])
    }
    fn set_data(&mut self, a: LcdXY, b: LcdXY, data: &[u8]) -> io::Result<()> {
        let mut g = self.0.borrow_mut();
        let w = b.x - a.x + 1;
        for (i, p) in data.chunks(2).enumerate() {
            g[(a.y + i / w) * N + a.x + i % w] = (p[0] as u16) << 8 | p[1] as u16;
        }
        Ok(())
    }
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap()
}

fn pt(r: &mut Rng) -> PixelsXY {
    let v = |r: &mut Rng| match r.below(8) {
        0 => r.range(-300, 400) as i16,
        1 => *r.pick(&[-1, 0, 127, 128, i16::MIN, i16::MAX]),
        _ => r.range(0, 127) as i16,
    };
    PixelsXY::new(v(r), v(r))
}

type Con = Rc<RefCell<dyn Console>>;

/// Applies one operation and describes its outcome.
fn apply(con: &Con, r: &mut Rng, desc: &mut String) -> String {
    let c = &mut *con.borrow_mut();
    let ok = |r: io::Result<()>| if r.is_ok() { "ok".to_owned() } else { "error".to_owned() };
    let k = r.below(22);
    let size = c.size_chars().unwrap();
    *desc = format!("op {}", k);
    match k {
        0 => ok(c.set_color(
            if r.chance(1, 5) { None } else { Some(r.below(256) as u8) },
            if r.chance(1, 5) { None } else { Some(r.below(256) as u8) },
        )),
        1 => {
            let how = match r.below(4) {
                0 => ClearType::All,
                1 => ClearType::CurrentLine,
                2 => ClearType::PreviousChar,
                _ => ClearType::UntilNewLine,
            };
            ok(c.clear(how))
        }
        2 => {
            let p = CharsXY::new(r.below(size.x as usize) as u16, r.below(size.y as usize) as u16);
            ok(c.locate(p))
        }
        3 => ok(c.move_within_line(r.range(-5, 5) as i16)),
        4..=6 => {
            let n = r.few(40);
            let s: String = (0..n)
                .map(|_| if r.chance(1, 20) { 'é' } else { (b' ' + r.below(95) as u8) as char })
                .collect();
            if r.bool() { ok(c.print(&s)) } else { ok(c.write(&s)) }
        }
        7 => ok(c.show_cursor()),
        8 => ok(c.hide_cursor()),
        9 => ok(c.draw_circle(pt(r), r.below(80) as u16)),
        10 => ok(c.draw_circle_filled(pt(r), r.below(80) as u16)),
        11 => ok(c.draw_line(pt(r), pt(r))),
        12 => ok(c.draw_pixel(pt(r))),
        13 => ok(c.draw_poly(&[pt(r), pt(r), pt(r), pt(r)])),
        14 => ok(c.draw_poly_filled(&[pt(r), pt(r), pt(r), pt(r)])),
        15 => ok(c.draw_rect(pt(r), pt(r))),
        16 => ok(c.draw_rect_filled(pt(r), pt(r))),
        17 => {
            if r.bool() {
                ok(c.draw_tri(pt(r), pt(r), pt(r)))
            } else {
                ok(c.draw_tri_filled(pt(r), pt(r), pt(r)))
            }
        }
        18 => ok(c.bucket_fill(pt(r))),
        19 => match c.set_sync(r.chance(2, 3)) {
            Ok(b) => format!("was {}", b),
            Err(_) => "error".to_owned(),
        },
        20 => ok(c.sync_now()),
        _ => {
            let p = pt(r);
            format!(
                "{:?} {:?} {:?} {:?} {:?}",
                c.peek_pixel(p).ok(),
                c.color(),
                size,
                c.size_pixels().ok(),
                c.is_interactive()
            )
        }
    }
}

fn check(ctx: &str, wire: &Wire, want: &Rc<RefCell<Vec<u16>>>) -> R {
    let g = wire.lock().unwrap();
    if let Some(e) = g.errors.first() {
        return Err(viol(format!("protocol: {}", e), ctx));
    }
    if g.left > 0 && g.failed == 0 {
        return Err(viol("incomplete window", ctx));
    }
    let w = want.borrow();
    if let Some(i) = (0..N * N).find(|i| g.gram[*i] != w[*i]) {
        return Err(viol(
            "panel",
            format!("{}\nat {},{}: oracle {:04x}, observed {:04x}", ctx, i % N, i / N, w[i], g.gram[i]),
        ));
    }
    Ok(())
}

fn case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let rt = runtime();
    let _g = rt.enter();
    let mut spec_s = "st7735s".to_owned();
    let mut flags = vec![];
    let fg = if rng.bool() { Some(rng.below(16) as u8) } else { None };
    let bg = if rng.bool() { Some(rng.below(16) as u8) } else { None };
    let fonts = [&FONT_5X8, &FONT_VGA8X16, &FONT_16X16];
    let font: &'static Font = if rng.bool() {
        &FONT_5X8
    } else {
        let f = *rng.pick(&fonts);
        flags.push(format!("font={}", f.name));
        f
    };
    if let Some(x) = fg {
        flags.push(format!("fg_color={}", x));
    }
    if let Some(x) = bg {
        flags.push(format!("bg_color={}", x));
    }
    if !flags.is_empty() {
        spec_s = format!("{}:{}", spec_s, flags.join(","));
    }
    let max = *rng.pick(&[1, 2, 3, 7, 64, 4096, 65536]);
    let wire: Wire = Arc::new(Mutex::new(Chip {
        levels: [None; 64],
        modes: BTreeMap::new(),
        cmd: 0,
        params: vec![],
        cols: (1, N),
        rows: (2, N + 1),
        at: (1, 2),
        left: 0,
        half: None,
        awake: false,
        on: false,
        resets: 0,
        format: 6,
        scan: 0,
        gram: vec![0xdead; N * N],
        pixels: 0,
        writes: 0,
        partial: rng.bool(),
        rng: Rng::new(rng.next()),
        fail: None,
        failed: 0,
        max,
        presses: BTreeMap::new(),
        read_fails: 0,
        polls: 0,
        errors: vec![],
    }));
    let mut trace = format!("{} max {}\n", spec_s, max);
    c.input(trace.clone());
    let mut spec = ConsoleSpec::init(&spec_s);
    let (ktx, krx) = async_channel::unbounded();
    let (stx, _srx) = async_channel::unbounded();
    let w2 = wire.clone();
    let f = St7735sConsoleFactory::new(
        Gpio(wire.clone()),
        move |_, _, _, mode| {
            if !matches!(mode, SpiMode::Mode0) {
                w2.lock().unwrap().err("SPI mode".to_owned());
            }
            Ok(Bus(w2.clone()))
        },
        move |_| Ok(Keyboard(krx)),
        &mut spec,
        &Fonts::all(),
        stx,
    )
    .map_err(|e| viol("factory", e.to_string()))?;
    spec.finish().map_err(|e| viol("flags", e.to_string()))?;
    let real = Box::new(f).build().map_err(|e| viol("build", e.to_string()))?;
    let want = Rc::new(RefCell::new(vec![0xbeef; N * N]));
    let (_ktx2, krx2) = async_channel::unbounded();
    let model: Con = Rc::new(RefCell::new(
        GraphicsConsole::new(
            Keyboard(krx2),
            BufferedLcd::new(Plain(want.clone()), font),
            NoopAudioOps,
            fg,
            bg,
        )
        .unwrap(),
    ));
    check(&format!("{}startup", trace), &wire, &want)?;
    let n = match max {
        1..=3 => 40,
        7 => 100,
        _ => 400,
    };
    for _ in 0..n {
        let seed = rng.next();
        let mut d = String::new();
        let fault = rng.chance(1, 40);
        if fault {
            let k = rng.below(200) as u64;
            wire.lock().unwrap().fail = Some(k);
        }
        let a = apply(&model, &mut Rng::new(seed), &mut d);
        trace += &d;
        trace.push('\n');
        if trace.len() > 3000 {
            trace.drain(..1500);
        }
        c.input(trace.clone());
        let b = apply(&real, &mut Rng::new(seed), &mut d);
        c.saw("operations", 1);
        let failed = wire.lock().unwrap().failed > 0;
        wire.lock().unwrap().fail = None;
        if failed {
            c.saw("bus faults", 1);
            if b != "error" {
                return Err(viol("bus fault not reported", format!("{}{}", trace, b)));
            }
            // Everything is painted again from a known state.
            for con in [&model, &real] {
                let mut con = con.borrow_mut();
                con.set_sync(true).unwrap();
                con.hide_cursor().unwrap();
                con.set_color(Some(3), Some(4)).unwrap();
                con.clear(ClearType::All).unwrap();
            }
            {
                let mut w = wire.lock().unwrap();
                w.failed = 0;
                w.half = None;
            }
            check(&format!("{}after a fault", trace), &wire, &want)?;
        } else {
            same("outcome", &trace, &b, &a)?;
            check(&trace, &wire, &want)?;
        }
    }
    buttons(c, rng, &rt, &wire, &real, &ktx)?;
    {
        let w = wire.lock().unwrap();
        c.saw("pixels", w.pixels);
        c.saw("transfers", w.writes);
        c.saw("button polls", w.polls);
        c.distinct(&(w.pixels, w.writes));
    }
    drop(real);
    let w = wire.lock().unwrap();
    if w.level(24) != Some(false) {
        return Err(viol("backlight left on", trace));
    }
    if let Some(e) = w.errors.first() {
        return Err(viol(format!("protocol: {}", e), trace));
    }
    Ok(())
}

fn buttons(
    c: &mut Case,
    rng: &mut Rng,
    rt: &tokio::runtime::Runtime,
    wire: &Wire,
    con: &Con,
    ktx: &async_channel::Sender<Key>,
) -> R {
    let read = |poll: bool| -> Option<Key> {
        rt.block_on(async {
            let mut con = con.borrow_mut();
            if poll {
                for _ in 0..400 {
                    if let Some(k) = con.poll_key().await.unwrap() {
                        return Some(k);
                    }
                    tokio::time::sleep(Duration::from_millis(10)).await;
                }
                None
            } else {
                tokio::time::timeout(Duration::from_secs(4), con.read_key())
                    .await
                    .ok()
                    .map(|r| r.unwrap())
            }
        })
    };
    for _ in 0..4 {
        // Presses of every button that each last one poll, and keys that are typed meanwhile.
        let mut presses: BTreeMap<u8, u64> = BTreeMap::new();
        let mut rounds = vec![];
        for _ in 0..rng.below(5) {
            let (p, _) = *rng.pick(&BUTTONS);
            *presses.entry(p).or_default() += 1;
        }
        let mut left = presses.clone();
        // Every poll reports the buttons in order.
        loop {
            let mut any = false;
            for (p, k) in BUTTONS {
                if let Some(n) = left.get_mut(&p)
                    && *n > 0
                {
                    *n -= 1;
                    rounds.push(k);
                    any = true;
                }
            }
            if !any {
                break;
            }
        }
        let typed: Vec<Key> =
            (0..rng.below(4)).map(|i| Key::Char((b'a' + i as u8) as char)).collect();
        let faults = if rng.chance(1, 3) { rng.below(6) as u64 } else { 0 };
        if faults == 0 {
            wire.lock().unwrap().presses = presses.clone();
        } else {
            let mut w = wire.lock().unwrap();
            w.read_fails = faults;
            w.presses = presses.clone();
        }
        for k in &typed {
            ktx.try_send(*k).unwrap();
        }
        let mut got = vec![];
        for _ in 0..rounds.len() + typed.len() {
            match read(rng.bool()) {
                Some(k) => got.push(k),
                None => break,
            }
        }
        let ctx = format!("presses {:?} faults {} typed {:?}", presses, faults, typed);
        let keys: Vec<Key> = got.iter().copied().filter(|k| typed.contains(k)).collect();
        let btns: Vec<Key> = got.iter().copied().filter(|k| !typed.contains(k)).collect();
        same("typed keys", &ctx, &keys, &typed)?;
        if faults == 0 && presses.values().all(|n| *n == 1) {
            // They may straddle two polls.
            let mut a = VecDeque::from(btns.clone());
            let mut b = btns.clone();
            b.sort_by_key(|k| BUTTONS.iter().position(|x| x.1 == *k));
            let ok = (0..a.len().max(1)).any(|_| {
                let e = a == VecDeque::from(b.clone());
                a.rotate_left(a.len().min(1));
                e
            });
            if !ok {
                return Err(viol("order of the buttons", format!("{}\n{:?}", ctx, btns)));
            }
        }
        let sorted = |v: &[Key]| {
            let mut v: Vec<String> = v.iter().map(|k| format!("{:?}", k)).collect();
            v.sort();
            v
        };
        same("buttons", &ctx, &sorted(&btns), &sorted(&rounds))?;
        if let Some(k) = rt.block_on(async { con.borrow_mut().poll_key().await.unwrap() }) {
            return Err(viol("spurious key", format!("{}\n{:?}", ctx, k)));
        }
        c.saw("buttons", rounds.len() as u64);
        c.saw("typed keys", typed.len() as u64);
    }
    Ok(())
}

pub fn d01() -> Prop {
    Prop {
        id: "D01",
        level: "exploration",
        rule: "one case is a console on an emulated chip, 40 to 400 operations and four rounds of buttons; distinct by the pixels and transfers observed.",
        assumptions: &[
            "the chip and its wiring behave like the emulation, which follows the data sheet",
            "a button held during a single poll is one key press",
        ],
        require: &[
            ("operations", 15000),
            ("pixels", 1000000),
            ("transfers", 100000),
            ("bus faults", 100),
            ("buttons", 100),
            ("typed keys", 100),
        ],
        stages: vec![Stage { name: "console", quick: 120, thorough: 2400, f: case }],
        probes: vec![],
    }
}
