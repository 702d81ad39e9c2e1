//! G01: what the SDL window shows and plays, and the keys that come from it.

use crate::rng::Rng;
use crate::runner::{Case, Prop, R, Stage, same, scratch, viol};
use async_trait::async_trait;
use endbasic_std::Signal;
use endbasic_std::console::drawing;
use endbasic_std::console::graphics::{InputOps, RasterInfo, RasterOps};
use endbasic_std::console::{
    CharsXY, ClearType, Console, ConsoleSpec, GraphicsConsole, Key, PixelsXY, RGB, SizeInPixels,
    rgb_to_ansi_color,
};
use endbasic_std::gfx::lcd::fonts::{FONT_5X8, FONT_16X16, FONT_VGA8X16, Font, Fonts};
use endbasic_std::sound::{NoopAudioOps, Tone, Waveform};
use futures_lite::future::{self, block_on};
use sdl2::sys;
use std::cell::RefCell;
use std::fs;
use std::io;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::mpsc::RecvTimeoutError;
use std::time::{Duration, Instant};

/// The canvas that the window should have.
struct Canvas {
    w: usize,
    h: usize,
    px: Vec<RGB>,
    shown: Vec<RGB>,
    presents: u64,
    /// Lines that are neither horizontal nor vertical, whose exact pixels are up to SDL.
    lines: Vec<(PixelsXY, PixelsXY)>,
    color: RGB,
}

impl Canvas {
    fn set(&mut self, x: i32, y: i32, c: RGB) {
        if x >= 0 && y >= 0 && (x as usize) < self.w && (y as usize) < self.h {
            self.px[y as usize * self.w + x as usize] = c;
        }
    }
    fn get(&self, x: i32, y: i32) -> Option<RGB> {
        if x >= 0 && y >= 0 && (x as usize) < self.w && (y as usize) < self.h {
            Some(self.px[y as usize * self.w + x as usize])
        } else {
            None
        }
    }
    fn area(&mut self, x: i32, y: i32, w: i32, h: i32) {
        let c = self.color;
        for j in y.max(0)..(y + h).min(self.h as i32) {
            for i in x.max(0)..(x + w).min(self.w as i32) {
                self.set(i, j, c);
            }
        }
    }
}

#[derive(Clone)]
struct Mem(Rc<RefCell<Canvas>>, &'static Font);

impl RasterOps for Mem {
    type ID = Vec<(i32, i32, RGB)>;

    fn get_info(&self) -> RasterInfo {
        let c = self.0.borrow();
        let g: SizeInPixels = self.1.glyph_size.into();
        RasterInfo {
            size_pixels: SizeInPixels::new(c.w as u16, c.h as u16),
            glyph_size: g,
            size_chars: CharsXY::new(c.w as u16 / g.width, c.h as u16 / g.height),
        }
    }
    fn set_draw_color(&mut self, color: RGB) {
        self.0.borrow_mut().color = color;
    }
    fn clear(&mut self) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        let color = c.color;
        c.px.fill(color);
        Ok(())
    }
    fn present_canvas(&mut self) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        c.shown = c.px.clone();
        c.presents += 1;
        Ok(())
    }
    fn peek_pixel(&self, xy: PixelsXY) -> io::Result<Option<u8>> {
        let c = self.0.borrow();
        Ok(c.get(xy.x as i32, xy.y as i32).and_then(rgb_to_ansi_color))
    }
    fn read_pixels(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<Self::ID> {
        let c = self.0.borrow();
        let mut out = vec![];
        for j in 0..size.height as i32 {
            for i in 0..size.width as i32 {
                if let Some(p) = c.get(xy.x as i32 + i, xy.y as i32 + j) {
                    out.push((i, j, p));
                }
            }
        }
        Ok(out)
    }
    fn put_pixels(&mut self, xy: PixelsXY, data: &Self::ID) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        for (i, j, p) in data {
            c.set(xy.x as i32 + i, xy.y as i32 + j, *p);
        }
        Ok(())
    }
    fn move_pixels(&mut self, a: PixelsXY, b: PixelsXY, size: SizeInPixels) -> io::Result<()> {
        let data = self.read_pixels(a, size)?;
        self.draw_rect_filled(a, size)?;
        self.put_pixels(b, &data)
    }
    fn write_text(&mut self, xy: PixelsXY, text: &str) -> io::Result<()> {
        let font = self.1;
        drawing::draw_text(self, font, xy, text)
    }
    fn draw_circle(&mut self, center: PixelsXY, radius: u16) -> io::Result<()> {
        drawing::draw_circle(self, center, radius)
    }
    fn draw_circle_filled(&mut self, center: PixelsXY, radius: u16) -> io::Result<()> {
        drawing::draw_circle_filled(self, center, radius)
    }
    fn draw_line(&mut self, a: PixelsXY, b: PixelsXY) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        if a == b {
            // Lines of no length are not painted.
            return Ok(());
        }
        if a.x == b.x || a.y == b.y {
            let (x, y) = (a.x.min(b.x) as i32, a.y.min(b.y) as i32);
            let (p, q) = (a.x.max(b.x) as i32, a.y.max(b.y) as i32);
            c.area(x, y, p - x + 1, q - y + 1);
        } else {
            c.lines.push((a, b));
        }
        Ok(())
    }
    fn draw_pixel(&mut self, xy: PixelsXY) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        let color = c.color;
        c.set(xy.x as i32, xy.y as i32, color);
        Ok(())
    }
    fn draw_poly(&mut self, points: &[PixelsXY]) -> io::Result<()> {
        drawing::draw_poly(self, points)
    }
    fn draw_poly_filled(&mut self, points: &[PixelsXY]) -> io::Result<()> {
        drawing::draw_poly_filled(self, points)
    }
    fn draw_rect(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        let (x, y, w, h) = (xy.x as i32, xy.y as i32, size.width as i32, size.height as i32);
        c.area(x, y, w, 1);
        c.area(x, y + h - 1, w, 1);
        c.area(x, y, 1, h);
        c.area(x + w - 1, y, 1, h);
        Ok(())
    }
    fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
        let mut c = self.0.borrow_mut();
        c.area(xy.x as i32, xy.y as i32, size.width as i32, size.height as i32);
        Ok(())
    }
    fn draw_tri(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        drawing::draw_tri(self, a, b, c)
    }
    fn draw_tri_filled(&mut self, a: PixelsXY, b: PixelsXY, c: PixelsXY) -> io::Result<()> {
        drawing::draw_tri_filled(self, a, b, c)
    }
}

struct NoKeys;

#[async_trait(?Send)]
impl InputOps for NoKeys {
    async fn poll_key(&mut self) -> io::Result<Option<Key>> {
        Ok(None)
    }
    async fn read_key(&mut self) -> io::Result<Key> {
        Err(io::Error::other("no keys"))
    }
}

/// Reads the frames that the window showed since the last call: how many, and the last one.
fn frames(dir: &Path, w: usize, h: usize) -> Result<(u64, Option<Vec<RGB>>), String> {
    let mut names: Vec<PathBuf> = fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().is_some_and(|e| e == "bmp"))
        .collect();
    names.sort();
    let mut last = None;
    if let Some(p) = names.last() {
        let b = fs::read(p).unwrap();
        let u32_at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let (off, bw, bh) = (u32_at(10) as usize, u32_at(18) as usize, u32_at(22) as usize);
        let bytes = u16::from_le_bytes([b[28], b[29]]) as usize / 8;
        if (bw, bh) != (w, h) {
            return Err(format!("window of {}x{} instead of {}x{}", bw, bh, w, h));
        }
        let row = (w * bytes).div_ceil(4) * 4;
        let mut px = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                let i = off + (h - 1 - y) * row + x * bytes;
                px.push((b[i + 2], b[i + 1], b[i]));
            }
        }
        last = Some(px);
    }
    let n = names.len() as u64;
    for p in names {
        fs::remove_file(p).unwrap();
    }
    Ok((n, last))
}

fn pt(r: &mut Rng, w: usize, h: usize, far: bool) -> PixelsXY {
    let v = |r: &mut Rng, n: usize| match r.below(8) {
        0 => r.range(-300, n as i64 + 300) as i16,
        1 if far => *r.pick(&[-1, 0, n as i16 - 1, n as i16, i16::MIN, i16::MAX]),
        1 => *r.pick(&[-1, 0, n as i16 - 1, n as i16]),
        _ => r.range(0, n as i64 - 1) as i16,
    };
    PixelsXY::new(v(r, w), v(r, h))
}

const KINDS: usize = 24;

/// Whether the operation may draw lines with any slope.
fn sloped(k: usize) -> bool {
    [11, 13, 17].contains(&k)
}

fn apply(c: &mut dyn Console, k: usize, r: &mut Rng, w: usize, h: usize) -> String {
    let ok = |r: io::Result<()>| match r {
        Ok(()) => "ok".to_owned(),
        Err(e) => format!("error {}", e),
    };
    let size = c.size_chars().unwrap();
    let p = |r: &mut Rng, far: bool| pt(r, w, h, far);
    match k {
        0 => ok(c.set_color(
            if r.chance(1, 5) { None } else { Some(r.below(256) as u8) },
            if r.chance(1, 5) { None } else { Some(r.below(256) as u8) },
        )),
        1 => {
            let how = match r.below(5) {
                0 => ClearType::All,
                1 => ClearType::CurrentLine,
                2 | 3 => ClearType::PreviousChar,
                _ => ClearType::UntilNewLine,
            };
            ok(c.clear(how))
        }
        2 => {
            let p = CharsXY::new(r.below(size.x as usize) as u16, r.below(size.y as usize) as u16);
            ok(c.locate(p))
        }
        3 => ok(c.move_within_line(r.range(-5, 5) as i16)),
        4..=6 => {
            let n = r.few(40);
            let s: String = (0..n)
                .map(|_| match r.below(24) {
                    0 => 'é',
                    1 => '\u{1b}',
                    2 => '\n',
                    _ => (b' ' + r.below(95) as u8) as char,
                })
                .collect();
            if r.bool() { ok(c.print(&s)) } else { ok(c.write(&s)) }
        }
        7 => ok(c.show_cursor()),
        8 => ok(c.hide_cursor()),
        9 => ok(c.draw_circle(p(r, true), r.below(80) as u16)),
        10 => ok(c.draw_circle_filled(p(r, true), r.below(80) as u16)),
        11 => {
            let (a, mut b) = (p(r, false), p(r, false));
            match r.below(6) {
                0 => b.x = a.x,
                1 => b.y = a.y,
                2 => b = a,
                _ => (),
            }
            ok(c.draw_line(a, b))
        }
        12 => ok(c.draw_pixel(p(r, true))),
        13 => ok(c.draw_poly(&[p(r, false), p(r, false), p(r, false), p(r, false)])),
        14 => ok(c.draw_poly_filled(&[p(r, true), p(r, true), p(r, true), p(r, true)])),
        15 => ok(c.draw_rect(p(r, true), p(r, true))),
        16 => ok(c.draw_rect_filled(p(r, true), p(r, true))),
        17 => ok(c.draw_tri(p(r, false), p(r, false), p(r, false))),
        18 => ok(c.draw_tri_filled(p(r, true), p(r, true), p(r, true))),
        19 => ok(c.bucket_fill(p(r, true))),
        20 => match c.set_sync(r.chance(2, 3)) {
            Ok(b) => format!("was {}", b),
            Err(_) => "error".to_owned(),
        },
        21 => ok(c.sync_now()),
        22 => {
            if r.bool() { ok(c.enter_alt()) } else { ok(c.leave_alt()) }
        }
        _ => {
            let edge = |r: &mut Rng, n: usize| match r.below(3) {
                0 => *r.pick(&[-1, 0, n as i16 - 1, n as i16, n as i16 + 1, i16::MIN, i16::MAX]),
                _ => r.range(0, n as i64 - 1) as i16,
            };
            let peeks: Vec<_> = (0..8)
                .map(|_| c.peek_pixel(PixelsXY::new(edge(r, w), edge(r, h))).ok())
                .collect();
            format!(
                "{:?} {:?} {:?} {:?} {:?} {:?}",
                peeks,
                c.color(),
                size,
                c.size_pixels().ok(),
                c.glyph_size().ok(),
                c.is_interactive()
            )
        }
    }
}

fn distance(p: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let d = (b.0 - a.0, b.1 - a.1);
    let t = ((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1) / (d.0 * d.0 + d.1 * d.1);
    let t = t.clamp(0.0, 1.0);
    let q = (a.0 + t * d.0, a.1 + t * d.1);
    ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt()
}

/// Checks that the pixels of sloped lines are where they should.
fn check_lines(c: &Canvas, seen: &[RGB], lines: &[(PixelsXY, PixelsXY)]) -> Result<(), String> {
    let f = |p: PixelsXY| (p.x as f64, p.y as f64);
    for (i, p) in seen.iter().enumerate() {
        let (x, y) = (i % c.w, i / c.w);
        if *p == c.px[i] {
            continue;
        }
        if *p != c.color {
            return Err(format!("pixel {},{}: {:?} instead of {:?} or {:?}", x, y, p, c.px[i], c.color));
        }
        if !lines.iter().any(|(a, b)| distance((x as f64, y as f64), f(*a), f(*b)) <= 2.0) {
            return Err(format!("pixel {},{} is away from the lines", x, y));
        }
    }
    for (a, b) in lines {
        let (a, b) = (f(*a), f(*b));
        let d = (b.0 - a.0, b.1 - a.1);
        let steep = d.1.abs() > d.0.abs();
        let n = if steep { d.1.abs() } else { d.0.abs() } as i64;
        for k in 0..=n {
            let t = k as f64 / n as f64;
            let q = ((a.0 + t * d.0).round() as i64, (a.1 + t * d.1).round() as i64);
            if q.0 < 2 || q.1 < 2 || q.0 + 2 >= c.w as i64 || q.1 + 2 >= c.h as i64 {
                continue;
            }
            let hit = (-2..=2).any(|o| {
                let (x, y) = if steep { (q.0 + o, q.1) } else { (q.0, q.1 + o) };
                seen[y as usize * c.w + x as usize] == c.color
            });
            if !hit {
                return Err(format!("line {:?} {:?}: nothing at {:?}", a, b, q));
            }
        }
    }
    Ok(())
}

fn env(k: &str, v: &str) {
    // SAFETY: the previous console is gone and there are no other threads.
    unsafe { std::env::set_var(k, v) }
}

/// The thread of the window, which ends before another one starts.
struct Host(Option<std::thread::JoinHandle<io::Result<()>>>);

impl Host {
    fn join(&mut self) -> R {
        match self.0.take().map(|t| t.join()) {
            None | Some(Ok(Ok(()))) => Ok(()),
            Some(r) => Err(viol("host", format!("{:?}", r.map_err(|_| "crash")))),
        }
    }
}

impl Drop for Host {
    fn drop(&mut self) {
        let _ = self.join();
    }
}

fn case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let dir = scratch().join("sdl");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let no_video = rng.chance(1, 15);
    let no_audio = rng.chance(1, 4);
    env("SDL_VIDEODRIVER", if no_video { "none-such" } else { "dummy" });
    env("SDL_VIDEO_DUMMY_SAVE_FRAMES", "1");
    env("SDL_RENDER_DRIVER", "software");
    env("SDL_AUDIODRIVER", if no_audio { "none-such" } else { "disk" });
    env("SDL_DISKAUDIODELAY", "1");
    let audio = dir.join("audio.raw");
    env("SDL_DISKAUDIOFILE", audio.to_str().unwrap());

    let mut flags = vec![];
    let (mut w, mut h) = (800, 600);
    let fonts: [&'static Font; 3] = [&FONT_5X8, &FONT_VGA8X16, &FONT_16X16];
    let mut font: &'static Font = &FONT_VGA8X16;
    if rng.bool() {
        font = fonts[rng.below(3)];
        flags.push(format!("font={}", font.name));
    }
    if rng.chance(1, 40) {
        (w, h) = (1024, 768);
        flags.push("resolution=fs".to_owned());
    } else if !rng.chance(1, 20) {
        w = font.glyph_size.width * 2 + rng.below(280);
        h = font.glyph_size.height * 2 + rng.below(200);
        if rng.chance(1, 5) {
            h = font.glyph_size.height + rng.below(4);
        }
        flags.push(format!("resolution={}x{}", w, h));
    }
    let fg = if rng.bool() { Some(rng.below(256) as u8) } else { None };
    let bg = if rng.bool() { Some(rng.below(256) as u8) } else { None };
    if let Some(x) = fg {
        flags.push(format!("fg_color={}", x));
    }
    if let Some(x) = bg {
        flags.push(format!("bg_color={}", x));
    }
    let spec_s =
        if flags.is_empty() { "graphics".to_owned() } else { format!("graphics:{}", flags.join(",")) };
    let mut trace = format!("{}\n", spec_s);
    c.input(trace.clone());
    let mut spec = ConsoleSpec::init(&spec_s);
    let (stx, srx) = async_channel::unbounded();
    let (host, factory) =
        endbasic_sdl::setup(&mut spec, stx, &Fonts::all()).map_err(|e| viol("setup", e.to_string()))?;
    spec.finish().map_err(|e| viol("flags", e.to_string()))?;
    struct Sendable(Box<dyn endbasic_std::console::ConsoleHost>);
    // SAFETY: the tests of the crate run the host in another thread too.
    unsafe impl Send for Sendable {}
    let host = Sendable(host);
    let mut thread = Host(Some(std::thread::spawn(move || {
        let host = host;
        host.0.run()
    })));
    let built = factory.build();
    if no_video {
        c.saw("failed starts", 1);
        thread.join()?;
        return match built {
            Ok(_) => Err(viol("started without video", trace)),
            Err(_) => Ok(()),
        };
    }
    let con = built.map_err(|e| viol("build", e.to_string()))?;
    let canvas = Rc::new(RefCell::new(Canvas {
        w,
        h,
        px: vec![(0, 0, 0); w * h],
        shown: vec![(0, 0, 0); w * h],
        presents: 0,
        lines: vec![],
        color: (0, 0, 0),
    }));
    let mut model = GraphicsConsole::new(NoKeys, Mem(canvas.clone(), font), NoopAudioOps, fg, bg).unwrap();

    // Whether the window shows what it should.
    let check = |c: &mut Case, what: &str, lines: &[(PixelsXY, PixelsXY)]| -> R {
        let (n, last) = frames(&dir, w, h).map_err(|e| viol("size of the window", e))?;
        let mut m = canvas.borrow_mut();
        same("frames shown", what, &n, &m.presents)?;
        m.presents = 0;
        c.saw("frames", n);
        let Some(px) = last else { return Ok(()) };
        if !lines.is_empty() {
            check_lines(&m, &px, lines).map_err(|e| viol("lines", format!("{}{}", what, e)))?;
            c.saw("lines", lines.len() as u64);
            m.px = px.clone();
            m.shown = px.clone();
        }
        if let Some(i) = (0..w * h).find(|i| px[*i] != m.shown[*i]) {
            return Err(viol(
                "window",
                format!(
                    "{}at {},{}: oracle {:?}, observed {:?}",
                    what,
                    i % w,
                    i / w,
                    m.shown[i],
                    px[i]
                ),
            ));
        }
        let mut colors = px.clone();
        colors.sort();
        colors.dedup();
        c.distinct(&(colors, px.iter().position(|p| *p != px[0])));
        Ok(())
    };
    check(c, &format!("{}startup", trace), &[])?;

    let n = if w * h > 100000 { 20 } else { 120 };
    for _ in 0..n {
        let k = rng.below(KINDS);
        let seed = rng.next();
        trace += &format!("op {} ", k);
        if trace.len() > 3000 {
            let at = trace.len() - 1500;
            trace.drain(..at);
        }
        c.input(trace.clone());
        let real = &mut *con.borrow_mut();
        if sloped(k) {
            // The cursor is out of the way of lines whose pixels are not known.
            model.hide_cursor().unwrap();
            real.hide_cursor().unwrap();
            check(c, &trace, &[])?;
        }
        let a = apply(&mut model, k, &mut Rng::new(seed), w, h);
        let b = apply(real, k, &mut Rng::new(seed), w, h);
        trace += &b;
        trace.push('\n');
        same("outcome", &trace, &b, &a)?;
        c.saw("operations", 1);
        let lines = std::mem::take(&mut canvas.borrow_mut().lines);
        if !lines.is_empty() && canvas.borrow().presents == 0 {
            check(c, &trace, &[])?;
            model.sync_now().unwrap();
            real.sync_now().unwrap();
        }
        check(c, &trace, &lines)?;
    }
    keys(c, rng, &mut *con.borrow_mut(), &srx)?;
    let tones = play(c, rng, &mut *con.borrow_mut(), no_audio)?;
    // Still alive.
    let size = con.borrow().size_pixels().map_err(|e| viol("size", e.to_string()))?;
    same("size", &trace, &(size.width as usize, size.height as usize), &(w, h))?;
    drop(con);
    thread.join()?;
    if !tones.is_empty() {
        let raw = fs::read(&audio).unwrap_or_default();
        let got: Vec<i16> = raw
            .chunks_exact(2)
            .map(|b| i16::from_le_bytes([b[0], b[1]]))
            .filter(|s| *s != 0)
            .collect();
        let want: usize = tones.iter().map(|(_, n)| n).sum();
        same("samples played", &format!("{:?}", tones), &got.len(), &want)?;
        let mut at = 0;
        for (freq, n) in &tones {
            wave(&got[at..at + n], *freq).map_err(|e| viol("wave", format!("{:?}: {}", tones, e)))?;
            at += n;
        }
        c.saw("samples", want as u64);
    }
    Ok(())
}

/// Checks that the samples are a square wave.
fn wave(s: &[i16], freq: u32) -> Result<(), String> {
    let half = 44100.0 / freq as f64 / 2.0;
    let level = s[0];
    if level <= 0 {
        return Err(format!("starts at {}", level));
    }
    for (i, v) in s.iter().enumerate() {
        // Samples at the edges may go either way.
        let t = i as f64 / half;
        let edge = (t - t.round()).abs() < 1e-6;
        let want = if (t.floor() as u64) % 2 == 0 { level } else { -level };
        if *v != want && !(edge && *v == -want) {
            return Err(format!("sample {} is {} instead of {}", i, v, want));
        }
    }
    Ok(())
}

fn play(c: &mut Case, rng: &mut Rng, con: &mut dyn Console, broken: bool) -> Result<Vec<(u32, usize)>, crate::runner::Viol> {
    let mut out = vec![];
    for _ in 0..rng.few(4) {
        let freq = match rng.below(8) {
            0 => 0,
            1 => u32::MAX,
            2 => 22050,
            3 => 44100,
            _ => 20 + rng.below(5000) as u32,
        };
        let micros = match rng.below(5) {
            0 => rng.below(12) as u64,
            1 => rng.below(200) as u64,
            _ => rng.below(60000) as u64,
        };
        let duration = Duration::from_micros(micros);
        let r = block_on(con.play_tone(Tone { frequency_hz: freq, duration, waveform: Waveform::Square }));
        let n = (micros as f64 * 44100.0 / 1e6).round() as usize;
        let want = if freq == 0 { false } else { n == 0 || !broken };
        same("tone", &format!("{} {} {}", freq, micros, broken), &r.is_ok(), &want)?;
        c.saw("tones", 1);
        if want && n > 0 {
            out.push((freq, n));
        }
    }
    Ok(out)
}

fn push_key(sym: sys::SDL_KeyCode, mods: u16, up: bool) {
    // SAFETY: the event is plain data and SDL is initialized.
    unsafe {
        let mut e: sys::SDL_Event = std::mem::zeroed();
        e.key.type_ =
            if up { sys::SDL_EventType::SDL_KEYUP as u32 } else { sys::SDL_EventType::SDL_KEYDOWN as u32 };
        e.key.keysym.sym = sym as i32;
        e.key.keysym.mod_ = mods;
        sys::SDL_PushEvent(&mut e);
    }
}

fn push_text(s: &str) {
    // SAFETY: same as above; the text is terminated because it is shorter than the buffer.
    unsafe {
        let mut e: sys::SDL_Event = std::mem::zeroed();
        e.text.type_ = sys::SDL_EventType::SDL_TEXTINPUT as u32;
        for (i, b) in s.bytes().enumerate() {
            e.text.text[i] = b as _;
        }
        sys::SDL_PushEvent(&mut e);
    }
}

fn push_other(t: sys::SDL_EventType) {
    // SAFETY: same as above.
    unsafe {
        let mut e: sys::SDL_Event = std::mem::zeroed();
        e.type_ = t as u32;
        sys::SDL_PushEvent(&mut e);
    }
}

fn keys(c: &mut Case, rng: &mut Rng, con: &mut dyn Console, srx: &async_channel::Receiver<Signal>) -> R {
    use sys::SDL_KeyCode::*;
    let ctrl = [
        (SDLK_a, Key::Home),
        (SDLK_b, Key::ArrowLeft),
        (SDLK_c, Key::Interrupt),
        (SDLK_d, Key::EofOrDelete),
        (SDLK_e, Key::End),
        (SDLK_f, Key::ArrowRight),
        (SDLK_j, Key::NewLine),
        (SDLK_m, Key::NewLine),
        (SDLK_n, Key::ArrowDown),
        (SDLK_p, Key::ArrowUp),
    ];
    let plain = [
        (SDLK_BACKSPACE, Key::Backspace),
        (SDLK_DELETE, Key::Delete),
        (SDLK_END, Key::End),
        (SDLK_ESCAPE, Key::Escape),
        (SDLK_HOME, Key::Home),
        (SDLK_RETURN, Key::NewLine),
        (SDLK_TAB, Key::Tab),
        (SDLK_DOWN, Key::ArrowDown),
        (SDLK_LEFT, Key::ArrowLeft),
        (SDLK_RIGHT, Key::ArrowRight),
        (SDLK_UP, Key::ArrowUp),
        (SDLK_PAGEDOWN, Key::PageDown),
        (SDLK_PAGEUP, Key::PageUp),
    ];
    const LCTRL: u16 = 0x40;
    const RCTRL: u16 = 0x80;
    for _ in 0..4 {
        let mut want = vec![];
        let mut desc = String::new();
        for _ in 0..rng.below(12) {
            // Locks and shifts do not matter.
            let extra = *rng.pick(&[0, 0, 0, 0x1000, 0x2000, 0x1, 0x2]);
            match rng.below(6) {
                0 | 1 => {
                    let (k, w) = *rng.pick(&ctrl);
                    let m = *rng.pick(&[LCTRL, RCTRL, LCTRL | RCTRL]);
                    push_key(k, m | extra, false);
                    desc += &format!("ctrl {}\n", k as u32);
                    want.push(w);
                }
                2 => {
                    let (k, w) = *rng.pick(&plain);
                    push_key(k, extra, false);
                    desc += &format!("{}\n", k as u32);
                    want.push(w);
                }
                3 => {
                    // A letter comes as the key and its text.
                    let ch = *rng.pick(&['a', 'c', 'd', 'Z', ' ', '"', 'é', '€', '😀', '1']);
                    push_key(*rng.pick(&[SDLK_a, SDLK_c, SDLK_d, SDLK_z]), extra, false);
                    push_text(&ch.to_string());
                    push_key(SDLK_a, extra, true);
                    desc += &format!("text {}\n", ch);
                    want.push(Key::Char(ch));
                }
                4 => {
                    push_key(*rng.pick(&[SDLK_F1, SDLK_LSHIFT, SDLK_CAPSLOCK, SDLK_x]), extra, false);
                    push_key(*rng.pick(&[SDLK_c, SDLK_RETURN]), LCTRL, true);
                    push_other(*rng.pick(&[
                        sys::SDL_EventType::SDL_MOUSEMOTION,
                        sys::SDL_EventType::SDL_WINDOWEVENT,
                        sys::SDL_EventType::SDL_MOUSEWHEEL,
                        sys::SDL_EventType::SDL_CLIPBOARDUPDATE,
                    ]));
                }
                _ => {
                    push_other(sys::SDL_EventType::SDL_QUIT);
                    desc += "quit\n";
                    want.push(Key::EofOrDelete);
                }
            }
        }
        let mut got = vec![];
        let start = Instant::now();
        while got.len() < want.len() && start.elapsed() < Duration::from_secs(5) {
            match block_on(con.poll_key()).map_err(|e| viol("poll", e.to_string()))? {
                Some(k) => got.push(k),
                None => std::thread::sleep(Duration::from_micros(200)),
            }
            if got.len() + 1 < want.len() && rng.chance(1, 4) {
                // Never blocks because there are keys to come.
                let (tx, rx) = std::sync::mpsc::channel::<()>();
                let (late_tx, late_rx) = async_channel::bounded(1);
                std::thread::spawn(move || {
                    if rx.recv_timeout(Duration::from_secs(10)) == Err(RecvTimeoutError::Timeout) {
                        let _ = late_tx.send_blocking(());
                    } else {
                        late_tx.close();
                    }
                });
                let late = async {
                    if late_rx.recv().await.is_err() {
                        std::future::pending::<()>().await;
                    }
                    None
                };
                let key = block_on(future::or(async { Some(con.read_key().await) }, late));
                drop(tx);
                match key {
                    Some(k) => got.push(k.map_err(|e| viol("read", e.to_string()))?),
                    None => return Err(viol("lost keys", format!("{}got {:?}", desc, got))),
                }
            }
        }
        same("keys", &desc, &got, &want)?;
        std::thread::sleep(Duration::from_millis(3));
        if let Some(k) = block_on(con.poll_key()).unwrap() {
            return Err(viol("spurious key", format!("{}{:?}", desc, k)));
        }
        let breaks = want.iter().filter(|k| **k == Key::Interrupt).count();
        let mut seen = 0;
        while srx.try_recv().is_ok() {
            seen += 1;
        }
        same("breaks", &desc, &seen, &breaks)?;
        c.saw("keys", want.len() as u64);
        c.saw("breaks", breaks as u64);
    }
    Ok(())
}

pub fn g01() -> Prop {
    Prop {
        id: "G01",
        level: "exploration",
        rule: "one case is a window, 20 to 120 operations, four bursts of events and up to three tones; distinct by the colors and outline of the frames shown.",
        assumptions: &[
            "SDL's dummy video driver and disk audio driver receive what real ones would",
            "the pixels of sloped lines are up to SDL as long as they follow the line",
        ],
        require: &[
            ("operations", 10000),
            ("frames", 10000),
            ("lines", 500),
            ("keys", 1000),
            ("breaks", 50),
            ("tones", 100),
            ("samples", 100000),
            ("failed starts", 3),
        ],
        stages: vec![Stage { name: "window", quick: 200, thorough: 4000, f: case }],
        probes: vec![],
    }
}
