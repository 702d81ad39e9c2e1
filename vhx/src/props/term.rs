//! T01: what the terminal console shows on a terminal, and the keys it reads from it.

use crate::rng::Rng;
use crate::runner::{Case, Prop, R, Stage, same, viol};
use endbasic_std::Signal;
use endbasic_std::console::{CharsXY, ClearType, Console, Key};
use endbasic_terminal::TerminalConsole;
use std::fs::File;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).unwrap()).collect()
}

/// The process with the console: obeys the operations that come from descriptor 3.
pub fn child() {
    let rt =
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let _g = rt.enter();
    let orders = BufReader::new(unsafe { File::from_raw_fd(3) });
    let mut out = unsafe { File::from_raw_fd(4) };
    let (tx, rx) = async_channel::unbounded();
    let mut con = Some(TerminalConsole::from_stdio(tx).unwrap());
    writeln!(out, "ready").unwrap();
    for l in orders.lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split(' ').collect();
        if f[0] == "drop" {
            con = None;
            writeln!(out, "ok").unwrap();
            continue;
        }
        let c: &mut dyn Console = con.as_mut().unwrap();
        let text = |i: usize| String::from_utf8(unhex(f.get(i).unwrap_or(&""))).unwrap();
        let num = |i: usize| f[i].parse::<i32>().unwrap();
        let color = |i: usize| if f[i] == "-" { None } else { Some(f[i].parse::<u8>().unwrap()) };
        let ok = |r: std::io::Result<()>| match r {
            Ok(()) => "ok".to_owned(),
            Err(e) => format!("error {}", e),
        };
        let reply = match f[0] {
            "print" => ok(c.print(&text(1))),
            "write" => ok(c.write(&text(1))),
            "clear" => ok(c.clear(match num(1) {
                0 => ClearType::All,
                1 => ClearType::CurrentLine,
                2 => ClearType::PreviousChar,
                _ => ClearType::UntilNewLine,
            })),
            "color" => ok(c.set_color(color(1), color(2))),
            "getcolor" => format!("{:?}", c.color()),
            "alt" => ok(c.enter_alt()),
            "noalt" => ok(c.leave_alt()),
            "hide" => ok(c.hide_cursor()),
            "show" => ok(c.show_cursor()),
            "locate" => ok(c.locate(CharsXY::new(num(1) as u16, num(2) as u16))),
            "move" => ok(c.move_within_line(num(1) as i16)),
            "sync" => match c.set_sync(num(1) == 1) {
                Ok(b) => format!("was {}", b),
                Err(e) => format!("error {}", e),
            },
            "syncnow" => ok(c.sync_now()),
            "size" => format!("{:?}", c.size_chars().ok().map(|s| (s.x, s.y))),
            "inter" => format!("{}", c.is_interactive()),
            "key" => rt.block_on(async {
                match tokio::time::timeout(Duration::from_secs(8), c.read_key()).await {
                    Ok(Ok(k)) => format!("{:?}", k),
                    Ok(Err(e)) => format!("error {}", e),
                    Err(_) => "timeout".to_owned(),
                }
            }),
            "poll" => rt.block_on(async { format!("{:?}", c.poll_key().await.ok()) }),
            "signals" => {
                let mut n = 0;
                while let Ok(Signal::Break) = rx.try_recv() {
                    n += 1;
                }
                n.to_string()
            }
            _ => "?".to_owned(),
        };
        writeln!(out, "{}", reply).unwrap();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cell {
    pub ch: char,
    fg: Option<u8>,
    bg: Option<u8>,
}

const BLANK: Cell = Cell { ch: ' ', fg: None, bg: None };

/// Screen of a terminal.
#[derive(Clone, Debug, PartialEq)]
pub struct Grid {
    pub w: usize,
    pub h: usize,
    pub cells: Vec<Cell>,
    pub x: usize,
    pub y: usize,
    /// A character was put on the last column.
    pending: bool,
    fg: Option<u8>,
    bg: Option<u8>,
    pub visible: bool,
    main: Option<(Vec<Cell>, usize, usize, bool)>,
    bells: u64,
}

impl Grid {
    pub fn new(w: usize, h: usize) -> Self {
        Grid {
            w,
            h,
            cells: vec![BLANK; w * h],
            x: 0,
            y: 0,
            pending: false,
            fg: None,
            bg: None,
            visible: true,
            main: None,
            bells: 0,
        }
    }
    pub fn lf(&mut self) {
        self.pending = false;
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.cells.drain(..self.w);
            self.cells.extend(vec![BLANK; self.w]);
        }
    }
    pub fn put(&mut self, ch: char) {
        if self.pending {
            self.x = 0;
            self.lf();
        }
        self.cells[self.y * self.w + self.x] = Cell { ch, fg: self.fg, bg: self.bg };
        if self.x + 1 < self.w {
            self.x += 1;
        } else {
            self.pending = true;
        }
    }
    pub fn erase(&mut self, from: usize, to: usize) {
        self.cells[from..to].fill(BLANK);
    }
    pub fn enter(&mut self) {
        if self.main.is_none() {
            let blank = vec![BLANK; self.w * self.h];
            let old = std::mem::replace(&mut self.cells, blank);
            self.main = Some((old, self.x, self.y, self.pending));
        }
    }
    pub fn leave(&mut self) {
        if let Some((c, x, y, p)) = self.main.take() {
            self.cells = c;
            self.x = x;
            self.y = y;
            self.pending = p;
        }
    }
    pub fn goto(&mut self, x: usize, y: usize) {
        self.x = x.min(self.w - 1);
        self.y = y.min(self.h - 1);
        self.pending = false;
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for r in self.cells.chunks(self.w) {
            s.extend(r.iter().map(|c| c.ch));
            s.push('\n');
        }
        s
    }
}

/// Interpreter of the output of the console.
pub struct Vt {
    pub g: Grid,
    buf: Vec<u8>,
    raw: bool,
}

impl Vt {
    fn feed(&mut self, data: &[u8]) -> Result<(), String> {
        self.buf.extend_from_slice(data);
        let mut i = 0;
        while i < self.buf.len() {
            let b = self.buf[i];
            match b {
                0x1b => {
                    if i + 1 >= self.buf.len() {
                        break;
                    }
                    if self.buf[i + 1] != b'[' {
                        return Err(format!("escape {:?}", self.buf[i + 1] as char));
                    }
                    let Some(e) = self.buf[i + 2..].iter().position(|b| (0x40..0x7f).contains(b)) else {
                        break;
                    };
                    let p = String::from_utf8_lossy(&self.buf[i + 2..i + 2 + e]).into_owned();
                    let f = self.buf[i + 2 + e] as char;
                    self.csi(&p, f)?;
                    i += e + 3;
                }
                8 => {
                    self.g.x = self.g.x.saturating_sub(1);
                    self.g.pending = false;
                    i += 1;
                }
                b'\r' => {
                    self.g.x = 0;
                    self.g.pending = false;
                    i += 1;
                }
                b'\n' => {
                    if !self.raw {
                        self.g.x = 0;
                    }
                    self.g.lf();
                    i += 1;
                }
                7 => {
                    self.g.bells += 1;
                    i += 1;
                }
                0..=0x1f | 0x7f => return Err(format!("control character {}", b)),
                _ => {
                    let n = match b {
                        0..=0x7f => 1,
                        0xc0..=0xdf => 2,
                        0xe0..=0xef => 3,
                        _ => 4,
                    };
                    if i + n > self.buf.len() {
                        break;
                    }
                    let s = std::str::from_utf8(&self.buf[i..i + n])
                        .map_err(|_| format!("bad bytes {:?}", &self.buf[i..i + n]))?;
                    let ch = s.chars().next().unwrap();
                    if ch.is_control() {
                        return Err(format!("control character {:?}", ch));
                    }
                    self.g.put(ch);
                    i += n;
                }
            }
        }
        self.buf.drain(..i);
        Ok(())
    }

    fn csi(&mut self, p: &str, f: char) -> Result<(), String> {
        let g = &mut self.g;
        let nums: Vec<usize> = p.split(';').map(|s| s.parse().unwrap_or(1)).collect();
        let here = g.y * g.w;
        match (p, f) {
            (_, 'H') => {
                if nums.len() != 2 {
                    g.goto(0, 0);
                } else {
                    g.goto(nums[1] - 1, nums[0] - 1);
                }
            }
            (_, 'D') => {
                g.x = g.x.saturating_sub(nums[0].max(1));
                g.pending = false;
            }
            (_, 'C') => {
                g.x = (g.x + nums[0].max(1)).min(g.w - 1);
                g.pending = false;
            }
            ("2", 'J') => {
                let n = g.cells.len();
                g.erase(0, n);
            }
            ("2", 'K') => g.erase(here, here + g.w),
            ("" | "0", 'K') => g.erase(here + g.x, here + g.w),
            ("?25", 'h') => g.visible = true,
            ("?25", 'l') => g.visible = false,
            ("?1049", 'h') => g.enter(),
            ("?1049", 'l') => g.leave(),
            ("39", 'm') => g.fg = None,
            ("49", 'm') => g.bg = None,
            ("0" | "", 'm') => {
                g.fg = None;
                g.bg = None;
            }
            (_, 'm') if nums.len() == 3 && nums[1] == 5 && nums[0] == 38 => g.fg = Some(nums[2] as u8),
            (_, 'm') if nums.len() == 3 && nums[1] == 5 && nums[0] == 48 => g.bg = Some(nums[2] as u8),
            _ => return Err(format!("sequence {:?} {}", p, f)),
        }
        Ok(())
    }
}

struct Proc {
    child: Child,
    orders: File,
    replies: BufReader<File>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut p = [0; 2];
    unsafe {
        assert_eq!(0, libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC));
        // Away from the numbers that the child uses.
        let mut up = [0; 2];
        for i in 0..2 {
            up[i] = libc::fcntl(p[i], libc::F_DUPFD_CLOEXEC, 20);
            assert!(up[i] >= 20);
            libc::close(p[i]);
        }
        (OwnedFd::from_raw_fd(up[0]), OwnedFd::from_raw_fd(up[1]))
    }
}

fn spawn(stdin: Stdio, stdout: Stdio, tty: bool, env: &[(&str, String)]) -> Proc {
    let (or, ow) = pipe();
    let (rr, rw) = pipe();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("term").stdin(stdin).stdout(stdout).stderr(Stdio::null());
    cmd.env_remove("LINES").env_remove("COLUMNS").env("TERM", "xterm-256color");
    cmd.env_remove("NO_COLOR");
    for (k, v) in env {
        cmd.env(k, v);
    }
    let (a, b) = (or.as_raw_fd(), rw.as_raw_fd());
    unsafe {
        cmd.pre_exec(move || {
            if tty {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
            }
            if libc::dup2(a, 3) < 0 || libc::dup2(b, 4) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = cmd.spawn().unwrap();
    Proc { child, orders: File::from(ow), replies: BufReader::new(File::from(rr)) }
}

impl Proc {
    fn reply(&mut self) -> Result<String, String> {
        let mut l = String::new();
        match self.replies.read_line(&mut l) {
            Ok(n) if n > 0 => Ok(l.trim_end().to_owned()),
            r => Err(format!("the console died: {:?} {:?}", r, self.child.wait())),
        }
    }
    fn ask(&mut self, l: &str) -> Result<String, String> {
        writeln!(self.orders, "{}", l).map_err(|e| e.to_string())?;
        self.reply()
    }
}

pub struct Tty {
    master: File,
    pub vt: Vt,
}

impl Tty {
    pub fn new(w: usize, h: usize) -> (Tty, OwnedFd) {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(m >= 0, "no pseudo-terminals");
            assert_eq!(0, libc::grantpt(m));
            assert_eq!(0, libc::unlockpt(m));
            let mut name = [0 as libc::c_char; 64];
            assert_eq!(0, libc::ptsname_r(m, name.as_mut_ptr(), 64));
            let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(s >= 0);
            let t = Tty {
                master: File::from_raw_fd(m),
                vt: Vt { g: Grid::new(w, h), buf: vec![], raw: true },
            };
            t.resize(w, h);
            let fl = libc::fcntl(m, libc::F_GETFL);
            libc::fcntl(m, libc::F_SETFL, fl | libc::O_NONBLOCK);
            (t, OwnedFd::from_raw_fd(s))
        }
    }
    pub fn resize(&self, w: usize, h: usize) {
        let ws = libc::winsize { ws_row: h as u16, ws_col: w as u16, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe {
            assert_eq!(0, libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &ws));
        }
    }
    pub fn modes(&self) -> (u32, u32, u32) {
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            assert_eq!(0, libc::tcgetattr(self.master.as_raw_fd(), &mut t));
            (t.c_iflag, t.c_oflag, t.c_lflag)
        }
    }
    /// Gets what is there to show.
    pub fn pump(&mut self) -> Result<(), String> {
        let mut b = [0u8; 8192];
        loop {
            match self.master.read(&mut b) {
                Ok(0) => return Ok(()),
                Ok(n) => self.vt.feed(&b[..n])?,
                Err(_) => return Ok(()),
            }
        }
    }
    pub fn wait(&mut self, want: &Grid) -> Result<bool, String> {
        let start = Instant::now();
        loop {
            self.pump()?;
            if self.vt.g == *want {
                return Ok(true);
            }
            if start.elapsed() > Duration::from_secs(5) {
                return Ok(false);
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
    pub fn type_bytes(&mut self, b: &[u8]) {
        let mut i = 0;
        let start = Instant::now();
        while i < b.len() && start.elapsed() < Duration::from_secs(20) {
            match self.master.write(&b[i..]) {
                Ok(n) => i += n,
                Err(_) => std::thread::sleep(Duration::from_millis(1)),
            }
        }
    }
}

const KEYS: &[(&[u8], &str)] = &[
    (b"\x1b[A", "ArrowUp"),
    (b"\x1b[B", "ArrowDown"),
    (b"\x1b[C", "ArrowRight"),
    (b"\x1b[D", "ArrowLeft"),
    (b"\x1bOA", "ArrowUp"),
    (b"\x1b[H", "Home"),
    (b"\x1b[F", "End"),
    (b"\x1b[1~", "Home"),
    (b"\x1b[4~", "End"),
    (b"\x1b[3~", "Delete"),
    (b"\x1b[5~", "PageUp"),
    (b"\x1b[6~", "PageDown"),
    (b"\x1b", "Escape"),
    (b"\x7f", "Backspace"),
    (b"\r", "NewLine"),
    (b"\n", "NewLine"),
    (b"\t", "Tab"),
    (b"\x01", "Home"),
    (b"\x02", "ArrowLeft"),
    (b"\x03", "Interrupt"),
    (b"\x04", "EofOrDelete"),
    (b"\x05", "End"),
    (b"\x06", "ArrowRight"),
    (b"\x0e", "ArrowDown"),
    (b"\x10", "ArrowUp"),
    (b"\x1bOP", "Unknown"),
    (b"\x1b[15~", "Unknown"),
    (b"\x1b[2~", "Unknown"),
];

fn some_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| match r.below(14) {
            0 => *r.pick(&['é', 'ñ', 'Ω', '→', 'ß']),
            1 if r.chance(1, 3) => {
                *r.pick(&['\n', '\r', '\t', '\u{1b}', '\u{7}', '\u{8}', '\u{7f}', '\u{85}', '\u{9b}', '\0'])
            }
            _ => (b' ' + r.below(95) as u8) as char,
        })
        .collect()
}

fn clean(s: &str) -> String {
    s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
}

fn tty_case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let wide = rng.chance(1, 20);
    let (w, h) = (2 + rng.below(if wide { 400 } else { 70 }), 1 + rng.below(30));
    let mut env = vec![];
    let mut size = (w, h);
    let real_size = size;
    let mut known = size;
    // What the environment says, which may not be the size of the window.
    let mut said = size;
    let mut other = |v: usize| {
        if rng.bool() { v } else { (v as i64 + rng.range(-5, 5)).max(1) as usize }
    };
    said.0 = other(said.0);
    said.1 = other(said.1);
    if rng.chance(1, 5) {
        let bad = rng.pick(&["junk", "0", "", "65536", "1.5"]).to_string();
        env.push(("LINES", if rng.chance(1, 4) { bad } else { said.1.to_string() }));
    }
    if rng.chance(1, 5) {
        let bad = rng.pick(&["-3", "0", "000", "99999", "x"]).to_string();
        env.push(("COLUMNS", if rng.chance(1, 4) { bad } else { said.0.to_string() }));
    }
    let good = |v: &str| v.parse::<u16>().is_ok_and(|n| n > 0);
    let fixed = (
        env.iter().any(|(k, v)| *k == "COLUMNS" && good(v)),
        env.iter().any(|(k, v)| *k == "LINES" && good(v)),
    );
    let mut trace = format!("{}x{} {:?}\n", w, h, env);
    c.input(trace.clone());
    let (mut t, slave) = Tty::new(w, h);
    let before = t.modes();
    let inp = Stdio::from(slave.try_clone().unwrap());
    let mut p = spawn(inp, Stdio::from(slave), true, &env);
    let dead = |e: String, trace: &str| viol("console", format!("{}{}", trace, e));
    p.reply().map_err(|e| dead(e, &trace))?;
    let mut g = Grid::new(w, h);
    let mut sync = true;
    // The library that reads keys delays those that come right when the size changes.
    let resizes = rng.chance(1, 4);
    let n = 20 + rng.below(120);
    for _ in 0..n {
        let mut order;
        let mut want = "ok".to_owned();
        match rng.below(16) {
            0..=2 => {
                let s = some_text(rng, w * 2);
                order = format!("print {}", hex(s.as_bytes()));
                for ch in clean(&s).chars() {
                    g.put(ch);
                }
                g.x = 0;
                g.lf();
            }
            3..=5 => {
                let s = some_text(rng, w + 3);
                order = format!("write {}", hex(s.as_bytes()));
                for ch in clean(&s).chars() {
                    g.put(ch);
                }
            }
            6 => {
                let k = rng.below(4);
                if k == 2 && (g.pending || g.x == 0) {
                    continue;
                }
                order = format!("clear {}", k);
                let here = g.y * g.w;
                match k {
                    0 => {
                        g.erase(0, w * h);
                        g.goto(0, 0);
                    }
                    1 => g.erase(here, here + w),
                    2 => {
                        g.x -= 1;
                        g.cells[here + g.x] = Cell { ch: ' ', fg: g.fg, bg: g.bg };
                    }
                    _ => g.erase(here + g.x, here + w),
                }
            }
            7 | 8 => {
                let col = |r: &mut Rng| match r.below(4) {
                    0 => None,
                    1 => Some(r.below(16) as u8),
                    2 => Some(1),
                    _ => Some(r.below(256) as u8),
                };
                let (a, b) = (col(rng), col(rng));
                let s = |c: Option<u8>| c.map(|c| c.to_string()).unwrap_or("-".to_owned());
                order = format!("color {} {}", s(a), s(b));
                g.fg = a;
                g.bg = b;
            }
            9 => {
                order = "alt".to_owned();
                g.enter();
            }
            10 => {
                order = "noalt".to_owned();
                g.leave();
            }
            11 => {
                let b = rng.bool();
                order = if b { "show" } else { "hide" }.to_owned();
                g.visible = b;
            }
            12 => {
                let lim = |f: bool, e: usize, v: usize| if f { v.min(e) } else { v };
                let (x, y) = (rng.below(lim(fixed.0, said.0, w.min(known.0))), rng.below(lim(fixed.1, said.1, h.min(known.1))));
                order = format!("locate {} {}", x, y);
                g.goto(x, y);
            }
            13 => {
                let d = rng.range(-(w as i64), w as i64);
                order = format!("move {}", d);
                if d != 0 {
                    g.x = (g.x as i64 + d).clamp(0, w as i64 - 1) as usize;
                    g.pending = false;
                }
            }
            14 => match rng.below(4) {
                0 => {
                    let b = rng.chance(2, 3);
                    order = format!("sync {}", b as u8);
                    want = format!("was {}", sync);
                    sync = b;
                }
                1 => order = "syncnow".to_owned(),
                2 => {
                    order = "getcolor".to_owned();
                    want = format!("{:?}", (g.fg, g.bg));
                }
                _ => {
                    order = "size".to_owned();
                    if resizes {
                        // A resized window does not matter to what was shown.
                        size = (real_size.0 + rng.below(5), real_size.1 + rng.below(5));
                        // Some do not know their size.
                        match rng.below(12) {
                            0 => size = (0, 0),
                            1 => size.0 = 0,
                            2 => size.1 = 0,
                            _ => (),
                        }
                        t.resize(size.0, size.1);
                        c.saw("unknown sizes", u64::from(size.0 * size.1 == 0));
                    }
                    known = if size.0 * size.1 == 0 { (80, 24) } else { size };
                    let e = (
                        if fixed.0 { said.0 } else { known.0 } as u16,
                        if fixed.1 { said.1 } else { known.1 } as u16,
                    );
                    want = format!("{:?}", Some(e));
                }
            },
            _ if resizes => continue,
            _ => {
                // Some keys at once, which arrive in order and exactly once.  The library that
                // reads them may split sequences in, and stop reading, larger bursts.
                let large = rng.chance(1, 10);
                let m = if large { 200 } else { 1 + rng.below(6) };
                let mut bytes = vec![];
                let mut keys = vec![];
                let mut breaks = 0;
                while keys.len() < m {
                    if !large && rng.chance(1, 3) {
                        let (b, k) = rng.pick(KEYS);
                        if *k == "Escape" {
                            if keys.is_empty() {
                                bytes.extend_from_slice(b);
                                keys.push(k.to_string());
                                break;
                            }
                            continue;
                        }
                        bytes.extend_from_slice(b);
                        keys.push(k.to_string());
                        breaks += (*k == "Interrupt") as u64;
                    } else {
                        let ch = *rng.pick(&['a', 'Z', ' ', '0', '~', '[', 'é', '日', '"', 'O', ';']);
                        bytes.extend_from_slice(ch.to_string().as_bytes());
                        keys.push(format!("{:?}", Key::Char(ch)));
                    }
                }
                trace += &format!("type {:?}\n", String::from_utf8_lossy(&bytes));
                c.input(trace.clone());
                t.type_bytes(&bytes);
                let mut got = vec![];
                for _ in 0..m.min(keys.len()) {
                    got.push(p.ask("key").map_err(|e| dead(e, &trace))?);
                    if got.last().unwrap() == "timeout" {
                        break;
                    }
                }
                same("keys", &trace, &got, &keys)?;
                same("no more keys", &trace, &p.ask("poll").map_err(|e| dead(e, &trace))?, &"Some(None)".to_owned())?;
                let s = p.ask("signals").map_err(|e| dead(e, &trace))?;
                same("break signals", &trace, &s, &breaks.to_string())?;
                c.saw("keys", keys.len() as u64);
                order = "inter".to_owned();
                want = "true".to_owned();
            }
        }
        order = order.trim_end().to_owned();
        trace += &format!("{}\n", order);
        c.input(trace.clone());
        let a = p.ask(&order).map_err(|e| dead(e, &trace))?;
        same("outcome", &trace, &a, &want)?;
        c.saw("operations", 1);
        let shown = if sync || order == "syncnow" {
            t.wait(&g)
        } else {
            t.pump().map(|_| true)
        };
        if !shown.map_err(|e| viol(format!("output: {}", e), trace.clone()))? {
            let o = &t.vt.g;
            return Err(viol(
                "screen",
                format!(
                    "{}\n--- oracle {},{} {:?} {:?} {}\n{}\n--- observed {},{} {:?} {:?} {}\n{}",
                    trace, g.x, g.y, g.fg, g.bg, g.visible, g.text(), o.x, o.y, o.fg, o.bg, o.visible, o.text()
                ),
            ));
        }
        c.saw("screens compared", sync as u64);
    }
    let raw = t.modes();
    if raw == before {
        return Err(viol("terminal was not in raw mode", trace));
    }
    p.ask("drop").map_err(|e| dead(e, &trace))?;
    same("terminal modes", &trace, &t.modes(), &before)?;
    c.saw("restored terminals", 1);
    c.distinct(&trace);
    Ok(())
}

/// Without a terminal, the input is consumed by lines and the output is plain.
fn plain_case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let mut input = vec![];
    let mut keys = vec![];
    for _ in 0..rng.few(12) {
        if rng.chance(1, 8) {
            input.extend_from_slice(b"a\xff\xfeb\n");
            keys.push("Unknown".to_owned());
            continue;
        }
        for ch in some_text(rng, 30).chars() {
            if ch == '\n' {
                continue;
            }
            if ch == '\r' {
                // Ends of lines of other systems.
                input.push(b'\r');
                continue;
            }
            input.extend_from_slice(ch.to_string().as_bytes());
            keys.push(match ch {
                '\u{1b}' => "Escape".to_owned(),
                c if c.is_control() => "Unknown".to_owned(),
                c => format!("{:?}", Key::Char(c)),
            });
        }
        input.push(b'\n');
        keys.push("NewLine".to_owned());
    }
    keys.push("EofOrDelete".to_owned());
    keys.push("EofOrDelete".to_owned());
    let mut trace = format!("{:?}\n", String::from_utf8_lossy(&input));
    c.input(trace.clone());
    let (ir, iw) = pipe();
    let (or, ow) = pipe();
    let mut p = spawn(Stdio::from(ir), Stdio::from(ow), false, &[]);
    let mut iw = Some(File::from(iw));
    let mut out = File::from(or);
    let dead = |e: String, trace: &str| viol("console", format!("{}{}", trace, e));
    p.reply().map_err(|e| dead(e, &trace))?;
    iw.as_mut().unwrap().write_all(&input).unwrap();
    drop(iw.take());
    let mut text = String::new();
    for k in &keys {
        if rng.chance(1, 6) {
            let s = some_text(rng, 20);
            let nl = rng.bool();
            let o = format!("{} {}", if nl { "print" } else { "write" }, hex(s.as_bytes()));
            text += &clean(&s);
            if nl {
                text.push('\n');
            }
            trace += &format!("{}\n", o);
            p.ask(o.trim_end()).map_err(|e| dead(e, &trace))?;
            c.saw("plain output", 1);
        }
        let got = p.ask("key").map_err(|e| dead(e, &trace))?;
        same("plain keys", &trace, &got, k)?;
        c.saw("plain keys", 1);
    }
    // There is nothing after the end.
    for o in ["poll", "key", "poll"] {
        let got = p.ask(o).map_err(|e| dead(e, &trace))?;
        same("keys after the end", &trace, &got.contains("EofOrDelete"), &true)?;
    }
    same("interactive", &trace, &p.ask("inter").map_err(|e| dead(e, &trace))?, &"false".to_owned())?;
    p.ask("drop").map_err(|e| dead(e, &trace))?;
    drop(p);
    let mut got = String::new();
    out.read_to_string(&mut got).map_err(|e| viol("output", e.to_string()))?;
    same("plain text", &trace, &got, &text)?;
    c.distinct(&trace);
    Ok(())
}

pub fn t01() -> Prop {
    Prop {
        id: "T01",
        level: "exploration",
        rule: "one case is a process with a terminal console and up to 140 operations and bursts of keys on a pseudo-terminal, or one on pipes; distinct by the operations and keys.",
        assumptions: &[
            "the terminal behaves as xterm does; combining and wide characters are out of scope",
            "sequences of bytes for keys are those of xterm",
        ],
        require: &[
            ("operations", 20000),
            ("screens compared", 10000),
            ("keys", 5000),
            ("restored terminals", 200),
            ("plain keys", 5000),
        ],
        stages: vec![
            Stage { name: "tty", quick: 9000, thorough: 30000, f: tty_case },
            Stage { name: "plain", quick: 4000, thorough: 10000, f: plain_case },
        ],
        probes: vec![],
    }
}
