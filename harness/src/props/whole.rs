//! Properties of whole machines: crash-freedom, resets, paging and help, and pins.

use crate::con::Ev;
use crate::gen_::*;
use crate::lang::*;
use crate::mach::{self, M, Opts, Out};
use crate::raster;
use crate::rng::Rng;
use crate::runner::*;
use crate::trace;
use endbasic_std::console::{CharsXY, Key};
use endbasic_std::gpio::{MockPins, Pin, PinMode, Pins};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io;
use std::rc::Rc;

// C07 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum What {
    Value(Ty),
    Any,
    Array,
    Var,
}

#[derive(Clone, Debug)]
struct Param {
    name: String,
    what: What,
    optional: bool,
}

#[derive(Clone, Debug)]
struct Sig {
    name: String,
    ret: Option<Ty>,
    /// Parameters of each syntax and the type of those that follow them, if any.
    alts: Vec<(Vec<Param>, Option<What>)>,
}

fn ty_of_char(c: char) -> Option<Ty> {
    Some(match c {
        '?' => Ty::B,
        '%' => Ty::I,
        '#' => Ty::D,
        '$' => Ty::S,
        _ => return None,
    })
}

fn what(s: &str) -> What {
    match s.chars().last().and_then(ty_of_char) {
        Some(t) => What::Value(t),
        None if s == "array" || s == "points" => What::Array,
        None if s.starts_with("vref") => What::Var,
        None => What::Any,
    }
}

fn sigs(m: &M) -> Vec<Sig> {
    let mut v = vec![];
    for md in m.md.borrow().values() {
        let name = md.name().to_owned();
        // The clock is not the same twice.
        if name == "MONOTONIC" {
            continue;
        }
        let syn = md.syntax();
        let mut alts = vec![];
        for alt in syn.split(" | ") {
            let alt = alt.strip_prefix('<').and_then(|a| a.strip_suffix('>')).unwrap_or(alt);
            if alt.is_empty() || alt == "no arguments" {
                alts.push((vec![], None));
                continue;
            }
            let (base, rest) = match alt.split_once("[,") {
                Some((b, r)) => (b, Some(what(r.trim_end_matches(']').rsplit(' ').next().unwrap()))),
                None => (alt, None),
            };
            let params = base
                .split(", ")
                .map(|p| {
                    let optional = p.starts_with('[');
                    let p = p.trim_matches(|c| c == '[' || c == ']');
                    Param { name: p.to_owned(), what: what(p), optional }
                })
                .collect();
            alts.push((params, rest));
        }
        let ret = md.return_type().and_then(|t| t.annotation().to_string().chars().next()).and_then(ty_of_char);
        v.push(Sig { name, ret, alts });
    }
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

const NAMES: [&str; 16] = [
    "a.bas", "B", "c.txt", "MEMORY:/d.bas", "memory:e", "x:/f", "", "é.bas", ".", "..", "a/b", "DEMOS:/tour", "X:", ":", "none.bas",
    "A.BAS",
];
const TOPICS: [&str; 12] =
    ["", "PRINT", "con", "CONSOLE", "S", "gfx_", "Language reference", "é", "LEFT$", "left", "DIM", "Operators"];
const DRIVES: [&str; 8] = ["X", "memory", "MEMORY", "", "é", "a:b", "y/z", "NONE"];
const TARGETS: [&str; 6] = ["memory://", "memory", "none://", "", "://", "memory://x"];
const MODES: [&str; 6] = ["IN", "out", "in-pull-UP", "IN-PULL-DOWN", "", "é"];
const TEXTS: [&str; 16] = [
    "", "a", "é", "漢字", "12", "-1.5e3", " x ", "a b c", "\u{1F600}\u{301}", "1e999", "foo.bar", "\t", "%", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
    "nan", "0x10",
];
const INTS: [&str; 20] = [
    "0", "1", "-1", "2", "3", "7", "8", "15", "31", "32", "255", "256", "-256", "32767", "32768", "-32768", "65535", "65536",
    "2147483647", "(-2147483647 - 1)",
];
const DBLS: [&str; 14] = [
    "0.0", "-0.0", "1.0", "-1.0", "0.5", "-2.5", "10000000000.0", "-VAL(\"1e300\")", "VAL(\"1e308\")", "(0.0 / 1.0)", "3.14159", "VAL(\"1e-300\")",
    "2147483648.0", "(VAL(\"1e308\") * 10.0)",
];

struct Chaos<'a> {
    r: &'a mut Rng,
    sigs: &'a [Sig],
    depth: usize,
}

impl Chaos<'_> {
    fn text_for(&mut self, name: &str) -> String {
        let n = name.to_ascii_lowercase();
        let pool: &[&str] = if self.r.chance(1, 8) {
            &TEXTS
        } else if n.contains("filename") || n.contains("path") || n.contains("src") || n.contains("dest") {
            &NAMES
        } else if n.contains("topic") {
            &TOPICS
        } else if n.contains("drive") {
            &DRIVES
        } else if n.contains("target") {
            &TARGETS
        } else if n.contains("mode") {
            &MODES
        } else {
            &TEXTS
        };
        format!("\"{}\"", self.r.pick(pool))
    }

    fn expr(&mut self, t: Ty, name: &str) -> String {
        self.depth += 1;
        let e = self.expr2(t, name);
        self.depth -= 1;
        e
    }

    fn expr2(&mut self, t: Ty, name: &str) -> String {
        let deep = self.depth > 3;
        match self.r.below(if deep { 4 } else { 8 }) {
            0 | 1 => {
                let k = self.r.below(2);
                match t {
                    Ty::B => format!("b{}", k),
                    Ty::I => if self.r.chance(1, 4) { "ai(k)".to_owned() } else { format!("i{}", k) },
                    Ty::D => format!("d{}", k),
                    Ty::S => if self.r.chance(1, 4) { "at(k)".to_owned() } else { format!("s{}", k) },
                }
            }
            2 | 3 => match t {
                Ty::B => (*self.r.pick(&["TRUE", "FALSE"])).to_owned(),
                Ty::I => {
                    if self.r.bool() {
                        (*self.r.pick(&INTS)).to_owned()
                    } else {
                        format!("{}", self.r.below(100) as i32 - 10)
                    }
                }
                Ty::D => (*self.r.pick(&DBLS)).to_owned(),
                Ty::S => self.text_for(name),
            },
            4 => match t {
                Ty::B => {
                    let t = *self.r.pick(&[Ty::I, Ty::D, Ty::S]);
                    let op = *self.r.pick(&["=", "<>", "<", ">", "<=", ">="]);
                    format!("({} {} {})", self.expr(t, ""), op, self.expr(t, ""))
                }
                Ty::I => {
                    let op = *self.r.pick(&["+", "-", "*", "/", "MOD", "AND", "OR", "XOR", "<<", ">>", "^"]);
                    let (a, b) = (self.expr(t, ""), self.expr(t, ""));
                    if ["AND", "OR", "XOR", "<<", ">>"].contains(&op) {
                        format!("(CINT({}) {} CINT({}))", a, op, b)
                    } else {
                        format!("({} {} {})", a, op, b)
                    }
                }
                Ty::D => {
                    let op = *self.r.pick(&["+", "-", "*", "/", "MOD", "^"]);
                    format!("({} {} {})", self.expr(t, ""), op, self.expr(t, ""))
                }
                Ty::S => format!("({} + {})", self.text_for(name), self.text_for("")),
            },
            _ => {
                let of: Vec<&Sig> = self
                    .sigs
                    .iter()
                    .filter(|s| s.ret == Some(t) || (s.ret == Some(Ty::I) && t == Ty::D) || (s.ret == Some(Ty::D) && t == Ty::I))
                    .collect();
                if of.is_empty() {
                    return "b0".to_owned();
                }
                let s = (*self.r.pick(&of)).clone();
                self.call(&s)
            }
        }
    }

    fn args(&mut self, s: &Sig) -> Vec<String> {
        let (params, rest) = self.r.pick(&s.alts).clone();
        let mut out = vec![];
        let n = params.len();
        for (k, p) in params.iter().enumerate() {
            if p.optional && self.r.chance(1, 3) && n > 1 && k + 1 < n {
                out.push(String::new());
                continue;
            }
            // Sizes of texts are not limited.
            if s.name == "SPACE" {
                out.push(format!("{}", self.r.below(70) as i32 - 5));
                continue;
            }
            out.push(self.arg(&p.what, &p.name));
        }
        if let Some(w) = rest {
            for _ in 0..self.r.below(5) {
                out.push(self.arg(&w, ""));
            }
        }
        out
    }

    fn arg(&mut self, w: &What, name: &str) -> String {
        match w {
            What::Value(t) => {
                let t = match t {
                    Ty::I | Ty::D if self.r.chance(1, 4) => *self.r.pick(&[Ty::I, Ty::D]),
                    t => *t,
                };
                self.expr(t, name)
            }
            What::Any => {
                let t = *self.r.pick(&[Ty::B, Ty::I, Ty::D, Ty::S]);
                self.expr(t, name)
            }
            What::Array => (*self.r.pick(&["ai", "a2", "at", "pts"])).to_owned(),
            What::Var => {
                let k = self.r.below(2);
                format!("{}{}", self.r.pick(&["b", "i", "d", "s"]), k)
            }
        }
    }

    fn call(&mut self, s: &Sig) -> String {
        let args = self.args(s).join(", ");
        if args.is_empty() && s.alts.len() == 1 { s.name.clone() } else { format!("{}({})", s.name, args) }
    }

    fn command(&mut self) -> String {
        let cmds: Vec<&Sig> = self.sigs.iter().filter(|s| s.ret.is_none()).collect();
        let s = (*self.r.pick(&cmds)).clone();
        // Commands that stop the script are less frequent.
        if ["RUN", "LOAD", "NEW", "CLEAR"].contains(&s.name.as_str()) && self.r.chance(3, 4) {
            return "k = k + 1".to_owned();
        }
        match s.name.as_str() {
            "PRINT" => {
                let mut o = "PRINT ".to_owned();
                for _ in 0..self.r.below(4) {
                    if self.r.chance(4, 5) {
                        o.push_str(&self.arg(&What::Any, ""));
                    }
                    o.push_str(self.r.pick(&["; ", ", "]));
                }
                o.push_str(&self.arg(&What::Any, ""));
                o
            }
            "INPUT" => match self.r.below(3) {
                0 => format!("INPUT {}", self.arg(&What::Var, "")),
                1 => format!("INPUT {}; {}", self.expr(Ty::S, ""), self.arg(&What::Var, "")),
                _ => format!("INPUT {}, {}", self.expr(Ty::S, ""), self.arg(&What::Var, "")),
            },
            "READ" => {
                let n = 1 + self.r.few(3);
                let v: Vec<String> = (0..n).map(|_| self.arg(&What::Var, "")).collect();
                format!("READ {}", v.join(", "))
            }
            "MOUNT" => {
                if self.r.chance(1, 5) {
                    "MOUNT".to_owned()
                } else {
                    format!("MOUNT {} AS {}", self.expr(Ty::S, "target"), self.expr(Ty::S, "drive"))
                }
            }
            "RANDOMIZE" => format!("RANDOMIZE {}", self.expr(Ty::I, "")),
            _ => format!("{} {}", s.name, self.args(&s).join(", ")),
        }
    }

    fn stmt(&mut self, out: &mut String, depth: usize) {
        match self.r.below(if depth > 1 { 9 } else { 13 }) {
            0 | 1 => {
                let k = self.r.below(2);
                let t = *self.r.pick(&[Ty::B, Ty::I, Ty::D, Ty::S]);
                let v = match t {
                    Ty::B => "b",
                    Ty::I => "i",
                    Ty::D => "d",
                    Ty::S => "s",
                };
                let e = self.expr(t, "");
                out.push_str(&format!("{}{} = {}\n", v, k, e));
            }
            2 => {
                let e = self.expr(Ty::I, "");
                out.push_str(&format!("ai({}) = {}\n", self.r.below(5), e));
            }
            3..=8 => {
                let c = self.command();
                out.push_str(&c);
                out.push('\n');
            }
            9 => {
                let e = self.expr(Ty::B, "");
                out.push_str(&format!("IF {} THEN\n", e));
                self.stmts(out, depth + 1);
                out.push_str("ELSE\n");
                self.stmts(out, depth + 1);
                out.push_str("END IF\n");
            }
            10 => {
                out.push_str(&format!("FOR n{} = 1 TO {}\n", depth, 1 + self.r.below(4)));
                self.stmts(out, depth + 1);
                out.push_str("NEXT\n");
            }
            11 => {
                let e = self.expr(Ty::I, "");
                out.push_str(&format!("SELECT CASE {}\nCASE IS > 5\n", e));
                self.stmts(out, depth + 1);
                out.push_str("CASE ELSE\n");
                self.stmts(out, depth + 1);
                out.push_str("END SELECT\n");
            }
            _ => {
                let t = self.expr(Ty::S, "");
                out.push_str(&format!("work {}, i0\n", t));
            }
        }
    }

    fn stmts(&mut self, out: &mut String, depth: usize) {
        for _ in 0..1 + self.r.below(3) {
            self.stmt(out, depth);
        }
    }

    fn chunk(&mut self, first: bool) -> String {
        let mut o = String::new();
        if first {
            o.push_str("RANDOMIZE 7\n");
        }
        o.push_str("SUB work(t$, n%)\nDIM u AS STRING\nu = t + \"!\"\nPRINT u; n\nEND SUB\n");
        o.push_str(PRELUDE);
        match self.r.below(4) {
            0 => (),
            1 => o.push_str("ON ERROR GOTO @bad\n"),
            _ => o.push_str("ON ERROR RESUME NEXT\n"),
        }
        for _ in 0..3 + self.r.below(14) {
            self.stmt(&mut o, 0);
        }
        o.push_str("DATA 1, , \"x\", TRUE, 2.5, -3\nEND\n@bad\nPRINT ERRMSG\n");
        o
    }
}

/// Declarations shared by every chunk; they run on cleared machines.
const PRELUDE: &str = "DIM ai(5) AS INTEGER: DIM k AS INTEGER\nDIM a2(2, 3) AS DOUBLE: DIM at(4) AS STRING: DIM pts(3, 2) AS INTEGER
b0 = TRUE: b1 = FALSE: i0 = 1: i1 = 77: d0 = 1.5: d1 = -3.25: s0 = \"abc\": s1 = \"é x\"\n";

struct Sight {
    outs: Vec<Out>,
    text: String,
}

fn mask_dates(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let pat = "dddd-dd-dd dd:dd";
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let m = i + pat.len() <= b.len()
            && pat.chars().zip(&b[i..]).all(|(p, c)| if p == 'd' { c.is_ascii_digit() } else { p == *c });
        if m {
            out.push_str("DATE");
            i += pat.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

#[derive(Clone)]
struct Setting {
    graphics: Option<(usize, usize, usize, bool)>,
    size: (u16, u16),
    interactive: bool,
    pins: bool,
    fail: Option<u64>,
    keys: Vec<Key>,
    chunks: Vec<String>,
    program: String,
}

fn observe(s: &Setting) -> Result<Sight, String> {
    let gc = match s.graphics {
        None => None,
        Some((w, h, f, deep)) => {
            let font = raster::FONTS[f];
            let fits = w >= font.glyph_size.width && h >= font.glyph_size.height;
            match raster::try_console(w, h, font, deep, None, None) {
                Ok(g) if fits => Some(g),
                Err(_) if !fits => return Ok(Sight { outs: vec![], text: "too small".to_owned() }),
                r => return Err(format!("console of a wrong size: {} {:?}", fits, r.err())),
            }
        }
    };
    let pins: Option<Rc<RefCell<dyn Pins>>> = if s.pins { Some(Rc::new(RefCell::new(MockPins::default()))) } else { None };
    let log = trace::Log::default();
    let mut m = mach::build(Opts {
        console: gc.as_ref().map(|g| g.con.clone()),
        pins,
        yield_limit: if s.graphics.is_some() { 300 } else { 3000 },
        callables: trace::callables(&log),
        ..Opts::default()
    });
    {
        let mut c = m.console.borrow_mut();
        c.size = CharsXY::new(s.size.0, s.size.1);
        c.interactive = s.interactive;
        c.keys = s.keys.iter().copied().collect();
        c.idle = vec![Key::Escape, Key::NewLine, Key::Char('y'), Key::NewLine, Key::Char('1'), Key::NewLine, Key::EofOrDelete, Key::Interrupt];
        c.pixels = Some((300, 200));
        c.glyph = Some((8, 8));
    }
    if let Some(g) = &gc {
        *g.keys.borrow_mut() = s.keys.iter().copied().collect();
        g.idle.borrow_mut().extend([Key::Escape, Key::NewLine, Key::Char('y'), Key::NewLine, Key::Char('1'), Key::NewLine, Key::EofOrDelete, Key::Interrupt]);
    }
    let put = |n: &str, b: &[u8]| futures_lite::future::block_on(m.storage.borrow_mut().put(n, b)).unwrap();
    put("a.bas", s.program.as_bytes());
    put("c.txt", b"\xff\xfe no program");
    put("b.bas", b"PRINT 5\nEND 3\n");
    let mut outs = vec![];
    for (k, chunk) in s.chunks.iter().enumerate() {
        if k == 1 {
            m.console.borrow_mut().fail_after = s.fail;
            if let Some(g) = &gc {
                g.panel.borrow_mut().fail_after = s.fail;
            }
        }
        m.machine.clear();
        let o = m.run(chunk);
        if let Out::Compile(e) | Out::Runtime(e) = &o {
            let line: Option<usize> = e.split(':').next().and_then(|l| l.parse().ok());
            let max = chunk.lines().count().max(s.program.lines().count()).max(1000);
            if line.is_none_or(|l| l == 0 || l > max) {
                return Err(format!("error without a position: {}", e));
            }
        }
        outs.push(o);
    }
    m.console.borrow_mut().fail_after = None;
    if let Some(g) = &gc {
        g.panel.borrow_mut().fail_after = None;
    }
    // Still alive.
    m.machine.clear();
    log.borrow_mut().clear();
    while let Out::Break = m.run("") {}
    let o = m.run("zz = 40: TR zz + 2: PRINT \"ok\"");
    if o != Out::Eof || *log.borrow() != ["I:42"] {
        return Err(format!("machine dead: {:?} {:?}", o, log.borrow()));
    }
    let mut text = mask_dates(&format!("{:?}", m.console.borrow().log));
    if let Some(g) = &gc {
        let h = g.panel.borrow().px.iter().fold(0u64, |h, p| crate::rng::mix(h ^ ((p.0 as u64) << 16 | (p.1 as u64) << 8 | p.2 as u64)));
        // Listings of files show the time.
        text.push_str(&format!(" {:x}", if s.chunks.iter().any(|c| c.contains("DIR")) { 0 } else { h }));
    }
    Ok(Sight { outs, text })
}

fn chaos(c: &mut Case, graphics: bool) -> R {
    let sigs = {
        let m = mach::build(Opts::default());
        sigs(&m)
    };
    let r = &mut c.rng;
    let mut g = Chaos { r, sigs: &sigs, depth: 0 };
    let n = 1 + g.r.few(3);
    let chunks: Vec<String> = (0..n).map(|k| g.chunk(k == 0)).collect();
    let mut program = String::new();
    for _ in 0..g.r.below(8) {
        let mut s = String::new();
        g.stmt(&mut s, 2);
        if !["RUN", "NEW", "LOAD", "CLEAR"].iter().any(|w| s.contains(w)) {
            program.push_str(&s);
        }
    }
    let r = g.r;
    let setting = Setting {
        graphics: graphics.then(|| (1 + r.below(64), 1 + r.below(64), r.below(3), r.bool())),
        size: if r.bool() { (80, 24) } else { (1 + r.below(90) as u16, 1 + r.below(30) as u16) },
        interactive: r.bool(),
        pins: r.bool(),
        fail: r.chance(1, 5).then(|| r.below(40) as u64),
        keys: (0..r.few(60)).map(|_| super::ui::random_key(r)).collect(),
        chunks,
        program,
    };
    let about = format!(
        "graphics {:?} size {:?} interactive {} pins {} fail {:?}\nkeys {:?}\n--- a.bas\n{}\n--- script\n{}",
        setting.graphics,
        setting.size,
        setting.interactive,
        setting.pins,
        setting.fail,
        setting.keys,
        setting.program,
        setting.chunks.join("----\n")
    );
    c.input(about.clone());
    let a = observe(&setting).map_err(|e| viol(mask(&e), format!("{}\n{}", about, e)))?;
    let b = observe(&setting).map_err(|e| viol(mask(&e), format!("{}\n{}", about, e)))?;
    if a.outs != b.outs || a.text != b.text {
        return Err(viol("not deterministic", format!("{}\n--- first\n{:?}\n{}\n--- then\n{:?}\n{}", about, a.outs, a.text, b.outs, b.text)));
    }
    for o in &a.outs {
        c.saw(
            match o {
                Out::Compile(_) => "chunks rejected",
                Out::Runtime(_) => "chunks failed",
                Out::Break => "chunks interrupted",
                Out::Io(_) => "other failures",
                _ => "chunks completed",
            },
            1,
        );
    }
    c.distinct(&a.text);
    c.sample(|| about.clone());
    Ok(())
}

fn mask(s: &str) -> String {
    s.split(':').next().unwrap_or("").to_owned()
}

fn c07_text(c: &mut Case) -> R {
    chaos(c, false)
}

fn c07_graphics(c: &mut Case) -> R {
    chaos(c, true)
}

// S13 -----------------------------------------------------------------------------------------

/// Pins that record what they are told and fail when told to.
#[derive(Default)]
struct Board {
    log: Vec<String>,
    fail: bool,
    level: BTreeMap<u8, bool>,
}

impl Board {
    fn op(&mut self, s: String) -> io::Result<()> {
        self.log.push(s);
        if self.fail { Err(io::Error::other("Broken board")) } else { Ok(()) }
    }
}

impl Pins for Board {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn setup(&mut self, pin: Pin, mode: PinMode) -> io::Result<()> {
        self.op(format!("setup {} {:?}", pin.0, mode))
    }
    fn clear(&mut self, pin: Pin) -> io::Result<()> {
        self.op(format!("clear {}", pin.0))
    }
    fn clear_all(&mut self) -> io::Result<()> {
        self.op("clear all".to_owned())
    }
    fn read(&mut self, pin: Pin) -> io::Result<bool> {
        self.op(format!("read {}", pin.0))?;
        Ok(self.level.get(&pin.0).copied().unwrap_or(false))
    }
    fn write(&mut self, pin: Pin, v: bool) -> io::Result<()> {
        self.op(format!("write {} {}", pin.0, v))
    }
}

fn pin_number(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => *r.pick(&[-1, 256, -i32::MAX, i32::MAX, 65536, -256, 257]),
        1 => *r.pick(&[0, 255, 128, 127]),
        _ => r.below(40) as i32,
    }
}

fn bad_pin(p: i32) -> Option<String> {
    if p < 0 {
        Some(format!("Pin number {} must be positive", p))
    } else if p > 255 {
        Some(format!("Pin number {} is too large", p))
    } else {
        None
    }
}

fn mode_text(r: &mut Rng) -> (String, Option<&'static str>) {
    let (s, m) = *r.pick(&[
        ("in", Some("In")),
        ("in-pull-down", Some("InPullDown")),
        ("in-pull-up", Some("InPullUp")),
        ("out", Some("Out")),
        ("", None),
        ("in ", None),
        ("in-pull", None),
        ("outé", None),
        ("ın", None),
    ]);
    let s: String = s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect();
    (s, m)
}

fn s13_pins(c: &mut Case) -> R {
    let board = Rc::new(RefCell::new(Board::default()));
    let mock = Rc::new(RefCell::new(MockPins::default()));
    let use_mock = c.rng.bool();
    let pins: Rc<RefCell<dyn Pins>> = if use_mock { mock.clone() } else { board.clone() };
    let log = trace::Log::default();
    let mut m = mach::build(Opts { pins: Some(pins), callables: trace::callables(&log), ..Opts::default() });
    let mut text = format!("mock {}\n", use_mock);
    // Model of the mock.
    let mut reads: VecDeque<(i32, bool)> = VecDeque::new();
    let mut ops: Vec<i32> = vec![];
    for _ in 0..1 + c.rng.below(25) {
        let r = &mut c.rng;
        board.borrow_mut().log.clear();
        board.borrow_mut().fail = r.chance(1, 8);
        let fail = board.borrow().fail && !use_mock;
        for p in 0..40u8 {
            let v = r.bool();
            board.borrow_mut().level.insert(p, v);
        }
        let p = pin_number(r);
        let level = board.borrow().level.get(&(p as u8)).copied().unwrap_or(false);
        let v = r.bool();
        let vt = if v { "TRUE" } else { "FALSE" };
        let mut want: Result<Vec<String>, (usize, String)> = Ok(vec![]);
        let mut want_board: Vec<String> = vec![];
        let src;
        let io_err = |col: usize| Err((col, "Broken board".to_owned()));
        match r.below(if use_mock { 9 } else { 6 }) {
            0 => {
                let (s, mode) = mode_text(r);
                src = format!("GPIO_SETUP {}, \"{}\"", p, s);
                let col = 13 + format!("{}", p).len() + 1;
                match (bad_pin(p), mode) {
                    (Some(e), _) => want = Err((12, e)),
                    (None, None) => want = Err((col, format!("Unknown pin mode {}", s.to_ascii_uppercase()))),
                    (None, Some(mo)) => {
                        want_board.push(format!("setup {} {}", p, mo));
                        let k = ["In", "InPullDown", "InPullUp", "Out"].iter().position(|x| *x == mo).unwrap();
                        ops.push(p * 100 + 1 + k as i32);
                        if fail {
                            want = io_err(1);
                        }
                    }
                }
            }
            1 => {
                src = format!("GPIO_CLEAR {}", p);
                match bad_pin(p) {
                    Some(e) => want = Err((12, e)),
                    None => {
                        want_board.push(format!("clear {}", p));
                        ops.push(p * 100 + 5);
                        if fail {
                            want = io_err(1);
                        }
                    }
                }
            }
            2 => {
                src = "GPIO_CLEAR".to_owned();
                want_board.push("clear all".to_owned());
                ops.push(-1);
                if fail {
                    want = io_err(1);
                }
            }
            3 => {
                src = format!("TR GPIO_READ({})", p);
                match bad_pin(p) {
                    Some(e) => want = Err((14, e)),
                    None if use_mock => match reads.pop_front() {
                        Some((q, v)) if q == p => {
                            ops.push(p * 100 + if v { 11 } else { 10 });
                            want = Ok(vec![format!("B:{}", v)]);
                        }
                        Some((q, _)) => want = Err((4, format!("Want to read pin {} but next mock read is for pin {}", p, q))),
                        None => want = Err((4, format!("No mock read available for pin {}", p))),
                    },
                    None => {
                        want_board.push(format!("read {}", p));
                        want = if fail { io_err(4) } else { Ok(vec![format!("B:{}", level)]) };
                    }
                }
            }
            4 => {
                src = format!("GPIO_WRITE {}, {}", p, vt);
                match bad_pin(p) {
                    Some(e) => want = Err((12, e)),
                    None => {
                        want_board.push(format!("write {} {}", p, v));
                        ops.push(p * 100 + if v { 21 } else { 20 });
                        if fail {
                            want = io_err(1);
                        }
                    }
                }
            }
            5 => {
                // Clearing resets all pins, once, and ignores failures.
                src = "x = 3: CLEAR".to_owned();
                want_board.push("clear all".to_owned());
                ops.push(-1);
            }
            6 | 7 => {
                let p = if r.chance(1, 6) { p } else { r.below(4) as i32 };
                src = format!("GPIO_MOCK_INJECT {}, {}", p, vt);
                match bad_pin(p) {
                    Some(e) => want = Err((18, e)),
                    None => reads.push_back((p, v)),
                }
            }
            _ => {
                let n = reads.front().map(|f| f.0).unwrap_or(p.rem_euclid(256));
                src = format!("TR GPIO_READ({})", n);
                match reads.pop_front() {
                    Some((_, v)) => {
                        ops.push(n * 100 + if v { 11 } else { 10 });
                        want = Ok(vec![format!("B:{}", v)]);
                    }
                    None => want = Err((4, format!("No mock read available for pin {}", n))),
                }
            }
        }
        text.push_str(&src);
        text.push('\n');
        c.input(text.clone());
        log.borrow_mut().clear();
        let out = m.run(&src);
        let got_board = board.borrow().log.clone();
        let got: Vec<String> = log.borrow().clone();
        let show = |s: &str| {
            viol(s, format!("{}\n--- oracle {:?} {:?}\n--- observed {:?} {:?} {:?}", text, want, want_board, out, got, got_board))
        };
        match (&want, &out) {
            (Ok(w), Out::Eof) if *w == got => c.saw("operations", 1),
            (Err((col, e)), Out::Runtime(x)) if *x == format!("1:{}: {}", col, e) => c.saw("errors", 1),
            _ => return Err(show("wrong outcome of an operation on pins")),
        }
        if !use_mock && got_board != want_board {
            return Err(show("pins were told something else"));
        }
        if use_mock {
            let t = mock.borrow().trace().to_vec();
            if t != ops {
                return Err(viol("trace of the mock pins differs", format!("{}\n--- oracle {:?}\n--- observed {:?}", text, ops, t)));
            }
            log.borrow_mut().clear();
            let o = m.run("TR GPIO_MOCK_TRACE");
            let s: Vec<String> = ops.iter().map(|o| o.to_string()).collect();
            if o != Out::Eof || *log.borrow() != [format!("S:{}", s.join(" "))] {
                return Err(show("GPIO_MOCK_TRACE differs"));
            }
        }
    }
    c.distinct(&text);
    c.sample(|| text.clone());
    Ok(())
}

// S14 -----------------------------------------------------------------------------------------

const NARROW: &str = " << More >> ";
const WIDE: &str = " << Press any key for more; ESC or Ctrl+C to stop >> ";

/// Machine with a recording console of a size.
fn sized(w: u16, h: u16, interactive: bool) -> M {
    let m = mach::build(Opts::default());
    m.console.borrow_mut().size = CharsXY::new(w, h);
    m.console.borrow_mut().interactive = interactive;
    m
}

/// Complete lines of what was printed, and events that are not text.
fn lines(evs: &[Ev]) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for e in evs {
        match e {
            Ev::Write(s) => cur.push_str(s),
            Ev::Print(s) => {
                cur.push_str(s);
                v.push(std::mem::take(&mut cur));
            }
            _ => (),
        }
    }
    v
}

/// Monitors the pauses of one execution and returns its lines without them.
fn paused(evs: &[Ev], w: u16, h: u16, interactive: bool) -> Result<(Vec<String>, usize), String> {
    let (w, h) = (w as usize, h as usize);
    let more = if w < 50 { NARROW } else { WIDE };
    let mut out = vec![];
    let (mut low, mut high) = (0, 0);
    let mut pauses = 0;
    for l in lines(evs) {
        if l == more && interactive {
            if high < h - 1 {
                return Err(format!("paused after {} of {} rows", high, h));
            }
            (low, high) = (0, 0);
            pauses += 1;
            continue;
        }
        if interactive && low > 0 && low >= h - 1 {
            return Err(format!("did not pause after {} of {} rows", low, h));
        }
        low += l.chars().count().div_ceil(w).max(1);
        high += l.len() / w + 1;
        out.push(l);
    }
    if interactive && low >= h - 1 && low > 0 {
        return Err(format!("did not pause after the last {} of {} rows", low, h));
    }
    Ok((out, pauses))
}

fn words(l: &[String]) -> Vec<String> {
    l.iter().flat_map(|l| l.split_whitespace().map(|s| s.to_owned()).collect::<Vec<_>>()).collect()
}

fn is_prefix(a: &[String], b: &[String]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}

/// Runs `src` on a new console of a size; returns what happened.
fn page(m: &M, mm: &mut M, src: &str, keys: &[Key]) -> (Out, Vec<Ev>, u64) {
    let _ = m;
    mm.console.borrow_mut().log.clear();
    mm.console.borrow_mut().keys = keys.iter().copied().collect();
    mm.console.borrow_mut().keys_read = 0;
    let o = mm.run(src);
    let evs = std::mem::take(&mut mm.console.borrow_mut().log);
    let n = mm.console.borrow().keys_read;
    (o, evs, n)
}

fn s14_help(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (w, h) = (1 + r.below(100) as u16, 1 + r.below(40) as u16);
    let mut base = sized(80, 24, false);
    let table: Vec<(String, Vec<String>)> = base
        .md
        .borrow()
        .values()
        .map(|md| {
            let name = match md.return_type() {
                None => md.name().to_owned(),
                Some(t) => format!("{}{}", md.name(), t.annotation()),
            };
            (name, md.description().flat_map(|l| l.split_whitespace().map(|s| s.to_owned()).collect::<Vec<_>>()).collect())
        })
        .collect();
    let mut table: BTreeMap<String, Vec<String>> = table.into_iter().collect();
    // Categories.
    let mut cats: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for md in base.md.borrow().values() {
        let t = md.category().lines().next().unwrap().to_owned();
        let name = match md.return_type() {
            None => md.name().to_owned(),
            Some(t) => format!("{}{}", md.name(), t.annotation()),
        };
        cats.entry(t).or_default().insert(name);
    }
    let (_, evs, _) = {
        let m = sized(80, 24, false);
        let mut mm = sized(80, 24, false);
        page(&m, &mut mm, "HELP \"Language reference\"", &[])
    };
    let mut lang: BTreeSet<String> = BTreeSet::new();
    for l in lines(&evs) {
        if let Some(rest) = l.strip_prefix("    >> ") {
            lang.insert(rest.split("    ").next().unwrap().trim_end().to_owned());
        }
    }
    if lang.len() < 10 {
        return Err(viol("language reference without topics", format!("{:?}", lang)));
    }
    let mut all: BTreeMap<String, String> = BTreeMap::new();
    for n in table.keys().chain(cats.keys()).chain(lang.iter()) {
        all.insert(n.to_ascii_uppercase(), n.clone());
    }
    all.insert("LANGUAGE REFERENCE".to_owned(), "Language reference".to_owned());
    // What to ask for.
    let names: Vec<String> = all.keys().cloned().collect();
    let mut ask = r.pick(&names).clone();
    match r.below(5) {
        0 => (),
        1 | 2 => {
            let n = r.below(ask.chars().count() + 1);
            ask = ask.chars().take(n).collect();
        }
        3 => ask.push(*r.pick(&['X', '$', 'é', ' '])),
        _ => ask = super::std1::text(r).replace('"', "").replace(['\n', '\r', '\\'], ""),
    }
    let ask: String = ask.chars().map(|ch| if r.bool() { ch.to_ascii_lowercase() } else { ch }).collect();
    let src = if r.chance(1, 8) { "HELP".to_owned() } else { format!("HELP \"{}\"", ask) };
    let key = ask.to_ascii_uppercase();
    let cands: Vec<&String> = all.keys().filter(|k| k.starts_with(&key)).collect();
    let interactive = r.chance(2, 3);
    let stop = r.chance(1, 3).then(|| 1 + r.below(4));
    let keys: Vec<Key> = (0..2000)
        .map(|k| match stop {
            Some(n) if k + 1 == n => *r.pick(&[Key::Escape, Key::Interrupt]),
            _ => *r.pick(&[Key::NewLine, Key::Char('x'), Key::ArrowDown, Key::PageDown]),
        })
        .collect();
    let about = format!("{}x{} interactive {} stop {:?}\n{}", w, h, interactive, stop, src);
    c.input(about.clone());
    let fg = *c.rng.pick(&[None, Some(3)]);
    let bg = *c.rng.pick(&[None, Some(5)]);
    let mut m = sized(w, h, interactive);
    m.console.borrow_mut().fg = fg;
    m.console.borrow_mut().bg = bg;
    let dummy = sized(1, 1, false);
    let (out, evs, used) = page(&dummy, &mut m, &src, &keys);
    let show = |s: &str| viol(s.split(':').next().unwrap(), format!("{}\n{}\n--- observed {:?} keys {}\n{}", about, s, out, used, lines(&evs).join("\n")));
    let (got, pauses) = paused(&evs, w, h, interactive).map_err(|e| show(&format!("paging: {}", e)))?;
    if used != pauses as u64 {
        return Err(show("keys: not one per pause"));
    }
    // The reference, without pauses nor limits of width.
    let mut wide = sized(1000, 24, false);
    let (wout, wevs, _) = page(&dummy, &mut wide, &src, &[]);
    let reference = lines(&wevs);
    let found = src == "HELP" || all.contains_key(&key) || cands.len() == 1;
    if !found {
        let want = if cands.is_empty() {
            format!("1:6: Unknown help topic {}", ask)
        } else {
            format!("1:6: Ambiguous help topic {}; candidates are: ", ask)
        };
        match &out {
            Out::Runtime(e) if cands.is_empty() && *e == want => (),
            Out::Runtime(e) if !cands.is_empty() && e.starts_with(&want) => {
                let mut v: Vec<&str> = e[want.len()..].split(", ").collect();
                v.sort();
                let names: Vec<&str> = cands.iter().map(|s| s.as_str()).collect();
                if v != names {
                    return Err(show("candidates: not those"));
                }
            }
            _ => return Err(show("topic: must not be found")),
        }
        if !evs.is_empty() {
            return Err(show("topic: something shown"));
        }
        c.saw("unknown topics", 1);
        return Ok(());
    }
    if wout != Out::Eof {
        return Err(show("topic: not found"));
    }
    if let (Some(n), true) = (stop, interactive)
        && pauses >= n
    {
        if out != Out::Runtime("1:1: Interrupted".to_owned()) && out != Out::Break {
            return Err(show("stop: not reported"));
        }
        if pauses != n || !is_prefix(&words(&got), &words(&reference)) {
            return Err(show("stop: not in time"));
        }
        c.saw("interrupted", 1);
    } else {
        if out != Out::Eof {
            return Err(show("topic: failed"));
        }
        if words(&got) != words(&reference) {
            return Err(show(&format!("words: differ from\n{}", reference.join("\n"))));
        }
        c.saw("pauses", pauses as u64);
    }
    let (nfg, nbg) = (m.console.borrow().fg, m.console.borrow().bg);
    if (nfg, nbg) != (fg, bg) {
        return Err(show("colors: not restored"));
    }
    for l in &got {
        let n = l.chars().count();
        if n > w as usize && l.split_whitespace().count() > 1 && !l.starts_with("    >> ") {
            return Err(show(&format!("width: line too long: {}", l)));
        }
    }
    // Everything documented is there.
    if src == "HELP" {
        for cat in cats.keys() {
            if !reference.iter().any(|l| l == &format!("    >> {}", cat)) {
                return Err(show(&format!("summary: lacks {}", cat)));
            }
        }
    } else {
        let k = if all.contains_key(&key) { &key } else { cands[0] };
        let name = &all[k];
        if let Some(d) = table.remove(name) {
            let ws = words(&reference);
            if !ws.windows(d.len()).any(|x| x == d) {
                return Err(show("description: not shown"));
            }
            c.saw("descriptions shown", 1);
        } else if let Some(v) = cats.get(name) {
            for n in v {
                if !reference.iter().any(|l| l.strip_prefix("    >> ").is_some_and(|l| l.split(' ').next() == Some(n))) {
                    return Err(show(&format!("category: lacks {}", n)));
                }
            }
            c.saw("categories shown", 1);
        }
    }
    let _ = &mut base;
    c.distinct(&(got, pauses));
    Ok(())
}

/// Listings show every line, pause in time and stop when told to.
fn s14_list(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (w, h) = (1 + r.below(60) as u16, 1 + r.below(30) as u16);
    let n = r.few(60);
    let wide = r.chance(1, 3);
    let mut text = vec![];
    for k in 0..n {
        let len = if r.chance(1, 4) { r.below(150) } else { r.below(20) };
        let pad: String = (0..len).map(|_| *r.pick(if wide { &['a', 'é', ' ', '漢'] } else { &['a', 'b', ' ', 'd'] })).collect();
        text.push(format!("'{}{}", k, pad));
    }
    let src = match r.below(4) {
        0 => "DIR",
        _ => "LIST",
    };
    let stop = r.chance(1, 3).then(|| 1 + r.below(5));
    let keys: Vec<Key> = (0..2000)
        .map(|k| match stop {
            Some(n) if k + 1 == n => *r.pick(&[Key::Escape, Key::Interrupt]),
            _ => *r.pick(&[Key::NewLine, Key::Char('x'), Key::ArrowDown]),
        })
        .collect();
    let interactive = r.chance(3, 4);
    let about = format!("{}x{} interactive {} stop {:?} {}\n{}", w, h, interactive, stop, src, text.join("\n"));
    c.input(about.clone());
    let mut m = sized(w, h, interactive);
    let mut names: Vec<String> = vec![];
    let body = text.iter().map(|l| format!("{}\n", l)).collect::<String>();
    futures_lite::future::block_on(m.storage.borrow_mut().put("p.bas", body.as_bytes())).unwrap();
    if src == "DIR" {
        for k in 0..n {
            let name = format!("f{}{}.txt", k, "x".repeat(c.rng.below(30)));
            futures_lite::future::block_on(m.storage.borrow_mut().put(&name, &vec![b'z'; k])).unwrap();
            names.push(name);
        }
        names.push("p.bas".to_owned());
        names.sort();
    }
    let o = m.run("LOAD \"p.bas\"");
    if o != Out::Eof {
        return Err(viol("cannot load", format!("{} {:?}", about, o)));
    }
    let dummy = sized(1, 1, false);
    let (out, evs, used) = page(&dummy, &mut m, src, &keys);
    let show = |s: &str| viol(s.split(':').next().unwrap(), format!("{}\n{}\n--- observed {:?} keys {}\n{}", about, s, out, used, lines(&evs).join("\n")));
    let (got, pauses) = paused(&evs, w, h, interactive).map_err(|e| show(&format!("paging: {}", e)))?;
    if used != pauses as u64 {
        return Err(show("keys: not one per pause"));
    }
    let stopped = stop.is_some_and(|n| interactive && pauses >= n);
    if stopped {
        if pauses != stop.unwrap() {
            return Err(show("stop: not in time"));
        }
        if out != Out::Runtime("1:1: Interrupted".to_owned()) && out != Out::Break {
            return Err(show("stop: not reported"));
        }
        c.saw("interrupted", 1);
    } else if out != Out::Eof {
        return Err(show("listing: failed"));
    }
    if src == "LIST" {
        let mut want = text.clone();
        if want.is_empty() {
            want.push(String::new());
        }
        if if stopped { !is_prefix(&got, &want) } else { got != want && !(n == 0 && got.is_empty()) } {
            return Err(show("listing: differs"));
        }
    } else {
        let files: Vec<String> =
            got.iter().filter_map(|l| l.split_whitespace().last()).filter(|w| w.ends_with(".txt") || w.ends_with(".bas")).map(|s| s.to_owned()).collect();
        if if stopped { !is_prefix(&files, &names) } else { files != names } {
            return Err(show("listing: files differ"));
        }
    }
    c.saw("pauses", pauses as u64);
    c.distinct(&(got, pauses));
    Ok(())
}

// S15 -----------------------------------------------------------------------------------------

/// Statements that change the state of a machine, to run before clearing it.
const DIRT: [&str; 24] = [
    "DEG",
    "RAD",
    "COLOR 3, 4",
    "GFX_SYNC FALSE",
    "ON ERROR RESUME NEXT: x = 1 / 0",
    "ON ERROR GOTO @nope\nx = 1 / 0\n@nope\nY = 1",
    "READ q: DATA 5, 6, 7",
    "DIM SHARED v1 AS STRING: v1 = \"dirt\"",
    "DIM v1(3) AS DOUBLE",
    "v1 = \"text\"",
    "v2 = 2.5",
    "FUNCTION fn1(a$)\nfn1 = 3\nEND FUNCTION",
    "SUB fn1\nPRINT 8\nEND SUB",
    "DECLARE FUNCTION fn1#(a#)",
    "GOSUB @s\nEND\n@s\nx = 1 / 0",
    "FUNCTION fq\nfq = 1 / 0\nEND FUNCTION\nPRINT fq",
    "x = 1 / 0",
    "WHILE TRUE: WEND",
    "END 7",
    "IF",
    "@lbl1\nPRINT 1",
    "PRINT \"a\";",
    "DIM SHARED fn1 AS BOOLEAN",
    "FOR i = 1 TO 3: GOTO @out: NEXT\n@out\nx = 0",
];

/// Programs whose behavior depends on what must have been cleared.
const PROBE: &str = "TR SIN(90), COS(1)\nTR ERRMSG\nv1 = 5: v1 = v1 + 2.6: TR v1\nTR fn1(4)\nREAD q: TR q\nREAD q: TR q\n@lbl1\nGOSUB @s2\nTR 3
ON ERROR RESUME NEXT\nTR 1 / zero(3)\nTR 2 MOD z: TR ERRMSG\nON ERROR GOTO 0\nz = 1 / z\nEND\n@s2\nTR 9\nRETURN
DATA 11, 12\nFUNCTION fn1(a%)\nfn1 = a * 2\nEND FUNCTION\nFUNCTION zero(n%)\nzero = n - 3\nEND FUNCTION\n";

fn s15_clear(c: &mut Case) -> R {
    let n = 1 + c.rng.few(7);
    let mut chunks = vec![];
    let mut text = String::new();
    for _ in 0..n {
        let s = if c.rng.chance(1, 3) {
            let cfg = Cfg {
                funs: c.rng.below(3),
                labels: c.rng.below(3),
                gosubs: c.rng.below(2),
                err: *c.rng.pick(&[ErrMode::None, ErrMode::Resume, ErrMode::Goto]),
                ..Cfg::small()
            };
            let p = Gen::new(&mut c.rng, cfg).program();
            let (src, pos) = Render::new(&p, Style { seed: c.rng.next(), noise: 0 }).render();
            if Interp::new(&p, &pos, 20_000).run() == Outcome::Budget {
                continue;
            }
            // On what other chunks leave behind, texts may grow without limits.
            format!("CLEAR\n----\n{}", src)
        } else {
            (*c.rng.pick(&DIRT)).to_owned()
        };
        text.push_str(&s);
        text.push_str("\n----\n");
        chunks.push(s);
    }
    let generated = c.rng.bool();
    let after = if generated {
        let cfg = Cfg {
            funs: c.rng.below(3),
            labels: c.rng.below(3),
            gosubs: c.rng.below(2),
            err: *c.rng.pick(&[ErrMode::None, ErrMode::Resume, ErrMode::Goto]),
            ..Cfg::small()
        };
        let p = Gen::new(&mut c.rng, cfg).program();
        let (src, pos) = Render::new(&p, Style { seed: c.rng.next(), noise: 0 }).render();
        if Interp::new(&p, &pos, 20_000).run() == Outcome::Budget {
            return Ok(());
        }
        src
    } else {
        PROBE.to_owned()
    };
    let how = c.rng.below(4);
    text.push_str(&format!("how {}\n{}", how, after));
    c.input(text.clone());
    let log = trace::Log::default();
    let board = Rc::new(RefCell::new(Board::default()));
    let mut m = mach::build(Opts {
        callables: trace::callables(&log),
        pins: Some(board.clone()),
        yield_limit: 3000,
        ..Opts::default()
    });
    futures_lite::future::block_on(m.storage.borrow_mut().put("after.bas", after.as_bytes())).unwrap();
    // The program that RUN executes must be there since it clears nothing of it.
    if how == 2 {
        m.run("LOAD \"after.bas\"");
    }
    for s in chunks.iter().flat_map(|s| s.split("----\n")) {
        m.run(s);
        c.saw("chunks before", 1);
    }
    log.borrow_mut().clear();
    board.borrow_mut().log.clear();
    m.console.borrow_mut().log.clear();
    let out = match how {
        0 => {
            let o = m.run("CLEAR");
            if o != Out::Eof {
                return Err(viol("CLEAR failed", format!("{}\n{:?}", text, o)));
            }
            m.run(&after)
        }
        1 => {
            let o = m.run("NEW");
            if o != Out::Eof {
                return Err(viol("NEW failed", format!("{}\n{:?}", text, o)));
            }
            m.run(&after)
        }
        2 => m.run("RUN"),
        _ => {
            let o = m.run("LOAD \"after.bas\"");
            if o != Out::Eof {
                return Err(viol("LOAD failed", format!("{}\n{:?}", text, o)));
            }
            m.run(&after)
        }
    };
    let got: Vec<String> = log.borrow().clone();
    let resets = board.borrow().log.clone();
    let evs = m.console.borrow().log.clone();
    // The same on a new machine.
    let flog = trace::Log::default();
    let mut f = mach::build(Opts { callables: trace::callables(&flog), yield_limit: 3000, ..Opts::default() });
    let mut fout = f.run(&after);
    if how == 2 {
        // RUN hides the exit code of the program.
        fout = match fout {
            Out::End(_) => Out::Eof,
            o => o,
        };
    }
    let want: Vec<String> = flog.borrow().clone();
    let show = |s: &str| {
        viol(
            s,
            format!("{}\n--- on a new machine {:?}\n{:?}\n--- on the cleared one {:?}\n{:?}\npins {:?}\nconsole {:?}", text, fout, want, out, got, resets, evs),
        )
    };
    if got != want || out != fout {
        return Err(show("a cleared machine is not as a new one"));
    }
    if resets != ["clear all"] {
        return Err(show("pins not cleared exactly once"));
    }
    let want_evs = [Ev::LeaveAlt, Ev::Color(None, None), Ev::ShowCursor, Ev::SetSync(true)];
    let head: Vec<&Ev> = evs.iter().filter(|e| !matches!(e, Ev::Print(_) | Ev::Write(_))).take(4).collect();
    if head.len() < 4 || !want_evs.iter().all(|e| head.contains(&e)) {
        return Err(show("console not reset"));
    }
    c.saw("machines compared", 1);
    c.saw("records compared", got.len() as u64);
    c.distinct(&(got, chunks));
    c.sample(|| text.clone());
    Ok(())
}

/// Programs that run themselves again, and what is left once they end.
fn s15_rerun(c: &mut Case) -> R {
    let r = &mut c.rng;
    let times = r.few(4);
    let onerr = *r.pick(&["", "ON ERROR RESUME NEXT\n", "ON ERROR GOTO @h\n"]);
    let nested = r.below(4);
    let again = match r.below(3) {
        0 => "IF n > 0 THEN RUN\n",
        1 => "IF n > 0 THEN\nRUN\nTR \"never\"\nEND IF\n",
        _ => "WHILE n > 0\nRUN\nTR \"never\"\nWEND\n",
    };
    let body = format!("TR seen\nTR a(1)\nseen = seen + 1\na(1) = 8\nINPUT \"\", n\nTR n\n{}", again);
    // RUN within other code that is left behind.
    let body = match nested {
        0 => format!("GOSUB @s\n@done\n@@END@@@s\n{}GOTO @done\nRETURN\n", body),
        1 => format!("FOR k = 1 TO 3\n{}EXIT FOR\nNEXT\n@@END@@", body),
        2 => format!("DO\nSELECT CASE 3\nCASE 3\n{}END SELECT\nEXIT DO\nLOOP\n@@END@@", body),
        _ => format!("{}@@END@@", body),
    };
    let code = *r.pick(&[0, 0, 1, 2, 7, 127]);
    let how = r.below(4);
    let end = match how {
        0 => format!("END {}\n", code),
        1 => "END\n".to_owned(),
        // Handled errors do not stop the program, others do.
        2 => format!("z = 1 / INT(0)\nEND {}\n", code),
        _ if nested == 0 => "END\n".to_owned(),
        _ => String::new(),
    };
    let h = if onerr.contains("@h") {
        format!("END 0\n@h\nTR \"caught\"\nEND {}\n", code)
    } else {
        String::new()
    };
    let src = format!("DIM a(3) AS INTEGER\nseen = 0\n{}{}{}", onerr, body.replace("@@END@@", &end), h);
    let first = *r.pick(&["RUN", "seen = 4: RUN: TR \"never\"", "ON ERROR RESUME NEXT: RUN: TR \"never\""]);
    let text = format!("{}\n---- {} times\n{}", src, times, first);
    c.input(text.clone());
    let log = trace::Log::default();
    let mut m = mach::build(Opts { callables: trace::callables(&log), interactive: true, yield_limit: 5000, ..Opts::default() });
    futures_lite::future::block_on(m.storage.borrow_mut().put("self.bas", src.as_bytes())).unwrap();
    let loaded = m.run("LOAD \"self.bas\"");
    for k in (0..=times).rev() {
        m.console.borrow_mut().type_line(&k.to_string());
    }
    m.console.borrow_mut().log.clear();
    let out = m.run(first);
    let fails = how == 2 && onerr.is_empty();
    let mut want = vec![];
    for k in (0..=times).rev() {
        want.extend(["I:0".to_owned(), "I:0".to_owned(), format!("I:{}", k)]);
    }
    if how == 2 && onerr.contains("@h") {
        want.push("S:caught".to_owned());
    }
    let shown: Vec<String> = m
        .console
        .borrow()
        .log
        .iter()
        .filter_map(|e| if let Ev::Print(s) = e { Some(s.clone()) } else { None })
        .filter(|s| s.contains("exited"))
        .collect();
    let code = if how == 0 || how == 2 && !fails { code } else { 0 };
    let message: Vec<String> = if code != 0 { vec![format!("Program exited with code {}", code)] } else { vec![] };
    let bad = |s: &str| viol(s, format!("{}\n--- {:?} {:?} {:?}\nwanted {:?} {:?}", text, loaded, out, log.borrow(), want, message));
    if loaded != Out::Eof || *log.borrow() != want {
        return Err(bad("a program that runs itself again"));
    }
    if shown != message {
        return Err(bad("exit code of a program"));
    }
    if fails != matches!(out, Out::Runtime(_)) || !fails && out != Out::Eof {
        return Err(bad("how a program that runs itself ends"));
    }
    // None of its state applies to the next statements.
    let next = m.run("x = 1 / INT(0)");
    if !matches!(next, Out::Runtime(_)) {
        return Err(bad("errors at the prompt are not reported"));
    }
    if m.run("END 9") != Out::End(9) {
        return Err(bad("END at the prompt"));
    }
    c.saw("programs run again", times as u64);
    c.saw("exit codes shown", message.len() as u64);
    c.distinct(&text);
    c.sample(|| text.clone());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            level: "exploration",
            rule: "Random scripts of all the commands and functions of the machine, on random consoles with random faults; distinct = different events of the console",
            assumptions: &["Strings and arrays are kept small, because memory has no limit in the language"],
            require: &[("chunks completed", 1000), ("chunks failed", 100)],
            stages: vec![
                Stage { name: "text", quick: 20000, thorough: 400000, f: c07_text },
                Stage { name: "graphics", quick: 8000, thorough: 150000, f: c07_graphics },
            ],
            probes: vec![],
        },
        Prop {
            id: "S13",
            level: "exploration",
            rule: "Random operations on pins of a recording board and of the mock; distinct = different scripts",
            assumptions: &["Real hardware is replaced by boards that record operations"],
            require: &[("operations", 10000), ("errors", 1000)],
            stages: vec![Stage { name: "pins", quick: 80000, thorough: 800000, f: s13_pins }],
            probes: vec![],
        },
        Prop {
            id: "S14",
            level: "exploration",
            rule: "Random topics and listings on random sizes of consoles; distinct = different outputs",
            assumptions: &[],
            require: &[("pauses", 1000), ("descriptions shown", 300), ("unknown topics", 300), ("interrupted", 300)],
            stages: vec![
                Stage { name: "help", quick: 24000, thorough: 200000, f: s14_help },
                Stage { name: "list", quick: 40000, thorough: 300000, f: s14_list },
            ],
            probes: vec![],
        },
        Prop {
            id: "S15",
            level: "exploration",
            rule: "Random histories before CLEAR, NEW, LOAD or RUN; distinct = different histories and records",
            assumptions: &["The seed of random numbers is not part of what is cleared"],
            require: &[("machines compared", 3000), ("records compared", 10000)],
            stages: vec![
                Stage { name: "clear", quick: 40000, thorough: 600000, f: s15_clear },
                Stage { name: "rerun", quick: 6000, thorough: 100000, f: s15_rerun },
            ],
            probes: vec![],
        },
    ]
}
