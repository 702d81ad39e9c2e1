//! Properties of the commands that drive the console: text, keys, graphics, time and sound.

use super::std1::{World, col_of, dbl, int, text};
use crate::con::Ev;
use crate::lang::{Val, double_to_int};
use crate::mach::Out;
use crate::rng::Rng;
use crate::runner::*;
use endbasic_std::console::{CharsXY, ClearType, Key};
use std::rc::Rc;
use std::time::Duration;

/// Statement under construction: text, values it fetches and the columns of its arguments.
struct Stmt {
    text: String,
    table: Vec<Val>,
}

impl Stmt {
    fn new(s: &str) -> Self {
        Self { text: s.to_owned(), table: vec![] }
    }
    /// Appends an expression that evaluates to `v` and returns its column.
    fn val(&mut self, v: Val) -> usize {
        let col = self.text.chars().count() + 1;
        let f = match v {
            Val::B(_) => "VB",
            Val::I(_) => "VI",
            Val::D(_) => "VD",
            Val::S(_) => "VS",
        };
        self.text.push_str(&format!("{}({})", f, self.table.len()));
        self.table.push(v);
        col
    }
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
    }
}

/// Runs a statement and returns its outcome, what it did to the console and what it traced.
fn run(w: &mut World, s: &Stmt) -> (Out, Vec<Ev>, Vec<String>) {
    *w.table.borrow_mut() = s.table.clone();
    w.m.console.borrow_mut().log.clear();
    w.log.borrow_mut().clear();
    let out = w.m.run(&s.text);
    let evs = std::mem::take(&mut w.m.console.borrow_mut().log);
    let log = w.log.borrow_mut().drain(..).collect();
    (out, evs, log)
}

/// What a statement has to do: console events, or the column and message of its error.
type Want = Result<Vec<Ev>, (usize, String)>;

/// Merges pieces of text, because how many operations write them is not observable.
fn merged(evs: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in evs {
        let t = match e {
            Ev::Print(s) => format!("{}\n", s),
            Ev::Write(s) => s.clone(),
            _ => {
                out.push(e.clone());
                continue;
            }
        };
        match out.last_mut() {
            Some(Ev::Write(s)) => s.push_str(&t),
            _ => out.push(Ev::Write(t)),
        }
    }
    out
}

fn expect(w: &mut World, s: &Stmt, want: &Want, traced: &[String]) -> R {
    let (out, evs, log) = run(w, s);
    let show = || {
        format!(
            "{}\nvalues: {:?}\n--- oracle\n{:?} {:?}\n--- observed\n{:?} {:?} {:?}",
            s.text, s.table, want, traced, out, evs, log
        )
    };
    match (want, &out) {
        (Ok(e), Out::Eof) => {
            if merged(e) != merged(&evs) {
                return Err(viol("console events differ", show()));
            }
            if log != traced {
                return Err(viol("result differs", show()));
            }
            Ok(())
        }
        (Err((col, m)), Out::Runtime(e)) => {
            if col_of(e) != Some(*col) || !e.ends_with(&format!(": {}", m)) {
                return Err(viol("another error", show()));
            }
            if !evs.is_empty() {
                return Err(viol("console touched by a failing statement", show()));
            }
            Ok(())
        }
        _ => Err(viol("another outcome", show())),
    }
}

fn display(v: &Val) -> String {
    match v {
        Val::B(b) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
        Val::I(i) => format!("{}{}", if *i < 0 { "" } else { " " }, i),
        Val::D(d) => format!("{}{}", if d.is_nan() || d.is_sign_positive() { " " } else { "" }, d),
        Val::S(s) => s.to_string(),
    }
}

fn any(r: &mut Rng) -> Val {
    match r.below(5) {
        0 => Val::B(r.bool()),
        1 => Val::I(int(r)),
        2 => Val::D(dbl(r)),
        _ => Val::S(Rc::from(if r.chance(1, 6) { long(r) } else { text(r) })),
    }
}

fn long(r: &mut Rng) -> String {
    let n = r.few(45);
    (0..n).map(|_| *r.pick(&['a', 'é', ' ', '漢', 'z'])).collect()
}

/// PRINT: one event with exactly the documented text.
fn s09_print(c: &mut Case) -> R {
    let mut w = World::new();
    for _ in 0..10 {
        let n = match c.rng.below(12) {
            0 => 0,
            1 => c.rng.range(20, 45) as usize,
            _ => c.rng.range(1, 6) as usize,
        };
        let mut s = Stmt::new("PRINT");
        let mut want = String::new();
        let mut nl = true;
        if n > 0 {
            s.put(" ");
        }
        let mut empty_fields = 0;
        for k in 0..n {
            let blank = n > 1 && c.rng.chance(1, 6);
            let mut number = false;
            if !blank {
                let v = any(&mut c.rng);
                want.push_str(&display(&v));
                number = !matches!(v, Val::S(_));
                s.val(v);
            } else {
                empty_fields += 1;
            }
            if k + 1 == n {
                nl = !blank;
                break;
            }
            if c.rng.bool() {
                s.put("; ");
                if number {
                    want.push(' ');
                }
            } else {
                s.put(", ");
                want.push(' ');
                while want.chars().count() % 14 != 0 {
                    want.push(' ');
                }
            }
        }
        c.input(format!("{} {:?}", s.text, s.table));
        let ev = if nl { Ev::Print(want.clone()) } else { Ev::Write(want.clone()) };
        expect(&mut w, &s, &Ok(vec![ev]), &[])?;
        c.saw("prints", 1);
        c.saw("empty fields", empty_fields);
        c.saw(if nl { "lines ended" } else { "lines left open" }, 1);
        c.distinct(&want);
        c.sample(|| format!("{} -> {:?}", s.text, want));
    }
    Ok(())
}

const ANSWERS: [&str; 36] = [
    "1", "-5", "+7", "0", "2147483647", "2147483648", "-2147483648", "-2147483649", "3.5", "1e3", ".5", "5.", "-0",
    "nan", "inf", "1 ", " 1", "", "  ", "true", "TRUE", "False", "yes", "Y", "n", "No", "ye", "T", "é", "héllo  ",
    "0x10", "1e400", "1_000", "--1", "12a", "truE ",
];

/// What an answer means for a variable of type `ty` (0 boolean, 1 double, 2 integer, 3 text).
fn parse(ty: usize, s: &str) -> Result<Val, String> {
    let s = s.trim_end();
    match ty {
        0 => match s.to_uppercase().as_str() {
            "TRUE" | "YES" | "Y" => Ok(Val::B(true)),
            "FALSE" | "NO" | "N" => Ok(Val::B(false)),
            _ => Err(format!("Invalid boolean literal {}", s)),
        },
        1 => s
            .parse()
            .map(Val::D)
            .map_err(|_| format!("Invalid double-precision floating point literal {}", s)),
        2 => s.parse().map(Val::I).map_err(|_| format!("Invalid integer literal {}", s)),
        _ => Ok(Val::S(Rc::from(s))),
    }
}

/// INPUT: retries until an answer fits the variable and stores exactly that answer.
fn s09_input(c: &mut Case) -> R {
    let mut w = World::new();
    w.m.console.borrow_mut().size = CharsXY::new(400, 24);
    for _ in 0..6 {
        let ty = c.rng.below(4);
        let sigil = ["?", "#", "%", "$"][ty];
        let name = format!("v{}", c.rng.below(3));
        let var = match c.rng.below(3) {
            0 if ty == 2 => name.clone(),
            _ => format!("{}{}", name, sigil),
        };
        // A first value, so that failures can be seen to leave it alone.
        let old = [Val::B(true), Val::D(2.5), Val::I(77), Val::S(Rc::from("old"))][ty].clone();
        let declare = c.rng.chance(2, 3);
        let mut s = Stmt::new("");
        if declare {
            s.put(&format!("{} = ", var));
            s.val(old.clone());
            s.put(": ");
        }
        s.put("INPUT ");
        let mut prompt = String::new();
        match c.rng.below(4) {
            0 => (),
            k => {
                if c.rng.chance(3, 4) {
                    prompt = (0..c.rng.few(6)).map(|_| *c.rng.pick(&['a', 'é', '?', ' '])).collect();
                    s.val(Val::S(Rc::from(prompt.clone())));
                }
                if k == 1 {
                    s.put(", ");
                } else {
                    s.put("; ");
                    prompt.push_str("? ");
                }
            }
        }
        s.put(&var);
        let interactive = c.rng.bool();
        // Keys of the session and the answers they make up.
        let mut keys: Vec<Key> = vec![];
        let mut retries = vec![];
        let mut value: Option<Val> = None;
        let mut previous = String::new();
        let attempts = c.rng.range(1, 5);
        for k in 0..attempts {
            let mut line = previous.clone();
            while !line.is_empty() && c.rng.chance(4, 5) {
                line.pop();
                keys.push(Key::Backspace);
            }
            if interactive && line.is_empty() && c.rng.chance(1, 5) {
                keys.push(Key::Backspace);
            }
            let a = match c.rng.below(5) {
                0 => text(&mut c.rng).chars().filter(|c| !c.is_control()).collect(),
                1 if k + 1 == attempts => ["yes", "-2.5", "12", "x"][ty].to_owned(),
                _ => (*c.rng.pick(&ANSWERS)).to_owned(),
            };
            for ch in a.chars() {
                if c.rng.chance(1, 12) {
                    keys.push(Key::Char('q'));
                    keys.push(Key::Backspace);
                }
                if c.rng.chance(1, 20) {
                    keys.push(c.rng.pick(&[Key::ArrowUp, Key::ArrowDown, Key::PageUp, Key::End]).clone());
                }
                keys.push(Key::Char(ch));
                line.push(ch);
            }
            keys.push(if c.rng.bool() { Key::NewLine } else { Key::CarriageReturn });
            match parse(ty, &line) {
                Ok(v) => {
                    value = Some(v);
                    break;
                }
                Err(e) => retries.push(format!("Retry input: {}", e)),
            }
            if interactive {
                previous = line;
            }
        }
        if value.is_none() {
            keys.push(Key::EofOrDelete);
            if interactive && !previous.is_empty() {
                // There it deletes characters unless the line is empty.
                keys.pop();
                for _ in previous.chars() {
                    keys.push(Key::Backspace);
                }
                keys.push(Key::EofOrDelete);
            }
        }
        let nkeys = keys.len() as u64;
        {
            let mut con = w.m.console.borrow_mut();
            con.interactive = interactive;
            con.keys = keys.iter().cloned().collect();
            con.keys_read = 0;
        }
        c.input(format!("{} {:?} {:?}", s.text, s.table, keys));
        let (out, evs, _) = run(&mut w, &s);
        let show = |m: &str| {
            viol(
                m,
                format!(
                    "{}\nvalues: {:?}\nkeys: {:?}\nwanted {:?}, retries {:?}\n{:?} {:?}",
                    s.text, s.table, keys, value, retries, out, evs
                ),
            )
        };
        let prints: Vec<&String> =
            evs.iter().filter_map(|e| if let Ev::Print(s) = e { Some(s) } else { None }).filter(|s| !s.is_empty()).collect();
        if prints != retries.iter().collect::<Vec<_>>() {
            return Err(show("retries differ"));
        }
        if w.m.console.borrow().keys_read != nkeys {
            return Err(show("other keys were read"));
        }
        let written: String =
            evs.iter().filter_map(|e| if let Ev::Write(s) = e { Some(s.as_str()) } else { None }).collect();
        if interactive {
            if !written.starts_with(&prompt) {
                return Err(show("prompt missing"));
            }
        } else if !written.is_empty() {
            return Err(show("prompt of a console that is not interactive"));
        }
        let mut back = Stmt::new("TR ");
        back.put(&var);
        c.saw("answers rejected", retries.len() as u64);
        match &value {
            Some(v) => {
                if out != Out::Eof {
                    return Err(show("good answer not accepted"));
                }
                expect(&mut w, &back, &Ok(vec![]), &[v.show()]).map_err(|v| viol(v.sig, format!("after {}\n{}", s.text, v.detail)))?;
                c.saw("answers stored", 1);
                c.distinct(&(ty, v.show(), retries.len()));
            }
            None => {
                match &out {
                    Out::Runtime(e) if e.contains("EOF") => (),
                    _ => return Err(show("end of input not reported")),
                }
                if declare {
                    expect(&mut w, &back, &Ok(vec![]), &[old.show()]).map_err(|v| viol(v.sig, format!("after {}\n{}", s.text, v.detail)))?;
                }
                c.saw("inputs ended", 1);
            }
        }
        c.sample(|| format!("{} {:?} -> {:?}", s.text, keys, value));
        w.m.console.borrow_mut().keys.clear();
        w = World::new();
        w.m.console.borrow_mut().size = CharsXY::new(400, 24);
    }
    Ok(())
}

/// Integer argument: the value passed, which may be a double that needs to be rounded.
fn num(r: &mut Rng, s: &mut Stmt, good: (i64, i64), p: usize) -> (usize, Option<i32>) {
    let i = if r.chance(p, p + 1) {
        r.range(good.0, good.1) as i32
    } else {
        match r.below(4) {
            0 => int(r),
            1 => (good.1 + 1 + r.range(0, 2)).min(i32::MAX as i64) as i32,
            2 => (good.0 - 1 - r.range(0, 2)).max(i32::MIN as i64) as i32,
            _ => r.range(good.0, good.1) as i32,
        }
    };
    if r.chance(1, 5) {
        let d = i as f64 + *r.pick(&[0.0, 0.25, -0.25, 0.5, -0.5]);
        return (s.val(Val::D(d)), double_to_int(d));
    }
    (s.val(Val::I(i)), Some(i))
}

/// Evaluates the arguments in order: the first that cannot be converted is the error.
fn conv(v: &[(usize, Option<i32>)]) -> Result<Vec<i64>, usize> {
    v.iter().map(|(c, v)| v.map(i64::from).ok_or(*c)).collect()
}

/// COLOR, LOCATE, CLS, INKEY and the size of the screen.
fn s09_misc(c: &mut Case) -> R {
    let mut w = World::new();
    let (cols, rows) = (c.rng.range(1, 100), c.rng.range(1, 60));
    w.m.console.borrow_mut().size = CharsXY::new(cols as u16, rows as u16);
    for _ in 0..14 {
        let r = &mut c.rng;
        let k = r.below(6);
        match k {
            0 => {
                let mut s = Stmt::new("COLOR");
                let form = r.below(6);
                let mut cs: [Option<(usize, Option<i32>)>; 2] = [None, None];
                match form {
                    0 => (),
                    1 => {
                        s.put(" ");
                        cs[0] = Some(num(r, &mut s, (0, 255), 3));
                    }
                    _ => {
                        s.put(" ");
                        if form != 2 && form != 3 {
                            cs[0] = Some(num(r, &mut s, (0, 255), 3));
                        }
                        s.put(", ");
                        if form != 2 && form != 4 {
                            cs[1] = Some(num(r, &mut s, (0, 255), 3));
                        }
                    }
                }
                let flat: Vec<_> = cs.iter().flatten().cloned().collect();
                let want: Want = match conv(&flat) {
                    Err(_) => continue,
                    Ok(v) => match v.iter().position(|v| !(0..=255).contains(v)) {
                        Some(p) => Err((flat[p].0, "Color out of range".to_owned())),
                        None => Ok(vec![Ev::Color(
                            cs[0].and_then(|v| v.1).map(|v| v as u8),
                            cs[1].and_then(|v| v.1).map(|v| v as u8),
                        )]),
                    },
                };
                c.input(format!("{} {:?}", s.text, s.table));
                expect(&mut w, &s, &want, &[])?;
                c.saw(if want.is_ok() { "colors" } else { "bad colors" }, 1);
                c.distinct(&want);
            }
            1 | 2 => {
                let mut s = Stmt::new("LOCATE ");
                let x = num(r, &mut s, (0, cols - 1), 4);
                s.put(", ");
                let y = num(r, &mut s, (0, rows - 1), 4);
                let Ok(v) = conv(&[x, y]) else { continue };
                let want: Want = if v[0] < 0 || v[0] > 65535 {
                    Err((x.0, "Column out of range".to_owned()))
                } else if v[1] < 0 || v[1] > 65535 {
                    Err((y.0, "Row out of range".to_owned()))
                } else if v[0] >= cols {
                    Err((x.0, format!("Column {} exceeds visible range of {}", v[0], cols - 1)))
                } else if v[1] >= rows {
                    Err((y.0, format!("Row {} exceeds visible range of {}", v[1], rows - 1)))
                } else {
                    Ok(vec![Ev::Locate(v[0] as u16, v[1] as u16)])
                };
                c.input(format!("{} {:?} in {}x{}", s.text, s.table, cols, rows));
                expect(&mut w, &s, &want, &[])?;
                c.saw(if want.is_ok() { "cursor moves" } else { "bad positions" }, 1);
                c.distinct(&want);
            }
            3 => {
                expect(&mut w, &Stmt::new("CLS"), &Ok(vec![Ev::Clear(ClearType::All)]), &[])?;
                c.saw("screens cleared", 1);
            }
            4 => {
                let t = [format!("I:{}", cols), format!("I:{}", rows)];
                expect(&mut w, &Stmt::new("TR SCRCOLS: TR SCRROWS"), &Ok(vec![]), &t)?;
                c.saw("sizes", 1);
            }
            _ => {
                let n = r.range(1, 8) as usize;
                let mut keys = vec![];
                let mut want = vec![];
                for _ in 0..n {
                    let (k, s) = match r.below(22) {
                        0 => (Key::ArrowDown, "DOWN"),
                        1 => (Key::ArrowLeft, "LEFT"),
                        2 => (Key::ArrowRight, "RIGHT"),
                        3 => (Key::ArrowUp, "UP"),
                        4 => (Key::Backspace, "BS"),
                        5 => (Key::CarriageReturn, "ENTER"),
                        6 => (Key::Delete, "DEL"),
                        7 => (Key::End, "END"),
                        8 => (Key::EofOrDelete, "EOF"),
                        9 => (Key::Escape, "ESC"),
                        10 => (Key::Home, "HOME"),
                        11 => (Key::NewLine, "ENTER"),
                        12 => (Key::PageDown, "PGDOWN"),
                        13 => (Key::PageUp, "PGUP"),
                        14 => (Key::Tab, "TAB"),
                        15 => (Key::Unknown, "?"),
                        _ => {
                            let ch = *r.pick(&['a', 'Z', 'é', ' ', '"', '漢', '1']);
                            keys.push(Key::Char(ch));
                            want.push(format!("S:{}", ch));
                            continue;
                        }
                    };
                    keys.push(k);
                    want.push(format!("S:{}", s));
                }
                want.push("S:".to_owned());
                let s = Stmt::new(&format!("FOR i = 1 TO {}: TR INKEY: NEXT", n + 1));
                w.m.console.borrow_mut().keys = keys.iter().cloned().collect();
                c.input(format!("{} {:?}", s.text, keys));
                expect(&mut w, &s, &Ok(vec![]), &want)?;
                c.saw("keys polled", n as u64);
                c.distinct(&want);
            }
        }
    }
    Ok(())
}

/// Graphics commands hand exactly their arguments to the console.
fn s10_commands(c: &mut Case) -> R {
    const SIMPLE: [(&str, &str, usize, bool); 9] = [
        ("GFX_CIRCLE", "circle", 2, true),
        ("GFX_CIRCLEF", "circlef", 2, true),
        ("GFX_FILL", "fill", 2, false),
        ("GFX_LINE", "line", 4, false),
        ("GFX_PIXEL", "pixel", 2, false),
        ("GFX_RECT", "rect", 4, false),
        ("GFX_RECTF", "rectf", 4, false),
        ("GFX_TRI", "tri", 6, false),
        ("GFX_TRIF", "trif", 6, false),
    ];
    let mut w = World::new();
    let size = (c.rng.range(1, 2000) as u16, c.rng.range(1, 2000) as u16);
    let graphics = c.rng.chance(9, 10);
    w.m.console.borrow_mut().pixels = if graphics { Some(size) } else { None };
    let range = |v: i64, col: usize| -> Result<(), (usize, String)> {
        if (-32768..=32767).contains(&v) {
            Ok(())
        } else {
            Err((col, format!("Coordinate {} out of range", v)))
        }
    };
    for _ in 0..12 {
        let r = &mut c.rng;
        match r.below(8) {
            0..=3 => {
                let (cmd, ev, n, radius) = *r.pick(&SIMPLE);
                let mut s = Stmt::new(&format!("{} ", cmd));
                let mut args = vec![];
                for k in 0..n {
                    if k > 0 {
                        s.put(", ");
                    }
                    args.push(num(r, &mut s, (-32768, 32767), 15));
                }
                if radius {
                    s.put(", ");
                    args.push(num(r, &mut s, (0, 65535), 5));
                }
                let Ok(v) = conv(&args) else { continue };
                let mut want: Want = Ok(vec![Ev::Gfx(format!(
                    "{} {}",
                    ev,
                    v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
                ))]);
                for k in 0..n {
                    if let Err(e) = range(v[k], args[k].0) {
                        want = Err(e);
                        break;
                    }
                }
                if radius && want.is_ok() {
                    if v[n] < 0 {
                        want = Err((args[n].0, format!("Radius {} must be positive", v[n])));
                    } else if v[n] > 65535 {
                        want = Err((args[n].0, format!("Radius {} out of range", v[n])));
                    }
                }
                c.input(format!("{} {:?}", s.text, s.table));
                expect(&mut w, &s, &want, &[])?;
                c.saw(if want.is_ok() { "shapes requested" } else { "bad arguments" }, 1);
                c.distinct(&want);
            }
            4 | 5 => {
                let (cmd, ev) = *r.pick(&[("GFX_POLY", "poly"), ("GFX_POLYF", "polyf")]);
                let n = r.few(9);
                let points: Vec<i64> =
                    (0..n).map(|_| if r.chance(1, 30) { int(r) as i64 } else { r.range(-32768, 32767) }).collect();
                let list = |p: &[i64]| {
                    vec![Ev::Gfx(format!("{} {}", ev, p.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")))]
                };
                let mut s;
                let want: Want;
                match r.below(4) {
                    0 => {
                        s = Stmt::new(cmd);
                        let mut bad = None;
                        for (k, p) in points.iter().enumerate() {
                            s.put(if k == 0 { " " } else { ", " });
                            let col = s.val(Val::I(*p as i32));
                            if bad.is_none()
                                && let Err(e) = range(*p, col)
                            {
                                bad = Some(e);
                            }
                        }
                        want = if n % 2 == 1 {
                            // A single value has to be an array; the position is not specified.
                            let (out, evs, _) = run(&mut w, &s);
                            match out {
                                Out::Runtime(_) | Out::Compile(_) if evs.is_empty() => (),
                                _ => return Err(viol("odd coordinates", format!("{} {:?}", s.text, out))),
                            }
                            c.saw("bad arguments", 1);
                            continue;
                        } else if let Some(e) = bad {
                            Err(e)
                        } else {
                            Ok(list(&points))
                        };
                    }
                    1 => {
                        // Flat array.
                        let dim = n.max(1);
                        s = Stmt::new(&format!("DIM SHARED zz({}) AS INTEGER: ", dim));
                        let mut p = vec![0; dim];
                        for (k, v) in points.iter().enumerate() {
                            s.put(&format!("zz({}) = ", k));
                            s.val(Val::I(*v as i32));
                            s.put(": ");
                            p[k] = *v;
                        }
                        s.put(&format!("{} ", cmd));
                        let col = s.text.chars().count() + 1;
                        s.put("zz");
                        want = if dim % 2 == 1 {
                            Err((col, "Expected an even number of coordinates".to_owned()))
                        } else if let Some(v) = p.iter().find(|v| range(**v, col).is_err()) {
                            Err((col, format!("Coordinate {} out of range", v)))
                        } else {
                            Ok(list(&p))
                        };
                    }
                    2 => {
                        // Matrix of points.
                        let dim = n / 2 + 1;
                        s = Stmt::new(&format!("DIM zz({}, 2) AS INTEGER: ", dim));
                        let mut p = vec![0; dim * 2];
                        for (k, v) in points.iter().enumerate() {
                            s.put(&format!("zz({}, {}) = ", k / 2, k % 2));
                            s.val(Val::I(*v as i32));
                            s.put(": ");
                            p[k] = *v;
                        }
                        s.put(&format!("{} ", cmd));
                        let col = s.text.chars().count() + 1;
                        s.put("zz");
                        want = match p.iter().find(|v| range(**v, col).is_err()) {
                            Some(v) => Err((col, format!("Coordinate {} out of range", v))),
                            None => Ok(list(&p)),
                        };
                    }
                    _ => {
                        let (dims, ty) = *r.pick(&[
                            ("2, 3", "INTEGER"),
                            ("2, 2, 2", "INTEGER"),
                            ("2, 1", "INTEGER"),
                            ("4", "DOUBLE"),
                            ("3, 2", "STRING"),
                            ("2", "BOOLEAN"),
                        ]);
                        s = Stmt::new(&format!("DIM zz({}) AS {}: {} ", dims, ty, cmd));
                        let col = s.text.chars().count() + 1;
                        s.put("zz");
                        want = Err((
                            col,
                            if ty != "INTEGER" {
                                "Expected an INTEGER array"
                            } else {
                                "Expected a flat array of coordinates or an Nx2 array of points"
                            }
                            .to_owned(),
                        ));
                    }
                }
                c.input(format!("{} {:?}", s.text, s.table));
                let mut fresh = World::new();
                expect(&mut fresh, &s, &want, &[])?;
                c.saw(if want.is_ok() { "polygons requested" } else { "bad arguments" }, 1);
                c.distinct(&want);
            }
            6 => {
                let mut s = Stmt::new("TR GFX_PEEK(");
                let x = num(r, &mut s, (-2, 40), 9);
                s.put(", ");
                let y = num(r, &mut s, (-2, 40), 9);
                s.put(")");
                let Ok(v) = conv(&[x, y]) else { continue };
                let (want, t): (Want, _) = if let Err(e) = range(v[0], x.0) {
                    (Err(e), vec![])
                } else if let Err(e) = range(v[1], y.0) {
                    (Err(e), vec![])
                } else if v[0] < 0 || v[1] < 0 {
                    (Ok(vec![]), vec!["I:-1".to_owned()])
                } else {
                    (Ok(vec![]), vec![format!("I:{}", (v[0] * 7 + v[1]) % 256)])
                };
                c.input(format!("{} {:?}", s.text, s.table));
                expect(&mut w, &s, &want, &t)?;
                c.saw("pixels queried", 1);
            }
            _ => {
                if graphics {
                    let t = [format!("I:{}", size.0), format!("I:{}", size.1)];
                    expect(&mut w, &Stmt::new("TR GFX_WIDTH: TR GFX_HEIGHT"), &Ok(vec![]), &t)?;
                } else {
                    let (out, _, log) = run(&mut w, &Stmt::new("TR GFX_WIDTH"));
                    if !matches!(out, Out::Runtime(_)) || !log.is_empty() {
                        return Err(viol("size of a text console", format!("{:?} {:?}", out, log)));
                    }
                }
                let (st, want): (_, Vec<Ev>) = match r.below(3) {
                    0 => ("GFX_SYNC", vec![Ev::SyncNow]),
                    1 => ("GFX_SYNC TRUE", vec![Ev::SetSync(true), Ev::ShowCursor]),
                    _ => ("GFX_SYNC FALSE", vec![Ev::SetSync(false), Ev::HideCursor]),
                };
                let (out, evs, _) = run(&mut w, &Stmt::new(st));
                if out != Out::Eof || evs.len() != want.len() || !want.iter().all(|e| evs.contains(e)) {
                    return Err(viol("GFX_SYNC", format!("{} {:?} {:?}", st, out, evs)));
                }
                c.saw("syncs", 1);
            }
        }
    }
    Ok(())
}

/// SLEEP, MONOTONIC, SOUND and BEEP.
fn s16_time(c: &mut Case) -> R {
    let mut w = World::new();
    let time = w.m.time.clone();
    for _ in 0..12 {
        let r = &mut c.rng;
        time.sleeps.borrow_mut().clear();
        // Durations: integers, doubles and numbers that are not durations.
        let d = match r.below(6) {
            0 => dbl(r),
            1 => *r.pick(&[1.8446744073709552e19, 1.8446744073709550e19, 1e20, 1e-9, 1e-10, 0.1, 0.3, 1e9]),
            2 => r.range(0, 1_000_000) as f64 / 1000.0,
            3 => -(r.range(0, 5) as f64) / 4.0,
            _ => r.range(0, 100) as f64 / 8.0,
        };
        let arg = if r.chance(1, 3) { Val::I(int(r).max(-5)) } else { Val::D(d) };
        let secs = match &arg {
            Val::I(i) => *i as f64,
            _ => d,
        };
        let dur = Duration::try_from_secs_f64(secs).ok();
        match r.below(5) {
            0 | 1 => {
                let mut s = Stmt::new("SLEEP ");
                let col = s.val(arg);
                let before = time.now.get();
                c.input(format!("{} {:?}", s.text, s.table));
                let want: Want = match dur {
                    Some(_) => Ok(vec![]),
                    None if secs < 0.0 => Err((col, "Sleep time must be positive".to_owned())),
                    None => Err((col, "Sleep time out of range".to_owned())),
                };
                expect(&mut w, &s, &want, &[])?;
                let slept = time.sleeps.borrow().clone();
                same("time slept", &format!("{} {:?}", s.text, s.table), &slept, &dur.into_iter().collect::<Vec<_>>())?;
                same("clock", &s.text, &time.now.get(), &before.saturating_add(dur.unwrap_or_default()))?;
                if time.now.get() > Duration::from_secs(1 << 40) {
                    time.now.set(Duration::ZERO);
                }
                c.saw(if dur.is_some() { "sleeps" } else { "bad times" }, 1);
                c.distinct(&(slept, want));
            }
            2 => {
                let d = Duration::from_nanos(r.next() >> r.below(50));
                time.now.set(d);
                let t = [Val::D(d.as_secs() as f64 + d.subsec_nanos() as f64 / 1e9).show()];
                expect(&mut w, &Stmt::new("TR MONOTONIC"), &Ok(vec![]), &t)?;
                time.now.set(Duration::ZERO);
                c.saw("clock reads", 1);
            }
            3 => {
                let mut s = Stmt::new("SOUND ");
                let p = num(r, &mut s, (1, 20000), 3);
                s.put(", ");
                let col = s.val(arg);
                let Ok(v) = conv(&[p]) else { continue };
                let want: Want = if v[0] <= 0 {
                    Err((p.0, "Pitch must be positive".to_owned()))
                } else {
                    match dur {
                        Some(d) => Ok(vec![Ev::Gfx(format!(
                            "tone {:?}",
                            endbasic_std::sound::Tone::square(v[0] as u32, d)
                        ))]),
                        None if secs < 0.0 => Err((col, "Duration must be positive".to_owned())),
                        None => Err((col, "Duration out of range".to_owned())),
                    }
                };
                c.input(format!("{} {:?}", s.text, s.table));
                expect(&mut w, &s, &want, &[])?;
                c.saw(if want.is_ok() { "tones" } else { "bad tones" }, 1);
                c.distinct(&want);
            }
            _ => {
                let tone = endbasic_std::sound::Tone::square(800, Duration::from_millis(250));
                expect(&mut w, &Stmt::new("BEEP"), &Ok(vec![Ev::Gfx(format!("tone {:?}", tone))]), &[])?;
                c.saw("tones", 1);
            }
        }
    }
    Ok(())
}

pub fn s10_stage() -> Stage {
    Stage { name: "commands", quick: 20000, thorough: 300000, f: s10_commands }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S09",
            level: "exploration",
            rule: "Random statements, answers and keys; distinct = different texts, values and positions",
            assumptions: &[],
            require: &[("prints", 1000), ("answers stored", 1000), ("keys polled", 1000)],
            stages: vec![
                Stage { name: "print", quick: 20000, thorough: 300000, f: s09_print },
                Stage { name: "input", quick: 20000, thorough: 300000, f: s09_input },
                Stage { name: "misc", quick: 20000, thorough: 300000, f: s09_misc },
            ],
            probes: vec![],
        },
        Prop {
            id: "S16",
            level: "exploration",
            rule: "Random durations and pitches on a virtual clock; distinct = different requests",
            assumptions: &["The host's clock and audio devices are replaced by recorders"],
            require: &[("sleeps", 1000), ("tones", 1000)],
            stages: vec![Stage { name: "time", quick: 100000, thorough: 300000, f: s16_time }],
            probes: vec![],
        },
    ]
}
