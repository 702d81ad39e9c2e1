//! Properties of the pure functions of the standard library.

use crate::lang::{Ty, Val, double_to_int, show_double};
use crate::mach::{self, M, Opts, Out};
use crate::rng::Rng;
use crate::runner::*;
use crate::trace::{self, Log, Table};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Outcome of evaluating an expression: value or column of the failing construct.
type Ev = Result<Val, usize>;

pub(super) struct World {
    pub(super) log: Log,
    pub(super) table: Table,
    pub(super) m: M,
    deg: bool,
    /// Current seed and index in its sequence.
    rnd: Option<(i32, usize)>,
    last: Option<f64>,
}

impl World {
    pub(super) fn new() -> Self {
        let log = Log::default();
        let table = Table::default();
        let mut cs = trace::callables(&log);
        cs.extend(trace::sources(&table));
        let m = mach::build(Opts { callables: cs, ..Default::default() });
        World { log, table, m, deg: false, rnd: None, last: None }
    }
}

enum X {
    Leaf(usize, Val, usize),
    Call(&'static str, Vec<(X, Ty)>, usize),
}

struct B<'a> {
    r: &'a mut Rng,
    text: String,
    table: Vec<Val>,
}

const PIECES: [&str; 34] = [
    "a", "B", "z", " ", "\t", "é", "É", "ß", "İ", "ÿ", "ﬁ", "1", "23", ".", "-", "+", "e", "E", "9",
    "\u{1F600}", "\u{301}", "\n", "\u{a0}", "\u{2003}", "foo", "  ", "A", "aa", "ab", "\"", "\\", "0", "5e",
    "\r",
];
const NUMERIC: [&str; 16] =
    ["1", "23", ".", "e", "E", "+", "-", " ", "x", "0", "inf", "nan", "1e400", "e5", "\t", "9999999999"];

pub(super) fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    let set: &[&str] = if r.chance(1, 3) { &NUMERIC } else { &PIECES };
    let n = r.few(8);
    for _ in 0..n {
        s.push_str(*r.pick(set));
    }
    s
}

pub(super) fn int(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => *r.pick(&[i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX, 255, 256, 65536]),
        1 => r.range(-1000, 1000) as i32,
        2 => *r.pick(&[0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x1f600, 233]),
        _ => r.range(-2, 9) as i32,
    }
}

pub(super) fn dbl(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            0.0,
            -0.0,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            1e308,
            709.78,
            709.79,
            -745.2,
        ]),
        1 => *r.pick(&[
            2147483647.0,
            2147483647.4,
            2147483647.5,
            2147483648.0,
            -2147483648.0,
            -2147483648.4,
            -2147483648.5,
            -2147483649.0,
            4294967296.0,
            0.49999999999999994,
            4503599627370497.5,
        ]),
        2 => f64::from_bits(r.next()),
        3 => (r.range(-1000000, 1000000) as f64) / 1000.0,
        4 => *r.pick(&[-1.0, 1.0, 0.5, -0.5, 1.0000000000000002, -1.0000000000000002, 1e-300]),
        _ => (r.range(-80, 80) as f64) / 8.0,
    }
}

type Sig = (&'static str, &'static [Ty], Ty);
use Ty::{B as TB, D as TD, I as TI, S as TS};

const STRINGS: [Sig; 22] = [
    ("ASC", &[TS], TI),
    ("CHR", &[TI], TS),
    ("INSTR", &[TS, TS], TI),
    ("INSTR", &[TI, TS, TS], TI),
    ("LCASE", &[TS], TS),
    ("LEFT", &[TS, TI], TS),
    ("LEN", &[TS], TI),
    ("LTRIM", &[TS], TS),
    ("MID", &[TS, TI], TS),
    ("MID", &[TS, TI, TI], TS),
    ("RIGHT", &[TS, TI], TS),
    ("RTRIM", &[TS], TS),
    ("SPACE", &[TI], TS),
    ("STR", &[TB], TS),
    ("STR", &[TI], TS),
    ("STR", &[TD], TS),
    ("STR", &[TS], TS),
    ("TRIM", &[TS], TS),
    ("UCASE", &[TS], TS),
    ("VAL", &[TS], TD),
    ("VAL", &[TS], TD),
    ("STR", &[TD], TS),
];

const NUMERICS: [Sig; 26] = [
    ("ABS", &[TD], TD),
    ("ACOS", &[TD], TD),
    ("ASIN", &[TD], TD),
    ("ATN", &[TD], TD),
    ("CINT", &[TD], TI),
    ("COS", &[TD], TD),
    ("EXP", &[TD], TD),
    ("FIX", &[TD], TI),
    ("INT", &[TD], TI),
    ("LOG", &[TD], TD),
    ("MAX", &[TD], TD),
    ("MAX", &[TD, TD], TD),
    ("MAX", &[TD, TD, TD, TD, TD], TD),
    ("MAX", &[TD, TD, TD, TD, TD, TD, TD, TD, TD, TD, TD], TD),
    ("MIN", &[TD], TD),
    ("MIN", &[TD, TD], TD),
    ("MIN", &[TD, TD, TD, TD, TD], TD),
    ("MIN", &[TD, TD, TD, TD, TD, TD, TD, TD, TD, TD, TD], TD),
    ("PI", &[], TD),
    ("ROUND", &[TD], TD),
    ("SGN", &[TD], TI),
    ("SIN", &[TD], TD),
    ("SQR", &[TD], TD),
    ("TAN", &[TD], TD),
    ("RND", &[], TD),
    ("RND", &[TI], TD),
];

impl B<'_> {
    fn leaf(&mut self, ty: Ty) -> X {
        let at = self.text.len() + 1;
        // Numeric parameters also accept the other numeric type.
        let ty = match ty {
            TI if self.r.chance(1, 12) => TD,
            TD if self.r.chance(1, 6) => TI,
            t => t,
        };
        let v = match ty {
            TB => Val::B(self.r.bool()),
            TI => Val::I(int(self.r)),
            TD => Val::D(dbl(self.r)),
            TS => Val::S(Rc::from(text(self.r))),
        };
        let n = self.table.len();
        let name = match ty {
            TB => "VB",
            TI => "VI",
            TD => "VD",
            TS => "VS",
        };
        self.text.push_str(&format!("{}({})", name, n));
        self.table.push(v.clone());
        X::Leaf(n, v, at)
    }

    fn call(&mut self, sig: Sig, all: &[Sig], depth: usize) -> X {
        let at = self.text.len() + 1;
        self.text.push_str(sig.0);
        if sig.1.is_empty() {
            if sig.0 == "RND" {
                self.text.push_str("()");
            }
            return X::Call(sig.0, vec![], at);
        }
        self.text.push('(');
        let mut args = vec![];
        for (i, ty) in sig.1.iter().enumerate() {
            if i > 0 {
                self.text.push_str(", ");
            }
            // A huge SPACE only tests the memory of the machine.
            let a = if sig.0 == "SPACE" {
                let n = Val::I(self.r.range(-3, 300) as i32);
                let at = self.text.len() + 1;
                self.text.push_str(&format!("VI({})", self.table.len()));
                self.table.push(n.clone());
                X::Leaf(self.table.len() - 1, n, at)
            } else if depth > 0 && self.r.chance(1, 4) {
                let c: Vec<&Sig> =
                    all.iter().filter(|s| s.2 == *ty || (*ty == TD && s.2 == TI && sig.0 != "STR")).collect();
                if c.is_empty() {
                    self.leaf_exact(*ty, sig.0)
                } else {
                    let s = **self.r.pick(&c);
                    self.call(s, all, depth - 1)
                }
            } else {
                self.leaf_exact(*ty, sig.0)
            };
            args.push((a, *ty));
        }
        self.text.push(')');
        X::Call(sig.0, args, at)
    }

    /// STR accepts any type so the type of its argument has to be the right one.
    fn leaf_exact(&mut self, ty: Ty, of: &str) -> X {
        if of != "STR" {
            return self.leaf(ty);
        }
        loop {
            let (t, n) = (self.text.len(), self.table.len());
            let x = self.leaf(ty);
            if let X::Leaf(_, v, _) = &x
                && v.ty() == ty
            {
                return x;
            }
            self.text.truncate(t);
            self.table.truncate(n);
        }
    }
}

/// End of the longest numeric prefix, by trying all of them.
fn val_prefix(s: &str) -> f64 {
    fn is_number(b: &[u8]) -> bool {
        let b = match b.first() {
            Some(b'+') | Some(b'-') => &b[1..],
            _ => b,
        };
        let (m, e) = match b.iter().position(|c| *c == b'e' || *c == b'E') {
            Some(i) => (&b[..i], Some(&b[i + 1..])),
            None => (b, None),
        };
        let digits = |d: &[u8]| !d.is_empty() && d.iter().all(|c| c.is_ascii_digit());
        let mant = match m.iter().position(|c| *c == b'.') {
            Some(i) => {
                let (a, f) = (&m[..i], &m[i + 1..]);
                (digits(a) || a.is_empty()) && (digits(f) || f.is_empty()) && !(a.is_empty() && f.is_empty())
            }
            None => digits(m),
        };
        let exp = match e {
            None => true,
            Some(e) => {
                let e = match e.first() {
                    Some(b'+') | Some(b'-') => &e[1..],
                    _ => e,
                };
                digits(e)
            }
        };
        mant && exp
    }
    let s: String = s.chars().skip_while(|c| c.is_whitespace()).collect();
    for n in (1..=s.len()).rev() {
        if s.is_char_boundary(n) && is_number(&s.as_bytes()[..n]) {
            return s[..n].parse().unwrap();
        }
    }
    0.0
}

thread_local! {
    /// What has been observed for each seed; all machines must agree.
    static SEQS: RefCell<HashMap<i32, Vec<f64>>> = RefCell::new(HashMap::new());
}

/// Independent evaluation of the functions.  None: unpredictable value.
fn apply(w: &mut World, name: &str, args: &[Val], cols: &[usize]) -> Result<Option<Val>, usize> {
    let ch = |i: usize| -> Vec<char> { args[i].s().chars().collect() };
    let st = |c: &[char]| Val::S(Rc::from(c.iter().collect::<String>()));
    let d = |i: usize| match &args[i] {
        Val::D(d) => *d,
        _ => panic!(),
    };
    let n = |i: usize| args[i].i() as i64;
    let toint = |x: f64| double_to_int(x).map(Val::I).ok_or(cols[0]);
    let rad = |w: &World, x: f64| if w.deg { x.to_radians() } else { x };
    let ang = |w: &World, x: f64| if w.deg { x.to_degrees() } else { x };
    Ok(Some(match name {
        "ASC" => {
            let c = ch(0);
            if c.len() != 1 {
                return Err(cols[0]);
            }
            Val::I(c[0] as u32 as i32)
        }
        "CHR" => {
            let i = n(0);
            if !(0..=0x10ffff).contains(&i) || (0xd800..0xe000).contains(&i) {
                return Err(cols[0]);
            }
            st(&[char::from_u32(i as u32).unwrap()])
        }
        "INSTR" => {
            let (from, s, x) = if args.len() == 2 { (1, ch(0), ch(1)) } else { (n(0), ch(1), ch(2)) };
            if from <= 0 {
                return Err(cols[0]);
            }
            let mut found = 0;
            let mut i = from as usize;
            while i <= s.len() + 1 {
                if i - 1 + x.len() <= s.len() && s[i - 1..i - 1 + x.len()] == x[..] {
                    found = i as i32;
                    break;
                }
                i += 1;
            }
            Val::I(found)
        }
        "LCASE" => st(&ch(0).iter().flat_map(|c| c.to_lowercase()).collect::<Vec<_>>()),
        "UCASE" => st(&ch(0).iter().flat_map(|c| c.to_uppercase()).collect::<Vec<_>>()),
        "LEFT" | "RIGHT" => {
            let s = ch(0);
            if n(1) < 0 {
                return Err(cols[1]);
            }
            let k = (n(1) as usize).min(s.len());
            if name == "LEFT" { st(&s[..k]) } else { st(&s[s.len() - k..]) }
        }
        "LEN" => Val::I(ch(0).len() as i32),
        "LTRIM" | "RTRIM" | "TRIM" => {
            let mut s = ch(0);
            if name != "RTRIM" {
                while s.first().is_some_and(|c| c.is_whitespace()) {
                    s.remove(0);
                }
            }
            if name != "LTRIM" {
                while s.last().is_some_and(|c| c.is_whitespace()) {
                    s.pop();
                }
            }
            st(&s)
        }
        "MID" => {
            let s = ch(0);
            if n(1) < 0 {
                return Err(cols[1]);
            }
            if args.len() == 3 && n(2) < 0 {
                return Err(cols[2]);
            }
            let len = if args.len() == 3 { n(2) as usize } else { usize::MAX };
            st(&s.iter().skip(n(1) as usize).take(len).copied().collect::<Vec<_>>())
        }
        "SPACE" => {
            if n(0) < 0 {
                return Err(cols[0]);
            }
            st(&vec![' '; n(0) as usize])
        }
        "STR" => match &args[0] {
            Val::B(b) => Val::S(Rc::from(if *b { "TRUE" } else { "FALSE" })),
            Val::I(i) => Val::S(Rc::from(if *i < 0 { format!("{}", i) } else { format!(" {}", i) })),
            Val::D(d) if d.is_nan() => Val::S(Rc::from(" NaN")),
            Val::D(d) => {
                let t = format!("{}", d.abs());
                Val::S(Rc::from(format!("{}{}", if d.is_sign_negative() { "-" } else { " " }, t)))
            }
            Val::S(s) => Val::S(s.clone()),
        },
        "VAL" => Val::D(val_prefix(&args[0].s())),
        "ABS" => Val::D(if d(0).is_sign_negative() { -d(0) } else { d(0) }),
        "ACOS" | "ASIN" => {
            let x = d(0);
            if x.is_nan() || x > 1.0 || x < -1.0 {
                return Err(cols[0]);
            }
            Val::D(ang(w, if name == "ACOS" { x.acos() } else { x.asin() }))
        }
        "ATN" => Val::D(ang(w, d(0).atan())),
        "COS" => Val::D(rad(w, d(0)).cos()),
        "SIN" => Val::D(rad(w, d(0)).sin()),
        "TAN" => Val::D(rad(w, d(0)).tan()),
        "CINT" => toint(d(0))?,
        "FIX" => toint(d(0).trunc())?,
        "INT" => toint(d(0).floor())?,
        "EXP" => {
            let e = d(0).exp();
            if !e.is_finite() {
                return Err(cols[0]);
            }
            Val::D(e)
        }
        "LOG" => {
            if d(0) <= 0.0 {
                return Err(cols[0]);
            }
            Val::D(d(0).ln())
        }
        "SQR" => {
            if d(0) < 0.0 {
                return Err(cols[0]);
            }
            Val::D(d(0).sqrt())
        }
        "SGN" => Val::I(if d(0) > 0.0 {
            1
        } else if d(0) < 0.0 {
            -1
        } else {
            0
        }),
        "MAX" | "MIN" => {
            let mut v: Vec<f64> = (0..args.len()).map(d).collect();
            if v.iter().all(|d| d.is_nan()) {
                return Ok(Some(Val::D(f64::NAN)));
            }
            v.retain(|d| !d.is_nan());
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let x = if name == "MAX" { v[v.len() - 1] } else { v[0] };
            // The sign of a zero is unspecified.
            Val::D(if x == 0.0 { 0.0 } else { x })
        }
        "PI" => Val::D(std::f64::consts::PI),
        "ROUND" => Val::D(d(0).round()),
        "RND" => {
            if args.is_empty() || n(0) > 0 {
                w.rnd = w.rnd.map(|(s, i)| (s, i + 1));
                w.last = None;
            } else if n(0) < 0 {
                w.rnd = Some((n(0) as i32, 0));
                w.last = None;
            }
            match w.rnd {
                Some((s, i)) => {
                    let known = SEQS.with(|q| q.borrow().get(&s).and_then(|v| v.get(i).copied()));
                    return Ok(known.map(Val::D));
                }
                None => return Ok(w.last.map(Val::D)),
            }
        }
        _ => panic!("unknown function {}", name),
    }))
}

/// Evaluates in order, left to right.  None: unpredictable.
fn eval(w: &mut World, x: &X) -> Result<Option<Val>, usize> {
    match x {
        X::Leaf(_, v, _) => Ok(Some(v.clone())),
        X::Call(name, args, _) => {
            let mut vs = vec![];
            let mut cols = vec![];
            let mut unknown = false;
            for (a, ty) in args {
                let col = match a {
                    X::Leaf(_, _, c) | X::Call(_, _, c) => *c,
                };
                cols.push(col);
                let Some(v) = eval(w, a)? else {
                    unknown = true;
                    vs.push(Val::D(f64::NAN));
                    continue;
                };
                vs.push(match (v, ty) {
                    (Val::D(d), TI) => Val::I(double_to_int(d).ok_or(col)?),
                    (Val::I(i), TD) => Val::D(i as f64),
                    (v, _) => v,
                });
            }
            if unknown {
                return Ok(None);
            }
            apply(w, name, &vs, &cols)
        }
    }
}

fn show(v: &Val) -> String {
    v.show()
}

/// Column reported by an error at the first line.
pub(super) fn col_of(e: &str) -> Option<usize> {
    let r = e.strip_prefix("1:")?;
    r.split_once(':')?.0.parse().ok()
}

/// Runs `src` and compares what it traces with what is expected.
fn check(w: &mut World, src: &str, want: &Result<Option<Val>, usize>, table: Vec<Val>) -> Result<Option<String>, Viol> {
    let shown: Vec<String> = table.iter().map(|v| format!("{:?}", v)).collect();
    *w.table.borrow_mut() = table;
    w.log.borrow_mut().clear();
    let out = w.m.run(src);
    let log: Vec<String> = w.log.borrow_mut().drain(..).collect();
    let describe = || format!("{}\nvalues: {}\n--- oracle\n{:?}\n--- observed\n{:?} {:?}", src, shown.join(" | "), want, out, log);
    match (want, &out) {
        (Ok(v), Out::Eof) => {
            if log.len() != 1 {
                return Err(viol("function result not recorded", describe()));
            }
            if let Some(v) = v
                && show(v) != log[0]
                && !(*v == Val::D(0.0) && bits(&log[0]) == Some(0.0))
            {
                return Err(viol("function returned another value", describe()));
            }
            Ok(Some(log[0].clone()))
        }
        (Err(col), Out::Runtime(e)) if log.is_empty() && col_of(e) == Some(*col) => Ok(None),
        (Err(_), Out::Runtime(_)) => Err(viol("error at another position", describe())),
        _ => Err(viol("outcome differs", describe())),
    }
}

fn functions(c: &mut Case, sigs: &'static [Sig]) -> R {
    let mut w = World::new();
    for _ in 0..12 {
        let sig = *c.rng.pick(sigs);
        let mut b = B { r: &mut c.rng, text: "TR ".to_owned(), table: vec![] };
        let depth = b.r.below(3);
        let x = b.call(sig, sigs, depth);
        let (src, table) = (b.text, b.table);
        c.input(format!("{}\n{:?}", src, table));
        let before = (w.rnd, w.last);
        let want = eval(&mut w, &x);
        if matches!(&want, Ok(None)) || want.is_err() {
            // Not enough is known to predict it (generator not seeded).
            if src.contains("RND") && (sig.0 != "RND" || want.is_ok() && src.matches("RND").count() > 1) {
                w.rnd = before.0;
                w.last = before.1;
                if want.is_ok() {
                    continue;
                }
                if before.0.is_none() {
                    continue;
                }
                w.rnd = None;
                w.last = None;
                w.m.run("RANDOMIZE");
                continue;
            }
        }
        let got = check(&mut w, &src, &want, table)?;
        c.saw(if want.is_ok() { "values" } else { "errors" }, 1);
        c.saw(&format!("fn {}", sig.0), 1);
        if sig.0 == "RND"
            && let Some(g) = &got
        {
            let Some(v) = bits(g) else {
                return Err(viol("RND is not a number", format!("{} -> {}", src, g)));
            };
            if !(0.0..=1.0).contains(&v) {
                return Err(viol("RND out of range", format!("{} -> {}", src, g)));
            }
            w.last = Some(v);
            if let Some((s, i)) = w.rnd {
                SEQS.with(|q| {
                    let mut q = q.borrow_mut();
                    let e = q.entry(s).or_default();
                    if e.len() == i {
                        e.push(v);
                    }
                });
            }
        }
        c.distinct(&(&src, &got));
        c.sample(|| format!("{} -> {:?}", src, got));
        if sig.0 == "COS" || sig.0 == "ATN" {
            w.deg = c.rng.bool();
            let k = if w.deg { "DEG" } else { "RAD" };
            same("angle mode", k, &w.m.run(k), &Out::Eof)?;
        }
        if sig.0 == "RND" && c.rng.bool() {
            let s = int(&mut c.rng);
            *w.table.borrow_mut() = vec![Val::I(s)];
            same("RANDOMIZE", "RANDOMIZE VI(0)", &w.m.run("RANDOMIZE VI(0)"), &Out::Eof)?;
            w.rnd = Some((s, 0));
            w.last = None;
        }
    }
    Ok(())
}

pub(super) fn bits(g: &str) -> Option<f64> {
    let h = g.strip_prefix("D:")?;
    let h = h.split('(').next()?;
    Some(f64::from_bits(u64::from_str_radix(h, 16).ok()?))
}

fn s01(c: &mut Case) -> R {
    functions(c, &STRINGS)
}

fn s02(c: &mut Case) -> R {
    functions(c, &NUMERICS)
}

/// All characters, one block of codes after the other.
fn s01_codes(c: &mut Case) -> R {
    let mut w = World::new();
    let blocks = 0x110000 / 128 + 2;
    let from = (c.idx % blocks) as i32 * 128;
    let src = format!(
        "ON ERROR RESUME NEXT\nFOR i = {} TO {}\ns = \"!\"\ns = CHR(i)\nTR s\nk = -1\nk = ASC(s)\nTR k\nTR LEN(s + \"é\" + s)\nTR MID(\"a\" + s + \"b\", 1, 1)\nTR RIGHT(\"b\" + s, 1)\nTR INSTR(\"\u{ff}\" + s, s)\nNEXT\n",
        from,
        from + 127
    );
    c.input(src.clone());
    let out = w.m.run(&src);
    let got: Vec<String> = w.log.borrow_mut().drain(..).collect();
    let mut want = vec![];
    for i in from..from + 128 {
        let s: String = char::from_u32(i as u32).map(|ch| ch.to_string()).unwrap_or("!".to_owned());
        let v = |s: &str| Val::S(Rc::from(s)).show();
        let at = if s == "\u{ff}" { 1 } else { 2 };
        want.extend([
            v(&s),
            Val::I(s.chars().next().unwrap() as i32).show(),
            Val::I(3).show(),
            v(&s),
            v(&s),
            Val::I(at).show(),
        ]);
    }
    if out != Out::Eof || got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b);
        let k = k.unwrap_or(got.len().min(want.len()));
        return Err(viol(
            "characters",
            format!("{}\n{:?}\nrecord {} is {:?} instead of {:?}", src, out, k, got.get(k), want.get(k)),
        ));
    }
    c.saw("characters", 128);
    c.distinct(&from);
    Ok(())
}

/// Algebraic laws between string functions, evaluated within single programs.
fn s01_laws(c: &mut Case) -> R {
    let mut w = World::new();
    let a = text(&mut c.rng);
    let b = text(&mut c.rng);
    let k = c.rng.range(0, 12) as i32;
    let d = loop {
        let d = dbl(&mut c.rng);
        if d.is_finite() {
            break d;
        }
    };
    let i = int(&mut c.rng);
    *w.table.borrow_mut() = vec![
        Val::S(Rc::from(a.clone())),
        Val::S(Rc::from(b.clone())),
        Val::I(k),
        Val::D(d),
        Val::I(i),
    ];
    let laws = [
        "LEFT(VS(0), VI(2)) + MID(VS(0), VI(2)) = VS(0)",
        "LEN(VS(0) + VS(1)) = LEN(VS(0)) + LEN(VS(1))",
        "RIGHT(VS(0) + VS(1), LEN(VS(1))) = VS(1)",
        "LEFT(VS(0) + VS(1), LEN(VS(0))) = VS(0)",
        "INSTR(VS(0) + VS(1), VS(1)) > 0",
        "INSTR(VS(0) + VS(1), VS(1)) <= LEN(VS(0)) + 1",
        "VAL(STR(VD(3))) = VD(3)",
        "VAL(STR(VI(4))) = VI(4)",
        "LTRIM(RTRIM(VS(0))) = TRIM(VS(0))",
        "MID(VS(0) + VS(1), INSTR(VS(0) + VS(1), VS(1)) - 1, LEN(VS(1))) = VS(1)",
        "LEN(SPACE(VI(2))) = VI(2)",
        "LCASE(UCASE(LCASE(\"aBcD\"))) = \"abcd\"",
        "LEN(LEFT(VS(0), VI(2))) = MIN(VI(2), LEN(VS(0)))",
    ];
    for l in laws {
        let src = format!("TR {}", l);
        c.input(format!("{} {:?} {:?} {} {} {}", src, a, b, k, d, i));
        let out = w.m.run(&src);
        let t: Vec<String> = w.log.borrow_mut().drain(..).collect();
        if out != Out::Eof || t != ["B:true"] {
            return Err(viol(
                "string law broken",
                format!("{}\nVS(0)={:?} VS(1)={:?} VI(2)={} VD(3)={} VI(4)={}\n{:?} {:?}", src, a, b, k, d, i, out, t),
            ));
        }
        c.saw("laws", 1);
    }
    c.distinct(&(a, b, k));
    Ok(())
}

/// ROUND with decimals: the result is a closest multiple of the power of ten.
fn s02_round(c: &mut Case) -> R {
    let mut w = World::new();
    for _ in 0..12 {
        let v = dbl(&mut c.rng);
        let k = match c.rng.below(4) {
            0 => int(&mut c.rng),
            1 => c.rng.range(-330, 330) as i32,
            _ => c.rng.range(-6, 12) as i32,
        };
        *w.table.borrow_mut() = vec![Val::D(v), Val::I(k)];
        let src = "TR ROUND(VD(0), VI(1))";
        c.input(format!("{} {:?} {}", src, v, k));
        let out = w.m.run(src);
        let t: Vec<String> = w.log.borrow_mut().drain(..).collect();
        let bad = |m: &str| viol(m, format!("ROUND({:?}, {})\n{:?} {:?}", v, k, out, t));
        if out != Out::Eof || t.len() != 1 {
            return Err(bad("ROUND failed"));
        }
        c.saw("roundings", 1);
        if v.is_nan() {
            if t[0] != "D:NaN" {
                return Err(bad("ROUND of NaN"));
            }
            continue;
        }
        let Some(g) = bits(&t[0]) else { return Err(bad("ROUND is not a number")) };
        if v.is_infinite() {
            if g != v {
                return Err(bad("ROUND of infinity"));
            }
            continue;
        }
        let half = 0.5 * 10f64.powi(-k.clamp(-400, 400));
        let slack = v.abs() * 1e-14 + half * 1e-9;
        if g.is_infinite() && v.abs() > 1e307 && (g > 0.0) == (v > 0.0) {
            // The closest multiple is not representable.
            continue;
        }
        if !g.is_finite() {
            return Err(bad("ROUND overflowed"));
        }
        if (g - v).abs() > half + slack {
            return Err(bad("ROUND moved too far"));
        }
        if g != 0.0 && (g < 0.0) != (v < 0.0) {
            return Err(bad("ROUND changed the sign"));
        }
        // It is a multiple of the power of ten, when doubles can tell.
        if (-300..=300).contains(&k) && half > 1e-300 && half < 1e300 {
            let q = if k >= 0 { g * 10f64.powi(k) } else { g / 10f64.powi(-k) };
            if q.abs() < 1e12 && (q - q.round()).abs() > 1e-3 {
                return Err(bad("ROUND left digits"));
            }
        }
        c.distinct(&(t[0].clone(), k));
    }
    Ok(())
}

/// Sequences of random numbers.
fn s02_random(c: &mut Case) -> R {
    let n = 40;
    let seed = int(&mut c.rng);
    let other = loop {
        let s = int(&mut c.rng);
        if s != seed {
            break s;
        }
    };
    let draw = |w: &mut World, start: &str, seed: i32| -> Result<Vec<f64>, Viol> {
        *w.table.borrow_mut() = vec![Val::I(seed)];
        let src = format!("{}\nFOR i = 1 TO {}: TR RND(1): NEXT", start, n);
        let out = w.m.run(&src);
        let t: Vec<String> = w.log.borrow_mut().drain(..).collect();
        let v: Vec<f64> = t.iter().filter_map(|s| bits(s)).collect();
        if out != Out::Eof || v.len() != n || v.iter().any(|d| !(0.0..=1.0).contains(d)) {
            return Err(viol("random sequence", format!("{} seed {}\n{:?} {:?}", src, seed, out, t)));
        }
        Ok(v)
    };
    let mut w1 = World::new();
    let mut w2 = World::new();
    let a = draw(&mut w1, "RANDOMIZE VI(0)", seed)?;
    let x = draw(&mut w2, "RANDOMIZE VI(0)", other)?;
    let b = draw(&mut w2, "RANDOMIZE VI(0)", seed)?;
    same("same seed, another sequence", &format!("RANDOMIZE {}", seed), &b, &a)?;
    if x == a {
        return Err(viol("different seeds, same sequence", format!("RANDOMIZE {} and {}", seed, other)));
    }
    if seed < 0 {
        let d = draw(&mut w2, "a# = RND(VI(0))", seed)?;
        same("RND(-n) starts another sequence", &format!("RND({})", seed), &d, &a)?;
    }
    let e = draw(&mut w1, "RANDOMIZE", 0)?;
    let f = draw(&mut w1, "RANDOMIZE", 0)?;
    if e == f || e == a {
        return Err(viol("RANDOMIZE repeats a sequence", format!("{:?}", e)));
    }
    // The numbers spread over the range.
    let mut all = vec![];
    for _ in 0..10 {
        all.extend(draw(&mut w1, "", 0)?);
    }
    let mean = all.iter().sum::<f64>() / all.len() as f64;
    let lo = all.iter().filter(|d| **d < 0.25).count();
    let hi = all.iter().filter(|d| **d > 0.75).count();
    // Ten standard deviations away.
    if !(0.35..=0.65).contains(&mean) || lo < 20 || hi < 20 {
        return Err(viol("random numbers do not spread", format!("mean {} lo {} hi {}", mean, lo, hi)));
    }
    c.saw("random numbers", 14 * n as u64);
    c.distinct(&show_double(a[0]));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// DATA, READ and RESTORE.

fn s03(c: &mut Case) -> R {
    let log = Log::default();
    let interactive = c.rng.bool();
    let mut m = mach::build(Opts { callables: trace::callables(&log), interactive, ..Default::default() });
    let mut data: Vec<Option<Val>> = vec![];
    let mut index = 0usize;
    let mut vars: Vec<(String, Val)> = vec![];
    let mut history = String::new();
    let types = [TB, TD, TI, TS];
    for _ in 0..1 + c.rng.below(6) {
        if interactive && c.rng.chance(1, 6) {
            // CLEAR forgets the data and the variables of previous chunks.
            history.push_str("CLEAR\n----\n");
            same("CLEAR", &history, &m.run("CLEAR"), &Out::Eof)?;
            data.clear();
            index = 0;
            vars.clear();
            c.saw("clears", 1);
        }
        let mut places = vec![];
        for _ in 0..c.rng.few(4) {
            let mut items = vec![];
            for _ in 0..1 + c.rng.few(5) {
                items.push(match c.rng.below(7) {
                    0 => None,
                    1 => Some(Val::B(c.rng.bool())),
                    2 => Some(Val::D(*c.rng.pick(&[0.0, 1.5, -2.5, 2.4, 3000000000.0, -0.5, 0.1]))),
                    3 | 4 => Some(Val::I(*c.rng.pick(&[0, 1, -1, 7, i32::MAX, -2147483647]))),
                    _ => Some(Val::S(Rc::from(*c.rng.pick(&["", "foo", "a, b", "é: '", "TRUE", "1"])))),
                });
            }
            let text: Vec<String> = items
                .iter()
                .map(|v| match v {
                    None => "".to_owned(),
                    Some(Val::B(b)) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
                    Some(Val::D(d)) => {
                        let s = format!("{}", d);
                        if s.contains('.') { s } else { format!("{}.0", s) }
                    }
                    Some(Val::I(i)) => format!("{}", i),
                    Some(Val::S(s)) => format!("\"{}\"", s),
                })
                .collect();
            places.push(format!("DATA {}", text.join(if c.rng.bool() { ", " } else { "," })));
            data.extend(items);
        }
        let mut lines: Vec<String> = vec![];
        let mut expected: Vec<String> = vec![];
        let mut fails = None;
        let mut dp = places.into_iter();
        for _ in 0..c.rng.few(6) {
            if fails.is_some() {
                break;
            }
            // Data is seen by all reads, even if it comes later or is never executed.
            if c.rng.chance(1, 3)
                && let Some(d) = dp.next()
            {
                match c.rng.below(4) {
                    0 => lines.push(format!("IF FALSE THEN\n{}\nEND IF", d)),
                    _ => lines.push(d),
                }
            }
            if c.rng.chance(1, 6) {
                lines.push("RESTORE".to_owned());
                index = 0;
                continue;
            }
            let line: usize = lines.iter().map(|l| 1 + l.matches('\n').count()).sum::<usize>() + 1;
            let mut text = "READ ".to_owned();
            let mut names = vec![];
            for k in 0..1 + c.rng.few(4) {
                if k > 0 {
                    text.push_str(", ");
                }
                let col = text.len() + 1;
                let next = data.get(index).cloned();
                // Prefers variables compatible with the value.
                let ty = match (&next, c.rng.chance(9, 10)) {
                    (Some(Some(v)), true) => match v.ty() {
                        TD if c.rng.bool() => TI,
                        TI if c.rng.bool() => TD,
                        t => t,
                    },
                    _ => *c.rng.pick(&types),
                };
                let letter = match ty {
                    TB => 'b',
                    TD => 'd',
                    TI => 'i',
                    TS => 's',
                };
                let name = format!("{}{}{}", letter, c.rng.below(3), ty.suffix());
                text.push_str(&name);
                if fails.is_some() {
                    continue;
                }
                let v = match next {
                    None => None,
                    Some(None) => {
                        index += 1;
                        Some(ty.zero())
                    }
                    Some(Some(v)) => {
                        index += 1;
                        match (v, ty) {
                            (Val::D(d), TI) => double_to_int(d).map(Val::I),
                            (Val::I(i), TD) => Some(Val::D(i as f64)),
                            (v, t) if v.ty() == t => Some(v),
                            _ => None,
                        }
                    }
                };
                match v {
                    Some(v) => {
                        vars.retain(|(n, _)| *n != name);
                        vars.push((name.clone(), v));
                        names.push(name);
                    }
                    None => fails = Some((line, col)),
                }
            }
            lines.push(text);
            if fails.is_none() {
                for name in names {
                    lines.push(format!("TR {}", name));
                    expected.push(vars.iter().find(|(n, _)| *n == name).unwrap().1.show());
                }
            }
        }
        lines.extend(dp);
        let src = lines.join("\n") + "\n";
        history.push_str(&src);
        c.input(history.clone());
        let out = m.run(&src);
        let t: Vec<String> = log.borrow_mut().drain(..).collect();
        let ok = match (&fails, &out) {
            (None, Out::Eof) => true,
            (Some((l, k)), Out::Runtime(e)) => e.starts_with(&format!("{}:{}: ", l, k)),
            _ => false,
        };
        if !ok || t != expected {
            return Err(viol(
                "READ diverges",
                format!("{}--- oracle\n{:?} {:?}\n--- observed\n{:?} {:?}", history, fails, expected, out, t),
            ));
        }
        c.saw("values read", expected.len() as u64);
        if fails.is_some() {
            c.saw("failed reads", 1);
            // What was read before the failure stays read.
            let mut want = vec![];
            let mut s = String::new();
            for (n, v) in &vars {
                s.push_str(&format!("TR {}\n", n));
                want.push(v.show());
            }
            history.push_str(&format!("----\n{}", s));
            let out = m.run(&s);
            let t: Vec<String> = log.borrow_mut().drain(..).collect();
            if out != Out::Eof || t != want {
                return Err(viol(
                    "variables after failed READ",
                    format!("{}--- oracle\n{:?}\n--- observed\n{:?} {:?}", history, want, out, t),
                ));
            }
        }
        c.distinct(&t);
        history.push_str("----\n");
    }
    c.sample(|| history.clone());
    Ok(())
}

/// Arrays keep their shape, their elements do not overlap and nothing beyond them is reachable.
fn s03_arrays(c: &mut Case) -> R {
    struct Arr {
        name: String,
        ty: Ty,
        /// None if its DIM was never completed.
        dims: Option<Vec<i32>>,
        nd: usize,
        /// A DIM may shadow it.
        shared: bool,
        vals: HashMap<Vec<i32>, Val>,
    }
    fn sub(r: &mut Rng, k: i32) -> String {
        match r.below(6) {
            0 => format!("{}.25", k),
            1 => format!("TF({})", k),
            2 if k.abs() < 100_000 => format!("{} - 7", k + 7),
            _ => k.to_string(),
        }
    }
    fn lit(r: &mut Rng, ty: Ty) -> (String, Val) {
        match ty {
            TB => {
                let b = r.bool();
                (if b { "TRUE" } else { "FALSE" }.to_owned(), Val::B(b))
            }
            TI => {
                let i = r.range(-2147483647, 2147483647) as i32;
                (i.to_string(), Val::I(i))
            }
            TD => {
                let d = r.range(-1000, 1000) as f64 + 0.5;
                (format!("{:?}", d), Val::D(d))
            }
            TS => {
                let s = format!("é{}", r.below(100_000));
                (format!("\"{}\"", s), Val::S(Rc::from(s.as_str())))
            }
        }
    }
    fn spell(r: &mut Rng, a: &Arr) -> String {
        let n = if r.bool() { a.name.to_uppercase() } else { a.name.clone() };
        if r.chance(1, 4) { format!("{}{}", n, a.ty.suffix()) } else { n }
    }
    fn valid(r: &mut Rng, dims: &[i32]) -> Vec<i32> {
        dims.iter()
            .map(|d| match r.below(4) {
                0 => 0,
                1 => d - 1,
                _ => r.below(*d as usize) as i32,
            })
            .collect()
    }
    let log = Log::default();
    let mut m = mach::build(Opts { callables: trace::callables(&log), interactive: true, ..Default::default() });
    let mut arrs: Vec<Arr> = vec![];
    let mut hist = String::new();
    let mut names = 0;
    for _ in 0..4 + c.rng.few(30) {
        let r = &mut c.rng;
        let refs = |r: &mut Rng, subs: &[i32]| subs.iter().map(|k| sub(r, *k)).collect::<Vec<_>>().join(", ");
        log.borrow_mut().clear();
        macro_rules! go {
            ($src:expr) => {{
                hist.push_str(&format!("{}\n", $src));
                c.input(hist.clone());
                m.run(&format!("{}\n", $src))
            }};
        }
        macro_rules! need {
            ($cond:expr, $what:expr, $got:expr) => {
                if !$cond {
                    return Err(viol($what, format!("{}--- {:?} {:?}", hist, $got, log.borrow())));
                }
            };
        }
        if arrs.is_empty() || r.chance(1, 6) {
            names += 1;
            let nd = 1 + r.few(3);
            let big = r.chance(1, 20);
            let mut dims: Vec<i32> = vec![];
            let mut total = 1i64;
            for _ in 0..nd {
                let room = (200_000 / total).max(1);
                let d = if big { r.range(1, room.min(70_000)) } else { r.range(1, room.min(5)) };
                total *= d;
                dims.push(d as i32);
            }
            let ty = *r.pick(&[TB, TI, TD, TS]);
            let typed = if ty == TI && r.bool() { String::new() } else { format!(" AS {}", ty.name()) };
            let name = format!("arr{}", names);
            let shared = if names < 10 && r.chance(1, 4) { "SHARED " } else { "" };
            let bad = r.chance(1, 8);
            let before = !bad && r.chance(1, 12);
            let mut asked = dims.clone();
            if bad {
                let k = r.below(nd);
                asked[k] = *r.pick(&[0, -1, -5, -2147483647]);
            }
            let first = if before { "TFAIL 1: " } else { "" };
            let src = format!("{}DIM {}{}({}){}", first, shared, name, refs(r, &asked), typed);
            let got = go!(src);
            if bad || before {
                need!(matches!(got, Out::Runtime(_)), "bad DIM accepted", got);
                c.saw("arrays never dimensioned", 1);
            } else {
                need!(got == Out::Eof, "DIM rejected", got);
            }
            arrs.push(Arr { name, ty, nd, shared: !shared.is_empty(), dims: if bad || before { None } else { Some(dims) }, vals: HashMap::new() });
            continue;
        }
        let i = r.below(arrs.len());
        let name = spell(r, &arrs[i]);
        let ty = arrs[i].ty;
        let nd = arrs[i].nd;
        let Some(dims) = arrs[i].dims.clone() else {
            // Nothing works with it, and nothing breaks.
            let subs = vec![0; nd];
            let src = match r.below(4) {
                0 => format!("TR {}({})", name, refs(r, &subs)),
                1 => format!("{}({}) = {}", name, refs(r, &subs), lit(r, ty).0),
                2 => format!("TR LBOUND({}, 1)", name),
                _ => format!("TR UBOUND({}{})", name, if nd > 1 { ", 1" } else { "" }),
            };
            let got = go!(src);
            need!(matches!(got, Out::Runtime(_)), "array without dimensions used", got);
            continue;
        };
        match r.below(12) {
            0..=3 => {
                let at = valid(r, &dims);
                let (text, v) = lit(r, ty);
                let src = format!("{}({}) = {}", name, refs(r, &at), text);
                let got = go!(src);
                need!(got == Out::Eof, "store rejected", got);
                arrs[i].vals.insert(at, v);
                c.saw("elements stored", 1);
            }
            4 | 5 => {
                let at = match arrs[i].vals.keys().min() {
                    Some(k) if r.bool() => k.clone(),
                    _ => valid(r, &dims),
                };
                let src = format!("TR {}({})", name, refs(r, &at));
                let got = go!(src);
                let want = arrs[i].vals.get(&at).cloned().unwrap_or_else(|| ty.zero()).show();
                need!(got == Out::Eof && log.borrow().last() == Some(&want), "element differs", (got, want));
                c.saw("elements read", 1);
            }
            6 | 7 => {
                // A subscript outside of its dimension, even where the others would make up for it.
                let mut at: Vec<i32> = if r.bool() { vec![0; nd] } else { valid(r, &dims) };
                let k = r.below(nd);
                let d = dims[k];
                at[k] = *r.pick(&[d, d, d + 1, -1, -d, 2147483647, -2147483647, d + 65536, 65536 + d, d * 2, 1 << 24]);
                let src = if r.bool() {
                    format!("TR {}({})", name, refs(r, &at))
                } else {
                    format!("{}({}) = {}", name, refs(r, &at), lit(r, ty).0)
                };
                let got = go!(src);
                let named = match &got {
                    Out::Runtime(e) => e.contains(&at[k].to_string()),
                    _ => false,
                };
                need!(named, "subscript out of bounds", (got, at[k]));
                c.saw("subscripts out of bounds", 1);
            }
            8 | 9 => {
                let k = match r.below(4) {
                    0 => *r.pick(&[0, -1, nd as i32 + 1, 256, 257, 65537, -2147483647, 2147483647]),
                    _ => 1 + r.below(nd) as i32,
                };
                let given = nd > 1 && !r.chance(1, 8) || r.chance(2, 3);
                let upper = r.chance(2, 3);
                let f = if upper { "UBOUND" } else { "LBOUND" };
                let src = if given { format!("TR {}({}, {})", f, name, sub(r, k)) } else { format!("TR {}({})", f, name) };
                let got = go!(src);
                let k = if given { k } else { 1 };
                if given && (k < 1 || k > nd as i32) || !given && nd > 1 {
                    need!(matches!(got, Out::Runtime(_)), "bounds of an unknown dimension", got);
                } else {
                    let want = Val::I(if upper { dims[k as usize - 1] - 1 } else { 0 }).show();
                    need!(got == Out::Eof && log.borrow().last() == Some(&want), "bounds differ", (got, want));
                    c.saw("bounds", 1);
                }
            }
            10 => {
                // As many subscripts as dimensions, and only one DIM.
                let src = match r.below(3) {
                    0 => format!("TR {}({})", name, refs(r, &vec![0; nd + 1])),
                    1 if nd > 1 => format!("{}({}) = {}", name, refs(r, &vec![0; nd - 1]), lit(r, ty).0),
                    _ if arrs[i].shared => continue,
                    _ => format!("DIM {}({})", arrs[i].name, refs(r, &dims)),
                };
                let got = go!(src);
                need!(matches!(got, Out::Compile(_)), "array misused", got);
            }
            _ => {
                if r.chance(1, 6) {
                    let got = go!("CLEAR");
                    need!(got == Out::Eof, "CLEAR", got);
                    arrs.clear();
                    continue;
                }
                // Fill it all.
                let total: i64 = dims.iter().map(|d| *d as i64).product();
                if total > 120 {
                    continue;
                }
                let mut src = String::new();
                let mut at = vec![0; nd];
                loop {
                    let (text, v) = lit(r, ty);
                    src.push_str(&format!("{}({}) = {}\n", name, at.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","), text));
                    arrs[i].vals.insert(at.clone(), v);
                    let Some(k) = (0..nd).find(|k| at[*k] + 1 < dims[*k]) else { break };
                    at[k] += 1;
                    at[..k].fill(0);
                }
                let got = go!(src);
                need!(got == Out::Eof, "fill rejected", got);
                c.saw("arrays filled", 1);
            }
        }
    }
    // Everything stored is still there.
    for a in arrs.iter().filter(|a| a.dims.is_some()) {
        let mut keys: Vec<&Vec<i32>> = a.vals.keys().collect();
        keys.sort();
        let zero = vec![0; a.nd];
        let last: Vec<i32> = a.dims.as_ref().unwrap().iter().map(|d| d - 1).collect();
        keys.push(&zero);
        keys.push(&last);
        let mut src = String::new();
        let mut want = vec![];
        for k in keys {
            src.push_str(&format!("TR {}({})\n", a.name, k.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",")));
            want.push(a.vals.get(k).cloned().unwrap_or_else(|| a.ty.zero()).show());
        }
        log.borrow_mut().clear();
        let out = m.run(&src);
        let t: Vec<String> = log.borrow_mut().drain(..).collect();
        if out != Out::Eof || t != want {
            return Err(viol("elements lost", format!("{}{}--- oracle\n{:?}\n--- observed\n{:?} {:?}", hist, src, want, out, t)));
        }
        c.saw("elements read", want.len() as u64);
    }
    c.distinct(&hist);
    c.sample(|| hist.clone());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            level: "exploration",
            rule: "Random nested calls to every string function with hostile strings and numbers, compared with character-level definitions, plus algebraic laws; distinct = different calls and results",
            assumptions: &["SPACE below 300 characters"],
            require: &[("values", 1000), ("errors", 1000), ("laws", 1000)],
            stages: vec![
                Stage { name: "calls", quick: 50_000, thorough: 800_000, f: s01 },
                Stage { name: "laws", quick: 8_000, thorough: 300_000, f: s01_laws },
                Stage { name: "codes", quick: 8_706, thorough: 8_706, f: s01_codes },
            ],
            probes: vec![],
        },
        Prop {
            id: "S02",
            level: "exploration",
            rule: "Random nested calls to every numeric function over the edges of integers and doubles, in both angle modes, and sequences of seeded random numbers; distinct = different calls and results",
            assumptions: &["the reference uses the same floating point library of the host"],
            require: &[("values", 1000), ("errors", 1000), ("roundings", 1000), ("random numbers", 1000)],
            stages: vec![
                Stage { name: "calls", quick: 100_000, thorough: 800_000, f: s02 },
                Stage { name: "round", quick: 5_000, thorough: 300_000, f: s02_round },
                Stage { name: "random", quick: 1_000, thorough: 30_000, f: s02_random },
            ],
            probes: vec![],
        },
        Prop {
            id: "S03",
            level: "exploration",
            rule: "Random sequences of chunks with DATA anywhere, READ into compatible and incompatible variables, RESTORE and CLEAR, and histories over arrays of one to nine dimensions; distinct = different values read and histories",
            assumptions: &[],
            require: &[
                ("values read", 1000),
                ("failed reads", 1000),
                ("elements read", 1000),
                ("subscripts out of bounds", 1000),
                ("bounds", 1000),
                ("arrays never dimensioned", 100),
            ],
            stages: vec![
                Stage { name: "chunks", quick: 80_000, thorough: 1_000_000, f: s03 },
                Stage { name: "arrays", quick: 40_000, thorough: 400_000, f: s03_arrays },
            ],
            probes: vec![],
        },
    ]
}
