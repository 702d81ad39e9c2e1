//! Properties of the front end: robustness, error positions, determinism, formatting.

use crate::corpus::{self, K, T, join, tokens};
use crate::gen_::*;
use crate::lang::*;
use crate::mach::{self, Opts, Out};
use crate::rng::Rng;
use crate::runner::*;
use crate::trace::{self, Log};
use endbasic_core::{Callable, Compiler, CompilerError, Image, SymbolKey};
use std::collections::HashMap;
use std::io::{self, Read};
use std::rc::Rc;

thread_local! {
    static STUBS: HashMap<SymbolKey, Rc<dyn Callable>> = {
        let log = Log::default();
        let m = mach::build(Opts { callables: trace::callables(&log), ..Default::default() });
        let mut h: HashMap<SymbolKey, Rc<dyn Callable>> = HashMap::default();
        for (k, v) in m.md.borrow().iter() {
            h.insert(k.clone(), Rc::new(trace::Stub(v.clone())));
        }
        h
    };
}

fn compiler() -> Compiler {
    STUBS.with(|s| Compiler::new(s, &[]).unwrap())
}

/// Reader that returns data in small pieces and possibly fails.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    rng: Rng,
    fail_at: Option<usize>,
}

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(f) = self.fail_at
            && self.pos >= f
        {
            return Err(io::Error::other("injected read fault"));
        }
        let mut n = (1 + self.rng.below(7)).min(buf.len()).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn text(r: &Result<(), CompilerError>) -> String {
    match r {
        Ok(()) => "OK".to_owned(),
        Err(e) => e.to_string(),
    }
}

fn split_pos(s: &str) -> Option<(usize, usize, &str)> {
    let (l, r) = s.split_once(':')?;
    let (c, r) = r.split_once(':')?;
    Some((l.parse().ok()?, c.parse().ok()?, r))
}

/// Checks that an error refers to a position within the source.
fn check_position(src: &[u8], e: &CompilerError) -> Result<(), String> {
    let msg = e.to_string();
    let Some((l, c, rest)) = split_pos(&msg) else {
        return Err(format!("no position in {:?}", msg));
    };
    if e.pos().line != l || e.pos().col != c {
        return Err(format!("pos() differs from message {:?}", msg));
    }
    if rest.trim().is_empty() {
        return Err("empty message".to_owned());
    }
    let text = String::from_utf8_lossy(src);
    let lines: Vec<&str> = text.split('\n').collect();
    if l < 1 || l > lines.len() {
        return Err(format!("line out of range in {:?}", msg));
    }
    let mut w = 1;
    for ch in lines[l - 1].chars() {
        if ch == '\t' {
            w = (w - 1 + 8) / 8 * 8 + 1;
        } else {
            w += 1;
        }
    }
    if c < 1 || c > w + 1 {
        return Err(format!("column out of range in {:?} (width {})", msg, w));
    }
    Ok(())
}

const WORDS: [&str; 62] = [
    "AND", "AS", "BOOLEAN", "CASE", "DATA", "DECLARE", "DIM", "DO", "DOUBLE", "ELSE", "ELSEIF", "END",
    "ERROR", "EXIT", "FALSE", "FOR", "FUNCTION", "GOSUB", "GOTO", "IF", "IS", "INTEGER", "LOOP", "MOD",
    "NEXT", "NOT", "ON", "OR", "REM", "RESUME", "RETURN", "SELECT", "SHARED", "STEP", "STRING", "SUB",
    "THEN", "TO", "TRUE", "UNTIL", "WEND", "WHILE", "XOR", "PRINT", "INPUT", "READ", "RESTORE", "TR",
    "TF", "LEFT", "CHR", "LBOUND", "UBOUND", "COLOR", "a", "b$", "c#", "d%", "e?", "foo", "GFX_LINE", "OUT",
];
const SYMS: [&str; 40] = [
    "+", "-", "*", "/", "^", "=", "<>", "<", "<=", ">", ">=", "<<", ">>", "(", ")", ",", ";", ":", "\n",
    "\n", "@x", "@y", "@", "1", "0", "2147483647", "2147483648", "1.5", "1.", ".5", "&x_ff", "&b", "&q1",
    "\"foo\"", "\"", "'", "?", "$", "%", "#",
];

fn any_token(r: &mut Rng) -> String {
    match r.below(12) {
        0..=4 => r.pick(&WORDS).to_string(),
        5..=9 => r.pick(&SYMS).to_string(),
        10 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x').to_string(),
        _ => r.pick(&["99999999999", "é", "\u{1F600}", "\r", "\t", "\0", "{", "\\", "1e5", "\u{301}"]).to_string(),
    }
}

pub fn mutate(r: &mut Rng, src: &[u8]) -> Vec<u8> {
    let text = String::from_utf8_lossy(src).into_owned();
    let mut t: Vec<String> = tokens(&text).into_iter().map(|t| t.s).collect();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len());
        match r.below(9) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            2 => {
                let j = r.below(t.len());
                t.swap(i, j);
            }
            3 | 4 => t[i] = any_token(r),
            5 => {
                let x = any_token(r);
                t.insert(i, format!(" {} ", x));
            }
            6 => t.truncate(i),
            7 => {
                // Drops or repeats a range.
                let j = (i + 1 + r.below(30)).min(t.len());
                if r.bool() {
                    t.drain(i..j);
                } else {
                    let x: Vec<String> = t[i..j].to_vec();
                    let k = r.below(t.len());
                    for (n, s) in x.into_iter().enumerate() {
                        t.insert((k + n).min(t.len()), s);
                    }
                }
            }
            _ => {
                let other = corpus::pick(r).1;
                let o = tokens(&String::from_utf8_lossy(&other)).into_iter().map(|t| t.s).collect::<Vec<_>>();
                if !o.is_empty() {
                    let a = r.below(o.len());
                    let b = (a + 1 + r.below(20)).min(o.len());
                    for (n, s) in o[a..b].iter().enumerate() {
                        t.insert((i + n).min(t.len()), s.clone());
                    }
                }
            }
        }
    }
    let mut b = t.concat().into_bytes();
    if r.chance(1, 6) && !b.is_empty() {
        for _ in 0..1 + r.below(3) {
            let i = r.below(b.len());
            match r.below(3) {
                0 => b[i] = r.below(256) as u8,
                1 => {
                    b.insert(i, r.below(256) as u8);
                }
                _ => {
                    b.remove(i);
                    if b.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    b.truncate(6000);
    b
}

fn hostile(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => (0..r.few(60)).map(|_| r.below(256) as u8).collect(),
        1 | 2 => {
            let mut s = String::new();
            for _ in 0..r.few(40) {
                s.push_str(&any_token(r));
                if r.chance(5, 6) {
                    s.push(' ');
                }
            }
            s.into_bytes()
        }
        3 => {
            // Statement heads with random continuations.
            let mut s = String::new();
            for _ in 0..1 + r.below(4) {
                let heads: &[&str] = &[
                    "IF ", "IF a THEN", "FOR i = ", "FOR i = 1 TO 2 STEP ", "SELECT CASE 1\nCASE ", "DO WHILE ",
                    "LOOP UNTIL ", "ON ERROR ", "ON 1 GOTO ", "DIM a(", "DIM SHARED ", "DATA 1,", "FUNCTION f(", "SUB s(",
                    "DECLARE FUNCTION ", "DECLARE SUB x(", "EXIT ", "END ", "GOTO ", "GOSUB ", "a(1", "a = ", "a$ = ",
                    "NEXT ", "WEND ", "CASE ", "ELSEIF ", "ELSE IF ", "RETURN ", "PRINT ", "INPUT ", "READ ",
                    "x = NOT ", "x = -", "x = 2 ^ -", "x = LBOUND(", "@x:", "SUB a\nFUNCTION b\n",
                ];
                s.push_str(r.pick(heads));
                for _ in 0..r.few(8) {
                    s.push_str(&any_token(r));
                    s.push(' ');
                }
                s.push('\n');
            }
            s.into_bytes()
        }
        4 => corpus::pick(r).1,
        _ => {
            let src = corpus::pick(r).1;
            mutate(r, &src)
        }
    }
}

fn c06_hostile(c: &mut Case) -> R {
    let src = hostile(&mut c.rng);
    check_front(c, &src)
}

fn c06_generated(c: &mut Case) -> R {
    let cfg = Cfg { funs: 2, labels: 1, gosubs: 1, ..Cfg::small() };
    let p = Gen::new(&mut c.rng, cfg).program();
    let style = Style { seed: c.rng.next(), noise: 1 };
    let (s, _) = Render::new(&p, style).render();
    let src = mutate(&mut c.rng, s.as_bytes());
    check_front(c, &src)
}

fn check_front(c: &mut Case, src: &[u8]) -> R {
    c.input(String::from_utf8_lossy(src).into_owned());
    let shown = || format!("{:?}", String::from_utf8_lossy(src));
    let mut image = Image::default();
    let mut comp = compiler();
    // A previous chunk must survive whatever comes next.
    let base: &[u8] = b"qq = 1: FUNCTION qf: qf = 2: END FUNCTION: DIM qa(3) AS STRING\n";
    comp.compile_more(&mut image, &mut &base[..]).unwrap();
    let before = image.disasm();
    let r1 = comp.compile_more(&mut image, &mut &src[..]);
    c.saw("compilations", 1);
    match &r1 {
        Ok(()) => {
            c.saw("accepted", 1);
        }
        Err(e) => {
            c.saw("rejected", 1);
            let valid_utf8 = std::str::from_utf8(src).is_ok();
            if valid_utf8 {
                if let Err(m) = check_position(src, e) {
                    return Err(viol("bad error position", format!("{}\n--- {}", shown(), m)));
                }
            } else if split_pos(&e.to_string()).is_none() {
                return Err(viol("bad error position", format!("{}\n--- {}", shown(), e)));
            }
            c.distinct(&e.message_without_pos());
            if image.disasm() != before {
                return Err(viol("rejected code changes the image", format!("{}\n--- {}", shown(), e)));
            }
        }
    }
    let t1 = text(&r1);
    let d1 = image.disasm();
    // Same results from a reader that delivers the code in other ways.
    let mut image2 = Image::default();
    let mut comp2 = compiler();
    comp2.compile_more(&mut image2, &mut &base[..]).unwrap();
    let mut rd = Pieces { data: src, pos: 0, rng: Rng::new(c.rng.next()), fail_at: None };
    let r2 = comp2.compile_more(&mut image2, &mut rd);
    same("compilation is not deterministic", &shown(), &text(&r2), &t1)?;
    same("compilation is not deterministic", &shown(), &image2.disasm(), &d1)?;
    // Read faults are reported.
    if c.rng.chance(1, 3) && !src.is_empty() {
        let at = c.rng.below(src.len());
        let mut image3 = Image::default();
        let mut comp3 = compiler();
        let mut rd = Pieces { data: src, pos: 0, rng: Rng::new(c.rng.next()), fail_at: Some(at) };
        match comp3.compile_more(&mut image3, &mut rd) {
            Ok(()) => return Err(viol("read fault ignored", format!("{} fault at {}", shown(), at))),
            Err(e) => {
                let s = e.to_string();
                if split_pos(&s).is_none() {
                    return Err(viol("bad error position", format!("{}\n--- fault at {}: {}", shown(), at, s)));
                }
                if image3.disasm() != Image::default().disasm() {
                    return Err(viol("read fault changes the image", format!("{} fault at {}", shown(), at)));
                }
                if s.contains("injected") {
                    c.saw("read faults reported", 1);
                }
            }
        }
    }
    // The compiler remains usable and knows about what was there before.
    let after: &[u8] = b"qq = qq + qf: qa(1) = \"x\"\n";
    if r1.is_err() {
        let r = comp.compile_more(&mut image, &mut &after[..]);
        same("unusable after rejecting code", &shown(), &text(&r), &"OK".to_owned())?;
        if image.disasm()[..before.len().min(1)] != before[..before.len().min(1)] {
            return Err(viol("image changed", shown()));
        }
    }
    c.sample(|| format!("{} => {}", shown(), t1));
    Ok(())
}

/// A single invalid character within an otherwise valid program is reported right where it is.
fn c06_located(c: &mut Case) -> R {
    let mut src = String::from_utf8_lossy(&corpus::pick(&mut c.rng).1).into_owned();
    if c.rng.bool() {
        let cfg = Cfg { funs: 2, labels: 1, gosubs: 1, ..Cfg::small() };
        let p = Gen::new(&mut c.rng, cfg).program();
        let style = Style { seed: c.rng.next(), noise: 1 };
        src = Render::new(&p, style).render().0;
    }
    let t = tokens(&src);
    if t.is_empty() || compile_text(&src).0.is_err() {
        return Ok(());
    }
    let mut i = c.rng.below(t.len());
    while i < t.len() && matches!(t[i].k, K::Space | K::Comment | K::Eol) {
        i += 1;
    }
    // The shebang is not code, and what precedes an = would no longer be an assignment.
    if i == t.len()
        || t[i].s == "="
        || t[i].s == "("
        || (src.starts_with("#!") && !t[..i].iter().any(|t| t.k == K::Eol))
    {
        return Ok(());
    }
    let head = format!("{} ", join(&t[..i]));
    let bad = c.rng.pick(&[
        "{", "}", "~", "|", "\\", "?", "%", "[", "!", "é{", "\u{c}", "\u{b}", "\u{a0}", "\u{2003}",
        "\u{85}", "\u{feff}", "\0", "\u{2028}",
    ]).to_string();
    let a = format!("{}{} {}", head, bad, join(&t[i..]));
    c.input(a.clone());
    let (mut l, mut col) = (1, 1);
    for ch in head.chars() {
        match ch {
            '\n' => {
                l += 1;
                col = 1;
            }
            '\t' => col = (col - 1 + 8) / 8 * 8 + 1,
            _ => col += 1,
        }
    }
    let mut image = Image::default();
    match compiler().compile_more(&mut image, &mut a.as_bytes()) {
        Ok(()) => Err(viol("invalid character accepted", format!("{}\n--- {} at {}:{}", a, bad, l, col))),
        Err(e) => {
            c.saw("located errors", 1);
            c.distinct(&e.to_string());
            let p = (e.pos().line, e.pos().col);
            same("error reported at the wrong position", &format!("{}\n--- {}", a, e), &p, &(l, col))
        }
    }
}

/// Constructs that are not of the language, with a mark before what is reported.
const MALFORMED: &[&str] = &[
    "FOR zi = 1 TO 2 STEP ¶0",
    "FOR zi = 1 TO 2 STEP -¶0",
    "FOR zi = 1 TO 2 STEP ¶0.0",
    "FOR zi = 1 TO 2 STEP -¶0.0",
    "FOR zi = 1 TO 2 STEP ¶zz",
    "FOR zi = 1 TO 2 STEP -¶zz",
    "FOR zi = 1 TO 2 STEP ¶\"a\"",
    "FOR zi = 1 TO 2 STEP ¶+1",
    "FOR zi = 1 TO 2 STEP ¶(1)",
    "FOR zi = 1 TO 2 STEP 1 ¶+ 1",
    "FOR ¶3 = 1 TO 2",
    "FOR ¶= 1 TO 2",
    "FOR ¶zi$ = 1 TO 2",
    "FOR ¶zi? = 1 TO 2",
    "FOR zi ¶TO 2",
    "FOR zi = ¶TO 2",
    "FOR zi = 1 TO ¶STEP 2",
    "FOR zi = 1¶",
    "FOR zi = 1 ¶STEP 2",
    "FOR zi¶(1) = 1 TO 2",
    "DIM ¶",
    "DIM ¶3",
    "DIM zd ¶3",
    "DIM ¶zd$",
    "DIM zd AS ¶3",
    "DIM zd AS ¶foo",
    "DIM zd AS INTEGER¶, ze",
    "DIM zd ¶= 3",
    "DIM zd¶() AS INTEGER",
    "DIM SHARED ¶3",
    "DIM SHARED ¶SHARED zd",
    "DIM zd(3) AS INTEGER ¶AS INTEGER",
    "zz = 1 ¶2",
    "zz = 1 ¶NOT 2",
    "zz = 1 + (2 ¶3)",
    "zz = 1 + 2 ¶(3)",
    "zz = 1 ¶+",
    "zz = ¶+ 1",
    "zz = 1 ¶+ * 2",
    "zz = ¶",
    "zz = ¶(1 + 2",
    "zz = (1 + 2)¶)",
    "zz = (¶IF 1)",
    "zz = 1 + ¶WHILE",
    "zz = 1 ¶, 2",
    "zz = 1¶; 2",
    "zz = 1 ¶AS INTEGER",
    "zz = 1 ¶THEN",
    "zz = 1 ¶= = 2",
    "zz(1) = 1 ¶, 2",
    "zz(1) = ¶",
    "¶= 3",
    "¶+ 3",
    "¶3.5",
    "¶\"a\"",
    "¶TRUE",
    "¶(1)",
    "¶, 2",
    "¶THEN",
    "¶TO 3",
    "¶STEP",
    "¶IS 3",
    "¶AS INTEGER",
    "¶UNTIL TRUE",
    "¶MOD 3",
    "¶INTEGER",
    "¶STRING = 3",
    "¶ERROR GOTO 0",
    "OUT 1 ¶2",
    "OUT 1 ¶THEN",
    "OUT 1, 2 ¶TO 3",
    "¶OUT% 1",
    "OUT (1) ¶2",
    "GOTO ¶",
    "GOTO ¶zz",
    "GOTO ¶\"10\"",
    "GOTO ¶-1",
    "GOTO @zz ¶1",
    "GOSUB ¶",
    "GOSUB ¶zz",
    "GOSUB @zz ¶@zy",
    "RETURN ¶1",
    "EXIT ¶",
    "EXIT ¶IF",
    "EXIT ¶WHILE",
    "EXIT DO ¶1",
    "ON ¶",
    "ON ¶GOTO 10",
    "ON ERROR ¶",
    "ON ERROR ¶GOSUB 10",
    "ON ERROR GOTO ¶zz",
    "ON ERROR GOTO ¶",
    "ON ERROR GOTO 0 ¶1",
    "ON ERROR RESUME ¶",
    "ON ERROR RESUME ¶1",
    "ON ERROR RESUME NEXT ¶NEXT",
    "DATA 1 ¶2",
    "DATA ¶zz",
    "DATA ¶+1",
    "DATA ¶-",
    "DATA ¶-zz",
    "DATA ¶-&x80000000",
    "FOR zi = 1 TO 2 STEP -¶&x80000000",
    "DATA 1, ¶(2)",
    "DATA 1¶; 2",
    "IF ¶",
    "IF ¶THEN OUT 1",
    "IF 1 = 1¶",
    "IF 1 = 1 ¶OUT 1",
    "IF 1 = 1 ¶ELSE OUT 2",
    "IF 1 = 1 THEN OUT 1 ELSE ¶ELSE OUT 2",
    "IF 1 = 1 THEN ¶FOR zi = 1 TO 2",
    "IF 1 = 1 THEN ¶WHILE TRUE",
    "IF 1 = 1 THEN ¶DO",
    "IF 1 = 1 THEN ¶SELECT CASE 1",
    "IF 1 = 1 THEN ¶DIM zz",
    "IF 1 = 1 THEN ¶IF 2 = 2 THEN OUT 1",
    "IF 1 = 1 THEN ¶FUNCTION zf",
    "IF 1 = 1 THEN\nELSEIF ¶THEN",
    "IF 1 = 1 THEN\nELSEIF 2 = 2¶",
    "IF 1 = 1 THEN\nELSEIF 2 = 2 ¶OUT 1",
    "IF 1 = 1 THEN\nELSE ¶OUT 1",
    "IF 1 = 1 THEN\nELSE\n¶ELSE",
    "IF 1 = 1 THEN\nELSE\n¶ELSEIF 2 = 2 THEN",
    "IF 1 = 1 THEN\nEND IF ¶1",
    "SELECT CASE ¶",
    "SELECT ¶1",
    "SELECT CASE 1 ¶2",
    "SELECT CASE 1 ¶THEN",
    "SELECT CASE 1\nCASE 1 ¶2",
    "SELECT CASE 1\nCASE ¶",
    "SELECT CASE 1\nCASE 1,¶",
    "SELECT CASE 1\nCASE 1 TO ¶",
    "SELECT CASE 1\nCASE IS ¶",
    "SELECT CASE 1\nCASE IS ¶1",
    "SELECT CASE 1\nCASE IS ¶AND 1",
    "SELECT CASE 1\nCASE IS >¶",
    "SELECT CASE 1\nCASE 1, ¶ELSE",
    "SELECT CASE 1\nCASE ELSE ¶1",
    "SELECT CASE 1\nCASE 1 TO 2 ¶TO 3",
    "SELECT CASE 1\nCASE ELSE\n¶CASE ELSE",
    "SELECT CASE 1\nCASE ELSE\n¶CASE 1",
    "SELECT CASE 1\n¶OUT 1",
    "SELECT CASE 1\nEND SELECT ¶2",
    "WHILE ¶",
    "WHILE TRUE ¶1",
    "WHILE TRUE ¶THEN",
    "WHILE TRUE\nWEND ¶TRUE",
    "DO ¶1",
    "DO ¶IF",
    "DO WHILE ¶",
    "DO UNTIL ¶",
    "DO WHILE TRUE ¶1",
    "DO WHILE TRUE ¶UNTIL TRUE",
    "DO\nLOOP ¶1",
    "DO\nLOOP UNTIL ¶",
    "¶DO WHILE TRUE\nLOOP WHILE TRUE",
    "¶DO UNTIL TRUE\nLOOP UNTIL TRUE",
    "DECLARE ¶",
    "DECLARE ¶zz",
    "DECLARE SUB ¶",
    "DECLARE SUB ¶zs%",
    "DECLARE SUB zs(¶)",
    "DECLARE SUB zs(¶3)",
    "DECLARE SUB zs(za¶; zb)",
    "DECLARE SUB zs(za¶",
    "DECLARE SUB zs(za,¶)",
    "DECLARE FUNCTION zf(za AS ¶foo)",
    "DECLARE FUNCTION zf(¶za% AS INTEGER)",
    "DECLARE FUNCTION zf ¶1",
    "zz = ¶&",
    "zz = ¶&x",
    "zz = ¶&xzz",
    "zz = ¶&b2",
    "zz = ¶&o8",
    "zz = ¶&q1",
    "zz = ¶&x100000000",
    "zz = ¶&x1.5",
    "zz = ¶1.2.3",
    "zz = ¶2147483648",
    "zz = ¶.5",
    "zz = ¶1e5",
    "zz = ¶zq!",
    "¶@",
    "¶@1",
    "¶@zq@",
];

/// Constructs whose symbols or types do not fit, with a mark before what is reported.
const MISTYPED: &[&str] = &[
    "zz = 1 ¶+ \"a\"",
    "zz = \"a\" ¶* 2",
    "zz = ¶NOT \"a\"",
    "zz = ¶NOT 1.5",
    "zz = ¶-\"a\"",
    "zz = ¶-TRUE",
    "zz = 1 ¶AND TRUE",
    "zz = 1.5 ¶OR 2",
    "zz = 1 ¶< TRUE",
    "zz = TRUE ¶> FALSE",
    "zz = \"a\" ¶= 1",
    "zz = TRUE ¶<> 1",
    "zz = TRUE ¶<< 1",
    "zz = 1 ¶>> 2.5",
    "zz = 1 ¶>> \"a\"",
    "zz = 1 ¶MOD \"a\"",
    "zz = TRUE ¶^ 2",
    "zz = 1 + (2 ¶- \"a\") * 3",
    "zz = ¶zy",
    "OUT ¶zy",
    "OUT 1 + ¶zy",
    "zz = ¶zy(1)",
    "zz = 1 + ¶zy(1, 2)",
    "¶zy(1) = 2",
    "¶ZYCMD",
    "¶ZYCMD 1",
    "zz = 1\nzz = ¶\"a\"",
    "zz = 1\nzz = ¶TRUE",
    "zz = \"a\"\nzz = ¶1",
    "zz = TRUE\nzz = ¶1.5",
    "DIM zz AS STRING\nzz = ¶1",
    "DIM zz AS INTEGER\nDIM ¶zz AS INTEGER",
    "DIM zz(3) AS INTEGER\nDIM ¶zz AS INTEGER",
    "DIM zz AS INTEGER\nDIM ¶zz(3) AS INTEGER",
    "DIM zz(3) AS INTEGER\nzz(¶\"a\") = 1",
    "DIM zz(3) AS INTEGER\nzz(1) = ¶\"a\"",
    "DIM zz(3) AS INTEGER\n¶zz(1, 2) = 1",
    "DIM zz(3) AS INTEGER\nOUT ¶zz(1, 2)",
    "DIM zz(3) AS INTEGER\nOUT zz(¶\"a\")",
    "DIM zz(3) AS INTEGER\n¶zz = 1",
    "DIM zz(3) AS INTEGER\nOUT ¶zz",
    "DIM zz(3) AS INTEGER\nOUT ¶zz + 1",
    "DIM zz(3) AS INTEGER\nOUT ¶zz$(1)",
    "DIM zz(¶\"a\") AS INTEGER",
    "DIM zz(1, ¶TRUE) AS INTEGER",
    "IF ¶1 THEN\nEND IF",
    "IF ¶\"a\" THEN OUT 1",
    "IF FALSE THEN\nELSEIF ¶2 THEN\nEND IF",
    "WHILE ¶1\nWEND",
    "DO UNTIL ¶\"a\"\nLOOP",
    "DO\nLOOP WHILE ¶1",
    "FOR zz = 1 ¶TO \"a\"\nNEXT",
    "GOTO ¶@zznone",
    "GOTO ¶99999",
    "GOSUB ¶@zznone",
    "IF TRUE THEN GOTO ¶@zznone",
    "@zm\n¶@zm",
    "END ¶\"a\"",
    "END ¶TRUE",
    "SELECT CASE 1\nCASE ¶\"a\"\nEND SELECT",
    "SELECT CASE \"a\"\nCASE IS > ¶1\nEND SELECT",
    "SELECT CASE ¶zy\nCASE 1\nEND SELECT",
    "OUT ¶zz%",
    "zz = 1\nOUT ¶zz$",
    "zz$ = ¶1",
    "zz% = ¶\"a\"",
    "¶OUT = 1",
    "OUT ¶OUT",
    "zz = ¶OUT(1)",
    "FOR zz = \"a\" ¶TO 2\nNEXT",
    "FOR zz = TRUE ¶TO 2\nNEXT",
    "¶ON ERROR GOTO @zznone",
    "SELECT CASE 1\nCASE ¶1 TO \"a\"\nEND SELECT",
    "zz = ¶OUT",
    "SUB zq\n¶EXIT DO\nEND SUB",
    "SUB zq\n¶EXIT FOR\nEND SUB",
    "DO\nSUB zq\n¶EXIT DO\nEND SUB\nEXIT DO\nLOOP",
    "FOR zi = 1 TO 2\nSUB zq\nIF TRUE THEN ¶EXIT FOR\nEND SUB\nNEXT",
    "FOR zi = 1 TO 2\nFUNCTION zq\nDO\n¶EXIT FOR\nLOOP\nEND FUNCTION\nNEXT",
    "DO\nFUNCTION zq\nFOR zi = 1 TO 2\n¶EXIT DO\nNEXT\nEND FUNCTION\nLOOP UNTIL TRUE",
    "WHILE FALSE\nSUB zq\n¶EXIT DO\nEND SUB\nWEND",
    "SUB zq\nDO\n¶EXIT FOR\nLOOP\nEND SUB",
    "SUB zq\n¶EXIT FUNCTION\nEND SUB",
    "FUNCTION zq\n¶EXIT SUB\nEND FUNCTION",
    "SUB zq\n@zin\nEND SUB\nGOTO ¶@zin",
    "SUB zq\nOUT 1\n@zin\nOUT 2\nEND SUB\nGOSUB ¶@zin",
    "SUB zq\n@zin\nEND SUB\n¶ON ERROR GOTO @zin",
    "GOTO ¶@zin\nFUNCTION zq\n@zin\nEND FUNCTION",
    "SUB zq\n@zin\nEND SUB\nSUB zr\nGOTO ¶@zin\nEND SUB",
    "SUB zq\nGOSUB ¶@zin\nEND SUB\nSUB zr\nOUT 1\n@zin\nEND SUB",
    "SUB zq\n¶SUB zr\nEND SUB\nEND SUB",
    "SUB zq\nIF TRUE THEN\nFUNCTION ¶zr\nEND FUNCTION\nEND IF\nEND SUB",
    "SUB zq\nEND SUB\nSUB ¶zq\nEND SUB",
    "SUB zq(a)\nEND SUB\n¶zq",
    "SUB zq(a)\nEND SUB\n¶zq 1, 2",
    "SUB zq(a)\nEND SUB\nzq ¶\"a\"",
    "FUNCTION zq(a)\nEND FUNCTION\nOUT ¶zq(1, 2)",
    "FUNCTION zq(a$)\nEND FUNCTION\nOUT zq(¶1)",
    "FUNCTION zq\nEND FUNCTION\n¶zq",
    "FUNCTION zq(a)\nEND FUNCTION\n¶zq 1",
    "SUB zq\nEND SUB\nzz = ¶zq",
    "SUB zq\nEND SUB\nDIM ¶zq",
    "SUB zq\nEND SUB\n¶zq = 1",
    "DECLARE SUB zq(a)\nSUB ¶zq(b$)\nEND SUB",
    "SUB zq\nzz = \"a\" ¶+ 1\nEND SUB",
    "SUB zq\nOUT ¶zr\nEND SUB",
    "FUNCTION zq\nzq = ¶\"a\"\nEND FUNCTION",
];

/// A malformed construct is reported where it is, wherever it is.
fn c06_malformed(c: &mut Case) -> R {
    let mut src = String::from_utf8_lossy(&corpus::pick(&mut c.rng).1).into_owned();
    if c.rng.bool() {
        let cfg = Cfg { funs: 2, labels: 1, gosubs: 1, ..Cfg::small() };
        let p = Gen::new(&mut c.rng, cfg).program();
        let style = Style { seed: c.rng.next(), noise: 1 };
        src = Render::new(&p, style).render().0;
    }
    if c.rng.chance(1, 8) {
        src.clear();
    }
    let lines: Vec<&str> = src.lines().collect();
    let at = c.rng.below(lines.len() + 1);
    let head: String = lines[..at].iter().map(|l| format!("{}\n", l)).collect();
    let tail: String = lines[at..].iter().map(|l| format!("{}\n", l)).collect();
    // The place must be one where statements are welcome.
    if compile_text(&format!("{}zok = 1\n{}", head, tail)).0.is_err() {
        return Ok(());
    }
    let m = if c.rng.bool() { c.rng.pick(MALFORMED) } else { c.rng.pick(MISTYPED) };
    if (m.contains("SUB z") || m.contains("FUNCTION "))
        && compile_text(&format!("{}SUB zok\nEND SUB\n{}", head, tail)).0.is_err()
    {
        // Definitions are not welcome within others.
        return Ok(());
    }
    let mut bad = " ".repeat(c.rng.few(9));
    if c.rng.chance(1, 4) {
        bad += *c.rng.pick(&["zok = 1: ", "OUT \"é\\\"x\": ", "@zl: ", "\t", "OUT 1 'x\n", ": : "]);
    }
    bad += m;
    let k = bad.find('¶').expect("Missing mark");
    let (l, col) = {
        let (mut l, mut col) = (at + 1, 1);
        for ch in bad[..k].chars() {
            match ch {
                '\n' => {
                    l += 1;
                    col = 1;
                }
                '\t' => col = (col - 1 + 8) / 8 * 8 + 1,
                _ => col += 1,
            }
        }
        (l, col)
    };
    let a = format!("{}{}\n{}", head, bad.replacen('¶', "", 1), tail);
    c.input(a.clone());
    let mut image = Image::default();
    match compiler().compile_more(&mut image, &mut a.as_bytes()) {
        Ok(()) => Err(viol(format!("accepted: {}", m), a)),
        Err(e) => {
            c.saw("malformed constructs", 1);
            c.distinct(&e.to_string());
            let p = (e.pos().line, e.pos().col);
            same(&format!("at the wrong position: {}", m), &format!("{}\n--- {}", a, e), &p, &(l, col))
        }
    }
}

// C12 -----------------------------------------------------------------------------------------

fn strip(d: Vec<String>) -> Vec<String> {
    d.into_iter()
        .map(|l| match l.split_once("; ") {
            Some((a, b)) => {
                let rest = b.split_once(", ").map(|x| x.1).unwrap_or("");
                format!("{};{}", a, rest)
            }
            None => l,
        })
        .collect()
}

fn flip(r: &mut Rng, s: &str) -> String {
    let m = r.below(4);
    s.chars()
        .map(|c| {
            if !c.is_ascii() {
                return c;
            }
            match m {
                0 => c.to_ascii_uppercase(),
                1 => c.to_ascii_lowercase(),
                2 => {
                    if r.bool() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                }
                _ => c,
            }
        })
        .collect()
}

const COMMENTS: [&str; 16] = [
    "' a\rEND 7", "REM\tx\r: OUT 9", "' @label", "REM a: OUT 5: REM b", "'\u{1F600}\u{301}", "' \"a\" _",
    "' comment", "REM comment", "'", "REM", "REM \"unterminated", "' a: b = 3: END", "rem 'x'", "REM é 日本",
    "'REM", "Rem  if then",
];

/// Rewrites the program in a way that must not affect its meaning.
fn reformat(r: &mut Rng, src: &str) -> String {
    let t = tokens(src);
    let level: usize = 1 + r.below(10);
    let mut out: Vec<T> = vec![];
    let crlf = r.chance(1, 8);
    let mut line_start = true;
    // Single-line IFs end at the end of the line, so leave those lines alone when splitting.
    let mut i = 0;
    while i < t.len() {
        let mut tok = t[i].clone();
        let hit = |r: &mut Rng| r.below(12) < level;
        match tok.k {
            K::Word => tok.s = flip(r, &tok.s),
            K::Num if tok.s.starts_with('&') => {
                tok.s = flip(r, &tok.s);
            }
            K::Space => {
                // Widen or change blanks.
                if hit(r) {
                    tok.s = r.pick(&[" ", "  ", "\t", " \t ", "   "]).to_string();
                }
            }
            K::Comment => {
                if hit(r) {
                    tok.s = r.pick(&COMMENTS).to_string();
                }
            }
            K::Eol => {
                if hit(r) && !matches!(out.last(), Some(T { k: K::Comment, .. })) && r.chance(1, 3) {
                    let comment = r.pick(&COMMENTS).to_string();
                    if !comment.starts_with('\'') || r.bool() {
                        out.push(T { k: K::Space, s: " ".to_owned() });
                    }
                    out.push(T { k: K::Comment, s: comment });
                }
                if crlf {
                    tok.s = "\r\n".to_owned();
                }
            }
            _ => (),
        }
        // Spaces around punctuation.
        if tok.k == K::Sym && hit(r) {
            out.push(T { k: K::Space, s: " ".to_owned() });
            out.push(tok.clone());
            out.push(T { k: K::Space, s: r.pick(&[" ", "\t", "  "]).to_string() });
        } else {
            out.push(tok.clone());
        }
        if tok.k == K::Eol {
            line_start = true;
            if hit(r) && r.chance(1, 4) {
                match r.below(4) {
                    0 => out.push(T { k: K::Eol, s: "\n".to_owned() }),
                    1 => {
                        out.push(T { k: K::Comment, s: r.pick(&COMMENTS).to_string() });
                        out.push(T { k: K::Eol, s: "\n".to_owned() });
                    }
                    2 => out.push(T { k: K::Space, s: "\t".to_owned() }),
                    _ => out.push(T { k: K::Space, s: "  ".to_owned() }),
                }
            }
        } else if tok.k != K::Space {
            line_start = false;
        }
        let _ = line_start;
        i += 1;
    }
    // Blanks are only needed where two words or two parts of an operator would otherwise join.
    if r.chance(1, 3) {
        let sym = |t: &T| t.k == K::Sym && "()+-*/^=<>,;:".contains(t.s.as_str());
        let rel = |t: &T| "<>=".contains(t.s.chars().next().unwrap_or(' '));
        let mut i = 1;
        while i + 1 < out.len() {
            let (a, b) = (&out[i - 1], &out[i + 1]);
            let quote = b.k == K::Comment && b.s.starts_with('\'') && a.k != K::Eol;
            if out[i].k == K::Space
                && (sym(a) || sym(b) || quote)
                && !(a.k == K::Sym && b.k == K::Sym && rel(a) && rel(b))
                && r.chance(5, 6)
            {
                out.remove(i);
            } else {
                i += 1;
            }
        }
    }
    let mut s = join(&out);
    if r.chance(1, 6) && s.ends_with('\n') {
        s.pop();
    }
    s
}

/// Whether a line can be joined with others, or split, at statement boundaries.
fn simple_line(t: &[T]) -> bool {
    let first = t.iter().find(|t| t.k != K::Space);
    let Some(f) = first else { return false };
    if f.k != K::Word {
        return false;
    }
    !t.iter().any(|t| {
        t.k == K::Comment
            || t.k == K::Label
            || t.k == K::Other
            || (t.k == K::Word
                && ["if", "else", "elseif", "then", "case", "select", "data", "end", "on"]
                    .iter()
                    .any(|w| t.s.eq_ignore_ascii_case(w)))
    })
}

/// Exchanges newlines and colons between simple statements.
fn rejoin(r: &mut Rng, src: &str) -> String {
    let t = tokens(src);
    let mut lines: Vec<Vec<T>> = vec![vec![]];
    for tok in t {
        if tok.k == K::Eol {
            lines.push(vec![]);
        } else {
            lines.last_mut().unwrap().push(tok);
        }
    }
    let mut out = String::new();
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        let simple = simple_line(l);
        if simple {
            for tok in l {
                if tok.k == K::Sym && tok.s == ":" && r.bool() {
                    out.push('\n');
                } else {
                    out.push_str(&tok.s);
                }
            }
        } else {
            out.push_str(&join(l));
        }
        if i + 1 < n {
            if simple && simple_line(&lines[i + 1]) && r.bool() {
                out.push_str(r.pick(&[":", " : ", ": "]));
            } else {
                out.push('\n');
            }
        }
    }
    out
}

fn compile_text(src: &str) -> (Result<(), String>, Vec<String>) {
    let mut image = Image::default();
    let mut comp = compiler();
    match comp.compile_more(&mut image, &mut src.as_bytes()) {
        Ok(()) => (Ok(()), strip(image.disasm())),
        Err(e) => (Err(e.message_without_pos()), vec![]),
    }
}

fn mask(s: &str) -> String {
    // Hides positions.
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j + 1 < b.len() && b[j] == ':' && b[j + 1].is_ascii_digit() {
                let mut k = j + 1;
                while k < b.len() && b[k].is_ascii_digit() {
                    k += 1;
                }
                if k < b.len() && b[k] == ':' {
                    o.push_str("L:C");
                    i = k;
                    continue;
                }
            }
            o.extend(&b[i..j]);
            i = j;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn run_text(src: &str) -> (Vec<String>, String, Out) {
    let log = Log::default();
    let mut m = mach::build(Opts {
        callables: trace::callables(&log),
        yield_limit: 3_000,
        ..Default::default()
    });
    m.console.borrow_mut().pixels = Some((800, 600));
    m.console.borrow_mut().glyph = Some((8, 16));
    for _ in 0..10 {
        m.console.borrow_mut().type_line("5");
    }
    let o = match m.run(src) {
        Out::Compile(s) => Out::Compile(mask(&s).to_uppercase()),
        Out::Runtime(s) => Out::Runtime(mask(&s).to_uppercase()),
        Out::Io(s) => Out::Io(mask(&s).to_uppercase()),
        o => o,
    };
    let t = log.borrow().iter().map(|s| mask(s)).collect();
    let log = mask(&format!("{:?}", m.console.borrow().log));
    (t, log, o)
}

fn c12_corpus(c: &mut Case) -> R {
    let (name, b) = corpus::pick(&mut c.rng);
    let Ok(src) = String::from_utf8(b) else { return Ok(()) };
    let up = src.to_ascii_uppercase();
    check_reformat(c, &src, !up.contains("RND") && !up.contains("INKEY"), &name)
}

fn c12_generated(c: &mut Case) -> R {
    let cfg = Cfg {
        funs: c.rng.below(3),
        labels: c.rng.below(2),
        gosubs: c.rng.below(2),
        err: *c.rng.pick(&[ErrMode::None, ErrMode::Resume, ErrMode::Goto]),
        ..Cfg::small()
    };
    let p = Gen::new(&mut c.rng, cfg).program();
    let style = Style { seed: c.rng.next(), noise: 0 };
    let (src, pos) = Render::new(&p, style).render();
    if Interp::new(&p, &pos, 5_000).run() == Outcome::Budget {
        return Ok(());
    }
    check_reformat(c, &src, true, "generated")
}

fn check_reformat(c: &mut Case, src: &str, runnable: bool, name: &str) -> R {
    let a = reformat(&mut c.rng, src);
    let a = if c.rng.bool() { rejoin(&mut c.rng, &a) } else { a };
    let shown = format!("--- {}\n{}\n--- rewritten as\n{}", name, src, a);
    c.input(shown.clone());
    let (r1, d1) = compile_text(src);
    let (r2, d2) = compile_text(&a);
    c.saw("pairs of programs", 1);
    match (&r1, &r2) {
        (Ok(()), Ok(())) => {
            c.saw("instructions compared", d1.len() as u64);
            if d1 != d2 {
                // Error handlers and other uses of positions aside, the code has to be the same.
                same("reformatting changes the compiled code", &shown, &d2, &d1)?;
            }
        }
        (Err(a), Err(b)) => {
            c.saw("rejected pairs", 1);
            // Tokens may be shown as they appear in the source.
            if a.to_uppercase() != b.to_uppercase() && !a.contains("haracter") {
                same("reformatting changes the error", &shown, &r2, &r1)?;
            }
        }
        _ => same("reformatting changes whether the program is accepted", &shown, &r2, &r1)?,
    }
    if runnable && r1.is_ok() {
        let o1 = run_text(src);
        let o2 = run_text(&a);
        c.distinct(&o1);
        c.saw("runs compared", 1);
        same("reformatting changes the behaviour", &shown, &o2, &o1)?;
        let o3 = run_text(src);
        same("execution is not deterministic", src, &o3, &o1)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            rule: "Hostile sources (random bytes, token soup, mutated real programs) given to an incremental compiler through whole, fragmented and failing readers; distinct = different diagnostics",
            assumptions: &["block nesting below 10000 levels (see known findings)"],
            require: &[("rejected", 1000), ("accepted", 100), ("read faults reported", 100), ("located errors", 1000)],
            stages: vec![
                Stage { name: "hostile", quick: 400_000, thorough: 3_000_000, f: c06_hostile },
                Stage { name: "generated", quick: 20_000, thorough: 500_000, f: c06_generated },
                Stage { name: "located", quick: 60_000, thorough: 1_000_000, f: c06_located },
                Stage { name: "malformed", quick: 160_000, thorough: 1_000_000, f: c06_malformed },
            ],
            probes: vec![],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "Pairs of real or generated programs that differ only in case, blanks, comments, statement separators and line endings; distinct = different observed behaviours",
            assumptions: &[],
            require: &[("pairs of programs", 1000), ("runs compared", 1000)],
            stages: vec![
                Stage { name: "corpus", quick: 24_000, thorough: 600_000, f: c12_corpus },
                Stage { name: "generated", quick: 24_000, thorough: 600_000, f: c12_generated },
            ],
            probes: vec![],
        },
    ]
}
