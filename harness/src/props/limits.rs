//! Properties about resource limits and about what hosts see of programs.

use crate::gen_::*;
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::trace::{self, Log};
use endbasic_core::*;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::rc::Rc;

/// A compiler and a virtual machine without the rest of the interpreter.
pub struct Core {
    pub log: Log,
    pub compiler: Compiler,
    pub image: Image,
    pub vm: Vm,
}

/// Outcome of running code in a `Core`.
#[derive(Clone, Debug, PartialEq)]
pub enum Ran {
    Rejected(String),
    Eof,
    End(i32),
    Error(String),
    /// Too many yields.
    Endless,
}

impl Core {
    pub fn new(limits: Limits, defs: &[GlobalDef], more: Vec<Rc<dyn Callable>>) -> Self {
        Self::with_log(limits, defs, more, Log::default())
    }
    pub fn with_log(limits: Limits, defs: &[GlobalDef], more: Vec<Rc<dyn Callable>>, log: Log) -> Self {
        let mut callables: HashMap<SymbolKey, Rc<dyn Callable>> = HashMap::new();
        for c in trace::callables(&log).into_iter().chain(more) {
            callables.insert(SymbolKey::from(c.metadata().name()), c);
        }
        let compiler = Compiler::new(&callables, defs).unwrap();
        let vm = Vm::new_with_limits(callables, limits);
        Self { log, compiler, image: Image::default(), vm }
    }
    pub fn run(&mut self, src: &str) -> Ran {
        self.run_for(src, 200_000)
    }
    pub fn run_for(&mut self, src: &str, yields: u64) -> Ran {
        if let Err(e) = self.compiler.compile_more(&mut self.image, &mut src.as_bytes()) {
            return Ran::Rejected(e.to_string());
        }
        let mut n = 0;
        loop {
            match self.vm.exec(&self.image) {
                StopReason::Eof => return Ran::Eof,
                StopReason::End(c) => return Ran::End(c.to_i32()),
                StopReason::Exception(p, m) => return Ran::Error(format!("{}: {}", p, m)),
                StopReason::UpcallAsync(h) => {
                    if let Err(e) = futures_lite::future::block_on(h.invoke()) {
                        let (p, m) = e.parts();
                        return Ran::Error(format!("{}: {}", p, m));
                    }
                }
                StopReason::Yield => {
                    n += 1;
                    if n > yields {
                        self.vm.interrupt(&self.image);
                        return Ran::Endless;
                    }
                }
            }
        }
    }
    pub fn take(&mut self) -> Vec<String> {
        self.log.borrow_mut().drain(..).collect()
    }
}

fn limits(calls: usize, heap: usize) -> Limits {
    Limits { max_call_stack: calls, max_heap_entries: U24::try_from(heap).unwrap() }
}

const OVERFLOWS: [&str; 2] = ["Out of heap space", "Out of call stack space"];

/// Limits turn executions into errors but never change what happens before.
fn c09_limits(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 8,
        depth: 2,
        expr_depth: 3,
        wild: 2,
        funs: c.rng.below(4),
        labels: c.rng.below(3),
        gosubs: c.rng.below(3),
        ..Cfg::small()
    };
    let p = Gen::new(&mut c.rng, cfg).program();
    let (src, pos) = Render::new(&p, Style { seed: c.rng.next(), noise: 0 }).render();
    c.input(src.clone());
    if Interp::new(&p, &pos, 20_000).run() == Outcome::Budget {
        c.saw("oracle budget exceeded", 1);
        return Ok(());
    }
    let mut free = Core::new(Limits::default(), &[], vec![]);
    let want = free.run_for(&src, 3000);
    if want == Ran::Endless {
        c.saw("endless programs", 1);
        return Ok(());
    }
    let trace = free.take();
    let calls = c.rng.below(12);
    let heap = if c.rng.bool() { 1 + c.rng.below(40) } else { 1 + c.rng.below(400) };
    let mut m = Core::new(limits(calls, heap), &[], vec![]);
    c.input(format!("{}\nlimits {} {}", src, calls, heap));
    let got = m.run_for(&src, 3000);
    let log = m.take();
    let show = |s: &str| {
        viol(
            s,
            format!("{}\nlimits {} {}\n--- without limits {:?}\n{:?}\n--- with limits {:?}\n{:?}", src, calls, heap, want, trace, got, log),
        )
    };
    let hit = matches!(&got, Ran::Error(e) if OVERFLOWS.iter().any(|o| e.ends_with(o)));
    if hit && got != want {
        if !trace.starts_with(&log) {
            return Err(show("records before the limit differ"));
        }
        c.saw("limits hit", 1);
        // What fits goes on working.
        let again = m.run("TR 1 + 1, TRUE");
        let log = m.take();
        if again != Ran::Eof || log != ["I:2 B:true"] {
            return Err(show(&format!("virtual machine broken after a limit: {:?} {:?}", again, log)));
        }
    } else {
        if got != want || log != trace {
            return Err(show("limits changed an execution"));
        }
        c.saw("limits not hit", 1);
        // More room changes nothing.
        let mut m = Core::new(limits(calls + c.rng.below(30), heap + c.rng.below(3000)), &[], vec![]);
        let got = m.run_for(&src, 3000);
        let log = m.take();
        if got != want || log != trace {
            return Err(show("more room changed an execution"));
        }
    }
    c.distinct(&(log, calls, heap));
    Ok(())
}

/// Limits are exact: what fits succeeds and the next does not.
fn c09_exact(c: &mut Case) -> R {
    let lim = 1 + c.rng.below(300);
    let near = (lim as i64 + c.rng.range(-3, 3)).max(1) as usize;
    let n = if c.rng.chance(2, 3) { near } else { 1 + c.rng.below(350) };
    let (src, fits, want) = match c.rng.below(5) {
        0 => (
            format!("FUNCTION f%(n%)\nIF n% > 1 THEN f% = f%(n% - 1) + 1 ELSE f% = 1\nEND FUNCTION\nTR f%({})", n),
            (n <= lim, true),
            format!("I:{}", n),
        ),
        1 => (
            format!("DIM SHARED k AS INTEGER\nSUB s(n%)\nk = k + 1\nIF n% > 1 THEN s n% - 1\nEND SUB\ns {}\nTR k%", n),
            (n <= lim, true),
            format!("I:{}", n),
        ),
        2 => (
            // Subroutines.
            format!(
                "k% = 0\nGOSUB @a\nTR k%\nEND\n@a\nk% = k% + 1\nIF k% < {} THEN GOSUB @a\nRETURN\n",
                n
            ),
            (n <= lim, true),
            format!("I:{}", n),
        ),
        3 => {
            let mut s = String::new();
            let n = n.min(60);
            for k in 0..n {
                s.push_str(&format!("DIM a{}(3) AS INTEGER\na{}(2) = {}\n", k, k, k + 1));
            }
            s.push_str("TR 0");
            for k in 0..n {
                s.push_str(&format!(" + a{}(2)", k));
            }
            // One entry of the heap is the empty string.
            return exact(c, &s, lim, n < lim, Some(false), format!("I:{}", n * (n + 1) / 2));
        }
        _ => {
            let s = format!("t$ = \"\"\nFOR i% = 1 TO {}\nt$ = t$ + \"x\"\nNEXT\nTR t$", n);
            return exact(c, &s, lim, n < lim, Some(false), format!("S:{}", "x".repeat(n)));
        }
    };
    exact(c, &src, lim, fits.0, None, want)
}

fn exact(c: &mut Case, src: &str, lim: usize, fits: bool, heap: Option<bool>, want: String) -> R {
    let l = if heap.is_some() { limits(100, lim) } else { limits(lim, 100_000) };
    c.input(format!("{}\nlimit {}", src, lim));
    let mut m = Core::new(l, &[], vec![]);
    let got = m.run(src);
    let log = m.take();
    let show = |s: &str| viol(s, format!("{}\nlimit {}, should fit: {}\n{:?} {:?}", src, lim, fits, got, log));
    let msg = if heap.is_some() { OVERFLOWS[0] } else { OVERFLOWS[1] };
    if fits {
        if got != Ran::Eof && got != Ran::End(0) || log != [want] {
            return Err(show("something that fits failed"));
        }
        c.saw("fits", 1);
    } else {
        match &got {
            Ran::Error(e) if e.ends_with(msg) => (),
            _ => return Err(show("limit ignored")),
        }
        c.saw("does not fit", 1);
        // It can be handled as any other error.
        let mut m = Core::new(l, &[], vec![]);
        let handled = format!("ON ERROR GOTO @hh\n{}\nEND 3\n@hh\nTR 77\n", src);
        let got = m.run(&handled);
        let log = m.take();
        if got != Ran::Eof || log.last().map(|s| s.as_str()) != Some("I:77") {
            return Err(viol("limit not handled by the program", format!("{}\nlimit {}\n{:?} {:?}", handled, lim, got, log)));
        }
    }
    c.distinct(&(src.to_owned(), lim));
    c.sample(|| format!("{}\nlimit {} -> {:?}", src, lim, got));
    Ok(())
}

/// Names of types for declarations.
const TYPES: [&str; 4] = ["BOOLEAN", "DOUBLE", "INTEGER", "STRING"];

/// Programs of every size are either rejected or executed properly.
fn c09_sizes(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = r.chance(1, 60);
    let n = match r.below(4) {
        0 => 1 + r.below(12),
        1 => 1 + r.below(80),
        _ => 1 + r.below(330),
    };
    // Trace expected and sizes up to which it must be accepted.
    let mut s = String::new();
    let mut want: Vec<String> = vec![];
    let kind = r.below(17);
    let must = match kind {
        0 | 1 => {
            // Variables of a kind, each with its value.
            for k in 0..n {
                if kind == 0 {
                    s.push_str(&format!("DIM SHARED v{} AS INTEGER\n", k));
                }
                s.push_str(&format!("v{} = {}\n", k, k * 3));
            }
            for k in 0..n {
                s.push_str(&format!("TR v{}\n", k));
                want.push(format!("I:{}", k * 3));
            }
            40
        }
        2 => {
            // Locals and parameters of a function, together with globals and variables.
            let (g, p, l) = (r.below(n + 1), r.below(n + 1).min(70), r.below(n + 1));
            for k in 0..g {
                s.push_str(&format!("DIM SHARED g{} AS INTEGER\ng{} = {}\n", k, k, k + 1000));
            }
            for k in 0..g {
                s.push_str(&format!("v{} = {}\n", k, k + 5000));
            }
            let ps: Vec<String> = (0..p).map(|k| format!("p{} AS INTEGER", k)).collect();
            s.push_str(&format!("SUB s{}\n", if p > 0 { format!("({})", ps.join(", ")) } else { String::new() }));
            for k in 0..l {
                s.push_str(&format!("l{} = {}\n", k, k + 9000));
            }
            for (x, m) in [("p", p), ("l", l), ("g", g)] {
                for k in 0..m {
                    s.push_str(&format!("TR {}{}\n", x, k));
                    want.push(format!("I:{}", k + if x == "p" { 20000 } else if x == "l" { 9000 } else { 1000 }));
                }
            }
            s.push_str("END SUB\n");
            let args: Vec<String> = (0..p).map(|k| format!("{}", k + 20000)).collect();
            s.push_str(&format!("s {}\n", args.join(", ")));
            for k in 0..g {
                s.push_str(&format!("TR v{}\n", k));
                want.push(format!("I:{}", k + 5000));
            }
            15
        }
        3 => {
            // Nested expressions.
            s.push_str("o = 1\nTR ");
            let right = r.bool();
            for _ in 0..n {
                s.push_str(if right { "o + (" } else { "(" });
            }
            s.push('o');
            for _ in 0..n {
                s.push_str(if right { ")" } else { " + o)" });
            }
            want.push(format!("I:{}", n + 1));
            20
        }
        4 => {
            // Arguments.
            s.push_str("TR ");
            let a: Vec<String> = (0..n).map(|k| k.to_string()).collect();
            s.push_str(&a.join(", "));
            want.push((0..n).map(|k| format!("I:{}", k)).collect::<Vec<_>>().join(" "));
            30
        }
        5 => {
            // Dimensions.
            let d = 1 + r.below(20).min(n);
            let dims: Vec<usize> = (0..d).map(|_| 1 + r.below(if d > 8 { 2 } else { 4 })).collect();
            let ty = r.below(4);
            s.push_str(&format!("DIM a({}) AS {}\n", dims.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", "), TYPES[ty]));
            let at: Vec<usize> = dims.iter().map(|d| r.below(*d)).collect();
            let at2: Vec<usize> = dims.iter().map(|d| r.below(*d)).collect();
            let t = |v: &[usize]| v.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(", ");
            let lit = ["TRUE", "2.5", "7", "\"x\""][ty];
            let shown = [("B:true", "B:false"), ("D:4004000000000000(2.5)", "D:0000000000000000(0)"), ("I:7", "I:0"), ("S:x", "S:")][ty];
            s.push_str(&format!("a({}) = {}\nTR a({})\nTR a({})\n", t(&at), lit, t(&at), t(&at2)));
            want.push(shown.0.to_owned());
            want.push(if at == at2 { shown.0 } else { shown.1 }.to_owned());
            if d <= 8 { 1000 } else { 0 }
        }
        6 => {
            // Functions that call each other.
            for k in 0..n {
                s.push_str(&format!("DECLARE FUNCTION f{}%(x%)\n", k));
            }
            s.push_str("TR f0%(0)\nEND\n");
            for k in 0..n {
                let next = if k + 1 < n { format!("f{}%(x% + 1)", k + 1) } else { "x%".to_owned() };
                s.push_str(&format!("FUNCTION f{}%(x%)\nf{}% = {}\nEND FUNCTION\n", k, k, next));
            }
            want.push(format!("I:{}", n - 1));
            200
        }
        7 => {
            // Blocks.
            let mut ends = vec![];
            s.push_str("x = 0\n");
            for _ in 0..n {
                let (b, e) = *r.pick(&[
                    ("IF TRUE THEN", "END IF"),
                    ("FOR i = 1 TO 1", "NEXT"),
                    ("DO", "LOOP UNTIL TRUE"),
                    ("SELECT CASE 1: CASE 1", "END SELECT"),
                    ("IF x < 0 THEN: ELSE", "END IF"),
                ]);
                if b.starts_with("FOR") {
                    s.push_str(&format!("FOR i{} = 1 TO 1\n", ends.len()));
                } else {
                    s.push_str(b);
                    s.push('\n');
                }
                s.push_str("x = x + 1\n");
                ends.push(e);
            }
            for e in ends.iter().rev() {
                s.push_str(e);
                s.push('\n');
            }
            s.push_str("TR x");
            want.push(format!("I:{}", n));
            30
        }
        8 => {
            // Nested calls.
            s.push_str("FUNCTION f%(x%)\nf% = x% + 1\nEND FUNCTION\nTR ");
            s.push_str(&"f%(".repeat(n));
            s.push('0');
            s.push_str(&")".repeat(n));
            want.push(format!("I:{}", n));
            20
        }
        9 => {
            // Jumps in shuffled order.
            let mut order: Vec<usize> = (0..n).collect();
            for k in (1..n).rev() {
                order.swap(k, r.below(k + 1));
            }
            s.push_str("GOTO @l0\n");
            for k in order {
                let to = if k + 1 < n { format!("@l{}", k + 1) } else { "@out".to_owned() };
                let go = match r.below(3) {
                    0 => format!("IF TRUE THEN GOTO {}", to),
                    _ => format!("GOTO {}", to),
                };
                s.push_str(&format!("@l{}\nTR {}\n{}\n", k, k, go));
            }
            s.push_str("@out\n");
            want.extend((0..n).map(|k| format!("I:{}", k)));
            1000
        }
        10 => {
            // Cases.
            let v = r.below(n + 2);
            s.push_str(&format!("v = {}\nSELECT CASE v\n", v));
            for k in 0..n {
                match r.below(3) {
                    0 => s.push_str(&format!("CASE {}: TR {}\n", k, k)),
                    1 => s.push_str(&format!("CASE {} TO {}: TR {}\n", k, k, k)),
                    _ => s.push_str(&format!("CASE -5, -6, IS = {}: TR {}\n", k, k)),
                }
            }
            s.push_str("CASE ELSE: TR -1\nEND SELECT\n");
            want.push(format!("I:{}", if v < n { v as i64 } else { -1 }));
            1000
        }
        11 => {
            // Long names and texts.
            let k = n * r.below(40) + 1;
            let name = "n".repeat(k);
            let t = "é".repeat(k);
            s.push_str(&format!("{}$ = \"{}\"\nTR {}$\n", name, t, name));
            want.push(format!("S:{}", t));
            1000
        }
        12 => {
            // Distinct constants of several types.
            for k in 0..n {
                match r.below(3) {
                    0 => {
                        s.push_str(&format!("TR {}\n", 70000 + k));
                        want.push(format!("I:{}", 70000 + k));
                    }
                    1 => {
                        let d = k as f64 + 0.5;
                        s.push_str(&format!("TR {:?}\n", d));
                        want.push(Val::D(d).show());
                    }
                    _ => {
                        s.push_str(&format!("TR \"t{}\"\n", k));
                        want.push(format!("S:t{}", k));
                    }
                }
            }
            1000
        }
        13 => {
            // Parameters.
            let ps: Vec<String> = (0..n).map(|k| format!("p{}%", k)).collect();
            let args: Vec<String> = (0..n).map(|k| format!("{}", k * 7)).collect();
            s.push_str(&format!("SUB s({})\n", ps.join(", ")));
            for p in &ps {
                s.push_str(&format!("TR {}\n", p));
            }
            s.push_str(&format!("END SUB\ns {}\n", args.join(", ")));
            want.extend((0..n).map(|k| format!("I:{}", k * 7)));
            20
        }
        _ => {
            // Blocks too long for jumps.
            let n = if big { 15000 + r.below(8000) } else { n };
            let body = "x = y\n".repeat(n);
            let k = r.below(7);
            s.push_str("x = 0: y = 4\n");
            match k {
                0 => s.push_str(&format!("IF y = 3 THEN\n{}END IF\nTR x\n", body)),
                1 => s.push_str(&format!("WHILE x = 0\n{}WEND\nTR x\n", body)),
                2 => s.push_str(&format!("GOTO @e\n{}@e\nTR x\n", body)),
                3 => s.push_str(&format!("GOSUB @e\nTR x: END\n{}@e\nx = 4\nRETURN\n", body)),
                4 => s.push_str(&format!("ON ERROR GOTO @e\nx = 3 MOD x\n{}@e\nTR x\n", body)),
                5 => s.push_str(&format!("DECLARE SUB s\ns\nEND\n{}\nSUB s\nTR 4\nEND SUB\n", body)),
                _ => s.push_str(&format!("FOR i = 1 TO 2\n{}NEXT\nTR x\n", body)),
            }
            want.push(format!("I:{}", [0, 4, 0, 4, 0, 4, 4][k]));
            1000
        }
    };
    c.input(s.clone());
    let mut m = Core::new(Limits::default(), &[], vec![]);
    let got = m.run(&s);
    let log = m.take();
    let head: String = s.chars().take(3000).collect();
    let show = |e: &str| viol(e, format!("{}\nkind {} size {}\n--- oracle {:?}\n--- observed {:?} {:?}", head, kind, n, want, got, log));
    match &got {
        Ran::Eof | Ran::End(0) => {
            if log != want {
                return Err(show("a large program went wrong"));
            }
            c.saw("programs executed", 1);
        }
        Ran::Rejected(e) => {
            if n <= must {
                return Err(show("a small program was rejected"));
            }
            let known = ["Out of", "too far", "Too many nested", "cannot have"];
            if !known.iter().any(|k| e.contains(k)) {
                return Err(show("a large program was rejected for another reason"));
            }
            if !log.is_empty() {
                return Err(show("a rejected program did something"));
            }
            c.saw("programs rejected", 1);
        }
        _ => return Err(show("a large program failed")),
    }
    let again = m.run("zz = 41: TR zz + 1");
    let log2 = m.take();
    let full = matches!(&again, Ran::Rejected(e) if e.contains("Out of"));
    if !(again == Ran::Eof && log2 == ["I:42"] || full && matches!(got, Ran::Eof)) {
        return Err(viol("the next chunk failed", format!("{}\nkind {} size {} {:?}\nthen {:?} {:?}", head, kind, n, got, again, log2)));
    }
    c.distinct(&(kind, n, matches!(got, Ran::Eof)));
    Ok(())
}

/// A nested program must be rejected, not end the process.
fn probe_nested() -> String {
    let f = scratch().join("nested.bas");
    std::fs::write(&f, "IF TRUE THEN\n".repeat(50000)).unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("run").arg(&f).output();
    let _ = std::fs::remove_file(&f);
    match out {
        Ok(o) if o.status.code().is_some() => "handled".to_owned(),
        _ => "the process died".to_owned(),
    }
}

// C10 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Model {
    Scalar(Val),
    Array(Ty, Vec<usize>, HashMap<Vec<i32>, Val>),
}

fn datum(v: &Val) -> ConstantDatum {
    match v {
        Val::B(b) => ConstantDatum::Boolean(*b),
        Val::I(i) => ConstantDatum::Integer(*i),
        Val::D(d) => ConstantDatum::Double(*d),
        Val::S(s) => ConstantDatum::Text(s.to_string()),
    }
}

fn etype(t: Ty) -> ExprType {
    match t {
        Ty::B => ExprType::Boolean,
        Ty::I => ExprType::Integer,
        Ty::D => ExprType::Double,
        Ty::S => ExprType::Text,
    }
}

fn value(r: &mut Rng, t: Ty) -> Val {
    match t {
        Ty::B => Val::B(r.bool()),
        Ty::I => Val::I(super::std1::int(r)),
        Ty::D => Val::D(super::std1::dbl(r)),
        Ty::S => Val::S(Rc::from(super::std1::text(r))),
    }
}

/// Every position of a small array.
fn positions(dims: &[usize]) -> Vec<Vec<i32>> {
    let mut out = vec![vec![]];
    for d in dims {
        out = out.iter().flat_map(|p: &Vec<i32>| (0..*d).map(move |k| [p.clone(), vec![k as i32]].concat())).collect();
    }
    out
}

/// Hosts inject globals and read back exactly what programs left in variables.
fn c10_globals(c: &mut Case) -> R {
    let r = &mut c.rng;
    let tys = [Ty::B, Ty::I, Ty::D, Ty::S];
    let mut defs = vec![];
    let mut globals: Vec<(String, Model)> = vec![];
    let n = r.few(8);
    for k in 0..n {
        let name = format!("{}{}", *r.pick(&["g", "Glob_", "H"]), k);
        let t = *r.pick(&tys);
        if r.chance(1, 3) {
            let d = 1 + r.below(3);
            let dims: Vec<usize> = (0..d).map(|_| 1 + r.below(4)).collect();
            defs.push(GlobalDef {
                name: name.clone(),
                kind: GlobalDefKind::Array { subtype: etype(t), dimensions: dims.clone() },
            });
            globals.push((name, Model::Array(t, dims, HashMap::new())));
        } else {
            let initial = if r.bool() { Some(value(r, t)) } else { None };
            defs.push(GlobalDef {
                name: name.clone(),
                kind: GlobalDefKind::Scalar { etype: etype(t), initial_value: initial.as_ref().map(datum) },
            });
            globals.push((name, Model::Scalar(initial.unwrap_or_else(|| t.zero()))));
        }
    }
    let injected = globals.clone();
    let table = trace::Table::default();
    let mut m = Core::new(Limits::default(), &defs, trace::sources(&table));
    let mut program: Vec<(String, Model)> = vec![];
    let mut text = format!("{:?}\n", defs.iter().map(|d| d.name.clone()).collect::<Vec<_>>());
    let chunks = 1 + r.below(5);
    for chunk in 0..chunks {
        let r = &mut c.rng;
        let mut s = String::new();
        let mut vals: Vec<Val> = vec![];
        let mut want: Vec<String> = vec![];
        let mut fetch = |v: Val| {
            let f = match v {
                Val::B(_) => "VB",
                Val::I(_) => "VI",
                Val::D(_) => "VD",
                Val::S(_) => "VS",
            };
            vals.push(v);
            format!("{}({})", f, vals.len() - 1)
        };
        for k in 0..r.few(8) {
            // New variables.
            let k = chunk * 100 + k;
            let t = *r.pick(&tys);
            let shared = r.chance(1, 3) && globals.len() < 60;
            let sh = if shared { "SHARED " } else { "" };
            let list = if shared { &mut globals } else { &mut program };
            match r.below(5) {
                0 => {
                    let name = format!("a{}", k);
                    let dims: Vec<usize> = (0..1 + r.below(3)).map(|_| 1 + r.below(3)).collect();
                    let d: Vec<String> = dims.iter().map(|d| d.to_string()).collect();
                    s.push_str(&format!("DIM {}{}({}) AS {}\n", sh, name, d.join(", "), t.name()));
                    list.push((name, Model::Array(t, dims, HashMap::new())));
                }
                1 | 2 => {
                    let name = format!("v{}", k);
                    s.push_str(&format!("DIM {}{} AS {}\n", sh, name, t.name()));
                    list.push((name, Model::Scalar(t.zero())));
                }
                _ => {
                    // Assign something that exists.
                    let all = if r.bool() { &mut globals } else { &mut program };
                    if all.is_empty() {
                        continue;
                    }
                    let k = r.below(all.len());
                    let (name, m) = &mut all[k];
                    let name = if r.chance(1, 3) { name.to_uppercase() } else { name.clone() };
                    match m {
                        Model::Scalar(v) => {
                            let new = value(r, v.ty());
                            s.push_str(&format!("{} = {}\n", name, fetch(new.clone())));
                            s.push_str(&format!("TR {}\n", name));
                            want.push(new.show());
                            *v = new;
                        }
                        Model::Array(t, dims, map) => {
                            let at: Vec<i32> = dims.iter().map(|d| r.below(*d) as i32).collect();
                            let new = value(r, *t);
                            let a: Vec<String> = at.iter().map(|i| i.to_string()).collect();
                            s.push_str(&format!("{}({}) = {}\n", name, a.join(", "), fetch(new.clone())));
                            s.push_str(&format!("TR {}({})\n", name, a.join(", ")));
                            want.push(new.show());
                            map.insert(at, new);
                        }
                    }
                }
            }
        }
        // Values that hosts injected are visible.
        for (name, m) in &globals {
            if let Model::Scalar(v) = m {
                s.push_str(&format!("TR {}\n", name));
                want.push(v.show());
            }
        }
        text.push_str(&s);
        text.push_str("--\n");
        *table.borrow_mut() = vals.clone();
        c.input(format!("{}\n{:?}", text, vals));
        let got = m.run(&s);
        let log = m.take();
        if got != Ran::Eof || log != want {
            return Err(viol("programs see other values", format!("{}\n{:?}\n--- oracle {:?}\n--- observed {:?} {:?}", text, vals, want, got, log)));
        }
        check_vars(c, &m, &globals, &program, &text)?;
        c.saw("chunks", 1);
    }
    c.distinct(&text);
    c.sample(|| text.clone());
    // A cleared machine starts over with the injected values only.
    if c.rng.bool() {
        let mut m2 = Core::new(Limits::default(), &defs, trace::sources(&table));
        same("empty program", &text, &m2.run(""), &Ran::Eof)?;
        check_vars(c, &m2, &injected, &[], &text)?;
        m2.vm.clear();
        same("after clear", &text, &m2.run("TR 1"), &Ran::Eof)?;
        check_vars(c, &m2, &injected, &[], &text)?;
        c.saw("machines cleared", 1);
    }
    Ok(())
}

fn show_datum(d: &ConstantDatum) -> String {
    match d {
        ConstantDatum::Boolean(b) => Val::B(*b).show(),
        ConstantDatum::Integer(i) => Val::I(*i).show(),
        ConstantDatum::Double(d) => Val::D(*d).show(),
        ConstantDatum::Text(s) => Val::S(Rc::from(s.as_str())).show(),
    }
}

fn check_vars(c: &mut Case, m: &Core, globals: &[(String, Model)], program: &[(String, Model)], text: &str) -> R {
    for (list, other, is_global) in [(globals, program, true), (program, globals, false)] {
        let scalar = |k: &SymbolKey| if is_global { m.vm.get_global(&m.image, k) } else { m.vm.get_program(&m.image, k) };
        let array = |k: &SymbolKey, s: &[i32]| {
            if is_global { m.vm.get_global_array(&m.image, k, s) } else { m.vm.get_program_array(&m.image, k, s) }
        };
        for (name, model) in list {
            let key = SymbolKey::from(if c.rng.bool() { name.to_lowercase() } else { name.to_uppercase() });
            let got = scalar(&key);
            let show = |what: String| viol("hosts see other values", format!("{}\n{} {:?}: {}", text, name, model, what));
            match model {
                Model::Scalar(v) => {
                    match &got {
                        Ok(Some(d)) if show_datum(d) == v.show() => (),
                        _ => return Err(show(format!("{:?}", got))),
                    }
                    if !matches!(array(&key, &[0]), Err(GetGlobalError::IsScalar(_))) {
                        return Err(show("taken for an array".to_owned()));
                    }
                    c.saw("scalars read", 1);
                }
                Model::Array(t, dims, map) => {
                    if !matches!(got, Err(GetGlobalError::IsArray(_))) {
                        return Err(show("taken for a scalar".to_owned()));
                    }
                    for p in positions(dims) {
                        let want = map.get(&p).cloned().unwrap_or_else(|| t.zero());
                        match array(&key, &p) {
                            Ok(Some(d)) if show_datum(&d) == want.show() => (),
                            x => return Err(show(format!("{:?}: {:?} instead of {:?}", p, x, want))),
                        }
                        c.saw("elements read", 1);
                    }
                    let k = c.rng.below(dims.len());
                    let mut p = vec![0; dims.len()];
                    p[k] = if c.rng.bool() { -1 } else { dims[k] as i32 };
                    if !matches!(array(&key, &p), Err(GetGlobalError::SubscriptOutOfBounds(_))) {
                        return Err(show(format!("{:?} within bounds", p)));
                    }
                    c.saw("bad subscripts", 1);
                }
            }
        }
        for (name, _) in other {
            let key = SymbolKey::from(name);
            if !matches!(scalar(&key), Ok(None)) || !matches!(array(&key, &[0]), Ok(None)) {
                return Err(viol("hosts see variables of another scope", format!("{}\n{}", text, name)));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            level: "exploration",
            rule: "Random programs under random limits, programs around exact limits and programs of random sizes; distinct = different traces, limits and sizes",
            assumptions: &["Memory of the host is not exhausted by strings, which have no limit of their own"],
            require: &[("limits hit", 1000), ("limits not hit", 1000), ("does not fit", 500), ("programs rejected", 300)],
            stages: vec![
                Stage { name: "limits", quick: 60000, thorough: 900000, f: c09_limits },
                Stage { name: "exact", quick: 8000, thorough: 100000, f: c09_exact },
                Stage { name: "sizes", quick: 12000, thorough: 150000, f: c09_sizes },
            ],
            probes: vec![Probe { name: "nested-blocks", want: "handled", f: probe_nested }],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "Random injected globals and random chunks of programs; distinct = different programs",
            assumptions: &[],
            require: &[("scalars read", 1000), ("elements read", 1000)],
            stages: vec![Stage { name: "globals", quick: 350000, thorough: 1500000, f: c10_globals }],
            probes: vec![],
        },
    ]
}
