//! Properties of the language core, decided against the reference interpreter.

use crate::gen_::*;
use crate::lang::*;
use crate::mach::{self, Opts, Out};
use crate::rng::hash_str;
use crate::runner::*;
use crate::trace::{self, Log};

pub struct Observed {
    pub out: Out,
    pub trace: Vec<String>,
}

pub fn observe(src: &str) -> Observed {
    let log = Log::default();
    let mut m = mach::build(Opts {
        // Whether callables are asynchronous makes no difference to programs.
        callables: trace::callables_mixed(&log, hash_str(src) % 24 % 16 | hash_str(src) >> 8 & 0xf0),
        interactive: false,
        yield_limit: 5_000_000,
        ..Default::default()
    });
    let out = m.run(src);
    let trace = log.borrow().clone();
    Observed { out, trace }
}

pub fn to_out(o: &Outcome) -> Out {
    match o {
        Outcome::Eof => Out::Eof,
        Outcome::End(c) => Out::End(*c),
        Outcome::Error(m) => Out::Runtime(m.clone()),
        Outcome::Budget => unreachable!(),
    }
}

/// Runs a generated program against the oracle.
pub fn differential(c: &mut Case, cfg: Cfg, noise: usize) -> R {
    let p = Gen::new(&mut c.rng, cfg).program();
    let style = Style { seed: c.rng.next(), noise };
    let (src, pos) = Render::new(&p, style).render();
    check_program(c, &p, &src, &pos)
}

pub fn check_program(c: &mut Case, p: &Prog, src: &str, pos: &Positions) -> R {
    c.input(src);
    let mut it = Interp::new(p, pos, 30_000);
    let want = it.run();
    if want == Outcome::Budget {
        c.saw("oracle budget exceeded", 1);
        return Ok(());
    }
    let got = observe(src);
    c.saw("trace records", it.trace.len() as u64);
    c.saw("errors caught", it.caught);
    c.saw("calls", it.calls);
    c.saw("jumps", it.jumps);
    match &want {
        Outcome::Error(_) => c.saw("uncaught errors", 1),
        Outcome::End(_) => c.saw("END exits", 1),
        _ => c.saw("EOF exits", 1),
    }
    if it.trace.len() > 1 {
        c.distinct(&it.trace);
    }
    c.sample(|| format!("{}\n=> {:?} {:?}", src, to_out(&want), it.trace));
    compare(src, &got, &it.trace, &to_out(&want))
}

pub fn compare(src: &str, got: &Observed, trace: &[String], want: &Out) -> R {
    if got.trace != trace {
        let k = got.trace.iter().zip(trace).take_while(|(a, b)| a == b).count();
        return Err(viol(
            "trace diverges from the oracle",
            format!(
                "{}\n--- record {}: oracle {:?}, observed {:?}\n--- oracle outcome {:?}\n--- observed outcome {:?}\n--- oracle trace {:?}\n--- observed trace {:?}",
                src,
                k,
                trace.get(k),
                got.trace.get(k),
                want,
                got.out,
                trace,
                got.trace
            ),
        ));
    }
    if got.out != *want {
        return Err(viol(
            "outcome diverges from the oracle",
            format!("{}\n--- oracle {:?}\n--- observed {:?}\n--- trace {:?}", src, want, got.out, trace),
        ));
    }
    Ok(())
}

// C01 -----------------------------------------------------------------------------------------

/// A value of the reference for sequences of tokens.
#[derive(Clone, Copy, Debug, PartialEq)]
enum TV {
    I(i32),
    B(bool),
}

/// What a sequence of tokens stands for.
#[derive(Debug, PartialEq)]
enum TE {
    /// It is not an expression, or its types do not fit.
    Bad,

    /// It is an expression that has no value.
    Fails,
}

/// Recursive evaluator of sequences of tokens.
struct Tokens<'a> {
    t: &'a [String],
    i: usize,
    fails: bool,
}

impl Tokens<'_> {
    fn prio(op: &str) -> Option<u8> {
        Some(match op {
            "^" => 6,
            "*" | "MOD" | "/" => 4,
            "+" | "-" => 3,
            "=" | "<>" | "<" | ">=" => 1,
            "AND" | "OR" | "XOR" => 0,
            _ => return None,
        })
    }

    fn int(&mut self, v: Option<i32>) -> TV {
        self.fails |= v.is_none();
        TV::I(v.unwrap_or(1))
    }

    fn expr(&mut self, min: u8) -> Result<TV, TE> {
        let t = self.t.get(self.i).cloned().ok_or(TE::Bad)?;
        self.i += 1;
        let mut v = match t.as_str() {
            "(" => {
                let v = self.expr(0)?;
                if self.t.get(self.i).map(|s| s.as_str()) != Some(")") {
                    return Err(TE::Bad);
                }
                self.i += 1;
                v
            }
            "-" => match self.expr(6)? {
                TV::I(i) => self.int(i.checked_neg()),
                TV::B(_) => return Err(TE::Bad),
            },
            "NOT" => match self.expr(6)? {
                TV::I(i) => TV::I(!i),
                TV::B(b) => TV::B(!b),
            },
            "TRUE" => TV::B(true),
            "FALSE" => TV::B(false),
            n => TV::I(n.parse().map_err(|_| TE::Bad)?),
        };
        while let Some(op) = self.t.get(self.i).cloned() {
            match Self::prio(&op) {
                Some(p) if p >= min => {
                    self.i += 1;
                    let w = self.expr(p + 1)?;
                    v = match (op.as_str(), v, w) {
                        ("+", TV::I(a), TV::I(b)) => self.int(a.checked_add(b)),
                        ("-", TV::I(a), TV::I(b)) => self.int(a.checked_sub(b)),
                        ("*", TV::I(a), TV::I(b)) => self.int(a.checked_mul(b)),
                        ("/", TV::I(a), TV::I(b)) => self.int(a.checked_div(b)),
                        ("MOD", TV::I(a), TV::I(b)) => self.int(a.checked_rem(b)),
                        ("^", TV::I(a), TV::I(b)) => {
                            let v = u32::try_from(b).ok().and_then(|b| a.checked_pow(b));
                            self.int(v)
                        }
                        ("AND", TV::I(a), TV::I(b)) => TV::I(a & b),
                        ("OR", TV::I(a), TV::I(b)) => TV::I(a | b),
                        ("XOR", TV::I(a), TV::I(b)) => TV::I(a ^ b),
                        ("AND", TV::B(a), TV::B(b)) => TV::B(a && b),
                        ("OR", TV::B(a), TV::B(b)) => TV::B(a || b),
                        ("XOR", TV::B(a), TV::B(b)) => TV::B(a != b),
                        ("=", a, b) if matches!(a, TV::I(_)) == matches!(b, TV::I(_)) => {
                            TV::B(a == b)
                        }
                        ("<>", a, b) if matches!(a, TV::I(_)) == matches!(b, TV::I(_)) => {
                            TV::B(a != b)
                        }
                        ("<", TV::I(a), TV::I(b)) => TV::B(a < b),
                        (">=", TV::I(a), TV::I(b)) => TV::B(a >= b),
                        _ => return Err(TE::Bad),
                    };
                }
                _ => break,
            }
        }
        Ok(v)
    }
}

const TOKENS: &[&str] = &[
    "1", "2", "3", "5", "9", "0", "TRUE", "FALSE", "(", ")", "NOT", "-", "+", "*", "/", "MOD", "^",
    "=", "<>", "<", ">=", "AND", "OR", "XOR",
];

/// Generates a well-formed sequence of tokens.
fn good_tokens(r: &mut crate::rng::Rng, depth: usize, out: &mut Vec<String>) {
    for _ in 0..r.few(3) {
        out.push(r.pick(&["-", "NOT"]).to_string());
    }
    if depth > 0 && r.chance(1, 3) {
        out.push("(".to_owned());
        good_tokens(r, depth - 1, out);
        out.push(")".to_owned());
    } else {
        let n = if r.chance(1, 4) { 8 } else { 6 };
        out.push(r.pick(&TOKENS[..n]).to_string());
    }
    if depth > 0 && r.chance(2, 3) {
        out.push(r.pick(&TOKENS[11..]).to_string());
        good_tokens(r, depth - 1, out);
    }
}

/// Sequences of tokens, most of them one token away from an expression, are accepted when and only
/// when the grammar and the types allow them, and then have the value that it gives them.
fn c01_tokens(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut t = vec![];
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(7) {
            t.push(r.pick(TOKENS).to_string());
        }
    } else {
        let depth = 1 + r.below(4);
        good_tokens(r, depth, &mut t);
        match r.below(4) {
            0 => (),
            1 => {
                let k = r.below(t.len());
                t.remove(k);
            }
            2 => {
                let k = r.below(t.len() + 1);
                t.insert(k, r.pick(TOKENS).to_string());
            }
            _ => {
                let k = r.below(t.len());
                t[k] = r.pick(TOKENS).to_string();
            }
        }
    }
    let mut e = Tokens { t: &t, i: 0, fails: false };
    let want = match e.expr(0) {
        Ok(_) if e.i < t.len() => Err(TE::Bad),
        Ok(_) if e.fails => Err(TE::Fails),
        o => o,
    };
    let (form, shape) = match r.below(4) {
        0 => (format!("v = {}\nOUT v\n", t.join(" ")), 0),
        1 => (format!("OUT 0 + 0, {}\n", t.join(" ")), 1),
        2 => (format!("DIM a(2) AS INTEGER\na(1) = {}\nOUT a(1)\n", t.join(" ")), 2),
        _ => (format!("IF {} THEN OUT TRUE ELSE OUT FALSE\n", t.join(" ")), 3),
    };
    c.input(form.clone());
    let got = observe(&form);
    c.distinct(&t);
    let want = match (shape, want) {
        (2, Ok(TV::B(_))) | (3, Ok(TV::I(_))) => Err(TE::Bad),
        (_, w) => w,
    };
    let shown = |v: &TV| match v {
        TV::I(i) => format!("I:{}", i),
        TV::B(b) => format!("B:{}", b),
    };
    match want {
        Err(TE::Bad) => {
            c.saw("malformed", 1);
            match got.out {
                Out::Compile(_) => Ok(()),
                o => Err(viol("malformed expression accepted", format!("{}--- {:?} {:?}", form, o, got.trace))),
            }
        }
        Err(TE::Fails) => {
            c.saw("without value", 1);
            match got.out {
                Out::Compile(_) | Out::Runtime(_) if got.trace.is_empty() => Ok(()),
                o => Err(viol("expression without value", format!("{}--- {:?} {:?}", form, o, got.trace))),
            }
        }
        Ok(v) => {
            c.saw("well formed", 1);
            let want = vec![format!("{}{}", if shape == 1 { "I:0 " } else { "" }, shown(&v))];
            same("sequence of tokens", &form, &(got.out, got.trace), &(Out::Eof, want))
        }
    }
}

fn c01_exprs(c: &mut Case) -> R {
    let mut p = Prog::default();
    let cfg = Cfg {
        wild: if c.rng.bool() { 40 } else { 4 },
        ..Cfg::small()
    };
    let mut g = Gen::new(&mut c.rng, cfg);
    let depth = 1 + g.rng.below(5);
    let n = 1 + g.rng.few(4);
    for _ in 0..n {
        let t = *g.rng.pick(&[Ty::B, Ty::I, Ty::I, Ty::D, Ty::S]);
        let e = g.expr_free(t, depth);
        let s = g.tr(vec![e]);
        g.p.main.push(s);
    }
    std::mem::swap(&mut p, &mut g.p);
    let style = Style { seed: c.rng.next(), noise: 1 };
    let (src, pos) = Render::new(&p, style).render();
    check_program(c, &p, &src, &pos)
}

fn c01_vars(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 10,
        depth: 0,
        expr_depth: 4,
        wild: if c.rng.bool() { 30 } else { 3 },
        ..Cfg::small()
    };
    differential(c, cfg, 1)
}

// C02 -----------------------------------------------------------------------------------------

fn c02_structured(c: &mut Case) -> R {
    let cfg = Cfg { stmts: 10, depth: 3, expr_depth: 2, wild: 2, ..Cfg::small() };
    differential(c, cfg, 1)
}

fn c02_jumps(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 10,
        depth: 2,
        expr_depth: 2,
        wild: 2,
        labels: 1 + c.rng.below(5),
        gosubs: c.rng.below(4),
        ..Cfg::small()
    };
    differential(c, cfg, 1)
}

// C03 -----------------------------------------------------------------------------------------

fn c03_calls(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 8,
        depth: 2,
        expr_depth: 3,
        wild: 2,
        funs: 1 + c.rng.below(5),
        labels: c.rng.below(2),
        gosubs: c.rng.below(2),
        ..Cfg::small()
    };
    differential(c, cfg, 1)
}

// C04 -----------------------------------------------------------------------------------------

fn c04_resume(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 10,
        depth: 2,
        expr_depth: 3,
        wild: 12,
        err: ErrMode::Resume,
        funs: c.rng.below(4),
        labels: c.rng.below(3),
        gosubs: c.rng.below(3),
        ..Cfg::small()
    };
    differential(c, cfg, 1)
}

fn c04_goto(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 10,
        depth: 2,
        expr_depth: 3,
        wild: 12,
        err: ErrMode::Goto,
        funs: c.rng.below(4),
        labels: c.rng.below(3),
        gosubs: c.rng.below(3),
        ..Cfg::small()
    };
    differential(c, cfg, 1)
}

// C05 -----------------------------------------------------------------------------------------

/// A chunk outside of the generated program, with known observations.
struct Raw {
    src: String,
    trace: Vec<String>,
    /// `None` if it must fail to compile.
    out: Option<Out>,
}

fn bad_chunk(r: &mut crate::rng::Rng, k: usize) -> Vec<Raw> {
    let bad = |src: String| Raw { src, trace: vec![], out: None };
    let good = |src: String, trace: &[&str]| Raw {
        src,
        trace: trace.iter().map(|s| s.to_string()).collect(),
        out: Some(Out::Eof),
    };
    match r.below(14) {
        0 => vec![bad("TR 999\nIF THEN\n".to_owned())],
        1 => vec![
            bad(format!("DIM zz{k} AS STRING\nTR 1\nzz{k} = nosuch{k}\n")),
            good(format!("zz{k} = 5\nTR zz{k}\n"), &["I:5"]),
        ],
        2 => vec![
            bad(format!("FUNCTION zf{k}\nzf{k} = 1\nEND FUNCTION\nTR zf{k}\nGOTO @nowhere\n")),
            good(
                format!("FUNCTION zf{k}$(n%)\nzf{k} = \"x\"\nEND FUNCTION\nTR zf{k}$(3)\n"),
                &["S:x"],
            ),
        ],
        3 => vec![
            bad(format!("DIM SHARED zs{k} AS DOUBLE\nzs{k} = 3\nTR zs{k}\nx = nosuch\n")),
            good(format!("DIM SHARED zs{k} AS STRING\nzs{k} = \"q\"\nTR zs{k}\n"), &["S:q"]),
        ],
        4 => vec![
            bad(format!("@zl{k}\nTR 1\nGOTO @nowhere\n")),
            good(format!("GOTO @zl{k}\nTR 1\n@zl{k}\nTR 2\n"), &["I:2"]),
        ],
        5 => vec![
            bad(format!("SUB zu{k}(a%)\nTR a\nEND SUB\nzu{k} 3\nTR 1 +\n")),
            bad(format!("zu{k} 3\n")),
            good(format!("SUB zu{k}\nTR 4\nEND SUB\nzu{k}\n"), &["I:4"]),
        ],
        6 => vec![
            bad(format!("DIM za{k}(3) AS INTEGER\nza{k}(0) = 1\nFOR\n")),
            bad(format!("TR za{k}(0)\n")),
            good(format!("DIM za{k}(2, 2) AS DOUBLE\nza{k}(1, 1) = 3\nTR za{k}(1, 1)\n"), &["D:4008000000000000(3)"]),
        ],
        7 => vec![
            bad(format!("DECLARE FUNCTION zd{k}(a%)\nTR 1\n\"unterminated\n")),
            good(format!("FUNCTION zd{k}(b$)\nzd{k} = 9\nEND FUNCTION\nTR zd{k}(\"\")\n"), &["I:9"]),
        ],
        8 => vec![bad("TR 1: TR 2: TR \"a\" + 1\n".to_owned())],
        9 => vec![
            good(
                format!("GOSUB @g{k}\nTR 2\nGOTO @e{k}\n@g{k}\nTR 1\nRETURN\n@e{k}\nTR 3\n"),
                &["I:1", "I:2", "I:3"],
            ),
        ],
        10 => {
            // Leaves a pending GOSUB behind.
            let mut a = good(format!("GOSUB @h{k}\nEND\n@h{k}\nTR 1\n"), &["I:1"]);
            a.out = Some(Out::Eof);
            let b = Raw {
                src: "RETURN\n".to_owned(),
                trace: vec![],
                out: Some(Out::Runtime("1:1: RETURN without GOSUB or FUNCTION".to_owned())),
            };
            vec![a, b]
        }
        11 => vec![
            Raw {
                src: format!("ze{k} = 6: TR 1: GOSUB @i{k}: END\n@i{k}\nFOR i9{k} = 1 TO 3: TFAIL 5: NEXT\n"),
                trace: vec!["I:1".to_owned()],
                out: Some(Out::Runtime("3:".to_owned())),
            },
            good(format!("TR ze{k}\n"), &["I:6"]),
        ],
        12 => vec![
            Raw { src: "TR 1: END 5: TR 2\n".to_owned(), trace: vec!["I:1".to_owned()], out: Some(Out::End(5)) },
        ],
        _ => vec![
            bad("TR 1\nEND SUB\n".to_owned()),
            bad("TR 1\nNEXT\n".to_owned()),
            bad("EXIT DO\nTR 1\n".to_owned()),
        ],
    }
}

fn c05_chunks(c: &mut Case) -> R {
    let err = *c.rng.pick(&[ErrMode::Abort, ErrMode::Resume]);
    let cfg = Cfg {
        stmts: 10,
        depth: 2,
        expr_depth: 2,
        wild: 8,
        err,
        chunks: true,
        funs: c.rng.below(4),
        ..Cfg::small()
    };
    let p = Gen::new(&mut c.rng, cfg).program();
    let style = Style { seed: c.rng.next(), noise: 1 };
    let (srcs, pos) = Render::new(&p, style).render_chunks();
    let log = Log::default();
    let mask = c.rng.below(256) as u64;
    let mut m = mach::build(Opts {
        callables: trace::callables_mixed(&log, mask),
        yield_limit: 5_000_000,
        ..Default::default()
    });
    let mut it = Interp::new(&p, &pos, 30_000);
    let mut history = String::new();
    let bodies: Vec<&[S]> = p.main.split(|s| matches!(s, S::Chunk)).collect();
    assert_eq!(bodies.len(), srcs.len());
    for (k, (body, src)) in bodies.iter().zip(&srcs).enumerate() {
        if err == ErrMode::Abort && c.rng.chance(1, 3) {
            for raw in bad_chunk(&mut c.rng, k) {
                history.push_str(&format!("---- extra\n{}", raw.src));
                c.input(history.clone());
                let out = m.run(&raw.src);
                let t: Vec<String> = log.borrow_mut().drain(..).collect();
                let ok = match (&raw.out, &out) {
                    (None, Out::Compile(_)) => true,
                    (Some(Out::Runtime(w)), Out::Runtime(g)) => g.starts_with(w.as_str()),
                    (Some(w), g) => w == g,
                    _ => false,
                };
                if !ok || t != raw.trace {
                    return Err(viol(
                        "extra chunk diverges",
                        format!(
                            "{}\n--- oracle {:?} {:?}\n--- observed {:?} {:?}",
                            history, raw.out, raw.trace, out, t
                        ),
                    ));
                }
                if let Out::Runtime(t) = &out {
                    it.last_err = Some(t.clone());
                }
                c.saw(if raw.out.is_none() { "rejected chunks" } else { "extra chunks" }, 1);
            }
        }
        history.push_str(&format!("---- chunk\n{}", src));
        c.input(history.clone());
        let n = it.trace.len();
        let want = it.run_range(body);
        if want == Outcome::Budget {
            c.saw("oracle budget exceeded", 1);
            return Ok(());
        }
        let out = m.run(src);
        let trace: Vec<String> = log.borrow_mut().drain(..).collect();
        compare(&history, &Observed { out, trace }, &it.trace[n..], &to_out(&want))?;
        c.saw("chunks", 1);
        match want {
            Outcome::Error(_) => c.saw("aborted chunks", 1),
            Outcome::End(_) => c.saw("ended chunks", 1),
            _ => (),
        }
    }
    c.saw("trace records", it.trace.len() as u64);
    c.distinct(&it.trace);
    c.sample(|| history);
    Ok(())
}

/// Runs a fixed script and describes what was observed.
pub fn probe(src: &str) -> String {
    let o = observe(src);
    format!("{:?} {:?}", o.trace, o.out)
}

fn probes_c02() -> Vec<Probe> {
    vec![
        Probe {
            name: "loop-variable",
            want: r#"["I:2"] Eof"#,
            f: || probe("i = 0\nWHILE i < 3\nlast = i\ni = i + 1\nWEND\nTR last\n"),
        },
        Probe {
            name: "loop-total",
            want: r#"["I:10"] Eof"#,
            f: || {
                probe("FOR i = 1 TO 4\nIF i = 1 THEN\ntotal = 0\nEND IF\ntotal = total + i\nNEXT\nTR total\n")
            },
        },
        Probe {
            name: "uninitialised-text",
            want: r#"["S:"] Eof"#,
            f: || probe("IF FALSE THEN\ns$ = \"foo\"\nEND IF\nTR s$\n"),
        },
        Probe {
            name: "goto-over-dim-array",
            want: r#"[] Runtime("4:4: Array has not been dimensioned")"#,
            f: || probe("GOTO @x\nDIM a(3) AS INTEGER\n@x\nTR a(1)\n"),
        },
        Probe {
            name: "array-of-earlier-call",
            want: r#"[] Runtime("7:4: Array has not been dimensioned")"#,
            f: || {
                probe("SUB a\nDIM x(3)\nx(0) = 5\nEND SUB\nSUB b\nGOTO @l\nDIM y(3) AS STRING\n@l\nTR y(0)\nEND SUB\na\nb\n")
            },
        },
        Probe {
            name: "uninitialised-text-crash",
            want: r#"["S:"] Eof"#,
            f: || probe("y = 1.5\nIF y < 1 THEN\na$ = \"foo\"\nEND IF\nTR a$\n"),
        },
    ]
}

fn probes_c03() -> Vec<Probe> {
    vec![
        Probe {
            name: "double-default-result",
            want: r#"["D:0000000000000000(0)"] Eof"#,
            f: || probe("y = 0.5\nFUNCTION f#\nx = 1\nEND FUNCTION\nTR f#\n"),
        },
        Probe {
            name: "goto-out-of-callable",
            want: r#"["I:5"] Eof"#,
            f: || probe("a = 5\nSUB foo(n)\nGOTO @m\nEND SUB\nfoo 3\n@m\nTR a\n"),
        },
        Probe {
            name: "exit-sub-in-gosub",
            want: r#"["I:1"] Eof"#,
            f: || {
                probe("SUB foo\nGOSUB @a\nTR 2\nEXIT SUB\n@a\nTR 1\nEXIT SUB\nRETURN\nEND SUB\nfoo\n")
            },
        },
    ]
}

fn probes_c04() -> Vec<Probe> {
    vec![Probe {
        name: "partial-assignment",
        want: r#"["I:7"] Eof"#,
        f: || probe("ON ERROR RESUME NEXT\nx = 7\nx = 1 + (2 / 0)\nTR x\n"),
    }]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "Random well-typed expressions over all operators and types.",
            assumptions: &[],
            require: &[("trace records", 1000), ("malformed", 10_000), ("well formed", 10_000)],
            stages: vec![
                Stage { name: "exprs", quick: 160_000, thorough: 2_000_000, f: c01_exprs },
                Stage { name: "vars", quick: 60_000, thorough: 600_000, f: c01_vars },
                Stage { name: "tokens", quick: 200_000, thorough: 3_000_000, f: c01_tokens },
            ],
            probes: vec![],
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: "Random structured and unstructured control flow.",
            assumptions: &[],
            require: &[("trace records", 1000)],
            stages: vec![
                Stage { name: "structured", quick: 60_000, thorough: 600_000, f: c02_structured },
                Stage { name: "jumps", quick: 60_000, thorough: 600_000, f: c02_jumps },
            ],
            probes: probes_c02(),
        },
        Prop {
            id: "C03",
            level: "exploration",
            rule: "Random call graphs.",
            assumptions: &[],
            require: &[("trace records", 1000)],
            stages: vec![Stage { name: "calls", quick: 80_000, thorough: 600_000, f: c03_calls }],
            probes: probes_c03(),
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "Random failures under handlers.",
            assumptions: &[],
            require: &[("trace records", 1000)],
            stages: vec![
                Stage { name: "resume", quick: 60_000, thorough: 600_000, f: c04_resume },
                Stage { name: "goto", quick: 60_000, thorough: 600_000, f: c04_goto },
            ],
            probes: probes_c04(),
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "Random programs split in chunks that are compiled and run one after another on the same machine, interleaved with chunks that must be rejected or abort; distinct = different traces of records",
            assumptions: &[],
            require: &[("chunks", 1000), ("rejected chunks", 100), ("aborted chunks", 100)],
            stages: vec![Stage { name: "chunks", quick: 50_000, thorough: 1_500_000, f: c05_chunks }],
            probes: vec![],
        },
    ]
}
