//! Generator of well-typed programs for the reference interpreter.

use crate::lang::*;
use crate::rng::Rng;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrMode {
    /// No handlers: errors end the program.
    None,
    Resume,
    Goto,
    /// No handlers but the program continues, in later chunks, after an error.
    Abort,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub stmts: usize,
    pub depth: usize,
    pub expr_depth: usize,
    pub funs: usize,
    pub labels: usize,
    pub gosubs: usize,
    pub err: ErrMode,
    pub arrays: bool,
    pub chunks: bool,
    /// Chance out of 100 of picking values prone to failures.
    pub wild: usize,
    /// Traced calls within expressions.
    pub traced: bool,
}

impl Cfg {
    pub fn small() -> Self {
        Cfg {
            stmts: 8,
            depth: 2,
            expr_depth: 3,
            funs: 0,
            labels: 0,
            gosubs: 0,
            err: ErrMode::None,
            arrays: true,
            chunks: false,
            wild: 5,
            traced: true,
        }
    }
}

struct Scope {
    /// Scalars that can be read and written.
    scalars: Vec<usize>,
    arrays: Vec<usize>,
    /// Scalars that can only be read (loop iterators, counters).
    readonly: Vec<usize>,
    /// Scalars that can only be written.
    trash: Vec<usize>,
    /// Iterators and counters not in use.
    free_iters: Vec<usize>,
    free_iters_d: Vec<usize>,
    free_counters: Vec<usize>,
    fors: usize,
    dos: usize,
    fun: Option<usize>,
    /// Callables that can be used from here.
    callable: Vec<usize>,
    /// Labels that can be jumped to forward.
    fwd: Vec<usize>,
    gosubs: Vec<usize>,
    exits: bool,
    jumps: bool,
    rec_param: Option<usize>,
    handlers: bool,
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub p: Prog,
    pub cfg: Cfg,
    shared: Vec<usize>,
    shared_arrays: Vec<usize>,
    shared_trash: Vec<usize>,
    nlabel: u32,
}

const SCALARS: [Ty; 4] = [Ty::B, Ty::I, Ty::D, Ty::S];
const INTS: [i32; 22] = [
    0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 33, 100, 255, 256, 1000, 32767, 65536, 2147483646,
    2147483647,
];
const DOUBLES: [f64; 22] = [
    0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.25, 0.1, 0.3, 10.75, 1e10, 2147483647.0, 2147483646.5,
    2147483647.4, 2147483647.5, 2147483648.0, 1e300, 0.49999999999999994, 4503599627370497.5,
    100.001, 1e-5, 65535.99,
];
const TEXTS: [&str; 16] = [
    "", "a", "b", "abc", "Hello, world", "A", "é", "日本", "\"q\"", "back\\slash", " ", "10", "'", "zz:y",
    "aZ", "REM x",
];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, cfg: Cfg) -> Self {
        Self {
            rng,
            p: Prog::default(),
            cfg,
            shared: vec![],
            shared_arrays: vec![],
            shared_trash: vec![],
            nlabel: 0,
        }
    }

    /// A count below `n`, except that some programs have many more of anything.
    fn few(&mut self, n: usize) -> usize {
        self.rng.few(n)
    }

    pub fn id(&mut self) -> NodeId {
        self.p.nodes += 1;
        self.p.nodes - 1
    }

    fn e(&mut self, k: EK, ty: Ty) -> E {
        let id = self.id();
        E { k, ty, id }
    }

    fn add_var(&mut self, prefix: &str, ty: Ty, dims: Vec<i32>, shared: bool) -> usize {
        let n = self.p.vars.len();
        self.p.vars.push(Var { name: format!("{}{}", prefix, n), ty, dims, shared });
        n
    }

    fn add_label(&mut self) -> usize {
        self.nlabel += 1;
        let n = self.nlabel;
        let l = if self.rng.bool() {
            Label::Text(format!("lbl{}", n))
        } else {
            Label::Num(n * 10)
        };
        self.p.labels.push(l);
        self.p.labels.len() - 1
    }

    pub fn literal(&mut self, ty: Ty) -> Val {
        match ty {
            Ty::B => Val::B(self.rng.bool()),
            Ty::I => {
                let w = self.cfg.wild;
                if self.rng.chance(w, 100) {
                    Val::I(*self.rng.pick(&INTS))
                } else {
                    Val::I(self.rng.range(0, 9) as i32)
                }
            }
            Ty::D => {
                let w = self.cfg.wild;
                if self.rng.chance(w * 2, 100) {
                    Val::D(*self.rng.pick(&DOUBLES))
                } else {
                    Val::D(self.rng.range(0, 80) as f64 / 8.0)
                }
            }
            Ty::S => Val::S(Rc::from(*self.rng.pick(&TEXTS))),
        }
    }

    fn vars_of(&self, sc: &Scope, ty: Ty) -> Vec<usize> {
        sc.scalars
            .iter()
            .chain(&sc.readonly)
            .chain(&self.shared)
            .copied()
            .filter(|v| self.p.vars[*v].ty == ty)
            .collect()
    }

    fn lit_or_var(&mut self, sc: &Scope, ty: Ty) -> E {
        let vs = self.vars_of(sc, ty);
        if !vs.is_empty() && self.rng.chance(2, 3) {
            let v = *self.rng.pick(&vs);
            return self.e(EK::Var(v), ty);
        }
        let l = self.literal(ty);
        self.e(EK::Lit(l), ty)
    }

    fn bin(&mut self, op: Op, a: E, b: E, ty: Ty) -> E {
        self.e(EK::Bin(op, Box::new(a), Box::new(b)), ty)
    }

    /// Expression that cannot fail and has no side effects.
    fn safe(&mut self, sc: &Scope, ty: Ty, depth: usize) -> E {
        if depth == 0 || self.rng.chance(1, 3) {
            return self.lit_or_var(sc, ty);
        }
        match ty {
            Ty::B => match self.rng.below(4) {
                0 => {
                    let op = *self.rng.pick(&[Op::And, Op::Or, Op::Xor]);
                    let a = self.safe(sc, Ty::B, depth - 1);
                    let b = self.safe(sc, Ty::B, depth - 1);
                    self.bin(op, a, b, Ty::B)
                }
                1 => {
                    let a = self.safe(sc, Ty::B, depth - 1);
                    self.e(EK::Not(Box::new(a)), Ty::B)
                }
                _ => {
                    let t = *self.rng.pick(&[Ty::I, Ty::D, Ty::S]);
                    let op = *self.rng.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                    let a = self.safe(sc, t, depth - 1);
                    let b = self.safe(sc, t, depth - 1);
                    self.bin(op, a, b, Ty::B)
                }
            },
            Ty::I => match self.rng.below(3) {
                0 => {
                    let a = self.safe(sc, Ty::I, depth - 1);
                    self.e(EK::Not(Box::new(a)), Ty::I)
                }
                _ => {
                    let op = *self.rng.pick(&[Op::And, Op::Or, Op::Xor]);
                    let a = self.safe(sc, Ty::I, depth - 1);
                    let b = self.safe(sc, Ty::I, depth - 1);
                    self.bin(op, a, b, Ty::I)
                }
            },
            Ty::D => {
                let op = *self.rng.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
                let t = if self.rng.bool() { Ty::D } else { Ty::I };
                let a = self.safe(sc, Ty::D, depth - 1);
                let b = self.safe(sc, t, depth - 1);
                self.bin(op, a, b, Ty::D)
            }
            Ty::S => {
                let a = self.safe(sc, Ty::S, depth - 1);
                let b = self.lit_or_var(sc, Ty::S);
                self.bin(Op::Add, a, b, Ty::S)
            }
        }
    }

    /// Call to a function returning `ty`, if any is available.
    fn call(&mut self, sc: &Scope, ty: Ty, depth: usize, safe_args: bool) -> Option<E> {
        let fs: Vec<usize> =
            sc.callable.iter().copied().filter(|f| self.p.funs[*f].ret == Some(ty)).collect();
        if fs.is_empty() {
            return None;
        }
        let f = *self.rng.pick(&fs);
        let args = self.call_args(sc, f, depth, safe_args);
        Some(self.e(EK::Call(f, args), ty))
    }

    fn call_args(&mut self, sc: &Scope, f: usize, depth: usize, safe_args: bool) -> Vec<E> {
        let params = self.p.funs[f].params.clone();
        let mut args = vec![];
        for (i, prm) in params.iter().enumerate() {
            let t = self.p.vars[*prm].ty;
            if i == 0 && self.p.vars[*prm].name.starts_with("rec") {
                // Recursion depth control.
                let e = if sc.fun == Some(f) {
                    let v = self.e(EK::Var(*prm), Ty::I);
                    let one = self.e(EK::Lit(Val::I(1)), Ty::I);
                    self.bin(Op::Sub, v, one, Ty::I)
                } else {
                    let k = self.rng.range(0, 3) as i32;
                    self.e(EK::Lit(Val::I(k)), Ty::I)
                };
                args.push(e);
                continue;
            }
            let e = if safe_args {
                self.safe(sc, t, depth.min(2))
            } else {
                // Arguments can require conversions.
                let from = match t {
                    Ty::I if self.rng.chance(1, 6) => Ty::D,
                    Ty::D if self.rng.chance(1, 4) => Ty::I,
                    t => t,
                };
                self.expr(sc, from, depth)
            };
            args.push(e);
        }
        args
    }

    pub fn expr_free(&mut self, ty: Ty, depth: usize) -> E {
        let sc = empty_scope();
        self.expr(&sc, ty, depth)
    }

    /// Arbitrary expression.
    fn expr(&mut self, sc: &Scope, ty: Ty, depth: usize) -> E {
        if depth == 0 || self.rng.chance(1, 5) {
            return self.lit_or_var(sc, ty);
        }
        if self.cfg.traced && self.rng.chance(1, 30) {
            return self.e(EK::Tz(ty), ty);
        }
        if self.rng.chance(1, 6)
            && let Some(c) = self.call(sc, ty, depth - 1, false)
        {
            return c;
        }
        if self.rng.chance(1, 8) {
            let arrs: Vec<usize> = sc
                .arrays
                .iter()
                .chain(&self.shared_arrays)
                .copied()
                .filter(|a| self.p.vars[*a].ty == ty)
                .collect();
            if !arrs.is_empty() {
                let a = *self.rng.pick(&arrs);
                let subs = self.subs(sc, a, depth - 1);
                return self.e(EK::Arr(a, subs), ty);
            }
        }
        match ty {
            Ty::B => match self.rng.below(7) {
                0 | 1 => {
                    let op = *self.rng.pick(&[Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ne]);
                    let a = self.expr(sc, Ty::B, depth - 1);
                    let b = self.expr(sc, Ty::B, depth - 1);
                    self.bin(op, a, b, Ty::B)
                }
                2 => {
                    let a = self.expr(sc, Ty::B, depth - 1);
                    self.e(EK::Not(Box::new(a)), Ty::B)
                }
                _ => {
                    let op = *self.rng.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                    let (t, u) = *self.rng.pick(&[
                        (Ty::I, Ty::I),
                        (Ty::I, Ty::I),
                        (Ty::D, Ty::D),
                        (Ty::I, Ty::D),
                        (Ty::D, Ty::I),
                        (Ty::S, Ty::S),
                    ]);
                    let a = self.expr(sc, t, depth - 1);
                    let b = self.expr(sc, u, depth - 1);
                    self.bin(op, a, b, Ty::B)
                }
            },
            Ty::I => {
                if self.rng.chance(1, 8) {
                    let a = self.expr(sc, Ty::I, depth - 1);
                    return self.e(EK::Neg(Box::new(a)), Ty::I);
                }
                if self.rng.chance(1, 10) {
                    let a = self.expr(sc, Ty::I, depth - 1);
                    return self.e(EK::Not(Box::new(a)), Ty::I);
                }
                if self.cfg.traced && self.rng.chance(1, 8) {
                    let from = if self.rng.chance(1, 6) { Ty::D } else { Ty::I };
                    let a = self.expr(sc, from, depth - 1);
                    return self.e(EK::Tf(Box::new(a)), Ty::I);
                }
                if self.rng.chance(1, 20) {
                    let arrs: Vec<usize> =
                        sc.arrays.iter().chain(&self.shared_arrays).copied().collect();
                    if !arrs.is_empty() {
                        let a = *self.rng.pick(&arrs);
                        let nd = self.p.vars[a].dims.len();
                        let d = if nd > 1 || self.rng.bool() {
                            Some(1 + self.rng.below(nd) as i32)
                        } else {
                            None
                        };
                        return if self.rng.bool() {
                            self.e(EK::Lbound(a, d), Ty::I)
                        } else {
                            self.e(EK::Ubound(a, d), Ty::I)
                        };
                    }
                }
                let op = *self.rng.pick(&[
                    Op::Add,
                    Op::Add,
                    Op::Sub,
                    Op::Sub,
                    Op::Mul,
                    Op::Mul,
                    Op::Div,
                    Op::Mod,
                    Op::Pow,
                    Op::Shl,
                    Op::Shr,
                    Op::And,
                    Op::Or,
                    Op::Xor,
                ]);
                let a = self.expr(sc, Ty::I, depth - 1);
                let wild = self.rng.chance(self.cfg.wild, 100);
                let b = match op {
                    Op::Pow | Op::Shl | Op::Shr if !wild => {
                        let k = self.rng.range(0, if op == Op::Pow { 4 } else { 33 }) as i32;
                        self.e(EK::Lit(Val::I(k)), Ty::I)
                    }
                    Op::Div | Op::Mod if !wild => {
                        let k = self.rng.range(1, 9) as i32;
                        let l = self.e(EK::Lit(Val::I(k)), Ty::I);
                        if self.rng.chance(1, 3) {
                            self.e(EK::Neg(Box::new(l)), Ty::I)
                        } else {
                            l
                        }
                    }
                    _ => self.expr(sc, Ty::I, depth - 1),
                };
                self.bin(op, a, b, Ty::I)
            }
            Ty::D => {
                if self.rng.chance(1, 8) {
                    let a = self.expr(sc, Ty::D, depth - 1);
                    return self.e(EK::Neg(Box::new(a)), Ty::D);
                }
                let op = *self.rng.pick(&[
                    Op::Add,
                    Op::Add,
                    Op::Sub,
                    Op::Mul,
                    Op::Mul,
                    Op::Div,
                    Op::Mod,
                    Op::Pow,
                ]);
                let (t, u) =
                    *self.rng.pick(&[(Ty::D, Ty::D), (Ty::D, Ty::D), (Ty::I, Ty::D), (Ty::D, Ty::I)]);
                let a = self.expr(sc, t, depth - 1);
                let b = self.expr(sc, u, depth - 1);
                self.bin(op, a, b, Ty::D)
            }
            Ty::S => {
                let a = self.expr(sc, Ty::S, depth - 1);
                let b = self.expr(sc, Ty::S, depth - 1);
                self.bin(Op::Add, a, b, Ty::S)
            }
        }
    }

    fn subs(&mut self, sc: &Scope, a: usize, depth: usize) -> Vec<E> {
        let dims = self.p.vars[a].dims.clone();
        dims.iter()
            .map(|d| {
                if self.rng.chance(self.cfg.wild * 2, 100) {
                    let t = if self.rng.chance(1, 4) { Ty::D } else { Ty::I };
                    self.expr(sc, t, depth)
                } else if self.rng.chance(1, 4) {
                    // Always in range but computed.
                    let x = self.safe(sc, Ty::I, depth.min(1));
                    let mask = self.e(EK::Lit(Val::I(i32::MAX)), Ty::I);
                    let x = self.bin(Op::And, x, mask, Ty::I);
                    let l = self.e(EK::Lit(Val::I(*d)), Ty::I);
                    self.bin(Op::Mod, x, l, Ty::I)
                } else if self.rng.chance(1, 8) {
                    let k = self.rng.range(0, (*d - 1) as i64) as f64 + 0.25;
                    self.e(EK::Lit(Val::D(k)), Ty::D)
                } else {
                    let k = self.rng.range(0, (*d - 1) as i64) as i32;
                    self.e(EK::Lit(Val::I(k)), Ty::I)
                }
            })
            .collect()
    }

    /// Expression for guards: those cannot fail when errors skip statements.
    fn guard(&mut self, sc: &Scope, ty: Ty) -> E {
        if self.cfg.err == ErrMode::Resume {
            self.safe(sc, ty, 2)
        } else {
            let d = self.cfg.expr_depth.min(2);
            self.expr(sc, ty, d)
        }
    }

    fn assign(&mut self, sc: &Scope) -> S {
        // Failures within the evaluation of a scalar assignment can leave a partial value behind
        // so they can only target variables that are never read.
        let d = self.cfg.expr_depth;
        let trash: Vec<usize> = sc.trash.iter().chain(&self.shared_trash).copied().collect();
        if self.cfg.err != ErrMode::None && !trash.is_empty() && self.rng.chance(1, 3) {
            let v = *self.rng.pick(&trash);
            let t = self.p.vars[v].ty;
            let t = self.convertible(t);
            let e = self.expr(sc, t, d);
            return S::Assign(v, e);
        }
        let vs: Vec<usize> = sc.scalars.iter().chain(&self.shared).copied().collect();
        let v = *self.rng.pick(&vs);
        let t = self.p.vars[v].ty;
        match self.cfg.err {
            ErrMode::None => {
                let t = self.convertible(t);
                let e = self.expr(sc, t, d);
                S::Assign(v, e)
            }
            ErrMode::Resume => {
                let e = if self.rng.chance(1, 3) {
                    self.call(sc, t, 2, true)
                } else {
                    None
                };
                let e = match e {
                    Some(c) if t == Ty::D || t == Ty::S => {
                        let b = self.safe(sc, t, 1);
                        if self.rng.bool() {
                            self.bin(Op::Add, b, c, t)
                        } else {
                            self.bin(Op::Add, c, b, t)
                        }
                    }
                    Some(c) => c,
                    None => self.safe(sc, t, 2),
                };
                S::Assign(v, e)
            }
            ErrMode::Goto | ErrMode::Abort => {
                if self.rng.chance(1, 3)
                    && let Some(c) = self.call(sc, t, 2, false)
                {
                    return S::Assign(v, c);
                }
                let e = self.safe(sc, t, 2);
                S::Assign(v, e)
            }
        }
    }

    fn convertible(&mut self, t: Ty) -> Ty {
        match t {
            Ty::I if self.rng.chance(1, 6) => Ty::D,
            Ty::D if self.rng.chance(1, 4) => Ty::I,
            t => t,
        }
    }

    fn trace(&mut self, sc: &Scope) -> S {
        let n = 1 + self.few(3);
        let d = if n > 3 { 1 } else { self.cfg.expr_depth };
        let es = (0..n)
            .map(|_| {
                let t = *self.rng.pick(&SCALARS);
                self.expr(sc, t, d)
            })
            .collect();
        self.tr(es)
    }

    /// A statement that starts with `NAME (...) = ` is an array assignment, so calls whose first
    /// argument has that form cannot be expressed.
    pub fn tr(&mut self, mut es: Vec<E>) -> S {
        if es[0].ty == Ty::B {
            let l = self.e(EK::Lit(Val::I(0)), Ty::I);
            es.insert(0, l);
        }
        S::Tr(es)
    }

    /// Statement valid in single-line IFs.
    fn tiny(&mut self, sc: &Scope) -> S {
        match self.rng.below(12) {
            0 if sc.fors > 0 => S::ExitFor,
            1 if sc.dos > 0 => S::ExitDo,
            2 if sc.fun.is_some() && sc.exits => S::ExitCallable,
            3 | 4 if !sc.fwd.is_empty() && sc.jumps => {
                let l = *self.rng.pick(&sc.fwd);
                S::Goto(l)
            }
            5 if !sc.gosubs.is_empty() => {
                let l = *self.rng.pick(&sc.gosubs);
                let id = self.id();
                S::Gosub(l, id)
            }
            6..=8 => self.trace(sc),
            _ => self.assign(sc),
        }
    }

    fn block(&mut self, sc: &mut Scope, depth: usize, max: usize) -> Vec<S> {
        let n = if max > 2 && depth > 0 { self.few(max + 1) } else { self.rng.below(max + 1) };
        (0..n).map(|_| self.stmt(sc, depth)).collect()
    }

    fn stmt(&mut self, sc: &mut Scope, depth: usize) -> S {
        let w = [
            20,                                                // assign
            18,                                                // trace
            if self.cfg.arrays { 10 } else { 0 },              // array assign
            if depth > 0 { 10 } else { 0 },                    // if
            8,                                                 // if1
            if depth > 0 { 8 } else { 0 },                     // for
            if depth > 0 { 5 } else { 0 },                     // while
            if depth > 0 { 6 } else { 0 },                     // do
            if depth > 0 { 6 } else { 0 },                     // select
            if !sc.fwd.is_empty() && sc.jumps { 2 } else { 0 }, // goto
            if !sc.gosubs.is_empty() { 6 } else { 0 },         // gosub
            if sc.callable.iter().any(|f| self.p.funs[*f].ret.is_none()) { 8 } else { 0 },
            if sc.fors > 0 { 1 } else { 0 },
            if sc.dos > 0 { 1 } else { 0 },
            if sc.fun.is_some() && sc.exits { 1 } else { 0 },
            if self.cfg.err != ErrMode::None { 6 } else { 1 }, // fail
            if self.cfg.err != ErrMode::None { 5 } else { 0 }, // errmsg
            if self.cfg.err == ErrMode::Resume && sc.handlers { 2 } else { 0 },
        ];
        match self.rng.weighted(&w) {
            0 => self.assign(sc),
            1 => self.trace(sc),
            2 => {
                let arrs: Vec<usize> =
                    sc.arrays.iter().chain(&self.shared_arrays).copied().collect();
                if arrs.is_empty() {
                    return self.trace(sc);
                }
                let a = *self.rng.pick(&arrs);
                let d = self.cfg.expr_depth;
                let subs = self.subs(sc, a, 2);
                let t = self.p.vars[a].ty;
                let t = self.convertible(t);
                let e = self.expr(sc, t, d);
                let id = self.id();
                S::ArrAssign(a, subs, e, id)
            }
            3 => {
                let n = 1 + self.few(3);
                let mut brs = vec![];
                for _ in 0..n {
                    let g = self.guard(sc, Ty::B);
                    let b = self.block(sc, depth - 1, 3);
                    brs.push((g, b));
                }
                let els = if self.rng.bool() { Some(self.block(sc, depth - 1, 3)) } else { None };
                S::If(brs, els)
            }
            4 => {
                let g = self.guard(sc, Ty::B);
                let a = self.tiny(sc);
                let b = if self.rng.chance(1, 3) { Some(Box::new(self.tiny(sc))) } else { None };
                S::If1(g, Box::new(a), b)
            }
            5 => self.for_loop(sc, depth),
            6 | 7 => self.while_loop(sc, depth),
            8 => {
                let t = *self.rng.pick(&[Ty::I, Ty::I, Ty::S, Ty::D, Ty::B]);
                let e = self.guard(sc, t);
                let n = self.few(4);
                let mut cases = vec![];
                for _ in 0..n {
                    let ng = 1 + self.few(3);
                    let mut gs = vec![];
                    for _ in 0..ng {
                        if t != Ty::B && self.rng.chance(1, 3) {
                            let a = self.guard(sc, t);
                            let b = self.guard(sc, t);
                            gs.push(Guard::Range(a, b));
                        } else {
                            let op = if t == Ty::B {
                                *self.rng.pick(&[Op::Eq, Op::Ne])
                            } else {
                                *self.rng.pick(&[
                                    Op::Eq,
                                    Op::Eq,
                                    Op::Ne,
                                    Op::Lt,
                                    Op::Le,
                                    Op::Gt,
                                    Op::Ge,
                                ])
                            };
                            let a = self.guard(sc, t);
                            gs.push(Guard::Is(op, a));
                        }
                    }
                    let b = self.block(sc, depth - 1, 3);
                    cases.push((gs, b));
                }
                let els = if self.rng.bool() { Some(self.block(sc, depth - 1, 3)) } else { None };
                S::Select(e, cases, els)
            }
            9 => {
                let l = *self.rng.pick(&sc.fwd);
                S::Goto(l)
            }
            10 => {
                let l = *self.rng.pick(&sc.gosubs);
                let id = self.id();
                S::Gosub(l, id)
            }
            11 => {
                let subs: Vec<usize> = sc
                    .callable
                    .iter()
                    .copied()
                    .filter(|f| self.p.funs[*f].ret.is_none())
                    .collect();
                let f = *self.rng.pick(&subs);
                let d = self.cfg.expr_depth.min(2);
                let mut args = self.call_args(sc, f, d, false);
                if let Some(a) = args.first()
                    && a.ty == Ty::B
                {
                    args[0] = self.lit_or_var(sc, Ty::B);
                }
                let id = self.id();
                S::CallSub(f, args, id)
            }
            12 => S::ExitFor,
            13 => S::ExitDo,
            14 => S::ExitCallable,
            15 => {
                let n = 1 + self.rng.below(2);
                let es = (0..n).map(|_| self.expr(sc, Ty::I, 1)).collect();
                let id = self.id();
                S::Fail(es, id)
            }
            16 => S::ErrMsg,
            _ => S::OnError(OnErr::Resume),
        }
    }

    fn for_loop(&mut self, sc: &mut Scope, depth: usize) -> S {
        let dbl = self.rng.chance(1, 5) && !sc.free_iters_d.is_empty();
        let Some(v) = (if dbl { sc.free_iters_d.pop() } else { sc.free_iters.pop() }) else {
            return self.trace(sc);
        };
        if self.cfg.err != ErrMode::None && !dbl && self.rng.chance(1, 4) {
            sc.free_iters.push(v);
            return self.for_failing(sc, v);
        }
        let (from, to, step) = if dbl {
            let from = self.rng.range(-8, 8) as f64 / 4.0;
            let step = *self.rng.pick(&[0.5, 1.0, 0.75, -0.5, -1.25]);
            let to = from + step * self.few(6) as f64 - step + *self.rng.pick(&[0.0, 0.1]);
            (Val::D(from), Val::D(to), Some(Val::D(step)))
        } else {
            let from = self.rng.range(-3, 6) as i32;
            let step = *self.rng.pick(&[1, 1, 1, 2, 3, -1, -2]);
            let to = from + step * (self.few(6) as i32 - 1) + self.rng.range(0, 1) as i32;
            let st = if step == 1 && self.rng.bool() { None } else { Some(Val::I(step)) };
            (Val::I(from), Val::I(to), st)
        };
        let from = self.num_lit(from);
        let mut to = self.num_lit(to);
        if self.cfg.err == ErrMode::None && self.cfg.traced && !dbl && self.rng.chance(1, 4) {
            // The limit is evaluated on every iteration.
            to = self.e(EK::Tf(Box::new(to)), Ty::I);
        }
        sc.readonly.push(v);
        sc.fors += 1;
        let body = self.block(sc, depth - 1, 4);
        sc.fors -= 1;
        sc.readonly.retain(|x| *x != v);
        if dbl {
            sc.free_iters_d.push(v);
        } else {
            sc.free_iters.push(v);
        }
        let id = self.id();
        S::For(v, from, to, step, body, id)
    }

    /// A loop whose header fails: either the initial assignment or the last increment.  The
    /// variable is reset afterwards because the failed assignment may leave any value in it.
    fn for_failing(&mut self, sc: &mut Scope, v: usize) -> S {
        let up = self.rng.bool();
        let step = if up { 1 } else { -1 };
        let id = self.id();
        let mut body = vec![];
        for _ in 0..self.rng.range(1, 3) {
            body.push(self.tiny(sc));
        }
        let l = if self.rng.bool() {
            let x = self.rng.range(1, 100) as i32;
            let x = self.num_lit(Val::I(x));
            let z = self.num_lit(Val::I(0));
            let op = *self.rng.pick(&[Op::Mod, Op::Div]);
            let from = self.bin(op, x, z, Ty::I);
            // No iteration can happen no matter what the variable holds.
            let to = self.num_lit(Val::I(-2147483647 * step));
            let to = if self.cfg.traced { self.e(EK::Tf(Box::new(to)), Ty::I) } else { to };
            S::For(v, from, to, Some(Val::I(step)), body, id)
        } else {
            let back = self.rng.range(0, 3) as i32;
            let step = step * self.rng.range(1, 3) as i32;
            let from = self.num_lit(Val::I((i32::MAX - back) * step.signum()));
            let to = self.num_lit(Val::I(i32::MAX * step.signum()));
            S::For(v, from, to, Some(Val::I(step)), body, id)
        };
        let t = self.e(EK::Lit(Val::B(true)), Ty::B);
        let before = self.num_lit(Val::I(0));
        let zero = self.num_lit(Val::I(0));
        let after = self.trace(sc);
        S::If(vec![(t, vec![S::Assign(v, before), l, after, S::Assign(v, zero)])], None)
    }

    fn num_lit(&mut self, v: Val) -> E {
        match v {
            Val::I(i) if i < 0 => {
                let l = self.e(EK::Lit(Val::I(-i)), Ty::I);
                self.e(EK::Neg(Box::new(l)), Ty::I)
            }
            Val::D(d) if d < 0.0 => {
                let l = self.e(EK::Lit(Val::D(-d)), Ty::D);
                self.e(EK::Neg(Box::new(l)), Ty::D)
            }
            v => {
                let t = v.ty();
                self.e(EK::Lit(v), t)
            }
        }
    }

    /// Loops bounded by a dedicated counter.
    fn while_loop(&mut self, sc: &mut Scope, depth: usize) -> S {
        let Some(c) = sc.free_counters.pop() else {
            return self.trace(sc);
        };
        sc.readonly.push(c);
        let kind = *self.rng.pick(&[
            DoKind::Infinite,
            DoKind::PreWhile,
            DoKind::PreUntil,
            DoKind::PostWhile,
            DoKind::PostUntil,
            DoKind::PreWhile,
        ]);
        let is_while = kind == DoKind::PreWhile && self.rng.bool();
        let n = self.few(5) as i32;
        let cv = self.e(EK::Var(c), Ty::I);
        let lim = self.e(EK::Lit(Val::I(n)), Ty::I);
        let until = matches!(kind, DoKind::PreUntil | DoKind::PostUntil);
        let mut g = self.bin(if until { Op::Ge } else { Op::Lt }, cv, lim, Ty::B);
        if self.rng.chance(1, 3) {
            let x = self.guard(sc, Ty::B);
            let op = if until { Op::Or } else { Op::And };
            g = if self.rng.bool() { self.bin(op, g, x, Ty::B) } else { self.bin(op, x, g, Ty::B) };
        }
        if !is_while {
            sc.dos += 1;
        }
        let saved_fors = sc.fors;
        let mut body = self.block(sc, depth - 1, 4);
        sc.fors = saved_fors;
        let cv = self.e(EK::Var(c), Ty::I);
        let one = self.e(EK::Lit(Val::I(1)), Ty::I);
        let inc = self.bin(Op::Add, cv, one, Ty::I);
        let mut pre = vec![S::Assign(c, inc)];
        if kind == DoKind::Infinite {
            let cv = self.e(EK::Var(c), Ty::I);
            let lim = self.e(EK::Lit(Val::I(n)), Ty::I);
            let stop = self.bin(Op::Gt, cv, lim, Ty::B);
            pre.push(S::If1(stop, Box::new(S::ExitDo), None));
        }
        pre.append(&mut body);
        if !is_while {
            sc.dos -= 1;
        }
        sc.readonly.retain(|x| *x != c);
        // The counter has to be reset before the loop.  Wrap everything in a trivial branch.
        let zero = self.e(EK::Lit(Val::I(0)), Ty::I);
        let t = self.e(EK::Lit(Val::B(true)), Ty::B);
        sc.free_counters.push(c);
        let l = if is_while { S::While(g, pre) } else { S::Do(kind, g, pre) };
        S::If(vec![(t, vec![S::Assign(c, zero), l])], None)
    }

    /// Declares the locals of a scope.  All of them are defined upfront.
    fn prologue(&mut self, sc: &mut Scope, main: bool) -> Vec<S> {
        let mut out = vec![];
        let n = 3 + self.few(5);
        for i in 0..n {
            let ty = if i < 4 && main { SCALARS[i] } else { *self.rng.pick(&SCALARS) };
            let v = self.add_var("v", ty, vec![], false);
            if self.rng.bool() {
                out.push(S::Dim(v));
            } else {
                let l = self.literal(ty);
                let e = self.e(EK::Lit(l), ty);
                out.push(S::Assign(v, e));
            }
            sc.scalars.push(v);
        }
        for _ in 0..2 {
            let v = self.add_var("i", Ty::I, vec![], false);
            out.push(S::Dim(v));
            sc.free_iters.push(v);
        }
        let v = self.add_var("d", Ty::D, vec![], false);
        out.push(S::Dim(v));
        sc.free_iters_d.push(v);
        for _ in 0..2 {
            let v = self.add_var("c", Ty::I, vec![], false);
            out.push(S::Dim(v));
            sc.free_counters.push(v);
        }
        if self.cfg.err != ErrMode::None {
            for _ in 0..2 {
                let ty = *self.rng.pick(&SCALARS);
                let v = self.add_var("trash", ty, vec![], false);
                out.push(S::Dim(v));
                sc.trash.push(v);
            }
        }
        if self.cfg.arrays {
            for _ in 0..self.rng.below(3) {
                let nd = 1 + self.few(3);
                let big = if nd == 1 && self.rng.chance(1, 8) { 60 } else { 4 };
                let big = if nd > 4 { 2 } else { big };
                let dims = (0..nd).map(|_| self.rng.range(1, big) as i32).collect();
                let ty = *self.rng.pick(&SCALARS);
                let v = self.add_var("arr", ty, dims, false);
                out.push(S::Dim(v));
                sc.arrays.push(v);
            }
        }
        out
    }

    fn dump(&mut self, sc: &Scope) -> Vec<S> {
        let mut out = vec![];
        let vs: Vec<usize> = sc.scalars.iter().chain(&self.shared).copied().collect();
        for c in vs.chunks(4) {
            let es = c
                .iter()
                .map(|v| {
                    let t = self.p.vars[*v].ty;
                    self.e(EK::Var(*v), t)
                })
                .collect();
            out.push(S::Tr(es));
        }
        out
    }

    fn function(&mut self, k: usize) {
        let ret = if self.rng.chance(1, 3) { None } else { Some(*self.rng.pick(&SCALARS)) };
        let name = format!("{}{}", if ret.is_some() { "fn" } else { "sub" }, k);
        let ret_var = match ret {
            Some(t) => {
                let v = self.add_var("?", t, vec![], false);
                self.p.vars[v].name = name.clone();
                v
            }
            None => usize::MAX,
        };
        let recursive = self.rng.chance(1, 3);
        let mut params = vec![];
        if recursive {
            params.push(self.add_var("rec", Ty::I, vec![], false));
        }
        for _ in 0..self.few(4) {
            let t = *self.rng.pick(&SCALARS);
            params.push(self.add_var("p", t, vec![], false));
        }
        self.p.funs.push(Fun { name, ret, ret_var, params: params.clone(), body: vec![] });
        let mut sc = empty_scope();
        sc.fun = Some(k);
        sc.exits = true;
        sc.callable = (0..k).collect();
        sc.handlers = false;
        for (i, prm) in params.iter().enumerate() {
            if recursive && i == 0 {
                sc.readonly.push(*prm);
            } else {
                sc.scalars.push(*prm);
            }
        }
        let mut body = vec![];
        if let Some(t) = ret
            && (t == Ty::D || self.rng.bool())
        {
            let l = self.literal(t);
            let e = self.e(EK::Lit(l), t);
            body.push(S::Assign(ret_var, e));
        }
        body.append(&mut self.prologue(&mut sc, false));
        if let Some(t) = ret {
            // The result behaves as any other variable of the function but, under error handlers,
            // it must not be left partially computed.
            sc.scalars.push(ret_var);
            let _ = t;
        }
        let local_handler = self.cfg.err == ErrMode::Goto && self.rng.chance(1, 3);
        let (lh, lend) = if local_handler {
            let a = self.add_label();
            let b = self.add_label();
            sc.exits = false;
            body.push(S::OnError(OnErr::Goto(a)));
            (a, b)
        } else {
            (0, 0)
        };
        let fwd = if !local_handler && self.cfg.labels > 0 && self.rng.chance(1, 3) {
            let l = self.add_label();
            sc.fwd.push(l);
            sc.jumps = true;
            Some(l)
        } else {
            None
        };
        if !local_handler && self.cfg.gosubs > 0 && self.rng.chance(1, 3) {
            for _ in 0..1 + self.rng.below(2) {
                let l = self.add_label();
                sc.gosubs.push(l);
            }
        }
        let gosubs = sc.gosubs.clone();
        let n = 1 + self.rng.below(self.cfg.stmts.min(5));
        for _ in 0..n {
            let s = self.stmt(&mut sc, self.cfg.depth.min(2));
            body.push(s);
        }
        if recursive {
            // Recursive step only if the depth allows it.
            let rv = self.e(EK::Var(params[0]), Ty::I);
            let zero = self.e(EK::Lit(Val::I(0)), Ty::I);
            let g = self.bin(Op::Gt, rv, zero, Ty::B);
            let d = 1;
            let args = self.call_args(&sc, k, d, self.cfg.err != ErrMode::None);
            let s = match ret {
                Some(t) => {
                    let c = self.e(EK::Call(k, args), t);
                    match t {
                        Ty::D | Ty::S
                            if self.cfg.err != ErrMode::Goto && self.cfg.err != ErrMode::Abort =>
                        {
                            let l = self.lit_or_var(&sc, t);
                            let e = self.bin(Op::Add, l, c, t);
                            S::Assign(ret_var, e)
                        }
                        Ty::I if self.cfg.err == ErrMode::None => {
                            let l = self.lit_or_var(&sc, t);
                            let e = self.bin(Op::Add, l, c, t);
                            S::Assign(ret_var, e)
                        }
                        _ => S::Assign(ret_var, c),
                    }
                }
                None => {
                    let id = self.id();
                    S::CallSub(k, args, id)
                }
            };
            body.push(S::If(vec![(g, vec![s])], None));
        }
        if local_handler {
            // Callables may return with their handlers set.
            let keep = self.rng.chance(1, 4);
            if !keep {
                body.push(S::OnError(OnErr::None));
            }
            body.push(S::Goto(lend));
            body.push(S::Label(lh));
            body.push(S::ErrMsg);
            if !keep {
                body.push(S::OnError(OnErr::None));
            }
            body.push(S::Label(lend));
        }
        if let Some(l) = fwd {
            body.push(S::Label(l));
        }
        let mut tail = self.dump(&sc);
        body.append(&mut tail);
        if !gosubs.is_empty() {
            // Subroutines of the callable, which neither jump nor exit out of it.
            let end = self.add_label();
            body.push(match self.rng.below(3) {
                0 => S::ExitCallable,
                _ => S::Goto(end),
            });
            sc.exits = false;
            sc.fwd.clear();
            for (i, g) in gosubs.iter().enumerate() {
                body.push(S::Label(*g));
                sc.gosubs = gosubs[i + 1..].to_vec();
                for _ in 0..1 + self.rng.below(3) {
                    let st = self.stmt(&mut sc, 1);
                    body.push(st);
                }
                let id = self.id();
                body.push(S::Return(id));
            }
            body.push(S::Label(end));
        }
        self.p.funs[k].body = body;
    }

    pub fn program(mut self) -> Prog {
        let mut main = vec![];
        // Shared state.
        let mut shared_decl = vec![];
        if self.cfg.funs > 0 || self.rng.bool() {
            for _ in 0..1 + self.few(4) {
                let t = *self.rng.pick(&SCALARS);
                let v = self.add_var("g", t, vec![], true);
                shared_decl.push(S::Dim(v));
                self.shared.push(v);
            }
            if self.cfg.arrays && self.rng.bool() {
                let t = *self.rng.pick(&SCALARS);
                let d = self.rng.range(1, 5) as i32;
                let v = self.add_var("garr", t, vec![d], true);
                shared_decl.push(S::Dim(v));
                self.shared_arrays.push(v);
            }
            if self.cfg.err != ErrMode::None && self.rng.bool() {
                let t = *self.rng.pick(&SCALARS);
                let v = self.add_var("gtrash", t, vec![], true);
                shared_decl.push(S::Dim(v));
                self.shared_trash.push(v);
            }
        }
        for k in 0..self.cfg.funs {
            self.function(k);
        }
        main.append(&mut shared_decl);
        // Definitions either precede all code or are declared and defined later.
        let mut late = vec![];
        for k in 0..self.cfg.funs {
            // Definitions can also appear in the middle of the program.
            if self.rng.chance(1, 3) && !self.cfg.chunks {
                main.push(S::Declare(k));
                late.push(k);
            }
        }
        for k in 0..self.cfg.funs {
            if !late.contains(&k) {
                main.push(S::Def(k));
            }
        }
        let mut sc = empty_scope();
        sc.callable = (0..self.cfg.funs).collect();
        sc.handlers = true;
        let mut pro = self.prologue(&mut sc, true);
        main.append(&mut pro);

        let labels: Vec<usize> = (0..self.cfg.labels).map(|_| self.add_label()).collect();
        let gosubs: Vec<usize> = (0..self.cfg.gosubs).map(|_| self.add_label()).collect();
        let end_label = if !gosubs.is_empty() || self.cfg.err == ErrMode::Goto {
            Some(self.add_label())
        } else {
            None
        };
        let handler =
            if self.cfg.err == ErrMode::Goto { Some(self.add_label()) } else { None };
        let hcount = self.add_var("hc", Ty::I, vec![], false);
        main.push(S::Dim(hcount));
        let back = self.add_var("back", Ty::I, vec![], false);
        main.push(S::Dim(back));
        sc.jumps = true;
        match self.cfg.err {
            ErrMode::Resume => main.push(S::OnError(OnErr::Resume)),
            ErrMode::Goto => main.push(S::OnError(OnErr::Goto(handler.unwrap()))),
            ErrMode::None | ErrMode::Abort => (),
        }
        sc.gosubs = gosubs.clone();
        let segs = labels.len() + 1;
        for s in 0..segs {
            sc.fwd = labels[s..].to_vec();
            if let Some(l) = end_label
                && self.rng.chance(1, 4)
            {
                sc.fwd.push(l);
            }
            if s > 0 {
                main.push(S::Label(labels[s - 1]));
            }
            let n = 1 + self.rng.below(self.cfg.stmts.div_ceil(segs).max(2));
            for _ in 0..n {
                let st = self.stmt(&mut sc, self.cfg.depth);
                main.push(st);
            }
            if s > 0 && self.rng.chance(1, 2) {
                // Bounded backwards jump.
                let l = labels[self.rng.below(s)];
                let b = self.e(EK::Var(back), Ty::I);
                let one = self.e(EK::Lit(Val::I(1)), Ty::I);
                let inc = self.bin(Op::Add, b, one, Ty::I);
                main.push(S::Assign(back, inc));
                let b = self.e(EK::Var(back), Ty::I);
                let k = self.rng.range(1, 4) as i32;
                let lim = self.e(EK::Lit(Val::I(k)), Ty::I);
                let g = self.bin(Op::Lt, b, lim, Ty::B);
                main.push(S::If1(g, Box::new(S::Goto(l)), None));
            }
        }
        if let Some(l) = end_label {
            main.push(S::Label(l));
        }
        let mut tail = self.dump(&sc);
        main.append(&mut tail);
        if end_label.is_some() || self.rng.chance(1, 4) {
            let id = self.id();
            let code = if self.rng.bool() {
                None
            } else {
                let k = self.rng.range(0, 127) as i32;
                Some(self.e(EK::Lit(Val::I(k)), Ty::I))
            };
            if end_label.is_some() || late.is_empty() {
                main.push(S::End(code, id));
            }
        }
        sc.fwd.clear();
        for (i, g) in gosubs.iter().enumerate() {
            main.push(S::Label(*g));
            sc.gosubs = gosubs[i + 1..].to_vec();
            let n = 1 + self.rng.below(3);
            for _ in 0..n {
                let st = self.stmt(&mut sc, 1);
                main.push(st);
            }
            let id = self.id();
            main.push(S::Return(id));
        }
        if let Some(h) = handler {
            sc.gosubs.clear();
            main.push(S::Label(h));
            main.push(S::ErrMsg);
            let b = self.e(EK::Var(hcount), Ty::I);
            let one = self.e(EK::Lit(Val::I(1)), Ty::I);
            let inc = self.bin(Op::Add, b, one, Ty::I);
            main.push(S::Assign(hcount, inc));
            let b = self.e(EK::Var(hcount), Ty::I);
            let k = self.rng.range(1, 5) as i32;
                let lim = self.e(EK::Lit(Val::I(k)), Ty::I);
            let g = self.bin(Op::Gt, b, lim, Ty::B);
            let id = self.id();
            main.push(S::If1(g, Box::new(S::End(None, id)), None));
            if self.rng.chance(2, 3) {
                // Errors within an active handler are not caught.
                main.push(S::OnError(OnErr::Goto(h)));
            } else if self.rng.chance(1, 3) {
                main.push(S::OnError(OnErr::None));
            }
            if self.rng.bool() {
                let st = self.trace(&sc);
                main.push(st);
            }
            let all: Vec<usize> =
                labels.iter().copied().chain(end_label.iter().copied()).collect();
            let l = *self.rng.pick(&all);
            main.push(S::Goto(l));
        }
        for k in late {
            // Callables can be defined within the blocks of the program.
            let n = blocks(&mut main);
            if n > 0 && self.rng.bool() {
                let mut which = self.rng.below(n);
                let at = self.rng.below(3);
                define_in_block(&mut main, &mut which, at, k);
            } else {
                main.push(S::Def(k));
            }
        }
        if self.cfg.chunks {
            let mut parts = vec![];
            let den = 1 + self.rng.below(6);
            for s in main {
                parts.push(s);
                if self.rng.chance(1, den) {
                    parts.push(S::Chunk);
                }
            }
            main = parts;
        }
        self.p.main = main;
        self.p
    }
}

/// Returns the blocks that a statement contains.
fn blocks_of(s: &mut S) -> Vec<&mut Vec<S>> {
    match s {
        S::If(branches, or) => {
            branches.iter_mut().map(|(_, b)| b).chain(or.iter_mut()).collect()
        }
        S::For(_, _, _, _, b, _) | S::While(_, b) | S::Do(_, _, b) => vec![b],
        S::Select(_, cases, or) => cases.iter_mut().map(|(_, b)| b).chain(or.iter_mut()).collect(),
        _ => vec![],
    }
}

/// Counts the blocks in `body`.
fn blocks(body: &mut [S]) -> usize {
    body.iter_mut().flat_map(blocks_of).map(|b| 1 + blocks(b)).sum()
}

/// Puts the definition of `f` in one of the blocks of `body`.
fn define_in_block(body: &mut [S], which: &mut usize, at: usize, f: usize) -> bool {
    for b in body.iter_mut().flat_map(blocks_of) {
        if *which == 0 {
            let at = at.min(b.len());
            b.insert(at, S::Def(f));
            return true;
        }
        *which -= 1;
        if define_in_block(b, which, at, f) {
            return true;
        }
    }
    false
}

fn empty_scope() -> Scope {
    Scope {
        scalars: vec![],
        arrays: vec![],
        readonly: vec![],
        trash: vec![],
        free_iters: vec![],
        free_iters_d: vec![],
        free_counters: vec![],
        fors: 0,
        dos: 0,
        fun: None,
        callable: vec![],
        fwd: vec![],
        gosubs: vec![],
        exits: false,
        jumps: false,
        rec_param: None,
        handlers: false,
    }
}
