//! Reference semantics of the language: an AST with its own renderer and a tree-walking
//! interpreter that shares no code with the compiler or the virtual machine.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    B,
    I,
    D,
    S,
}

impl Ty {
    pub fn suffix(self) -> &'static str {
        match self {
            Ty::B => "?",
            Ty::I => "%",
            Ty::D => "#",
            Ty::S => "$",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Ty::B => "BOOLEAN",
            Ty::I => "INTEGER",
            Ty::D => "DOUBLE",
            Ty::S => "STRING",
        }
    }
    pub fn zero(self) -> Val {
        match self {
            Ty::B => Val::B(false),
            Ty::I => Val::I(0),
            Ty::D => Val::D(0.0),
            Ty::S => Val::S(Rc::from("")),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    B(bool),
    I(i32),
    D(f64),
    S(Rc<str>),
}

impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::B(_) => Ty::B,
            Val::I(_) => Ty::I,
            Val::D(_) => Ty::D,
            Val::S(_) => Ty::S,
        }
    }
    pub fn b(&self) -> bool {
        match self {
            Val::B(b) => *b,
            _ => panic!("not a boolean"),
        }
    }
    pub fn i(&self) -> i32 {
        match self {
            Val::I(b) => *b,
            _ => panic!("not an integer"),
        }
    }
    pub fn s(&self) -> Rc<str> {
        match self {
            Val::S(b) => b.clone(),
            _ => panic!("not a string"),
        }
    }
    /// Canonical rendering of a value as observed by the trace callables.
    pub fn show(&self) -> String {
        match self {
            Val::B(b) => format!("B:{}", b),
            Val::I(i) => format!("I:{}", i),
            Val::D(d) => show_double(*d),
            Val::S(s) => format!("S:{}", s),
        }
    }
}

pub fn show_double(d: f64) -> String {
    if d.is_nan() { "D:NaN".to_owned() } else { format!("D:{:016x}({})", d.to_bits(), d) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Pow,
    Shl,
    Shr,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    And,
    Or,
    Xor,
}

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "MOD",
            Op::Pow => "^",
            Op::Shl => "<<",
            Op::Shr => ">>",
            Op::Eq => "=",
            Op::Ne => "<>",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::And => "AND",
            Op::Or => "OR",
            Op::Xor => "XOR",
        }
    }
    pub fn prec(self) -> u8 {
        match self {
            Op::Pow => 6,
            Op::Mul | Op::Div | Op::Mod => 4,
            Op::Add | Op::Sub => 3,
            Op::Shl | Op::Shr => 2,
            Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => 1,
            Op::And | Op::Or | Op::Xor => 0,
        }
    }
}

pub type NodeId = usize;

#[derive(Clone, Debug)]
pub enum EK {
    Lit(Val),
    Var(usize),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(Op, Box<E>, Box<E>),
    Arr(usize, Vec<E>),
    Call(usize, Vec<E>),
    /// Traced identity: records its integer argument and returns it.
    Tf(Box<E>),
    /// Traced function without arguments: records the call and returns a fixed value.
    Tz(Ty),
    Lbound(usize, Option<i32>),
    Ubound(usize, Option<i32>),
}

/// Name of the function without arguments that returns `ty`.
pub fn tz_name(ty: Ty) -> &'static str {
    match ty {
        Ty::B => "TZB",
        Ty::I => "TZI",
        Ty::D => "TZD",
        Ty::S => "TZS",
    }
}

/// Value returned by the function without arguments that returns `ty`.
pub fn tz(ty: Ty) -> Val {
    match ty {
        Ty::B => Val::B(true),
        Ty::I => Val::I(6),
        Ty::D => Val::D(2.75),
        Ty::S => Val::S("tz".into()),
    }
}

#[derive(Clone, Debug)]
pub struct E {
    pub k: EK,
    pub ty: Ty,
    pub id: NodeId,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub ty: Ty,
    /// Empty for scalars.
    pub dims: Vec<i32>,
    pub shared: bool,
}

impl Var {
    pub fn is_array(&self) -> bool {
        !self.dims.is_empty()
    }
}

#[derive(Clone, Debug)]
pub enum Guard {
    Is(Op, E),
    Range(E, E),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DoKind {
    Infinite,
    PreWhile,
    PreUntil,
    PostWhile,
    PostUntil,
}

#[derive(Clone, Debug)]
pub enum OnErr {
    None,
    Resume,
    Goto(usize),
}

#[derive(Clone, Debug)]
pub enum S {
    /// Declares a scalar or an array.
    Dim(usize),
    Assign(usize, E),
    ArrAssign(usize, Vec<E>, E, NodeId),
    Tr(Vec<E>),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    /// Single-line IF.
    If1(E, Box<S>, Option<Box<S>>),
    For(usize, E, E, Option<Val>, Vec<S>, NodeId),
    While(E, Vec<S>),
    Do(DoKind, E, Vec<S>),
    Select(E, Vec<(Vec<Guard>, Vec<S>)>, Option<Vec<S>>),
    Label(usize),
    Goto(usize),
    Gosub(usize, NodeId),
    Return(NodeId),
    ExitFor,
    ExitDo,
    ExitCallable,
    CallSub(usize, Vec<E>, NodeId),
    OnError(OnErr),
    End(Option<E>, NodeId),
    /// Traces the last error message.
    ErrMsg,
    /// Definition of a callable (only within the main body).
    Def(usize),
    Declare(usize),
    /// Trap that fails at run time.
    Fail(Vec<E>, NodeId),
    /// Ends the current chunk of the program when run incrementally.
    Chunk,
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    /// None for subroutines.
    pub ret: Option<Ty>,
    /// Variable holding the result.
    pub ret_var: usize,
    pub params: Vec<usize>,
    pub body: Vec<S>,
}

#[derive(Clone, Debug)]
pub enum Label {
    Text(String),
    Num(u32),
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub vars: Vec<Var>,
    pub funs: Vec<Fun>,
    pub labels: Vec<Label>,
    pub main: Vec<S>,
    pub nodes: usize,
}

// ---------------------------------------------------------------------------------------------
// Evaluation.

pub type Res<T> = Result<T, Err>;

#[derive(Clone, Debug, PartialEq)]
pub enum Err {
    /// Error raised by the program at the node.  The bool tells to use the start of the
    /// expression instead of its operator.
    At(NodeId, bool, String),
    /// END reached within an expression.
    End(i32),
    /// The oracle refuses to continue.
    Budget,
}

fn at<T>(id: NodeId, m: impl Into<String>) -> Res<T> {
    Err(Err::At(id, false, m.into()))
}

#[derive(Debug, PartialEq)]
enum Flow {
    Next,
    ExitFor,
    ExitDo,
    ExitCallable,
    Return,
    Goto(usize),
}

pub fn to_double(v: Val) -> f64 {
    match v {
        Val::I(i) => i as f64,
        Val::D(d) => d,
        _ => panic!("not numeric"),
    }
}

/// Rounds half away from zero.
pub fn round_half_away(d: f64) -> f64 {
    let t = d.trunc();
    if (d - t).abs() >= 0.5 { t + if d < 0.0 { -1.0 } else { 1.0 } } else { t }
}

pub fn double_to_int(d: f64) -> Option<i32> {
    if d.is_nan() {
        return None;
    }
    let r = round_half_away(d);
    if (-2147483648.0..=2147483647.0).contains(&r) { Some(r as i32) } else { None }
}

pub fn cast(v: Val, to: Ty, id: NodeId) -> Res<Val> {
    match (v, to) {
        (Val::D(d), Ty::I) => match double_to_int(d) {
            Some(i) => Ok(Val::I(i)),
            None => Err(Err::At(
                id,
                true,
                format!("Cannot cast {} to integer due to overflow", round_half_away(d)),
            )),
        },
        (Val::I(i), Ty::D) => Ok(Val::D(i as f64)),
        (v, t) => {
            assert_eq!(v.ty(), t, "ill-typed program");
            Ok(v)
        }
    }
}

fn int_pow(a: i32, b: i32) -> Option<i32> {
    let mut r: i128 = 1;
    if a == 0 || a == 1 {
        return Some(if b == 0 { 1 } else { a });
    }
    if a == -1 {
        return Some(if b % 2 == 0 { 1 } else { -1 });
    }
    for _ in 0..b {
        r *= a as i128;
        if r.abs() > 1 << 40 {
            return None;
        }
    }
    i32::try_from(r).ok()
}

pub fn binop(op: Op, a: Val, b: Val, id: NodeId) -> Res<Val> {
    use Op::*;
    let (a, b) = match (a, b) {
        (Val::I(a), Val::D(b)) => (Val::D(a as f64), Val::D(b)),
        (Val::D(a), Val::I(b)) => (Val::D(a), Val::D(b as f64)),
        o => o,
    };
    Ok(match (a, b) {
        (Val::B(a), Val::B(b)) => Val::B(match op {
            And => a & b,
            Or => a | b,
            Xor => a ^ b,
            Eq => a == b,
            Ne => a != b,
            _ => panic!("ill-typed"),
        }),
        (Val::S(a), Val::S(b)) => match op {
            Add => Val::S(Rc::from(format!("{}{}", a, b))),
            Eq => Val::B(a.as_bytes() == b.as_bytes()),
            Ne => Val::B(a.as_bytes() != b.as_bytes()),
            Lt => Val::B(a.as_bytes() < b.as_bytes()),
            Le => Val::B(a.as_bytes() <= b.as_bytes()),
            Gt => Val::B(a.as_bytes() > b.as_bytes()),
            Ge => Val::B(a.as_bytes() >= b.as_bytes()),
            _ => panic!("ill-typed"),
        },
        (Val::D(a), Val::D(b)) => match op {
            Add => Val::D(a + b),
            Sub => Val::D(a - b),
            Mul => Val::D(a * b),
            Div => Val::D(a / b),
            Mod => Val::D(a % b),
            Pow => Val::D(a.powf(b)),
            Eq => Val::B(a == b),
            Ne => Val::B(a != b),
            Lt => Val::B(a < b),
            Le => Val::B(a <= b),
            Gt => Val::B(a > b),
            Ge => Val::B(a >= b),
            _ => panic!("ill-typed"),
        },
        (Val::I(a), Val::I(b)) => {
            let (x, y) = (a as i64, b as i64);
            let fit = |r: i64, m: &str| match i32::try_from(r) {
                Ok(r) => Ok(Val::I(r)),
                Err(_) => at(id, m),
            };
            match op {
                Add => fit(x + y, "Integer overflow")?,
                Sub => fit(x - y, "Integer underflow")?,
                Mul => fit(x * y, "Integer overflow")?,
                Div if y == 0 => return at(id, "Division by zero"),
                Div => fit(x / y, "Integer underflow")?,
                Mod if y == 0 => return at(id, "Modulo by zero"),
                Mod if y == -1 && a == i32::MIN => return at(id, "Integer underflow"),
                Mod => fit(x % y, "?")?,
                Pow if y < 0 => return at(id, format!("Exponent {} cannot be negative", b)),
                Pow => match int_pow(a, b) {
                    Some(r) => Val::I(r),
                    None => return at(id, "Integer overflow"),
                },
                Shl if y < 0 => {
                    return at(id, format!("Number of bits to << ({}) must be positive", b));
                }
                Shl if y >= 32 => Val::I(0),
                Shl => Val::I(((a as u32 as u64) << y) as u32 as i32),
                Shr if y < 0 => {
                    return at(id, format!("Number of bits to >> ({}) must be positive", b));
                }
                Shr if y >= 32 => Val::I(if a < 0 { -1 } else { 0 }),
                Shr => Val::I(x.div_euclid(1i64 << y) as i32),
                And => Val::I(a & b),
                Or => Val::I(a | b),
                Xor => Val::I(a ^ b),
                Eq => Val::B(a == b),
                Ne => Val::B(a != b),
                Lt => Val::B(a < b),
                Le => Val::B(a <= b),
                Gt => Val::B(a > b),
                Ge => Val::B(a >= b),
            }
        }
        _ => panic!("ill-typed"),
    })
}

#[derive(Clone, Debug)]
enum Slot {
    Val(Val),
    Arr(Vec<Val>),
}

type Frame = HashMap<usize, Slot>;

enum Handler {
    None,
    Resume,
    Goto { label: usize, depth: usize, active: bool },
}

pub struct Interp<'a> {
    p: &'a Prog,
    globals: Frame,
    frames: Vec<Frame>,
    /// Number of active GOSUBs in the program scope.
    gosubs: usize,
    handler: Handler,
    pub trace: Vec<String>,
    pub last_err: Option<String>,
    pub steps: u64,
    pub caught: u64,
    pub calls: u64,
    pub jumps: u64,
    pub max_depth: usize,
    positions: Option<&'a Positions>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Eof,
    End(i32),
    Error(String),
    Budget,
}

#[derive(Clone, Debug, Default)]
pub struct Positions {
    pub start: Vec<(u32, u32)>,
    pub pos: Vec<(u32, u32)>,
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog, positions: &'a Positions, steps: u64) -> Self {
        Self {
            p,
            globals: HashMap::new(),
            frames: vec![HashMap::new()],
            gosubs: 0,
            handler: Handler::None,
            trace: vec![],
            last_err: None,
            steps,
            caught: 0,
            calls: 0,
            jumps: 0,
            max_depth: 0,
            positions: Some(positions),
        }
    }

    fn err_text(&self, id: NodeId, start: bool, m: &str) -> String {
        let ps = self.positions.unwrap();
        let (l, c) = if start { ps.start[id] } else { ps.pos[id] };
        format!("{}:{}: {}", l, c, m)
    }

    pub fn run(&mut self) -> Outcome {
        let main: &'a [S] = &self.p.main;
        self.run_range(main)
    }

    /// Runs one chunk of an incremental program; variables and handlers survive.
    pub fn run_range(&mut self, body: &'a [S]) -> Outcome {
        let r = self.run_top(body, 0);
        self.frames.truncate(1);
        self.gosubs = 0;
        match r {
            Ok(Flow::Next) => Outcome::Eof,
            Ok(Flow::Return) => unreachable!(),
            Ok(f) => panic!("unexpected {:?}", f),
            Err(Err::End(i32::MIN)) => Outcome::Eof,
            Err(Err::End(c)) => Outcome::End(c),
            Err(Err::Budget) => Outcome::Budget,
            Err(Err::At(id, s, m)) => {
                let t = self.err_text(id, s, &m);
                self.last_err = Some(t.clone());
                Outcome::Error(t)
            }
        }
    }

    fn tick(&mut self) -> Res<()> {
        if self.steps == 0 {
            return Err(Err::Budget);
        }
        self.steps -= 1;
        Ok(())
    }

    fn find_label(&self, body: &[S], l: usize) -> usize {
        body.iter()
            .position(|s| matches!(s, S::Label(x) if *x == l))
            .expect("label not in the top level of its scope")
    }

    /// Runs the top-level statements of a scope starting at `i`.  Returns `Return` if a RETURN
    /// was found, in which case the caller must be a GOSUB.
    fn run_top(&mut self, body: &'a [S], start: usize) -> Res<Flow> {
        let depth = self.frames.len();
        let mut i = start;
        loop {
            if i >= body.len() {
                return Ok(Flow::Next);
            }
            match self.stmt(&body[i], body) {
                Ok(Flow::Next) => i += 1,
                Ok(Flow::Goto(l)) => {
                    self.tick()?;
                    self.jumps += 1;
                    i = self.find_label(body, l);
                }
                Ok(f) => return Ok(f),
                Err(Err::At(id, s, m)) => match self.handler {
                    Handler::Goto { label, depth: d, active: false } if d == depth => {
                        self.handler = Handler::Goto { label, depth: d, active: true };
                        self.last_err = Some(self.err_text(id, s, &m));
                        self.caught += 1;
                        self.frames.truncate(depth);
                        i = self.find_label(body, label);
                    }
                    _ => return Err(Err::At(id, s, m)),
                },
                Err(e) => return Err(e),
            }
        }
    }

    fn block(&mut self, body: &'a [S], top: &'a [S]) -> Res<Flow> {
        for s in body {
            match self.stmt(s, top)? {
                Flow::Next => (),
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }

    fn slot(&mut self, v: usize) -> &mut Slot {
        let var = &self.p.vars[v];
        let m = if var.shared { &mut self.globals } else { self.frames.last_mut().unwrap() };
        m.entry(v).or_insert_with(|| Slot::Val(var.ty.zero()))
    }

    fn stmt(&mut self, s: &'a S, top: &'a [S]) -> Res<Flow> {
        self.tick()?;
        match self.stmt_inner(s, top) {
            Err(Err::At(id, st, m)) if matches!(self.handler, Handler::Resume) => {
                self.last_err = Some(self.err_text(id, st, &m));
                self.caught += 1;
                Ok(Flow::Next)
            }
            r => r,
        }
    }

    /// Swallows an error if ON ERROR RESUME NEXT is active.
    fn skip(&mut self, e: Err) -> Res<()> {
        match e {
            Err::At(id, st, m) if matches!(self.handler, Handler::Resume) => {
                self.last_err = Some(self.err_text(id, st, &m));
                self.caught += 1;
                Ok(())
            }
            e => Err(e),
        }
    }

    fn truthy(&mut self, e: &'a E) -> Res<bool> {
        Ok(self.eval(e)?.b())
    }

    fn stmt_inner(&mut self, s: &'a S, top: &'a [S]) -> Res<Flow> {
        let p = self.p;
        match s {
            S::Dim(v) => {
                let var = &p.vars[*v];
                let slot = if var.is_array() {
                    let n: i32 = var.dims.iter().product();
                    Slot::Arr(vec![var.ty.zero(); n as usize])
                } else {
                    Slot::Val(var.ty.zero())
                };
                *self.slot(*v) = slot;
            }
            S::Assign(v, e) => {
                let x = self.eval(e)?;
                let x = cast(x, p.vars[*v].ty, e.id)?;
                *self.slot(*v) = Slot::Val(x);
            }
            S::ArrAssign(v, subs, e, id) => {
                let x = self.eval(e)?;
                let x = cast(x, p.vars[*v].ty, e.id)?;
                let k = self.index(*v, subs, *id)?;
                match self.slot(*v) {
                    Slot::Arr(a) => a[k] = x,
                    _ => panic!(),
                }
            }
            S::Tr(es) => {
                let mut o = vec![];
                for e in es {
                    o.push(self.eval(e)?.show());
                }
                self.trace.push(o.join(" "));
            }
            S::If(brs, els) => {
                for (g, b) in brs {
                    if self.truthy(g)? {
                        return self.block(b, top);
                    }
                }
                if let Some(b) = els {
                    return self.block(b, top);
                }
            }
            S::If1(g, a, b) => {
                if self.truthy(g)? {
                    return self.stmt(a, top);
                } else if let Some(b) = b {
                    return self.stmt(b, top);
                }
            }
            S::For(v, from, to, step, body, id) => {
                let ty = p.vars[*v].ty;
                // The header is a sequence of statements of its own: an assignment, the check of the
                // limit and, at the end of each iteration, the increment.
                match self.eval(from).and_then(|x| cast(x, ty, from.id)) {
                    Ok(x) => *self.slot(*v) = Slot::Val(x),
                    Err(e) => self.skip(e)?,
                }
                let step = step.clone().unwrap_or(Val::I(1));
                let up = match step {
                    Val::I(i) => i > 0,
                    Val::D(d) => d > 0.0,
                    _ => panic!(),
                };
                loop {
                    self.tick()?;
                    let cur = self.value(*v);
                    let lim = self.eval(to)?;
                    let go = binop(if up { Op::Le } else { Op::Ge }, cur, lim, *id)?;
                    if !go.b() {
                        break;
                    }
                    match self.block(body, top)? {
                        Flow::Next => (),
                        Flow::ExitFor => break,
                        f => return Ok(f),
                    }
                    let cur = self.value(*v);
                    match binop(Op::Add, cur, step.clone(), *id).and_then(|x| cast(x, ty, *id)) {
                        Ok(next) => *self.slot(*v) = Slot::Val(next),
                        Err(e) => {
                            self.skip(e)?;
                            break;
                        }
                    }
                }
            }
            S::While(g, body) => {
                while self.truthy(g)? {
                    self.tick()?;
                    match self.block(body, top)? {
                        Flow::Next => (),
                        f => return Ok(f),
                    }
                }
            }
            S::Do(kind, g, body) => {
                loop {
                    self.tick()?;
                    match kind {
                        DoKind::PreWhile if !self.truthy(g)? => break,
                        DoKind::PreUntil if self.truthy(g)? => break,
                        _ => (),
                    }
                    match self.block(body, top)? {
                        Flow::Next => (),
                        Flow::ExitDo => break,
                        f => return Ok(f),
                    }
                    match kind {
                        DoKind::PostWhile if !self.truthy(g)? => break,
                        DoKind::PostUntil if self.truthy(g)? => break,
                        _ => (),
                    }
                }
            }
            S::Select(e, cases, els) => {
                let v = self.eval(e)?;
                for (guards, body) in cases {
                    for g in guards {
                        let hit = match g {
                            Guard::Is(op, e) => {
                                let x = self.eval(e)?;
                                binop(*op, v.clone(), x, e.id)?.b()
                            }
                            Guard::Range(a, b) => {
                                let x = self.eval(a)?;
                                let lo = binop(Op::Ge, v.clone(), x, a.id)?.b();
                                let y = self.eval(b)?;
                                let hi = binop(Op::Le, v.clone(), y, a.id)?.b();
                                lo && hi
                            }
                        };
                        if hit {
                            return self.block(body, top);
                        }
                    }
                }
                if let Some(b) = els {
                    return self.block(b, top);
                }
            }
            S::Label(_) | S::Declare(_) | S::Def(_) | S::Chunk => (),
            S::Goto(l) => return Ok(Flow::Goto(*l)),
            S::Gosub(l, _) => {
                let i = self.find_label(top, *l);
                self.jumps += 1;
                let main = self.frames.len() == 1;
                if main {
                    self.gosubs += 1;
                }
                match self.run_top(top, i)? {
                    Flow::Return => {
                        if main {
                            self.gosubs -= 1;
                        }
                    }
                    Flow::Next if self.frames.len() == 1 => {
                        // The end of the program within a GOSUB terminates it.
                        return Err(Err::End(i32::MIN));
                    }
                    f => return Ok(f),
                }
            }
            S::Return(id) => {
                if self.frames.len() == 1 && self.gosubs == 0 {
                    return at(*id, "RETURN without GOSUB or FUNCTION call");
                }
                return Ok(Flow::Return);
            }
            S::ExitFor => return Ok(Flow::ExitFor),
            S::ExitDo => return Ok(Flow::ExitDo),
            S::ExitCallable => return Ok(Flow::ExitCallable),
            S::CallSub(f, args, _) => {
                self.call(*f, args)?;
            }
            S::OnError(h) => {
                self.handler = match h {
                    OnErr::None => Handler::None,
                    OnErr::Resume => Handler::Resume,
                    OnErr::Goto(l) => {
                        Handler::Goto { label: *l, depth: self.frames.len(), active: false }
                    }
                }
            }
            S::End(e, id) => {
                let code = match e {
                    Some(e) => {
                        let v = self.eval(e)?;
                        let c = cast(v, Ty::I, e.id)?.i();
                        if !(0..128).contains(&c) {
                            let m = if c < 0 {
                                "Exit code must be a positive integer"
                            } else {
                                "Exit code cannot be larger than 127"
                            };
                            return at(*id, m);
                        }
                        c
                    }
                    None => 0,
                };
                return Err(Err::End(code));
            }
            S::ErrMsg => {
                let t = self.last_err.clone().unwrap_or_default();
                self.trace.push(format!("S:{}", t));
            }
            S::Fail(es, id) => {
                let mut o = vec![];
                for e in es {
                    o.push(self.eval(e)?.show());
                }
                return at(*id, format!("Failed {}", o.join(" ")));
            }
        }
        Ok(Flow::Next)
    }

    fn value(&mut self, v: usize) -> Val {
        match self.slot(v) {
            Slot::Val(v) => v.clone(),
            _ => panic!("array used as a scalar"),
        }
    }

    fn index(&mut self, v: usize, subs: &'a [E], id: NodeId) -> Res<usize> {
        let dims = &self.p.vars[v].dims;
        let mut vals = vec![];
        for s in subs {
            let x = self.eval(s)?;
            vals.push(cast(x, Ty::I, s.id)?.i());
        }
        let mut k = 0usize;
        for (x, d) in vals.iter().zip(dims) {
            if *x < 0 {
                return at(id, format!("Subscript {} cannot be negative", x));
            }
            if x >= d {
                return at(id, format!("Subscript {} exceeds limit of {}", x, d));
            }
            k = k * (*d as usize) + *x as usize;
        }
        Ok(k)
    }

    fn call(&mut self, f: usize, args: &'a [E]) -> Res<Val> {
        self.tick()?;
        self.calls += 1;
        let p = self.p;
        let fun = &p.funs[f];
        let mut frame = HashMap::new();
        for (a, prm) in args.iter().zip(&fun.params) {
            let v = self.eval(a)?;
            let v = cast(v, p.vars[*prm].ty, a.id)?;
            frame.insert(*prm, Slot::Val(v));
        }
        if let Some(ty) = fun.ret {
            frame.insert(fun.ret_var, Slot::Val(ty.zero()));
        }
        if self.frames.len() > 60 {
            return Err(Err::Budget);
        }
        self.frames.push(frame);
        self.max_depth = self.max_depth.max(self.frames.len());
        let r = self.run_top(&fun.body, 0);
        match r {
            Ok(Flow::Next) | Ok(Flow::ExitCallable) | Ok(Flow::Return) => (),
            Ok(f) => panic!("unexpected {:?}", f),
            Err(e) => {
                self.frames.pop();
                return Err(e);
            }
        }
        let v = match fun.ret {
            Some(_) => self.value(fun.ret_var),
            None => Val::I(0),
        };
        self.frames.pop();
        if let Handler::Goto { depth, .. } = self.handler
            && depth > self.frames.len()
        {
            // Handlers go away with the callable that sets them.
            self.handler = Handler::None;
        }
        Ok(v)
    }

    fn eval(&mut self, e: &'a E) -> Res<Val> {
        self.tick()?;
        let v = match &e.k {
            EK::Lit(v) => v.clone(),
            EK::Var(v) => self.value(*v),
            EK::Neg(a) => match self.eval(a)? {
                Val::I(i) => match i.checked_neg() {
                    Some(i) => Val::I(i),
                    None => return at(e.id, "Integer overflow"),
                },
                Val::D(d) => Val::D(-d),
                _ => panic!("ill-typed"),
            },
            EK::Not(a) => match self.eval(a)? {
                Val::I(i) => Val::I(-1 - i),
                Val::B(b) => Val::B(!b),
                _ => panic!("ill-typed"),
            },
            EK::Bin(op, a, b) => {
                let x = self.eval(a)?;
                let y = self.eval(b)?;
                let v = binop(*op, x, y, e.id)?;
                if let Val::S(s) = &v
                    && s.len() > 4000
                {
                    return Err(Err::Budget);
                }
                v
            }
            EK::Arr(v, subs) => {
                let k = self.index(*v, subs, e.id)?;
                match self.slot(*v) {
                    Slot::Arr(a) => a[k].clone(),
                    _ => panic!("scalar used as an array"),
                }
            }
            EK::Call(f, args) => self.call(*f, args)?,
            EK::Tf(a) => {
                let v = self.eval(a)?;
                let v = cast(v, Ty::I, a.id)?;
                self.trace.push(format!("TF {}", v.show()));
                v
            }
            EK::Tz(ty) => {
                let v = tz(*ty);
                self.trace.push(format!("TZ {}", v.show()));
                v
            }
            EK::Lbound(_, _) => Val::I(0),
            EK::Ubound(v, d) => Val::I(self.p.vars[*v].dims[d.unwrap_or(1) as usize - 1] - 1),
        };
        debug_assert_eq!(v.ty(), e.ty);
        Ok(v)
    }
}

// ---------------------------------------------------------------------------------------------
// Rendering.

/// Knobs that must not affect the meaning of a program.
#[derive(Clone, Debug)]
pub struct Style {
    pub seed: u64,
    /// 0 = canonical text.
    pub noise: usize,
}

pub struct Render<'a> {
    p: &'a Prog,
    pub out: String,
    line: u32,
    col: u32,
    indent: usize,
    pub pos: Positions,
    rng: crate::rng::Rng,
    noise: usize,
    /// Starting offset of each chunk.
    pub chunks: Vec<usize>,
    fresh: bool,
    pending_numeric: bool,
    in_fun: Option<usize>,
}

impl<'a> Render<'a> {
    pub fn new(p: &'a Prog, style: Style) -> Self {
        Self {
            p,
            out: String::new(),
            line: 1,
            col: 1,
            indent: 0,
            pos: Positions { start: vec![(0, 0); p.nodes], pos: vec![(0, 0); p.nodes] },
            rng: crate::rng::Rng::new(style.seed),
            noise: style.noise,
            chunks: vec![0],
            fresh: true,
            pending_numeric: false,
            in_fun: None,
        }
    }

    pub fn render(mut self) -> (String, Positions) {
        let p = self.p;
        self.stmts(&p.main);
        (self.out, self.pos)
    }

    pub fn render_chunks(mut self) -> (Vec<String>, Positions) {
        let p = self.p;
        let mut chunks = vec![];
        for s in &p.main {
            if matches!(s, S::Chunk) {
                chunks.push(std::mem::take(&mut self.out));
                self.line = 1;
                self.col = 1;
                self.fresh = true;
                self.pending_numeric = false;
            } else {
                self.stmt(s);
            }
        }
        chunks.push(std::mem::take(&mut self.out));
        (chunks, self.pos)
    }

    fn noisy(&mut self, den: usize) -> bool {
        self.noise > 0 && self.rng.chance(self.noise, den)
    }

    fn put(&mut self, s: &str) {
        for c in s.chars() {
            self.out.push(c);
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else if c == '\t' {
                // Tabs advance to the next tab stop.
                self.col = (self.col - 1 + 8) / 8 * 8 + 1;
            } else {
                self.col += 1;
            }
        }
    }

    fn here(&self) -> (u32, u32) {
        (self.line, self.col)
    }

    /// Writes a keyword or identifier in random case.
    fn word(&mut self, s: &str) {
        if self.noise == 0 {
            self.put(s);
            return;
        }
        let mode = self.rng.below(4);
        let t: String = s
            .chars()
            .map(|c| match mode {
                0 => c,
                1 => c.to_ascii_uppercase(),
                2 => c.to_ascii_lowercase(),
                _ => {
                    if self.rng.bool() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                }
            })
            .collect();
        self.put(&t);
    }

    /// Mandatory blank.
    fn sp(&mut self) {
        if self.noisy(12) {
            match self.rng.below(3) {
                0 => self.put("  "),
                1 => self.put("\t"),
                _ => self.put(" \t "),
            }
        } else {
            self.put(" ");
        }
    }

    /// Optional blank.
    fn osp(&mut self) {
        if self.noise > 0 {
            match self.rng.below(4) {
                0 => self.put(""),
                1 => self.put("  "),
                _ => self.put(" "),
            }
        } else {
            self.put(" ");
        }
    }

    fn begin(&mut self) {
        if self.fresh {
            let n = if self.noise > 0 { self.rng.below(9) } else { self.indent * 4 };
            let pad = if !self.pending_numeric && self.noisy(20) { "\t".repeat(n.min(3)) } else { " ".repeat(n) };
            self.put(&pad);
        }
        self.fresh = false;
        self.pending_numeric = false;
    }

    fn eol(&mut self) {
        if self.noisy(8) {
            match self.rng.below(5) {
                0 => {
                    self.put(" ' A comment: with \"stuff\" AND END");
                    self.put("\n");
                    self.fresh = true;
                }
                1 => {
                    self.put("\n\n");
                    self.fresh = true;
                }
                2 => {
                    self.put("\nREM goto 10: x = \"a\n");
                    self.fresh = true;
                }
                _ => self.put(" : "),
            }
        } else {
            self.put("\n");
            self.fresh = true;
        }
    }

    fn newline(&mut self) {
        self.put("\n");
        self.fresh = true;
    }

    fn var(&mut self, v: usize) {
        let var = &self.p.vars[v];
        let name = var.name.clone();
        let sfx = var.ty.suffix();
        self.word(&name);
        if self.noise == 0 || self.rng.bool() {
            self.put(sfx);
        }
    }

    fn fun_name(&mut self, f: usize) {
        let name = self.p.funs[f].name.clone();
        self.word(&name);
        if let Some(t) = self.p.funs[f].ret
            && self.rng.bool()
        {
            self.put(t.suffix());
        }
    }

    fn label_ref(&mut self, l: usize) {
        match &self.p.labels[l] {
            Label::Text(t) => {
                let t = t.clone();
                self.put("@");
                self.word(&t);
            }
            Label::Num(n) => {
                let n = n.to_string();
                self.put(&n);
            }
        }
    }

    pub fn lit(&mut self, v: &Val) {
        match v {
            Val::B(b) => self.word(if *b { "TRUE" } else { "FALSE" }),
            Val::I(i) => {
                let s = if self.noise > 0 && self.rng.chance(1, 5) {
                    match self.rng.below(6) {
                        0 => format!("&x{:x}", i),
                        1 => format!("&X_{:X}", i),
                        2 => format!("&o{:o}", i),
                        3 => format!("&b{:b}", i),
                        4 => format!("&d{}", i),
                        _ => format!("&H{:x}", i).replace("&H", "&x_"),
                    }
                } else {
                    format!("{}", i)
                };
                self.put(&s);
            }
            Val::D(d) => {
                let s = format!("{}", d);
                self.put(&s);
                if !s.contains('.') {
                    self.put(".0");
                }
            }
            Val::S(s) => {
                let s = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
                self.put(&s);
            }
        }
    }

    fn args(&mut self, es: &[E]) {
        for (i, a) in es.iter().enumerate() {
            if i > 0 {
                self.put(",");
                self.osp();
            }
            self.expr(a, 0, false);
        }
    }

    /// Renders `e` as an operand in a context of precedence `prec`.
    pub fn expr(&mut self, e: &E, prec: u8, right: bool) {
        let my = match &e.k {
            EK::Bin(op, ..) => op.prec(),
            EK::Neg(_) | EK::Not(_) => 5,
            _ => 9,
        };
        // Unary operators can appear as right operands without parentheses.
        let unary_ok = right && my == 5;
        let need = !unary_ok && (my < prec || (right && my == prec && my != 9));
        let extra = self.noisy(20);
        let paren = need || extra;
        if paren {
            self.put("(");
            if self.noisy(10) {
                self.put(" ");
            }
        }
        self.pos.start[e.id] = self.here();
        self.pos.pos[e.id] = self.here();
        match &e.k {
            EK::Lit(v) => self.lit(v),
            EK::Var(v) => self.var(*v),
            EK::Neg(a) => {
                self.put("-");
                if self.noisy(10) {
                    self.put(" ");
                }
                self.expr(a, 5, true);
            }
            EK::Not(a) => {
                self.word("NOT");
                self.sp();
                self.expr(a, 5, true);
            }
            EK::Bin(op, a, b) => {
                self.expr(a, op.prec(), false);
                self.pos.start[e.id] = self.pos.start[a.id];
                let wordy = op.text().chars().next().unwrap().is_ascii_alphabetic();
                if wordy {
                    self.sp();
                } else {
                    self.osp();
                }
                self.pos.pos[e.id] = self.here();
                self.word(op.text());
                if wordy {
                    self.sp();
                } else {
                    self.osp();
                }
                // A power extends the operand of a unary operator on its left.
                if *op == Op::Pow {
                    self.expr(b, 7, false);
                } else {
                    self.expr(b, op.prec(), true);
                }
            }
            EK::Arr(v, subs) => {
                self.var(*v);
                self.put("(");
                self.args(subs);
                self.put(")");
            }
            EK::Call(f, args) => {
                self.fun_name(*f);
                if !args.is_empty() {
                    self.put("(");
                    self.args(args);
                    self.put(")");
                }
            }
            EK::Tf(a) => {
                self.word("TF");
                self.put("(");
                self.expr(a, 0, false);
                self.put(")");
            }
            EK::Tz(ty) => self.word(tz_name(*ty)),
            EK::Lbound(v, d) | EK::Ubound(v, d) => {
                self.word(if matches!(e.k, EK::Lbound(..)) { "LBOUND" } else { "UBOUND" });
                self.put("(");
                self.var(*v);
                if let Some(d) = d {
                    self.put(", ");
                    self.put(&d.to_string());
                }
                self.put(")");
            }
        }
        if paren {
            self.put(")");
        }
    }

    pub fn stmts(&mut self, b: &[S]) {
        for s in b {
            self.stmt(s);
        }
    }

    fn body(&mut self, b: &[S]) {
        self.indent += 1;
        self.stmts(b);
        self.indent -= 1;
    }

    fn params(&mut self, f: usize) {
        let p = self.p;
        let fun = &p.funs[f];
        if fun.params.is_empty() {
            return;
        }
        self.put("(");
        for (i, prm) in fun.params.iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            let v = &p.vars[*prm];
            self.word(&v.name);
            if self.rng.bool() {
                self.put(v.ty.suffix());
            } else {
                self.word(" AS ");
                self.word(v.ty.name());
            }
        }
        self.put(")");
    }

    /// Renders a statement without its terminator.
    fn simple(&mut self, s: &S) {
        let p = self.p;
        match s {
            S::Dim(v) => {
                let var = &p.vars[*v];
                self.word("DIM ");
                if var.shared {
                    self.word("SHARED ");
                }
                self.word(&var.name);
                if var.is_array() {
                    self.put("(");
                    for (i, d) in var.dims.iter().enumerate() {
                        if i > 0 {
                            self.put(", ");
                        }
                        self.put(&d.to_string());
                    }
                    self.put(")");
                }
                self.word(" AS ");
                self.word(var.ty.name());
            }
            S::Assign(v, e) => {
                self.var(*v);
                self.osp();
                self.put("=");
                self.osp();
                self.expr(e, 0, false);
            }
            S::ArrAssign(v, subs, e, id) => {
                self.pos.pos[*id] = self.here();
                self.var(*v);
                self.put("(");
                self.args(subs);
                self.put(")");
                self.osp();
                self.put("=");
                self.osp();
                self.expr(e, 0, false);
            }
            S::Tr(es) => {
                self.word("TR");
                self.sp();
                self.args(es);
            }
            S::ErrMsg => {
                self.word("TR ERRMSG");
            }
            S::Fail(es, id) => {
                self.pos.pos[*id] = self.here();
                self.word("TFAIL");
                self.sp();
                self.args(es);
            }
            S::Goto(l) => {
                self.word("GOTO ");
                self.label_ref(*l);
            }
            S::Gosub(l, id) => {
                self.word("GOSUB ");
                self.pos.pos[*id] = self.here();
                self.label_ref(*l);
            }
            S::Return(id) => {
                self.pos.pos[*id] = self.here();
                self.word("RETURN");
            }
            S::ExitFor => self.word("EXIT FOR"),
            S::ExitDo => self.word("EXIT DO"),
            S::ExitCallable => unreachable!(),
            S::CallSub(f, args, id) => {
                self.pos.pos[*id] = self.here();
                let name = p.funs[*f].name.clone();
                self.word(&name);
                if !args.is_empty() {
                    self.sp();
                    self.args(args);
                }
            }
            S::OnError(h) => {
                self.word("ON ERROR ");
                match h {
                    OnErr::None => self.word("GOTO 0"),
                    OnErr::Resume => self.word("RESUME NEXT"),
                    OnErr::Goto(l) => {
                        self.word("GOTO ");
                        self.label_ref(*l);
                    }
                }
            }
            S::End(e, id) => {
                self.pos.pos[*id] = self.here();
                self.word("END");
                if let Some(e) = e {
                    self.sp();
                    self.expr(e, 0, false);
                }
            }
            _ => panic!("not a simple statement: {:?}", s),
        }
    }

    fn stmt(&mut self, s: &S) {
        let p = self.p;
        match s {
            S::Chunk => return,
            S::Label(l) => {
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.label_ref(*l);
                match &p.labels[*l] {
                    Label::Text(_) => self.newline(),
                    Label::Num(_) => {
                        self.put(" ");
                        if self.rng.bool() {
                            self.newline();
                        }
                    }
                }
                return;
            }
            S::If(brs, els) => {
                for (i, (g, b)) in brs.iter().enumerate() {
                    if !self.fresh && i > 0 {
                        self.newline();
                    }
                    self.begin();
                    self.word(if i == 0 { "IF" } else { "ELSEIF" });
                    self.sp();
                    self.expr(g, 0, false);
                    self.sp();
                    self.word("THEN");
                    self.newline();
                    self.body(b);
                }
                if let Some(b) = els {
                    if !self.fresh {
                        self.newline();
                    }
                    self.begin();
                    self.word("ELSE");
                    self.newline();
                    self.body(b);
                }
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.word("END IF");
            }
            S::If1(g, a, b) => {
                self.begin();
                self.word("IF");
                self.sp();
                self.expr(g, 0, false);
                self.sp();
                self.word("THEN");
                self.sp();
                self.exit_aware(a);
                if let Some(b) = b {
                    self.sp();
                    self.word("ELSE");
                    self.sp();
                    self.exit_aware(b);
                }
                self.newline();
                return;
            }
            S::For(v, from, to, step, body, id) => {
                self.begin();
                self.word("FOR");
                self.sp();
                self.pos.start[*id] = self.here();
                self.var(*v);
                self.osp();
                self.put("=");
                self.osp();
                self.expr(from, 0, false);
                self.sp();
                self.pos.pos[*id] = self.here();
                self.word("TO");
                self.sp();
                self.expr(to, 0, false);
                if let Some(st) = step {
                    self.sp();
                    self.word("STEP");
                    self.sp();
                    match st {
                        Val::I(i) if *i < 0 => {
                            self.put("-");
                            self.put(&(-i).to_string());
                        }
                        Val::D(d) if *d < 0.0 => {
                            self.put("-");
                            self.lit(&Val::D(-d));
                        }
                        v => self.lit(v),
                    }
                }
                self.newline();
                self.body(body);
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.word("NEXT");
            }
            S::While(g, body) => {
                self.begin();
                self.word("WHILE");
                self.sp();
                self.expr(g, 0, false);
                self.newline();
                self.body(body);
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.word("WEND");
            }
            S::Do(kind, g, body) => {
                self.begin();
                self.word("DO");
                let (pre, word) = match kind {
                    DoKind::Infinite => (true, ""),
                    DoKind::PreWhile => (true, "WHILE"),
                    DoKind::PreUntil => (true, "UNTIL"),
                    DoKind::PostWhile => (false, "WHILE"),
                    DoKind::PostUntil => (false, "UNTIL"),
                };
                if pre && !word.is_empty() {
                    self.sp();
                    self.word(word);
                    self.sp();
                    self.expr(g, 0, false);
                }
                self.newline();
                self.body(body);
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.word("LOOP");
                if !pre {
                    self.sp();
                    self.word(word);
                    self.sp();
                    self.expr(g, 0, false);
                }
            }
            S::Select(e, cases, els) => {
                self.begin();
                self.word("SELECT CASE");
                self.sp();
                self.expr(e, 0, false);
                self.newline();
                for (guards, body) in cases {
                    if !self.fresh {
                        self.newline();
                    }
                    self.begin();
                    self.word("CASE");
                    self.sp();
                    for (i, g) in guards.iter().enumerate() {
                        if i > 0 {
                            self.put(", ");
                        }
                        match g {
                            Guard::Is(Op::Eq, e) if self.rng.bool() => self.expr(e, 0, false),
                            Guard::Is(op, e) => {
                                self.word("IS ");
                                self.word(op.text());
                                self.put(" ");
                                self.expr(e, 0, false);
                            }
                            Guard::Range(a, b) => {
                                self.expr(a, 0, false);
                                self.sp();
                                self.word("TO");
                                self.sp();
                                self.expr(b, 0, false);
                            }
                        }
                    }
                    self.newline();
                    self.body(body);
                }
                if let Some(b) = els {
                    if !self.fresh {
                        self.newline();
                    }
                    self.begin();
                    self.word("CASE ELSE");
                    self.newline();
                    self.body(b);
                }
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.word("END SELECT");
            }
            S::Declare(f) => {
                let f = *f;
                self.begin();
                self.word("DECLARE ");
                self.header(f);
            }
            S::Def(f) => {
                let f = *f;
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.header(f);
                self.newline();
                self.in_fun = Some(f);
                let fun = &p.funs[f];
                self.body(&fun.body);
                self.in_fun = None;
                if !self.fresh {
                    self.newline();
                }
                self.begin();
                self.word(if fun.ret.is_some() { "END FUNCTION" } else { "END SUB" });
                self.newline();
                return;
            }
            s => {
                self.begin();
                self.exit_aware(s);
            }
        }
        self.eol();
    }

    fn exit_aware(&mut self, s: &S) {
        if matches!(s, S::ExitCallable) {
            let f = self.in_fun.expect("EXIT outside of a callable");
            self.word(if self.p.funs[f].ret.is_some() { "EXIT FUNCTION" } else { "EXIT SUB" });
        } else {
            self.simple(s);
        }
    }

    fn header(&mut self, f: usize) {
        let fun = &self.p.funs[f];
        match fun.ret {
            Some(t) => {
                self.word("FUNCTION ");
                let n = fun.name.clone();
                self.word(&n);
                self.put(t.suffix());
            }
            None => {
                self.word("SUB ");
                let n = fun.name.clone();
                self.word(&n);
            }
        }
        self.params(f);
    }
}
