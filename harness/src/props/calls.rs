//! C11: the protocol between programs and the callables of the host.

use super::limits::{Core, Ran};
use crate::lang::{Ty, Val};
use crate::rng::Rng;
use crate::runner::*;
use crate::trace;
use async_trait::async_trait;
use endbasic_core::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Value(Ty),
    Ref { array: bool, define: bool },
    Opt(Ty),
    Any { missing: bool },
}

#[derive(Clone, Debug)]
enum Sep {
    Exactly(ArgSep),
    OneOf(Vec<ArgSep>),
    End,
}

impl Sep {
    fn accepts(&self, s: ArgSep) -> bool {
        match self {
            Sep::Exactly(x) => *x == s,
            Sep::OneOf(v) => v.contains(&s),
            Sep::End => s == ArgSep::End,
        }
    }
    fn syntax(&self) -> ArgSepSyntax {
        match self {
            Sep::Exactly(x) => ArgSepSyntax::Exactly(*x),
            Sep::OneOf(v) => ArgSepSyntax::OneOf(Box::leak(v.clone().into_boxed_slice())),
            Sep::End => ArgSepSyntax::End,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Rep {
    Any,
    Typed(Ty),
    Refs,
}

#[derive(Clone, Debug)]
struct Repeated {
    rep: Rep,
    sep: Sep,
    one: bool,
    missing: bool,
}

#[derive(Clone, Debug)]
struct Syntax {
    singular: Vec<(Kind, Sep)>,
    repeated: Option<Repeated>,
}

impl Syntax {
    fn accepts(&self, n: usize) -> bool {
        match &self.repeated {
            None => n == self.singular.len(),
            Some(r) => n >= self.singular.len() + usize::from(r.one),
        }
    }
}

#[derive(Clone, Debug)]
struct Spec {
    name: &'static str,
    ret: Option<Ty>,
    delay: bool,
    syntaxes: Vec<Syntax>,
}

/// What a callable must do the next time that it is invoked.
#[derive(Clone, Debug, Default)]
struct Plan {
    name: &'static str,
    syntax: usize,
    /// Values to store in the references it gets, in order.
    sets: Vec<Val>,
    ret: Option<Val>,
    /// Kind of the error to raise, with the index of the position for those that have one.
    fail: Option<(usize, u8)>,
}

type Plans = Rc<RefCell<VecDeque<Plan>>>;

fn etype(t: Ty) -> ExprType {
    match t {
        Ty::B => ExprType::Boolean,
        Ty::I => ExprType::Integer,
        Ty::D => ExprType::Double,
        Ty::S => ExprType::Text,
    }
}

struct Custom {
    md: Rc<CallableMetadata>,
    spec: Spec,
    plans: Plans,
    log: trace::Log,
}

impl Custom {
    fn new(spec: Spec, plans: Plans, log: trace::Log) -> Rc<Self> {
        let mut v: Vec<(&'static [SingularArgSyntax], Option<&'static RepeatedSyntax>)> = vec![];
        for s in &spec.syntaxes {
            let mut one = vec![];
            for (k, sep) in &s.singular {
                let name = Cow::Borrowed("a");
                let sep = sep.syntax();
                one.push(match k {
                    Kind::Value(t) => SingularArgSyntax::RequiredValue(RequiredValueSyntax { name, vtype: etype(*t) }, sep),
                    Kind::Ref { array, define } => SingularArgSyntax::RequiredRef(
                        RequiredRefSyntax { name, require_array: *array, define_undefined: *define },
                        sep,
                    ),
                    Kind::Opt(t) => SingularArgSyntax::OptionalValue(OptionalValueSyntax { name, vtype: etype(*t) }, sep),
                    Kind::Any { missing } => {
                        SingularArgSyntax::AnyValue(AnyValueSyntax { name, allow_missing: *missing }, sep)
                    }
                });
            }
            let rep: Option<&'static RepeatedSyntax> = s.repeated.as_ref().map(|r| {
                &*Box::leak(Box::new(RepeatedSyntax {
                    name: Cow::Borrowed("r"),
                    type_syn: match r.rep {
                        Rep::Any => RepeatedTypeSyntax::AnyValue,
                        Rep::Typed(t) => RepeatedTypeSyntax::TypedValue(etype(t)),
                        Rep::Refs => RepeatedTypeSyntax::VariableRef,
                    },
                    sep: r.sep.syntax(),
                    require_one: r.one,
                    allow_missing: r.missing,
                }))
            });
            v.push((Box::leak(one.into_boxed_slice()), rep));
        }
        let mut b = CallableMetadataBuilder::new(spec.name).with_async(spec.delay);
        if let Some(t) = spec.ret {
            b = b.with_return_type(etype(t));
        }
        let md =
            b.with_syntax(Box::leak(v.into_boxed_slice())).with_category("Test").with_description("Test").build();
        Rc::new(Self { md, spec, plans, log })
    }

    fn value(scope: &Scope<'_>, reg: u8, t: ExprType) -> String {
        match t {
            ExprType::Boolean => format!("B:{}", scope.get_boolean(reg)),
            ExprType::Double => crate::lang::show_double(scope.get_double(reg)),
            ExprType::Integer => format!("I:{}", scope.get_integer(reg)),
            ExprType::Text => format!("S:{}", scope.get_string(reg)),
        }
    }

    fn reference(scope: &Scope<'_>, reg: u8, array: bool) -> String {
        let r = scope.get_ref(reg);
        if array {
            let dims = r.array_dimensions().to_vec();
            let mut s = format!("ARRAY {:?} {:?}", r.vtype, dims);
            if r.vtype == ExprType::Integer {
                let last: Vec<i32> = dims.iter().map(|d| *d as i32 - 1).collect();
                s.push_str(&format!(" {:?}", r.deref_array_integer(&last)));
                if r.deref_array_integer(&dims.iter().map(|d| *d as i32).collect::<Vec<_>>()).is_ok() {
                    s.push_str(" UNBOUNDED");
                }
            }
            return s;
        }
        match r.vtype {
            ExprType::Boolean => format!("REF B:{}", r.deref_boolean()),
            ExprType::Double => format!("REF {}", crate::lang::show_double(r.deref_double())),
            ExprType::Integer => format!("REF I:{}", r.deref_integer()),
            ExprType::Text => format!("REF S:{}", r.deref_string()),
        }
    }

    fn run(&self, mut scope: Scope<'_>) -> CallResult<()> {
        let Some(plan) = self.plans.borrow_mut().pop_front() else {
            self.log.borrow_mut().push(format!("{} UNPLANNED", self.spec.name));
            return Err(CallError::Eval("unplanned".to_owned()));
        };
        let mut out = vec![self.spec.name.to_owned()];
        if plan.name != self.spec.name {
            self.log.borrow_mut().push(format!("{} INSTEAD OF {}", self.spec.name, plan.name));
            return Err(CallError::Eval("unplanned".to_owned()));
        }
        let syn = &self.spec.syntaxes[plan.syntax];
        let n = scope.nargs();
        let mut reg = 0u8;
        let mut refs = vec![];
        let at = |reg: u8| {
            if usize::from(reg) < n {
                let p = scope.get_pos(reg);
                format!("@{}", p.col)
            } else {
                "@?".to_owned()
            }
        };
        let tagged = |reg: &mut u8, out: &mut Vec<String>, refs: &mut Vec<u8>| -> ArgSep {
            if usize::from(*reg) >= n {
                out.push("OUT OF ARGUMENTS".to_owned());
                return ArgSep::End;
            }
            match scope.get_type(*reg) {
                VarArgTag::Immediate(sep, t) => {
                    out.push(format!("{}{}{}", Self::value(&scope, *reg + 1, t), at(*reg), at(*reg + 1)));
                    *reg += 2;
                    sep
                }
                VarArgTag::Missing(sep) => {
                    out.push(format!("MISSING{}", at(*reg)));
                    *reg += 1;
                    sep
                }
                VarArgTag::Pointer(sep) => {
                    out.push(format!("{}{}{}", Self::reference(&scope, *reg + 1, false), at(*reg), at(*reg + 1)));
                    refs.push(*reg + 1);
                    *reg += 2;
                    sep
                }
            }
        };
        for (k, _) in &syn.singular {
            match k {
                Kind::Value(t) => {
                    out.push(format!("{}{}", Self::value(&scope, reg, etype(*t)), at(reg)));
                    reg += 1;
                }
                Kind::Ref { array, .. } => {
                    out.push(format!("{}{}", Self::reference(&scope, reg, *array), at(reg)));
                    if !array {
                        refs.push(reg);
                    }
                    reg += 1;
                }
                Kind::Opt(_) | Kind::Any { .. } => {
                    let sep = tagged(&mut reg, &mut out, &mut refs);
                    out.push(format!("{:?}", sep));
                }
            }
        }
        if let Some(r) = &syn.repeated {
            match (&r.rep, r.missing, &r.sep) {
                (Rep::Typed(t), false, Sep::Exactly(_)) => {
                    while usize::from(reg) < n {
                        out.push(format!("{}{}", Self::value(&scope, reg, etype(*t)), at(reg)));
                        reg += 1;
                    }
                }
                _ => loop {
                    let sep = tagged(&mut reg, &mut out, &mut refs);
                    out.push(format!("{:?}", sep));
                    if sep == ArgSep::End {
                        break;
                    }
                },
            }
        }
        if usize::from(reg) != n {
            out.push(format!("{} ARGUMENTS INSTEAD OF {}", reg, n));
        }
        self.log.borrow_mut().push(out.join(" "));
        for (reg, v) in refs.into_iter().zip(&plan.sets) {
            let mut r = scope.get_mut_ref(reg);
            match v {
                Val::B(b) => r.set_boolean(*b),
                Val::I(i) => r.set_integer(*i),
                Val::D(d) => r.set_double(*d),
                Val::S(s) => r.set_string(s.to_string())?,
            }
        }
        if let Some((kind, reg)) = plan.fail {
            let m = "failed".to_owned();
            return Err(match kind {
                0 => CallError::Argument(m),
                1 => CallError::Eval(m),
                2 => CallError::IoError(std::io::Error::other(m)),
                3 => CallError::Precondition(m),
                _ => CallError::Syntax(scope.get_pos(reg), m),
            });
        }
        match plan.ret {
            None => Ok(()),
            Some(Val::B(b)) => scope.return_boolean(b),
            Some(Val::I(i)) => scope.return_integer(i),
            Some(Val::D(d)) => scope.return_double(d),
            Some(Val::S(s)) => scope.return_string(s.to_string()),
        }
    }
}

#[async_trait(?Send)]
impl Callable for Custom {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(!self.spec.delay, "MONITOR: asynchronous callable executed synchronously");
        self.run(scope)
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(self.spec.delay, "MONITOR: synchronous callable executed asynchronously");
        trace::suspend().await;
        self.run(scope)
    }
}

const TYS: [Ty; 4] = [Ty::B, Ty::I, Ty::D, Ty::S];
const SEPS: [ArgSep; 3] = [ArgSep::Long, ArgSep::Short, ArgSep::As];

fn sep(r: &mut Rng, function: bool) -> Sep {
    if function {
        return if r.chance(1, 6) { Sep::OneOf(vec![ArgSep::Long]) } else { Sep::Exactly(ArgSep::Long) };
    }
    if r.chance(1, 3) {
        let mut v: Vec<ArgSep> = SEPS.iter().filter(|_| r.chance(2, 3)).copied().collect();
        if v.is_empty() {
            v.push(ArgSep::Short);
        }
        Sep::OneOf(v)
    } else {
        Sep::Exactly(*r.pick(&SEPS))
    }
}

fn syntax(r: &mut Rng, function: bool, n: usize, repeat: bool) -> Syntax {
    let mut singular = vec![];
    for i in 0..n {
        let k = match r.below(if function { 5 } else { 8 }) {
            0 | 1 => Kind::Value(*r.pick(&TYS)),
            2 => {
                let array = r.chance(1, 3);
                Kind::Ref { array, define: !array && !function && r.bool() }
            }
            3 => Kind::Value(*r.pick(&[Ty::I, Ty::D])),
            4 => Kind::Any { missing: false },
            5 => Kind::Any { missing: r.chance(2, 3) },
            _ => Kind::Opt(*r.pick(&TYS)),
        };
        let s = if i + 1 == n && !repeat { Sep::End } else { sep(r, function) };
        singular.push((k, s));
    }
    let repeated = repeat.then(|| Repeated {
        rep: match r.below(4) {
            0 => Rep::Any,
            1 | 2 => Rep::Typed(*r.pick(&TYS)),
            _ => Rep::Refs,
        },
        sep: sep(r, function),
        one: r.bool(),
        missing: !function && r.chance(1, 3),
    });
    Syntax { singular, repeated }
}

fn spec(r: &mut Rng, name: &'static str, ret: Option<Ty>) -> Spec {
    let function = ret.is_some();
    let mut syntaxes: Vec<Syntax> = vec![];
    // Syntaxes that accept different numbers of arguments.
    let mut counts: Vec<usize> = (0..5).collect();
    for k in (1..counts.len()).rev() {
        counts.swap(k, r.below(k + 1));
    }
    let many = 1 + r.below(3);
    for n in counts.into_iter().take(many) {
        let repeat = r.chance(1, 3);
        let s = syntax(r, function, n, repeat);
        if (0..12).all(|n| !s.accepts(n) || syntaxes.iter().all(|o| !o.accepts(n))) {
            syntaxes.push(s);
        }
    }
    // A lone syntax without arguments turns functions into plain symbols.
    if function && syntaxes.len() == 1 && syntaxes[0].singular.is_empty() && syntaxes[0].repeated.is_none() {
        syntaxes[0] = syntax(r, true, 1, false);
    }
    Spec { name, ret, delay: r.bool(), syntaxes }
}

#[derive(Clone, Debug)]
enum Var {
    Scalar(Val),
    Array(Ty, Vec<usize>),
}

/// Model of one program with calls.
struct Model<'a> {
    r: &'a mut Rng,
    specs: Vec<Spec>,
    vars: BTreeMap<String, Var>,
    plans: Vec<Plan>,
    want: Vec<String>,
    /// The program must be rejected.
    reject: bool,
    /// Kinds of errors seen.
    fresh: usize,
    /// How many calls were planned to fail.
    depth: usize,
    /// Position of a planned failure and its message.
    failure: Option<usize>,
    may_fail: bool,
    /// How many records there are before the failure.
    stop: usize,
}

fn ty_of(v: &Val) -> Ty {
    match v {
        Val::B(_) => Ty::B,
        Val::I(_) => Ty::I,
        Val::D(_) => Ty::D,
        Val::S(_) => Ty::S,
    }
}

fn any_val(r: &mut Rng, t: Ty) -> Val {
    match t {
        Ty::B => Val::B(r.bool()),
        Ty::I => Val::I(r.below(2000) as i32 - 1000),
        Ty::D => Val::D((r.below(4000) as f64 - 2000.0) / 4.0 + 0.0625),
        Ty::S => Val::S(Rc::from(format!("s{}", r.below(1000)))),
    }
}

fn literal(v: &Val) -> String {
    match v {
        Val::B(b) => if *b { "TRUE" } else { "FALSE" }.to_owned(),
        Val::I(i) => format!("{}", i),
        Val::D(d) => format!("{:?}", d),
        Val::S(s) => format!("\"{}\"", s),
    }
}

fn convert(v: &Val, t: Ty) -> Option<Val> {
    match (v, t) {
        (Val::I(i), Ty::D) => Some(Val::D(f64::from(*i))),
        (Val::D(d), Ty::I) => Some(Val::I(d.round() as i32)),
        (v, t) if ty_of(v) == t => Some(v.clone()),
        _ => None,
    }
}

impl Model<'_> {
    fn scalars(&self, want: Option<Ty>) -> Vec<String> {
        self.vars
            .iter()
            .filter(|(_, v)| matches!(v, Var::Scalar(x) if want.is_none_or(|t| ty_of(x) == t)))
            .map(|(k, _)| k.clone())
            .collect()
    }

    /// Appends an expression to `line` and returns its value, or none if it is not valid.
    fn expr(&mut self, line: &mut String, t: Ty) -> Option<Val> {
        let choice = self.r.below(10);
        if choice < 3 {
            let names = self.scalars(Some(t));
            if let Some(n) = (!names.is_empty()).then(|| self.r.pick(&names).clone()) {
                let Var::Scalar(v) = self.vars[&n].clone() else { unreachable!() };
                line.push_str(&n);
                if self.r.chance(1, 3) {
                    match &v {
                        Val::I(i) => {
                            line.push_str(" + 1");
                            return Some(Val::I(i + 1));
                        }
                        Val::S(s) => {
                            line.push_str(" + \"z\"");
                            return Some(Val::S(Rc::from(format!("{}z", s))));
                        }
                        _ => (),
                    }
                }
                return Some(v);
            }
        }
        if choice < 5 && self.depth < 3 {
            let fs: Vec<usize> = (0..self.specs.len()).filter(|k| self.specs[*k].ret == Some(t)).collect();
            if !fs.is_empty() {
                let f = *self.r.pick(&fs);
                return self.call(line, f);
            }
        }
        if choice == 5 && t == Ty::I {
            let n = self.r.below(100) as i32;
            line.push_str(&format!("TF({})", n));
            self.want.push(format!("TF I:{}", n));
            return Some(Val::I(n));
        }
        let v = any_val(self.r, t);
        line.push_str(&literal(&v));
        Some(v)
    }

    /// Appends a call to the k-th callable and returns what it returns, if valid.
    ///
    /// For commands, the returned value is a dummy.
    fn call(&mut self, line: &mut String, k: usize) -> Option<Val> {
        self.depth += 1;
        let v = self.call2(line, k);
        self.depth -= 1;
        v
    }

    fn call2(&mut self, line: &mut String, k: usize) -> Option<Val> {
        let spec = self.specs[k].clone();
        let function = spec.ret.is_some();
        let call_col = line.chars().count() + 1;
        line.push_str(spec.name);
        // Arguments for one of the syntaxes, with mistakes from time to time.
        let si = self.r.below(spec.syntaxes.len());
        let syn = &spec.syntaxes[si];
        let reps = match &syn.repeated {
            None => 0,
            Some(r) => usize::from(r.one) + self.r.below(4),
        };
        let mut n = syn.singular.len() + reps;
        let sloppy = self.r.chance(1, 12);
        if sloppy && self.r.chance(1, 3) {
            n = self.r.below(7);
        }
        if n == 0 {
            if function {
                if self.r.bool() || spec.syntaxes.iter().any(|s| s.accepts(0)) {
                    line.push_str("()");
                }
                // Otherwise it is a plain symbol, which is not allowed for functions with arguments.
            }
            let Some(si) = spec.syntaxes.iter().position(|s| s.accepts(0)) else {
                self.reject = true;
                return None;
            };
            let mut rec = vec![spec.name.to_owned()];
            if let Some(r) = &spec.syntaxes[si].repeated
                && !(matches!(r.rep, Rep::Typed(_)) && !r.missing && matches!(r.sep, Sep::Exactly(_)))
            {
                rec.push(format!("MISSING@{}", call_col));
                rec.push("End".to_owned());
            }
            return self.invoke(&spec, si, rec, vec![], call_col, vec![]);
        }
        line.push_str(if function { "(" } else { " " });
        let matching = spec.syntaxes.iter().position(|s| s.accepts(n));
        // Undefined variables come to exist before anything else.
        let mut rec = vec![spec.name.to_owned()];
        let mut refs: Vec<String> = vec![];
        let mut cols: Vec<usize> = vec![];
        let mut valid = matching.is_some();
        let si = matching.unwrap_or(si);
        let syn = spec.syntaxes[si].clone();
        for i in 0..n {
            let last = i + 1 == n;
            let kind: Kind;
            let want_sep: Sep;
            let mut tagged = false;
            let mut repeated = false;
            if let Some((k, s)) = syn.singular.get(i) {
                kind = k.clone();
                want_sep = s.clone();
                tagged = matches!(k, Kind::Opt(_) | Kind::Any { .. });
            } else if let Some(r) = &syn.repeated {
                repeated = true;
                want_sep = r.sep.clone();
                kind = match r.rep {
                    Rep::Any => {
                        tagged = true;
                        Kind::Any { missing: r.missing }
                    }
                    Rep::Typed(t) => {
                        if r.missing {
                            tagged = true;
                            Kind::Opt(t)
                        } else {
                            tagged = !matches!(r.sep, Sep::Exactly(_));
                            Kind::Value(t)
                        }
                    }
                    Rep::Refs => {
                        tagged = true;
                        Kind::Ref { array: false, define: !function }
                    }
                };
            } else {
                kind = Kind::Value(Ty::I);
                want_sep = Sep::Exactly(ArgSep::Long);
            }
            let slip = sloppy && self.r.chance(1, 3);
            // The expression.
            let col = line.chars().count() + 1;
            let allowed_missing = match &kind {
                Kind::Opt(_) => true,
                Kind::Any { missing } => *missing,
                Kind::Ref { .. } => repeated && syn.repeated.as_ref().unwrap().missing,
                _ => false,
            };
            let mut missing = false;
            if (allowed_missing && self.r.chance(1, 3)) || (slip && self.r.chance(1, 4)) {
                // A trailing missing argument needs a separator before.
                if (i > 0 || !last) && !function {
                    missing = true;
                    if !allowed_missing {
                        valid = false;
                    }
                }
            }
            let mut shown = None;
            if !missing {
                let r: Result<String, ()> = match &kind {
                    Kind::Value(t) | Kind::Opt(t) => {
                        let given = if slip {
                            *self.r.pick(&TYS)
                        } else {
                            match t {
                                Ty::I | Ty::D => *self.r.pick(&[Ty::I, Ty::D]),
                                t => *t,
                            }
                        };
                        match self.expr(line, given) {
                            Some(v) => convert(&v, *t).map(|v| v.show()).ok_or(()),
                            None => Err(()),
                        }
                    }
                    Kind::Any { .. } => {
                        let t = *self.r.pick(&TYS);
                        self.expr(line, t).map(|v| v.show()).ok_or(())
                    }
                    Kind::Ref { array, define } => {
                        if slip && self.r.chance(1, 3) {
                            // Not a reference.
                            let t = *self.r.pick(&TYS);
                            let v = any_val(self.r, t);
                            line.push_str(&literal(&v));
                            Err(())
                        } else {
                            let arrays = *array != (slip && self.r.bool());
                            if arrays {
                                let names: Vec<String> = self
                                    .vars
                                    .iter()
                                    .filter(|(_, v)| matches!(v, Var::Array(..)))
                                    .map(|(k, _)| k.clone())
                                    .collect();
                                let name = self.r.pick(&names).clone();
                                line.push_str(&name);
                                let Var::Array(t, dims) = self.vars[&name].clone() else { unreachable!() };
                                let t2 = etype(t);
                                let mut s = format!("ARRAY {:?} {:?}", t2, dims);
                                if t == Ty::I {
                                    s.push_str(" Ok(0)");
                                }
                                if *array { Ok(s) } else { Err(()) }
                            } else {
                                let names = self.scalars(None);
                                let fresh = self.r.chance(1, if slip { 2 } else { 4 });
                                if fresh && (*define || slip) {
                                    self.fresh += 1;
                                    let t = *self.r.pick(&TYS);
                                    let bare = format!("nv{}", self.fresh);
                                    let text = match t {
                                        Ty::B => format!("{}?", bare),
                                        Ty::D => format!("{}#", bare),
                                        Ty::S => format!("{}$", bare),
                                        Ty::I => if self.r.bool() { format!("{}%", bare) } else { bare.clone() },
                                    };
                                    line.push_str(&text);
                                    let z = t.zero();
                                    self.vars.insert(bare.clone(), Var::Scalar(z.clone()));
                                    refs.push(bare);
                                    if *define && !*array { Ok(format!("REF {}", z.show())) } else { Err(()) }
                                } else {
                                    let name = self.r.pick(&names).clone();
                                    line.push_str(&name);
                                    let Var::Scalar(v) = self.vars[&name].clone() else { unreachable!() };
                                    if self.r.chance(1, 4) {
                                        line.push(match ty_of(&v) {
                                            Ty::B => '?',
                                            Ty::D => '#',
                                            Ty::I => '%',
                                            Ty::S => '$',
                                        });
                                    }
                                    refs.push(name);
                                    if *array { Err(()) } else { Ok(format!("REF {}", v.show())) }
                                }
                            }
                        }
                    }
                };
                match r {
                    Ok(s) => shown = Some(s),
                    Err(()) => valid = false,
                }
                if self.reject {
                    return None;
                }
            }
            // The separator.
            let sep_col;
            let given;
            if last {
                given = ArgSep::End;
                sep_col = line.chars().count() + 1;
                if function {
                    line.push(')');
                }
                let end_ok = repeated
                    || matches!(want_sep, Sep::End)
                    || (i + 1 == syn.singular.len() && syn.repeated.as_ref().is_some_and(|r| !r.one));
                if !end_ok {
                    valid = false;
                }
            } else {
                given = if function {
                    ArgSep::Long
                } else if slip && self.r.chance(1, 3) {
                    *self.r.pick(&SEPS)
                } else {
                    match &want_sep {
                        Sep::Exactly(s) => *s,
                        Sep::OneOf(v) => *self.r.pick(v),
                        Sep::End => ArgSep::Long,
                    }
                };
                if !want_sep.accepts(given) {
                    valid = false;
                }
                if given == ArgSep::As {
                    line.push(' ');
                }
                sep_col = line.chars().count() + 1;
                line.push_str(match given {
                    ArgSep::Long => ",",
                    ArgSep::Short => ";",
                    _ => "AS",
                });
                line.push(' ');
            }
            let at = if missing { sep_col } else { col };
            cols.push(at);
            match shown {
                Some(s) if tagged => {
                    rec.push(format!("{}@{}@{}", s, at, at));
                    rec.push(format!("{:?}", given));
                    cols.push(at);
                }
                Some(s) => rec.push(format!("{}@{}", s, at)),
                None if missing => {
                    rec.push(format!("MISSING@{}", at));
                    rec.push(format!("{:?}", given));
                }
                None => (),
            }
        }
        if !valid {
            self.reject = true;
            return None;
        }
        if let Some(r) = &syn.repeated
            && n == syn.singular.len()
            && !(matches!(r.rep, Rep::Typed(_)) && !r.missing && matches!(r.sep, Sep::Exactly(_)))
        {
            rec.push(format!("MISSING@{}", call_col));
            rec.push("End".to_owned());
            cols.push(call_col);
        }
        // References show the values at the time of the call.
        let mut k = 0;
        for s in rec.iter_mut() {
            if let Some(rest) = s.strip_prefix("REF ") {
                let pos = rest[rest.find('@').unwrap()..].to_owned();
                let Var::Scalar(v) = &self.vars[&refs[k]] else { unreachable!() };
                *s = format!("REF {}{}", v.show(), pos);
                k += 1;
            }
        }
        self.invoke(&spec, si, rec, refs, call_col, cols)
    }

    fn invoke(
        &mut self,
        spec: &Spec,
        syntax: usize,
        rec: Vec<String>,
        refs: Vec<String>,
        call_col: usize,
        cols: Vec<usize>,
    ) -> Option<Val> {
        if self.failure.is_some() {
            return Some(spec.ret.unwrap_or(Ty::I).zero());
        }
        self.want.push(rec.join(" "));
        let mut plan = Plan { name: spec.name, syntax, ..Plan::default() };
        for name in &refs {
            let Var::Scalar(v) = &self.vars[name] else { unreachable!() };
            let v = any_val(self.r, ty_of(v));
            plan.sets.push(v.clone());
            self.vars.insert(name.clone(), Var::Scalar(v));
        }
        if self.may_fail && self.r.chance(1, 8) {
            let kind = self.r.below(if cols.is_empty() { 4 } else { 5 });
            let at = if kind == 4 { self.r.below(cols.len()) } else { 0 };
            plan.fail = Some((kind, at as u8));
            self.failure = Some(if kind == 4 { cols[at] } else { call_col });
            self.stop = self.want.len();
            self.plans.push(plan);
            return Some(spec.ret.unwrap_or(Ty::I).zero());
        }
        let v = spec.ret.map(|t| any_val(self.r, t));
        plan.ret = v.clone();
        self.plans.push(plan);
        Some(v.unwrap_or(Val::I(0)))
    }
}

/// Callables get exactly what calls say, and calls that do not fit any syntax are rejected.
fn c11_calls(c: &mut Case) -> R {
    let mut specs = vec![];
    for name in ["CM_A", "CM_B"] {
        specs.push(spec(&mut c.rng, name, None));
    }
    for name in ["FN_A", "FN_B", "FN_C"] {
        let t = *c.rng.pick(&TYS);
        specs.push(spec(&mut c.rng, name, Some(t)));
    }
    let plans: Plans = Rc::default();
    let log = trace::Log::default();
    let mut more: Vec<Rc<dyn Callable>> = vec![];
    for s in &specs {
        more.push(Custom::new(s.clone(), plans.clone(), log.clone()));
    }
    let mut core = Core::with_log(Limits::default(), &[], more, log.clone());
    // Variables, some of them shared.
    let mut head = String::new();
    let in_sub = c.rng.chance(1, 4);
    let mut vars = BTreeMap::new();
    let names = ["va", "vb", "vc", "vd", "ve", "vf"];
    if in_sub {
        head.push_str("x1 = 1: x2 = 2\n");
    }
    let mut inner = String::new();
    for (k, name) in names.iter().enumerate() {
        let t = TYS[k % 4];
        let tn = ["BOOLEAN", "INTEGER", "DOUBLE", "STRING"][k % 4];
        let shared = c.rng.chance(1, 3);
        let decl = format!("DIM {}{} AS {}\n", if shared { "SHARED " } else { "" }, name, tn);
        if shared || !in_sub { head.push_str(&decl) } else { inner.push_str(&decl) }
        let v = any_val(&mut c.rng, t);
        inner.push_str(&format!("{} = {}\n", name, literal(&v)));
        vars.insert((*name).to_owned(), Var::Scalar(v));
    }
    for (k, name) in ["aa", "ab", "ac"].iter().enumerate() {
        let t = *c.rng.pick(&TYS);
        let tn = match t {
            Ty::B => "BOOLEAN",
            Ty::I => "INTEGER",
            Ty::D => "DOUBLE",
            Ty::S => "STRING",
        };
        let dims: Vec<usize> = (0..1 + k % 2).map(|_| 1 + c.rng.below(5)).collect();
        let d: Vec<String> = dims.iter().map(|d| d.to_string()).collect();
        let shared = c.rng.chance(1, 3);
        let decl = format!("DIM {}{}({}) AS {}\n", if shared { "SHARED " } else { "" }, name, d.join(", "), tn);
        if shared || !in_sub { head.push_str(&decl) } else { inner.push_str(&decl) }
        vars.insert((*name).to_owned(), Var::Array(t, dims));
    }
    let may_fail = c.rng.chance(1, 3);
    let mut m = Model {
        r: &mut c.rng,
        specs: specs.clone(),
        vars,
        plans: vec![],
        want: vec![],
        reject: false,
        fresh: 0,
        depth: 0,
        failure: None,
        may_fail,
        stop: 0,
    };
    let calls = 1 + m.r.below(4);
    let mut body: Vec<String> = vec![];
    let mut fail_line = 0;
    let mut made = 0;
    for _ in 0..calls {
        let mut line = String::new();
        if m.r.bool() {
            let k = m.r.below(2);
            m.call(&mut line, k);
        } else {
            let k = 2 + m.r.below(3);
            line.push_str("TR ");
            let n = m.r.below(1000) as i32;
            let lead = m.r.bool();
            if lead {
                line.push_str(&format!("{}, ", n));
            }
            let v = m.call(&mut line, k);
            line.push_str(", 7");
            if m.failure.is_none()
                && let Some(v) = v
            {
                m.want.push(format!("{}{} I:7", if lead { format!("I:{} ", n) } else { String::new() }, v.show()));
            }
        }
        body.push(line);
        made += 1;
        if m.failure.is_some() && fail_line == 0 {
            fail_line = body.len();
        }
        if m.reject || m.failure.is_some() {
            break;
        }
        // Every variable still has what it must.
        let mut line = "TR 0".to_owned();
        let mut rec = "I:0".to_owned();
        for (k, v) in &m.vars {
            if let Var::Scalar(v) = v {
                line.push_str(&format!(", {}", k));
                rec.push_str(&format!(" {}", v.show()));
            }
        }
        body.push(line);
        m.want.push(rec);
    }
    if m.failure.is_some() {
        m.want.truncate(m.stop);
    }
    let (want, reject, failure, queue) = (m.want, m.reject, m.failure, m.plans);
    let mut src = head.clone();
    if in_sub {
        src.push_str("SUB job\n");
    }
    src.push_str(&inner);
    let before = src.lines().count();
    for l in &body {
        src.push_str(l);
        src.push('\n');
    }
    if in_sub {
        src.push_str("END SUB\njob\n");
    }
    let about = format!("{}\n{:?}", src, specs);
    c.input(about.clone());
    plans.borrow_mut().extend(queue.iter().cloned());
    let got = core.run(&src);
    let got_log = core.take();
    let show = |s: &str| {
        viol(s, format!("{}\n--- oracle: rejected {} failure {:?}\n{:?}\n--- observed {:?}\n{:?}", about, reject, failure, want, got, got_log))
    };
    c.saw("calls", made);
    if reject {
        let Ran::Rejected(e) = &got else {
            return Err(show("call accepted against its syntax"));
        };
        let line: usize = e.split(':').next().and_then(|l| l.parse().ok()).unwrap_or(0);
        if line != before + body.len() {
            return Err(show("rejection at the wrong line"));
        }
        if !got_log.is_empty() {
            return Err(show("a rejected program did something"));
        }
        c.saw("calls rejected", 1);
        c.distinct(&src);
        return Ok(());
    }
    if got_log != want {
        return Err(show("callables did not get what calls say"));
    }
    match (failure, &got) {
        (None, Ran::Eof) => c.saw("programs completed", 1),
        (Some(col), Ran::Error(e)) => {
            if *e != format!("{}:{}: failed", before + fail_line, col) {
                return Err(show("error of a callable at the wrong place"));
            }
            c.saw("errors raised", 1);
        }
        _ => return Err(show("wrong outcome")),
    }
    if !plans.borrow().is_empty() {
        return Err(show("calls missing"));
    }
    c.saw("arguments", want.iter().map(|w| w.split(' ').count() as u64).sum());
    c.distinct(&want);
    c.sample(|| format!("{}\n{:?}", src, want));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        level: "exploration",
        rule: "Random syntaxes of commands and functions and random calls, some of them wrong; distinct = different records",
        assumptions: &["Hosts declare syntaxes as the metadata documents: unambiguous, with commas only in functions"],
        require: &[("programs completed", 5000), ("calls rejected", 1000), ("errors raised", 500)],
        stages: vec![Stage { name: "calls", quick: 400000, thorough: 2000000, f: c11_calls }],
        probes: vec![],
    }]
}
