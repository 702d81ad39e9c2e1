//! Callables that observe program executions.

use async_trait::async_trait;
use crate::lang::{Ty, Val, tz, tz_name};
use endbasic_core::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

type Hook = Box<dyn FnOnce()>;

thread_local! {
    static HOOK: RefCell<Option<(u64, Hook)>> = const { RefCell::new(None) };
}

/// Runs `f` right after the n-th record from now on.
pub fn on_record(n: u64, f: Hook) {
    HOOK.with(|h| *h.borrow_mut() = Some((n, f)));
}

/// Removes the hook, if still there.
pub fn forget_record() -> bool {
    HOOK.with(|h| h.borrow_mut().take()).is_some()
}

fn recorded() {
    let f = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        match h.as_mut() {
            Some((1, _)) => h.take().map(|h| h.1),
            Some((n, _)) => {
                *n -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(f) = f {
        f();
    }
}

pub type Log = Rc<RefCell<Vec<String>>>;

/// `TR a, b, ...`: records the typed values of its arguments.
pub struct Tr {
    md: Rc<CallableMetadata>,
    log: Log,
    fail: bool,
    delay: bool,
}

/// Suspends the caller once, so that asynchronous callables really go through the executor.
pub async fn suspend() {
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        } else {
            std::task::Poll::Ready(())
        }
    })
    .await
}

pub fn decode(scope: &Scope<'_>) -> String {
    let mut out = vec![];
    let mut reg = 0;
    if scope.nargs() == 0 {
        return String::new();
    }
    loop {
        let sep = match scope.get_type(reg) {
            VarArgTag::Immediate(sep, etype) => {
                reg += 1;
                out.push(match etype {
                    ExprType::Boolean => format!("B:{}", scope.get_boolean(reg)),
                    ExprType::Double => crate::lang::show_double(scope.get_double(reg)),
                    ExprType::Integer => format!("I:{}", scope.get_integer(reg)),
                    ExprType::Text => format!("S:{}", scope.get_string(reg)),
                });
                sep
            }
            VarArgTag::Missing(sep) => {
                out.push("MISSING".to_owned());
                sep
            }
            VarArgTag::Pointer(sep) => {
                reg += 1;
                out.push(format!("PTR {}", scope.get_ref(reg)));
                sep
            }
        };
        reg += 1;
        match sep {
            ArgSep::End => break,
            ArgSep::Long => (),
            s => out.push(s.to_string()),
        }
    }
    out.join(" ")
}

impl Tr {
    pub fn new(name: &'static str, log: Log, fail: bool, delay: bool) -> Rc<Self> {
        Rc::new(Self {
            md: CallableMetadataBuilder::new(name)
                .with_async(delay)
                .with_syntax(&[(
                    &[],
                    Some(&RepeatedSyntax {
                        name: Cow::Borrowed("arg"),
                        type_syn: RepeatedTypeSyntax::AnyValue,
                        sep: ArgSepSyntax::Exactly(ArgSep::Long),
                        require_one: false,
                        allow_missing: false,
                    }),
                )])
                .with_category("Test")
                .with_description("Test")
                .build(),
            log,
            fail,
            delay,
        })
    }
}

#[async_trait(?Send)]
impl Callable for Tr {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(!self.delay, "MONITOR: asynchronous callable executed synchronously");
        let s = decode(&scope);
        if self.fail {
            return Err(CallError::Eval(format!("Failed {}", s)));
        }
        self.log.borrow_mut().push(s);
        recorded();
        Ok(())
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(self.delay, "MONITOR: synchronous callable executed asynchronously");
        suspend().await;
        let s = decode(&scope);
        if self.fail {
            return Err(CallError::Eval(format!("Failed {}", s)));
        }
        self.log.borrow_mut().push(s);
        recorded();
        Ok(())
    }
}

/// `TF(n)`: records its argument and returns it.
pub struct Tf {
    md: Rc<CallableMetadata>,
    log: Log,
    delay: bool,
}

impl Tf {
    pub fn new(log: Log, delay: bool) -> Rc<Self> {
        Rc::new(Self {
            md: CallableMetadataBuilder::new("TF")
                .with_async(delay)
                .with_return_type(ExprType::Integer)
                .with_syntax(&[(
                    &[SingularArgSyntax::RequiredValue(
                        RequiredValueSyntax {
                            name: Cow::Borrowed("n"),
                            vtype: ExprType::Integer,
                        },
                        ArgSepSyntax::End,
                    )],
                    None,
                )])
                .with_category("Test")
                .with_description("Test")
                .build(),
            log,
            delay,
        })
    }
}

#[async_trait(?Send)]
impl Callable for Tf {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(self.delay, "MONITOR: synchronous callable executed asynchronously");
        suspend().await;
        let n = scope.get_integer(0);
        self.log.borrow_mut().push(format!("TF I:{}", n));
        recorded();
        scope.return_integer(n)
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(!self.delay, "MONITOR: asynchronous callable executed synchronously");
        let n = scope.get_integer(0);
        self.log.borrow_mut().push(format!("TF I:{}", n));
        recorded();
        scope.return_integer(n)
    }
}

/// `TZB`, `TZI`, `TZD` and `TZS`: record the call and return a fixed value.
pub struct Tz {
    md: Rc<CallableMetadata>,
    ty: Ty,
    log: Log,
    delay: bool,
}

impl Tz {
    fn new(ty: Ty, log: Log, delay: bool) -> Rc<Self> {
        let rt = match ty {
            Ty::B => ExprType::Boolean,
            Ty::I => ExprType::Integer,
            Ty::D => ExprType::Double,
            Ty::S => ExprType::Text,
        };
        Rc::new(Self {
            md: CallableMetadataBuilder::new(tz_name(ty))
                .with_async(delay)
                .with_return_type(rt)
                .with_syntax(&[(&[], None)])
                .with_category("Test")
                .with_description("Test")
                .build(),
            ty,
            log,
            delay,
        })
    }

    fn run(&self, scope: Scope<'_>) -> CallResult<()> {
        let v = tz(self.ty);
        self.log.borrow_mut().push(format!("TZ {}", v.show()));
        recorded();
        match v {
            Val::B(b) => scope.return_boolean(b),
            Val::I(i) => scope.return_integer(i),
            Val::D(d) => scope.return_double(d),
            Val::S(s) => scope.return_string(s.to_string()),
        }
    }
}

#[async_trait(?Send)]
impl Callable for Tz {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    async fn async_exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(self.delay, "MONITOR: synchronous callable executed asynchronously");
        suspend().await;
        self.run(scope)
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        assert!(!self.delay, "MONITOR: asynchronous callable executed synchronously");
        self.run(scope)
    }
}

pub fn callables(log: &Log) -> Vec<Rc<dyn Callable>> {
    callables_mixed(log, 0)
}

/// Like `callables` but the bits of `mask` select those that are asynchronous.
pub fn callables_mixed(log: &Log, mask: u64) -> Vec<Rc<dyn Callable>> {
    vec![
        Tr::new("TR", log.clone(), false, mask & 1 != 0),
        Tr::new("TFAIL", log.clone(), true, mask & 2 != 0),
        Tf::new(log.clone(), mask & 4 != 0),
        Tr::new("OUT", log.clone(), false, mask & 8 != 0),
        Tz::new(Ty::B, log.clone(), mask & 16 != 0),
        Tz::new(Ty::I, log.clone(), mask & 32 != 0),
        Tz::new(Ty::D, log.clone(), mask & 64 != 0),
        Tz::new(Ty::S, log.clone(), mask & 128 != 0),
    ]
}

pub type Table = Rc<RefCell<Vec<crate::lang::Val>>>;

/// `VB(n)`, `VI(n)`, `VD(n)`, `VS(n)`: return the n-th value of a table.
pub struct Source {
    md: Rc<CallableMetadata>,
    table: Table,
}

impl Source {
    fn new(name: &'static str, ty: ExprType, table: Table) -> Rc<Self> {
        Rc::new(Self {
            md: CallableMetadataBuilder::new(name)
                .with_return_type(ty)
                .with_syntax(&[(
                    &[SingularArgSyntax::RequiredValue(
                        RequiredValueSyntax { name: Cow::Borrowed("n"), vtype: ExprType::Integer },
                        ArgSepSyntax::End,
                    )],
                    None,
                )])
                .with_category("Test")
                .with_description("Test")
                .build(),
            table,
        })
    }
}

#[async_trait(?Send)]
impl Callable for Source {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.md.clone()
    }
    fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
        let v = self.table.borrow()[scope.get_integer(0) as usize].clone();
        use crate::lang::Val;
        match v {
            Val::B(b) => scope.return_boolean(b),
            Val::I(i) => scope.return_integer(i),
            Val::D(d) => scope.return_double(d),
            Val::S(s) => scope.return_string(s.to_string()),
        }
    }
}

pub fn sources(table: &Table) -> Vec<Rc<dyn Callable>> {
    vec![
        Source::new("VB", ExprType::Boolean, table.clone()),
        Source::new("VI", ExprType::Integer, table.clone()),
        Source::new("VD", ExprType::Double, table.clone()),
        Source::new("VS", ExprType::Text, table.clone()),
    ]
}

/// Stand-in for a callable during compilation.
pub struct Stub(pub Rc<CallableMetadata>);

#[async_trait(?Send)]
impl Callable for Stub {
    fn metadata(&self) -> Rc<CallableMetadata> {
        self.0.clone()
    }
}
