//! Builders for machines under observation.

use crate::con::VConsole;
use async_trait::async_trait;
use endbasic_std::datetime::DateTime;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use endbasic_std::{Error, Machine, MachineBuilder, Signal, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;

/// Virtual clock: sleeping advances time immediately.
#[derive(Default)]
pub struct VTime {
    pub now: Cell<Duration>,
    pub sleeps: RefCell<Vec<Duration>>,
}

#[async_trait(?Send)]
impl DateTime for VTime {
    fn monotonic(&self) -> Duration {
        self.now.get()
    }
    async fn sleep(&self, d: Duration) -> Result<(), String> {
        self.sleeps.borrow_mut().push(d);
        self.now.set(self.now.get().saturating_add(d));
        Ok(())
    }
}

/// Counts yields and sends a break after a budget, so that logical steps bound executions.
pub struct CountingYielder {
    pub count: Rc<Cell<u64>>,
    pub limit: u64,
    pub tx: async_channel::Sender<Signal>,
}

#[async_trait(?Send)]
impl Yielder for CountingYielder {
    async fn yield_now(&mut self) {
        self.count.set(self.count.get() + 1);
        if self.count.get().is_multiple_of(self.limit) {
            let _ = self.tx.send(Signal::Break).await;
        }
    }
}

pub struct M {
    pub machine: Machine,
    pub console: Rc<RefCell<VConsole>>,
    pub storage: Rc<RefCell<Storage>>,
    pub time: Rc<VTime>,
    pub yields: Rc<Cell<u64>>,
    pub tx: async_channel::Sender<Signal>,
    pub md: Metadata,
}

/// Metadata of all the callables of the machine.
pub type Metadata = Rc<RefCell<HashMap<endbasic_core::SymbolKey, Rc<endbasic_core::CallableMetadata>>>>;

pub struct Opts {
    pub program: Option<Rc<RefCell<dyn Program>>>,
    pub pins: Option<Rc<RefCell<dyn endbasic_std::gpio::Pins>>>,
    pub yield_limit: u64,
    pub interactive: bool,
    pub globals: Vec<endbasic_core::GlobalDef>,
    pub storage: Option<Rc<RefCell<Storage>>>,
    pub callables: Vec<Rc<dyn endbasic_core::Callable>>,
    /// Replacement for the recording console.
    pub console: Option<Rc<RefCell<dyn endbasic_std::console::Console>>>,
    /// Adds more callables to the machine.
    #[allow(clippy::type_complexity)]
    pub setup: Option<
        Box<
            dyn FnOnce(
                &mut MachineBuilder,
                Rc<RefCell<dyn endbasic_std::console::Console>>,
                Rc<RefCell<Storage>>,
            ),
        >,
    >,
}

impl Default for Opts {
    fn default() -> Self {
        Self {
            program: None,
            pins: None,
            yield_limit: 100_000,
            interactive: true,
            globals: vec![],
            storage: None,
            callables: vec![],
            console: None,
            setup: None,
        }
    }
}

pub fn build(o: Opts) -> M {
    let (tx, rx) = async_channel::unbounded();
    let console = VConsole::shared();
    console.borrow_mut().tx = Some(tx.clone());
    let time = Rc::new(VTime::default());
    let yields = Rc::new(Cell::new(0));
    let yielder = CountingYielder { count: yields.clone(), limit: o.yield_limit, tx: tx.clone() };
    let storage = o.storage.unwrap_or_else(|| Rc::new(RefCell::new(Storage::default())));
    let used = o.console.unwrap_or_else(|| console.clone());
    let mut b = MachineBuilder::default()
        .with_console(used.clone())
        .with_datetime(time.clone())
        .with_globals(o.globals)
        .with_yielder(Rc::new(RefCell::new(yielder)))
        .with_signals_chan((tx.clone(), rx));
    if let Some(p) = o.pins {
        b = b.with_gpio_pins(p);
    }
    for c in o.callables {
        b.add_callable(c);
    }
    if let Some(f) = o.setup {
        f(&mut b, used, storage.clone());
    }
    let md = b.callables_metadata();
    let machine = if o.interactive {
        let mut ib = b.make_interactive().with_storage(storage.clone());
        if let Some(p) = o.program {
            ib = ib.with_program(p);
        }
        ib.build()
    } else {
        b.build()
    };
    M { machine, console, storage, time, yields, tx, md }
}

/// Outcome of running a script, as visible to the host.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Compile(String),
    Runtime(String),
    Break,
    Io(String),
    Eof,
    End(i32),
}

pub fn out_of(r: Result<Option<i32>, Error>) -> Out {
    match r {
        Ok(None) => Out::Eof,
        Ok(Some(c)) => Out::End(c),
        Err(Error::CompilerError(e)) => Out::Compile(e.to_string()),
        Err(Error::RuntimeError(p, m)) => Out::Runtime(format!("{}: {}", p, m)),
        Err(Error::Break) => Out::Break,
        Err(e) => Out::Io(e.to_string()),
    }
}

impl M {
    pub fn run(&mut self, src: &str) -> Out {
        self.run_bytes(src.as_bytes())
    }

    pub fn run_bytes(&mut self, src: &[u8]) -> Out {
        let mut s = src;
        if let Err(e) = self.machine.compile(&mut s) {
            return out_of(Err(e));
        }
        out_of(futures_lite::future::block_on(self.machine.exec()))
    }

    pub fn take_text(&mut self) -> String {
        let t = self.console.borrow().text();
        self.console.borrow_mut().log.clear();
        t
    }
}
