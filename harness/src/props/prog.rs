//! Properties of the stored program and the interactive loop.

use super::files::{FAULTS, FaultyFactory, Plan};
use super::ui::{Ed, edit_hook, rand_edit_key, rand_text};
use crate::con::Ev;
use crate::lang::Val;
use crate::mach::{self, M, Opts, Out};
use crate::rng::Rng;
use crate::runner::*;
use crate::screen::*;
use crate::trace::{self, Log, Table};
use endbasic_repl::editor::Editor;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::Storage;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    futures_lite::future::block_on(f)
}

/// Programs used as contents of files.
const PROGRAMS: &[&str] = &[
    "",
    "TR 1\n",
    "TR 1\nTR 2",
    "keep = 7\nTR keep\n",
    "TR 1: END: TR 2\n",
    "TR 5\nEND 3\nTR 6\n",
    "END 0\n",
    "TR 1\nx = 1 / 0\nTR 2\n",
    "x = 5 \\ 0\n",
    "ON ERROR RESUME NEXT\nTFAIL 3\nTR 8\n",
    "PRINT \"unterminated\nTR 1\n",
    "FOR i = 1 TO 3\nTR i\nNEXT\n",
    "TR mark\n",
    "GOSUB @a\nEND 4\n@a: TR 9: RETURN\n",
    "CLEAR\nTR 1\n",
    "  TR \"é\"\n    TR \"indented\"\n",
    "DATA 1, 2\nREAD a: TR a\n",
    "FUNCTION f\nf = 3\nEND FUNCTION\nTR f\n",
    "IF 1 THEN\n",
    "DO\nLOOP\n",
];

const NAMES: &[&str] = &["a", "A", "a.bas", "b", "b.bas", "é", "F:a", "f:/b.bas", "F:C.TXT", "memory:a", "x.txt"];
const ODD_NAMES: &[&str] = &["", "nope:a", "a/b", "..", "F:", "/", "a:b:c", "G:x"];

const ANSWERS: &[(&str, bool)] = &[
    ("y", true),
    ("Y", true),
    ("yes", true),
    ("TRUE", true),
    ("n", false),
    ("N", false),
    ("", false),
    ("no", false),
    ("maybe", false),
    ("yy", false),
    (" y", false),
    ("1", false),
];

struct Rig {
    m: M,
    log: Log,
    table: Table,
    plan: Rc<RefCell<Plan>>,
    ed: Rc<RefCell<Editor>>,
}

fn rig(console: Option<Rc<RefCell<dyn endbasic_std::console::Console>>>, yield_limit: u64) -> Rig {
    let log = Log::default();
    let table = Table::default();
    let plan = Rc::new(RefCell::new(Plan::default()));
    let mut st = Storage::default();
    st.register_scheme("fault", Box::new(FaultyFactory(plan.clone())));
    st.mount("F", "fault://x").unwrap();
    let ed = Rc::new(RefCell::new(Editor::default()));
    let mut callables = trace::callables_mixed(&log, 5);
    callables.extend(trace::sources(&table));
    let m = mach::build(Opts {
        storage: Some(Rc::new(RefCell::new(st))),
        program: Some(ed.clone()),
        callables,
        console,
        yield_limit,
        ..Default::default()
    });
    Rig { m, log, table, plan, ed }
}

/// What running `text` on a fresh machine gives: outcome, trace and printed text.
fn fresh_run(text: &str) -> (Out, Vec<String>, String) {
    let mut r = rig(None, 1000);
    let out = r.m.run(text);
    let t = r.log.borrow().clone();
    let p = r.m.take_text();
    (out, t, p)
}

fn s06(c: &mut Case) -> R {
    let (w, h) = (80, 300);
    let screen = Screen::shared(w, h);
    screen.borrow_mut().interactive = c.rng.chance(3, 4);
    let mut g = rig(Some(screen.clone()), u64::MAX);
    let model = Rc::new(RefCell::new(Ed::default()));
    let ctx = Rc::new(RefCell::new(String::new()));
    let seen = Rc::new(RefCell::new(0));
    // Known value of the variable "mark"; None if it is not defined.
    let mut mark: Option<i32> = None;
    let storage = g.m.storage.clone();
    // Every file, except when read through the faulty drive while it has a fault armed.
    let all = |s: &Rc<RefCell<Storage>>| -> BTreeMap<String, Vec<u8>> {
        let s = s.borrow();
        let mut v = BTreeMap::new();
        for d in ["MEMORY", "F"] {
            for n in wait(s.enumerate(&format!("{}:", d))).unwrap().dirents().keys() {
                let p = format!("{}:/{}", d, n);
                v.insert(p.clone(), wait(s.get(&p)).unwrap());
            }
        }
        v
    };
    for _ in 0..4 + c.rng.below(14) {
        let pick_name = |r: &mut Rng| {
            if r.chance(1, 8) { r.pick(ODD_NAMES).to_string() } else { r.pick(NAMES).to_string() }
        };
        // Keys to answer any question.
        let (answer, yes) = if c.rng.chance(1, 12) {
            (None, false)
        } else {
            let a = *c.rng.pick(ANSWERS);
            (Some(a.0), a.1)
        };
        let bad: Rc<RefCell<Option<Viol>>> = Rc::default();
        let mut keys: VecDeque<Key> = VecDeque::new();
        match answer {
            Some(a) => {
                keys.extend(a.chars().map(Key::Char));
                keys.push_back(Key::NewLine);
            }
            None => keys.push_back(*c.rng.pick(&[Key::Interrupt, Key::EofOrDelete])),
        }
        let ekeys: VecDeque<Key> = if c.rng.chance(1, 3) {
            VecDeque::new()
        } else {
            let n = c.rng.few(12);
            (0..n).map(|_| rand_edit_key(&mut c.rng, true)).collect()
        };
        let asked = Rc::new(RefCell::new(0u64));
        {
            let asked = asked.clone();
            let ans: Hook = Box::new(move |_, _| {
                *asked.borrow_mut() += 1;
                Ok(keys.pop_front().unwrap_or(Key::Interrupt))
            });
            screen.borrow_mut().hook = Some(edit_hook(model.clone(), ekeys, bad.clone(), ctx.clone(), seen.clone(), Some(ans)));
        }
        screen.borrow_mut().text.clear();
        let before = all(&storage);
        let fault = c.rng.chance(1, 5);
        if fault {
            let mut p = g.plan.borrow_mut();
            p.countdown = Some(0);
            p.kind = Some(*c.rng.pick(&FAULTS));
        }
        let fired0 = g.plan.borrow().fired;
        let dirty = model.borrow().dirty;
        let mut want_files = before.clone();
        let mut want_out: Option<Out> = Some(Out::Eof);
        let want_trace: Vec<String>;
        let mut want_mark = mark;
        let mut asks = false;
        let mut want_text: Option<String> = None;
        // Operations that only apply if they succeed.
        let mut new_model: Option<Ed> = None;
        let op = c.rng.below(12);
        let got;
        let what;
        macro_rules! run {
            ($s:expr) => {{
                what = $s;
                ctx.borrow_mut().push_str(&what);
                ctx.borrow_mut().push(' ');
                set_input(&ctx.borrow());
                got = g.m.run(&format!("{}\n", what));
            }};
        }
        g.log.borrow_mut().clear();
        match op {
            0 | 1 => {
                // A new file.
                g.plan.borrow_mut().countdown = None;
                let n = c.rng.pick(NAMES).to_string();
                let t = match c.rng.below(8) {
                    0 => c.rng.pick(&BAD_TEXTS).to_vec(),
                    1 => rand_text(&mut c.rng, 20).into_bytes(),
                    _ => c.rng.pick(PROGRAMS).as_bytes().to_vec(),
                };
                let n = storage.borrow().make_canonical_with_extension(&n, "bas").unwrap();
                ctx.borrow_mut().push_str(&format!("file {} {:?}\n", n, String::from_utf8_lossy(&t)));
                wait(storage.borrow_mut().put(&n, &t)).unwrap();
                continue;
            }
            2 => {
                let n = c.rng.below(100) as i32;
                run!(format!("mark = {}", n));
                want_mark = Some(n);
                want_trace = vec![];
            }
            3 | 4 => {
                let n = pick_name(&mut c.rng);
                *g.table.borrow_mut() = vec![Val::S(n.as_str().into())];
                asks = dirty;
                ctx.borrow_mut().push_str(&format!("answer {:?} name {:?} ", answer, n));
                run!("LOAD VS(0)".to_owned());
                want_trace = vec![];
                if asks && !yes {
                    if answer.is_none() {
                        want_out = None;
                    }
                } else {
                    let full = storage.borrow().make_canonical_with_extension(&n, "bas");
                    let file = full.as_ref().ok().and_then(|f| before.get(&norm(f)).cloned());
                    match (full, file.and_then(|f| String::from_utf8(f).ok())) {
                        (Ok(full), Some(text)) => {
                            let mut e = Ed::default();
                            e.load(Some(&full), &text);
                            new_model = Some(e);
                            want_mark = None;
                        }
                        _ => want_out = None,
                    }
                }
            }
            5 | 6 => {
                let named = c.rng.bool();
                let n = if named {
                    let n = pick_name(&mut c.rng);
                    ctx.borrow_mut().push_str(&format!("name {:?} ", n));
                    *g.table.borrow_mut() = vec![Val::S(n.as_str().into())];
                    Some(n)
                } else {
                    model.borrow().name.clone()
                };
                run!(if named { "SAVE VS(0)".to_owned() } else { "SAVE".to_owned() });
                want_trace = vec![];
                let full = n.and_then(|n| storage.borrow().make_canonical_with_extension(&n, "bas").ok());
                match full {
                    Some(full) if storage.borrow().mounted().keys().any(|d| full.starts_with(&format!("{}:", d))) => {
                        let mut e = model.borrow().clone();
                        e.name = Some(full.clone());
                        e.dirty = false;
                        want_files.insert(norm(&full), e.text().into_bytes());
                        want_text = Some(format!("Saved as {}\n", full));
                        new_model = Some(e);
                    }
                    _ => want_out = None,
                }
            }
            7 => {
                asks = dirty;
                ctx.borrow_mut().push_str(&format!("answer {:?} ", answer));
                run!("NEW".to_owned());
                want_trace = vec![];
                if asks && !yes {
                    if answer.is_none() {
                        want_out = None;
                    }
                } else {
                    new_model = Some(Ed::default());
                    want_mark = None;
                }
            }
            8 => {
                run!("EDIT".to_owned());
                want_trace = vec![];
            }
            9 => {
                run!("LIST".to_owned());
                want_trace = vec![];
                let m = model.borrow();
                let mut t = String::new();
                for l in &m.lines {
                    t.extend(l.iter());
                    t.push('\n');
                }
                want_text = Some(t);
            }
            _ => {
                let text = model.borrow().text();
                let (o, t, p) = fresh_run(&text);
                if o == Out::Break {
                    g.plan.borrow_mut().countdown = None;
                    continue;
                }
                run!("RUN".to_owned());
                want_trace = t;
                want_mark = None;
                let mut p = p;
                want_out = Some(match o {
                    Out::End(n) => {
                        if n != 0 {
                            p.push_str(&format!("Program exited with code {}\n", n));
                        }
                        Out::Eof
                    }
                    o => o,
                });
                want_text = Some(p);
            }
        }
        ctx.borrow_mut().push('\n');
        if let Some(v) = bad.borrow_mut().take() {
            return Err(v);
        }
        let fired = g.plan.borrow().fired > fired0;
        g.plan.borrow_mut().countdown = None;
        let hist = ctx.borrow().clone();
        let got_trace: Vec<String> = g.log.borrow_mut().drain(..).collect();
        if fired {
            c.saw("drive faults", 1);
            match &got {
                Out::Runtime(e) if e.starts_with("1:1: ") => (),
                o => return Err(viol("fault not reported", format!("{}--- {:?}", hist, o))),
            }
            // Nothing has changed.
            want_files = before;
            want_mark = mark;
            new_model = None;
        } else {
            match (&want_out, &got) {
                (Some(o), got) if o == got => (),
                (None, Out::Runtime(e)) if e.starts_with("1:1: ") => c.saw("failures", 1),
                // Interruptions of questions are breaks if the console reports them as such.
                (None, Out::Break) if asks && answer.is_none() => (),
                (o, got) => return Err(viol("outcome", format!("{}--- oracle {:?}\n--- observed {:?}", hist, o, got))),
            }
            same("trace", &hist, &got_trace, &want_trace)?;
            if let Some(t) = want_text
                && want_out.is_some()
                && !(t.is_empty() && op == 8)
            {
                same("output", &hist, &screen.borrow().text, &t)?;
            }
            if (*asked.borrow() > 0) != asks {
                return Err(viol("question about unsaved changes", format!("{}--- asked {}, unsaved {}", hist, asked.borrow(), dirty)));
            }
            if asks {
                c.saw("questions", 1);
            }
        }
        if let Some(e) = new_model {
            *model.borrow_mut() = e;
        }
        mark = want_mark;
        c.saw("commands", 1);
        // The whole state.
        same("files", &hist, &all(&storage), &want_files)?;
        {
            let (e, m) = (g.ed.borrow(), model.borrow());
            same("program text", &hist, &e.text(), &m.text())?;
            same("unsaved changes", &hist, &e.is_dirty(), &m.dirty)?;
            same("program name", &hist, &e.name().map(str::to_owned), &m.name)?;
        }
        if op < 9 || op > 9 {
            let out = g.m.run("TR mark\n");
            let t: Vec<String> = g.log.borrow_mut().drain(..).collect();
            match (mark, &out) {
                (Some(n), Out::Eof) if t == vec![format!("I:{}", n)] => (),
                (None, Out::Compile(_)) => (),
                _ => return Err(viol("variables of the machine", format!("{}--- oracle {:?}\n--- observed {:?} {:?}", hist, mark, out, t))),
            }
        }
    }
    c.saw("screens compared", *seen.borrow());
    let hist = ctx.borrow().clone();
    c.distinct(&hist);
    c.sample(|| hist.clone());
    Ok(())
}

/// Canonical paths with a slash after the drive.
fn norm(p: &str) -> String {
    let (d, l) = p.split_once(':').unwrap();
    format!("{}:/{}", d, l.trim_start_matches('/'))
}

// R01 ------------------------------------------------------------------------------------------

const LINES: &[&str] = &[
    "a = 1",
    "a = a + 1",
    "PRINT a",
    "TR a",
    "b$ = \"x\"",
    "TR b$",
    "PRINT 3; 4, \"x\"",
    "x = 1 / 0",
    "TFAIL 1",
    "ON ERROR RESUME NEXT: TFAIL 2: TR 4",
    "ON ERROR RESUME NEXT",
    "TFAIL 9: TR 10",
    "(",
    "PRINT nope",
    "FOR i = 1 TO 3: TR i: NEXT",
    "",
    "  ",
    "REM nothing",
    "DIM v(3)",
    "v(1) = 4",
    "TR v(1)",
    "CLEAR",
    "GOTO @a",
    "DO: LOOP",
    "FOR i = 1 TO 2000: NEXT: TR i",
    "SAVE \"p\"",
    "LOAD \"one\"",
    "LOAD \"end\"",
    "LOAD \"missing\"",
    "NEW",
    "RUN",
    "LIST",
    "DATA 5, 6: READ z: TR z",
    "INPUT \"q\"; a",
    "SUB s: TR 77: END SUB",
    "s",
    "COLOR 5: a = 9",
    "\"text\"",
    "1",
];

fn prints(m: &M) -> Vec<String> {
    m.console
        .borrow()
        .log
        .iter()
        .filter_map(|e| match e {
            Ev::Print(s) => Some(s.clone()),
            _ => None,
        })
        .collect()
}

fn type_keys(out: &mut VecDeque<Key>, s: &str) {
    out.extend(s.chars().map(Key::Char));
    out.push_back(Key::NewLine);
}

fn setup(r: &mut Rig) {
    let s = r.m.storage.clone();
    wait(s.borrow_mut().put("one.bas", b"TR 1\nPRINT \"one\"\nkeep = 4\n")).unwrap();
    wait(s.borrow_mut().put("end.bas", b"TR 2\nEND 5\n")).unwrap();
}

fn r01(c: &mut Case) -> R {
    let interactive = c.rng.bool();
    let mut a = rig(None, 5_000);
    let mut b = rig(None, 5_000);
    for g in [&mut a, &mut b] {
        setup(g);
        g.m.console.borrow_mut().yields = Some(g.m.yields.clone());
        g.m.console.borrow_mut().interactive = interactive;
        // Tall enough to not need paging.
        g.m.console.borrow_mut().size = endbasic_std::console::CharsXY::new(80, 500);
    }
    let mut script = String::new();
    let mut want: Vec<String> = vec![];
    let mut keys: VecDeque<Key> = VecDeque::new();
    let mut history: Vec<String> = vec![];
    let mut code = 0;
    let mut ended = false;
    if c.rng.chance(1, 3) {
        let t = "TR 3\n";
        for g in [&a, &b] {
            g.ed.borrow_mut().load(None, t);
        }
    }
    // Unsaved changes, as if made by the editor.
    if c.rng.chance(1, 3) {
        script.push_str("(program edited)\n");
        for g in [&a, &b] {
            let s = Screen::shared(20, 5);
            let mut k: VecDeque<Key> = [Key::Char('\''), Key::Char('x'), Key::Escape].into();
            s.borrow_mut().hook = Some(Box::new(move |_, _| Ok(k.pop_front().unwrap())));
            wait(g.ed.borrow_mut().edit(&mut *s.borrow_mut())).unwrap();
        }
    }
    let ready = |want: &mut Vec<String>| {
        if interactive {
            want.push("Ready".to_owned());
        }
    };
    let n = 1 + c.rng.few(16);
    for _ in 0..n {
        if ended {
            break;
        }
        ready(&mut want);
        let mut line;
        match c.rng.below(12) {
            0 => {
                // Interrupted while typing.
                let t = *c.rng.pick(LINES);
                script.push_str(&format!("{}<Interrupt>\n", t));
                keys.extend(t.chars().map(Key::Char));
                keys.push_back(Key::Interrupt);
                want.push("**** BREAK ****".to_owned());
                c.saw("interrupted lines", 1);
                continue;
            }
            1 if interactive && !history.is_empty() => {
                let k = 1 + c.rng.below(history.len() + 2);
                for _ in 0..k {
                    keys.push_back(Key::ArrowUp);
                }
                keys.push_back(Key::NewLine);
                line = history[history.len() - k.min(history.len())].clone();
                script.push_str(&format!("<ArrowUp>*{} ", k));
                c.saw("recalled lines", 1);
            }
            2 if c.rng.chance(1, 2) => {
                line = format!("END {}", c.rng.pick(&["", "0", "1", "7", "127"]));
                type_keys(&mut keys, &line);
            }
            _ => {
                line = c.rng.pick(LINES).to_string();
                if c.rng.chance(1, 6) {
                    // Declarations skipped by errors are C02's known findings.
                    let next = c.rng.pick(LINES);
                    if !next.starts_with("DIM") && !next.starts_with("b$") {
                        line = format!("{}: {}", line, next);
                    }
                }
                type_keys(&mut keys, &line);
            }
        }
        script.push_str(&line);
        script.push('\n');
        if interactive {
            want.push(String::new());
        }
        if !line.is_empty() {
            history.push(line.clone());
        }
        // Input for questions and INPUT.
        let inputs: Vec<String> = (0..4).map(|_| c.rng.pick(&["y", "n", "5", "yes"]).to_string()).collect();
        let mut k: VecDeque<Key> = VecDeque::new();
        for i in &inputs {
            type_keys(&mut k, i);
        }
        k.push_back(Key::Interrupt);
        let total = k.len();
        b.m.console.borrow_mut().keys = k.clone();
        b.m.console.borrow_mut().log.clear();
        b.m.yields.set(0);
        let out = b.m.run(&line);
        want.extend(prints(&b.m));
        match out {
            Out::Eof => (),
            Out::End(n) => {
                let dirty = b.ed.borrow().is_dirty();
                let mut leave = true;
                if dirty {
                    let used = total - b.m.console.borrow().keys.len();
                    k.truncate(used);
                    let ans = c.rng.pick(ANSWERS);
                    type_keys(&mut k, ans.0);
                    want.push(match b.ed.borrow().name() {
                        Some(n) => format!("Current program {} has unsaved changes!", n),
                        None => "Current program has unsaved changes and has never been saved!".to_owned(),
                    });
                    if interactive {
                        want.push(String::new());
                    }
                    b.m.console.borrow_mut().keys.clear();
                    leave = ans.1;
                    if !leave {
                        want.push("Exit aborted; resuming REPL loop.".to_owned());
                    }
                    script.push_str(&format!("answer {:?}\n", ans.0));
                    c.saw("exit questions", 1);
                }
                if leave {
                    code = n;
                    ended = true;
                }
            }
            Out::Break => want.push("**** BREAK ****".to_owned()),
            Out::Compile(e) | Out::Runtime(e) => want.push(format!("ERROR: {}", e)),
            Out::Io(e) => want.push(format!("ERROR: {}", e)),
        }
        let used = k.len() - b.m.console.borrow().keys.len().min(k.len());
        keys.extend(k.into_iter().take(used));
        // Signals sent after the last check of the line have no effect in the next one.
        b.m.machine.drain_signals();
        c.saw("lines", 1);
    }
    if !ended {
        ready(&mut want);
        want.push("End of input by CTRL-D".to_owned());
        keys.push_back(Key::EofOrDelete);
    }
    c.input(script.clone());
    a.m.console.borrow_mut().keys = keys;
    a.m.yields.set(0);
    // The budget applies to each line.
    let console = a.m.console.clone();
    let program: Rc<RefCell<dyn Program>> = a.ed.clone();
    let res = wait(endbasic_repl::run_repl_loop(&mut a.m.machine, console, program));
    let got = prints(&a.m);
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(viol(
            "transcript",
            format!("{}--- line {}\n--- oracle {:?}\n--- observed {:?}\n--- oracle {:?}\n--- observed {:?}", script, k, want.get(k), got.get(k), want, got),
        ));
    }
    same("exit code", &script, &res.map_err(|e| e.to_string()), &Ok(code))?;
    same("trace", &script, &*a.log.borrow(), &*b.log.borrow())?;
    if !a.m.console.borrow().keys.is_empty() {
        return Err(viol("input left", format!("{}--- {:?}", script, a.m.console.borrow().keys)));
    }
    for v in ["a", "b$", "z", "keep", "v(1)", "i"] {
        a.log.borrow_mut().clear();
        b.log.borrow_mut().clear();
        let (x, y) = (a.m.run(&format!("TR {}\n", v)), b.m.run(&format!("TR {}\n", v)));
        same("variables", &script, &(x, a.log.borrow().clone()), &(y, b.log.borrow().clone()))?;
    }
    same("program", &script, &a.ed.borrow().text(), &b.ed.borrow().text())?;
    c.distinct(&want);
    c.sample(|| format!("{}=> {:?}", script, want));
    Ok(())
}

/// Files that are not valid UTF-8.
const BAD_TEXTS: [&[u8]; 7] = [
    b"'\xff\n",
    b"a\xff\n",
    b"TR 1\nTR \"caf\xc3",
    b"TR 1\n\xe2\x82",
    b"\x80TR 1\n",
    b"TR \"\xc0\xaf\"\n",
    b"TR \"\xed\xa0\x80\"\n",
];

/// AUTOEXEC.BAS and programs run from the cloud.
fn r01_boot(c: &mut Case) -> R {
    let mut g = rig(None, 2000);
    g.m.console.borrow_mut().interactive = c.rng.bool();
    let text = if c.rng.chance(1, 8) { rand_text(&mut c.rng, 20) } else { c.rng.pick(PROGRAMS).to_string() };
    let bytes = if c.rng.chance(1, 10) { c.rng.pick(&BAD_TEXTS).to_vec() } else { text.clone().into_bytes() };
    let utf8 = std::str::from_utf8(&bytes).is_ok();
    let exists = c.rng.chance(7, 8);
    let cloud = c.rng.bool();
    // The editor, from which programs of the cloud run, keeps lines and not their terminators.
    let lines: String = text.lines().map(|l| format!("{}\n", l)).collect();
    let (out, trace, printed) = fresh_run(if cloud { &lines } else { &text });
    let ctx = format!("{} exists {} cloud {}", String::from_utf8_lossy(&bytes), exists, cloud);
    c.input(ctx.clone());
    let console = g.m.console.clone();
    if !cloud {
        if exists {
            wait(g.m.storage.borrow_mut().put("AUTOEXEC.BAS", &bytes)).unwrap();
        }
        let storage = g.m.storage.clone();
        let fault = exists && c.rng.chance(1, 6);
        let plan = Rc::new(RefCell::new(Plan::default()));
        if fault {
            let mut st = storage.borrow_mut();
            st.register_scheme("faulty", Box::new(FaultyFactory(plan.clone())));
            st.mount("FAULTY", "faulty://x").unwrap();
            st.cd("FAULTY:/").unwrap();
            wait(st.put("AUTOEXEC.BAS", &bytes)).unwrap();
            let mut p = plan.borrow_mut();
            p.countdown = Some(0);
            p.kind = Some(*c.rng.pick(&FAULTS));
        }
        let res = wait(endbasic_repl::try_load_autoexec(&mut g.m.machine, console, storage));
        if let Err(e) = res {
            return Err(viol("start aborted by AUTOEXEC.BAS", format!("{}--- {}", ctx, e)));
        }
        let got = g.m.take_text();
        if fault {
            let kind = plan.borrow().kind;
            if plan.borrow().fired != 1 || !got.starts_with("AUTOEXEC.BAS ") || !got.contains("injected drive fault") {
                return Err(viol("unreadable AUTOEXEC.BAS not reported", format!("{}--- {:?} {:?}", ctx, kind, got)));
            }
            same("trace", &ctx, &g.log.borrow().len(), &0)?;
            c.saw("unreadable autoexecs", 1);
        } else
        if exists && !utf8 {
            if !got.starts_with("AUTOEXEC.BAS failed: ") {
                return Err(viol("invalid AUTOEXEC.BAS not reported", format!("{}--- {:?}", ctx, got)));
            }
        } else if exists {
            same("trace", &ctx, &*g.log.borrow(), &trace)?;
            let want = match out {
                Out::Compile(e) | Out::Runtime(e) | Out::Io(e) => format!("{}AUTOEXEC.BAS failed: {}\n", printed, e),
                Out::Break => {
                    if !got.contains("AUTOEXEC.BAS failed: ") {
                        return Err(viol("interrupted AUTOEXEC.BAS not reported", format!("{}--- {:?}", ctx, got)));
                    }
                    got.clone()
                }
                _ => printed,
            };
            same("output", &ctx, &got, &want)?;
        } else {
            same("output", &ctx, &got, &String::new())?;
        }
        g.m.machine.drain_signals();
        g.log.borrow_mut().clear();
        same("machine after start", &ctx, &g.m.run("TR 42\n"), &Out::Eof)?;
        same("machine after start", &ctx, &g.log.borrow().len(), &1)?;
        c.saw("autoexecs", 1);
    } else {
        let plan = Rc::new(RefCell::new(Plan::default()));
        g.m.storage.borrow_mut().register_scheme("cloud", Box::new(FaultyFactory(plan.clone())));
        // Create the remote files first.
        struct Pre(Rc<RefCell<Plan>>, Vec<u8>, bool);
        impl endbasic_std::storage::DriveFactory for Pre {
            fn create(&self, t: &str) -> std::io::Result<Box<dyn endbasic_std::storage::Drive>> {
                let mut d = FaultyFactory(self.0.clone()).create(t)?;
                if self.2 {
                    wait(d.put("p.bas", &self.1))?;
                }
                if t != "user" {
                    return Err(std::io::Error::other(format!("unexpected user {}", t)));
                }
                Ok(d)
            }
        }
        let mut st = Storage::default();
        st.register_scheme("cloud", Box::new(Pre(plan, bytes.clone(), exists)));
        let storage = Rc::new(RefCell::new(st));
        let path = *c.rng.pick(&["user/p.bas", "user/p.bas", "user/p.bas", "nouser", "other/p.bas"]);
        let repl = c.rng.bool();
        let program: Rc<RefCell<dyn Program>> = g.ed.clone();
        let res = wait(endbasic_repl::run_from_cloud(&mut g.m.machine, console, storage.clone(), program, path, repl));
        let got = g.m.take_text();
        let ctx = format!("{} path {} repl {}\n--- output {:?}", ctx, path, repl, got);
        if path == "nouser" {
            same("result", &ctx, &res.ok(), &Some(1))?;
        } else if path == "other/p.bas" || !exists {
            if let Ok(n) = res {
                return Err(viol("missing program", format!("{}--- {}", ctx, n)));
            }
        } else if !utf8 {
            same("result", &ctx, &res.ok(), &Some(1))?;
        } else {
            same("trace", &ctx, &*g.log.borrow(), &trace)?;
            // Exits of stored programs are not reported as such.
            let (want, msg) = match &out {
                Out::Eof | Out::End(_) => (0, "**** Program exited due to EOF ****".to_owned()),
                Out::Break => (130, "**** Program stopped due to BREAK ****".to_owned()),
                Out::Compile(e) | Out::Runtime(e) | Out::Io(e) => (1, format!("**** ERROR: {} ****", e)),
            };
            same("result", &ctx, &res.map_err(|e| e.to_string()), &Ok(want))?;
            if !got.contains(&format!("{}\n{}\n", printed, msg)) {
                return Err(viol("final message", format!("{}--- oracle {:?}", ctx, msg)));
            }
            same("loaded program", &ctx, &g.ed.borrow().text(), &{
                let mut e = Ed::default();
                e.load(None, &text);
                e.text()
            })?;
            same("current drive", &ctx, &storage.borrow().cwd(), &"AUTORUN:/".to_owned())?;
        }
        c.saw("cloud runs", 1);
    }
    c.distinct(&ctx);
    Ok(())
}

/// The welcome message, on any console.
fn r01_welcome(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut v = crate::con::VConsole::default();
    v.size = endbasic_std::console::CharsXY::new(*r.pick(&[1, 20, 49, 50, 51, 80, 200]), *r.pick(&[1, 4, 5, 24]));
    let g = (r.range(1, 40) as u16, r.range(1, 80) as u16);
    let graphics = r.bool();
    let partial = !graphics && r.chance(1, 3);
    if graphics || partial {
        v.glyph = Some(g);
    }
    if graphics {
        v.pixels = Some((g.0 * 200, g.1 * 24));
    }
    v.fg = *r.pick(&[None, Some(0), Some(10), Some(255)]);
    v.bg = *r.pick(&[None, Some(0), Some(4), Some(255)]);
    v.sync = r.bool();
    v.interactive = r.bool();
    let fails = r.chance(1, 6);
    if fails {
        v.fail_after = Some(r.below(40) as u64);
    }
    let (fg, bg, sync, narrow) = (v.fg, v.bg, v.sync, v.size.x < 50);
    let ctx = format!("size {:?} glyph {:?} graphics {} colors {:?} {:?} sync {} fails {:?}", v.size, g, graphics, fg, bg, sync, v.fail_after);
    c.input(ctx.clone());
    let res = endbasic_repl::print_welcome(&mut v);
    let show = |s: &str| viol(s, format!("{}\n--- {:?} {:?} {:?} {} {:?}", ctx, res, v.fg, v.bg, v.sync, v.log));
    let full = res.is_ok();
    if !full && !fails {
        return Err(show("welcome failed"));
    }
    if full && v.sync != sync {
        return Err(show("sync after the welcome"));
    }
    if full && (v.fg, v.bg) != (fg, bg) {
        return Err(show("colors after the welcome"));
    }
    let mut drawn = 0;
    let logo = (g.0 as i32 * 4, g.0 as i32 * 8, g.1 as i32 / 2, g.1 as i32 * 7 / 2);
    let mut lines = vec![];
    let mut color = (fg, bg);
    for e in &v.log {
        match e {
            Ev::Print(s) => {
                if color != (fg, bg) {
                    return Err(show("text in other colors"));
                }
                lines.push(s.clone());
            }
            Ev::Color(f, b) => color = (*f, *b),
            Ev::Gfx(op) => {
                drawn += 1;
                let n: Vec<i32> = op.split(|c: char| c != '-' && !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect();
                let inside = n.chunks(2).all(|p| p.len() == 2 && logo.0 <= p[0] && p[0] <= logo.1 && logo.2 <= p[1] && p[1] <= logo.3);
                if !inside {
                    return Err(show("logo out of its place"));
                }
            }
            Ev::SetSync(_) => (),
            _ => return Err(show("unexpected operation")),
        }
    }
    if full {
        if (drawn > 0) != (graphics && !narrow) {
            return Err(show("logo"));
        }
        let joined = lines.join("\n");
        let ok = if narrow {
            lines.len() == 2 && joined.starts_with("EndBASIC ")
        } else {
            lines.len() == 6 && joined.contains("EndBASIC ") && joined.contains("Copyright") && joined.contains("Type HELP for interactive usage")
        };
        if !ok || !lines.last().is_some_and(|l| l.is_empty()) || lines.iter().any(|l| l.chars().count() >= 50) {
            return Err(show("text of the welcome"));
        }
        // Nothing of the text is under the logo.
        if drawn > 0 && lines[..4].iter().any(|l| l.chars().take(9).any(|ch| ch != ' ')) {
            return Err(show("text under the logo"));
        }
    }
    c.saw("welcomes", 1);
    c.distinct(&ctx);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S06",
            level: "exploration",
            rule: "Random histories of LOAD, SAVE, NEW, EDIT, LIST and RUN, with any answer to questions and faults in drives; after each command, the program, its name and modification mark, all files and the variables of the machine are compared with a model; distinct = different histories",
            assumptions: &["the canonical form of paths is right (S04)", "the outcome of a program on a fresh machine is right (C01 to C04)"],
            require: &[("commands", 1000), ("drive faults", 100), ("questions", 100), ("failures", 100), ("screens compared", 1000)],
            stages: vec![Stage { name: "histories", quick: 40_000, thorough: 400_000, f: s06 }],
            probes: vec![],
        },
        Prop {
            id: "R01",
            level: "exploration",
            rule: "Random sessions of the interactive loop, with valid, failing, interrupted and recalled lines and exits, compared with a machine driven line by line; AUTOEXEC.BAS and programs run from the cloud; distinct = different transcripts",
            assumptions: &["machines driven line by line behave (C05, S06)"],
            require: &[("lines", 1000), ("interrupted lines", 100), ("recalled lines", 100), ("exit questions", 50), ("autoexecs", 100), ("unreadable autoexecs", 50), ("cloud runs", 100), ("welcomes", 1000)],
            stages: vec![
                Stage { name: "sessions", quick: 60_000, thorough: 300_000, f: r01 },
                Stage { name: "boot", quick: 15_000, thorough: 60_000, f: r01_boot },
                Stage { name: "welcome", quick: 20_000, thorough: 200_000, f: r01_welcome },
            ],
            probes: vec![],
        },
    ]
}
