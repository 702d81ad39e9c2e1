//! Properties of machines as a whole: interruptions.

use crate::gen_::*;
use crate::lang::*;
use crate::mach::{self, M, Opts, Out};
use crate::rng::Rng;
use crate::runner::*;
use crate::trace::{self, Log};

// C08 -----------------------------------------------------------------------------------------

/// When to interrupt a program.
#[derive(Clone, Copy, Debug)]
enum At {
    /// Before it starts.
    Start,
    /// At a yield to the host.
    Yield(u64),
    /// From within a callable.
    Record(u64),
}

/// Runs `src` with an interruption and checks that it had effect; returns the records.
///
/// `endless` tells if the program cannot end on its own.
fn interrupted(c: &mut Case, src: &str, at: At, mask: u64, endless: bool) -> Result<(M, Log, Vec<String>, Out), Viol> {
    let log = Log::default();
    let limit = match at {
        At::Yield(n) => n,
        _ => u64::MAX,
    };
    let mut m = mach::build(Opts {
        callables: trace::callables_mixed(&log, mask),
        interactive: false,
        yield_limit: limit,
        ..Default::default()
    });
    match at {
        At::Start => {
            let _ = m.tx.try_send(endbasic_std::Signal::Break);
        }
        At::Yield(_) => (),
        At::Record(n) => {
            let tx = m.tx.clone();
            trace::on_record(n, Box::new(move || {
                let _ = tx.try_send(endbasic_std::Signal::Break);
            }));
        }
    }
    c.input(format!("{}\n{:?} mask {}", src, at, mask));
    let out = m.run(src);
    let pending = trace::forget_record();
    let yields = m.yields.get();
    let records: Vec<String> = log.borrow().clone();
    let show = |s: &str| {
        let n = records.len();
        viol(
            s,
            format!(
                "{}\n{:?}, mask {}, yields {}, {} records, last {:?}\n{:?}",
                src,
                at,
                mask,
                yields,
                n,
                &records[n.saturating_sub(5)..],
                out
            ),
        )
    };
    if endless && out != Out::Break && matches!(at, At::Start | At::Yield(_)) {
        return Err(show("interruption ignored"));
    }
    if endless && out != Out::Break && !pending {
        return Err(show("interruption ignored"));
    }
    // Straight code may run until the next jump: at most once each of the calls in the text.
    let calls = ["TR", "TF", "TZ", "OUT"].iter().map(|k| src.matches(k).count()).sum::<usize>();
    let after = match at {
        At::Start => Some(records.len()),
        At::Record(n) if !pending => Some(records.len() - n as usize),
        _ => None,
    };
    if let Some(n) = after {
        c.saw("records after the interruption", n as u64);
        if n > 2 * calls {
            return Err(show("interruption had effect too late"));
        }
    }
    if let At::Yield(n) = at
        && (yields > n || (yields == n && out != Out::Break))
    {
        return Err(show("execution went on after an interruption"));
    }
    if out == Out::Break {
        c.saw("interruptions", 1);
        match at {
            At::Yield(n) if yields < n => return Err(show("interrupted without cause")),
            At::Record(_) if pending => return Err(show("interrupted without cause")),
            _ => (),
        }
    }
    // The machine is as good as before.
    m.machine.drain_signals();
    log.borrow_mut().clear();
    let probe = "zq% = 5: TR zq%: WHILE zq% > 0: zq% = zq% - 1: WEND: TR zq%, TF(3)";
    let out2 = if limit == u64::MAX { m.run(probe) } else { Out::Eof };
    let t = log.borrow().clone();
    if limit == u64::MAX && (out2 != Out::Eof || t != ["I:5", "TF I:3", "I:0 I:3"]) {
        return Err(viol(
            "the machine does not work after an interruption",
            format!("{}\n{:?} mask {}\n{:?}\nthen {}\n{:?} {:?}", src, at, mask, out, probe, out2, t),
        ));
    }
    log.borrow_mut().clear();
    Ok((m, log, records, out))
}

/// Writes a program that never ends.
struct Loops<'a> {
    r: &'a mut Rng,
    out: String,
    funs: String,
    labels: usize,
    vars: usize,
    in_fun: bool,
}

impl Loops<'_> {
    fn line(&mut self, s: &str) {
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn label(&mut self) -> String {
        self.labels += 1;
        format!("l{}", self.labels)
    }
    fn var(&mut self) -> String {
        self.vars += 1;
        format!("v{}%", self.vars)
    }
    /// Statements that end.
    fn fill(&mut self, depth: usize) {
        let n = self.r.few(3);
        for _ in 0..n {
            match self.r.below(11) {
                0 | 1 => self.line("n% = n% + 1: TR n%"),
                2 => self.line("TR 0"),
                3 => self.line("OUT 7"),
                4 => self.line("IF n% < 0 THEN TR 9 ELSE n% = n% + 1: TR n%"),
                5 => self.line("SELECT CASE n% MOD 3: CASE 0: n% = n% + 1: TR n%: CASE ELSE: n% = n% + 1: END SELECT"),
                6 if depth > 0 => {
                    let v = self.var();
                    let top = 1 + self.r.below(3);
                    self.line(&format!("FOR {} = 1 TO {}", v, top));
                    self.fill(depth - 1);
                    self.line("NEXT");
                }
                7 => self.line("k$ = INKEY"),
                8 => self.line("SLEEP 0"),
                9 => self.line("IF TF(1) = 2 THEN TR 8"),
                _ => self.line("' Nothing here."),
            }
        }
    }
    /// Statements that never end.
    fn endless(&mut self, depth: usize) {
        let k = self.r.below(if self.in_fun { 9 } else { 16 });
        match k {
            0 => {
                self.line("DO");
                self.inner(depth);
                self.line("LOOP");
            }
            1 => {
                self.line("WHILE TRUE");
                self.inner(depth);
                self.line("WEND");
            }
            2 => {
                self.line("DO WHILE n% >= 0");
                self.inner(depth);
                self.line("LOOP");
            }
            3 => {
                self.line("DO");
                self.inner(depth);
                self.line("LOOP UNTIL FALSE");
            }
            4 => {
                self.line("DO UNTIL n% < 0");
                self.inner(depth);
                self.line("LOOP");
            }
            5 => {
                let v = self.var();
                self.line(&format!("FOR {} = 1 TO 2147483646", v));
                self.inner(depth);
                self.line("NEXT");
            }
            6 => {
                let v = self.var();
                self.line(&format!("FOR {} = 2147483646 TO 1 STEP -1", v));
                self.inner(depth);
                self.line("NEXT");
            }
            7 => {
                self.line("DO");
                self.fill(depth);
                self.line("IF n% < 0 THEN EXIT DO");
                self.line("LOOP WHILE n% <> -1");
            }
            8 => {
                self.line("IF n% >= 0 THEN");
                self.line("DO");
                self.inner(depth);
                self.line("LOOP");
                self.line("ELSE: TR 4: END IF");
            }
            9 => {
                let l = self.label();
                self.line(&format!("@{}", l));
                self.inner(depth);
                self.line(&format!("GOTO @{}", l));
            }
            10 => {
                let (l, s, o) = (self.label(), self.label(), self.label());
                self.line(&format!("GOTO @{}", o));
                self.line(&format!("@{}", s));
                self.fill(depth);
                self.line("RETURN");
                self.line(&format!("@{}", o));
                self.line(&format!("@{}", l));
                self.line(&format!("GOSUB @{}", s));
                self.line(&format!("GOTO @{}", l));
            }
            11 => {
                let l = self.label();
                self.line(&format!("@{}", l));
                self.fill(depth);
                self.line(&format!("IF n% >= 0 THEN GOTO @{}", l));
                self.line("TR 99");
            }
            12 => {
                // Only errors make it go around.
                let h = self.label();
                self.line(&format!("ON ERROR GOTO @{}", h));
                self.line("n% = n% MOD (n% - n%)");
                self.line(&format!("@{}", h));
                self.fill(depth);
                self.line(&format!("ON ERROR GOTO @{}", h));
                self.line("n% = n% MOD (n% - n%)");
                self.line("TR 98");
            }
            13 => {
                self.line("ON ERROR RESUME NEXT");
                self.line("DO");
                self.fill(depth);
                self.line("n% = n% MOD (n% - n%)");
                self.line("TFAIL 1");
                self.line("LOOP");
            }
            14 => {
                // Calls that take forever without any loops.
                let f = format!("fx{}", self.vars);
                self.vars += 1;
                if self.r.bool() {
                    self.funs.push_str(&format!(
                        "FUNCTION {f}%(d%)\nIF d% > 0 THEN {f}% = {f}%(d% - 1) + {f}%(d% - 1)\nEND FUNCTION\n"
                    ));
                    self.line(&format!("n% = {}%(90)", f));
                } else {
                    self.funs.push_str(&format!("SUB {f}(d%)\nIF d% > 0 THEN\n{f} d% - 1\n{f} d% - 1\nEND IF\nEND SUB\n"));
                    self.line(&format!("{} 90", f));
                }
            }
            _ => {
                // A loop within a function.
                let f = format!("fe{}", self.vars);
                self.vars += 1;
                let out = std::mem::take(&mut self.out);
                self.in_fun = true;
                self.line(&format!("FUNCTION {}%", f));
                self.line("DIM n AS INTEGER");
                self.endless(depth.saturating_sub(1));
                self.line("END FUNCTION");
                self.in_fun = false;
                let f_text = std::mem::replace(&mut self.out, out);
                self.funs.push_str(&f_text);
                match self.r.below(3) {
                    0 => self.line(&format!("TR {}%", f)),
                    1 => self.line(&format!("IF {}% > 0 THEN TR 6", f)),
                    _ => self.line(&format!("n% = 1 + {}%", f)),
                }
            }
        }
    }
    /// Body of a loop that never ends, which may have other loops.
    fn inner(&mut self, depth: usize) {
        self.fill(depth);
        if depth > 0 && self.r.chance(1, 3) {
            self.endless(depth - 1);
        }
    }
}

fn c08_loops(c: &mut Case) -> R {
    let at = match c.rng.below(5) {
        0 => At::Start,
        1 | 2 => At::Yield(1 + c.rng.below(30) as u64),
        _ => At::Record(1 + c.rng.below(20) as u64),
    };
    let depth = c.rng.below(3);
    let mut g = Loops { r: &mut c.rng, out: String::new(), funs: String::new(), labels: 0, vars: 0, in_fun: false };
    g.fill(1);
    g.endless(depth);
    let src = format!("n% = 0\n{}{}", g.funs, g.out);
    let mask = c.rng.below(256) as u64;
    // A program without records would never be interrupted by one.
    let at = match at {
        At::Record(_) => {
            let (_, _, records, _) = interrupted(c, &src, At::Yield(60), mask, true)?;
            match records.len() {
                0 => At::Start,
                n => At::Record(1 + c.rng.below(n.min(20)) as u64),
            }
        }
        at => at,
    };
    let (mut m, log, records, _) = interrupted(c, &src, at, mask, true)?;
    c.distinct(&(src.clone(), format!("{:?}", at)));
    c.sample(|| format!("{}\n{:?} -> {} records", src, at, records.len()));
    // Effects up to the interruption remain: the counter has the last value recorded or later.
    let in_fun = src.contains("DIM n AS INTEGER");
    let counts: Vec<i32> = records.iter().filter_map(|r| r.strip_prefix("I:")?.parse().ok()).collect();
    if !in_fun && !src.contains("fx") && !matches!(at, At::Yield(_)) {
        m.machine.drain_signals();
        let out = m.run("TR n%");
        let t = log.borrow().clone();
        let n: Option<i32> = t.first().and_then(|t| t.strip_prefix("I:")?.parse().ok());
        if out != Out::Eof || n.is_none() {
            return Err(viol("variables lost by an interruption", format!("{}\n{:?}\n{:?} {:?}", src, at, out, t)));
        }
        // Records of the counter are the only ones above 10.
        if let Some(top) = counts.iter().filter(|v| **v > 10 && **v < 98).max()
            && n.unwrap() < *top
        {
            return Err(viol("values lost by an interruption", format!("{}\n{:?}\n{:?} {}", src, at, n, top)));
        }
        c.saw("states checked", 1);
    }
    Ok(())
}

/// Interrupts generated programs and checks that what they did is a prefix of what they do.
fn c08_points(c: &mut Case) -> R {
    let cfg = Cfg {
        stmts: 8,
        depth: 2,
        expr_depth: 2,
        wild: 4,
        funs: c.rng.below(3),
        labels: c.rng.below(4),
        gosubs: c.rng.below(3),
        err: *c.rng.pick(&[ErrMode::None, ErrMode::Resume, ErrMode::Goto]),
        ..Cfg::small()
    };
    let p = Gen::new(&mut c.rng, cfg).program();
    let style = Style { seed: c.rng.next(), noise: 0 };
    let (src, pos) = Render::new(&p, style).render();
    let mut it = Interp::new(&p, &pos, 20_000);
    let want = it.run();
    if want == Outcome::Budget {
        c.saw("oracle budget exceeded", 1);
        return Ok(());
    }
    let at = match c.rng.below(4) {
        0 => At::Start,
        1 => At::Yield(1 + c.rng.below(12) as u64),
        _ if it.trace.is_empty() => At::Start,
        _ => At::Record(1 + c.rng.below(it.trace.len()) as u64),
    };
    let mask = c.rng.below(256) as u64;
    let (_, _, records, out) = interrupted(c, &src, at, mask, false)?;
    let show = |s: &str| {
        viol(s, format!("{}\n{:?} mask {}\n--- oracle {:?}\n{:?}\n--- observed {:?}\n{:?}", src, at, mask, want, it.trace, out, records))
    };
    if out == Out::Break {
        let n = records.len().min(it.trace.len());
        if records[..n] != it.trace[..n] || records.len() > n {
            return Err(show("records are not a prefix of the uninterrupted ones"));
        }
        c.saw("prefixes checked", 1);
    } else {
        if records != it.trace {
            return Err(show("records changed by an interruption that came too late"));
        }
        if out != super::core::to_out(&want) {
            return Err(show("outcome changed by an interruption that came too late"));
        }
        c.saw("runs completed", 1);
    }
    c.distinct(&(records, format!("{:?}", at)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        level: "exploration",
        rule: "Random endless programs and random generated programs interrupted at random points; distinct = different programs and points",
        assumptions: &["Interruptions arrive through the signals channel, as all the front ends send them"],
        require: &[("interruptions", 5000), ("states checked", 500), ("prefixes checked", 1000)],
        stages: vec![
            Stage { name: "loops", quick: 80000, thorough: 300000, f: c08_loops },
            Stage { name: "points", quick: 60000, thorough: 300000, f: c08_points },
        ],
        probes: vec![],
    }]
}
