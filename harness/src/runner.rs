//! Supervisor: shards the cases of a property over processes, watches for crashes, hangs and
//! monitor violations, and writes the evidence of what the monitors observed.

use crate::rng::{Rng, hash_str, mix};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
}

pub type R = Result<(), Viol>;

pub fn viol<S: Into<String>, D: Into<String>>(sig: S, detail: D) -> Viol {
    Viol { sig: sig.into(), detail: detail.into() }
}

/// Compares what was observed with what the oracle says.
pub fn same<T: PartialEq + std::fmt::Debug>(sig: &str, input: &str, got: &T, want: &T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(viol(sig, format!("{}\n--- oracle\n{:?}\n--- observed\n{:?}", input, want, got)))
    }
}

#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub obs: &'a mut Obs,
}

thread_local! {
    static INPUT: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn set_input(s: &str) {
    INPUT.with(|i| s.clone_into(&mut i.borrow_mut()));
}

impl Case<'_> {
    /// Records the input of the case so that it can be shown if the case panics.
    pub fn input<S: Into<String>>(&mut self, s: S) {
        let s = s.into();
        // So that the input of a case that hangs or dies is on record too.
        if let Some(p) = std::env::var_os("VH_INPUT") {
            let _ = fs::write(p, &s);
        }
        INPUT.with(|i| *i.borrow_mut() = s);
    }
    /// Counts monitored events.
    pub fn saw(&mut self, kind: &str, n: u64) {
        match self.obs.counts.get_mut(kind) {
            Some(c) => *c += n,
            None => {
                self.obs.counts.insert(kind.to_owned(), n);
            }
        }
    }
    /// Records a distinct observation (a hash of the observed trace).
    pub fn distinct<T: std::fmt::Debug>(&mut self, t: &T) {
        self.obs.distinct.insert(hash_str(&format!("{:?}", t)));
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.obs.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.obs.samples.push(s);
        }
    }
}

#[derive(Clone)]
pub struct Stage {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
}

/// A specific input with a known correct outcome, used to keep track of known findings.
pub struct Probe {
    pub name: &'static str,
    pub want: &'static str,
    pub f: fn() -> String,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub require: &'static [(&'static str, u64)],
    pub stages: Vec<Stage>,
    pub probes: Vec<Probe>,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("panic at {}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        let on_case_thread = std::thread::current().name() == Some("case");
        if on_case_thread {
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some((loc, msg));
                }
            });
        } else {
            eprintln!("panic in background thread at {}: {}", loc, msg);
        }
    }));
}

fn strip_digits(s: &str) -> String {
    let mut o = String::new();
    let mut last = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !last {
                o.push('#');
            }
            last = true;
        } else {
            o.push(c);
            last = false;
        }
    }
    o
}

/// Runs `f`, transforming panics within the code under observation into violations.
pub fn guard<F: FnOnce() -> R>(f: F) -> R {
    PANIC.with(|p| *p.borrow_mut() = None);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) =
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or((String::new(), "?".to_owned()));
            let input = INPUT.with(|i| i.borrow().clone());
            if let Some(m) = msg.strip_prefix("MONITOR: ") {
                return Err(viol(format!("monitor {}", strip_digits(m)), format!("{}\n--- {}", input, m)));
            }
            if loc.starts_with("src/") || loc.contains("/verif/") {
                eprintln!("HARNESS-ERROR panic at {}: {}\ninput:\n{}", loc, msg, input);
                std::process::exit(2);
            }
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc);
            let file = file.strip_prefix("/repo/").unwrap_or(file);
            let mut m = strip_digits(&msg.replace('\n', " "));
            if m.len() > 120 {
                let mut n = 120;
                while !m.is_char_boundary(n) {
                    n -= 1;
                }
                m.truncate(n);
            }
            Err(viol(
                format!("panic {} {}", file, m),
                format!("{}\n--- panicked at {}: {}", input, loc, msg),
            ))
        }
    }
}

fn case_seed(seed: u64, stage: &str, idx: u64) -> u64 {
    mix(seed ^ mix(hash_str(stage) ^ mix(idx)))
}

fn run_case(p: &Prop, st: &Stage, idx: u64, seed: u64, thorough: bool, obs: &mut Obs) -> R {
    let _ = p;
    INPUT.with(|i| i.borrow_mut().clear());
    obs.evals += 1;
    let mut case =
        Case { rng: Rng::new(case_seed(seed, st.name, idx)), idx, thorough, obs };
    guard(|| (st.f)(&mut case))
}

const ROUNDS: u64 = 12;

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub dir: PathBuf,
}

fn shard_main(
    p: &Prop,
    env: &Env,
    shard: u64,
    n: u64,
    skip: Option<(u64, u64, u64)>,
    out: &Path,
    progress: &Path,
) {
    let mut obs = Obs::default();
    let mut viols: BTreeMap<String, (String, String, u64)> = BTreeMap::new();
    let prog = fs::OpenOptions::new().write(true).create(true).truncate(false).open(progress).unwrap();
    let deadline = Instant::now()
        + Duration::from_secs(
            std::env::var("VH_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(
                if env.thorough { 600 } else { 150 },
            ),
        );
    let mut timed_out = false;
    'all: for round in 0..ROUNDS {
        for (si, st) in p.stages.iter().enumerate() {
            let total = if env.thorough { st.thorough } else { st.quick };
            let lo = total * round / ROUNDS;
            let hi = total * (round + 1) / ROUNDS;
            let mut idx = lo + (shard + n - lo % n) % n;
            while idx < hi {
                let here = (round, si as u64, idx);
                if let Some(s) = skip
                    && here <= s
                {
                    idx += n;
                    continue;
                }
                let mut buf = [0u8; 24];
                buf[0..8].copy_from_slice(&round.to_le_bytes());
                buf[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                buf[16..24].copy_from_slice(&(idx + 1).to_le_bytes());
                prog.write_all_at(&buf, 0).unwrap();
                if let Err(v) = run_case(p, st, idx, env.seed, env.thorough, &mut obs) {
                    viols.entry(v.sig).or_insert((v.detail, st.name.to_owned(), idx));
                    if viols.len() > 50 {
                        break 'all;
                    }
                }
                if Instant::now() > deadline {
                    timed_out = true;
                    break 'all;
                }
                idx += n;
            }
        }
    }
    let mut f = String::new();
    f.push_str(&format!("E\t{}\n", obs.evals));
    for (k, v) in &obs.counts {
        f.push_str(&format!("C\t{}\t{}\n", esc(k), v));
    }
    for d in &obs.distinct {
        f.push_str(&format!("D\t{:x}\n", d));
    }
    for s in &obs.samples {
        f.push_str(&format!("S\t{}\n", esc(s)));
    }
    for (sig, (detail, st, idx)) in &viols {
        f.push_str(&format!("V\t{}\t{}\t{}\t{}\n", esc(sig), st, idx, esc(detail)));
    }
    if timed_out {
        f.push_str("T\n");
    }
    let tmp = out.with_extension("tmp");
    fs::write(&tmp, f).unwrap();
    fs::rename(&tmp, out).unwrap();
}

fn on_case_thread<F: FnOnce() -> i32 + Send + 'static>(f: F) -> i32 {
    // Same stack size as the main thread of the real binary.
    std::thread::Builder::new()
        .name("case".to_owned())
        .stack_size(8 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or(2)
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn last_line(p: &Path) -> String {
    let s = fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s);
    let l: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    let pick = l
        .iter()
        .rev()
        .find(|l| l.contains("overflow") || l.contains("memory allocation") || l.contains("fatal"))
        .or(l.last());
    pick.map(|s| strip_digits(s)).unwrap_or_default()
}

struct Running {
    child: Child,
    shard: u64,
    out: PathBuf,
    progress: PathBuf,
    err: PathBuf,
    last: Vec<u8>,
    cpu0: u64,
    restarts: u32,
}

fn spawn_shard(p: &Prop, env: &Env, shard: u64, n: u64, skip: Option<(u64, u64, u64)>, restarts: u32) -> Running {
    let out = env.dir.join(format!("shard{}.{}.out", shard, restarts));
    let progress = env.dir.join(format!("shard{}.{}.prog", shard, restarts));
    let err = env.dir.join(format!("shard{}.{}.err", shard, restarts));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("shard").arg(p.id).arg(if env.thorough { "thorough" } else { "quick" });
    c.arg(env.seed.to_string()).arg(shard.to_string()).arg(n.to_string());
    c.arg(&out).arg(&progress);
    if let Some((r, s, i)) = skip {
        c.arg(r.to_string()).arg(s.to_string()).arg(i.to_string());
    }
    c.stdin(Stdio::null());
    c.stdout(Stdio::null());
    c.stderr(fs::File::create(&err).unwrap());
    c.env("VH_SCRATCH", env.dir.join(format!("scratch{}", shard)));
    let child = c.spawn().unwrap();
    Running { child, shard, out, progress, err, last: vec![], cpu0: 0, restarts }
}

/// Directory where cases may create files; recreated empty by the caller.
pub fn scratch() -> PathBuf {
    let p = PathBuf::from(std::env::var_os("VH_SCRATCH").expect("VH_SCRATCH"));
    fs::create_dir_all(&p).unwrap();
    p
}

fn run_one_isolated(p: &Prop, env: &Env, stage: &str, idx: u64, cpu_limit: u64) -> (String, String) {
    let err = env.dir.join("one.err");
    let out = env.dir.join("one.out");
    let input = env.dir.join("one.in");
    let _ = fs::remove_file(&input);
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["one", p.id, if env.thorough { "thorough" } else { "quick" }])
        .arg(env.seed.to_string())
        .arg(stage)
        .arg(idx.to_string())
        .stdin(Stdio::null())
        .stdout(fs::File::create(&out).unwrap())
        .stderr(fs::File::create(&err).unwrap())
        .env("VH_SCRATCH", env.dir.join("scratch-one"))
        .env("VH_INPUT", &input)
        .spawn()
        .unwrap();
    let start = Instant::now();
    let seen = || format!("--- input\n{}", String::from_utf8_lossy(&fs::read(&input).unwrap_or_default()));
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let text = String::from_utf8_lossy(&fs::read(&out).unwrap_or_default()).into_owned();
            return match st.code() {
                Some(0) => ("ok".to_owned(), text),
                Some(1) => ("violation".to_owned(), text),
                Some(c) => (format!("exit {} {}", c, last_line(&err)), text + &seen()),
                None => (
                    format!("crash signal {} {}", st.signal().unwrap_or(0), last_line(&err)),
                    text + &seen(),
                ),
            };
        }
        if cpu_ticks(child.id()).unwrap_or(0) > cpu_limit * 100
            || start.elapsed() > Duration::from_secs(cpu_limit * 10)
        {
            let _ = child.kill();
            let _ = child.wait();
            return ("hang".to_owned(), seen());
        }
        std::thread::sleep(Duration::from_millis(30));
    }
}

fn known_findings(dir: &Path, id: &str) -> Vec<(String, String, String)> {
    // finding: property=C02 probe=name got=<escaped outcome> :: description
    let text = fs::read_to_string(dir.join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let Some((head, desc)) = l.split_once(" :: ") else { continue };
        let Some(h) = head.strip_prefix(&format!("property={} ", id)) else { continue };
        let Some(h) = h.strip_prefix("probe=") else { continue };
        let Some((name, got)) = h.split_once(" got=") else { continue };
        v.push((name.to_owned(), unesc(got), desc.to_owned()));
    }
    v
}

pub fn main(props: Vec<Prop>) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".to_owned()));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("shard") => {
            let id = args[2].clone();
            on_case_thread(move || {
                let props = crate::props::all();
                let p = props.iter().find(|p| p.id == id).unwrap();
                let env = Env {
                    thorough: args[3] == "thorough",
                    seed: args[4].parse().unwrap(),
                    dir: PathBuf::new(),
                };
                let skip = if args.len() > 11 {
                    Some((
                        args[9].parse().unwrap(),
                        args[10].parse().unwrap(),
                        args[11].parse().unwrap(),
                    ))
                } else {
                    None
                };
                shard_main(
                    p,
                    &env,
                    args[5].parse().unwrap(),
                    args[6].parse().unwrap(),
                    skip,
                    Path::new(&args[7]),
                    Path::new(&args[8]),
                );
                0
            })
        }
        Some("one") | Some("probe") => {
            let a = args.clone();
            on_case_thread(move || {
                let props = crate::props::all();
                let p = props.iter().find(|p| p.id == a[2]).unwrap();
                if a[1] == "probe" {
                    let pr = p.probes.iter().find(|x| x.name == a[3]).unwrap();
                    let mut got = String::new();
                    let r = guard(|| {
                        got = (pr.f)();
                        Ok(())
                    });
                    if let Err(v) = r {
                        got = v.sig;
                    }
                    println!("{}", esc(&got));
                    return 0;
                }
                let thorough = a[3] == "thorough";
                let st = p.stages.iter().find(|s| s.name == a[5]).unwrap();
                let mut obs = Obs::default();
                let r = run_case(p, st, a[6].parse().unwrap(), a[4].parse().unwrap(), thorough, &mut obs);
                match r {
                    Ok(()) => {
                        if std::env::var_os("VH_SHOW").is_some() {
                            INPUT.with(|i| println!("{}", i.borrow()));
                            println!("{:?}", obs.counts);
                            for s in &obs.samples {
                                println!("--- sample\n{}", s);
                            }
                        }
                        0
                    }
                    Err(v) => {
                        println!("{}\n{}", v.sig, v.detail);
                        1
                    }
                }
            })
        }
        Some("check") => check_main(&props, &args[2], &args[3], &verif),
        Some("replay") => {
            let text = fs::read_to_string(&args[2]).unwrap();
            let l: Vec<&str> = text.lines().next().unwrap().split('\t').collect();
            let p = props.iter().find(|p| p.id == l[1]).unwrap();
            let dir = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
            fs::create_dir_all(&dir).unwrap();
            let env = Env { thorough: l[2] == "thorough", seed: l[3].parse().unwrap(), dir: dir.clone() };
            let (r, text) = run_one_isolated(p, &env, l[4], l[5].parse().unwrap(), 60);
            println!("{}\n{}", r, text);
            let _ = fs::remove_dir_all(&dir);
            if r == "ok" { 0 } else { 1 }
        }
        _ => {
            eprintln!("usage: vh list | check ID TIER | replay FILE | one ID TIER SEED STAGE IDX");
            2
        }
    }
}

fn check_main(props: &[Prop], id: &str, tier: &str, verif: &Path) -> i32 {
    let start = Instant::now();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let dir = verif.join("run").join(id);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let env = Env { seed, thorough, dir: dir.clone() };
    let n = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).min(8);
    let cpu_limit: u64 = if thorough { 60 } else { 20 };
    // Stop looking for more once there is something to report, and never run for too long.
    let patience = Duration::from_secs(if thorough { 1200 } else { 60 });
    let deadline = Duration::from_secs(if thorough { 7200 } else { 700 });
    let mut expired = false;

    let mut viols: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut unconfirmed: Vec<String> = vec![];
    let mut harness_error = false;

    // Probes of known findings.
    let known = known_findings(verif, id);
    let mut known_hits = vec![];
    for pr in &p.probes {
        let o = Command::new(std::env::current_exe().unwrap())
            .args(["probe", id, pr.name])
            .stdin(Stdio::null())
            .env("VH_SCRATCH", dir.join("scratch-probe"))
            .output()
            .unwrap();
        let got = if o.status.success() {
            unesc(String::from_utf8_lossy(&o.stdout).trim_end_matches('\n'))
        } else {
            match o.status.signal() {
                Some(s) => format!("crash signal {}", s),
                None => format!("exit {:?}", o.status.code()),
            }
        };
        if got == pr.want {
            continue;
        }
        match known.iter().find(|(name, g, _)| {
            name == pr.name && (*g == got || (g == "*" && o.status.success()))
        }) {
            Some((_, _, desc)) => known_hits.push((pr.name, desc.clone())),
            None => {
                viols.insert(
                    format!("probe {}", pr.name),
                    (
                        format!("probe {}\n--- oracle\n{}\n--- observed\n{}", pr.name, pr.want, esc(&got)),
                        format!("PROBE\t{}\t{}", id, pr.name),
                    ),
                );
            }
        }
    }

    let mut running: Vec<Running> = (0..n).map(|s| spawn_shard(p, &env, s, n, None, 0)).collect();
    let mut outs: Vec<PathBuf> = vec![];
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(25));
        if start.elapsed() > deadline || (!viols.is_empty() && start.elapsed() > patience) {
            expired = viols.is_empty();
            for r in running.iter_mut() {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let st = r.child.try_wait().unwrap();
            let cur = fs::read(&r.progress).unwrap_or_default();
            let mut hang = false;
            if st.is_none() {
                let cpu = cpu_ticks(r.child.id()).unwrap_or(0);
                if cur != r.last {
                    r.last = cur.clone();
                    r.cpu0 = cpu;
                } else if cpu.saturating_sub(r.cpu0) > cpu_limit * 100 {
                    hang = true;
                    let _ = r.child.kill();
                    let _ = r.child.wait();
                }
                if !hang {
                    i += 1;
                    continue;
                }
            }
            let r = running.remove(i);
            if !hang && st.unwrap().success() {
                outs.push(r.out);
                continue;
            }
            if let Some(st) = st
                && st.code() == Some(2)
            {
                eprintln!("{}", String::from_utf8_lossy(&fs::read(&r.err).unwrap_or_default()));
                harness_error = true;
                continue;
            }
            if cur.len() != 24 {
                eprintln!("shard died early: {}", last_line(&r.err));
                harness_error = true;
                continue;
            }
            let g = |k: usize| u64::from_le_bytes(cur[k * 8..k * 8 + 8].try_into().unwrap());
            let (round, si, idx) = (g(0), g(1), g(2) - 1);
            let stage = p.stages[si as usize].name;
            // Confirm in isolation.
            let (res, text) = run_one_isolated(p, &env, stage, idx, cpu_limit);
            if res == "ok" {
                unconfirmed.push(format!("{} {} {}", stage, idx, last_line(&r.err)));
            } else {
                let sig = if res == "violation" {
                    text.lines().next().unwrap_or("").to_owned()
                } else {
                    res.clone()
                };
                viols.entry(sig).or_insert((
                    format!("{}\n{}", res, text),
                    format!("CASE\t{}\t{}\t{}\t{}\t{}", id, tier, seed, stage, idx),
                ));
            }
            if r.restarts < if viols.is_empty() { 6 } else { 1 } && viols.len() < 8 {
                let nr = spawn_shard(p, &env, r.shard, n, Some((round, si, idx)), r.restarts + 1);
                running.push(nr);
            }
        }
    }

    let mut evals = 0;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut timeouts = 0;
    for o in &outs {
        let text = fs::read_to_string(o).unwrap();
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "E" => evals += f[1].parse::<u64>().unwrap(),
                "C" => *counts.entry(unesc(f[1])).or_default() += f[2].parse::<u64>().unwrap(),
                "D" => {
                    distinct.insert(u64::from_str_radix(f[1], 16).unwrap());
                }
                "S" if samples.len() < 6 => samples.push(unesc(f[1])),
                "V" => {
                    viols.entry(unesc(f[1])).or_insert((
                        unesc(f[4]),
                        format!("CASE\t{}\t{}\t{}\t{}\t{}", id, tier, seed, f[2], f[3]),
                    ));
                }
                "T" => timeouts += 1,
                _ => (),
            }
        }
    }

    for (name, desc) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({})", id, desc, name);
    }
    let mut k = 0;
    let mut seen_sigs = BTreeSet::new();
    for (sig, (detail, header)) in &viols {
        if !seen_sigs.insert(sig.clone()) || k >= 12 {
            continue;
        }
        let path = dir.join(format!("viol-{}.txt", k));
        k += 1;
        let mut f = fs::File::create(&path).unwrap();
        writeln!(f, "{}", header).unwrap();
        writeln!(f, "{}", sig).unwrap();
        writeln!(f, "{}", detail).unwrap();
        println!("VIOLATION property={} replay={}", id, path.display());
        println!("  {}", sig);
    }

    let mut starved = vec![];
    if viols.is_empty() {
        for (kind, min) in p.require {
            if counts.get(*kind).copied().unwrap_or(0) < *min {
                starved.push(format!("{} {} < {}", kind, counts.get(*kind).copied().unwrap_or(0), min));
            }
        }
    }

    let mut j = String::from("{\n");
    j.push_str(&format!("\"property\": {},\n\"tier\": {},\n\"seed\": {},\n", json(id), json(tier), seed));
    j.push_str(&format!("\"level\": {},\n", json(p.level)));
    let rule = format!(
        "{} Monitored events: {}.{}{}",
        p.rule,
        counts.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(", "),
        if timeouts > 0 { format!(" {} shards stopped at the deadline.", timeouts) } else { String::new() },
        if unconfirmed.is_empty() { String::new() } else { format!(" Unconfirmed: {:?}.", unconfirmed) },
    );
    j.push_str(&format!(
        "\"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}]}},\n",
        evals,
        distinct.len(),
        json(&rule),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!(
        "\"assumptions\": [{}],\n",
        p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!("\"wall_s\": {:.2},\n\"violations\": {}\n}}\n", start.elapsed().as_secs_f64(), viols.len()));
    let evd = verif.join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", id)), j).unwrap();

    println!(
        "{} {}: {} cases, {} distinct, {} violations, {:.1}s",
        id, tier, evals, distinct.len(), viols.len(), start.elapsed().as_secs_f64()
    );
    println!("  {}", counts.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "));
    for u in &unconfirmed {
        println!("  unconfirmed: {}", u);
    }
    // Clean up the bulky files but keep the replays.
    if let Ok(rd) = fs::read_dir(&dir) {
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if name.starts_with("scratch") {
                let _ = fs::remove_dir_all(e.path());
            } else if !name.starts_with("viol") {
                let _ = fs::remove_file(e.path());
            }
        }
    }
    if !viols.is_empty() {
        1
    } else if expired || harness_error || !starved.is_empty() || outs.is_empty() {
        eprintln!("HARNESS-ERROR {:?}", starved);
        2
    } else {
        0
    }
}
