//! S12: what the command that users run prints, reads, stores and returns.

use super::term::{Grid, Tty};
use crate::rng::Rng;
use crate::runner::{Case, Prop, R, Stage, same, scratch, viol};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Child, Command, ExitStatus};
use std::time::{Duration, Instant};

/// Longest that one process may take.
const LIMIT: Duration = Duration::from_secs(60);

fn bin() -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name("endbasic-cli")
}

struct Done {
    code: String,
    out: String,
    err: String,
}

fn status(s: ExitStatus) -> String {
    match (s.code(), s.signal()) {
        (Some(c), _) => c.to_string(),
        (_, s) => format!("signal {:?}", s),
    }
}

fn wait(child: &mut Child) -> Option<ExitStatus> {
    let start = Instant::now();
    let mut nap = 200;
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            return Some(s);
        }
        if start.elapsed() > LIMIT {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    }
}

fn command(args: &[String], dir: &Path) -> Command {
    let mut cmd = Command::new(bin());
    cmd.arg0("endbasic").args(args).current_dir(dir).env_clear();
    cmd.env("HOME", dir.join("home")).env("TERM", "xterm-256color").env("RUST_BACKTRACE", "0");
    cmd
}

fn run(args: &[String], dir: &Path, input: &[u8]) -> Done {
    // Files and not pipes, so that nobody has to keep reading.
    let (i, o, e) = (dir.join("in"), dir.join("out"), dir.join("err"));
    fs::write(&i, input).unwrap();
    let mut child = command(args, dir)
        .stdin(fs::File::open(&i).unwrap())
        .stdout(fs::File::create(&o).unwrap())
        .stderr(fs::File::create(&e).unwrap())
        .spawn()
        .unwrap();
    let s = wait(&mut child);
    let read = |p: &Path| {
        let mut s = vec![];
        fs::File::open(p).unwrap().read_to_end(&mut s).unwrap();
        String::from_utf8_lossy(&s).into_owned()
    };
    Done { code: s.map(status).unwrap_or("hung".to_owned()), out: read(&o), err: read(&e) }
}

/// A script, what it prints and how it ends.
#[derive(Default)]
struct Script {
    lines: Vec<String>,
    out: String,
    err: Option<String>,
    code: i32,
    /// What is left of the input.
    used: usize,
}

fn narrow(r: &mut Rng) -> String {
    word(r).replace('日', "k")
}

fn word(r: &mut Rng) -> String {
    let n = 1 + r.few(8);
    (0..n)
        .map(|_| *r.pick(&['a', 'b', 'z', 'Q', '0', '9', '-', '.', '\'', ':', 'é', '日', '%', '#', '!']))
        .collect()
}

fn num(n: i32) -> String {
    if n < 0 { format!("{}", n) } else { format!(" {}", n) }
}

/// Writes a script whose effects are known.  `first` is the number of its first line.
fn script(r: &mut Rng, first: usize, input: &[String], pins: &str) -> Script {
    let mut s = Script::default();
    let mut over = false;
    let mut resume = false;
    let mut compile_error = None;
    for k in 0..1 + r.below(14) {
        let line = first + s.lines.len();
        // Outcome of a statement that fails.
        let mut fail = None;
        let mut out = String::new();
        match r.below(15) {
            0 | 1 => {
                let w = word(r);
                s.lines.push(format!("PRINT \"{}\"", w));
                out = format!("{}\n", w);
            }
            2 => {
                let n = r.range(-2147483647, 2147483647) as i32;
                s.lines.push(format!("v{}% = {}", k, n));
                s.lines.push(format!("PRINT v{}%", k));
                out = format!("{}\n", num(n));
            }
            3 => {
                let n = r.few(6);
                s.lines.push(format!("FOR i% = 1 TO {}", n));
                s.lines.push("    PRINT i%".to_owned());
                s.lines.push("NEXT".to_owned());
                for i in 1..=n {
                    out += &format!("{}\n", num(i as i32));
                }
            }
            4 => {
                s.lines.push(r.pick(&["' console=sdl", "REM hi", "", "   "]).to_string());
            }
            5 | 6 => {
                s.lines.push(format!("INPUT l{}$", k));
                s.lines.push(format!("PRINT \"<\"; l{}$; \">\"", k));
                if !over {
                    match input.get(s.used) {
                        Some(l) => {
                            s.used += 1;
                            out = format!("<{}>\n", l);
                        }
                        // There may be no further input.
                        None if resume => out = "<>\n".to_owned(),
                        None => fail = Some((line, 1, "EOF".to_owned())),
                    }
                }
            }
            7 if r.chance(1, 2) => {
                s.lines.push("PRINT 1 / 0".to_owned());
                if !resume {
                    fail = Some((line, 9, "Division by zero".to_owned()));
                }
            }
            8 if r.chance(1, 3) => {
                s.lines.push("ON ERROR RESUME NEXT".to_owned());
                if !over {
                    resume = true;
                }
            }
            9 if r.chance(1, 2) => {
                let n = r.below(128);
                if r.chance(1, 4) {
                    s.lines.push("END".to_owned());
                    if !over {
                        over = true;
                    }
                } else {
                    s.lines.push(format!("END {}", n));
                    if !over {
                        over = true;
                        s.code = n as i32;
                    }
                }
            }
            10 if r.chance(1, 4) => {
                s.lines.push("nosuch".to_owned());
                if compile_error.is_none() {
                    compile_error = Some((line, 1, "Undefined symbol NOSUCH".to_owned()));
                }
            }
            11 if r.chance(1, 3) => {
                s.lines.push("GPIO_SETUP 7, \"OUT\"".to_owned());
                if pins != "mock" && !resume {
                    fail = Some((line, 1, String::new()));
                }
            }
            12 if r.chance(1, 3) => {
                // Commands that need a place where to keep files.
                s.lines.push(r.pick(&["DIR", "RUN", "PWD", "NEW"]).to_string());
                let name = s.lines.last().unwrap().clone();
                if compile_error.is_none() {
                    compile_error = Some((line, 1, format!("Undefined symbol {}", name)));
                }
            }
            13 => s.lines.push("GFX_SYNC FALSE".to_owned()),
            14 => {
                let w = word(r);
                s.lines.push(format!("PRINT \"{}\";", w));
                out = w;
            }
            _ => continue,
        }
        if !over {
            s.out += &out;
            if let Some((l, c, m)) = fail {
                s.err = Some(format!("endbasic: {}:{}: {}", l, c, m));
                s.code = 1;
                over = true;
            }
        }
    }
    if let Some((l, c, m)) = compile_error {
        s.out.clear();
        s.used = 0;
        s.err = Some(format!("endbasic: {}:{}: {}", l, c, m));
        s.code = 1;
    }
    s
}

fn check_err(what: &str, trace: &str, got: &str, want: &Option<String>) -> R {
    let ok = match want {
        None => got.is_empty(),
        // Some messages come from elsewhere.
        Some(w) if w.ends_with(": ") => got.starts_with(w) && got.len() > w.len() + 1,
        Some(w) => got == format!("{}\n", w),
    };
    if ok && !got.contains("panicked") {
        return Ok(());
    }
    Err(viol(what, format!("{}\n--- oracle\n{:?}\n--- observed\n{}", trace, want, got)))
}

/// Fresh directory for the case.
fn fresh() -> std::path::PathBuf {
    let d = scratch().join("cli");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(d.join("home")).unwrap();
    d
}

fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(l) = fs::read_dir(d) {
        for e in l {
            let e = e.unwrap();
            let n = e.file_name().to_string_lossy().into_owned();
            if e.path().is_dir() {
                for (k, v) in tree(&e.path()) {
                    m.insert(format!("{}/{}", n, k), v);
                }
                m.insert(format!("{}/", n), vec![]);
            } else {
                m.insert(n, fs::read(e.path()).unwrap());
            }
        }
    }
    m
}

fn script_case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let dir = fresh();
    let mut pins = "noop";
    let mut args: Vec<String> = vec![];
    if rng.chance(1, 3) {
        pins = rng.pick(&["mock", "noop"]);
        args.push(format!("--gpio-pins={}", pins));
    }
    let input: Vec<String> = (0..rng.few(5)).map(|_| word(rng)).collect();

    // What goes before the script.
    let mut head: Vec<String> = vec![];
    let mut fault: Option<(i32, String)> = None;
    // Console that the script asks for.
    let mut asked: Option<String> = None;
    if rng.chance(1, 2) {
        head.push(rng.pick(&["#!/usr/bin/env endbasic", "#!", "#! endbasic -i"]).to_string());
        if rng.chance(3, 4) {
            let p = rng.pick(&["' ", "REM ", "rem ", "ReM "]).to_string();
            match rng.below(9) {
                0..=2 => {
                    let t = *rng.pick(&["text", "text", "text:", "text:,", "sdl", "text:foo", "nope", "st7735s", "TEXT", "text:a=b"]);
                    head.push(format!("{}endbasic cli: console={}", p, t));
                    asked = Some(t.to_owned());
                }
                3 => {
                    head.push(format!("{}endbasic cli: console=", p));
                    fault = Some((1, "missing console specification".to_owned()));
                }
                4 => {
                    head.push(format!("{}endbasic cli: {}", p, rng.pick(&["", "consol", "Console=text", "é"])));
                    fault = Some((1, "Invalid EndBASIC propline".to_owned()));
                }
                5 => head.push(format!("{}{}", p, rng.pick(&["endbasic cli", " endbasic cli: console=x", "endbasic", "é日", "EndBASIC cli: x"]))),
                6 => head.push(rng.pick(&["", " REM endbasic cli: console=nope", "'endbasic cli: console=nope", "REM", "'"]).to_string()),
                7 => head.push(rng.pick(&["'é日本語", "'日", "' 日本語日本語", "REM日本 = 3"]).to_string()),
                _ => {
                    head.push(String::new());
                    head.push("' endbasic cli: console=nope".to_owned());
                }
            }
        }
    } else if rng.chance(1, 4) {
        head.push("' endbasic cli: console=nope".to_owned());
    }
    let odd = head.get(1).is_some_and(|l| l.starts_with("REM日"));
    let s = script(rng, head.len() + 1, &input, pins);
    let eol = if rng.chance(1, 8) { "\r\n" } else { "\n" };
    let mut text: String = head.iter().chain(&s.lines).map(|l| format!("{}{}", l, eol)).collect();
    if rng.chance(1, 6) && text.ends_with(eol) && !s.lines.last().is_some_and(|l| l.is_empty()) {
        text.truncate(text.len() - eol.len());
    }
    let mut bytes = text.into_bytes();
    let mut name = "prog.bas".to_owned();

    // Options of the console win over the script.
    let flag = if rng.chance(1, 4) {
        Some(*rng.pick(&["text", "text:", "nope", "", "text:x,y=3", ":text", "sdl"]))
    } else {
        None
    };
    if let Some(f) = flag {
        args.push(format!("--console={}", f));
    }
    let console = flag.map(str::to_owned).or(asked);
    if fault.is_none() {
        fault = match console.as_deref() {
            None | Some("text" | "text:" | "text:,") => None,
            Some("sdl" | "st7735s") => Some((1, "support not compiled in".to_owned())),
            Some("text:foo") => Some((1, "does not recognize flags: foo".to_owned())),
            Some("text:a=b") => Some((1, "does not recognize flags: a".to_owned())),
            Some("text:x,y=3") => Some((1, "does not recognize flags: x, y".to_owned())),
            Some("") => Some((1, "console specification".to_owned())),
            Some(":text") => Some((1, "Unknown console driver".to_owned())),
            Some(x) => Some((1, format!("Unknown console driver {}", x))),
        };
    }
    if fault.is_none() && rng.chance(1, 6) {
        fault = Some(match rng.below(7) {
            0 => {
                args.push("--nonsense".to_owned());
                (2, "nonsense".to_owned())
            }
            1 => {
                args.push("other.bas".to_owned());
                (2, "Too many arguments".to_owned())
            }
            2 => {
                name = "missing.bas".to_owned();
                (1, "No such file".to_owned())
            }
            3 => {
                args.retain(|a| !a.starts_with("--gpio"));
                args.push("--gpio-pins=magic".to_owned());
                (2, "magic".to_owned())
            }
            4 => {
                args.retain(|a| !a.starts_with("--gpio"));
                args.push("--gpio-pins=rppal".to_owned());
                (2, "rppal".to_owned())
            }
            5 if s.err.as_ref().is_none_or(|e| !e.contains("Undefined")) => {
                bytes.extend_from_slice(b"\n' \xff\xfe\n");
                (1, "UTF-8".to_owned())
            }
            _ => {
                name = "home".to_owned();
                (1, "directory".to_owned())
            }
        });
    }
    fs::write(dir.join("prog.bas"), &bytes).unwrap();
    let at = rng.below(args.len() + 1);
    args.insert(at, if rng.bool() { name.clone() } else { format!("./{}", name) });
    let stdin: String = input.iter().map(|l| format!("{}\n", l)).collect();
    let trace = format!("{:?}\n{}\n--- input\n{}\n", args, String::from_utf8_lossy(&bytes), stdin);
    c.input(trace.clone());
    let before = tree(&dir);
    let d = run(&args, &dir, stdin.as_bytes());
    c.saw("scripts", 1);
    let show = format!("{}--- observed {}\n{}\n{}", trace, d.code, d.out, d.err);
    if let Some((code, msg)) = fault {
        same("exit code of a refused run", &show, &d.code, &code.to_string())?;
        same("output of a refused run", &show, &d.out, &String::new())?;
        if !d.err.contains(&msg) || d.err.contains("panicked") {
            return Err(viol("message of a refused run", format!("{}\n--- oracle\n{}", show, msg)));
        }
        c.saw("refused runs", 1);
    } else if odd {
        // Not a comment: the compiler has the last word.
        if d.err.contains("panicked") || d.code.starts_with('s') {
            return Err(viol("crash", show));
        }
    } else {
        same("exit code", &trace, &d.code, &s.code.to_string())?;
        // Hidden cursors are all that the terminal has to know.
        same("output", &trace, &d.out.replace("\x1b[?25l", ""), &s.out)?;
        check_err("message", &trace, &d.err, &s.err)?;
        c.saw("exit codes", 1);
        c.saw("failed scripts", s.err.is_some() as u64);
        c.saw("lines of input", s.used as u64);
    }
    let mut after = tree(&dir);
    for f in ["in", "out", "err"] {
        after.remove(f);
    }
    same("files", &show, &after, &before)?;
    c.distinct(&trace);
    Ok(())
}

/// Programs to keep in drives, with what they print and how they end.
fn stock(r: &mut Rng) -> (String, Vec<String>, Option<i32>, Option<String>) {
    let mut lines = vec![];
    let mut out = vec![];
    let mut code = None;
    let mut err = None;
    for _ in 0..1 + r.below(4) {
        let w = narrow(r);
        lines.push(format!("PRINT \"{}\"", w));
        out.push(w);
    }
    match r.below(6) {
        0 => {
            let n = r.below(100) as i32;
            lines.push(format!("END {}", n));
            code = Some(n);
        }
        1 => {
            lines.push("PRINT 3 MOD 0".to_owned());
            err = Some(format!("{}:9: Modulo by zero", lines.len()));
        }
        _ => (),
    }
    (lines.iter().map(|l| format!("{}\n", l)).collect(), out, code, err)
}

type Stock = Vec<(String, Vec<String>, Option<i32>, Option<String>)>;

/// What happens in the interactive interpreter.
struct Session<'a> {
    stock: &'a Stock,
    files: &'a mut BTreeMap<String, Vec<u8>>,
    program: Option<usize>,
    vars: BTreeMap<String, i32>,
}

impl Session<'_> {
    fn which(&self, text: &[u8]) -> usize {
        self.stock.iter().position(|s| s.0.as_bytes() == text).unwrap()
    }

    /// Makes up a command.  Returns it with what it prints and the code that ends the session.
    fn step(&mut self, r: &mut Rng) -> (String, Vec<String>, Option<i32>) {
        let gone = "ERROR: 1:1: No such file or directory (os error 2)".to_owned();
        let names = ["a", "b", "c", "Long Name", "d"];
        let file = |n: &str| format!("{}.bas", n);
        match r.below(16) {
            0 | 1 => {
                let w = narrow(r);
                (format!("PRINT \"{}\"", w), vec![w], None)
            }
            2 => ("PRINT 1 / 0".to_owned(), vec!["ERROR: 1:9: Division by zero".to_owned()], None),
            3 => ("foo".to_owned(), vec!["ERROR: 1:1: Undefined symbol FOO".to_owned()], None),
            4 => {
                let v = r.pick(&["x", "y"]).to_string();
                let n = r.below(1000) as i32;
                self.vars.insert(v.clone(), n);
                (format!("{} = {}", v, n), vec![], None)
            }
            5 => {
                let v = r.pick(&["x", "y"]).to_string();
                let o = match self.vars.get(&v) {
                    Some(n) => num(*n),
                    None => format!("ERROR: 1:7: Undefined symbol {}", v),
                };
                (format!("PRINT {}", v), vec![o], None)
            }
            6 | 7 => {
                let n = *r.pick(&names);
                let o = match self.files.get(&file(n)) {
                    Some(t) => {
                        let t = t.clone();
                        self.program = Some(self.which(&t));
                        self.vars.clear();
                        vec![]
                    }
                    None => vec![gone],
                };
                (format!("LOAD \"{}\"", n), o, None)
            }
            8 | 9 => {
                let n = *r.pick(&names);
                let Some(p) = self.program else {
                    return ("PRINT 4".to_owned(), vec![" 4".to_owned()], None);
                };
                self.files.insert(file(n), self.stock[p].0.clone().into_bytes());
                (format!("SAVE \"{}\"", n), vec![format!("Saved as LOCAL:{}", file(n))], None)
            }
            10 => {
                let n = *r.pick(&names);
                let o = if self.files.remove(&file(n)).is_some() { vec![] } else { vec![gone] };
                (format!("KILL \"{}\"", file(n)), o, None)
            }
            11 => {
                let (a, b) = (*r.pick(&names), *r.pick(&names));
                let o = match self.files.get(&file(a)).cloned() {
                    Some(t) => {
                        self.files.insert(file(b), t);
                        vec![]
                    }
                    None => vec![gone],
                };
                (format!("COPY \"{}\", \"{}\"", file(a), file(b)), o, None)
            }
            12 => {
                self.program = None;
                self.vars.clear();
                ("NEW".to_owned(), vec![], None)
            }
            13 | 14 => {
                let Some(p) = self.program else {
                    return ("PRINT -7".to_owned(), vec!["-7".to_owned()], None);
                };
                self.vars.clear();
                let (_, out, code, err) = &self.stock[p];
                let mut o = out.clone();
                if let Some(n) = code
                    && *n != 0
                {
                    o.push(format!("Program exited with code {}", n));
                }
                if let Some(e) = err {
                    o.push(format!("ERROR: {}", e));
                }
                ("RUN".to_owned(), o, None)
            }
            _ if r.chance(1, 3) => {
                let n = r.below(128) as i32;
                (format!("END {}", n), vec![], Some(n))
            }
            _ => {
                let t = self.files.len();
                let b: usize = self.files.values().map(|v| v.len()).sum();
                let mut o = vec![
                    String::new(),
                    "    Directory of LOCAL:/".to_owned(),
                    String::new(),
                    "    Modified              Size    Name".to_owned(),
                ];
                for (n, v) in self.files.iter() {
                    o.push(format!("    0000-00-00 00:00    {:6}    {}", v.len(), n));
                }
                if t > 0 {
                    o.push(String::new());
                }
                o.push(format!("    {} file(s), {} bytes", t, b));
                o.push(String::new());
                ("DIR".to_owned(), o, None)
            }
        }
    }
}

/// Hides the times of files.
fn no_times(s: &str) -> String {
    s.lines()
        .map(|l| {
            let b = l.as_bytes();
            if b.len() > 24 && l.starts_with("    20") && b[8] == b'-' && b[17] == b':' {
                format!("    0000-00-00 00:00{}\n", &l[20..])
            } else {
                format!("{}\n", l)
            }
        })
        .collect()
}

fn welcome() -> Vec<String> {
    // The version comes from the crate that prints it.
    ["", "    EndBASIC *", "    Copyright 2020-2026 Julio Merino", "", "    Type HELP for interactive usage information.", ""]
        .iter()
        .map(|s| s.to_string())
        .collect()
}

fn no_version(s: &str) -> String {
    s.lines()
        .map(|l| if l.starts_with("    EndBASIC ") { "    EndBASIC *\n".to_owned() } else { format!("{}\n", l) })
        .collect()
}

fn sessions_case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let dir = fresh();
    let stock: Stock = (0..4).map(|_| stock(rng)).collect();
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let local = if rng.chance(1, 4) {
        dir.join("home/Documents/endbasic")
    } else if rng.chance(1, 5) {
        dir.join("some/where new")
    } else {
        dir.join("drive")
    };
    if rng.chance(3, 4) {
        fs::create_dir_all(&local).unwrap();
        for n in ["a.bas", "b.bas", "c.bas"] {
            if rng.bool() {
                let t = rng.pick(&stock).0.clone();
                fs::write(local.join(n), &t).unwrap();
                files.insert(n.to_owned(), t.into_bytes());
            }
        }
    }
    let by_home = local.starts_with(dir.join("home"));
    let mut trace = format!("drive {} {:?}\n", local.display(), files.keys());
    for _ in 0..1 + rng.below(3) {
        let mut args = vec![];
        if !by_home {
            args.push(format!("--local-drive=file://{}", local.display()));
        }
        if rng.chance(1, 4) && local.is_dir() {
            match rng.below(3) {
                0 => {
                    files.remove("AUTOEXEC.BAS");
                    let _ = fs::remove_file(local.join("AUTOEXEC.BAS"));
                }
                _ => {
                    let t = rng.pick(&stock).0.clone();
                    fs::write(local.join("AUTOEXEC.BAS"), &t).unwrap();
                    files.insert("AUTOEXEC.BAS".to_owned(), t.into_bytes());
                }
            }
        }
        let mut out = vec![];
        let mut code = 0;
        let mut stdin = String::new();
        let script = rng.chance(1, 4);
        let mut err = None;
        if script {
            // The same commands as a script.
            args.push("-i".to_owned());
            args.push("s.bas".to_owned());
        } else {
            out = welcome();
            if let Some(t) = files.get("AUTOEXEC.BAS") {
                let s = stock.iter().find(|s| s.0.as_bytes() == &t[..]).unwrap();
                out.extend(s.1.iter().cloned());
                if let Some(e) = &s.3 {
                    out.push(format!("AUTOEXEC.BAS failed: {}", e));
                }
            }
        }
        let mut ses = Session { stock: &stock, files: &mut files, program: None, vars: BTreeMap::new() };
        let mut ended = false;
        for k in 0..rng.few(12) {
            let (cmd, o, end) = ses.step(rng);
            if script {
                // Some commands stop the script that runs them, and fail at other places.
                let w = cmd.split(' ').next().unwrap();
                if !["PRINT", "SAVE", "KILL", "COPY", "DIR"].contains(&w) || o.iter().any(|l| l.starts_with("ERROR")) {
                    if let Some(e) = o.iter().find_map(|l| l.strip_prefix("ERROR: 1:"))
                        && w != "RUN"
                        && w != "foo"
                        && w != "LOAD"
                        && cmd != "PRINT x"
                        && cmd != "PRINT y"
                    {
                        stdin += &format!("{}\n", cmd);
                        err = Some(format!("endbasic: {}:{}", k + 1, e));
                        code = 1;
                    } else if let Some(n) = end {
                        stdin += &format!("{}\n", cmd);
                        code = n;
                    }
                    break;
                }
                out.extend(o);
                stdin += &format!("{}\n", cmd);
                continue;
            }
            stdin += &format!("{}\n", cmd);
            out.extend(o);
            if let Some(n) = end {
                code = n;
                ended = true;
                // The rest is not for the interpreter.
                if rng.bool() {
                    stdin += "KILL \"a.bas\"\n";
                }
                break;
            }
        }
        if !ended && !script {
            out.push("End of input by CTRL-D".to_owned());
        }
        let text: String = out.iter().map(|l| format!("{}\n", l)).collect();
        trace += &format!("{:?}\n{}\n", args, stdin);
        c.input(trace.clone());
        if script {
            fs::write(dir.join("s.bas"), &stdin).unwrap();
            stdin.clear();
        }
        let d = run(&args, &dir, stdin.as_bytes());
        c.saw("sessions", 1);
        same("exit code of a session", &trace, &d.code, &code.to_string())?;
        same("output of a session", &trace, &no_version(&no_times(&d.out)), &text)?;
        check_err("errors of a session", &trace, &d.err, &err)?;
        let now = tree(&local);
        same("files of a session", &trace, &now, &files)?;
        c.saw("files compared", now.len() as u64);
    }
    let mut left = tree(&dir);
    for f in ["in", "out", "err", "s.bas"] {
        left.remove(f);
    }
    let stray: Vec<_> =
        left.keys().filter(|k| !k.ends_with('/') && !dir.join(k).starts_with(&local)).collect();
    same("stray files", &trace, &stray, &vec![])?;
    c.distinct(&trace);
    Ok(())
}

fn tty_case(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let dir = fresh();
    let (w, h) = (72 + rng.below(30), 60);
    let (mut t, slave) = Tty::new(w, h);
    let before = t.modes();
    let stock: Stock = (0..2).map(|_| stock(rng)).collect();
    let mut files = BTreeMap::new();
    let local = dir.join("drive");
    fs::create_dir_all(&local).unwrap();
    for n in ["a.bas", "b.bas"] {
        let t = rng.pick(&stock).0.clone();
        fs::write(local.join(n), &t).unwrap();
        files.insert(n.to_owned(), t.into_bytes());
    }
    let mut args = vec![format!("--local-drive=file://{}", local.display())];
    let script = rng.chance(1, 3);
    let mut g = Grid::new(w, h);
    let mut put = |g: &mut Grid, l: &str| {
        for ch in l.chars() {
            g.put(ch);
        }
        g.x = 0;
        g.lf();
    };
    let mut code = 0;
    let mut trace;
    let mut ses = Session { stock: &stock, files: &mut files, program: None, vars: BTreeMap::new() };
    let inp = slave.try_clone().unwrap();
    let out = slave.try_clone().unwrap();
    let go = |args: &[String]| -> Child {
        let mut cmd = command(args, &dir);
        cmd.stdin(inp).stdout(out).stderr(fs::File::create(dir.join("err")).unwrap());
        unsafe {
            cmd.pre_exec(|| {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                Ok(())
            });
        }
        cmd.spawn().unwrap()
    };
    let shown = |t: &mut Tty, g: &Grid, trace: &str, what: &str| -> R {
        let ok = t.wait(g).map_err(|e| viol(format!("output: {}", e), trace.to_owned()))?;
        if ok {
            return Ok(());
        }
        let o = &t.vt.g;
        Err(viol(
            what,
            format!("{}\n--- oracle {},{}\n{}\n--- observed {},{}\n{}", trace, g.x, g.y, g.text(), o.x, o.y, o.text()),
        ))
    };
    let mut child;
    let mut err = None;
    if script {
        let (lines, how): (Vec<&str>, usize) = match rng.below(4) {
            0 => (vec!["PRINT \"go\"", "DO", "LOOP"], 0),
            1 => (vec!["PRINT \"go\"", "END 9"], 1),
            2 => (vec!["PRINT \"go\"", "PRINT 1 / 0"], 2),
            _ => (vec!["PRINT \"go\"", "INPUT \"name\"; n$", "PRINT \"hi \"; n$"], 3),
        };
        fs::write(dir.join("s.bas"), lines.join("\n")).unwrap();
        if rng.bool() {
            args.push("-i".to_owned());
        } else {
            args.clear();
        }
        args.push("s.bas".to_owned());
        trace = format!("{:?}\n{:?}\n", args, lines);
        c.input(trace.clone());
        child = go(&args);
        put(&mut g, "go");
        match how {
            0 => {
                shown(&mut t, &g, &trace, "script on a terminal")?;
                std::thread::sleep(Duration::from_millis(rng.below(20) as u64));
                t.type_bytes(b"\x03");
                code = 130;
                c.saw("interrupted scripts", 1);
            }
            1 => code = 9,
            2 => {
                code = 1;
                err = Some("endbasic: 2:9: Division by zero".to_owned());
            }
            _ => {
                for ch in "name? ".chars() {
                    g.put(ch);
                }
                shown(&mut t, &g, &trace, "prompt on a terminal")?;
                if rng.chance(1, 3) {
                    t.type_bytes(b"abc\x03");
                    put(&mut g, "abc");
                    // What follows depends on when the interrupt comes.
                    let s = wait(&mut child);
                    let s = s.map(status).unwrap_or("hung".to_owned());
                    same("exit code of an interrupted INPUT", &trace, &s, &"130".to_owned())?;
                    same("terminal modes after the exit", &trace, &t.modes(), &before)?;
                    c.saw("interrupted scripts", 1);
                    c.distinct(&trace);
                    return Ok(());
                }
                let w = narrow(rng);
                t.type_bytes(format!("{}x\x7f\r", w).as_bytes());
                put(&mut g, &w);
                put(&mut g, &format!("hi {}", w));
            }
        }
    } else {
        trace = format!("{:?}\n", args);
        child = go(&args);
        for l in welcome() {
            put(&mut g, &l);
        }
        put(&mut g, "Ready");
        let mut fixed = false;
        let n = 1 + rng.few(8);
        for k in 0..n {
            let start = Instant::now();
            // The version is not known beforehand.
            while !fixed && start.elapsed() < LIMIT {
                t.pump().map_err(|e| viol(format!("output: {}", e), trace.clone()))?;
                let row: String = (0..w).map(|x| t.vt.g.cells[w + x].ch).collect();
                if let Some(v) = row.strip_prefix("    EndBASIC ")
                    && t.vt.g.y >= 2
                {
                    for (x, ch) in format!("    EndBASIC {}", v).chars().enumerate() {
                        g.cells[w + x].ch = ch;
                    }
                    fixed = true;
                } else {
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
            if !fixed {
                return Err(viol("no welcome", format!("{}\n{}", trace, t.vt.g.text())));
            }
            shown(&mut t, &g, &trace, "interactive session")?;
            let (mut cmd, mut o, mut end) =
                if k + 1 == n { ("END 11".to_owned(), vec![], Some(11)) } else { ses.step(rng) };
            if cmd == "DIR" {
                // Listings have times.
                (cmd, o, end) = ("PRINT 8".to_owned(), vec![" 8".to_owned()], None);
            }
            let stop = rng.chance(1, 6) && end.is_none();
            if stop {
                trace += "DO: LOOP\n";
                c.input(trace.clone());
                t.type_bytes(b"DO: LOOP\r");
                put(&mut g, "DO: LOOP");
                shown(&mut t, &g, &trace, "loop")?;
                std::thread::sleep(Duration::from_millis(rng.below(10) as u64));
                t.type_bytes(b"\x03");
                // The same key may also interrupt the prompt that follows.
                t.type_bytes(b"PRINT 5\r");
                let mut tail = |g: &mut Grid, n: usize| {
                    for _ in 0..n {
                        put(g, "**** BREAK ****");
                        put(g, "Ready");
                    }
                    put(g, "PRINT 5");
                    put(g, " 5");
                    put(g, "Ready");
                };
                let mut twice = g.clone();
                tail(&mut twice, 2);
                tail(&mut g, 1);
                let start = Instant::now();
                while t.vt.g != g && t.vt.g != twice && start.elapsed() < Duration::from_secs(8) {
                    t.pump().map_err(|e| viol(format!("output: {}", e), trace.clone()))?;
                    std::thread::sleep(Duration::from_micros(200));
                }
                if t.vt.g == twice {
                    g = twice;
                }
                shown(&mut t, &g, &trace, "interrupted loop")?;
                c.saw("interrupted commands", 1);
            }
            trace += &format!("{}\n", cmd);
            c.input(trace.clone());
            t.type_bytes(cmd.as_bytes());
            // Some hesitation.
            if rng.chance(1, 3) {
                t.type_bytes(b"xy\x7f\x7f");
            }
            t.type_bytes(b"\r");
            put(&mut g, &cmd);
            for l in &o {
                put(&mut g, l);
            }
            c.saw("typed commands", 1);
            if let Some(n) = end {
                code = n;
                break;
            }
            put(&mut g, "Ready");
        }
    }
    let s = wait(&mut child).map(status).unwrap_or("hung".to_owned());
    shown(&mut t, &g, &trace, "final screen")?;
    same("exit code on a terminal", &trace, &s, &code.to_string())?;
    check_err("errors on a terminal", &trace, &fs::read_to_string(dir.join("err")).unwrap(), &err)?;
    same("terminal modes after the exit", &trace, &t.modes(), &before)?;
    let now = tree(&local);
    same("files after typed commands", &trace, &now, &files)?;
    drop(slave);
    let _ = std::io::stdout().flush();
    c.saw("terminals", 1);
    c.distinct(&trace);
    Ok(())
}

pub fn s12() -> Prop {
    Prop {
        id: "S12",
        level: "exploration",
        rule: "one case is one run of a script, up to three interactive processes over one drive, or one process on a pseudo-terminal; distinct by options, scripts and commands.",
        assumptions: &["the binary has its default features: no SDL nor Raspberry Pi support"],
        require: &[
            ("scripts", 800),
            ("refused runs", 150),
            ("exit codes", 400),
            ("sessions", 500),
            ("files compared", 500),
            ("terminals", 100),
            ("interrupted scripts", 10),
            ("interrupted commands", 20),
        ],
        stages: vec![
            Stage { name: "script", quick: 6000, thorough: 120000, f: script_case },
            Stage { name: "sessions", quick: 2500, thorough: 50000, f: sessions_case },
            Stage { name: "tty", quick: 1000, thorough: 20000, f: tty_case },
        ],
        probes: vec![],
    }
}
