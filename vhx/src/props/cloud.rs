//! K01: what a session with the cloud service exchanges, keeps and shows.

use super::cloud_srv::{Answer, Delivery, Fault, File, Req, Resp, State, User, base64, server, status_name};
use crate::con::Ev;
use crate::mach::{self, M, Opts, Out};
use crate::rng::Rng;
use crate::runner::{Case, Prop, R, Stage, same, viol};
use endbasic_client::{CloudService, Service};
use endbasic_std::console::Key;
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::OnceLock;

const EXEC: &str = "https://repl.example/";

fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(1)
            .max_blocking_threads(2)
            .enable_all()
            .build()
            .unwrap()
    })
}

fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

/// What the client should know.
struct Model {
    srv: State,
    session: Option<(String, String)>,
    /// Mounted drives; None is the local memory.
    mounts: BTreeMap<String, Option<String>>,
    cur: String,
    local: BTreeMap<String, (Vec<u8>, BTreeSet<String>)>,
}

enum Want {
    Ok,
    /// Error message that ends like this.
    Err(String),
    /// Some error.
    Fail,
}

/// Outcome of an exchange, as the drive sees it.
enum Got {
    Yes(Resp),
    Err(String),
    Fail,
}

impl Model {
    fn bearer(&self) -> String {
        match &self.session {
            Some((_, t)) => format!("Bearer {}", t),
            None => String::new(),
        }
    }

    fn send(&mut self, method: &str, path: &[&str], auth: String, hdrs: &[(&str, &str)], body: &[u8], reads: bool) -> Got {
        let r = Req {
            method: method.to_owned(),
            path: path.iter().map(|s| s.to_string()).collect(),
            auth,
            hdrs: hdrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            body: body.to_vec(),
        };
        let f = self.srv.faults.front().cloned().unwrap_or(Fault::None);
        match self.srv.process(&r) {
            Answer::Nothing => Got::Fail,
            Answer::Cut(r) if r.status == 200 && reads => Got::Fail,
            Answer::Full(r) | Answer::Cut(r)
                if r.status == 200 || (r.status == 201 && method == "PATCH") =>
            {
                if f == Fault::Garbage { Got::Fail } else { Got::Yes(r) }
            }
            Answer::Cut(_) => Got::Fail,
            Answer::Full(r) => {
                let text = String::from_utf8(r.body).unwrap();
                let clean = |s: &str| -> String {
                    s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
                };
                let name = status_name(r.status);
                match serde_json::from_str::<serde_json::Value>(&text) {
                    Ok(v) if v.get("message").is_some_and(|m| m.is_string()) => Got::Err(format!(
                        "{} (server code: {})",
                        clean(v["message"].as_str().unwrap()),
                        name
                    )),
                    _ => Got::Err(format!(
                        "HTTP request returned status {} with text '{}'",
                        name,
                        clean(&text)
                    )),
                }
            }
        }
    }

    fn get(&mut self, drive: &str, name: &str) -> Result<Vec<u8>, Want> {
        match self.mounts.get(drive).cloned() {
            None => Err(Want::Err(format!("Drive '{}' is not mounted", drive))),
            Some(None) => self.local.get(name).map(|f| f.0.clone()).ok_or(Want::Fail),
            Some(Some(u)) => {
                let a = self.bearer();
                match self.send("GET", &["api", "users", &u, "files", name], a, &[], b"", true) {
                    Got::Yes(r) => Ok(r.body),
                    Got::Err(e) => Err(Want::Err(e)),
                    Got::Fail => Err(Want::Fail),
                }
            }
        }
    }

    fn need_session(&self) -> Result<(), Want> {
        match self.session {
            Some(_) => Ok(()),
            None => Err(Want::Err("Not logged in yet".to_owned())),
        }
    }

    fn put(&mut self, drive: &str, name: &str, data: &[u8]) -> Result<(), Want> {
        match self.mounts.get(drive).cloned() {
            None => Err(Want::Err(format!("Drive '{}' is not mounted", drive))),
            Some(None) => {
                self.local.entry(name.to_owned()).or_default().0 = data.to_vec();
                Ok(())
            }
            Some(Some(u)) => {
                self.need_session()?;
                let a = self.bearer();
                done(self.send(
                    "PATCH",
                    &["api", "users", &u, "files", name],
                    a,
                    &[("x-endbasic-patchcontent", "true")],
                    data,
                    false,
                ))
                .map(|_| ())
            }
        }
    }
}

fn done(g: Got) -> Result<Resp, Want> {
    match g {
        Got::Yes(r) => Ok(r),
        Got::Err(e) => Err(Want::Err(e)),
        Got::Fail => Err(Want::Fail),
    }
}

fn date(secs: u64) -> String {
    let days = secs / 86400;
    let (mut y, mut d) = (1970, days);
    let leap = |y: u64| y.is_multiple_of(4) && (!y.is_multiple_of(100) || y.is_multiple_of(400));
    while d >= if leap(y) { 366 } else { 365 } {
        d -= if leap(y) { 366 } else { 365 };
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= ml[m] {
        d -= ml[m];
        m += 1;
    }
    format!("{:04}-{:02}-{:02} {:02}:{:02}", y, m + 1, d + 1, secs % 86400 / 3600, secs % 3600 / 60)
}

const NAMES: &[&str] = &[
    "a.bas", "a b", "50%", "%41", "%2e%2e", "q?x=1", "h#frag", "ñandú.bas", "日本", "a+b", "c&d=e", "A.BAS",
    "x;y", "semi,colon", "~tilde", "p%2Fq", "quote\"s", "back`tick", "<tag>", "{b}", "|", "^", "'", "[1]", "a@b",
    "...", "a..b", "..x", "%", "%%", "%zz", "plus+", "=", "&", "!", "*", "(x)", "$1", "-", "_",
];
const USERS: &[&str] = &["alice", "bob", "carl-2", "d d", "e%41", "f?g", "ünï", "h#i", "j+k"];

fn pick_name(rng: &mut Rng) -> String {
    if rng.chance(1, 8) {
        let n = 1 + rng.few(12);
        let mut s: String = (0..n)
            .map(|_| loop {
                let c = match rng.below(4) {
                    0 => char::from_u32(rng.range(0x21, 0x7e) as u32).unwrap(),
                    1 => char::from_u32(rng.range(0xa1, 0x2ff) as u32).unwrap(),
                    2 => char::from_u32(rng.range(0x4e00, 0x4e80) as u32).unwrap(),
                    _ => *rng.pick(&['%', '.', 'z', '0', '2', 'F', 'e', ' ']),
                };
                if !matches!(c, '/' | '\\' | ':') {
                    break c;
                }
            })
            .collect();
        s = s.trim().to_owned();
        if s.is_empty() || s == "." || s == ".." { "z".to_owned() } else { s }
    } else {
        let n = if rng.chance(2, 3) { 9 } else { NAMES.len() };
        NAMES[rng.below(n)].to_owned()
    }
}

fn bytes(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => 3000 + rng.below(60000),
        _ => rng.below(60),
    };
    let ascii = rng.bool();
    (0..n).map(|_| if ascii { b' ' + rng.below(90) as u8 } else { rng.below(256) as u8 }).collect()
}

fn pick_fault(rng: &mut Rng, reads: bool, json: bool) -> Fault {
    let msgs = ["Quota exceeded", "with \u{1b}[31m escape", "", "línea\nrota\t!", "{\"message\": 5}", "500%"];
    let st = [400, 401, 403, 404, 413, 429, 500, 503, 507, 202, 204, 201];
    loop {
        return match rng.below(7) {
            0 | 1 => Fault::Status(*rng.pick(&st[..9]), rng.pick(&msgs).to_string()),
            2 => {
                let s = *rng.pick(&st);
                if s == 201 && !reads {
                    continue;
                }
                Fault::Raw(s, if s == 204 { String::new() } else { rng.pick(&msgs).to_string() })
            }
            3 => Fault::DropBefore,
            4 => Fault::DropAfter,
            5 if reads => Fault::Truncate,
            6 if json => Fault::Garbage,
            _ => continue,
        };
    }
}

struct Session {
    m: M,
    svc: Rc<RefCell<CloudService>>,
    md: Model,
    trace: String,
}

fn at(cur: &str, drive: &str, name: &str, rng: &mut Rng) -> String {
    if cur == drive && rng.bool() {
        if rng.bool() { name.to_owned() } else { format!("/{}", name) }
    } else {
        let d = if rng.bool() { drive.to_owned() } else { drive.to_lowercase() };
        if rng.bool() { format!("{}:/{}", d, name) } else { format!("{}:{}", d, name) }
    }
}

fn show_acls<'a>(path: &str, v: impl Iterator<Item = &'a String>) -> String {
    let l: String = v.map(|x| format!("    {}\n", x)).collect();
    if l.is_empty() {
        format!("\n    No ACLs on {}\n\n", path)
    } else {
        format!("\n    Reader ACLs on {}:\n{}\n", path, l)
    }
}

fn wrap_motd(v: &[String]) -> String {
    if v.is_empty() {
        return String::new();
    }
    let mut s = "\n----- BEGIN SERVER MOTD -----\n".to_owned();
    for l in v {
        s += l;
        s.push('\n');
    }
    s + "-----  END SERVER MOTD  -----\n\n"
}

fn typed(m: &mut M, lines: &[String], interrupt: bool) {
    let mut c = m.console.borrow_mut();
    c.interactive = true;
    for l in lines {
        c.type_line(l);
    }
    if interrupt {
        c.keys.push_back(Key::Interrupt);
    }
}

fn session(c: &mut Case) -> R {
    let _g = runtime().enter();
    let (port, shared) = server();
    let rng = &mut Rng::new(c.rng.next());
    // The population of the service.
    let mut st = State { clock: 100, ..State::default() };
    let mut users: Vec<String> = vec![];
    // Dates before and after those that fit in 32 bits.
    let epoch = *rng.pick(&[0, 0, 1 << 30, (1u64 << 31) - 1_300_000_000, 1 << 32, 1 << 34]);
    for u in USERS {
        if rng.chance(1, 2) || u == &"alice" {
            users.push(u.to_string());
            let mut user = User {
                password: rng.pick(&["pw1", "sécret:2", "a:b", "", "x y%"]).to_string(),
                ..User::default()
            };
            for _ in 0..rng.few(5) {
                st.clock += 1;
                let mut f =
                    File { content: bytes(rng), mtime: epoch + st.clock * 12_345_677, readers: Default::default() };
                for _ in 0..rng.few(3) {
                    f.readers.insert(rng.pick(&["public", "alice", "bob", "carl-2"]).to_string());
                }
                user.files.insert(pick_name(rng), f);
            }
            st.users.insert(u.to_string(), user);
        }
    }
    for _ in 0..rng.few(4) {
        st.motd.push(rng.pick(&["Welcome!", "Today is a good day", "100% of x"]).to_string());
    }
    let delivery = Delivery {
        close: rng.chance(1, 2),
        chunked: rng.chance(1, 3),
        split: if rng.chance(1, 3) { 40 + rng.below(4000) } else { 0 },
    };
    {
        let mut g = shared.lock().unwrap();
        g.state = st.clone();
        g.delivery = delivery.clone();
        g.bad.clear();
    }
    let base = format!("http://127.0.0.1:{}{}", port, if rng.bool() { "/" } else { "" });
    let svc = Rc::new(RefCell::new(CloudService::new(&base).map_err(|e| viol("new", e.to_string()))?));
    let svc2 = svc.clone();
    let m = mach::build(Opts {
        setup: Some(Box::new(move |b, console, storage| {
            endbasic_client::add_all(b, svc2, console, storage, EXEC);
        })),
        ..Default::default()
    });
    let mut local = BTreeMap::new();
    for _ in 0..3 {
        let (n, d) = (pick_name(rng), bytes(rng));
        block_on(m.storage.borrow_mut().put(&n, &d)).unwrap();
        local.insert(n, (d, BTreeSet::new()));
    }
    let md = Model {
        srv: st,
        session: None,
        mounts: BTreeMap::from([("MEMORY".to_owned(), None)]),
        cur: "MEMORY".to_owned(),
        local,
    };
    let mut s = Session { m, svc, md, trace: format!("users {:?} {:?}\n", users, delivery) };
    let n = 8 + rng.few(20);
    for _ in 0..n {
        step(c, &mut s, rng, &users)?;
    }
    c.distinct(&s.trace);
    Ok(())
}

fn known_names(md: &Model, drive: &str) -> Vec<String> {
    match md.mounts.get(drive) {
        Some(None) => md.local.keys().cloned().collect(),
        Some(Some(u)) => {
            md.srv.users.get(u).map(|u| u.files.keys().cloned().collect()).unwrap_or_default()
        }
        None => vec![],
    }
}

fn some_name(md: &Model, drive: &str, rng: &mut Rng) -> String {
    let v = known_names(md, drive);
    if v.is_empty() || rng.chance(1, 4) { pick_name(rng) } else { rng.pick(&v).clone() }
}

fn step(c: &mut Case, s: &mut Session, rng: &mut Rng, users: &[String]) -> R {
    let md = &mut s.md;
    let mut drives: Vec<String> = md.mounts.keys().cloned().collect();
    if rng.chance(1, 12) {
        drives.push("CLOUD".to_owned());
    }
    let mut faults = vec![];
    let mut text = Some(String::new());
    let mut secret: Option<String> = None;
    let mut shows: Vec<String> = vec![];
    let kind = match (&md.session, rng.below(24)) {
        (None, 0..=8) | (Some(_), 0) => 0,
        (Some(_), 1) => 1,
        (None, 9) => 1,
        (_, 2) => 2,
        (_, 3..=9) => 3,
        (_, 10..=11) => 4,
        (_, 12..=15) => 5,
        (_, 16) => 6,
        (_, 17) => 7,
        (_, 18) => 8,
        _ => 9,
    };
    let chance = |rng: &mut Rng| rng.chance(1, 7);
    let fault = |faults: &mut Vec<Fault>, md: &mut Model, rng: &mut Rng, reads, json| {
        if chance(rng) {
            let f = pick_fault(rng, reads, json);
            faults.push(f.clone());
            md.srv.faults.push_back(f);
        } else {
            faults.push(Fault::None);
            md.srv.faults.push_back(Fault::None);
        }
    };
    let want: Want;
    let src: String;
    let mut console_small = false;
    match kind {
        0 => {
            let u = rng.pick(users).clone();
            let mut p = md.srv.users[&u].password.clone();
            if rng.chance(1, 6) {
                p.push('x');
            }
            let ask = rng.bool();
            console_small = rng.chance(1, 6);
            src = if ask {
                typed(&mut s.m, std::slice::from_ref(&p), false);
                text = None;
                if p.len() > 2 {
                    secret = Some(p.clone());
                }
                format!("LOGIN {}", lit(&u))
            } else {
                format!("LOGIN {}, {}", lit(&u), lit(&p))
            };
            if md.session.is_some() {
                want = Want::Err("Cannot LOGIN again before LOGOUT".to_owned());
                s.m.console.borrow_mut().keys.clear();
            } else {
                fault(&mut faults, md, rng, true, true);
                let a = format!("Basic {}", base64(format!("{}:{}", u, p).as_bytes()));
                match md.send("POST", &["api", "login"], a, &[], b"", true) {
                    Got::Yes(r) => {
                        let v: serde_json::Value = serde_json::from_slice(&r.body).unwrap();
                        md.session = Some((u.clone(), v["access_token"].as_str().unwrap().to_owned()));
                        md.mounts.insert("CLOUD".to_owned(), Some(u.clone()));
                        if console_small {
                            text = text.map(|_| String::new());
                        } else {
                            let t = wrap_motd(&md.srv.motd);
                            shows.push(t.clone());
                            text = text.map(|_| t);
                        }
                        want = Want::Ok;
                        c.saw("login", 1);
                    }
                    Got::Err(e) => want = Want::Err(e),
                    Got::Fail => want = Want::Fail,
                }
            }
        }
        1 => {
            src = "LOGOUT".to_owned();
            match md.session.clone() {
                None => want = Want::Err("Must LOGIN first".to_owned()),
                Some(_) if md.cur == "CLOUD" => {
                    want = Want::Err("Cannot log out while the CLOUD drive is active".to_owned())
                }
                Some((u, _)) => {
                    fault(&mut faults, md, rng, false, false);
                    let a = md.bearer();
                    match md.send("POST", &["api", "users", &u, "logout"], a, &[], b"", false) {
                        Got::Yes(_) => {
                            md.session = None;
                            let had = md.mounts.remove("CLOUD").is_some();
                            text = Some(if had {
                                "\n    Unmounted CLOUD drive\n    Good bye!\n\n".to_owned()
                            } else {
                                "\n    Good bye!\n\n".to_owned()
                            });
                            want = Want::Ok;
                            c.saw("logout", 1);
                        }
                        Got::Err(e) => want = Want::Err(e),
                        Got::Fail => want = Want::Fail,
                    }
                }
            }
        }
        2 => {
            src = "SIGNUP".to_owned();
            let u = rng.pick(&["newbie", "x y", "ñu"]).to_string();
            let e = rng.pick(&["a@b.c", "", "\"q\"@x"]).to_string();
            let p = format!("{}{}", rng.pick(&["zQsecret1", "12345678a", "Å2345678"]), rng.below(100));
            let mut lines = vec![u.clone()];
            while rng.chance(1, 3) {
                lines.push(rng.pick(&["short1", "12345678901", "onlyletters", "1234567"]).to_string());
            }
            while rng.chance(1, 4) {
                lines.push(p.clone());
                lines.push(format!("{}no", p));
            }
            lines.push(p.clone());
            lines.push(p.clone());
            lines.push(e.clone());
            let ask = |rng: &mut Rng, lines: &mut Vec<String>| {
                while rng.chance(1, 4) {
                    lines.push(rng.pick(&["maybe", "1", "yy"]).to_string());
                }
                let (a, b) = *rng.pick(&[
                    ("y", true),
                    ("Yes", true),
                    ("TRUE", true),
                    ("n", false),
                    ("NO", false),
                    ("False", false),
                    ("", false),
                    ("y ", true),
                ]);
                lines.push(a.to_owned());
                b
            };
            let promo = ask(rng, &mut lines);
            let go = ask(rng, &mut lines);
            let stop = rng.chance(1, 5);
            if stop {
                let k = rng.below(lines.len());
                lines.truncate(k);
            }
            typed(&mut s.m, &lines, stop);
            secret = Some(p.clone());
            text = None;
            if stop {
                want = Want::Fail;
                c.saw("abandoned signup", 1);
            } else {
                shows.push(format!("Username: {}\n", u));
                shows.push(format!("Email address: {}\n", e));
                shows.push(format!("Promotional email: {}\n", if promo { "yes" } else { "no" }));
                if go {
                    fault(&mut faults, md, rng, false, false);
                    let v = serde_json::json!({ "username": u, "password": p, "email": e, "promotional_email": promo });
                    let g = md.send("POST", &["api", "signup"], String::new(), &[], v.to_string().as_bytes(), false);
                    want = match g {
                        Got::Yes(_) => Want::Ok,
                        Got::Err(e) => Want::Err(e),
                        Got::Fail => Want::Fail,
                    };
                    c.saw("signup", 1);
                } else {
                    want = Want::Ok;
                }
            }
        }
        3 => {
            let (d1, d2) = (rng.pick(&drives).clone(), rng.pick(&drives).clone());
            let n1 = some_name(md, &d1, rng);
            let n2 = if rng.chance(1, 3) { String::new() } else { some_name(md, &d2, rng) };
            let a1 = at(&md.cur, &d1, &n1, rng);
            let a2 = if n2.is_empty() { format!("{}:/", d2) } else { at(&md.cur, &d2, &n2, rng) };
            let n2 = if n2.is_empty() { n1.clone() } else { n2 };
            src = format!("COPY {}, {}", lit(&a1), lit(&a2));
            if matches!(md.mounts.get(&d1), Some(Some(_))) {
                fault(&mut faults, md, rng, true, false);
            }
            let got = md.get(&d1, &n1);
            want = match got {
                Ok(data) => {
                    if matches!(md.mounts.get(&d2), Some(Some(_))) && md.session.is_some() {
                        fault(&mut faults, md, rng, false, false);
                    }
                    c.saw("bytes copied", data.len() as u64);
                    match md.put(&d2, &n2, &data) {
                        Ok(()) => Want::Ok,
                        Err(w) => w,
                    }
                }
                Err(w) => w,
            };
            c.saw("copy", 1);
        }
        4 => {
            let d = rng.pick(&drives).clone();
            let n = some_name(md, &d, rng);
            src = format!("KILL {}", lit(&at(&md.cur, &d, &n, rng)));
            want = match md.mounts.get(&d).cloned() {
                None => Want::Err(format!("Drive '{}' is not mounted", d)),
                Some(None) => {
                    if md.local.remove(&n).is_some() {
                        Want::Ok
                    } else {
                        Want::Fail
                    }
                }
                Some(Some(u)) => match md.need_session() {
                    Err(w) => w,
                    Ok(()) => {
                        fault(&mut faults, md, rng, false, false);
                        let a = md.bearer();
                        match done(md.send("DELETE", &["api", "users", &u, "files", &n], a, &[], b"", false)) {
                            Ok(_) => Want::Ok,
                            Err(w) => w,
                        }
                    }
                },
            };
            c.saw("kill", 1);
        }
        5 => {
            let d = rng.pick(&drives).clone();
            src = if d == md.cur && rng.bool() { "DIR".to_owned() } else { format!("DIR {}", lit(&format!("{}:/", d))) };
            want = match md.mounts.get(&d).cloned() {
                None => Want::Err(format!("Drive '{}' is not mounted", d)),
                Some(None) => {
                    text = None;
                    Want::Ok
                }
                Some(Some(u)) => {
                    fault(&mut faults, md, rng, true, true);
                    let a = md.bearer();
                    match done(md.send("GET", &["api", "users", &u, "files"], a, &[], b"", true)) {
                        Err(w) => w,
                        Ok(r) => {
                            let v: serde_json::Value = serde_json::from_slice(&r.body).unwrap();
                            let mut t = format!("\n    Directory of {}:/\n\n", d);
                            t += "    Modified              Size    Name\n";
                            let mut total = 0;
                            let files = v["files"].as_array().unwrap();
                            for f in files {
                                let len = f["length"].as_u64().unwrap();
                                total += len;
                                t += &format!(
                                    "    {}    {:6}    {}\n",
                                    date(f["mtime"].as_u64().unwrap()),
                                    len,
                                    f["filename"].as_str().unwrap()
                                );
                            }
                            if !files.is_empty() {
                                t.push('\n');
                            }
                            t += &format!("    {} file(s), {} bytes\n", files.len(), total);
                            if v.get("disk_quota").is_some() {
                                t += &format!(
                                    "    {} of {} bytes free\n",
                                    v["disk_free"]["bytes"], v["disk_quota"]["bytes"]
                                );
                            }
                            t.push('\n');
                            text = Some(t);
                            c.saw("remote listing", 1);
                            Want::Ok
                        }
                    }
                }
            };
        }
        6 => {
            let name = rng.pick(&["X", "Y"]).to_string();
            let u = if rng.chance(1, 6) { String::new() } else { rng.pick(USERS).to_string() };
            src = format!("MOUNT {} AS {}", lit(&format!("cloud://{}", u)), lit(&name));
            want = if md.mounts.contains_key(&name) {
                Want::Err(format!("Drive '{}' is already mounted", name))
            } else if u.is_empty() {
                Want::Fail
            } else {
                md.mounts.insert(name, Some(u));
                Want::Ok
            };
        }
        7 => {
            let d = rng.pick(&["X", "Y", "CLOUD"]).to_string();
            src = format!("UNMOUNT {}", lit(&d));
            want = if !md.mounts.contains_key(&d) || md.cur == d {
                Want::Fail
            } else {
                md.mounts.remove(&d);
                Want::Ok
            };
        }
        8 => {
            let d = rng.pick(&drives).clone();
            src = format!("CD {}", lit(&format!("{}:/", d)));
            want = if md.mounts.contains_key(&d) {
                md.cur = d;
                Want::Ok
            } else {
                Want::Fail
            };
        }
        _ => {
            let d = rng.pick(&drives).clone();
            let n = some_name(md, &d, rng);
            let path = at(&md.cur, &d, &n, rng);
            let mut add = vec![];
            let mut remove = vec![];
            let mut s2 = format!("SHARE {}", lit(&path));
            let mut bad = None;
            for _ in 0..rng.few(4) {
                let who = rng.pick(&["public", "Public", "bob", "carl-2", "x+r", "+r", "a b"]).to_string();
                let acl = match rng.below(9) {
                    0..=2 => {
                        add.push(who.clone());
                        format!("{}+r", who)
                    }
                    3 => {
                        add.push(who.clone());
                        format!("{}+R", who)
                    }
                    4..=5 => {
                        remove.push(who.clone());
                        format!("{}-r", who)
                    }
                    6 => {
                        remove.push(who.clone());
                        format!("{}-R", who)
                    }
                    _ => {
                        let b = rng.pick(&["+r", "-r", "bobr", "bob+w", "", "r", "é", "bob é", "é+", "bob+r "]);
                        bad.get_or_insert_with(|| b.to_string());
                        b.to_string()
                    }
                };
                s2 += &format!(", {}", lit(&acl));
            }
            src = s2;
            want = if let Some(b) = bad {
                Want::Err(format!(
                    "Invalid ACL '{}': must be of the form \"username+r\" or \"username-r\"",
                    b
                ))
            } else {
                match md.mounts.get(&d).cloned() {
                    None => Want::Err(format!("Drive '{}' is not mounted", d)),
                    Some(None) => match md.local.get_mut(&n) {
                        None => Want::Fail,
                        Some((_, acls)) if add.is_empty() && remove.is_empty() => {
                            text = Some(show_acls(&path, acls.iter()));
                            Want::Ok
                        }
                        Some((_, acls)) => {
                            for r in &remove {
                                acls.remove(r);
                            }
                            acls.extend(add.iter().cloned());
                            // The URL of a file that is not in the cloud is not at stake.
                            text = None;
                            Want::Ok
                        }
                    },
                    Some(Some(u)) if add.is_empty() && remove.is_empty() => {
                        fault(&mut faults, md, rng, true, false);
                        let a = md.bearer();
                        match done(md.send(
                            "GET",
                            &["api", "users", &u, "files", &n],
                            a,
                            &[("x-endbasic-getcontent", "false"), ("x-endbasic-getreaders", "true")],
                            b"",
                            true,
                        )) {
                            Err(w) => w,
                            Ok(r) => {
                                text = Some(show_acls(&path, r.hdrs.iter().map(|(_, v)| v)));
                                c.saw("shown acls", 1);
                                Want::Ok
                            }
                        }
                    }
                    Some(Some(u)) => match md.need_session() {
                        Err(w) => w,
                        Ok(()) => {
                            fault(&mut faults, md, rng, false, false);
                            let mut h = vec![("x-endbasic-patchcontent", "false")];
                            h.extend(add.iter().map(|a| ("x-endbasic-addreader", a.as_str())));
                            h.extend(remove.iter().map(|a| ("x-endbasic-removereader", a.as_str())));
                            let a = md.bearer();
                            match done(md.send("PATCH", &["api", "users", &u, "files", &n], a, &h, b"", false)) {
                                Err(w) => w,
                                Ok(_) => {
                                    c.saw("changed acls", 1);
                                    if add.iter().any(|a| a.to_lowercase() == "public") {
                                        // Wrapping the URL is not at stake here.
                                        text = None;
                                        shows.push(format!(
                                            "{}?run={}/{}",
                                            EXEC,
                                            md.session.as_ref().unwrap().0,
                                            n
                                        ));
                                    }
                                    Want::Ok
                                }
                            }
                        }
                    },
                }
            };
        }
    }
    // Unused faults are of no interest to later steps.
    md.srv.faults.clear();
    s.trace += &format!("{} {:?}\n", src, faults);
    c.input(s.trace.clone());
    let (_, shared) = server();
    shared.lock().unwrap().state.faults = faults.iter().cloned().collect();
    if console_small {
        s.m.console.borrow_mut().size.x = 40;
    }
    let out = s.m.run(&src);
    {
        let mut k = s.m.console.borrow_mut();
        k.size.x = 80;
        k.interactive = false;
        k.keys.clear();
    }
    let raw = format!("{:?}", s.m.console.borrow().log.iter().filter(|e| !matches!(e, Ev::Move(_))).collect::<Vec<_>>());
    let got = s.m.take_text();
    c.saw("commands", 1);
    let ctx = format!("{}=> {:?}\n{}", s.trace, out, got);
    match &want {
        Want::Ok => {
            if out != Out::Eof {
                return Err(viol("command failed", ctx));
            }
        }
        Want::Err(e) => match &out {
            Out::Runtime(m) if m.ends_with(e.as_str()) => c.saw("reported errors", 1),
            _ => return Err(viol("wrong error", format!("{}\n--- oracle\n{}", ctx, e))),
        },
        Want::Fail => match &out {
            Out::Runtime(_) | Out::Break => c.saw("failures", 1),
            _ => return Err(viol("missed error", ctx)),
        },
    }
    if let Some(t) = text {
        let t = if matches!(want, Want::Ok) { t } else { String::new() };
        if kind != 0 || !console_small {
            same("shown text", &ctx, &got, &t)?;
        }
    }
    let flat: String = got.split_whitespace().collect();
    for x in shows {
        if matches!(want, Want::Ok) && !flat.contains(&x.split_whitespace().collect::<String>()) {
            return Err(viol("missing text", format!("{}\n--- oracle\n{}", ctx, x)));
        }
    }
    if let Some(p) = secret {
        if got.contains(&p) || raw.contains(&p) {
            return Err(viol("secret on the console", ctx));
        }
        c.saw("secrets typed", 1);
    }
    let mut sh = shared.lock().unwrap();
    if let Some(b) = sh.bad.pop() {
        return Err(viol("bad request", format!("{}\n{}", ctx, b)));
    }
    c.saw("requests", sh.state.log.len() as u64);
    let fix = |v: &mut Vec<Req>| {
        for r in v.iter_mut() {
            if let ("POST", Some("signup")) = (r.method.as_str(), r.path.last().map(|s| s.as_str()))
                && let Ok(j) = serde_json::from_slice::<serde_json::Value>(&r.body)
            {
                r.body = j.to_string().into_bytes();
            }
        }
    };
    let mut seen = std::mem::take(&mut sh.state.log);
    let mut wanted = std::mem::take(&mut md.srv.log);
    fix(&mut seen);
    fix(&mut wanted);
    same("requests", &ctx, &seen, &wanted)?;
    sh.state.faults.clear();
    if sh.state != md.srv {
        return Err(viol("state of the service", ctx));
    }
    drop(sh);
    same(
        "session",
        &ctx,
        &s.svc.borrow().logged_in_username(),
        &md.session.as_ref().map(|(u, _)| u.clone()),
    )?;
    same("logged in", &ctx, &s.svc.borrow().is_logged_in(), &md.session.is_some())?;
    let st = s.m.storage.borrow();
    let mounts: Vec<(String, String)> =
        st.mounted().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let wm: Vec<(String, String)> = md
        .mounts
        .iter()
        .map(|(a, b)| match b {
            None => (a.clone(), "memory://".to_owned()),
            Some(u) => (a.clone(), format!("cloud://{}", u)),
        })
        .collect();
    same("mounts", &ctx, &mounts, &wm)?;
    same("current drive", &ctx, &st.cwd(), &format!("{}:/", md.cur))?;
    let mut have = BTreeMap::new();
    for (n, _) in block_on(st.enumerate("MEMORY:/")).unwrap().dirents() {
        let path = format!("MEMORY:/{}", n);
        let acls: BTreeSet<String> =
            block_on(st.get_acls(&path)).unwrap().readers().iter().cloned().collect();
        have.insert(n.clone(), (block_on(st.get(&path)).unwrap(), acls));
    }
    if have != md.local {
        return Err(viol("local files", ctx));
    }
    Ok(())
}

/// Bases that cannot be extended with a path are rejected without crashing.
fn bases(c: &mut Case) -> R {
    let rng = &mut Rng::new(c.rng.next());
    let parts = ["http", "https", "mailto", "file", "data", ":", "//", "/", "x", "127.0.0.1", ":80", "api", "?q", "#f", "", "@", "%41", "[::1]", " "];
    let n = rng.few(7);
    let s: String = (0..n).map(|_| *rng.pick(&parts)).collect();
    c.input(s.clone());
    let ok = CloudService::new(&s).is_ok();
    c.saw(if ok { "good bases" } else { "bad bases" }, 1);
    c.distinct(&(s.clone(), ok));
    if ok {
        let path = s.splitn(2, "://").nth(1).and_then(|r| r.split(['?', '#']).next().map(|r| r.to_owned()));
        if let Some(p) = path
            && let Some((_, rest)) = p.trim_start_matches('/').split_once('/')
            && !rest.trim_matches(['/', ' ']).is_empty()
        {
            return Err(viol("base with a path", s));
        }
    }
    Ok(())
}

pub fn k01() -> Prop {
    Prop {
        id: "K01",
        level: "exploration",
        rule: "one case is a session of 8-27 commands of the real client against a service on the loopback; distinct by the commands, faults and delivery.",
        assumptions: &[
            "the service speaks HTTP/1.1 without TLS on the loopback and never redirects",
            "names have no control characters or surrounding spaces",
            "a login whose CLOUD drive cannot be mounted is out of scope",
        ],
        require: &[
            ("requests", 3000),
            ("login", 200),
            ("logout", 60),
            ("signup", 60),
            ("copy", 1000),
            ("remote listing", 400),
            ("changed acls", 60),
            ("shown acls", 40),
            ("reported errors", 500),
            ("failures", 200),
            ("secrets typed", 200),
        ],
        stages: vec![
            Stage { name: "session", quick: 24000, thorough: 400000, f: session },
            Stage { name: "bases", quick: 4000, thorough: 40000, f: bases },
        ],
        probes: vec![],
    }
}
