//! Model of the EndBASIC cloud service: the same transitions answer the requests that the real
//! client sends over the loopback and drive the oracle.

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

/// What the service understood of a request.
#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub method: String,
    pub path: Vec<String>,
    pub auth: String,
    /// X-EndBASIC headers but for the version of the client.
    pub hdrs: Vec<(String, String)>,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// Fails with a status and a structured message.
    Status(u16, String),
    /// Fails with a status and a raw text.
    Raw(u16, String),
    /// Closes the connection before processing the request.
    DropBefore,
    /// Closes the connection after processing the request.
    DropAfter,
    /// Sends less than what it announced.
    Truncate,
    /// Succeeds with a body that makes no sense.
    Garbage,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct File {
    pub content: Vec<u8>,
    pub mtime: u64,
    pub readers: BTreeSet<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct User {
    pub password: String,
    pub files: BTreeMap<String, File>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct State {
    pub users: BTreeMap<String, User>,
    pub tokens: BTreeMap<String, String>,
    pub ntok: u64,
    pub clock: u64,
    pub motd: Vec<String>,
    pub signups: Vec<String>,
    pub faults: VecDeque<Fault>,
    pub log: Vec<Req>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub hdrs: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub fn status_name(s: u16) -> &'static str {
    match s {
        200 => "200 OK",
        201 => "201 Created",
        202 => "202 Accepted",
        204 => "204 No Content",
        400 => "400 Bad Request",
        401 => "401 Unauthorized",
        403 => "403 Forbidden",
        404 => "404 Not Found",
        413 => "413 Payload Too Large",
        429 => "429 Too Many Requests",
        500 => "500 Internal Server Error",
        503 => "503 Service Unavailable",
        507 => "507 Insufficient Storage",
        _ => unreachable!(),
    }
}

fn json_error(status: u16, msg: &str) -> Resp {
    let v = serde_json::json!({ "message": msg });
    Resp { status, hdrs: vec![], body: v.to_string().into_bytes() }
}

fn ok(body: Vec<u8>) -> Resp {
    Resp { status: 200, hdrs: vec![], body }
}

/// What happened to a request, as seen from the client.
#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Full(Resp),
    Cut(Resp),
    Nothing,
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn base64(s: &[u8]) -> String {
    let mut o = String::new();
    for c in s.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

impl State {
    pub fn process(&mut self, r: &Req) -> Answer {
        self.log.push(r.clone());
        match self.faults.pop_front().unwrap_or(Fault::None) {
            Fault::None => Answer::Full(self.handle(r)),
            Fault::Status(s, m) => Answer::Full(json_error(s, &m)),
            Fault::Raw(s, m) => {
                Answer::Full(Resp { status: s, hdrs: vec![], body: m.into_bytes() })
            }
            Fault::DropBefore => Answer::Nothing,
            Fault::DropAfter => {
                self.handle(r);
                Answer::Nothing
            }
            Fault::Truncate => Answer::Cut(self.handle(r)),
            Fault::Garbage => {
                let mut a = self.handle(r);
                if a.status == 200 {
                    a.body = b"{\"access_token\": 3, \"files\": [{]}".to_vec();
                }
                Answer::Full(a)
            }
        }
    }

    fn handle(&mut self, r: &Req) -> Resp {
        let caller = r.auth.strip_prefix("Bearer ").and_then(|t| self.tokens.get(t)).cloned();
        if r.auth.starts_with("Bearer ") && caller.is_none() {
            return json_error(401, "Stale token");
        }
        let path: Vec<&str> = r.path.iter().map(|s| s.as_str()).collect();
        match (r.method.as_str(), path.as_slice()) {
            ("POST", ["api", "signup"]) => {
                match serde_json::from_slice::<serde_json::Value>(&r.body) {
                    Ok(v) => self.signups.push(v.to_string()),
                    Err(_) => return json_error(400, "Bad JSON"),
                }
                ok(vec![])
            }
            ("POST", ["api", "login"]) => {
                for (name, u) in &self.users {
                    let a = base64(format!("{}:{}", name, u.password).as_bytes());
                    if r.auth == format!("Basic {}", a) {
                        self.ntok += 1;
                        let t = format!("tok.{}~{}", self.ntok, a.trim_end_matches('='));
                        self.tokens.insert(t.clone(), name.clone());
                        let v = serde_json::json!({ "access_token": t, "motd": self.motd });
                        return ok(v.to_string().into_bytes());
                    }
                }
                json_error(401, "Invalid user or password")
            }
            ("POST", ["api", "users", user, "logout"]) => {
                if caller.as_deref() != Some(*user) {
                    return json_error(403, "Not your session");
                }
                let t = r.auth["Bearer ".len()..].to_owned();
                self.tokens.remove(&t);
                ok(vec![])
            }
            ("GET", ["api", "users", user, "files"]) => {
                let Some(u) = self.users.get(*user) else { return json_error(404, "No such user") };
                let mine = caller.as_deref() == Some(*user);
                let files: Vec<_> = u
                    .files
                    .iter()
                    .filter(|(_, f)| mine || readable(f, caller.as_deref()))
                    .map(|(n, f)| {
                        serde_json::json!({ "filename": n, "mtime": f.mtime, "length": f.content.len() })
                    })
                    .collect();
                let v = if mine {
                    let used: usize = u.files.values().map(|f| f.content.len()).sum();
                    serde_json::json!({ "files": files,
                        "disk_quota": { "bytes": 9000000, "files": 90 },
                        "disk_free": { "bytes": 9000000 - used, "files": 90 - u.files.len() } })
                } else {
                    serde_json::json!({ "files": files })
                };
                ok(v.to_string().into_bytes())
            }
            (m, ["api", "users", user, "files", name]) => self.file(m, user, name, caller, r),
            _ => json_error(404, "No such endpoint"),
        }
    }

    fn file(&mut self, m: &str, user: &str, name: &str, caller: Option<String>, r: &Req) -> Resp {
        let get = |k: &str| r.hdrs.iter().find(|(h, _)| h == k).map(|(_, v)| v.as_str());
        let mine = caller.as_deref() == Some(user);
        let Some(u) = self.users.get_mut(user) else { return json_error(404, "No such user") };
        match m {
            "GET" => {
                let Some(f) = u.files.get(name).filter(|f| mine || readable(f, caller.as_deref()))
                else {
                    return json_error(404, "No such file");
                };
                let mut a = ok(vec![]);
                if get("x-endbasic-getcontent") != Some("false") {
                    a.body = f.content.clone();
                }
                if get("x-endbasic-getreaders") == Some("true") {
                    if !mine {
                        return json_error(403, "Cannot see the readers");
                    }
                    for x in &f.readers {
                        a.hdrs.push(("X-EndBASIC-Reader".to_owned(), x.clone()));
                    }
                }
                a
            }
            "PATCH" => {
                if !mine {
                    return json_error(403, "Not your file");
                }
                let created = !u.files.contains_key(name);
                match get("x-endbasic-patchcontent") {
                    Some("true") => {
                        self.clock += 1;
                        let f = u.files.entry(name.to_owned()).or_default();
                        f.content = r.body.clone();
                        f.mtime = self.clock * 12_345_677;
                    }
                    Some("false") => {
                        if created {
                            return json_error(404, "No such file");
                        }
                        let f = u.files.get_mut(name).unwrap();
                        for (h, v) in &r.hdrs {
                            if h == "x-endbasic-addreader" {
                                f.readers.insert(v.clone());
                            } else if h == "x-endbasic-removereader" {
                                f.readers.remove(v);
                            }
                        }
                    }
                    _ => return json_error(400, "Bad PATCH"),
                }
                Resp { status: if created { 201 } else { 200 }, hdrs: vec![], body: vec![] }
            }
            "DELETE" => {
                if !mine {
                    return json_error(403, "Not your file");
                }
                match u.files.remove(name) {
                    Some(_) => ok(vec![]),
                    None => json_error(404, "No such file"),
                }
            }
            _ => json_error(400, "Bad method"),
        }
    }
}

fn readable(f: &File, caller: Option<&str>) -> bool {
    f.readers.contains("public") || caller.is_some_and(|c| f.readers.contains(c))
}

/// How the bytes of the answers travel.
#[derive(Clone, Debug, Default)]
pub struct Delivery {
    pub close: bool,
    pub chunked: bool,
    /// Bytes to write at once, or zero for everything.
    pub split: usize,
}

#[derive(Default)]
pub struct Shared {
    pub state: State,
    pub delivery: Delivery,
    /// Requests that do not follow the protocol.
    pub bad: Vec<String>,
}

static SERVER: OnceLock<(u16, Arc<Mutex<Shared>>)> = OnceLock::new();

pub fn server() -> &'static (u16, Arc<Mutex<Shared>>) {
    SERVER.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let sh: Arc<Mutex<Shared>> = Arc::default();
        let sh2 = sh.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let Ok(s) = s else { continue };
                let sh = sh2.clone();
                std::thread::Builder::new()
                    .stack_size(256 * 1024)
                    .spawn(move || {
                        let _ = serve(s, sh);
                    })
                    .unwrap();
            }
        });
        (port, sh)
    })
}

pub fn unpercent(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            o.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

fn serve(mut s: TcpStream, sh: Arc<Mutex<Shared>>) -> std::io::Result<()> {
    s.set_read_timeout(Some(Duration::from_secs(60)))?;
    s.set_nodelay(true)?;
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 16384];
    loop {
        let end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p;
            }
            let n = s.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        };
        let head: Vec<u8> = buf.drain(..end + 4).collect();
        let mut lines = head[..end].split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
        let first = String::from_utf8_lossy(lines.next().unwrap()).into_owned();
        let f: Vec<&str> = first.split(' ').collect();
        let mut bad = vec![];
        if f.len() != 3 || !f[1].starts_with('/') || f[1].contains(['?', '#']) {
            bad.push(format!("request line {}", first));
        }
        let path: Vec<String> = f
            .get(1)
            .unwrap_or(&"/")
            .trim_start_matches('/')
            .split('/')
            .map(|x| {
                unpercent(x).unwrap_or_else(|| {
                    bad.push(format!("bad escape in {}", first));
                    x.to_owned()
                })
            })
            .collect();
        let mut r = Req {
            method: f[0].to_owned(),
            path,
            auth: String::new(),
            hdrs: vec![],
            body: vec![],
        };
        let mut len = 0usize;
        let mut version = 0;
        let mut ctype = String::new();
        for l in lines {
            let p = l.iter().position(|b| *b == b':').unwrap_or(l.len());
            let k = String::from_utf8_lossy(&l[..p]).to_lowercase();
            let v = String::from_utf8_lossy(l.get(p + 1..).unwrap_or(b"")).trim().to_owned();
            match k.as_str() {
                "content-length" => len = v.parse().unwrap_or(0),
                "transfer-encoding" => bad.push(format!("unexpected {}", v)),
                "authorization" => r.auth = v,
                "content-type" => ctype = v,
                "x-endbasic-client-version" => version += 1,
                _ if k.starts_with("x-endbasic") => r.hdrs.push((k, v)),
                _ => (),
            }
        }
        if version != 1 {
            bad.push("no client version".to_owned());
        }
        let want = match (r.method.as_str(), r.path.last().map(|s| s.as_str())) {
            ("POST", Some("signup")) => "application/json",
            ("PATCH", _) => "application/octet-stream",
            _ => "",
        };
        if ctype != want {
            bad.push(format!("content type {:?} for {}", ctype, first));
        }
        while buf.len() < len {
            let n = s.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        }
        r.body = buf.drain(..len).collect();
        let (a, d) = {
            let mut g = sh.lock().unwrap();
            g.bad.extend(bad);
            (g.state.process(&r), g.delivery.clone())
        };
        let (resp, cut) = match a {
            Answer::Full(r) => (r, false),
            Answer::Cut(r) => (r, true),
            Answer::Nothing => return Ok(()),
        };
        let mut o = format!("HTTP/1.1 {}\r\n", status_name(resp.status)).into_bytes();
        for (k, v) in &resp.hdrs {
            o.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
        }
        let nobody = resp.status == 204;
        if d.close || cut {
            o.extend_from_slice(b"Connection: close\r\n");
        }
        if d.chunked && !nobody {
            o.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in resp.body.chunks(d.split.max(7)) {
                o.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                o.extend_from_slice(c);
                o.extend_from_slice(b"\r\n");
            }
            if !cut {
                o.extend_from_slice(b"0\r\n\r\n");
            }
        } else {
            if !nobody {
                let n = resp.body.len() + if cut { 5 } else { 0 };
                o.extend_from_slice(format!("Content-Length: {}\r\n", n).as_bytes());
            }
            o.extend_from_slice(b"\r\n");
            if !nobody {
                o.extend_from_slice(&resp.body);
            }
        }
        if d.split == 0 {
            s.write_all(&o)?;
        } else {
            for (i, c) in o.chunks(d.split).enumerate() {
                s.write_all(c)?;
                if i < 4 {
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
        }
        if d.close || cut {
            return Ok(());
        }
    }
}
