//! Properties of the storage subsystem.

use crate::con::Ev;
use crate::lang::Val;
use crate::mach::{self, Opts, Out};
use crate::rng::Rng;
use crate::runner::*;
use crate::trace::{self, Table};
use async_trait::async_trait;
use endbasic_std::console::CharsXY;
use endbasic_std::storage::{
    DirectoryDriveFactory, DiskSpace, Drive, DriveFactory, DriveFiles, FileAcls, Metadata, Storage,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io;
use std::path::{Path, PathBuf};
use std::rc::Rc;

fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    futures_lite::future::block_on(f)
}

// Drives with faults ---------------------------------------------------------------------------

type Files = BTreeMap<String, (Vec<u8>, BTreeSet<String>)>;

/// Decides which operation on the drives fails.
#[derive(Default)]
pub struct Plan {
    pub countdown: Option<u64>,
    /// Kind of the error to fail with.
    pub kind: Option<io::ErrorKind>,
    pub fired: u64,
    pub ops: u64,
    pub delay: bool,
    pub quota: Option<(u64, u64)>,
    pub drives: Vec<Rc<RefCell<Files>>>,
}

/// Kinds of errors that have no meaning of their own for drives.
pub const FAULTS: [io::ErrorKind; 5] = [
    io::ErrorKind::Other,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionRefused,
];

pub struct FaultyDrive {
    plan: Rc<RefCell<Plan>>,
    files: Rc<RefCell<Files>>,
}

impl FaultyDrive {
    async fn step(&self) -> io::Result<()> {
        if self.plan.borrow().delay {
            futures_lite::future::yield_now().await;
        }
        let mut p = self.plan.borrow_mut();
        p.ops += 1;
        if let Some(n) = p.countdown {
            if n == 0 {
                p.fired += 1;
                p.countdown = None;
                return Err(io::Error::new(p.kind.unwrap_or(io::ErrorKind::Other), "injected drive fault"));
            }
            p.countdown = Some(n - 1);
        }
        Ok(())
    }
}

fn absent() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "No such entry")
}

#[async_trait(?Send)]
impl Drive for FaultyDrive {
    async fn delete(&mut self, name: &str) -> io::Result<()> {
        self.step().await?;
        self.files.borrow_mut().remove(name).map(|_| ()).ok_or_else(absent)
    }
    async fn enumerate(&self) -> io::Result<DriveFiles> {
        self.step().await?;
        let date = time::OffsetDateTime::from_unix_timestamp(1_588_757_875).unwrap();
        let d = self.files.borrow().iter().map(|(n, (c, _))| (n.clone(), Metadata { date, length: c.len() as u64 })).collect();
        let q = self.plan.borrow().quota;
        Ok(DriveFiles::new(d, q.map(|q| DiskSpace::new(q.0, 1)), q.map(|q| DiskSpace::new(q.1, 1))))
    }
    async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
        self.step().await?;
        self.files.borrow().get(name).map(|f| f.0.clone()).ok_or_else(absent)
    }
    async fn get_acls(&self, name: &str) -> io::Result<FileAcls> {
        self.step().await?;
        let f = self.files.borrow();
        let f = f.get(name).ok_or_else(absent)?;
        Ok(FileAcls::default().with_readers(f.1.iter().cloned().collect::<Vec<_>>()))
    }
    async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
        self.step().await?;
        self.files.borrow_mut().entry(name.to_owned()).or_default().0 = content.to_vec();
        Ok(())
    }
    async fn update_acls(&mut self, name: &str, add: &FileAcls, remove: &FileAcls) -> io::Result<()> {
        self.step().await?;
        let mut f = self.files.borrow_mut();
        let f = f.get_mut(name).ok_or_else(absent)?;
        for r in remove.readers() {
            f.1.remove(r);
        }
        f.1.extend(add.readers().iter().cloned());
        Ok(())
    }
}

pub struct FaultyFactory(pub Rc<RefCell<Plan>>);

impl DriveFactory for FaultyFactory {
    fn create(&self, target: &str) -> io::Result<Box<dyn Drive>> {
        if target == "refuse" {
            return Err(io::Error::other("refused"));
        }
        let files = Rc::new(RefCell::new(Files::default()));
        self.0.borrow_mut().drives.push(files.clone());
        Ok(Box::new(FaultyDrive { plan: self.0.clone(), files }))
    }
}

// Model ----------------------------------------------------------------------------------------

#[derive(Clone, PartialEq)]
enum Back {
    Mem,
    Dir(PathBuf),
}

struct Mount {
    uri: String,
    back: Back,
    /// Index in `Model::files`.
    files: usize,
}

struct Model {
    mounts: BTreeMap<String, Mount>,
    current: String,
    files: Vec<Files>,
    dirs: BTreeMap<PathBuf, usize>,
    root: PathBuf,
}

type Parsed = (Option<String>, Option<String>);

fn drive_name(s: &str) -> Option<String> {
    if s.is_empty() || s.contains(['\\', '/', '.', ':']) { None } else { Some(s.to_uppercase()) }
}

/// Splits a path in its drive and its file name.
fn parse(s: &str) -> Option<Parsed> {
    let (drive, path) = match s.matches(':').count() {
        0 => (None, s),
        1 => {
            let (d, p) = s.split_once(':').unwrap();
            (Some(drive_name(d)?), p)
        }
        _ => return None,
    };
    let leaf = path.strip_prefix('/').unwrap_or(path);
    if leaf.contains(['/', '\\']) || leaf == "." || leaf == ".." {
        return None;
    }
    Some((drive, if leaf.is_empty() { None } else { Some(leaf.to_owned()) }))
}

impl Model {
    fn new(root: &Path) -> Self {
        let mut mounts = BTreeMap::new();
        mounts.insert("MEMORY".to_owned(), Mount { uri: "memory://".to_owned(), back: Back::Mem, files: 0 });
        Self {
            mounts,
            current: "MEMORY".to_owned(),
            files: vec![Files::default()],
            dirs: BTreeMap::new(),
            root: root.to_owned(),
        }
    }

    fn find(&self, p: &Parsed) -> Option<&Mount> {
        self.mounts.get(p.0.as_ref().unwrap_or(&self.current))
    }

    /// Whether a drive can have a file with the given name.
    fn possible(m: &Mount, leaf: &str) -> bool {
        match m.back {
            Back::Mem => true,
            Back::Dir(ref d) => (leaf != "sub" || !d.ends_with("d1")) && !leaf.contains('\0') && leaf.len() <= 255,
        }
    }

    fn target(&self, raw: &str) -> Option<(usize, String)> {
        let p = parse(raw)?;
        let m = self.find(&p)?;
        let leaf = p.1?;
        if !Self::possible(m, &leaf) {
            return None;
        }
        Some((m.files, leaf))
    }

    fn get(&self, raw: &str) -> Option<Vec<u8>> {
        let (d, leaf) = self.target(raw)?;
        self.files[d].get(&leaf).map(|f| f.0.clone())
    }

    fn put(&mut self, raw: &str, content: &[u8]) -> Option<()> {
        let (d, leaf) = self.target(raw)?;
        self.files[d].entry(leaf).or_default().0 = content.to_vec();
        Some(())
    }

    fn delete(&mut self, raw: &str) -> Option<()> {
        let (d, leaf) = self.target(raw)?;
        self.files[d].remove(&leaf).map(|_| ())
    }

    fn copy(&mut self, src: &str, dest: &str) -> Option<()> {
        let content = self.get(src)?;
        let (_, sleaf) = parse(src)?;
        let d = parse(dest)?;
        let m = self.find(&d)?;
        let leaf = d.1.or(sleaf)?;
        if !Self::possible(m, &leaf) {
            return None;
        }
        let k = m.files;
        self.files[k].entry(leaf).or_default().0 = content;
        Some(())
    }

    fn enumerate(&self, raw: &str) -> Option<&Mount> {
        let p = parse(raw)?;
        if p.1.is_some() {
            return None;
        }
        self.find(&p)
    }

    fn canonical(&self, raw: &str) -> Option<Parsed> {
        let p = parse(raw)?;
        Some((Some(p.0.unwrap_or_else(|| self.current.clone())), p.1))
    }

    fn mount(&mut self, name: &str, uri: &str) -> Option<()> {
        let k = uri.find("://")?;
        let (scheme, path) = (uri[..k].to_lowercase(), &uri[k + 3..]);
        let key = drive_name(name)?;
        if self.mounts.contains_key(&key) {
            return None;
        }
        let (back, files) = match scheme.as_str() {
            "memory" if path.is_empty() => {
                self.files.push(Files::default());
                (Back::Mem, self.files.len() - 1)
            }
            "fault" if path != "refuse" => {
                self.files.push(Files::default());
                (Back::Mem, self.files.len() - 1)
            }
            "file" if !path.is_empty() => {
                let dir = PathBuf::from(path);
                let dir: PathBuf = dir.components().collect();
                let k = match self.dirs.get(&dir) {
                    Some(k) => *k,
                    None => {
                        self.files.push(Files::default());
                        self.dirs.insert(dir.clone(), self.files.len() - 1);
                        self.files.len() - 1
                    }
                };
                (Back::Dir(dir), k)
            }
            _ => return None,
        };
        self.mounts.insert(key, Mount { uri: uri.to_owned(), back, files });
        Some(())
    }

    fn unmount(&mut self, name: &str) -> Option<()> {
        let key = drive_name(name)?;
        if self.current == key {
            return None;
        }
        self.mounts.remove(&key).map(|_| ())
    }

    fn cd(&mut self, raw: &str) -> Option<()> {
        let p = parse(raw)?;
        if p.1.is_some() {
            return None;
        }
        self.find(&p)?;
        if let Some(d) = p.0 {
            self.current = d;
        }
        Some(())
    }
}

/// Every file and directory under `dir`, with the contents of files.
fn tree(dir: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    for e in fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let p = e.path();
        let t = e.file_type().unwrap();
        if t.is_dir() {
            out.insert(p.clone(), None);
            tree(&p, out);
        } else if t.is_file() {
            out.insert(p.clone(), Some(fs::read(&p).unwrap()));
        }
    }
}

/// Checks the whole state of the storage against the model.
fn check(m: &Model, s: &Storage, base: &BTreeMap<PathBuf, Option<Vec<u8>>>, hist: &str) -> R {
    let got: Vec<(String, String)> = s.mounted().iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let want: Vec<(String, String)> = m.mounts.iter().map(|(a, b)| (a.clone(), b.uri.clone())).collect();
    same("mounted drives", hist, &got, &want)?;
    same("current location", hist, &s.cwd(), &format!("{}:/", m.current))?;
    for (name, mt) in &m.mounts {
        let f = &m.files[mt.files];
        let got: Vec<(String, u64)> = match wait(s.enumerate(&format!("{}:", name))) {
            Ok(d) => d.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect(),
            Err(e) => return Err(viol("cannot enumerate drive", format!("{}\n--- drive {}: {}", hist, name, e))),
        };
        let want: Vec<(String, u64)> = f.iter().map(|(n, c)| (n.clone(), c.0.len() as u64)).collect();
        same("files in drive", &format!("{}--- drive {}", hist, name), &got, &want)?;
        for (n, c) in f {
            if n.contains(':') {
                continue;
            }
            let path = format!("{}:/{}", name.to_lowercase(), n);
            match wait(s.get(&path)) {
                Ok(g) => same("contents of file", &format!("{}--- file {}", hist, path), &g, &c.0)?,
                Err(e) => return Err(viol("cannot read file", format!("{}--- file {}: {}", hist, path, e))),
            }
            match (&mt.back, wait(s.get_acls(&path))) {
                (Back::Mem, Ok(a)) => {
                    let want: Vec<String> = c.1.iter().cloned().collect();
                    same("readers of file", &format!("{}--- file {}", hist, path), &a.readers().to_vec(), &want)?
                }
                (Back::Dir(_), Err(_)) => (),
                (_, a) => return Err(viol("readers of file", format!("{}--- file {}: {:?}", hist, path, a))),
            }
        }
    }
    let mut got = BTreeMap::new();
    tree(&m.root, &mut got);
    let mut want = base.clone();
    for (d, k) in &m.dirs {
        for a in d.ancestors() {
            if a.starts_with(&m.root) && a != m.root {
                want.insert(a.to_owned(), None);
            }
        }
        for (n, c) in &m.files[*k] {
            want.insert(d.join(n), Some(c.0.clone()));
        }
    }
    same("host file system", hist, &got, &want)
}

// Generators -----------------------------------------------------------------------------------

const LEAVES: &[&str] = &[
    "a", "a", "b.bas", "b.bas", "B.BAS", "FOO", "foo", "foo.bas", "x y", "é.BAS", "日本", ".x", "x.", "...", "a.b.c",
];
const ODD: &[&str] = &[
    ".", "..", "../canary", "..\\canary", "sub", "sub/inner", "/etc/passwd", "a\0b", "~", "%2e%2e", "a/", "\\", " ", "..a",
    "canary\n", "a/../../canary", "./a", "-rf", "*",
];
const DRIVES: &[&str] = &["memory", "MEMORY", "one", "One", "two", "TWO", "three", "ß", "four"];
const ODD_DRIVES: &[&str] = &["", "a.b", "a/b", "a\\b", "..", " ", "a:b", "nope"];

pub fn path(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(10) {
        0..=3 => (),
        9 => {
            s.push_str(r.pick(ODD_DRIVES));
            s.push(':');
        }
        _ => {
            s.push_str(r.pick(DRIVES));
            s.push(':');
        }
    }
    match r.below(8) {
        0..=1 => s.push('/'),
        2 if r.chance(1, 4) => s.push_str("//"),
        _ => (),
    }
    match r.below(12) {
        0 => s.push_str(r.pick(ODD)),
        1 => {
            if r.chance(1, 8) {
                s.push_str(&"l".repeat(255 + r.below(2)));
            }
        }
        2 => (),
        _ => s.push_str(r.pick(LEAVES)),
    }
    s
}

fn dir_path(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => path(r),
        2 => r.pick(&["/", ".", "..", "//"]).to_string(),
        _ => format!("{}:{}", r.pick(DRIVES), r.pick(&["", "/"])),
    }
}

fn name(r: &mut Rng) -> String {
    if r.chance(1, 8) { r.pick(ODD_DRIVES).to_string() } else { r.pick(DRIVES).to_string() }
}

fn uri(r: &mut Rng, root: &Path) -> String {
    let root = root.display();
    match r.below(12) {
        0 => r
            .pick(&["memory://x", "file://", "nope://x", "memory", "://", "", "fault://refuse", "file:/x", "memory:/", "é://"])
            .to_string(),
        1 | 2 => "memory://".to_owned(),
        3 => "MEMORY://".to_owned(),
        4 | 5 | 10 => "fault://x".to_owned(),
        6 => format!("FILE://{}/d1", root),
        7 => format!("file://{}/new/{}", root, r.pick(&["a", "b", "é"])),
        8 => format!("file://{}/d1/", root),
        9 => format!("file://{}/d1/sub", root),
        _ => format!("file://{}/{}", root, r.pick(&["d1", "d2", "./d2", "d2//"])),
    }
}

fn content(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 1, 5, 20, 1000, 70_000]);
    let n = if n == 70_000 && !r.chance(1, 10) { 3 } else { n };
    (0..n).map(|_| r.next() as u8).collect()
}

// S04, S05 -------------------------------------------------------------------------------------

/// Lines that DIR prints for the given drive.
fn dir_lines(m: &Model, mt: &Mount, narrow: bool, quota: Option<(u64, u64)>) -> Vec<String> {
    let mut v = vec![String::new()];
    v.push("    Directory of ".to_owned());
    v.push(String::new());
    let f = &m.files[mt.files];
    if narrow {
        v.extend(f.keys().map(|n| format!("    {}", n)));
    } else {
        v.push("    Modified              Size    Name".to_owned());
        v.extend(f.iter().map(|(n, c)| format!("    2020-05-06 09:37    {:>6}    {}", c.0.len(), n)));
    }
    if !f.is_empty() {
        v.push(String::new());
    }
    if narrow {
        v.push(format!("    {} file(s)", f.len()));
    } else {
        v.push(format!("    {} file(s), {} bytes", f.len(), f.values().map(|c| c.0.len()).sum::<usize>()));
        if let (Some((a, b)), true) = (quota, mt.back == Back::Mem && mt.uri.starts_with("fault")) {
            v.push(format!("    {} of {} bytes free", b, a));
        }
    }
    v.push(String::new());
    v
}

/// Hides the parts of the output of DIR that depend on the host.
fn hide_dates(v: &[String], back: &Back) -> Vec<String> {
    v.iter()
        .enumerate()
        .map(|(i, l)| {
            if i == 1 {
                return "    Directory of ".to_owned();
            }
            let b = l.as_bytes();
            if *back != Back::Mem
                && b.len() > 20
                && (4..20).all(|k| match k {
                    8 | 11 => b[k] == b'-',
                    14 => b[k] == b' ',
                    17 => b[k] == b':',
                    _ => b[k].is_ascii_digit(),
                })
            {
                format!("    2020-05-06 09:37{}", &l[20..])
            } else {
                l.clone()
            }
        })
        .collect()
}

pub fn fresh_root() -> PathBuf {
    let base = scratch();
    let base = base.canonicalize().unwrap();
    let root = base.join("st");
    let _ = fs::remove_dir_all(&root);
    fs::create_dir_all(root.join("d1/sub")).unwrap();
    fs::create_dir_all(root.join("d2")).unwrap();
    fs::write(root.join("canary"), "canary").unwrap();
    root
}

fn history(c: &mut Case, faults: bool) -> R {
    let root = fresh_root();
    let mut base = BTreeMap::new();
    tree(&root, &mut base);
    let plan = Rc::new(RefCell::new(Plan::default()));
    plan.borrow_mut().delay = c.rng.bool();
    if c.rng.bool() {
        plan.borrow_mut().quota = Some((c.rng.next(), c.rng.next() % 1000));
    }
    let quota = plan.borrow().quota;
    let mut st = Storage::default();
    st.register_scheme("file", Box::<DirectoryDriveFactory>::default());
    st.register_scheme("fault", Box::new(FaultyFactory(plan.clone())));
    let table = Table::default();
    let narrow = c.rng.chance(1, 3);
    let mut m = mach::build(Opts {
        storage: Some(Rc::new(RefCell::new(st))),
        callables: trace::sources(&table),
        ..Default::default()
    });
    m.console.borrow_mut().size = CharsXY::new(if narrow { 40 } else { 80 }, 24);
    let storage = m.storage.clone();
    let mut model = Model::new(&root);
    let mut hist = String::new();
    let n = 5 + c.rng.few(20);
    let r = &mut c.rng;
    for step in 0..n {
        // Most histories start by mounting something.
        let op = if step < 3 && r.chance(2, 3) { 0 } else { r.below(13) };
        let basic = r.bool();
        let mut fault_console = false;
        if faults && r.chance(1, 2) {
            plan.borrow_mut().countdown = Some(r.weighted(&[6, 2, 1]) as u64);
            plan.borrow_mut().kind = Some(*r.pick(&FAULTS));
            if r.chance(1, 4) {
                fault_console = true;
                m.console.borrow_mut().fail_after = Some(r.below(12) as u64);
            }
        }
        let fired0 = plan.borrow().fired;
        m.console.borrow_mut().log.clear();
        let shown0 = m.console.borrow().ops;
        // What the operation is, whether it worked as observed, and what the model says.
        let what: String;
        let got: bool;
        let want: bool;
        let mut undo: Option<(usize, Files)> = None;
        macro_rules! cmd {
            ($fmt:expr, $($a:expr),*) => {{
                *table.borrow_mut() = vec![$(Val::S($a.as_str().into())),*];
                match m.run($fmt) {
                    Out::Eof => true,
                    Out::Runtime(e) if e.starts_with("1:1: ") => false,
                    o => return Err(viol("unexpected outcome", format!("{}{} {:?}\n--- {:?}", hist, $fmt, table.borrow(), o))),
                }
            }};
        }
        match op {
            0 => {
                let (u, d) = (uri(r, &root), name(r));
                what = format!("MOUNT {:?} AS {:?}", u, d);
                got = if basic {
                    cmd!("MOUNT VS(0) AS VS(1)\n", u, d)
                } else {
                    storage.borrow_mut().mount(&d, &u).is_ok()
                };
                want = model.mount(&d, &u).is_some();
            }
            1 => {
                let d = name(r);
                what = format!("UNMOUNT {:?}", d);
                got = if basic { cmd!("UNMOUNT VS(0)\n", d) } else { storage.borrow_mut().unmount(&d).is_ok() };
                want = model.unmount(&d).is_some();
            }
            2 => {
                let d = dir_path(r);
                what = format!("CD {:?}", d);
                got = if basic { cmd!("CD VS(0)\n", d) } else { storage.borrow_mut().cd(&d).is_ok() };
                want = model.cd(&d).is_some();
            }
            3 | 4 => {
                let (a, b) = (path(r), if r.chance(1, 3) { dir_path(r) } else { path(r) });
                what = format!("COPY {:?}, {:?}", a, b);
                got = if basic { cmd!("COPY VS(0), VS(1)\n", a, b) } else { wait(storage.borrow_mut().copy(&a, &b)).is_ok() };
                undo = model.target(&b).map(|(d, _)| d).or_else(|| model.enumerate(&b).map(|m| m.files)).map(|d| (d, model.files[d].clone()));
                want = model.copy(&a, &b).is_some();
            }
            5 => {
                let p = path(r);
                what = format!("KILL {:?}", p);
                got = if basic { cmd!("KILL VS(0)\n", p) } else { wait(storage.borrow_mut().delete(&p)).is_ok() };
                undo = model.target(&p).map(|(d, _)| (d, model.files[d].clone()));
                want = model.delete(&p).is_some();
            }
            6 | 7 => {
                let (p, b) = (path(r), content(r));
                what = format!("put {:?} {} bytes", p, b.len());
                got = wait(storage.borrow_mut().put(&p, &b)).is_ok();
                undo = model.target(&p).map(|(d, _)| (d, model.files[d].clone()));
                want = model.put(&p, &b).is_some();
            }
            8 => {
                let p = path(r);
                what = format!("get {:?}", p);
                let g = wait(storage.borrow().get(&p)).ok();
                let w = model.get(&p);
                got = g.is_some();
                want = w.is_some();
                if got && want {
                    same("contents of file", &format!("{}{}", hist, what), &g, &w)?;
                }
            }
            9 => {
                let p = path(r);
                let (add, rm) = (*r.pick(&["u1", "u2", "public"]), *r.pick(&["u1", "u2", "public"]));
                what = format!("update_acls {:?} +{} -{}", p, add, rm);
                got = wait(storage.borrow_mut().update_acls(
                    &p,
                    &FileAcls::default().with_readers([add.to_owned()]),
                    &FileAcls::default().with_readers([rm.to_owned()]),
                ))
                .is_ok();
                undo = model.target(&p).map(|(d, _)| (d, model.files[d].clone()));
                want = match model.target(&p) {
                    Some((d, leaf)) if model.files[d].contains_key(&leaf) => {
                        let pp = parse(&p).unwrap();
                        if model.find(&pp).unwrap().back == Back::Mem {
                            let f = model.files[d].get_mut(&leaf).unwrap();
                            f.1.remove(rm);
                            f.1.insert(add.to_owned());
                            true
                        } else {
                            false
                        }
                    }
                    _ => false,
                };
            }
            10 => {
                let d = dir_path(r);
                what = format!("DIR {:?}", d);
                let (src, raw) = if d.is_empty() { ("DIR\n", String::new()) } else { ("DIR VS(0)\n", d) };
                got = cmd!(src, raw);
                let w = model.enumerate(&raw);
                want = w.is_some();
                if let (true, Some(mt)) = (got, w) {
                    let lines: Vec<String> = m
                        .console
                        .borrow()
                        .log
                        .iter()
                        .map(|e| match e {
                            Ev::Print(s) => s.clone(),
                            e => format!("{:?}", e),
                        })
                        .collect();
                    // The exact form of the canonical path is not specified beyond naming the drive.
                    let d = model.canonical(&raw).unwrap().0.unwrap();
                    if !lines.get(1).is_some_and(|l| l.starts_with(&format!("    Directory of {}:", d))) {
                        return Err(viol("output of DIR", format!("{}{}\n--- {:?}", hist, what, lines)));
                    }
                    same(
                        "output of DIR",
                        &format!("{}{}", hist, what),
                        &hide_dates(&lines, &mt.back),
                        &dir_lines(&model, mt, narrow, quota),
                    )?;
                    c.obs.counts.entry("listings".to_owned()).and_modify(|n| *n += 1).or_insert(1);
                }
            }
            11 => {
                what = "MOUNT".to_owned();
                let dummy = String::new();
                got = cmd!("MOUNT\n", dummy);
                want = true;
                if got {
                    let w = model.mounts.keys().map(|k| k.len()).max().unwrap().max(4);
                    let mut lines = vec![String::new(), format!("    {:w$}    Target", "Name", w = w)];
                    for (k, mt) in &model.mounts {
                        lines.push(format!("    {}{}    {}", k, " ".repeat(w - k.len()), mt.uri));
                    }
                    lines.extend([String::new(), format!("    {} drive(s)", model.mounts.len()), String::new()]);
                    let text = lines.join("\n") + "\n";
                    same("output of MOUNT", &format!("{}{}", hist, what), &m.console.borrow().text(), &text)?;
                    c.obs.counts.entry("listings".to_owned()).and_modify(|n| *n += 1).or_insert(1);
                }
            }
            _ => {
                what = "PWD".to_owned();
                let dummy = String::new();
                got = cmd!("PWD\n", dummy);
                want = true;
                if got {
                    let mt = &model.mounts[&model.current];
                    let sys = match &mt.back {
                        Back::Mem => "No system location available".to_owned(),
                        Back::Dir(d) => format!("System location: {}", d.display()),
                    };
                    let text = m.console.borrow().text();
                    let lines: Vec<&str> = text.lines().map(|l| l.trim_end_matches('/')).collect();
                    same(
                        "output of PWD",
                        &format!("{}{}", hist, what),
                        &lines,
                        &vec!["", &format!("    Working directory: {}:", model.current), &format!("    {}", sys), ""],
                    )?;
                    c.obs.counts.entry("listings".to_owned()).and_modify(|n| *n += 1).or_insert(1);
                }
            }
        }
        let fired = plan.borrow().fired > fired0;
        let confail = fault_console && {
            let con = m.console.borrow();
            con.fail_after == Some(0) && con.ops > shown0
        };
        plan.borrow_mut().countdown = None;
        m.console.borrow_mut().fail_after = None;
        hist.push_str(&format!("{}{}\n", what, if fired { " (fault)" } else { "" }));
        set_input(&hist);
        if fired {
            *c.obs.counts.entry("drive faults".to_owned()).or_insert(0) += 1;
            if got {
                return Err(viol("fault not reported", hist.clone()));
            }
            if let Some((d, f)) = undo {
                model.files[d] = f;
            }
        } else if confail && op >= 10 {
            *c.obs.counts.entry("console faults".to_owned()).or_insert(0) += 1;
            // fail_after can get to zero without any later operation failing.
            if got && !want {
                return Err(viol("outcome of operation", format!("{}--- oracle {} observed {}", hist, want, got)));
            }
        } else if got != want {
            return Err(viol("outcome of operation", format!("{}--- oracle {} observed {}", hist, want, got)));
        }
        *c.obs.counts.entry(if got { "successes" } else { "failures" }.to_owned()).or_insert(0) += 1;
        check(&model, &storage.borrow(), &base, &hist)?;
        c.obs.evals += 1;
    }
    c.distinct(&hist);
    c.sample(|| hist.clone());
    let _ = fs::remove_dir_all(&root);
    Ok(())
}

fn s04(c: &mut Case) -> R {
    history(c, false)
}

fn s05(c: &mut Case) -> R {
    history(c, true)
}

/// Canonicalization of names.
fn s04_names(c: &mut Case) -> R {
    let mut s = Storage::default();
    for d in ["one", "two"] {
        s.mount(d, "memory://").unwrap();
    }
    let cur = *c.rng.pick(&["memory", "one", "two"]);
    s.cd(&format!("{}:", cur)).unwrap();
    let raw = if c.rng.bool() {
        path(&mut c.rng)
    } else {
        let n = c.rng.below(8);
        (0..n).map(|_| *c.rng.pick(&['a', 'B', '.', '/', ':', '\\', 'é', '1', ' '])).collect()
    };
    c.input(format!("cwd {}: {:?}", cur, raw));
    let model = parse(&raw);
    let got = s.make_canonical(&raw);
    let ext = s.make_canonical_with_extension(&raw, "bas");
    let cwd = cur.to_uppercase();
    let ctx = format!("cwd {}, path {:?}", cur, raw);
    match model {
        None => {
            c.saw("rejected paths", 1);
            if got.is_ok() || ext.is_ok() {
                return Err(viol("invalid path accepted", format!("{}: {:?} {:?}", ctx, got, ext)));
            }
            for op in 0..4 {
                let ok = match op {
                    0 => wait(s.get(&raw)).is_ok(),
                    1 => wait(s.put(&raw, b"x")).is_ok(),
                    2 => wait(s.delete(&raw)).is_ok(),
                    _ => s.cd(&raw).is_ok(),
                };
                if ok {
                    return Err(viol("invalid path accepted", format!("{}: operation {}", ctx, op)));
                }
            }
        }
        Some((d, leaf)) => {
            c.saw("accepted paths", 1);
            let d = d.unwrap_or(cwd);
            let got = got.map_err(|e| viol("valid path rejected", format!("{}: {}", ctx, e)))?;
            same("canonical path", &ctx, &parse(&got), &Some((Some(d.clone()), leaf.clone())))?;
            // Canonical paths do not change any further.
            same("canonical path is stable", &ctx, &s.make_canonical(&got).ok(), &Some(got.clone()))?;
            match leaf {
                None => {
                    if let Ok(e) = ext {
                        return Err(viol("extension of nothing", format!("{}: {}", ctx, e)));
                    }
                }
                Some(l) => {
                    let e = ext.map_err(|e| viol("valid path rejected", format!("{}: {}", ctx, e)))?;
                    let want = if l.contains('.') {
                        l.clone()
                    } else if l.chars().any(|c| c.is_ascii_lowercase()) {
                        format!("{}.bas", l)
                    } else {
                        format!("{}.BAS", l)
                    };
                    same("default extension", &ctx, &parse(&e), &Some((Some(d.clone()), Some(want.clone()))))?;
                    same("default extension is stable", &ctx, &s.make_canonical_with_extension(&e, "bas").ok(), &Some(e.clone()))?;
                    // The original and canonical names refer to the same file.
                    if s.mounted().contains_key(d.as_str()) {
                        wait(s.put(&raw, l.as_bytes())).map_err(|e| viol("cannot put", format!("{}: {}", ctx, e)))?;
                        let g = wait(s.get(&got)).ok();
                        same("canonical path refers to another file", &ctx, &g, &Some(l.clone().into_bytes()))?;
                    }
                }
            }
        }
    }
    c.distinct(&raw);
    Ok(())
}

unsafe extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}

/// Runs `f` while files cannot grow beyond `n` bytes.
pub fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    const RLIMIT_FSIZE: i32 = 1;
    unsafe {
        signal(25, 1);
        let mut old = [0u64; 2];
        getrlimit(RLIMIT_FSIZE, &mut old);
        setrlimit(RLIMIT_FSIZE, &[n, old[1]]);
        let r = f();
        setrlimit(RLIMIT_FSIZE, &old);
        r
    }
}

/// Full disks.
fn s05_full(c: &mut Case) -> R {
    let root = fresh_root();
    let mut s = Storage::default();
    s.register_scheme("file", Box::<DirectoryDriveFactory>::default());
    s.mount("D", &format!("file://{}/d1", root.display())).unwrap();
    s.mount("E", &format!("file://{}/d2", root.display())).unwrap();
    let other = content(&mut c.rng);
    wait(s.put("d:other", &other)).unwrap();
    wait(s.put("e:other", &other)).unwrap();
    let b: Vec<u8> = (0..c.rng.below(40_000)).map(|i| i as u8).collect();
    wait(s.put("e:src", &b)).unwrap();
    let limit = c.rng.below(40_000) as u64;
    let copy = c.rng.bool();
    c.input(format!("{} bytes with limit {} copy {}", b.len(), limit, copy));
    let res = with_file_limit(limit, || if copy { wait(s.copy("e:src", "d:")) } else { wait(s.put("d:src", &b)) });
    let ctx = format!("put of {} bytes with room for {}", b.len(), limit);
    match res {
        Ok(()) => {
            if b.len() as u64 > limit {
                return Err(viol("write to full disk not reported", ctx));
            }
            c.saw("writes that fit", 1);
            same("contents after write", &ctx, &wait(s.get("d:src")).ok(), &Some(b.clone()))?;
        }
        Err(e) => {
            c.saw("writes that did not fit", 1);
            if b.len() as u64 <= limit {
                return Err(viol("spurious failure", format!("{}: {}", ctx, e)));
            }
        }
    }
    same("other file", &ctx, &wait(s.get("d:other")).ok(), &Some(other.clone()))?;
    same("other file", &ctx, &wait(s.get("e:other")).ok(), &Some(other))?;
    same("source file", &ctx, &wait(s.get("e:src")).ok(), &Some(b.clone()))?;
    // There is room again.
    wait(s.put("d:src", &b)).map_err(|e| viol("write after failure", format!("{}: {}", ctx, e)))?;
    same("contents after retry", &ctx, &wait(s.get("d:src")).ok(), &Some(b))?;
    c.distinct(&(ctx, copy));
    Ok(())
}

/// Directories with entries of unusual kinds.
fn s05_odd(c: &mut Case) -> R {
    let root = fresh_root();
    let d = root.join("d1");
    let mut want = BTreeMap::new();
    let mut hist = String::new();
    for i in 0..c.rng.few(8) {
        let p = d.join(format!("f{}", i));
        match c.rng.below(5) {
            0 => {
                hist.push_str(&format!("f{}: dangling link\n", i));
                std::os::unix::fs::symlink(root.join("missing"), &p).unwrap();
            }
            1 => {
                hist.push_str(&format!("f{}: link to directory\n", i));
                std::os::unix::fs::symlink(root.join("d2"), &p).unwrap();
            }
            2 => {
                hist.push_str(&format!("f{}: directory\n", i));
                fs::create_dir(&p).unwrap();
            }
            3 => {
                hist.push_str(&format!("f{}: link to file\n", i));
                fs::write(root.join(format!("t{}", i)), "target").unwrap();
                std::os::unix::fs::symlink(root.join(format!("t{}", i)), &p).unwrap();
                want.insert(format!("f{}", i), 6u64);
            }
            _ => {
                hist.push_str(&format!("f{}: file\n", i));
                fs::write(&p, "x").unwrap();
                want.insert(format!("f{}", i), 1);
            }
        }
    }
    c.input(hist.clone());
    let mut s = Storage::default();
    s.register_scheme("file", Box::<DirectoryDriveFactory>::default());
    s.mount("D", &format!("file://{}", d.display())).unwrap();
    let e = wait(s.enumerate("d:")).map_err(|e| viol("cannot list directory", format!("{}--- {}", hist, e)))?;
    let got: BTreeMap<String, u64> = e.dirents().iter().map(|(n, m)| (n.clone(), m.length)).collect();
    same("files listed", &hist, &got, &want)?;
    for n in want.keys() {
        if wait(s.get(&format!("d:{}", n))).is_err() {
            return Err(viol("listed file cannot be read", format!("{}--- {}", hist, n)));
        }
    }
    c.saw("directories listed", 1);
    c.distinct(&hist);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S04",
            level: "exploration",
            rule: "Random histories of storage operations, through commands and the API, over memory, directory and custom drives, with hostile paths; after each one, drives, files, readers, location and the host directory tree are compared with a model; distinct = different histories",
            assumptions: &["file systems of Linux", "directories are only changed by the program"],
            require: &[("successes", 1000), ("failures", 1000), ("listings", 200), ("accepted paths", 1000), ("rejected paths", 1000)],
            stages: vec![
                Stage { name: "histories", quick: 60_000, thorough: 600_000, f: s04 },
                Stage { name: "names", quick: 150_000, thorough: 2_000_000, f: s04_names },
            ],
            probes: vec![],
        },
        Prop {
            id: "S05",
            level: "fault_enumeration",
            rule: "Histories of storage operations with faults injected in drives and the console, full disks and unusual directory entries; distinct = different histories",
            assumptions: &["a drive operation that fails has had no effect", "a file whose write fails may be lost"],
            require: &[("drive faults", 500), ("console faults", 50), ("writes that did not fit", 100), ("directories listed", 100)],
            stages: vec![
                Stage { name: "faults", quick: 50_000, thorough: 600_000, f: s05 },
                Stage { name: "full", quick: 2_500, thorough: 30_000, f: s05_full },
                Stage { name: "odd", quick: 500, thorough: 5_000, f: s05_odd },
            ],
            probes: vec![],
        },
    ]
}
