//! Scenarios, results and the simulator processes that execute them.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub mod bytes {
    use super::*;
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(v) {
            Ok(t) => s.serialize_str(t),
            Err(_) => {
                let h: String = v.iter().map(|b| format!("{b:02x}")).collect();
                let mut m = BTreeMap::new();
                m.insert("hex", h);
                m.serialize(s)
            }
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let v = serde_json::Value::deserialize(d)?;
        match v {
            serde_json::Value::String(s) => Ok(s.into_bytes()),
            serde_json::Value::Object(o) => {
                let h = o.get("hex").and_then(|x| x.as_str()).unwrap_or("");
                Ok((0..h.len() / 2)
                    .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                    .collect())
            }
            _ => Err(serde::de::Error::custom("bytes expected")),
        }
    }
}

pub const FILE: u8 = 0;
pub const DIR: u8 = 1;
pub const LINK: u8 = 2;
pub const HARD: u8 = 3;

#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Node {
    pub path: String,
    pub kind: u8,
    pub mode: u32,
    #[serde(default = "d1000")]
    pub uid: u32,
    #[serde(with = "bytes")]
    pub data: Vec<u8>,
}
fn is1000(u: &u32) -> bool {
    *u == 1000
}
fn d1000() -> u32 {
    1000
}
impl Node {
    pub fn file(path: &str, data: impl Into<Vec<u8>>) -> Node {
        Node { path: path.into(), kind: FILE, mode: 0o644, uid: 1000, data: data.into() }
    }
    pub fn dir(path: &str) -> Node {
        Node { path: path.into(), kind: DIR, mode: 0o755, uid: 1000, data: vec![] }
    }
    pub fn link(path: &str, target: &str) -> Node {
        Node { path: path.into(), kind: LINK, mode: 0o777, uid: 1000, data: target.into() }
    }
    pub fn hard(path: &str, target: &str) -> Node {
        Node { path: path.into(), kind: HARD, mode: 0o644, uid: 1000, data: target.into() }
    }
}

#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug, Hash)]
pub struct Entry {
    pub kind: char,
    pub tid: u32,
    pub key: u64,
    pub to: u64,
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Sched {
    /// 0 in turn, 1 random, 2 priorities with change points, 3 starve one thread, 4 focus around operations
    pub mode: u8,
    pub seed: u64,
    pub p1: u64,
    pub p2: u64,
    /// explicit decisions (replay); when present, mode and p1/p2 only matter for clock jitter
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub entries: Option<Vec<Entry>>,
}
impl Sched {
    pub fn fifo() -> Sched {
        Sched { mode: 0, seed: 0, p1: 0, p2: 0, entries: None }
    }
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Fault {
    pub op: String,
    pub path: String,
    /// n-th such operation on that path, 0 = every one, 1000000 + n = from the
    /// n-th on.  A path ending in "?new" stands for every path of that
    /// directory that did not exist when the run began.
    pub nth: u32,
    /// 0 fail with errno arg, 1 transfer at most arg bytes, 2 take arg ns longer
    pub act: u8,
    pub arg: i64,
}
impl Fault {
    pub fn err(op: &str, path: &str, nth: u32, errno: i64) -> Fault {
        Fault { op: op.into(), path: path.into(), nth, act: 0, arg: errno }
    }
    pub fn short(op: &str, path: &str, nth: u32, n: i64) -> Fault {
        Fault { op: op.into(), path: path.into(), nth, act: 1, arg: n }
    }
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Ext {
    pub op: String,
    pub path: String,
    pub nth: u32,
    /// 0 write file, 1 remove, 2 chmod, 3 mkdir, 4 replace by a new file, 5 create unless there
    pub act: u8,
    pub tpath: String,
    #[serde(with = "bytes")]
    pub data: Vec<u8>,
    pub arg: i64,
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Crash {
    /// 1 the process is killed, 2 the machine loses power
    pub kind: u8,
    /// before the n-th change of the file system (from 0)
    pub at: u64,
    /// for a write: this many bytes still get stored; -1 none
    pub partial: i64,
    pub seed: u64,
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Noise {
    pub seed: u64,
    pub p: u32,
    pub mask: u32,
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct Run {
    pub args: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    pub ncpu: u32,
    pub pid: u32,
    #[serde(default = "d1000", skip_serializing_if = "is1000")]
    pub uid: u32,
    pub hash_seed: u64,
    pub dir_seed: u64,
    pub dt_unknown: bool,
    pub tty: u8,
    pub disk_free: i64,
    pub sched: Sched,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub noise: Option<Noise>,
    #[serde(default)]
    pub crash: Option<Crash>,
    #[serde(default)]
    pub exts: Vec<Ext>,
    /// operations before the run counts as never ending
    #[serde(default = "d_ops")]
    pub max_ops: u64,
    #[serde(default = "d_edges")]
    pub max_edges: u64,
    /// files it may have open at once (the usual soft limit of macOS; Linux: 1024)
    #[serde(default = "d_fds", skip_serializing_if = "is_fds")]
    pub fd_limit: u64,
}
fn d_fds() -> u64 {
    256
}
fn is_fds(n: &u64) -> bool {
    *n == 256
}
fn d_edges() -> u64 {
    400_000_000
}
fn d_ops() -> u64 {
    400_000
}
pub fn base_env() -> Vec<String> {
    vec!["PATH=/bin".into(), "HOME=/home/u".into(), "NO_COLOR=1".into(), "TERM=dumb".into()]
}
impl Run {
    pub fn new(cwd: &str, args: &[String]) -> Run {
        Run {
            args: args.to_vec(),
            env: base_env(),
            cwd: cwd.into(),
            ncpu: 1,
            pid: 4242,
            uid: 1000,
            hash_seed: 7,
            dir_seed: 0,
            dt_unknown: false,
            tty: 0,
            disk_free: -1,
            sched: Sched::fifo(),
            faults: vec![],
            noise: None,
            crash: None,
            exts: vec![],
            max_ops: d_ops(),
            max_edges: d_edges(),
            fd_limit: d_fds(),
        }
    }
    /// the same run without schedule, faults and other disturbance
    pub fn undisturbed(&self) -> Run {
        let mut r = Run::new(&self.cwd, &self.args);
        r.env = self.env.clone();
        r.tty = self.tty;
        r.uid = self.uid;
        r
    }
}

/// Paths may hold bytes that are not UTF-8: U+F780..U+F7FF stand for the bytes 0x80..0xff.
pub fn raw(s: &str) -> Vec<u8> {
    if !s.chars().any(|c| ('\u{f780}'..='\u{f7ff}').contains(&c)) {
        return s.as_bytes().to_vec();
    }
    let mut v = vec![];
    let mut b = [0; 4];
    for c in s.chars() {
        match c {
            '\u{f780}'..='\u{f7ff}' => v.push((c as u32 - 0xf700) as u8),
            _ => v.extend_from_slice(c.encode_utf8(&mut b).as_bytes()),
        }
    }
    v
}
fn cooked(mut b: &[u8]) -> String {
    let mut s = String::new();
    loop {
        match std::str::from_utf8(b) {
            Ok(t) => {
                s.push_str(t);
                return s;
            }
            Err(e) => {
                let n = e.valid_up_to();
                s.push_str(&String::from_utf8_lossy(&b[..n]));
                s.push(char::from_u32(0xf700 + u32::from(b[n])).unwrap_or('?'));
                b = &b[n + 1..];
            }
        }
    }
}
/// how a path looks in messages
pub fn shown(s: &str) -> String {
    String::from_utf8_lossy(&raw(s)).into_owned()
}

struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v);
    }
}
pub fn encode(tree: &[Node], r: &Run, want_ops: bool) -> Vec<u8> {
    let mut e = Enc(Vec::with_capacity(4096));
    e.u(0x4c53494d0001);
    e.u(r.args.len() as u64 + 1);
    e.b(b"ludtwig");
    for a in &r.args {
        e.b(&raw(a));
    }
    e.u(r.env.len() as u64);
    for a in &r.env {
        e.b(&raw(a));
    }
    e.b(&raw(&r.cwd));
    e.u(tree.len() as u64);
    for n in tree {
        e.b(&raw(&n.path));
        e.u(n.kind.into());
        e.u(n.mode.into());
        e.u(n.uid.into());
        match (n.kind, std::str::from_utf8(&n.data)) {
            (LINK | HARD, Ok(t)) => e.b(&raw(t)),
            _ => e.b(&n.data),
        }
    }
    e.u(r.ncpu.into());
    e.u(r.uid.into());
    e.u(r.pid.into());
    e.u(r.hash_seed);
    e.u(r.dir_seed);
    e.u(r.dt_unknown.into());
    e.u(r.tty.into());
    e.u(r.disk_free as u64);
    match &r.sched.entries {
        // in replay mode an empty list must still mean "default decisions"
        Some(_) => {
            e.u(0);
            e.u(r.sched.seed);
            e.u(0);
            e.u(0);
        }
        None => {
            e.u(r.sched.mode.into());
            e.u(r.sched.seed);
            e.u(r.sched.p1);
            e.u(r.sched.p2);
        }
    }
    let ents: &[Entry] = r.sched.entries.as_deref().unwrap_or(&[]);
    e.u(ents.len() as u64);
    for x in ents {
        e.u(x.kind as u64);
        e.u(x.tid.into());
        e.u(x.key);
        e.u(x.to);
    }
    e.u(r.faults.len() as u64);
    for f in &r.faults {
        e.b(&raw(&f.op));
        e.b(&raw(&f.path));
        e.u(f.nth.into());
        e.u(f.act.into());
        e.u(f.arg as u64);
    }
    match &r.noise {
        Some(n) => {
            e.u(n.seed);
            e.u(n.p.into());
            e.u(n.mask.into());
        }
        None => {
            e.u(0);
            e.u(0);
            e.u(0);
        }
    }
    match &r.crash {
        Some(c) => {
            e.u(c.kind.into());
            e.u(c.at);
            e.u(c.partial as u64);
            e.u(c.seed);
        }
        None => {
            e.u(0);
            e.u(0);
            e.u(u64::MAX);
            e.u(0);
        }
    }
    e.u(r.exts.len() as u64);
    for x in &r.exts {
        e.b(&raw(&x.op));
        e.b(&raw(&x.path));
        e.u(x.nth.into());
        e.u(x.act.into());
        e.b(&raw(&x.tpath));
        e.b(&x.data);
        e.u(x.arg as u64);
    }
    // how far code may run grows with what there is to read (long lines are cheap per byte, but not free)
    let bytes: u64 = tree.iter().map(|n| n.data.len() as u64).sum();
    e.u(r.max_edges.saturating_add(bytes.saturating_mul(20_000)));
    e.u(r.max_ops);
    e.u(r.fd_limit);
    e.u(want_ops.into());
    e.0
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Crashed,
    Abort,
    Deadlock(String),
    StepCap(String),
    /// killed by a signal (stack overflow, ...)
    Signal(i32),
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub tid: u32,
    pub op: String,
    pub path: String,
    pub res: i64,
    pub arg: u64,
    pub mutn: u64,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub edges: u64,
    pub ops: u64,
    pub mut_ops: u64,
    pub sim_ns: u64,
    pub threads: u64,
    pub switches: u64,
    pub preempts: u64,
    pub spurious: u64,
    pub jumps: u64,
    /// most files open at once, and how often there were too many
    pub peak_fds: u64,
    pub emfile: u64,
    pub trace: u64,
    pub il: u64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub tree: Vec<Node>,
    pub inos: BTreeMap<String, u64>,
    pub oplog: Vec<OpRec>,
    pub fired: Vec<Fault>,
    pub decisions: Vec<Entry>,
}
impl Outcome {
    pub fn get(&self, path: &str) -> Option<&Node> {
        self.tree.iter().find(|n| n.path == path)
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
}

struct Dec<'a>(&'a [u8]);
impl Dec<'_> {
    fn u(&mut self) -> u64 {
        if self.0.len() < 8 {
            self.0 = &[];
            return 0;
        }
        let v = u64::from_le_bytes(self.0[..8].try_into().unwrap());
        self.0 = &self.0[8..];
        v
    }
    fn b(&mut self) -> Vec<u8> {
        let n = (self.u() as usize).min(self.0.len());
        let v = self.0[..n].to_vec();
        self.0 = &self.0[n..];
        v
    }
    fn s(&mut self) -> String {
        cooked(&self.b())
    }
}

pub struct Env {
    pub lib: PathBuf,
    pub bin: PathBuf,
}

unsafe extern "C" {
    fn personality(p: std::ffi::c_ulong) -> std::ffi::c_int;
}
pub struct Server {
    child: Child,
}
#[derive(Debug)]
pub struct HarnessError(pub String);

impl Server {
    pub fn start(env: &Env, cpu: usize) -> Result<Server, HarnessError> {
        let mut c = Command::new(&env.bin);
        c.env_clear()
            .env("LD_PRELOAD", &env.lib)
            .env("SIMCPU", cpu.to_string())
            .current_dir(Path::new("/"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        // same addresses in every simulator process, as far as the kernel lets us
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                personality(0x0004_0000);
                Ok(())
            });
        }
        let child = c
            .spawn()
            .map_err(|e| HarnessError(format!("cannot start simulator: {e}")))?;
        Ok(Server { child })
    }
    pub fn run(&mut self, blob: &[u8]) -> Result<Outcome, HarnessError> {
        let he = |e: std::io::Error| HarnessError(format!("simulator connection: {e}"));
        let w = self.child.stdin.as_mut().unwrap();
        w.write_all(&(blob.len() as u64).to_le_bytes()).map_err(he)?;
        w.write_all(blob).map_err(he)?;
        w.flush().map_err(he)?;
        let r = self.child.stdout.as_mut().unwrap();
        let mut hdr = [0u8; 16];
        r.read_exact(&mut hdr).map_err(he)?;
        let n = u64::from_le_bytes(hdr[..8].try_into().unwrap()) as usize;
        let st = u64::from_le_bytes(hdr[8..].try_into().unwrap()) as i32;
        let mut data = vec![0u8; n];
        r.read_exact(&mut data).map_err(he)?;
        decode(&data, st)
    }
}
impl Server {
    pub fn kill(mut self) {
        let _ = self.child.kill();
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.wait();
    }
}

fn decode(data: &[u8], wait: i32) -> Result<Outcome, HarnessError> {
    let sig = wait & 0x7f;
    if data.is_empty() {
        if sig == 14 {
            return Err(HarnessError("simulated run exceeded its real-time limit".into()));
        }
        if sig != 0 {
            return Ok(Outcome {
                end: End::Signal(sig),
                edges: 0,
                ops: 0,
                mut_ops: 0,
                sim_ns: 0,
                threads: 0,
                switches: 0,
                preempts: 0,
                spurious: 0,
                jumps: 0,
                peak_fds: 0,
                emfile: 0,
                trace: 0,
                il: 0,
                stdout: vec![],
                stderr: vec![],
                tree: vec![],
                inos: BTreeMap::new(),
                oplog: vec![],
                fired: vec![],
                decisions: vec![],
            });
        }
        return Err(HarnessError(format!("no result from simulator (status {wait:#x})")));
    }
    let mut d = Dec(data);
    let status = d.u();
    let code = d.u() as i64 as i32;
    let msg = d.s();
    let end = match status {
        0 => End::Exit(code),
        1 => End::Crashed,
        2 => End::Abort,
        3 => End::Deadlock(msg.clone()),
        4 => End::StepCap(msg.clone()),
        _ => return Err(HarnessError(format!("simulator: {msg}"))),
    };
    let edges = d.u();
    let ops = d.u();
    let mut_ops = d.u();
    let sim_ns = d.u();
    let threads = d.u();
    let switches = d.u();
    let preempts = d.u();
    let spurious = d.u();
    let jumps = d.u();
    let peak_fds = d.u();
    let emfile = d.u();
    let trace = d.u();
    let il = d.u();
    let stdout = d.b();
    let stderr = d.b();
    for _ in 0..d.u() {
        d.u();
        d.u();
        d.u();
    }
    let mut tree = vec![];
    let mut inos = BTreeMap::new();
    let mut by_ino: BTreeMap<u64, String> = BTreeMap::new();
    for _ in 0..d.u() {
        let path = d.s();
        let kind = d.u() as u8;
        let mode = d.u() as u32;
        let uid = d.u() as u32;
        let mut data = d.b();
        if kind == LINK {
            data = cooked(&data).into_bytes();
        }
        let ino = d.u();
        inos.insert(path.clone(), ino);
        let mut n = Node { path: path.clone(), kind, mode, uid, data };
        if kind == FILE {
            if let Some(first) = by_ino.get(&ino) {
                n = Node { path: path.clone(), kind: HARD, mode, uid, data: first.clone().into_bytes() };
            } else {
                by_ino.insert(ino, path.clone());
            }
        }
        tree.push(n);
    }
    let mut oplog = vec![];
    for _ in 0..d.u() {
        oplog.push(OpRec {
            tid: d.u() as u32,
            op: d.s(),
            path: d.s(),
            res: d.u() as i64,
            arg: d.u(),
            mutn: d.u(),
        });
    }
    let mut fired = vec![];
    for _ in 0..d.u() {
        fired.push(Fault { op: d.s(), path: d.s(), nth: d.u() as u32, act: d.u() as u8, arg: d.u() as i64 });
    }
    let mut decisions = vec![];
    for _ in 0..d.u() {
        decisions.push(Entry { kind: d.u() as u8 as char, tid: d.u() as u32, key: d.u(), to: d.u() });
    }
    let mut warns = vec![];
    for _ in 0..d.u() {
        warns.push(d.s());
    }
    if let Some(w) = warns.iter().find(|w| w.contains("unmodelled")) {
        return Err(HarnessError(w.clone()));
    }
    Ok(Outcome {
        end,
        edges,
        ops,
        mut_ops,
        sim_ns,
        threads,
        switches,
        preempts,
        spurious,
        jumps,
        peak_fds,
        emfile,
        trace,
        il,
        stdout,
        stderr,
        tree,
        inos,
        oplog,
        fired,
        decisions,
    })
}
