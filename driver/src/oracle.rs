//! Running scenarios, what an undisturbed run over one template alone does,
//! and how the output of a run decomposes.
use crate::rng::hash_bytes;
use crate::select::*;
use crate::sim::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type HE = HarnessError;

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub disturbed: u64,
    pub sim_ns: u128,
    pub edges: u128,
    pub ops: u128,
    pub switches: u128,
    pub preempts: u128,
    pub spurious: u64,
    pub jumps: u64,
    pub max_threads: u64,
    pub faults: BTreeMap<String, u64>,
    pub il: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub cases: u64,
    pub ends: BTreeMap<String, u64>,
    pub sched: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.disturbed += o.disturbed;
        self.sim_ns += o.sim_ns;
        self.edges += o.edges;
        self.ops += o.ops;
        self.switches += o.switches;
        self.preempts += o.preempts;
        self.spurious += o.spurious;
        self.jumps += o.jumps;
        self.max_threads = self.max_threads.max(o.max_threads);
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.ends {
            *self.ends.entry(k).or_default() += v;
        }
        for (k, v) in o.sched {
            *self.sched.entry(k).or_default() += v;
        }
        self.il.extend(o.il);
        self.nontrivial.extend(o.nontrivial);
        self.cases += o.cases;
    }
}

pub struct Ctx {
    /// number of the world in this search
    pub iter: u64,
    env: Rc<Env>,
    cpu: usize,
    server: Option<Server>,
    pub stats: Stats,
    cache: HashMap<(u64, u64), Rc<Outcome>>,
    pub counting: bool,
    pub log: Option<Vec<Logged>>,
}
/// what a run did, kept while minimising and replaying
pub struct Logged {
    pub run: Run,
    pub mark: String,
    pub decisions: Vec<Entry>,
    pub fired: Vec<Fault>,
    pub ops: Vec<OpRec>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
pub fn errno_name(e: i64) -> String {
    match e {
        1 => "EPERM".into(),
        2 => "ENOENT".into(),
        4 => "EINTR".into(),
        5 => "EIO".into(),
        9 => "EBADF".into(),
        11 => "EAGAIN".into(),
        12 => "ENOMEM".into(),
        13 => "EACCES".into(),
        16 => "EBUSY".into(),
        20 => "ENOTDIR".into(),
        21 => "EISDIR".into(),
        22 => "EINVAL".into(),
        23 => "ENFILE".into(),
        24 => "EMFILE".into(),
        26 => "ETXTBSY".into(),
        27 => "EFBIG".into(),
        28 => "ENOSPC".into(),
        30 => "EROFS".into(),
        32 => "EPIPE".into(),
        36 => "ENAMETOOLONG".into(),
        40 => "ELOOP".into(),
        110 => "ETIMEDOUT".into(),
        116 => "ESTALE".into(),
        122 => "EDQUOT".into(),
        n => format!("errno{n}"),
    }
}
impl Ctx {
    pub fn new(env: Rc<Env>, cpu: usize) -> Ctx {
        Ctx { iter: 0, env, cpu, server: None, stats: Stats::default(), cache: HashMap::new(), counting: true, log: None }
    }
    pub fn restart(&mut self) {
        if let Some(s) = self.server.take() {
            s.kill();
        }
        self.cache.clear();
    }
    fn exec(&mut self, blob: &[u8]) -> Result<Outcome, HE> {
        if self.server.is_none() {
            self.server = Some(Server::start(&self.env, self.cpu)?);
        }
        let r = self.server.as_mut().unwrap().run(blob);
        if r.is_err() {
            if let Some(s) = self.server.take() {
                s.kill();
            }
        }
        r
    }
    /// a run that counts as evidence
    pub fn run(&mut self, tree: &[Node], run: &Run) -> Result<Outcome, HE> {
        let blob = encode(tree, run, true);
        let o = self.exec(&blob)?;
        if let Some(l) = &mut self.log {
            l.push(Logged {
                run: run.clone(),
                mark: crate::run::mark(&o),
                decisions: o.decisions.clone(),
                fired: o.fired.clone(),
                ops: o.oplog.clone(),
                stdout: o.stdout.clone(),
                stderr: o.stderr.clone(),
            });
        }
        if self.counting {
            let s = &mut self.stats;
            s.runs += 1;
            s.sim_ns += u128::from(o.sim_ns);
            s.edges += u128::from(o.edges);
            s.ops += u128::from(o.ops);
            s.switches += u128::from(o.switches);
            s.preempts += u128::from(o.preempts);
            s.spurious += o.spurious;
            s.jumps += o.jumps;
            s.max_threads = s.max_threads.max(o.threads);
            s.il.insert(o.il);
            let m = if run.sched.entries.is_some() { 9 } else { run.sched.mode };
            let name = ["in turn", "random", "priorities", "starve one", "focus on I/O"].get(m as usize).unwrap_or(&"explicit");
            *s.sched.entry((*name).to_string()).or_default() += 1;
            for f in &o.fired {
                let what = match f.act {
                    _ if f.op.starts_with("ext:") => format!("other process acts ({})", ["write", "remove", "chmod", "mkdir", "replace", "create"][f.act as usize % 6]),
                    _ if f.op == "futex" => "spurious wake-up".to_string(),
                    0 => format!("{} {}", f.op, errno_name(f.arg)),
                    2 => format!("{} slow", f.op),
                    _ => format!("{} short", f.op),
                };
                let stream = if f.path.starts_with('<') { " (output stream)" } else { "" };
                *s.faults.entry(format!("{what}{stream}")).or_default() += 1;
            }
            if let Some(c) = &run.crash {
                if o.end == End::Crashed {
                    let k = match (c.kind, c.partial >= 0) {
                        (1, false) => "killed",
                        (1, true) => "killed inside a write",
                        (_, false) => "power loss",
                        (_, true) => "power loss inside a write",
                    };
                    *s.faults.entry(k.to_string()).or_default() += 1;
                }
            }
            if run.disk_free >= 0 {
                *s.faults.entry("disk full (limited space)".into()).or_default() += 1;
            }
            if !o.fired.is_empty() || run.crash.is_some() {
                s.disturbed += 1;
            }
            let e = match &o.end {
                End::Exit(c) => format!("exit {c}"),
                End::Crashed => "crashed".into(),
                End::Abort => "abort".into(),
                End::Deadlock(_) => "deadlock".into(),
                End::StepCap(_) => "step cap".into(),
                End::Signal(n) => format!("signal {n}"),
            };
            *s.ends.entry(e).or_default() += 1;
        }
        Ok(o)
    }
    /// an undisturbed run used as reference
    pub fn cached(&mut self, tree: &[Node], run: &Run) -> Result<Rc<Outcome>, HE> {
        let blob = encode(tree, run, true);
        let key = (hash_bytes(&blob), hash_bytes(&blob[blob.len() / 3..]) ^ blob.len() as u64);
        if let Some(o) = self.cache.get(&key) {
            return Ok(o.clone());
        }
        let o = Rc::new(self.exec(&blob)?);
        if self.cache.len() > 6000 {
            self.cache.clear();
        }
        self.cache.insert(key, o.clone());
        Ok(o)
    }
}

// ------------------------------------------------------------- summary
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Summary {
    pub files: u64,
    pub e: u64,
    pub w: u64,
    pub h: u64,
    pub i: u64,
    pub total: u64,
}
impl Summary {
    pub fn plus(&mut self, o: &Summary) {
        self.files += o.files;
        self.e += o.e;
        self.w += o.w;
        self.h += o.h;
        self.i += o.i;
        self.total += o.total;
    }
}
const SUM: &[u8] = b"\nFiles scanned: ";
pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() {
        return Some(0);
    }
    let first = needle[0];
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        match hay[i..=hay.len() - needle.len()].iter().position(|b| *b == first) {
            None => return None,
            Some(k) => {
                i += k;
                if &hay[i..i + needle.len()] == needle {
                    return Some(i);
                }
                i += 1;
            }
        }
    }
    None
}
pub fn rfind(hay: &[u8], needle: &[u8]) -> Option<usize> {
    (0..(hay.len() + 1).saturating_sub(needle.len())).rev().find(|i| &hay[*i..*i + needle.len()] == needle)
}
pub fn count(hay: &[u8], needle: &[u8]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while let Some(k) = find(&hay[i..], needle) {
        n += 1;
        i += k + needle.len();
    }
    n
}
fn parse_summary(s: &[u8]) -> Option<Summary> {
    let t = std::str::from_utf8(s).ok()?;
    let mut v = vec![];
    let mut rest = t.strip_prefix('\n')?.strip_suffix('\n')?;
    for (k, last) in [("Files scanned: ", false), ("Errors: ", false), ("Warnings: ", false), ("Helps: ", false), ("Info: ", false), ("Total: ", true)] {
        rest = rest.strip_prefix(k)?;
        let (num, r) = if last { (rest, "") } else { rest.split_once(", ")? };
        v.push(num.parse::<u64>().ok()?);
        rest = r;
    }
    Some(Summary { files: v[0], e: v[1], w: v[2], h: v[3], i: v[4], total: v[5] })
}
/// splits off a summary at the very end
pub fn split_summary(s: &[u8]) -> (&[u8], Option<Summary>) {
    if let Some(k) = rfind(s, SUM) {
        if let Some(x) = parse_summary(&s[k..]) {
            return (&s[..k], Some(x));
        }
    }
    (s, None)
}
pub fn has_summary_anywhere(s: &[u8]) -> usize {
    count(s, b"Files scanned: ")
}

// ------------------------------------------------------------- references
#[derive(Clone, Debug)]
pub struct Ref {
    pub sel: Sel,
    /// what it prints on stderr for this template
    pub block: Vec<u8>,
    /// block consists of error messages: the template could not be processed
    pub failed: bool,
    /// lines on stdout about this template
    pub said: Vec<u8>,
    /// real path of the data and its bytes before and after
    pub real: String,
    pub orig: Option<Vec<u8>>,
    pub fixed: Option<Vec<u8>>,
    pub sum: Summary,
    pub exit: i32,
    pub odd: Option<String>,
}
impl Ref {
    pub fn changes(&self) -> bool {
        self.orig != self.fixed
    }
    pub fn ok_content(&self, c: Option<&Vec<u8>>) -> bool {
        c.is_some() && (c == self.orig.as_ref() || c == self.fixed.as_ref())
    }
}
pub struct Exp {
    pub head: Vec<u8>,
    pub pre: Vec<u8>,
    pub files: Vec<Ref>,
    pub sel: Selection,
    pub fix: bool,
    pub inspect: bool,
}
fn is_conf(n: &Node, run: &Run) -> bool {
    if base(&n.path) == "ludtwig-config.toml" {
        return true;
    }
    let mut it = run.args.iter();
    while let Some(a) = it.next() {
        if a == "-c" || a == "--config-path" {
            if let Some(v) = it.next() {
                return norm(&run.cwd, v) == n.path || base(v) == base(&n.path);
            }
        }
    }
    false
}
fn skeleton(tree: &[Node], run: &Run) -> Vec<Node> {
    let mut t: Vec<Node> = tree
        .iter()
        .filter(|n| n.kind == DIR && (run.cwd == n.path || run.cwd.starts_with(&format!("{}/", n.path))) || is_conf(n, run))
        .cloned()
        .collect();
    // what a configuration file that is a link points to
    let mut i = 0;
    while i < t.len() {
        if t[i].kind == LINK || t[i].kind == HARD {
            let d = String::from_utf8_lossy(&t[i].data).into_owned();
            let d = if t[i].kind == LINK { norm(parent(&t[i].path), &d) } else { d };
            if let Some(n) = tree.iter().find(|n| n.path == d) {
                if !t.iter().any(|m| m.path == d) {
                    t.push(n.clone());
                }
            }
            add_parents(&mut t, tree, &d);
        }
        i += 1;
    }
    t
}
pub fn add_parents(out: &mut Vec<Node>, tree: &[Node], path: &str) {
    let mut p = parent(path).to_string();
    while p != "/" {
        if !out.iter().any(|n| n.path == p) {
            if let Some(n) = tree.iter().find(|n| n.path == p) {
                out.push(n.clone());
                if n.kind == LINK {
                    let t = String::from_utf8_lossy(&n.data).into_owned();
                    let t = norm(parent(&p), &t);
                    if let Some(m) = tree.iter().find(|m| m.path == t) {
                        if !out.iter().any(|x| x.path == t) {
                            out.push(m.clone());
                        }
                    }
                    add_parents(out, tree, &t);
                }
            }
        }
        p = parent(&p).to_string();
    }
}
fn sort_tree(t: &mut [Node]) {
    t.sort_by(|a, b| (a.kind == HARD, &a.path).cmp(&(b.kind == HARD, &b.path)));
}
pub fn is_fix(args: &[String]) -> bool {
    path_args(args).0.iter().any(|a| a == "-f" || a == "--fix")
}
pub fn is_inspect(args: &[String]) -> bool {
    path_args(args).0.iter().any(|a| a == "-i" || a == "--inspect")
}
/// What start-up prints for these options: run over an empty directory.
pub fn head_of(ctx: &mut Ctx, tree: &[Node], run: &Run) -> Result<Option<(Vec<u8>, Vec<u8>)>, HE> {
    let mut t = skeleton(tree, run);
    add_parents(&mut t, tree, &run.cwd);
    t.push(Node::dir("/nothing-here"));
    sort_tree(&mut t);
    let mut r = run.undisturbed();
    r.args = path_args(&run.args).0;
    r.args.push("/nothing-here".into());
    let o = ctx.cached(&t, &r)?;
    if o.end != End::Exit(0) {
        return Ok(None);
    }
    let (h, s) = split_summary(&o.stdout);
    if s.is_none() {
        return Ok(None);
    }
    Ok(Some((h.to_vec(), o.stderr.clone())))
}
pub fn alone(ctx: &mut Ctx, tree: &[Node], run: &Run, sel: &Sel, head: &[u8], pre: &[u8]) -> Result<Ref, HE> {
    let fs = Fs::new(tree);
    let mut t = skeleton(tree, run);
    let mut want = vec![sel.abs.clone()];
    let mut p = sel.abs.clone();
    for _ in 0..20 {
        match fs.by.get(p.as_str()) {
            Some(n) if n.kind == LINK => {
                let d = String::from_utf8_lossy(&n.data).into_owned();
                p = norm(parent(&p), &d);
                want.push(p.clone());
            }
            Some(n) if n.kind == HARD => {
                p = String::from_utf8_lossy(&n.data).into_owned();
                want.push(p.clone());
            }
            _ => break,
        }
    }
    want.push(norm(&run.cwd, &sel.display));
    for w in &want {
        if let Some(n) = fs.by.get(w.as_str()) {
            if !t.iter().any(|m| m.path == *w) {
                t.push((*n).clone());
            }
        }
        add_parents(&mut t, tree, w);
    }
    add_parents(&mut t, tree, &run.cwd);
    sort_tree(&mut t);
    let mut r = run.undisturbed();
    r.args = path_args(&run.args).0;
    r.args.push(sel.display.clone());
    let o = ctx.cached(&t, &r)?;
    let real = fs.real(&sel.abs).unwrap_or_else(|| sel.abs.clone());
    let orig = fs.data_node(&sel.abs).filter(|n| n.kind == FILE).map(|n| n.data.clone());
    let mut odd = None;
    let exit = match o.end {
        End::Exit(c) => c,
        ref e => {
            odd = Some(format!("{e:?}"));
            -1
        }
    };
    let (so, s1) = split_summary(&o.stdout);
    let (se, s2) = split_summary(&o.stderr);
    let sum = match (s1, s2) {
        (Some(s), None) | (None, Some(s)) => s,
        _ => {
            odd.get_or_insert_with(|| "no single summary".into());
            Summary::default()
        }
    };
    let block = match se.strip_prefix(pre) {
        Some(b) => b.to_vec(),
        None => {
            odd.get_or_insert_with(|| "stderr does not begin as usual".into());
            vec![]
        }
    };
    let said = match so.strip_prefix(head) {
        Some(b) => b.to_vec(),
        None => {
            odd.get_or_insert_with(|| "stdout does not begin as usual".into());
            vec![]
        }
    };
    let failed = block.starts_with(b"Error: ");
    let ot = Fs::new(&o.tree);
    let fixed = ot.data_node(&real).filter(|n| n.kind == FILE).map(|n| n.data.clone());
    Ok(Ref { sel: sel.clone(), block, failed, said, real, orig, fixed, sum, exit, odd })
}
/// None: the options or the configuration are not usable
pub fn expect(ctx: &mut Ctx, tree: &[Node], run: &Run) -> Result<Option<Exp>, HE> {
    let Some((head, pre)) = head_of(ctx, tree, run)? else { return Ok(None) };
    let sel = select(tree, &run.cwd, &run.args);
    let mut files = vec![];
    for s in &sel.files {
        files.push(alone(ctx, tree, run, s, &head, &pre)?);
    }
    Ok(Some(Exp { head, pre, files, sel, fix: is_fix(&run.args), inspect: is_inspect(&run.args) }))
}

// ------------------------------------------------------------- decomposition
#[derive(Debug, Clone, Default)]
pub struct Parts {
    /// for every expected block: was it there
    pub found: Vec<bool>,
    pub errors: Vec<String>,
    pub on_stderr: bool,
    pub sum: Option<Summary>,
}
fn show(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(&b[..b.len().min(160)]).into_owned();
    format!("{s:?}")
}
/// Takes a complete stderr apart: start-up text, whole blocks and error lines
/// in any order, then possibly the summary.
pub fn decompose(stderr: &[u8], pre: &[u8], blocks: &[&[u8]]) -> Result<Parts, String> {
    let mut p = Parts { found: blocks.iter().map(|b| b.is_empty()).collect(), ..Parts::default() };
    let (body, sum) = split_summary(stderr);
    p.on_stderr = sum.is_some();
    p.sum = sum;
    let Some(mut rest) = body.strip_prefix(pre) else {
        return Err(format!("stderr does not begin with the start-up messages: {}", show(body)));
    };
    // longest first, so that a block is not taken for a shorter one
    let mut order: Vec<usize> = (0..blocks.len()).collect();
    order.sort_by_key(|i| std::cmp::Reverse(blocks[*i].len()));
    'next: while !rest.is_empty() {
        for &i in &order {
            if !p.found[i] && rest.starts_with(blocks[i]) {
                p.found[i] = true;
                rest = &rest[blocks[i].len()..];
                continue 'next;
            }
        }
        if rest.starts_with(b"Error: ") {
            if let Some(k) = rest.iter().position(|c| *c == b'\n') {
                p.errors.push(String::from_utf8_lossy(&rest[..k]).into_owned());
                rest = &rest[k + 1..];
                continue;
            }
        }
        let twice = order.iter().any(|i| !blocks[*i].is_empty() && rest.starts_with(blocks[*i]));
        return Err(format!("{} at {}", if twice { "a report appears again" } else { "not a whole report, error line or summary" }, show(rest)));
    }
    Ok(p)
}
/// headings printed on stderr, by kind
pub fn headings(stderr: &[u8]) -> Summary {
    let mut s = Summary::default();
    for l in stderr.split(|c| *c == b'\n') {
        if l.starts_with(b"error[") || l.starts_with(b"error: ") || l.starts_with(b"Error: ") {
            s.e += 1;
        } else if l.starts_with(b"warning[") || l.starts_with(b"warning: ") {
            s.w += 1;
        } else if l.starts_with(b"help[") || l.starts_with(b"help: ") {
            s.h += 1;
        } else if l.starts_with(b"note[") || l.starts_with(b"note: ") {
            s.i += 1;
        }
    }
    s.total = s.e + s.w + s.h + s.i;
    s
}
pub fn final_summary(o: &Outcome) -> Result<(Summary, bool), String> {
    let (_, a) = split_summary(&o.stdout);
    let (_, b) = split_summary(&o.stderr);
    let n = has_summary_anywhere(&o.stdout) + has_summary_anywhere(&o.stderr);
    match (a, b) {
        (Some(s), None) if n == 1 => Ok((s, false)),
        (None, Some(s)) if n == 1 => Ok((s, true)),
        _ => Err(format!("expected one summary at the end of the output, found {n} in all")),
    }
}
pub fn content<'a>(tree: &'a [Node], path: &str) -> Option<&'a Vec<u8>> {
    let fs = Fs::new(tree);
    fs.data_node(path).filter(|n| n.kind == FILE).map(|n| &n.data)
}
pub fn lines_sorted(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(<[u8]>::to_vec).collect();
    v.sort();
    v
}
/// does an error line name this template
pub fn names(line: &str, display: &str) -> bool {
    let display = &*shown(display);
    let mut i = 0;
    while let Some(k) = line[i..].find(display) {
        let a = i + k;
        let e = a + display.len();
        let before = line[..a].chars().next_back();
        let after = line[e..].chars().next();
        let bound = |c: Option<char>| c.is_none_or(|c| c.is_whitespace() || "'\"`:,;()".contains(c) || c == '.');
        if before.is_none_or(|c| c.is_whitespace() || "'\"`:(".contains(c)) && bound(after) {
            return true;
        }
        i = a + display.chars().next().map_or(1, char::len_utf8);
    }
    false
}
