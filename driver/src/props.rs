//! For every property: how cases are made and how a case is judged.
use crate::oracle::*;
use crate::rng::*;
use crate::select::*;
use crate::sim::*;
use crate::tmpl::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub tree: Vec<Node>,
    pub runs: Vec<Run>,
    #[serde(default)]
    pub extra: BTreeMap<String, String>,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub fn v(class: &str, detail: impl Into<String>) -> Violation {
    Violation { class: class.into(), detail: detail.into() }
}
pub const PROPS: [&str; 20] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
];
type R<T> = Result<T, HE>;

pub fn generate(ctx: &mut Ctx, rng: &mut Rng, prop: &str, thorough: bool) -> R<Vec<Case>> {
    match prop {
        "C01" => gen01(ctx, rng, thorough),
        "C02" | "C03" => gen23(ctx, rng, prop, thorough),
        "C04" => gen04(ctx, rng, thorough),
        "C05" => gen05(ctx, rng, thorough),
        "C06" => gen06(rng, thorough),
        "C07" => gen07(ctx, rng, thorough),
        "C08" => gen08(ctx, rng, thorough),
        "C09" => gen09(ctx, rng, thorough),
        "C10" => gen10(ctx, rng, thorough),
        "C11" => gen11(ctx, rng, thorough),
        "C12" => gen12(ctx, rng, thorough),
        "C13" => gen13(ctx, rng, thorough),
        "C14" => gen14(ctx, rng, thorough),
        "C15" => gen15(rng, thorough),
        "C16" => gen16(rng, thorough),
        "C17" => gen17(ctx, rng, thorough),
        "C18" => gen18(ctx, rng, thorough),
        "C19" => gen19(ctx, rng, thorough),
        "C20" => gen20(ctx, rng, thorough),
        _ => Err(HarnessError(format!("unknown property {prop}"))),
    }
}
pub fn judge(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    match c.prop.as_str() {
        "C01" => judge01(ctx, c),
        "C02" => judge02(ctx, c),
        "C03" => judge03(ctx, c),
        "C04" => judge04(ctx, c),
        "C05" => judge05(ctx, c),
        "C06" => judge06(ctx, c),
        "C07" => judge07(ctx, c),
        "C08" => judge08(ctx, c),
        "C09" => judge09(ctx, c),
        "C10" => judge10(ctx, c),
        "C11" => judge11(ctx, c),
        "C12" => judge12(ctx, c),
        "C13" => judge13(ctx, c),
        "C14" => judge14(ctx, c),
        "C15" => judge15(ctx, c),
        "C16" => judge16(ctx, c),
        "C17" => judge17(ctx, c),
        "C18" => judge18(ctx, c),
        "C19" => judge19(ctx, c),
        "C20" => judge20(ctx, c),
        p => Err(HarnessError(format!("unknown property {p}"))),
    }
}

// ---------------------------------------------------------------- shared
fn case(prop: &str, kind: &str, w: &World, runs: Vec<Run>) -> Case {
    Case { prop: prop.into(), kind: kind.into(), tree: w.tree.clone(), runs, extra: BTreeMap::new() }
}
fn profile(ctx: &mut Ctx, w: &World) -> R<Rc<Outcome>> {
    ctx.cached(&w.tree, &w.run.undisturbed())
}
/// faultable operations of an undisturbed run: (operation, path, how often)
fn catalog(o: &Outcome, tree: &[Node]) -> Vec<(String, String, u32)> {
    let fs = Fs::new(tree);
    let mut m: BTreeMap<(String, String), u32> = BTreeMap::new();
    for r in &o.oplog {
        // closing a directory cannot fail on a real system
        let dir = fs.is_dir(&r.path) && r.op == "close";
        if dir || r.op.starts_with("thread") || r.op.starts_with("futex") {
            continue;
        }
        // of a renaming the new name is what faults go by
        let mut p = r.path.split(" -> ").last().unwrap_or_default().to_string();
        if p.starts_with("/proc") || p.starts_with("/sys") || p.starts_with("/dev") {
            continue;
        }
        if p.starts_with('/') && !fs.by.contains_key(p.as_str()) && !fs.is_dir(&p) && !is_probe(&p) {
            p = join(parent(&p), "?new");
        }
        *m.entry((r.op.clone(), p)).or_default() += 1;
    }
    m.into_iter().map(|((a, b), n)| (a, b, n)).collect()
}
/// paths looked up that normally do not exist
fn is_probe(p: &str) -> bool {
    let b = base(p);
    b == "ludtwig-config.toml" || IGNORE_NAMES.contains(&b) || b == ".git" || b == ".jj" || b == ".gitconfig" || p.contains("/.config/git") || p.contains("/.git/")
}
const E_OPEN: &[i64] = &[13, 5, 24, 23, 12, 40, 2, 116, 1, 20, 13, 5, 2, 110, 107, 36, 6, 16, 117, 11, 103];
const E_STAT: &[i64] = &[5, 13, 12, 40, 116, 110, 117, 107];
const E_READ: &[i64] = &[5, 21, 12, 116, 110, 5, 74, 117, 121, 61, 104, 11, 14];
const E_WRITE: &[i64] = &[28, 5, 122, 27, 30, 1, 28, 5, 116, 110, 117, 121, 12];
const E_OTHER: &[i64] = &[5, 28, 13, 1, 30, 16, 12, 5, 28, 122, 116, 110, 18];
const E_STREAM: &[i64] = &[32, 5, 28, 11, 9, 32, 28, 27, 104, 6];
fn errno_for(rng: &mut Rng, op: &str) -> i64 {
    *match op {
        "open" | "opendir" => rng.pick(E_OPEN),
        "read" | "readdir" => rng.pick(E_READ),
        "stat" | "lstat" | "fstat" => rng.pick(E_STAT),
        "write" => rng.pick(E_WRITE),
        _ => rng.pick(E_OTHER),
    }
}
fn pick_fault(rng: &mut Rng, cat: &[(String, String, u32)]) -> Option<Fault> {
    if cat.is_empty() {
        return None;
    }
    let (op, path, n) = rng.pick(cat);
    // an ignore file that fails only at one moment cannot be told apart
    let lasting = !path.ends_with(".toml") && (is_probe(path) || op == "stat") || op == "realpath";
    let nth = if lasting || rng.pct(40) { 0 } else { rng.range(1, (*n as usize).max(1)) as u32 };
    let mut e = errno_for(rng, op);
    if lasting && matches!(e, 2 | 20 | 21) {
        // as good as not there
        e = 5;
    }
    Some(Fault::err(op, path, nth, e))
}
/// A directory is still being listed while new files in it are on their way
/// to their final name.
fn linger(rng: &mut Rng, w: &World, r: &mut Run) {
    let dirs: BTreeSet<String> = select(&w.tree, &r.cwd, &r.args).files.iter().map(|f| parent(&f.abs).to_string()).collect();
    let dirs: Vec<String> = dirs.into_iter().collect();
    if dirs.is_empty() || !is_fix(&r.args) {
        return;
    }
    let d = rng.pick(&dirs);
    let n = w.tree.iter().filter(|n| parent(&n.path) == d).count();
    r.dir_seed = rng.next() | 1;
    r.ncpu = r.ncpu.max(2);
    r.faults.push(Fault { op: "readdir".into(), path: d.clone(), nth: rng.range(2, n + 2) as u32, act: 2, arg: 2_000_000_000 });
    r.faults.push(Fault { op: rng.pick(&["fsync", "open", "chmod", "write"]).to_string(), path: join(d, "?new"), nth: if rng.pct(70) { 0 } else { 1 }, act: 2, arg: 5_000_000_000 });
}
/// A second trouble in what the run does because of the first one: the run as
/// it is so far is made, and something it does after its first fault fails as
/// well, or it is stopped there. Up to that moment both runs are the same.
fn worsen(ctx: &mut Ctx, rng: &mut Rng, w: &World, p: &Outcome, r: &mut Run, crash: bool, ok: &dyn Fn(&str, &str) -> bool) -> R<()> {
    if r.crash.is_some() || r.faults.is_empty() {
        return Ok(());
    }
    let o = ctx.cached(&w.tree, r)?;
    let fs = Fs::new(&w.tree);
    let Some(f) = o.fired.iter().find(|f| f.act == 0 && !f.op.starts_with("ext:") && f.op != "futex") else { return Ok(()) };
    let Some(at) = o.oplog.iter().position(|x| x.op == f.op && x.res == -f.arg && x.path.split(" -> ").any(|q| q == f.path || f.path.ends_with("?new"))) else {
        return Ok(());
    };
    let mut seen: BTreeMap<(&str, &str), u32> = BTreeMap::new();
    let usual: BTreeSet<(&str, &str)> = p.oplog.iter().map(|x| (x.op.as_str(), x.path.as_str())).collect();
    let mut later = vec![];
    let mut news = vec![];
    for (i, x) in o.oplog.iter().enumerate() {
        let path = x.path.split(" -> ").last().unwrap_or(&x.path);
        let n = seen.entry((&x.op, path)).or_default();
        *n += 1;
        if i <= at || x.op.starts_with("thread") || x.op.starts_with("futex") || path.starts_with("/proc") || path.starts_with("/sys") || path.starts_with("/dev") || is_probe(path) || matches!(x.op.as_str(), "realpath" | "getcwd") || x.op == "close" && fs.is_dir(path) {
            continue;
        }
        later.push((x, path, *n));
        if !usual.contains(&(x.op.as_str(), x.path.as_str())) && !path.ends_with(".tmp") || o.oplog[at].path == x.path || o.oplog[at].path.contains(" -> ") && x.path == path && o.oplog[at].path.ends_with(path) {
            news.push((x, path, *n));
        }
    }
    let from = if !news.is_empty() && rng.pct(75) { news } else { later };
    let from: Vec<_> = from.into_iter().filter(|x| ok(&x.0.op, x.1) || x.0.mutn > 0).collect();
    if from.is_empty() {
        return Ok(());
    }
    let (x, path, n) = *rng.pick(&from);
    if crash && x.mutn > 0 && rng.pct(60) {
        let partial = if x.op == "write" && rng.pct(70) { rng.below(x.res.max(0) as usize + 1) as i64 } else { -1 };
        r.crash = Some(Crash { kind: if rng.pct(50) { 1 } else { 2 }, at: x.mutn - 1 + u64::from(rng.pct(30)), partial, seed: rng.next() });
    } else if ok(&x.op, path) {
        let e = errno_for(rng, &x.op);
        if x.op == "write" && rng.pct(40) && !path.starts_with('<') {
            r.faults.push(Fault::short("write", path, n, rng.below(30) as i64));
            r.faults.push(Fault::err("write", path, n + 1, e));
        } else {
            r.faults.push(Fault::err(&x.op, path, n, e));
        }
    }
    Ok(())
}
fn below(path: &str, dir: &str) -> bool {
    dir == "/" || path.strip_prefix(dir).is_some_and(|r| r.starts_with('/'))
}
fn short(b: Option<&Vec<u8>>) -> String {
    match b {
        None => "nothing".into(),
        Some(b) => {
            let t = String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
            format!("{} bytes {:?}{}", b.len(), t, if b.len() > 60 { "..." } else { "" })
        }
    }
}
fn end_ok(o: &Outcome) -> Option<i32> {
    match o.end {
        End::Exit(c) => Some(c),
        _ => None,
    }
}
fn nontrivial(ctx: &mut Ctx, o: &Outcome) {
    if ctx.counting {
        ctx.stats.nontrivial.insert(o.trace);
    }
}
fn said_count(stdout: &[u8], said: &[u8]) -> usize {
    if said.is_empty() {
        return 0;
    }
    // whole lines only
    let mut n = 0;
    let mut i = 0;
    while let Some(k) = find(&stdout[i..], said) {
        if i + k == 0 || stdout[i + k - 1] == b'\n' {
            n += 1;
        }
        i += k + said.len();
    }
    n
}
fn block_count(stderr: &[u8], b: &[u8]) -> usize {
    said_count(stderr, b)
}
fn error_lines(stderr: &[u8]) -> Vec<String> {
    stderr
        .split(|c| *c == b'\n')
        .filter(|l| l.starts_with(b"Error: "))
        .map(|l| String::from_utf8_lossy(l).into_owned())
        .collect()
}
/// half-written templates: contents other than before or completely fixed
fn content_violations(exp: &Exp, after: &[Node]) -> Vec<Violation> {
    let fs = Fs::new(after);
    let mut out = vec![];
    for f in &exp.files {
        if f.odd.is_some() || f.orig.is_none() {
            continue;
        }
        let now = fs.data_node(&f.real).filter(|n| n.kind == FILE).map(|n| &n.data);
        if now.is_none() {
            out.push(v("template missing", format!("{} is gone", f.real)));
        } else if !f.ok_content(now) {
            out.push(v(
                "half-written template",
                format!("{} holds {}; before: {}; completely fixed: {}", f.real, short(now), short(f.orig.as_ref()), short(f.fixed.as_ref())),
            ));
        }
    }
    out
}

// ---------------------------------------------------------------- C01
fn fixing(rng: &mut Rng) -> Kind {
    match rng.below(10) {
        0 => Kind::Clean,
        1 => Kind::Mixed,
        2 => Kind::Syntax,
        3 => if rng.pct(40) { Kind::Big } else { Kind::Fix },
        _ => Kind::Fix,
    }
}
fn gen01(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 7), fix: 100, inspect: 3, config: 12, links: 10, kind: fixing, ..Opt::default() };
    let w = world(rng, &o);
    let p = profile(ctx, &w)?;
    if p.mut_ops == 0 {
        return Ok(vec![]);
    }
    let cat: Vec<_> = catalog(&p, &w.tree)
        .into_iter()
        .filter(|(op, path, _)| path.starts_with('/') && !is_probe(path) && !matches!(op.as_str(), "opendir" | "readdir" | "realpath" | "getcwd"))
        .collect();
    let mut out = vec![];
    let m = p.mut_ops;
    let n = if thorough { 30 } else { 10 };
    let wlens: Vec<i64> = p.oplog.iter().filter(|x| x.op == "write" && x.path.starts_with('/')).map(|x| x.res).collect();
    for i in 0..n {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        if i % 3 == 2 {
            // failing or short operations, sometimes followed by a crash
            for _ in 0..rng.range(1, 3) {
                if rng.pct(25) {
                    if let Some((op, path, _)) = cat.iter().find(|c| c.0 == "write") {
                        r.faults.push(Fault::short(op, path, 1, rng.below(30) as i64));
                        r.faults.push(Fault::err(op, path, 2, *rng.pick(E_WRITE)));
                        continue;
                    }
                }
                if let Some(f) = pick_fault(rng, &cat) {
                    r.faults.push(f);
                }
            }
            if rng.pct(20) {
                r.disk_free = rng.below(300) as i64;
            }
            if rng.pct(50) {
                worsen(ctx, rng, &w, &p, &mut r, true, &|op, path| path.starts_with('/') && !matches!(op, "opendir" | "readdir" | "realpath" | "getcwd"))?;
            }
        }
        if r.crash.is_none() && (i % 3 != 2 || rng.pct(25)) {
            let partial = match rng.below(4) {
                0 => -1,
                1 => rng.below(4) as i64,
                _ => wlens.get(rng.below(wlens.len())).map_or(1, |l| rng.below(*l as usize + 1) as i64),
            };
            r.crash = Some(Crash { kind: if rng.pct(50) { 1 } else { 2 }, at: rng.below(m as usize + 1) as u64, partial, seed: rng.next() });
            let sync = cat.iter().filter(|c| c.0 == "fsync").nth(rng.below(2));
            if let (true, Some((op, path, _))) = (rng.pct(20), sync) {
                // not on stable storage, and the kernel says so
                r.faults.push(Fault::err(op, path, rng.below(2) as u32, *rng.pick(&[5, 28, 122])));
                r.crash.as_mut().unwrap().kind = 2;
            }
        }
        out.push(case("C01", "crash or failing write while fixing", &w, vec![r]));
    }
    Ok(out)
}
fn judge01(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    if (o.end == End::Crashed || !o.fired.is_empty() || run.disk_free >= 0) && exp.files.iter().any(Ref::changes) {
        nontrivial(ctx, &o);
    }
    Ok(content_violations(&exp, &o.tree))
}

// ---------------------------------------------------------------- C02, C03
fn mixed_kinds(rng: &mut Rng) -> Kind {
    match rng.below(12) {
        0 => Kind::Clean,
        1..=2 => Kind::Report,
        3..=7 => Kind::Fix,
        8..=9 => Kind::Mixed,
        10 => Kind::Syntax,
        _ => Kind::Empty,
    }
}
fn gen23(ctx: &mut Ctx, rng: &mut Rng, prop: &str, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 8), fix: 60, inspect: 8, config: 10, links: 15, bad: 6, kind: mixed_kinds, ..Opt::default() };
    let mut o = o;
    if prop == "C03" && rng.pct(15) {
        o.ignores = 100;
    }
    let mut w = world(rng, &o);
    if prop == "C03" && rng.pct(60) {
        // several files at least
        for _ in 0..4 {
            if select(&w.tree, &w.run.cwd, &w.run.args).files.len() >= 2 {
                break;
            }
            w = world(rng, &o);
        }
    }
    if o.ignores > 0 && rng.pct(40) {
        // another tree with an ignore file above it
        let d = join(parent(&w.run.cwd), "site9");
        let sub = join(&d, "sub");
        w.tree.push(Node::dir(&d));
        w.tree.push(Node::dir(&sub));
        w.tree.push(Node::file(&join(&d, rng.pick(&[".ignore", ".ludtwig-ignore"])), "nothing\n"));
        w.tree.push(Node::file(&join(&sub, "nine.twig"), template(rng, Kind::Fix, "nine")));
        let i = rng.below(w.run.args.len() + 1);
        let after_c = i > 0 && (w.run.args[i - 1] == "-c" || w.run.args[i - 1] == "--config-path");
        w.run.args.insert(if after_c { i - 1 } else { i }, sub);
    }
    if rng.pct(15) {
        let files: Vec<usize> = (0..w.tree.len()).filter(|i| w.tree[*i].kind == FILE && is_template_name(&w.tree[*i].path)).collect();
        if !files.is_empty() {
            let i = *rng.pick(&files);
            w.tree[i].mode = *rng.pick(&[0o000, 0o200, 0o444]);
        }
    }
    let p = profile(ctx, &w)?;
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    if sel.files.is_empty() {
        return Ok(vec![]);
    }
    let fs = Fs::new(&w.tree);
    let cat = catalog(&p, &w.tree);
    let igs: Vec<String> = if o.ignores > 0 { applying(&w.tree, &w.run, &sel).into_iter().map(|(n, _)| n.path.clone()).collect() } else { vec![] };
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 5 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        r.dt_unknown = rng.pct(15);
        if !igs.is_empty() && rng.pct(70) {
            let p = rng.pick(&igs);
            r.faults.push(Fault::err(*rng.pick(&["open", "open", "read"]), p, 0, *rng.pick(&[13, 5, 12, 116])));
        }
        if r.dt_unknown {
            // temporary files seen by the traversal are a matter of their own
            r.dt_unknown = !is_fix(&r.args);
        }
        let mut nv = if rng.pct(60) { 1 } else { rng.range(1, 3) };
        if sel.files.len() > 8 && rng.pct(60) {
            // trouble everywhere
            nv = rng.range(sel.files.len() / 4, sel.files.len());
        }
        for _ in 0..nv {
            let s = rng.pick(&sel.files);
            let real = fs.real(&s.abs).unwrap_or(s.abs.clone());
            let newp = join(parent(&real), "?new");
            let mine: Vec<_> = cat
                .iter()
                .filter(|(op, path, _)| (path == &real || path == &s.abs || path == &newp) && op != "opendir" && op != "readdir" && op != "unlink")
                .cloned()
                .collect();
            match rng.below(12) {
                0 | 1 => r.faults.push(Fault::err("open", &real, 0, *rng.pick(&[13, 5, 24, 2, 116, 40]))),
                2 | 3 => r.faults.push(Fault::err("read", &real, rng.below(3) as u32, *rng.pick(&[5, 21, 12]))),
                4 if !is_fix(&r.args) || rng.pct(30) => r.exts.push(Ext {
                    op: "open".into(),
                    path: real.clone(),
                    nth: 1,
                    act: *rng.pick(&[1, 2]),
                    tpath: real.clone(),
                    data: vec![],
                    arg: 0,
                }),
                5 if is_fix(&r.args) => r.disk_free = if rng.pct(50) { 0 } else { rng.below(200) as i64 },
                6 if prop == "C03" && !sel.dirs.is_empty() => {
                    let d = rng.pick(&sel.dirs).abs.clone();
                    r.faults.push(if rng.pct(50) {
                        Fault::err("opendir", &d, 0, *rng.pick(&[13, 5, 24]))
                    } else {
                        Fault::err("readdir", &d, rng.range(1, 4) as u32, 5)
                    });
                }
                7 if is_fix(&r.args) && mine.iter().any(|m| m.0 == "write") => {
                    let m = mine.iter().find(|m| m.0 == "write").unwrap();
                    r.faults.push(Fault::short("write", &m.1, 1, rng.below(20) as i64));
                    r.faults.push(Fault::err("write", &m.1, 2, *rng.pick(E_WRITE)));
                }
                _ => {
                    if let Some(f) = pick_fault(rng, &mine) {
                        r.faults.push(f);
                    }
                }
            }
        }
        if rng.pct(20) {
            let mine = |path: &str| sel.files.iter().any(|s| s.abs == path || parent(&s.abs) == parent(path));
            worsen(ctx, rng, &w, &p, &mut r, false, &|op, path| mine(path) && !matches!(op, "opendir" | "readdir" | "unlink" | "stat" | "lstat" | "getcwd"))?;
        }
        out.push(case(prop, "some files cannot be read or saved", &w, vec![r]));
    }
    Ok(out)
}
fn removed(run: &Run, real: &str) -> bool {
    run.exts.iter().any(|x| x.tpath == real && x.act != 2)
}
fn judge02(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let errs = error_lines(&o.stderr);
    let mut failed = 0u64;
    let mut least = 0u64;
    let any_dir_fault = run.faults.iter().any(|f| f.act != 2 && (f.op == "opendir" || f.op == "readdir" || f.op == "stat" || f.op == "lstat"));
    let fs0 = Fs::new(&c.tree);
    let mut seen = BTreeSet::new();
    for f in &exp.files {
        if f.odd.is_some() || !seen.insert(f.sel.display.clone()) {
            continue;
        }
        let d = &f.sel.display;
        let named = errs.iter().any(|l| names(l, d));
        let now = content(&o.tree, &f.real);
        let unreadable = f.orig.as_ref().is_none_or(|b| std::str::from_utf8(b).is_err())
            || fs0.data_node(&f.sel.abs).is_none_or(|n| n.mode & 0o400 == 0 || n.kind != FILE);
        let hard = run.faults.iter().any(|x| x.nth == 0 && x.act == 0 && x.arg != 4 && x.path == f.real && (x.op == "open" || x.op == "read"));
        let unsavable = exp.fix && f.changes() && !unreadable && run.disk_free == 0 && f.fixed.as_ref().is_some_and(|b| !b.is_empty());
        // the new text was on its way to the disk and did not get there
        let lost = o.fired.iter().any(|x| {
            x.act == 0 && x.op == "fsync" && [5, 28, 122].contains(&x.arg) && {
                let at = o.oplog.iter().rposition(|y| y.op == "fsync" && y.path == x.path && y.res == -x.arg).unwrap_or(usize::MAX);
                let into = format!("{} -> {}", x.path, f.real);
                at != usize::MAX
                    && !o.oplog[at..].iter().any(|y| y.op == "fsync" && y.path == x.path && y.res >= 0)
                    && (x.path == f.real || o.oplog[at..].iter().any(|y| y.op == "rename" && y.res >= 0 && y.path == into))
            }
        });
        let gone = removed(run, &f.real);
        let protected = fs0.data_node(&f.sel.abs).is_some_and(|n| n.kind == FILE && n.uid == 1000 && n.mode & 0o200 == 0);
        if protected && !run.exts.iter().any(|x| x.tpath == f.real) && now != f.orig.as_ref() {
            out.push(v("write-protected template changed", format!("{d} holds {}; before: {}", short(now), short(f.orig.as_ref()))));
        }
        let denied = run.exts.iter().any(|x| x.tpath == f.real && x.act == 2);
        if f.failed && !unreadable {
            // could not be settled; says so without naming the file
            continue;
        }
        if named {
            failed += 1;
            nontrivial(ctx, &o);
            if said_count(&o.stdout, &f.said) > 0 {
                out.push(v("claims a failed fix", format!("{d}: error reported, but stdout says {:?}", String::from_utf8_lossy(&f.said))));
            }
            if !gone && now != f.orig.as_ref() {
                out.push(v("failed template changed", format!("{d}: error reported, but it now holds {}; before: {}", short(now), short(f.orig.as_ref()))));
            }
        } else {
            if any_dir_fault && !unreadable && !hard {
                // may not have been reached at all
                continue;
            }
            least += f.sum.e;
            let blk = f.block.is_empty() || block_count(&o.stderr, &f.block) >= 1;
            let done = !exp.fix || gone || now == f.fixed.as_ref();
            if unreadable || hard {
                out.push(v("unreadable template not reported", format!("{d} cannot be read, but no error message names it")));
            } else if unsavable || lost {
                out.push(v("unsavable template not reported", format!("{d} cannot be saved, but no error message names it")));
            } else if !(gone || denied) && (!blk || !done) {
                out.push(v(
                    "neither result nor error",
                    format!("{d}: no error message names it, report {}, content {}", if blk { "present" } else { "missing" }, short(now)),
                ));
            } else if exp.fix && !gone && said_count(&o.stdout, &f.said) == 0 && !f.said.is_empty() && now == f.fixed.as_ref() {
                out.push(v("neither result nor error", format!("{d}: fixed on disk, but neither announced nor reported as failed")));
            }
        }
    }
    if let Some(code) = end_ok(&o) {
        if failed > 0 && code == 0 {
            out.push(v("exit status 0 despite failed template", format!("{failed} templates failed")));
        }
        if let Ok((s, _)) = final_summary(&o) {
            if s.e < failed + least {
                out.push(v("failed template not counted", format!("{failed} templates failed, {least} other errors, summary counts {} errors", s.e)));
            }
        } else {
            out.push(v("no summary", "run ended without exactly one summary".to_string()));
        }
    } else {
        out.push(v("run did not end normally", format!("{:?}", o.end)));
    }
    Ok(out)
}
fn affected(run: &Run, f: &Ref, tree: &[Node]) -> bool {
    let fs = Fs::new(tree);
    let hit = |p: &str| {
        p == f.real || p == f.sel.abs || below(&f.real, p) || below(&f.sel.abs, p) || p.strip_suffix("/?new").is_some_and(|d| parent(&f.real) == d)
            || parent(p) == parent(&f.real) && !fs.by.contains_key(p)
    };
    // what an unreadable ignore file may hide
    let hidden = |p: &str| {
        p.strip_suffix("/.git/info/exclude").is_some_and(|d| below(&f.sel.abs, d))
            || IGNORE_NAMES.contains(&base(p)) && (below(&f.sel.abs, parent(p)) || parent(p) == run.cwd && base(p) == IGNORE_NAMES[0])
    };
    run.faults.iter().any(|x| x.act != 2 && (hit(&x.path) || hidden(&x.path)))
        || run.exts.iter().any(|x| hit(&x.tpath))
        || run.disk_free >= 0 && f.changes() && is_fix(&run.args)
        || f.orig.as_ref().is_none_or(|b| std::str::from_utf8(b).is_err())
        || fs.data_node(&f.sel.abs).is_none_or(|n| n.mode & 0o400 == 0)
}
fn judge03(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let trouble = exp.files.iter().any(|f| affected(run, f, &c.tree)) || !o.fired.is_empty();
    let mut others = 0;
    // templates with equal content can have equal reports
    let mut equal: BTreeMap<&[u8], usize> = BTreeMap::new();
    for f in &exp.files {
        if f.odd.is_some() || affected(run, f, &c.tree) {
            continue;
        }
        others += 1;
        let d = &f.sel.display;
        let n = equal.entry(&f.block).or_default();
        *n += !f.failed as usize;
        if !f.failed && !f.block.is_empty() && block_count(&o.stderr, &f.block) < *n {
            out.push(v("report of another template missing", format!("{d}: its report is missing or changed")));
        }
        let now = content(&o.tree, &f.real);
        let want = if exp.fix { f.fixed.as_ref() } else { f.orig.as_ref() };
        if now != want {
            out.push(v("another template has wrong content", format!("{d} holds {}, expected {}", short(now), short(want))));
        }
        if exp.fix && !f.said.is_empty() && said_count(&o.stdout, &f.said) == 0 {
            out.push(v("another template's fix not announced", format!("{d}: {:?} missing", String::from_utf8_lossy(&f.said))));
        }
    }
    if trouble && others > 0 {
        nontrivial(ctx, &o);
    }
    Ok(out)
}

// ---------------------------------------------------------------- C04
fn gen04(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let ign = rng.pct(25);
    let o = Opt {
        n: (1, 10),
        fix: 45,
        inspect: 12,
        config: 25,
        links: 10,
        dangling: 0,
        ignores: if ign { 100 } else { 0 },
        bad: 3,
        many: 4,
        ..Opt::default()
    };
    let w = world(rng, &o);
    let p = profile(ctx, &w)?;
    let mut out = vec![];
    for _ in 0..if thorough { 10 } else { 4 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        r.dt_unknown = rng.pct(20) && !is_fix(&r.args);
        let (opts, mut paths) = path_args(&r.args);
        if paths.len() > 1 && rng.pct(50) {
            rng.shuffle(&mut paths);
            r.args = opts;
            r.args.extend(paths);
        }
        if rng.pct(10) {
            linger(rng, &w, &mut r);
        }
        out.push(case("C04", "another schedule, worker count, listing or argument order", &w, vec![w.run.undisturbed(), r]));
    }
    Ok(out)
}
fn compare(a: &Outcome, b: &Outcome, what: &str) -> Vec<Violation> {
    let mut out = vec![];
    if a.end != b.end {
        out.push(v("different exit status", format!("{:?} against {:?} {what}", b.end, a.end)));
        return out;
    }
    let (_, s1) = split_summary(if split_summary(&a.stderr).1.is_some() { &a.stderr } else { &a.stdout });
    let (_, s2) = split_summary(if split_summary(&b.stderr).1.is_some() { &b.stderr } else { &b.stdout });
    if s1 != s2 {
        out.push(v("different summary", format!("{s2:?} against {s1:?} {what}")));
    }
    if lines_sorted(&a.stderr) != lines_sorted(&b.stderr) {
        out.push(v("different reports", format!("{} {what}", first_diff(&a.stderr, &b.stderr))));
    }
    if lines_sorted(&a.stdout) != lines_sorted(&b.stdout) {
        out.push(v("different messages", format!("{} {what}", first_diff(&a.stdout, &b.stdout))));
    }
    for n in &a.tree {
        match b.get(&n.path) {
            Some(m) if m == n => {}
            Some(m) => out.push(v("different file content", format!("{} holds {}, {what} {}", n.path, short(Some(&m.data)), short(Some(&n.data))))),
            None => out.push(v("different files", format!("{} is missing", n.path))),
        }
    }
    for m in &b.tree {
        if a.get(&m.path).is_none() {
            out.push(v("different files", format!("{} is extra", m.path)));
        }
    }
    out
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let x = lines_sorted(a);
    let y = lines_sorted(b);
    let missing = x.iter().find(|l| x.iter().filter(|k| k == l).count() > y.iter().filter(|k| k == l).count());
    let extra = y.iter().find(|l| y.iter().filter(|k| k == l).count() > x.iter().filter(|k| k == l).count());
    format!("line missing: {:?}, line extra: {:?}", missing.map(|l| String::from_utf8_lossy(l)), extra.map(|l| String::from_utf8_lossy(l)))
}
fn judge04(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let base_run = &c.runs[0];
    let run = &c.runs[1];
    let Some(exp) = expect(ctx, &c.tree, base_run)? else { return Ok(vec![]) };
    let a = ctx.cached(&c.tree, base_run)?;
    let b = ctx.run(&c.tree, run)?;
    if exp.files.len() > 1 && b.switches > 4 {
        nontrivial(ctx, &b);
    }
    let mut out = compare(&a, &b, "in the plain run");
    // a template's report and fix never depend on its company
    if exp.files.iter().all(|f| f.odd.is_none()) && end_ok(&b).is_some() && out.is_empty() {
        let mut want = Summary::default();
        let mut lines: Vec<Vec<u8>> = vec![];
        for f in &exp.files {
            want.plus(&f.sum);
            lines.extend(f.block.split(|c| *c == b'\n').map(<[u8]>::to_vec));
            lines.pop();
            let now = content(&b.tree, &f.real);
            let w = if exp.fix { f.fixed.as_ref() } else { f.orig.as_ref() };
            if now != w {
                out.push(v("depends on other templates", format!("{} holds {}, processed alone it becomes {}", f.sel.display, short(now), short(w))));
            }
        }
        if let Ok((s, _)) = final_summary(&b) {
            if s != want && exp.sel.missing.is_empty() {
                out.push(v("depends on other templates", format!("summary {s:?}, sum of single runs {want:?}")));
            }
        }
        let body = split_summary(&b.stderr).0;
        if let Some(rest) = body.strip_prefix(exp.pre.as_slice()) {
            let mut got: Vec<Vec<u8>> = rest.split(|c| *c == b'\n').map(<[u8]>::to_vec).collect();
            got.pop();
            got.sort();
            lines.sort();
            if got != lines && exp.sel.missing.is_empty() {
                let m = lines.iter().find(|l| lines.iter().filter(|k| k == l).count() > got.iter().filter(|k| k == l).count());
                let e = got.iter().find(|l| got.iter().filter(|k| k == l).count() > lines.iter().filter(|k| k == l).count());
                out.push(v(
                    "depends on other templates",
                    format!("compared with single runs, line missing: {:?}, line extra: {:?}", m.map(|l| String::from_utf8_lossy(l)), e.map(|l| String::from_utf8_lossy(l))),
                ));
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C05
/// second names of some templates
fn hard_links(rng: &mut Rng, tree: &mut Vec<Node>) {
    let files: Vec<String> = tree.iter().filter(|n| n.kind == FILE && is_template_name(&n.path) && !is_probe(&n.path)).map(|n| n.path.clone()).collect();
    let dirs: Vec<String> = files.iter().map(|f| parent(f).to_string()).collect();
    for i in 0..rng.range(1, 3) {
        if files.is_empty() {
            return;
        }
        let t = rng.pick(&files).clone();
        let p = join(rng.pick(&dirs), &format!("second{i}.{}", rng.pick(&["html.twig", "twig", "html", "txt"])));
        if !tree.iter().any(|n| n.path == p) {
            let mode = tree.iter().find(|n| n.path == t).map_or(0o644, |n| n.mode);
            let mut n = Node::hard(&p, &t);
            n.mode = mode;
            tree.push(n);
        }
    }
}
fn gen05(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    if ctx.iter % 1000 == 1 {
        let w = heavy_world(rng, 3);
        let mut r = w.run.clone();
        r.ncpu = 4;
        return Ok(vec![case("C05", "very many templates", &w, vec![r])]);
    }
    let o = Opt { n: (1, 12), fix: 22, inspect: 65, config: 5, links: 20, ignores: 75, many: 4, kind: mixed_kinds, ..Opt::default() };
    let mut w = world(rng, &o);
    if !is_fix(&w.run.args) && rng.pct(15) {
        hard_links(rng, &mut w.tree);
    }
    let mut out = vec![];
    for _ in 0..if thorough { 8 } else { 4 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, 300_000);
        r.dt_unknown = rng.pct(30) && !is_fix(&r.args);
        if rng.pct(10) {
            linger(rng, &w, &mut r);
        }
        out.push(case("C05", "traversal", &w, vec![r]));
    }
    Ok(out)
}
fn judge05(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    if c.kind == "very many templates" {
        let o = ctx.run(&c.tree, run)?;
        let n = select(&c.tree, &run.cwd, &run.args).files.len() as u64;
        return Ok(match final_summary(&o) {
            Ok((s, _)) if s.files == n => vec![],
            Ok((s, _)) => vec![v("wrong number of scanned files", format!("{n} templates are selected, {} reported as scanned", s.files))],
            Err(e) => vec![v("no summary", e)],
        });
    }
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if end_ok(&o).is_none() || exp.files.iter().any(|f| f.odd.is_some()) {
        if !matches!(o.end, End::Deadlock(_) | End::StepCap(_)) && exp.files.iter().all(|f| f.odd.is_none()) {
            out.push(v("run did not end normally", format!("{:?}", o.end)));
        }
        return Ok(out);
    }
    if exp.files.len() > 1 {
        nontrivial(ctx, &o);
    }
    match final_summary(&o) {
        Ok((s, _)) => {
            if s.files != exp.files.len() as u64 {
                out.push(v("wrong number of scanned files", format!("{} templates are selected, {} reported as scanned", exp.files.len(), s.files)));
            }
        }
        Err(e) => out.push(v("no summary", e)),
    }
    // every report there as often as expected
    let mut want: BTreeMap<&[u8], (usize, &str)> = BTreeMap::new();
    for f in &exp.files {
        if !f.block.is_empty() && !f.failed {
            want.entry(&f.block).or_insert((0, &f.sel.display)).0 += 1;
        }
        if f.failed && !error_lines(&o.stderr).iter().any(|l| names(l, &f.sel.display)) && f.orig.is_none() {
            out.push(v("selected template not examined", format!("{}: no message", f.sel.display)));
        }
    }
    for (b, (n, d)) in &want {
        let got = block_count(&o.stderr, b);
        // a report may also be the beginning of another one
        let inside: usize = want.iter().filter(|(x, _)| x.len() > b.len() && x.starts_with(b)).map(|(x, _)| block_count(&o.stderr, x)).sum();
        if got < *n {
            out.push(v("selected template not examined", format!("{d}: report appears {got} times, expected {n}")));
        } else if got > *n + inside {
            out.push(v("template examined more than once", format!("{d}: report appears {got} times, expected {n}")));
        }
    }
    // nothing excluded is opened, reported or changed
    let reals: BTreeSet<&str> = exp.files.iter().map(|f| f.real.as_str()).collect();
    for x in &exp.sel.excluded {
        if reals.contains(x.abs.as_str()) {
            continue;
        }
        if o.oplog.iter().any(|r| r.op == "open" && r.path == x.abs) {
            out.push(v("excluded template opened", x.display.clone()));
        }
        if content(&c.tree, &x.abs) != content(&o.tree, &x.abs) {
            out.push(v("excluded template changed", x.display.clone()));
        }
    }
    for r in &o.oplog {
        if r.op != "open" || r.res < 0 || reals.contains(r.path.as_str()) {
            continue;
        }
        let n = c.tree.iter().find(|n| n.path == r.path);
        if n.is_some_and(|n| n.kind == FILE && !is_probe(&n.path) && !n.path.ends_with(".toml") && !n.path.starts_with("/proc")) {
            out.push(v("other file opened", r.path.clone()));
        }
    }
    if !error_lines(&o.stderr).is_empty() && exp.sel.missing.is_empty() && exp.files.iter().all(|f| !f.failed) {
        out.push(v("error without cause", error_lines(&o.stderr)[0].clone()));
    }
    Ok(out)
}

// ---------------------------------------------------------------- C06
fn gen06(rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 5), fix: 100, inspect: 5, config: 5, overlap: 100, many: 0, kind: fixing, ..Opt::default() };
    let mut w = world(rng, &o);
    if rng.pct(35) {
        // links to selected templates
        let files: Vec<String> = w.tree.iter().filter(|n| n.kind == FILE && is_template_name(&n.path)).map(|n| n.path.clone()).collect();
        for i in 0..rng.range(1, 2) {
            let t = rng.pick(&files).clone();
            let p = join(&w.run.cwd, &format!("again{i}.twig"));
            w.tree.push(Node::link(&p, &if rng.pct(50) { t } else { relative(&w.run.cwd, &t) }));
        }
    }
    let mut out = vec![];
    for _ in 0..if thorough { 16 } else { 7 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, 1_000_000);
        if r.ncpu == 1 {
            r.ncpu = 4;
        }
        if rng.pct(30) {
            r.noise = Some(Noise { seed: rng.next(), p: 9000, mask: 1 | 2 | 4 | 32 | 64 });
        }
        out.push(case("C06", "same template reached several times while fixing", &w, vec![r]));
    }
    Ok(out)
}
fn judge06(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if exp.files.iter().any(|f| f.odd.is_some()) || matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let mut times: BTreeMap<&str, Vec<&Ref>> = BTreeMap::new();
    for f in &exp.files {
        times.entry(&f.real).or_default().push(f);
    }
    if times.values().any(|x| x.len() > 1 && x[0].changes()) && o.switches > 4 {
        nontrivial(ctx, &o);
    }
    for (real, fs) in &times {
        let now = content(&o.tree, real);
        if now != fs[0].fixed.as_ref() {
            out.push(v(
                "not exactly fixed",
                format!("{real} (reached {} times) holds {}, expected {}", fs.len(), short(now), short(fs[0].fixed.as_ref())),
            ));
        }
        let mut saids = 0;
        let mut distinct = BTreeSet::new();
        for f in fs {
            if distinct.insert(&f.said) {
                saids += said_count(&o.stdout, &f.said);
            }
        }
        if fs[0].changes() && (saids == 0 || saids > fs.len()) {
            out.push(v("fix not announced properly", format!("{real}: {saids} announcements, reached {} times", fs.len())));
        }
    }
    let blocks: Vec<&[u8]> = exp.files.iter().filter(|f| !f.failed).map(|f| f.block.as_slice()).collect();
    match decompose(&o.stderr, &exp.pre, &blocks) {
        Err(e) => out.push(v("report of partial content", e)),
        Ok(p) => {
            if let Some(i) = p.found.iter().position(|x| !x) {
                out.push(v("report of partial content", format!("a report is missing: {:?}", String::from_utf8_lossy(&blocks[i][..blocks[i].len().min(100)]))));
            }
            if !p.errors.is_empty() && exp.files.iter().all(|f| !f.failed) {
                out.push(v("error while fixing the same template", p.errors[0].clone()));
            }
        }
    }
    if end_ok(&o).is_none() {
        out.push(v("run did not end normally", format!("{:?}", o.end)));
    }
    Ok(out)
}

// ---------------------------------------------------------------- C07
fn reporting(rng: &mut Rng) -> Kind {
    match rng.below(12) {
        0 => Kind::Clean,
        1..=4 => Kind::Report,
        5..=6 => Kind::Fix,
        7..=9 => Kind::Mixed,
        10 => Kind::Big,
        _ => Kind::Syntax,
    }
}
fn gen07(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (2, 10), fix: 25, inspect: 25, config: 12, bad: 6, many: 5, kind: reporting, ..Opt::default() };
    let mut w = world(rng, &o);
    if rng.pct(15) {
        w.run.tty = rng.below(4) as u8;
    }
    if rng.pct(15) {
        w.run.env.retain(|e| !e.starts_with("NO_COLOR") && !e.starts_with("TERM="));
        w.run.env.push("TERM=xterm".into());
    }
    if rng.pct(10) {
        w.run.args.push("does-not-exist.twig".into());
    }
    let p = profile(ctx, &w)?;
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    let fs = Fs::new(&w.tree);
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 5 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        if rng.pct(50) {
            r.noise = Some(Noise { seed: rng.next(), p: *rng.pick(&[600, 5000, 20000]), mask: *rng.pick(&[8, 16, 24, 56, 64, 88, 120]) });
        }
        if rng.pct(35) && !sel.files.is_empty() {
            for _ in 0..rng.range(1, 3) {
                let s = rng.pick(&sel.files);
                let real = fs.real(&s.abs).unwrap_or(s.abs.clone());
                r.faults.push(Fault::err(if rng.pct(50) { "open" } else { "read" }, &real, 0, 5));
            }
        }
        out.push(case("C07", "reports under another schedule and partial terminal writes", &w, vec![r]));
    }
    Ok(out)
}
fn judge07(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if exp.files.iter().any(|f| f.odd.is_some()) || matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    if end_ok(&o).is_none() {
        return Ok(vec![v("run did not end normally", format!("{:?}", o.end))]);
    }
    if exp.files.iter().filter(|f| !f.block.is_empty()).count() > 1 && o.switches > 4 {
        nontrivial(ctx, &o);
    }
    let mut files: Vec<&Ref> = exp.files.iter().filter(|f| !f.failed).collect();
    // of equal reports those that must be there are found first
    files.sort_by_key(|f| affected(run, f, &c.tree));
    let blocks: Vec<&[u8]> = files.iter().map(|f| f.block.as_slice()).collect();
    match decompose(&o.stderr, &exp.pre, &blocks) {
        Err(e) => out.push(v("report not printed as one whole", e)),
        Ok(p) => {
            for (i, f) in files.iter().enumerate() {
                if !p.found[i] && !affected(run, f, &c.tree) {
                    out.push(v("report missing", format!("the report of {} does not appear", f.sel.display)));
                }
            }
            // error lines are whole lines
            for e in &p.errors {
                if count(e.as_bytes(), b"Error: ") > 1 || e.contains("error[") || e.contains("warning[") || e.contains("help[") || e.contains("Files scanned") {
                    out.push(v("error line spliced", e.clone()));
                }
            }
        }
    }
    if let Err(e) = final_summary(&o) {
        out.push(v("summary not last or not once", e));
    }
    // announcements on stdout stay whole lines before the summary
    let (so, _) = split_summary(&o.stdout);
    match so.strip_prefix(exp.head.as_slice()) {
        None => out.push(v("stdout spliced", "start-up messages are not as usual".to_string())),
        Some(rest) => {
            let saids: BTreeSet<&[u8]> = exp.files.iter().map(|f| f.said.as_slice()).collect();
            for l in rest.split_inclusive(|c| *c == b'\n') {
                if !saids.contains(l) {
                    out.push(v("stdout spliced", format!("unexpected line {:?}", String::from_utf8_lossy(l))));
                }
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C08
fn exact_world(rng: &mut Rng) -> World {
    // a chosen number of diagnostics of a chosen kind in all
    let total = *rng.pick(&[1usize, 2, 3, 10, 100, 127, 128, 255, 256, 257, 511, 512, 768, 1000, 1024]);
    let line: &str = *rng.pick(&["{{ x|nofilter }}\n", "{{ 'a' }}{{ x|nofilter }}\n", "<div fooBar=\"1\"></div>\n", "{% block camelCase%n %}{% endblock %}\n\n", "{{ x ~ }}\n"]);
    let nf = rng.range(1, 4).min(total);
    let mut tree = vec![Node::dir("/w")];
    let mut left = total;
    for i in 0..nf {
        let k = if i + 1 == nf { left } else { rng.range(1, left - (nf - 1 - i)) };
        left -= k;
        let mut s = String::new();
        for j in 0..k {
            s += &line.replace("%n", &format!("{i}{j}"));
        }
        tree.push(Node::file(&format!("/w/f{i}.twig"), s));
    }
    let mut args = vec![];
    if rng.pct(10) {
        args.push("-f".into());
    }
    args.push(".".into());
    World { tree, run: Run::new("/w", &args) }
}
/// more than fits into 16 bits
fn heavy_world(rng: &mut Rng, which: u64) -> World {
    let total = *rng.pick(&[65_536usize, 65_536, 65_600, 66_000]);
    let nf = *rng.pick(&[1usize, 3, 16, 40]);
    let mut tree = vec![Node::dir("/w"), Node::dir("/w/t")];
    let (line, per, rule) = match which {
        0 => ("{{\n", 2, ""),
        1 => ("{{a|b}}\n", 1, "twig-valid-filter"),
        2 => ("<a b='c'></a>\n", 1, "html-string-quotation"),
        _ => ("", 1, ""),
    };
    if !rule.is_empty() {
        tree.push(Node::file("/w/ludtwig-config.toml", format!("version = \"0.13.0\"\n[general]\nactive-rules = [\"{rule}\"]\n")));
    }
    if line.is_empty() {
        for i in 0..total {
            tree.push(Node::file(&format!("/w/t/{i}.twig"), ""));
        }
    } else {
        let mut left = total / per;
        for i in 0..nf {
            let k = if i + 1 == nf { left } else { (total / per / nf).min(left) };
            left -= k;
            tree.push(Node::file(&format!("/w/t/f{i}.twig"), line.repeat(k)));
        }
    }
    World { tree, run: Run { max_edges: 30_000_000_000, max_ops: 50_000_000, ..Run::new("/w", &["t".to_string()]) } }
}
fn gen08(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    if ctx.iter % 400 < 3 && ctx.iter < 4000 {
        let w = heavy_world(rng, ctx.iter % 400);
        let mut r = w.run.clone();
        r.ncpu = 4;
        r.hash_seed = rng.next();
        return Ok(vec![case("C08", "more than 16 bits can count", &w, vec![r])]);
    }
    let style = rng.below(10);
    let mut w = if style == 0 {
        exact_world(rng)
    } else {
        let kind: fn(&mut Rng) -> Kind = match rng.below(4) {
            0 => |_| Kind::Clean,
            1 => |r| if r.pct(70) { Kind::Clean } else { Kind::Report },
            2 => reporting,
            _ => any_kind,
        };
        let bad = if rng.pct(30) { 15 } else { 0 };
        let o = Opt { n: (0, 7), fix: 35, inspect: 20, config: 15, links: 15, bad, kind, ..Opt::default() };
        world(rng, &o)
    };
    if style == 1 {
        // nothing exists
        let (mut opts, paths) = path_args(&w.run.args);
        for (i, _) in paths.iter().enumerate() {
            opts.push((*rng.pick(&["nowhere", "missing.twig", "no/such/dir", "/absent"])).to_string() + &i.to_string());
        }
        w.run.args = opts;
    } else if rng.pct(15) {
        w.run.args.push("nowhere.twig".into());
    }
    let p = profile(ctx, &w)?;
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    let cat: Vec<_> = catalog(&p, &w.tree)
        .into_iter()
        .filter(|(op, path, _)| path.starts_with('/') && !is_probe(path) && !path.ends_with(".toml") && op != "getcwd")
        .collect();
    let mut out = vec![];
    for _ in 0..if thorough { 10 } else { 5 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        r.dt_unknown = rng.pct(15) && !is_fix(&r.args);
        match rng.below(5) {
            0 | 1 => {}
            2 => {
                for d in &sel.dirs {
                    if rng.pct(50) {
                        r.faults.push(Fault::err("opendir", &d.abs, 0, 13));
                    }
                }
            }
            _ => {
                for _ in 0..rng.range(1, 4) {
                    if let Some(f) = pick_fault(rng, &cat) {
                        r.faults.push(f);
                    }
                }
            }
        }
        out.push(case("C08", "counting", &w, vec![r]));
    }
    Ok(out)
}
fn judge08(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some((_, pre)) = head_of(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let Some(code) = end_ok(&o) else {
        return Ok(vec![v("run did not end normally", format!("{:?}", o.end))]);
    };
    let sel = select(&c.tree, &run.cwd, &run.args);
    let (s, _) = match final_summary(&o) {
        Ok(s) => s,
        Err(e) => return Ok(vec![v("no summary", e)]),
    };
    let body = o.stderr.strip_prefix(pre.as_slice()).unwrap_or(&o.stderr);
    let h = headings(body);
    if h.total > 0 {
        nontrivial(ctx, &o);
    }
    if (s.e, s.w, s.h, s.i) != (h.e, h.w, h.h, h.i) {
        out.push(v(
            "counts differ from what was printed",
            format!("printed: {} errors, {} warnings, {} helps, {} info; summary: {} errors, {} warnings, {} helps, {} info", h.e, h.w, h.h, h.i, s.e, s.w, s.h, s.i),
        ));
    }
    if s.total != s.e + s.w + s.h + s.i {
        out.push(v("total is not the sum", format!("{s:?}")));
    }
    let bad = h.e + h.w + h.h > 0 || s.e + s.w + s.h > 0;
    if bad && code == 0 {
        out.push(v("exit status 0 despite problems", format!("{s:?}")));
    }
    if !bad && code != 0 {
        out.push(v("exit status not 0 without problems", format!("{code}, {s:?}")));
    }
    if !sel.missing.is_empty() && code == 0 {
        out.push(v("exit status 0 despite a path that does not exist", format!("{:?}", sel.missing)));
    }
    Ok(out)
}

// ---------------------------------------------------------------- C09
fn gen09(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (0, 8), fix: 50, inspect: 10, config: 15, links: 20, ignores: 15, overlap: 15, bad: 5, many: 3, ..Opt::default() };
    let mut w = world(rng, &o);
    if rng.pct(20) {
        w.run.args.push("nowhere".into());
    }
    if ctx.iter % 400 < 3 && ctx.iter < 4000 {
        let w = heavy_world(rng, ctx.iter % 400);
        let mut r = w.run.clone();
        r.ncpu = *rng.pick(&[2, 4, 8]);
        r.hash_seed = rng.next();
        return Ok(vec![case("C09", "very many events", &w, vec![r])]);
    }
    let p = profile(ctx, &w)?;
    if matches!(p.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(vec![case("C09", "undisturbed", &w, vec![w.run.undisturbed()])]);
    }
    if rng.pct(4) {
        // the system refuses another thread
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        r.faults.push(Fault::err("thread_create", "<thread>", rng.range(1, 2 + 2 * r.ncpu as usize) as u32, 11));
        r.max_ops = p.ops * 20 + 30_000;
        r.max_edges = p.edges * 40 + 400_000_000;
        return Ok(vec![case("C09", "a thread cannot be created", &w, vec![r])]);
    }
    let cat = catalog(&p, &w.tree);
    let walk: Vec<_> = cat.iter().filter(|c| matches!(c.0.as_str(), "opendir" | "readdir" | "lstat" | "stat")).cloned().collect();
    let streams: Vec<_> = cat.iter().filter(|c| c.1.starts_with('<')).cloned().collect();
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 6 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        r.dt_unknown = rng.pct(20);
        for _ in 0..rng.below(4) {
            if let Some(f) = pick_fault(rng, &cat) {
                r.faults.push(f);
            }
        }
        if rng.pct(30) {
            if let Some(f) = pick_fault(rng, &walk) {
                r.faults.push(f);
            }
        }
        if rng.pct(35) && !streams.is_empty() {
            let s = rng.pick(&streams);
            let n = rng.range(1, s.2 as usize + 1) as u32;
            r.faults.push(Fault::err("write", &s.1, if rng.pct(80) { 1_000_000 + n } else { n }, *rng.pick(E_STREAM)));
        }
        if rng.pct(20) {
            r.faults.push(Fault::err("write", "<stderr>", 1_000_001, *rng.pick(E_STREAM)));
        }
        if rng.pct(20) {
            r.noise = Some(Noise { seed: rng.next(), p: *rng.pick(&[2000, 20000, 50000]), mask: *rng.pick(&[63, 127]) });
        }
        r.max_ops = p.ops * 60 + 60_000;
        r.max_edges = p.edges * 40 + 400_000_000;
        if rng.pct(15) {
            worsen(ctx, rng, &w, &p, &mut r, false, &|_, _| true)?;
        }
        out.push(case("C09", "any fault, any schedule", &w, vec![r]));
    }
    Ok(out)
}
fn judge09(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let o = ctx.run(&c.tree, run)?;
    if !o.fired.is_empty() || o.preempts > 0 {
        nontrivial(ctx, &o);
    }
    // one of the threads that search is refused: the search is left half started
    let half = run.faults.len() == 1
        && o.fired.iter().any(|f| f.op == "thread_create" && f.nth > 1)
        && String::from_utf8_lossy(&o.stderr).contains("failed to spawn thread");
    Ok(match &o.end {
        End::Deadlock(d) | End::StepCap(d) if half => vec![v("does not end, a thread was refused", format!("the first of several search threads runs, a later one could not be created: {d}"))],
        End::Deadlock(d) => vec![v("deadlock", d.clone())],
        End::StepCap(d) => vec![v("does not end", d.clone())],
        _ => vec![],
    })
}

// ---------------------------------------------------------------- C10
fn gen10(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 7), fix: 65, inspect: 10, config: 15, links: 25, ignores: 20, bad: 4, kind: mixed_kinds, ..Opt::default() };
    let mut w = world(rng, &o);
    for n in &mut w.tree {
        if n.kind == FILE && rng.pct(30) {
            n.mode = *rng.pick(&[0o600, 0o664, 0o755, 0o444, 0o640, 0o400, 0o4755, 0o2775, 0o4644, 0o666]);
        }
        if n.kind == DIR && rng.pct(6) && n.path != w.run.cwd && n.path.starts_with(&w.run.cwd) {
            n.mode = *rng.pick(&[0o555, 0o500, 0o775]);
        }
    }
    if rng.pct(15) {
        // by the administrator, with files of several people
        w.run.uid = 0;
        for n in &mut w.tree {
            n.mode |= if n.kind == DIR { 0o500 } else { 0o400 };
            if rng.pct(60) {
                n.uid = *rng.pick(&[0, 1001, 1002, 33]);
            }
        }
    }
    let p = profile(ctx, &w)?;
    let cat: Vec<_> = catalog(&p, &w.tree).into_iter().filter(|c| c.0 != "unlink" && c.0 != "rmdir" && c.0 != "getcwd" && c.0 != "chown").collect();
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 5 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        if rng.pct(60) {
            for _ in 0..rng.range(1, 3) {
                if let Some(f) = pick_fault(rng, &cat) {
                    if f.path.starts_with('<') && rng.pct(70) {
                        continue;
                    }
                    r.faults.push(f);
                }
            }
            if rng.pct(15) {
                r.disk_free = rng.below(400) as i64;
            }
            if rng.pct(30) {
                worsen(ctx, rng, &w, &p, &mut r, false, &|op, path| path.starts_with('/') && !matches!(op, "unlink" | "rmdir" | "getcwd" | "stat" | "lstat" | "realpath" | "opendir" | "chown"))?;
            }
        }
        if rng.pct(10) {
            linger(rng, &w, &mut r);
        }
        out.push(case("C10", "what is changed on disk", &w, vec![r]));
    }
    Ok(out)
}
fn judge10(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_) | End::Signal(_)) {
        return Ok(out);
    }
    nontrivial(ctx, &o);
    if !exp.fix && o.mut_ops > 0 {
        let w = o.oplog.iter().find(|r| r.mutn > 0).map(|r| format!("{} {}", r.op, r.path)).unwrap_or_default();
        out.push(v("check-only run changes the disk", w));
    }
    let may: BTreeMap<&str, &Ref> = exp.files.iter().filter(|f| exp.fix && f.changes()).map(|f| (f.real.as_str(), f)).collect();
    for n in &c.tree {
        let Some(m) = o.get(&n.path) else {
            out.push(v("something was deleted", n.path.clone()));
            continue;
        };
        if m.kind != n.kind || (n.kind == LINK && m.data != n.data) {
            out.push(v("link replaced", n.path.clone()));
            continue;
        }
        // the system takes these two away from whatever somebody ordinary writes
        let setid = if run.uid != 0 && m.data != n.data { 0o6000 } else { 0 };
        if (m.mode | setid) != (n.mode | setid) || m.uid != n.uid {
            out.push(v("permissions changed", format!("{}: {:o} to {:o}, owner {} to {}", n.path, n.mode, m.mode, n.uid, m.uid)));
        }
        if n.kind == FILE && m.data != n.data {
            match may.get(n.path.as_str()) {
                None => out.push(v("changed without need", format!("{} holds {}", n.path, short(Some(&m.data))))),
                // how completely it is fixed is another matter (C01)
                Some(_) => {}
            }
        }
    }
    for m in &o.tree {
        if m.path != "/" && !c.tree.iter().any(|n| n.path == m.path || n.path.starts_with(&format!("{}/", m.path))) {
            out.push(v("extra file left behind", m.path.clone()));
        }
    }
    if exp.fix {
        for r in &o.oplog {
            let is_mut = r.mutn > 0 && r.res >= 0;
            // of a renaming both names
            for p in r.path.split(" -> ") {
                if is_mut && c.tree.iter().any(|n| n.path == p && n.kind == FILE) && !may.contains_key(p) {
                    out.push(v("written without need", format!("{} {}", r.op, r.path)));
                }
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C11
fn gen11(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 6), fix: 100, inspect: 5, config: 12, links: 10, many: 1, kind: fixing, ..Opt::default() };
    let w = world(rng, &o);
    let p = profile(ctx, &w)?;
    if p.mut_ops == 0 {
        return Ok(vec![]);
    }
    let cat: Vec<_> = catalog(&p, &w.tree).into_iter().filter(|c| !is_probe(&c.1)).collect();
    let mut out = vec![];
    for _ in 0..if thorough { 8 } else { 3 } {
        let mut runs = vec![];
        let pid = rng.range(300, 30000) as u32;
        let same = rng.pct(60);
        for _ in 0..rng.range(0, 4) {
            let mut r = w.run.clone();
            schedule(rng, &mut r, p.edges);
            if same {
                r.pid = pid;
            }
            match rng.below(5) {
                0..=2 => {
                    r.crash = Some(Crash {
                        kind: if rng.pct(60) { 1 } else { 2 },
                        at: rng.below(p.mut_ops as usize + 1) as u64,
                        partial: if rng.pct(50) { -1 } else { rng.below(60) as i64 },
                        seed: rng.next(),
                    });
                }
                3 => {
                    for _ in 0..rng.range(1, 3) {
                        if let Some(f) = pick_fault(rng, &cat) {
                            r.faults.push(f);
                        }
                    }
                    if runs.is_empty() && rng.pct(50) {
                        worsen(ctx, rng, &w, &p, &mut r, true, &|_, _| true)?;
                    }
                }
                _ => r.disk_free = rng.below(200) as i64,
            }
            runs.push(r);
        }
        for k in 0..3 {
            let mut r = w.run.clone();
            schedule(rng, &mut r, p.edges);
            if same {
                r.pid = pid;
            }
            if k == 2 {
                r.args.retain(|a| a != "-f" && a != "--fix");
            }
            runs.push(r);
        }
        out.push(case("C11", "history of fix runs", &w, runs));
    }
    Ok(out)
}
fn judge11(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let n = c.runs.len();
    if n < 3 {
        return Ok(vec![]);
    }
    let Some(exp) = expect(ctx, &c.tree, &c.runs[n - 3])? else { return Ok(vec![]) };
    if exp.files.iter().any(|f| f.odd.is_some()) {
        return Ok(vec![]);
    }
    let mut out = vec![];
    let mut tree = c.tree.clone();
    let mut last: Option<Outcome> = None;
    let fs = Fs::new(&c.tree);
    for (i, r) in c.runs.iter().enumerate() {
        let o = ctx.run(&tree, r)?;
        if i < n - 3 && (o.end == End::Crashed || !o.fired.is_empty() || r.disk_free >= 0) {
            nontrivial(ctx, &o);
        }
        if matches!(o.end, End::Deadlock(_) | End::StepCap(_) | End::Signal(_)) {
            return Ok(vec![]);
        }
        if i == n - 3 {
            for f in &exp.files {
                let now = content(&o.tree, &f.real);
                if now != f.fixed.as_ref() {
                    out.push(v(
                        "not recovered",
                        format!("after an undisturbed fix run {} holds {}, expected {}", f.real, short(now), short(f.fixed.as_ref())),
                    ));
                }
            }
            if end_ok(&o).is_none() {
                out.push(v("recovery run did not end normally", format!("{:?}", o.end)));
            }
        }
        if i == n - 2 {
            if o.mut_ops > 0 && exp.files.iter().all(|f| !f.failed) {
                let w = o.oplog.iter().find(|r| r.mutn > 0).map(|r| format!("{} {}", r.op, r.path)).unwrap_or_default();
                out.push(v("does not settle", format!("a further fix run changes something: {w}")));
            }
            let t: Vec<&Node> = o.tree.iter().filter(|m| fs.by.contains_key(m.path.as_str())).collect();
            let u: Vec<&Node> = tree.iter().filter(|m| fs.by.contains_key(m.path.as_str())).collect();
            if t.iter().any(|m| u.iter().any(|k| k.path == m.path && k.data != m.data)) {
                out.push(v("does not settle", "a further fix run changes a file".to_string()));
            }
        }
        if i == n - 1 {
            // the report of the check-only run is the one of the last fix run
            if let (Some(l), true) = (&last, exp.files.iter().all(|f| !f.failed)) {
                let a = lines_sorted(split_summary(&l.stderr).0);
                let b = lines_sorted(split_summary(&o.stderr).0);
                if a != b {
                    out.push(v("report changes after fixing", first_diff(split_summary(&l.stderr).0, split_summary(&o.stderr).0)));
                }
                let s = exp.files.iter().fold(Summary::default(), |mut a, f| {
                    a.plus(&f.sum);
                    a
                });
                if let Ok((t, _)) = final_summary(&o) {
                    if t != s && exp.sel.missing.is_empty() {
                        out.push(v("report changes after fixing", format!("summary {t:?}, single fix runs gave {s:?}")));
                    }
                }
            }
        }
        tree = o.tree.clone();
        for m in &mut tree {
            if m.path == "/" {
                m.mode = 0o755;
            }
        }
        tree.retain(|m| m.path != "/");
        last = Some(o);
    }
    Ok(out)
}

// ---------------------------------------------------------------- C12
fn gen12(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let cwd = "/w";
    let target = match rng.below(4) {
        0 => "/w/ludtwig-config.toml",
        1 => "/w/conf/l.toml",
        2 => "/w/l.toml",
        _ => "/w/ludtwig-config.toml",
    };
    let mut tree = vec![Node::dir("/w"), Node::dir("/w/conf"), Node::dir("/w/t")];
    for i in 0..rng.range(1, 3) {
        tree.push(Node::file(&format!("/w/t/a{i}.twig"), template(rng, Kind::Mixed, &format!("q{i}"))));
    }
    let mut copts = vec![];
    if target != "/w/ludtwig-config.toml" || rng.pct(20) {
        copts.push("-c".to_string());
        copts.push(if rng.pct(50) { target.to_string() } else { relative(cwd, target) });
    }
    let exists = rng.pct(55);
    if exists {
        let own = match rng.below(6) {
            0 => b"# mine\n[general]\nactive-rules = []\n".to_vec(),
            1 => config_text(rng).into_bytes(),
            2 => vec![],
            3 => rng.pick(&["\n", " \n\t\n", "# only a comment\n", "version = \"0.1.0\"\n"]).as_bytes().to_vec(),
            // begins like the default one
            4 => {
                let mut a = copts.clone();
                a.push("-C".into());
                let o = ctx.cached(&tree, &Run::new(cwd, &a))?;
                let t = content(&o.tree, target).cloned().unwrap_or_default();
                let n = if rng.pct(20) { t.len() } else { rng.below(t.len() + 1) };
                t[..n].to_vec()
            }
            _ => vec![0xff, 0xfe, 0],
        };
        match rng.below(5) {
            0 => {
                tree.push(Node::file("/w/conf/real.toml", own));
                tree.push(Node::link(target, "/w/conf/real.toml"));
            }
            _ => {
                let mut n = Node::file(target, own);
                n.mode = *rng.pick(&[0o644, 0o600, 0o200, 0o000, 0o444]);
                tree.push(n);
            }
        }
    }
    let mut args = copts.clone();
    args.push((*rng.pick(&["-C", "--create-config"])).to_string());
    let run = Run::new(cwd, &args);
    let w = World { tree, run };
    let p = profile(ctx, &w)?;
    let mut cat = catalog(&p, &w.tree);
    cat.retain(|c| c.1.starts_with('/'));
    for op in ["stat", "lstat", "open"] {
        if !cat.iter().any(|c| c.0 == op && c.1 == target) {
            cat.push((op.into(), target.into(), 1));
        }
    }
    let touches: Vec<(String, String)> = p.oplog.iter().filter(|r| below(&r.path, "/w")).map(|r| (r.op.clone(), r.path.clone())).collect();
    let mut later = Run::new(cwd, &[&copts[..], &["t".to_string()]].concat());
    schedule(rng, &mut later, 200_000);
    let mut out = vec![];
    for i in 0..if thorough { 16 } else { 8 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        match i % 4 {
            0 => {
                for _ in 0..rng.range(1, 2) {
                    let on: Vec<_> = cat.iter().filter(|c| c.1 == target || c.1.ends_with("?new") || below(target, &c.1)).cloned().collect();
                    if let Some(mut f) = pick_fault(rng, if on.is_empty() { &cat } else { &on }) {
                        if matches!(f.op.as_str(), "stat" | "lstat") {
                            f.arg = *rng.pick(&[13, 5, 40, 12, 116]);
                        }
                        r.faults.push(f);
                    }
                }
            }
            1 if !touches.is_empty() => {
                let (op, path) = rng.pick(&touches).clone();
                r.exts.push(Ext { op, path, nth: 1, act: 0, tpath: target.into(), data: if rng.pct(20) { vec![] } else { b"# theirs\n[general]\nactive-rules = []\n".to_vec() }, arg: 0o644 });
            }
            2 => {
                if p.mut_ops > 0 {
                    r.crash = Some(Crash {
                        kind: if rng.pct(50) { 1 } else { 2 },
                        at: rng.below(p.mut_ops as usize + 1) as u64,
                        partial: if rng.pct(30) { -1 } else { rng.below(11_000) as i64 },
                        seed: rng.next(),
                    });
                }
            }
            _ => {
                if rng.pct(60) {
                    r.disk_free = rng.below(11_000) as i64;
                }
                if let Some((op, path, _)) = cat.iter().find(|c| c.0 == "write") {
                    if rng.pct(50) {
                        r.faults.push(Fault::short(op, path, 1, rng.below(9000) as i64));
                        r.faults.push(Fault::err(op, path, 2, *rng.pick(E_WRITE)));
                    }
                }
            }
        }
        let mut c = case("C12", "create-config", &w, vec![r, later.clone()]);
        c.extra.insert("target".into(), target.into());
        out.push(c);
    }
    Ok(out)
}
fn judge12(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let target = c.extra.get("target").cloned().unwrap_or_default();
    let run = &c.runs[0];
    let mut out = vec![];
    // the complete default file
    let clean: Vec<Node> = c.tree.iter().filter(|n| n.path != target).cloned().collect();
    let full = ctx.cached(&clean, &run.undisturbed())?;
    let Some(def) = content(&full.tree, &target).cloned() else {
        return Ok(vec![v("default configuration is not created", format!("{target} missing after an undisturbed run"))]);
    };
    let o = ctx.run(&c.tree, run)?;
    if !o.fired.is_empty() || o.end == End::Crashed || run.disk_free >= 0 {
        nontrivial(ctx, &o);
    }
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let before = content(&c.tree, &target).cloned();
    let theirs = run.exts.iter().find(|x| x.act == 0 && x.tpath == target && o.fired.iter().any(|f| f.op == format!("ext:{}", x.op) && f.path == x.path && f.nth == x.nth));
    let after = content(&o.tree, &target).cloned();
    let link_kept = c.tree.iter().filter(|n| n.path == target).all(|n| o.get(&n.path).is_some_and(|m| m.kind == n.kind && m.mode == n.mode));
    if let Some(b) = &before {
        // another process may replace it, this one may not
        let ok = after.as_ref() == Some(b) || theirs.is_some_and(|x| after.as_ref() == Some(&x.data));
        if !ok || !link_kept {
            out.push(v("existing configuration changed", format!("{target} held {}, now {}", short(Some(b)), short(after.as_ref()))));
        }
        if end_ok(&o) == Some(0) {
            out.push(v("claims success over an existing file", format!("{target} exists, exit status 0")));
        }
    } else if let Some(x) = theirs {
        // created by another process at some moment of this run; if the file
        // of this run was there already, the other process does the harm
        let first = o.fired.iter().any(|f| f.op.starts_with("ext:") && f.path == x.path && f.arg == 0);
        if first && after.as_ref() != Some(&x.data) {
            out.push(v("existing configuration changed", format!("another process created {target}, now it holds {}", short(after.as_ref()))));
        }
    } else if end_ok(&o) == Some(0) && after.as_ref() != Some(&def) {
        out.push(v("success without a complete file", format!("exit status 0, {target} holds {}", short(after.as_ref()))));
    }
    // later runs use the defaults, or refuse to run
    if before.is_none() && theirs.is_none() && out.is_empty() && c.runs.len() > 1 {
        let mut tree: Vec<Node> = o.tree.iter().filter(|m| m.path != "/").cloned().collect();
        for m in &mut tree {
            if m.path == "/" {
                m.mode = 0o755;
            }
        }
        let later = &c.runs[1];
        let Some(exp) = expect(ctx, &clean, later)? else { return Ok(out) };
        let l = ctx.run(&tree, later)?;
        match end_ok(&l) {
            Some(code) => {
                let body = split_summary(&l.stderr).0;
                let missing = exp.files.iter().find(|f| !f.block.is_empty() && block_count(body, &f.block) == 0);
                let scanned = final_summary(&l).map(|s| s.0).ok();
                let same = missing.is_none() && scanned.is_some_and(|s| s.files == exp.files.len() as u64 && s.total == exp.files.iter().map(|f| f.sum.total).sum::<u64>());
                if !same && (code == 0 || scanned.is_some()) {
                    out.push(v(
                        "left-over configuration changes later runs",
                        format!("{target} holds {}; a later run gives {scanned:?}, exit status {code}", short(after.as_ref())),
                    ));
                }
            }
            None => out.push(v("later run did not end normally", format!("{:?}", l.end))),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C13
const BROKEN: &[&str] = &[
    "[general]\nactive-rules = [\"no-such-rule\"]\n",
    "[general]\nactive-rules = [\"indentation\", \"twig-logic-annd\"]\n",
    "[general\nactive-rules = []\n",
    "[format]\nindentation-count = \"four\"\n",
    "[format]\nindentation-count = -1\n",
    "[format]\nindentation-count = 256\n",
    "[format]\nindentation-mode = \"spaces\"\n",
    "[format]\nline-ending = \"lf\"\n",
    "[format]\ntwig-quotation = 1\n",
    "[general]\nactive-rules = \"indentation\"\n",
    "[general]\nactive-rules = [\"indentation\"\n",
    "version = \n",
    "general = 5\n",
    "[format]\nlinebreaks-around-blocks = \"yes\"\n",
    "[twig]\nvalid-filters = [1, 2]\n",
    "\0\0\0\0\0\0",
    "[format]\nindentation-count = 4\nindentation-count = 2\n",
];
fn gen13(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 4), fix: 55, inspect: 5, config: 0, many: 0, kind: mixed_kinds, ..Opt::default() };
    let mut w = world(rng, &o);
    let explicit = rng.pct(35);
    // relative paths are looked for in parent directories as well
    let above = rng.pct(if w.run.cwd.len() > 24 { 60 } else { 20 }) && w.run.cwd.matches('/').count() > 1;
    let dir = if above { some_parent(rng, &w.run.cwd) } else { w.run.cwd.clone() };
    let path = if explicit { join(&dir, "conf.toml") } else { join(&dir, "ludtwig-config.toml") };
    if explicit {
        let p = if !above && rng.pct(50) { path.clone() } else { "conf.toml".into() };
        w.run.args.insert(0, p);
        w.run.args.insert(0, "-c".into());
    }
    let mut invalid = false;
    let mut n = Node::file(&path, "");
    match rng.below(10) {
        0..=2 => {
            invalid = true;
            let mut s = if rng.pct(50) { "version = \"0.13.0\"\n".to_string() } else { String::new() };
            let b: &str = *rng.pick(BROKEN);
            if b.starts_with("version") {
                s.clear();
            }
            s += b;
            n.data = s.into_bytes();
        }
        3 => {
            invalid = true;
            n.data = config_text(rng).into_bytes();
            let at = rng.below(n.data.len() + 1);
            n.data.insert(at, 0xff);
        }
        4 => {
            invalid = true;
            n.data = config_text(rng).into_bytes();
            n.mode = *rng.pick(&[0o000, 0o200]);
        }
        _ => n.data = config_text(rng).into_bytes(),
    }
    if !invalid && rng.pct(10) {
        // through a link
        let t = join(&dir, "shared-config");
        w.tree.push(Node { path: t.clone(), ..n.clone() });
        w.tree.push(Node::link(&path, &t));
    } else {
        w.tree.push(n);
    }
    let p = profile(ctx, &w)?;
    let real = Fs::new(&w.tree).real(&path).unwrap_or(path.clone());
    let cat: Vec<_> = catalog(&p, &w.tree).into_iter().filter(|c| c.1 == path || c.1 == real).collect();
    let mut out = vec![];
    for _ in 0..if invalid { 2 } else if thorough { 12 } else { 6 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        if !invalid {
            for _ in 0..rng.range(1, 2) {
                let mut f = match pick_fault(rng, &cat) {
                    Some(f) => f,
                    None => Fault::err("open", &path, 0, 5),
                };
                f.arg = *rng.pick(&[5, 13, 12, 24, 40, 116, 110]);
                r.faults.push(f);
            }
            if rng.pct(10) {
                r.exts.push(Ext { op: "open".into(), path: real.clone(), nth: 1, act: 2, tpath: real.clone(), data: vec![], arg: 0 });
            }
        }
        let mut c = case("C13", if invalid { "broken configuration" } else { "configuration fails to load" }, &w, vec![r]);
        if invalid {
            c.extra.insert("invalid".into(), "1".into());
        }
        out.push(c);
    }
    Ok(out)
}
fn judge13(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let invalid = c.extra.contains_key("invalid");
    if invalid || !o.fired.is_empty() {
        nontrivial(ctx, &o);
    }
    let sel = select(&c.tree, &run.cwd, &run.args);
    let fs = Fs::new(&c.tree);
    let opened = sel.files.iter().find(|s| {
        let real = fs.real(&s.abs).unwrap_or_default();
        o.oplog.iter().any(|r| r.op == "open" && (r.path == s.abs || r.path == real))
    });
    let same_tree = c.tree.iter().all(|n| o.get(&n.path).is_some_and(|m| m.data == n.data || n.kind != FILE));
    let (_, sum1) = split_summary(&o.stdout);
    let (_, sum2) = split_summary(&o.stderr);
    let code = end_ok(&o);
    let refused = code != Some(0) && !o.stderr.is_empty() && opened.is_none() && same_tree && sum1.is_none() && sum2.is_none();
    if refused {
        return Ok(out);
    }
    if invalid {
        let why = if code == Some(0) { "exit status 0" } else if opened.is_some() { "templates were opened" } else if o.stderr.is_empty() { "nothing on stderr" } else { "templates were processed" };
        out.push(v("broken configuration accepted", format!("{why}; ended {:?}", o.end)));
        return Ok(out);
    }
    // otherwise exactly the settings of the file were in force
    let want = ctx.cached(&c.tree, &run.undisturbed())?;
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(out) };
    let mut diff = None;
    if want.end != o.end {
        diff = Some(format!("ended {:?} instead of {:?}", o.end, want.end));
    }
    for f in &exp.files {
        if !f.failed && !f.block.is_empty() && block_count(&o.stderr, &f.block) != block_count(&want.stderr, &f.block) {
            diff.get_or_insert(format!("report of {} differs", f.sel.display));
        }
        if content(&o.tree, &f.real) != content(&want.tree, &f.real) {
            diff.get_or_insert(format!("content of {} differs", f.sel.display));
        }
    }
    let a = final_summary(&want).map(|s| s.0).ok();
    let b = final_summary(&o).map(|s| s.0).ok();
    if a != b {
        diff.get_or_insert(format!("summary {b:?} instead of {a:?}"));
    }
    if let Some(d) = diff {
        out.push(v("other settings used", format!("the configuration could not be loaded, yet templates were processed: {d}")));
    }
    Ok(out)
}

// ---------------------------------------------------------------- C14
fn gen14(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let ign = rng.pct(60);
    let o = Opt { n: (2, 9), fix: 65, inspect: 5, config: 5, ignores: if ign { 100 } else { 0 }, many: 1, kind: fixing, ..Opt::default() };
    let mut w = world(rng, &o);
    // directories and ignore files that are closed from the beginning
    let fixed_dir = rng.pct(12);
    if fixed_dir {
        let ds: Vec<usize> = (0..w.tree.len()).filter(|i| w.tree[*i].kind == DIR && below(&w.tree[*i].path, &w.run.cwd)).collect();
        if !ds.is_empty() {
            let i = *rng.pick(&ds);
            w.tree[i].mode = *rng.pick(&[0o000, 0o300]);
        }
    }
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    if sel.dirs.is_empty() {
        return Ok(vec![]);
    }
    let igs: Vec<String> = applying(&w.tree, &w.run, &sel).into_iter().map(|(n, _)| n.path.clone()).collect();
    let gits: Vec<String> = w.tree.iter().filter(|n| n.kind == DIR && base(&n.path) == ".git").map(|n| n.path.clone()).collect();
    if !igs.is_empty() && rng.pct(15) {
        let p = rng.pick(&igs).clone();
        for n in &mut w.tree {
            if n.path == p {
                if rng.pct(60) {
                    n.mode = 0;
                } else {
                    n.data.insert(0, 0xff);
                    n.data.insert(1, b'\n');
                }
            }
        }
    }
    let p = profile(ctx, &w)?;
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 6 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        r.dt_unknown = rng.pct(15) && !is_fix(&r.args);
        for _ in 0..rng.range(1, 2) {
            if !gits.is_empty() && rng.pct(15) {
                // whether this is a repository cannot be told
                r.faults.push(Fault::err("stat", rng.pick(&gits), 0, *rng.pick(&[13, 5, 40, 116])));
            } else if !igs.is_empty() && rng.pct(60) {
                let p = rng.pick(&igs);
                r.faults.push(match rng.below(10) {
                    0..=4 => Fault::err("open", p, 0, *rng.pick(&[13, 5, 24, 12, 40, 116])),
                    5..=7 => Fault::err("read", p, 0, *rng.pick(&[5, 12, 116])),
                    _ => Fault::err("stat", p, 0, *rng.pick(&[13, 5, 40, 12, 116])),
                });
            } else {
                let d = rng.pick(&sel.dirs).abs.clone();
                r.faults.push(if rng.pct(60) {
                    Fault::err("opendir", &d, 0, *rng.pick(&[13, 5, 24, 12, 40, 2, 116, 20]))
                } else {
                    Fault::err("readdir", &d, rng.below(5) as u32, *rng.pick(&[5, 116]))
                });
            }
        }
        out.push(case("C14", "directories and ignore files that cannot be read", &w, vec![r]));
    }
    Ok(out)
}
/// ignore files that matter for the scanned tree; true: of a directory above it
fn applying<'a>(tree: &'a [Node], run: &Run, sel: &Selection) -> Vec<(&'a Node, bool)> {
    let fs = Fs::new(tree);
    let roots: Vec<String> = path_args(&run.args).1.iter().filter_map(|a| fs.real(&join(&run.cwd, a))).filter(|r| fs.is_dir(r)).collect();
    let mut out = vec![];
    for n in tree.iter().filter(|n| n.kind == FILE) {
        let exclude = n.path.ends_with("/.git/info/exclude");
        let name = base(&n.path);
        if !exclude && !IGNORE_NAMES.contains(&name) {
            continue;
        }
        let d = if exclude { n.path.strip_suffix("/.git/info/exclude").filter(|d| !d.is_empty()).unwrap_or("/") } else { parent(&n.path) };
        if sel.dirs.iter().any(|s| s.abs == d) {
            if name != ".gitignore" || git_above(tree, d) {
                out.push((n, false));
            }
        } else if let Some(r) = roots.iter().find(|r| below(r, d)) {
            let git = exclude || name == ".gitignore";
            // not above the repository the tree belongs to
            let mut x = r.as_str();
            let mut cut = false;
            while x != d {
                cut |= fs.is_dir(&join(x, ".git"));
                x = parent(x);
            }
            if !git || !cut && git_above(tree, d) {
                out.push((n, true));
            }
        }
    }
    out
}
fn git_above(tree: &[Node], dir: &str) -> bool {
    let fs = Fs::new(tree);
    let mut d = dir.to_string();
    loop {
        if fs.is_dir(&join(&d, ".git")) {
            return true;
        }
        if d == "/" {
            return false;
        }
        d = parent(&d).to_string();
    }
}
fn judge14(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    if head_of(ctx, &c.tree, run)?.is_none() {
        return Ok(vec![]);
    }
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    let sel = select(&c.tree, &run.cwd, &run.args);
    let fs = Fs::new(&c.tree);
    // what could not be read, in directories that are certainly reached
    let closed: Vec<String> = sel
        .dirs
        .iter()
        .filter(|d| {
            fs.by.get(d.abs.as_str()).is_some_and(|n| n.mode & 0o500 != 0o500)
                || o.fired.iter().any(|f| f.act == 0 && (f.op == "opendir" || f.op == "readdir") && f.path == d.abs)
        })
        .map(|d| d.abs.clone())
        .collect();
    let unusable = |n: &Node| {
        n.mode & 0o400 == 0
            || std::str::from_utf8(&n.data).is_err()
            || run.faults.iter().any(|f| f.nth == 0 && f.act == 0 && f.path == n.path && (f.op == "open" || f.op == "read"))
    };
    let apply = applying(&c.tree, run, &sel);
    // of directories above: nothing of the tree is looked at
    let above: Vec<&Node> = apply.iter().filter(|x| x.1 && unusable(x.0)).map(|x| x.0).collect();
    let bad_ign: Vec<&Node> = apply
        .iter()
        .filter(|x| !x.1 && unusable(x.0))
        .map(|x| x.0)
        // certainly reached: no trouble on the way
        .filter(|n| !closed.iter().any(|d| below(&n.path, d)))
        .collect();
    let of = |n: &Node| n.path.strip_suffix("/.git/info/exclude").unwrap_or(parent(&n.path)).to_string();
    let reached_ign: Vec<&&Node> = bad_ign.iter().filter(|n| !bad_ign.iter().any(|m| m.path != n.path && below(&of(n), &of(m)))).collect();
    let reached_dir = closed.iter().any(|d| !bad_ign.iter().any(|n| *d == of(n) || below(d, &of(n))));
    let trouble = reached_dir || !reached_ign.is_empty() || !above.is_empty();
    if trouble {
        nontrivial(ctx, &o);
        let errs = error_lines(&o.stderr);
        let what = if let Some(n) = above.first() {
            n.path.clone()
        } else if reached_dir {
            closed.first().cloned().unwrap_or_default()
        } else {
            reached_ign[0].path.clone()
        };
        if errs.is_empty() {
            out.push(v("passed over silently", format!("{what} could not be read, no error message")));
        }
        // each of them on its own
        let mut each: BTreeSet<String> = reached_ign.iter().map(|n| of(n)).collect();
        each.extend(
            closed
                .iter()
                .filter(|d| !bad_ign.iter().any(|n| **d == of(n) || below(d, &of(n))))
                .filter(|d| !closed.iter().any(|x| x != *d && below(d, x)))
                .cloned(),
        );
        // (whether one is there could not be told: nothing below is looked at)
        each.retain(|d| !run.faults.iter().any(|f| f.op == "stat" && f.act == 0 && below(d, parent(&f.path))));
        // (the ignore file of the working directory stops the run at once)
        // (nor is anything below a repository looked at whose own exclude file may be hidden)
        let git_closed = c.tree.iter().any(|n| base(&n.path) == ".git" && (n.mode & 0o500 != 0o500 || run.faults.iter().any(|f| f.path == n.path || below(&f.path, &n.path))));
        if !errs.is_empty() && errs.len() < each.len() && final_summary(&o).is_ok() && !git_closed && above.is_empty() {
            out.push(v("passed over silently", format!("{each:?} could not be read, only {} error messages", errs.len())));
        }
        match end_ok(&o) {
            Some(0) => out.push(v("exit status 0 despite unreadable directory or ignore file", what.clone())),
            Some(_) => {}
            None => out.push(v("run did not end normally", format!("{:?}", o.end))),
        }
        if let Ok((s, _)) = final_summary(&o) {
            if s.e == 0 {
                out.push(v("unreadable directory or ignore file not counted", what));
            }
        }
    }
    // what an unreadable ignore file excludes stays untouched
    let kept: BTreeSet<&str> = sel.files.iter().map(|f| f.abs.as_str()).collect();
    for x in &sel.excluded {
        if kept.contains(x.abs.as_str()) {
            continue;
        }
        if content(&c.tree, &x.abs) != content(&o.tree, &x.abs) {
            out.push(v("excluded template changed", format!("{} is excluded by an ignore file, yet it was changed", x.abs)));
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C15
fn gen15(rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let kind: fn(&mut Rng) -> Kind = |r| if r.pct(12) { Kind::Big } else { any_kind(r) };
    let o = Opt { n: (1, 6), fix: 55, inspect: 10, config: 30, links: 10, ignores: 15, bad: 3, kind, ..Opt::default() };
    let w = world(rng, &o);
    let mut out = vec![];
    for _ in 0..if thorough { 10 } else { 5 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, 1_000_000);
        r.noise = Some(Noise { seed: rng.next(), p: *rng.pick(&[800, 5000, 15000, 30000]), mask: *rng.pick(&[1, 2, 4, 8, 16, 63, 63, 127, 31, 7, 64, 71]) });
        out.push(case("C15", "interrupted and partial calls", &w, vec![w.run.undisturbed(), r]));
    }
    Ok(out)
}
fn judge15(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let a = ctx.cached(&c.tree, &c.runs[0])?;
    let b = ctx.run(&c.tree, &c.runs[1])?;
    if !b.fired.is_empty() {
        nontrivial(ctx, &b);
    }
    if matches!(b.end, End::Deadlock(_) | End::StepCap(_)) && matches!(a.end, End::Exit(_)) && b.fired.is_empty() {
        return Ok(vec![]);
    }
    Ok(compare(&a, &b, "without interruptions"))
}

// ---------------------------------------------------------------- C16
fn gen16(rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 4), fix: 45, inspect: 60, config: 10, many: 0, kind: |r| if r.pct(60) { Kind::Wild } else { any_kind(r) }, ..Opt::default() };
    let w = world(rng, &o);
    let idx: Vec<usize> = (0..w.tree.len()).filter(|i| w.tree[*i].kind == FILE && is_template_name(&w.tree[*i].path)).collect();
    if idx.is_empty() {
        return Ok(vec![]);
    }
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 6 } {
        let mut t = w.tree.clone();
        let mut kinds = vec![];
        for _ in 0..rng.range(1, 2) {
            let i = *rng.pick(&idx);
            for _ in 0..rng.range(1, 2) {
                let (d, k) = damage(rng, &t[i].data);
                t[i].data = d;
                kinds.push(format!("{}: {k}", t[i].path));
            }
        }
        let mut r = w.run.clone();
        schedule(rng, &mut r, 500_000);
        let mut c = case("C16", "damaged templates", &w, vec![r]);
        c.tree = t;
        c.extra.insert("damage".into(), kinds.join(", "));
        out.push(c);
    }
    Ok(out)
}
fn unescape(s: &str) -> Option<Vec<u8>> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            '\\' => out.push('\\'),
            '"' => out.push('"'),
            '\'' => out.push('\''),
            'u' => {
                let mut h = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    if c != '{' {
                        h.push(c);
                    }
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            _ => return None,
        }
    }
    Some(out.into_bytes())
}
/// does the displayed tree reproduce the text
pub fn tree_reproduces(block: &[u8], text: &[u8]) -> Result<(), String> {
    let s = String::from_utf8_lossy(block);
    let Some(rest) = s.strip_prefix("note[SyntaxTree]") else { return Err("no tree displayed".into()) };
    let mut at = 0usize;
    for l in rest.lines().skip(1) {
        if l.is_empty() {
            break;
        }
        let l = l.trim_start().trim_start_matches("= ").trim_start();
        let Some((_, r)) = l.split_once('@') else { continue };
        let Some((range, lit)) = r.split_once(' ') else { continue };
        let Some((a, b)) = range.split_once("..") else { continue };
        let (Ok(a), Ok(b)) = (a.parse::<usize>(), b.parse::<usize>()) else { continue };
        let Some(q) = lit.strip_prefix('"').and_then(|x| x.strip_suffix('"')) else { continue };
        if a != at || b < a || b > text.len() {
            return Err(format!("token {l:?} does not follow at {at}"));
        }
        let t = unescape(q).ok_or_else(|| format!("token {l:?}"))?;
        let want = &text[a..b];
        let cut = t.strip_suffix(b" ...").is_some_and(|p| want.len() >= 20 && want.starts_with(p));
        if t != want && !cut {
            return Err(format!("token {l:?} is not the stored text {:?}", String::from_utf8_lossy(want)));
        }
        at = b;
    }
    if at != text.len() {
        return Err(format!("tree covers {at} of {} bytes", text.len()));
    }
    Ok(())
}
fn judge16(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    nontrivial(ctx, &o);
    match &o.end {
        End::Exit(0 | 1) => {}
        e => {
            // which of them it is
            let by: Vec<String> = exp.files.iter().filter_map(|f| f.odd.as_ref().map(|x| format!("{} ({x})", f.sel.display))).collect();
            out.push(v("damaged template stops the run", format!("{e:?}: {} [alone too: {}]", String::from_utf8_lossy(&o.stderr[o.stderr.len().saturating_sub(300)..]), by.join(", "))));
            return Ok(out);
        }
    }
    if let Err(e) = final_summary(&o) {
        out.push(v("no summary", e));
    }
    let mut equal: BTreeMap<&[u8], usize> = BTreeMap::new();
    for f in &exp.files {
        if let Some(x) = &f.odd {
            out.push(v("damaged template stops the run", format!("{} alone: {x}", f.sel.display)));
            continue;
        }
        let utf8 = f.orig.as_ref().is_some_and(|b| std::str::from_utf8(b).is_ok());
        if !utf8 {
            if !error_lines(&o.stderr).iter().any(|l| names(l, &f.sel.display)) || end_ok(&o) == Some(0) {
                out.push(v("invalid UTF-8 not reported", f.sel.display.clone()));
            }
            if content(&o.tree, &f.real) != f.orig.as_ref() {
                out.push(v("unreadable template changed", f.sel.display.clone()));
            }
            continue;
        }
        if f.failed {
            continue;
        }
        let n = equal.entry(&f.block).or_default();
        *n += 1;
        if !f.block.is_empty() && block_count(&o.stderr, &f.block) < *n {
            out.push(v("usual report missing", f.sel.display.clone()));
        }
        let want = if exp.fix { f.fixed.as_ref() } else { f.orig.as_ref() };
        if content(&o.tree, &f.real) != want {
            out.push(v("wrong content", format!("{} holds {}, expected {}", f.sel.display, short(content(&o.tree, &f.real)), short(want))));
        }
        if exp.inspect {
            if let Some(text) = want {
                if let Err(e) = tree_reproduces(&f.block, text) {
                    out.push(v("displayed tree differs from the stored text", format!("{}: {e}", f.sel.display)));
                }
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C17
fn gen17(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 7), fix: 50, inspect: 10, config: 15, bad: 8, kind: reporting, ..Opt::default() };
    let mut w = world(rng, &o);
    if rng.pct(10) {
        w.run.args.push("nowhere".into());
    }
    let p = profile(ctx, &w)?;
    let n_out = p.oplog.iter().filter(|r| r.op == "write" && r.path == "<stdout>").count();
    let n_err = p.oplog.iter().filter(|r| r.op == "write" && r.path == "<stderr>").count();
    let mut out = vec![];
    for _ in 0..if thorough { 16 } else { 8 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        for (s, n) in [("<stdout>", n_out), ("<stderr>", n_err)] {
            if rng.pct(60) {
                let k = rng.range(1, n + 1) as u32;
                let e = *rng.pick(&[32, 32, 5, 28, 11]);
                if rng.pct(30) {
                    r.faults.push(Fault::short("write", s, k, rng.below(40) as i64 + 1));
                    r.faults.push(Fault::err("write", s, 1_000_001 + k, e));
                } else {
                    r.faults.push(Fault::err("write", s, if rng.pct(85) { 1_000_000 + k } else { k }, e));
                }
            }
        }
        if r.faults.is_empty() {
            r.faults.push(Fault::err("write", "<stderr>", 1_000_001, 32));
        }
        out.push(case("C17", "output stream fails", &w, vec![r]));
    }
    Ok(out)
}
fn judge17(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let want = ctx.cached(&c.tree, &run.undisturbed())?;
    let o = ctx.run(&c.tree, run)?;
    let mut out = content_violations(&exp, &o.tree);
    if o.fired.is_empty() {
        return Ok(out);
    }
    nontrivial(ctx, &o);
    let problems = final_summary(&want).map(|s| s.0.e + s.0.w + s.0.h > 0).unwrap_or(false) || !exp.sel.missing.is_empty();
    if problems && o.end == End::Exit(0) {
        out.push(v("success despite problems and lost output", format!("exit status 0; the undisturbed run reports {:?}", final_summary(&want).map(|s| s.0))));
    }
    Ok(out)
}

// ---------------------------------------------------------------- C18
/// templates that another process can replace: plain files selected once
fn replaceable<'a>(tree: &'a [Node], sel: &Selection) -> Vec<&'a Node> {
    let fs = Fs::new(tree);
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    for s in &sel.files {
        *n.entry(fs.real(&s.abs).unwrap_or(s.abs.clone())).or_default() += 1;
    }
    tree.iter()
        .filter(|x| x.kind == FILE && x.mode & 0o600 == 0o600 && n.get(&x.path) == Some(&1))
        .filter(|x| !tree.iter().any(|y| y.kind == HARD && y.data == raw(&x.path)))
        .collect()
}
fn gen18(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 8), fix: 65, inspect: 12, config: 12, links: 8, dangling: 5, ignores: 8, bad: 4, kind: mixed_kinds, ..Opt::default() };
    let w = world(rng, &o);
    let p = profile(ctx, &w)?;
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    let targets = replaceable(&w.tree, &sel);
    let Some(exp) = expect(ctx, &w.tree, &w.run)? else { return Ok(vec![]) };
    if targets.is_empty() || p.oplog.is_empty() {
        return Ok(vec![]);
    }
    // moments of the run: the n-th operation of a kind on a path
    let mut seen: BTreeMap<(&str, &str), u32> = BTreeMap::new();
    let mut moments: Vec<(String, String, u32)> = vec![];
    let mut temps: Vec<String> = vec![];
    for r in &p.oplog {
        if !r.path.starts_with('/') && !r.path.starts_with('<') || r.path.contains(" -> ") || r.op.starts_with("thread") || r.op.starts_with("futex") {
            continue;
        }
        let k = seen.entry((&r.op, &r.path)).or_default();
        *k += 1;
        moments.push((r.op.clone(), r.path.clone(), *k));
        if r.op == "open" && r.arg & 1 << 40 != 0 && !temps.contains(&r.path) {
            temps.push(r.path.clone());
        }
    }
    if moments.is_empty() {
        return Ok(vec![]);
    }
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 6 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        if rng.pct(20) {
            r.noise = Some(Noise { seed: rng.next(), p: *rng.pick(&[600, 5000]), mask: *rng.pick(&[8, 16, 24, 56]) });
        }
        // two processes can only have the same number in different containers
        let twin = rng.pct(40);
        if twin {
            r.pid = w.run.undisturbed().pid;
        }
        let mut chosen: Vec<&Node> = vec![];
        for _ in 0..rng.range(1, 3) {
            let t = *rng.pick(&targets);
            if chosen.iter().any(|c| c.path == t.path) {
                continue;
            }
            chosen.push(t);
            let own: Vec<&(String, String, u32)> = moments.iter().filter(|m| m.1 == t.path || parent(&m.1) == parent(&t.path)).collect();
            let when = |rng: &mut Rng| {
                if !own.is_empty() && rng.pct(70) {
                    (*rng.pick(&own)).clone()
                } else {
                    rng.pick(&moments).clone()
                }
            };
            let fixed = exp.files.iter().find(|f| f.real == t.path).and_then(|f| f.fixed.clone());
            let data = match rng.below(10) {
                0..=4 => fixed.unwrap_or_else(|| t.data.clone()),
                5 => t.data.clone(),
                6 => vec![],
                _ => {
                    let k = mixed_kinds(rng);
                    template(rng, k, "other")
                }
            };
            let (op, path, nth) = when(rng);
            if rng.pct(50) {
                // it writes a file of its own beside the template first
                let tmp = if !temps.is_empty() && (twin || rng.pct(20)) {
                    rng.pick(&temps).clone()
                } else {
                    join(parent(&t.path), &format!(".ludtwig-{}-{}.tmp", r.pid + 1, rng.below(3)))
                };
                let (op1, path1, nth1) = if rng.pct(40) { moments[0].clone() } else { when(rng) };
                let k = rng.below(data.len() + 1);
                r.exts.push(Ext { op: op1, path: path1, nth: nth1, act: 5, tpath: tmp.clone(), data: data[..k].to_vec(), arg: 0o600 });
                if rng.pct(50) {
                    r.exts.push(Ext { op: op.clone(), path: path.clone(), nth, act: 1, tpath: tmp, data: vec![], arg: 1 });
                }
            }
            r.exts.push(Ext { op, path, nth, act: 4, tpath: t.path.clone(), data, arg: i64::from(t.mode) });
        }
        out.push(case("C18", "another process saves templates meanwhile", &w, vec![r]));
    }
    Ok(out)
}
/// what a run over one template alone says, for one of its contents
struct Version {
    r: Ref,
    /// what the template can hold at the end if the run read this
    ends: Vec<Vec<u8>>,
}
fn judge18(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let Some(exp) = expect(ctx, &c.tree, run)? else { return Ok(vec![]) };
    let targets: BTreeSet<String> = replaceable(&c.tree, &exp.sel).into_iter().map(|n| n.path.clone()).collect();
    let exts: Vec<&Ext> = run.exts.iter().filter(|x| x.act == 4).collect();
    if exts.iter().any(|x| !targets.contains(&x.tpath)) || exp.files.iter().any(|f| f.odd.is_some()) {
        return Ok(vec![]);
    }
    // every template with the contents it has had
    let mut files: Vec<Vec<Version>> = vec![];
    let mut reals = BTreeSet::new();
    for f in &exp.files {
        if !reals.insert(f.real.clone()) {
            // reached by two paths: read and saved more than once
            return Ok(vec![]);
        }
        let mut vs = vec![];
        if let Some(x) = exts.iter().find(|x| x.tpath == f.real) {
            let mut tree = c.tree.clone();
            if let Some(n) = tree.iter_mut().find(|n| n.path == f.real) {
                n.data.clone_from(&x.data);
            }
            let g = alone(ctx, &tree, run, &f.sel, &exp.head, &exp.pre)?;
            if g.odd.is_some() || g.failed || f.failed {
                return Ok(vec![]);
            }
            let after: Vec<Vec<u8>> = g.fixed.iter().cloned().collect();
            vs.push(Version { r: f.clone(), ends: vec![x.data.clone()] });
            if exp.fix && f.changes() {
                vs[0].ends.extend(f.fixed.clone());
            }
            vs.push(Version { r: g, ends: after });
        } else {
            vs.push(Version { r: f.clone(), ends: f.fixed.iter().cloned().collect() });
        }
        files.push(vs);
    }
    let o = ctx.run(&c.tree, run)?;
    let mut out = vec![];
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(out);
    }
    if end_ok(&o).is_none() {
        return Ok(vec![v("run did not end normally", format!("{:?}", o.end))]);
    }
    let did = |x: &Ext| o.fired.iter().any(|f| f.op == format!("ext:{}", x.op) && f.path == x.path && f.nth == x.nth && f.act == x.act);
    if run.exts.iter().any(did) {
        nontrivial(ctx, &o);
    }
    // a replacement that never came leaves the template as it was
    for (vs, f) in files.iter_mut().zip(&exp.files) {
        if let Some(x) = exts.iter().find(|x| x.tpath == f.real) {
            if !did(x) {
                vs.truncate(1);
                vs[0].ends = f.fixed.iter().cloned().collect();
            }
        }
    }
    // reports
    let mut blocks: Vec<&[u8]> = vec![];
    let mut which: Vec<Vec<Option<usize>>> = vec![];
    for vs in &files {
        let mut ids = vec![];
        for (i, x) in vs.iter().enumerate() {
            if x.r.failed || x.r.block.is_empty() {
                ids.push(None);
            } else if let Some(j) = (0..i).find(|j| vs[*j].r.block == x.r.block) {
                ids.push(ids[j]);
            } else {
                ids.push(Some(blocks.len()));
                blocks.push(&x.r.block);
            }
        }
        which.push(ids);
    }
    let parts = match decompose(&o.stderr, &exp.pre, &blocks) {
        Ok(p) => p,
        Err(e) => return Ok(vec![v("report of no version of a template", e)]),
    };
    // templates with equal reports cannot be told apart
    let alike = |i: usize| blocks.iter().enumerate().any(|(j, b)| j != i && *b == blocks[i]);
    let confused = files.iter().zip(&which).any(|(_, ids)| ids.iter().flatten().any(|i| alike(*i)));
    for (vs, ids) in files.iter().zip(&which) {
        let d = &vs[0].r.sel.display;
        let now = content(&o.tree, &vs[0].r.real);
        let there: BTreeSet<usize> = ids.iter().flatten().copied().filter(|i| parts.found[*i]).collect();
        if there.len() > 1 && !confused {
            out.push(v("reported twice", format!("{d}: the reports of both of its contents appear")));
        }
        let can: Vec<&Version> = vs
            .iter()
            .zip(ids)
            .filter(|(x, i)| confused || x.r.failed || if let Some(i) = i { there.contains(i) } else { there.is_empty() })
            .map(|(x, _)| x)
            .collect();
        if can.is_empty() {
            out.push(v("report missing", format!("{d}: neither the report of its earlier nor of its later content appears")));
            continue;
        }
        if vs[0].r.failed {
            continue;
        }
        if !can.iter().any(|x| x.ends.iter().any(|e| Some(e) == now)) {
            out.push(v(
                "wrong content",
                format!("{d} holds {}; possible after this report: {}", short(now), can.iter().flat_map(|x| &x.ends).map(|e| short(Some(e))).collect::<Vec<_>>().join(" or ")),
            ));
        }
        if exp.fix && !confused && can.iter().all(|x| !x.r.said.is_empty() && said_count(&o.stdout, &x.r.said) == 0) {
            out.push(v("fix not announced", format!("{d}: {:?} missing", String::from_utf8_lossy(&can[0].r.said))));
        }
        if parts.errors.iter().any(|l| names(l, d)) {
            out.push(v("error for a readable template", format!("{d}: {:?}", parts.errors.iter().find(|l| names(l, d)))));
        }
    }
    // counts, against those of the same run without the other process
    let plain = ctx.cached(&c.tree, &run.undisturbed())?;
    if let (Ok((s, _)), Ok((p, _))) = (final_summary(&o), final_summary(&plain)) {
        for (name, g) in [
            ("files", (|s| s.files) as fn(&Summary) -> u64),
            ("errors", |s| s.e),
            ("warnings", |s| s.w),
            ("helps", |s| s.h),
            ("infos", |s| s.i),
        ] {
            let (mut a, mut b) = (g(&p), g(&p));
            for vs in &files {
                a = (a - g(&vs[0].r.sum).min(a)) + vs.iter().map(|x| g(&x.r.sum)).min().unwrap_or(0);
                b = (b - g(&vs[0].r.sum).min(b)) + vs.iter().map(|x| g(&x.r.sum)).max().unwrap_or(0);
            }
            let have = g(&s);
            if have < a || have > b {
                out.push(v("wrong count", format!("{have} {name}, expected {a} to {b}")));
            }
        }
    } else {
        out.push(v("no summary", "run ended without exactly one summary".to_string()));
    }
    // files of the other process
    for x in run.exts.iter().filter(|x| x.act == 5 && did(x)) {
        let there = o.fired.iter().any(|f| f.act == 5 && f.op == format!("ext:{}", x.op) && f.path == x.path && f.nth == x.nth && f.arg != 0);
        let removed = run.exts.iter().any(|y| y.act == 1 && y.tpath == x.tpath && did(y));
        let again = run.exts.iter().filter(|y| y.act == 5 && y.tpath == x.tpath).count() > 1;
        if !there && !removed && !again && content(&o.tree, &x.tpath) != Some(&x.data) {
            out.push(v("file of another process lost", format!("{} holds {}; the other process had written {}", x.tpath, short(content(&o.tree, &x.tpath)), short(Some(&x.data)))));
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C19
/// Enough for every worker, whatever it does to one template; not for every
/// template at once.
fn few_files(ncpu: u32) -> u64 {
    16 + 6 * u64::from(ncpu)
}
fn gen19(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let kinds: fn(&mut Rng) -> Kind = *rng.pick(&[mixed_kinds as fn(&mut Rng) -> Kind, fixing, |_| Kind::Clean, |_| Kind::Report, |_| Kind::Empty, any_small]);
    let o = Opt { n: (1, 8), fix: 60, inspect: 10, config: 10, links: 10, ignores: 15, bad: if rng.pct(15) { 70 } else { 4 }, many: 100, kind: kinds, ..Opt::default() };
    let mut w = world(rng, &o);
    if rng.pct(25) {
        // many directories
        let top = join(&w.run.cwd, "wide9");
        w.tree.push(Node::dir(&top));
        let mut d = top.clone();
        for i in 0..rng.range(40, 90) {
            d = if rng.pct(20) && d.len() < 200 { join(&d, &format!("d{i}")) } else { join(&top, &format!("d{i}")) };
            w.tree.push(Node::dir(&d));
            match rng.below(4) {
                0 => w.tree.push(Node::file(&join(&d, rng.pick(&IGNORE_NAMES)), "nothing\n")),
                1 | 2 => w.tree.push(Node::file(&join(&d, "a.twig"), template(rng, Kind::Fix, &format!("w{i}")))),
                _ => {}
            }
        }
        w.run.args.insert(0, "wide9".into());
    }
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    if sel.files.len() < 20 {
        return Ok(vec![]);
    }
    let fs = Fs::new(&w.tree);
    let p = profile(ctx, &w)?;
    let mut out = vec![];
    for _ in 0..if thorough { 4 } else { 2 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        if rng.pct(60) {
            // the same goes wrong with many of them
            let (op, e) = *rng.pick(&[("read", 5), ("open", 13), ("fstat", 5), ("write", 28), ("fsync", 5), ("rename", 13), ("chmod", 1), ("opendir", 13), ("readdir", 5), ("realpath", 5)]);
            let share = *rng.pick(&[30, 60, 100]);
            let mut hit = BTreeSet::new();
            for s in &sel.files {
                let real = fs.real(&s.abs).unwrap_or(s.abs.clone());
                let path = match op {
                    "write" | "fsync" | "chmod" => join(parent(&real), "?new"),
                    "opendir" | "readdir" => parent(&real).to_string(),
                    _ => real,
                };
                if rng.pct(share) && hit.insert(path.clone()) {
                    r.faults.push(Fault::err(op, &path, if op == "readdir" { 2 } else { 0 }, e));
                }
            }
        }
        r.fd_limit = few_files(r.ncpu);
        out.push(case("C19", "few open files", &w, vec![r]));
    }
    Ok(out)
}
fn any_small(rng: &mut Rng) -> Kind {
    match any_kind(rng) {
        Kind::Big => Kind::Mixed,
        k => k,
    }
}
fn judge19(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let b = ctx.run(&c.tree, run)?;
    nontrivial(ctx, &b);
    if b.emfile == 0 {
        return Ok(vec![]);
    }
    let mut free = run.clone();
    free.fd_limit = 1 << 20;
    let a = ctx.run(&c.tree, &free)?;
    if matches!(a.end, End::Deadlock(_) | End::StepCap(_)) {
        return Ok(vec![]);
    }
    Ok(compare(&a, &b, "with as many as it likes")
        .into_iter()
        .map(|x| v("needs ever more open files", format!("{} files may be open at once, with {} processors and {} files in the tree; without a limit it has {} open: {}", run.fd_limit, run.ncpu, c.tree.len(), a.peak_fds, x.detail)))
        .take(1)
        .collect())
}

// ---------------------------------------------------------------- C20
fn gen20(ctx: &mut Ctx, rng: &mut Rng, thorough: bool) -> R<Vec<Case>> {
    let o = Opt { n: (1, 7), fix: 55, inspect: 10, config: 90, links: 8, ignores: 8, bad: 3, kind: mixed_kinds, ..Opt::default() };
    let mut w = world(rng, &o);
    // where a configuration is, or might be
    let named = w.run.args.iter().position(|a| a == "-c").and_then(|i| w.run.args.get(i + 1)).cloned();
    let name = named.unwrap_or("ludtwig-config.toml".into());
    let mut places = vec![join(&w.run.cwd, &name)];
    if !name.starts_with('/') && w.run.cwd != "/" {
        places.push(join(parent(&w.run.cwd), &name));
    }
    let fs = Fs::new(&w.tree);
    let have: Vec<String> = places.iter().filter(|p| fs.by.contains_key(p.as_str())).cloned().collect();
    let sel = select(&w.tree, &w.run.cwd, &w.run.args);
    if sel.files.is_empty() {
        return Ok(vec![]);
    }
    let create = have.is_empty() || rng.pct(20);
    let target = if create { places.iter().find(|p| !have.contains(p)).cloned() } else { have.first().cloned() };
    let Some(target) = target else { return Ok(vec![]) };
    if create && have.is_empty() && name != "ludtwig-config.toml" {
        return Ok(vec![]);
    }
    if rng.pct(50) {
        // differs in what every template is judged by
        for n in &mut w.tree {
            if n.path == target && n.kind == FILE {
                n.data = b"version = \"0.13.0\"\n[general]\nactive-rules = [\"whitespace-between-line\"]\n".to_vec();
            }
        }
    }
    let p = profile(ctx, &w)?;
    let mut seen: BTreeMap<(&str, &str), u32> = BTreeMap::new();
    let mut moments: Vec<(String, String, u32)> = vec![];
    for r in &p.oplog {
        if !r.path.starts_with('/') && !r.path.starts_with('<') || r.path.contains(" -> ") || r.op.starts_with("thread") || r.op.starts_with("futex") {
            continue;
        }
        let k = seen.entry((&r.op, &r.path)).or_default();
        *k += 1;
        moments.push((r.op.clone(), r.path.clone(), *k));
    }
    if moments.is_empty() {
        return Ok(vec![]);
    }
    let near: Vec<_> = moments.iter().filter(|m| places.contains(&m.1)).cloned().collect();
    let mut out = vec![];
    for _ in 0..if thorough { 12 } else { 6 } {
        let mut r = w.run.clone();
        schedule(rng, &mut r, p.edges);
        let (op, path, nth) = if !near.is_empty() && rng.pct(30) { rng.pick(&near).clone() } else { rng.pick(&moments).clone() };
        let data = if rng.pct(15) { b"[general]\nactive-rules = []\n".to_vec() } else { config_text(rng).into_bytes() };
        r.exts.push(if create {
            Ext { op, path, nth, act: 5, tpath: target.clone(), data, arg: 0o644 }
        } else if rng.pct(25) {
            Ext { op, path, nth, act: 1, tpath: target.clone(), data: vec![], arg: 0 }
        } else {
            Ext { op, path, nth, act: 4, tpath: target.clone(), data, arg: 0o644 }
        });
        out.push(case("C20", "the configuration changes meanwhile", &w, vec![r]));
    }
    Ok(out)
}
fn judge20(ctx: &mut Ctx, c: &Case) -> R<Vec<Violation>> {
    let run = &c.runs[0];
    let [x] = run.exts.as_slice() else { return Ok(vec![]) };
    let mut later = c.tree.clone();
    match x.act {
        1 => later.retain(|n| n.path != x.tpath),
        4 | 5 => {
            if let Some(n) = later.iter_mut().find(|n| n.path == x.tpath) {
                if n.kind != FILE || x.act == 5 {
                    return Ok(vec![]);
                }
                n.data.clone_from(&x.data);
            } else {
                later.push(Node::file(&x.tpath, x.data.clone()));
            }
        }
        _ => return Ok(vec![]),
    }
    let plain = run.undisturbed();
    let a = ctx.cached(&c.tree, &plain)?;
    let b = ctx.cached(&later, &plain)?;
    let o = ctx.run(&c.tree, run)?;
    if matches!(o.end, End::Deadlock(_) | End::StepCap(_)) || end_ok(&a).is_none() || end_ok(&b).is_none() {
        return Ok(vec![]);
    }
    let without = |o: &Outcome| {
        let mut o = o.clone();
        o.tree.retain(|n| n.path != x.tpath);
        // what is said about the file itself is no setting
        let strip = |b: &[u8], starts: &[&str]| b.split_inclusive(|c| *c == b'\n').filter(|l| !starts.iter().any(|s| l.starts_with(s.as_bytes()))).collect::<Vec<_>>().concat();
        o.stderr = strip(&o.stderr, &["Warning: The version of the config file"]);
        o.stdout = strip(&o.stdout, &["Loaded configuration file at", "Using default config"]);
        o
    };
    let (a, b, n) = (without(&a), without(&b), without(&o));
    if !o.fired.is_empty() && !compare(&a, &b, "").is_empty() {
        nontrivial(ctx, &o);
    }
    // gone between being found and being read: an error, and nothing else happens
    if x.act == 1 && end_ok(&o).is_some_and(|e| e != 0) && final_summary(&o).is_err() && c.tree.iter().all(|m| m.path == x.tpath || o.get(&m.path) == Some(m)) {
        return Ok(vec![]);
    }
    let da = compare(&a, &n, "with the earlier configuration");
    let db = compare(&b, &n, "with the later configuration");
    if da.is_empty() || db.is_empty() {
        return Ok(vec![]);
    }
    Ok(vec![v("more than one configuration", format!("{} changes during the run: {}: {}; {}: {}", x.tpath, da[0].class, da[0].detail, db[0].class, db[0].detail))])
}
