//! Makes a violating case smaller while the same kind of violation remains.
use crate::oracle::*;
use crate::props::*;
use crate::sim::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

struct M<'a> {
    ctx: &'a mut Ctx,
    class: String,
    known: &'a dyn Fn(&Violation) -> bool,
    end: Instant,
    tries: u64,
    best: Case,
    viol: Violation,
}
impl M<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn bad(&mut self, c: &Case) -> Option<Violation> {
        if self.over() {
            return None;
        }
        self.tries += 1;
        let vs = judge(self.ctx, c).ok()?;
        vs.into_iter().find(|v| v.class == self.class && !(self.known)(v))
    }
    fn accept(&mut self, c: Case) -> bool {
        if let Some(v) = self.bad(&c) {
            self.best = c;
            self.viol = v;
            true
        } else {
            false
        }
    }
    fn edit(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        if same(&c, &self.best) {
            return false;
        }
        self.accept(c)
    }
    /// removes as many of n items as possible
    fn ddmin(&mut self, n: usize, build: &dyn Fn(&Case, &[bool]) -> Case) {
        let start = self.best.clone();
        let mut keep = vec![true; n];
        let mut size = n.div_ceil(2).max(1);
        while n > 0 && !self.over() {
            let mut i = 0;
            let mut any = false;
            while i < n {
                let mut k = keep.clone();
                let mut cnt = 0;
                let mut j = i;
                while j < n && cnt < size {
                    if k[j] {
                        k[j] = false;
                        cnt += 1;
                    }
                    j += 1;
                }
                if cnt > 0 {
                    let c = build(&start, &k);
                    if self.accept(c) {
                        keep = k;
                        any = true;
                    }
                }
                i = j;
                if self.over() {
                    return;
                }
            }
            if size == 1 {
                if !any {
                    break;
                }
            } else {
                size = size.div_ceil(2);
                if size == 0 {
                    break;
                }
            }
        }
    }
}
fn same(a: &Case, b: &Case) -> bool {
    a.tree == b.tree && a.runs == b.runs
}

fn structure(m: &mut M) {
    // disturbances
    for r in 0..m.best.runs.len() {
        for i in (0..m.best.runs[r].faults.len()).rev() {
            m.edit(|c| {
                c.runs[r].faults.remove(i);
            });
        }
        for i in (0..m.best.runs[r].exts.len()).rev() {
            m.edit(|c| {
                c.runs[r].exts.remove(i);
            });
        }
        m.edit(|c| c.runs[r].noise = None);
        m.edit(|c| c.runs[r].crash = None);
        m.edit(|c| c.runs[r].disk_free = -1);
        m.edit(|c| c.runs[r].dt_unknown = false);
        m.edit(|c| c.runs[r].dir_seed = 0);
        m.edit(|c| c.runs[r].hash_seed = 7);
        m.edit(|c| c.runs[r].tty = 0);
        if m.best.runs[r].crash.as_ref().is_some_and(|k| k.partial >= 0) {
            m.edit(|c| c.runs[r].crash.as_mut().unwrap().partial = -1);
        }
        if m.best.runs[r].sched.mode != 0 {
            m.edit(|c| {
                c.runs[r].sched = Sched::fifo();
                c.runs[r].ncpu = 1;
            });
            m.edit(|c| c.runs[r].sched = Sched::fifo());
        }
        for n in [1, 2, 3] {
            if m.best.runs[r].ncpu > n && m.edit(|c| c.runs[r].ncpu = n) {
                break;
            }
        }
    }
    if m.best.prop == "C11" {
        // earlier runs of the history
        while m.best.runs.len() > 3 {
            let n = m.best.runs.len() - 3;
            let mut any = false;
            for i in 0..n {
                if m.edit(|c| {
                    c.runs.remove(i);
                }) {
                    any = true;
                    break;
                }
            }
            if !any || m.over() {
                break;
            }
        }
    }
    // files
    let n = m.best.tree.len();
    let cwd: Vec<String> = m.best.runs.iter().map(|r| r.cwd.clone()).collect();
    m.ddmin(n, &|c: &Case, k: &[bool]| {
        let mut t = c.clone();
        let mut i = 0;
        t.tree.retain(|x| {
            i += 1;
            k[i - 1] || x.kind == DIR && cwd.iter().any(|w| *w == x.path || w.starts_with(&format!("{}/", x.path)))
        });
        // nothing without its directory, no hard link without its file
        let dirs: Vec<String> = c.tree.iter().filter(|x| x.kind == DIR && !t.tree.iter().any(|y| y.path == x.path)).map(|x| x.path.clone()).collect();
        t.tree.retain(|x| !dirs.iter().any(|d| x.path.starts_with(&format!("{d}/"))));
        let have: Vec<String> = t.tree.iter().map(|x| x.path.clone()).collect();
        t.tree.retain(|x| x.kind != HARD || have.iter().any(|h| h.as_bytes() == x.data));
        t
    });
    // options and paths, the same in all runs
    let words: Vec<String> = {
        let mut w: Vec<String> = m.best.runs.iter().flat_map(|r| r.args.clone()).collect();
        w.sort();
        w.dedup();
        w
    };
    for w in words {
        if w == "-c" || w == "--config-path" {
            continue;
        }
        m.edit(|c| {
            for r in &mut c.runs {
                if r.args.len() > 1 && !r.args.iter().zip(r.args.iter().skip(1)).any(|(a, b)| (a == "-c" || a == "--config-path") && *b == w) {
                    // one occurrence only
                    if let Some(i) = r.args.iter().position(|a| *a == w) {
                        let had = r.args.clone();
                        r.args.remove(i);
                        // without any path it would be a wrong call, not a smaller case
                        if crate::select::path_args(&r.args).1.is_empty() {
                            r.args = had;
                        }
                    }
                }
            }
        });
    }
    for i in 0..m.best.tree.len() {
        if m.best.tree[i].kind == FILE && m.best.tree[i].mode != 0o644 {
            m.edit(|c| c.tree[i].mode = 0o644);
        }
    }
    // contents, by lines
    for i in 0..m.best.tree.len() {
        if i >= m.best.tree.len() || m.best.tree[i].kind != FILE || m.best.tree[i].data.is_empty() {
            continue;
        }
        let data = m.best.tree[i].data.clone();
        let lines: Vec<Vec<u8>> = data.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
        if lines.len() > 1 {
            m.ddmin(lines.len(), &|c: &Case, k: &[bool]| {
                let mut t = c.clone();
                t.tree[i].data = lines.iter().zip(k).filter(|(_, k)| **k).flat_map(|(l, _)| l.clone()).collect();
                t
            });
        }
        if m.over() {
            return;
        }
    }
}
/// the seeded decisions of every run become an explicit list, noise becomes faults
fn explicit(m: &mut M) {
    m.ctx.log = Some(vec![]);
    let best = m.best.clone();
    let _ = judge(m.ctx, &best);
    let log = m.ctx.log.take().unwrap_or_default();
    let mut c = best.clone();
    for r in &mut c.runs {
        if let Some(l) = log.iter().find(|l| l.run == *r) {
            if r.sched.entries.is_none() {
                r.sched.entries = Some(l.decisions.clone());
            }
            if r.noise.is_some() {
                r.noise = None;
                let own: Vec<Fault> = l.fired.iter().filter(|f| !f.op.starts_with("ext:")).cloned().collect();
                r.faults = own;
            }
        }
    }
    if !m.accept(c) {
        // one run at a time
        for (i, r) in best.runs.iter().enumerate() {
            if let Some(l) = log.iter().find(|l| l.run == *r) {
                m.edit(|c| c.runs[i].sched.entries = Some(l.decisions.clone()));
            }
        }
    }
    for r in 0..m.best.runs.len() {
        if let Some(e) = m.best.runs[r].sched.entries.clone() {
            m.ddmin(e.len(), &|c: &Case, k: &[bool]| {
                let mut t = c.clone();
                t.runs[r].sched.entries = Some(e.iter().zip(k).filter(|(_, k)| **k).map(|(x, _)| x.clone()).collect());
                t
            });
        }
        let f = m.best.runs[r].faults.clone();
        if f.len() > 1 {
            m.ddmin(f.len(), &|c: &Case, k: &[bool]| {
                let mut t = c.clone();
                t.runs[r].faults = f.iter().zip(k).filter(|(_, k)| **k).map(|(x, _)| x.clone()).collect();
                t
            });
        }
    }
}
pub fn minimise(ctx: &mut Ctx, case: &Case, viol: &Violation, known: &dyn Fn(&Violation) -> bool, time: Duration) -> (Case, Violation, BTreeMap<String, String>) {
    let t0 = Instant::now();
    let size = |c: &Case| {
        let e: usize = c.runs.iter().map(|r| r.sched.entries.as_ref().map_or(0, Vec::len)).sum();
        let f: usize = c.runs.iter().map(|r| r.faults.len() + r.exts.len() + usize::from(r.crash.is_some()) + usize::from(r.noise.is_some())).sum();
        let b: usize = c.tree.iter().map(|n| n.data.len()).sum();
        format!("{} files and directories, {b} bytes, {} runs, {f} faults, {e} explicit schedule decisions", c.tree.len(), c.runs.len())
    };
    let mut m = M { ctx, class: viol.class.clone(), known, end: t0 + time * 6 / 10, tries: 0, best: case.clone(), viol: viol.clone() };
    for _ in 0..3 {
        let before = m.best.clone();
        structure(&mut m);
        if same(&before, &m.best) || m.over() {
            break;
        }
    }
    m.end = t0 + time;
    explicit(&mut m);
    // everything above worked in one simulator; the result must hold in a new one
    m.ctx.restart();
    m.end = Instant::now() + Duration::from_secs(60);
    let b = m.best.clone();
    let mut steps = BTreeMap::new();
    steps.insert("from".into(), size(case));
    if m.accept(b) {
        steps.insert("to".into(), size(&m.best));
        steps.insert("attempts".into(), m.tries.to_string());
        (m.best, m.viol, steps)
    } else {
        steps.insert("to".into(), "not minimised: the smaller case did not repeat".into());
        (case.clone(), viol.clone(), steps)
    }
}
