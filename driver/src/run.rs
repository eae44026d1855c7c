//! Command line: seeded search for one property, and replay of a found case.
use crate::mini;
use crate::oracle::*;
use crate::props::*;
use crate::rng::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub iteration: u64,
    pub minimised: BTreeMap<String, String>,
    pub case: Case,
    /// fingerprint of the execution of every run of the case
    #[serde(default)]
    pub trace: Vec<String>,
}

struct Known {
    property: String,
    class: String,
    replay: Option<String>,
    needles: Vec<String>,
    what: String,
}
/// `finding: property=C04 class="..." where="a|b" replay=... what fails`
fn load_known(root: &Path) -> Vec<Known> {
    let mut out = vec![];
    let Ok(text) = std::fs::read_to_string(root.join("known-findings.txt")) else { return out };
    for l in text.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let mut k = Known { property: String::new(), class: String::new(), replay: None, needles: vec![], what: String::new() };
        let mut rest = r.trim();
        loop {
            let mut hit = false;
            for key in ["property", "class", "where", "replay"] {
                if let Some(x) = rest.strip_prefix(&format!("{key}=")) {
                    let (val, r) = if let Some(q) = x.strip_prefix('"') {
                        q.split_once('"').unwrap_or((q, ""))
                    } else {
                        x.split_once(' ').unwrap_or((x, ""))
                    };
                    match key {
                        "property" => k.property = val.into(),
                        "class" => k.class = val.into(),
                        "where" => k.needles = val.split('|').map(String::from).collect(),
                        _ => k.replay = Some(val.into()),
                    }
                    rest = r.trim_start();
                    hit = true;
                }
            }
            if !hit {
                break;
            }
        }
        k.what = rest.into();
        out.push(k);
    }
    out
}
impl Known {
    fn covers(&self, prop: &str, v: &Violation) -> bool {
        self.property == prop && self.class == v.class && !self.needles.is_empty() && self.needles.iter().all(|n| v.detail.contains(n.as_str()))
    }
}

struct Opts {
    root: PathBuf,
    out: PathBuf,
    prop: String,
    thorough: bool,
    seed: u64,
    iters: Option<u64>,
    secs: Option<u64>,
    jobs: usize,
    keep_going: bool,
}
pub fn environment(out: &Path) -> Env {
    Env { lib: out.join("libsim.so"), bin: out.join("ludtwig") }
}

/// iterations (worlds) and seconds
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let _ = prop;
    if thorough {
        (u64::MAX, 600)
    } else {
        (u64::MAX, 75)
    }
}
fn iter_rng(seed: u64, prop: &str, i: u64) -> Rng {
    Rng::new(mix(seed ^ hash_bytes(prop.as_bytes())).wrapping_add(mix(i.wrapping_mul(0x5851_f42d_4c95_7f2d))))
}

struct Found {
    iter: u64,
    case: Case,
    viol: Violation,
}
#[derive(Default)]
struct Shared {
    found: Vec<Found>,
    errors: Vec<String>,
    unreproduced: Vec<String>,
    stats: Stats,
    samples: BTreeMap<(u64, usize), serde_json::Value>,
    repeat_checks: u64,
    repeat_diffs: Vec<String>,
    iters: u64,
    known_hits: BTreeMap<String, u64>,
}
pub fn describe(c: &Case) -> serde_json::Value {
    let runs: Vec<serde_json::Value> = c
        .runs
        .iter()
        .map(|r| {
            let mut m = serde_json::Map::new();
            m.insert("args".into(), r.args.join(" ").into());
            m.insert("workers".into(), r.ncpu.into());
            m.insert("schedule".into(), format!("{} seed {:#x}", mode_name(r), r.sched.seed).into());
            if !r.faults.is_empty() {
                let f: Vec<String> = r
                    .faults
                    .iter()
                    .map(|f| {
                        let n = match f.nth {
                            0 => "always".to_string(),
                            n if n >= 1_000_000 => format!("from #{}", n - 1_000_000),
                            n => format!("#{n}"),
                        };
                        if f.act == 0 {
                            format!("{} {} {n}: {}", f.op, f.path, errno_name(f.arg))
                        } else if f.act == 2 {
                            format!("{} {} {n}: takes {} ms", f.op, f.path, f.arg / 1_000_000)
                        } else {
                            format!("{} {} {n}: at most {} bytes", f.op, f.path, f.arg)
                        }
                    })
                    .collect();
                m.insert("faults".into(), f.into());
            }
            if let Some(k) = &r.crash {
                m.insert("crash".into(), format!("{} before change #{} (partial {})", if k.kind == 1 { "kill" } else { "power loss" }, k.at, k.partial).into());
            }
            if r.disk_free >= 0 {
                m.insert("disk_free".into(), r.disk_free.into());
            }
            if let Some(n) = &r.noise {
                m.insert("noise".into(), format!("p={}/65536 mask={}", n.p, n.mask).into());
            }
            if !r.exts.is_empty() {
                m.insert("other_process".into(), r.exts.iter().map(|x| format!("at {} {}: act {} on {}", x.op, x.path, x.act, x.tpath)).collect::<Vec<_>>().into());
            }
            serde_json::Value::Object(m)
        })
        .collect();
    let files: Vec<String> = c.tree.iter().filter(|n| n.kind != DIR).map(|n| format!("{} ({} bytes, {:o})", n.path, n.data.len(), n.mode)).collect();
    serde_json::json!({ "kind": c.kind, "files": files.iter().take(12).collect::<Vec<_>>(), "n_files": files.len(), "runs": runs })
}
pub fn mode_name(r: &Run) -> &'static str {
    if r.sched.entries.is_some() {
        return "explicit";
    }
    match r.sched.mode {
        0 => "in turn",
        1 => "random",
        2 => "priorities with change points",
        3 => "one thread starved",
        _ => "focused around operations",
    }
}
fn fingerprint(o: &Outcome) -> String {
    let mut h = o.trace ^ mix(o.il);
    for b in [&o.stdout, &o.stderr] {
        h = mix(h ^ hash_bytes(b));
    }
    for n in &o.tree {
        h = mix(h ^ hash_bytes(n.path.as_bytes()) ^ mix(hash_bytes(&n.data)));
    }
    format!("{:?} {:016x} edges {} ops {}", o.end, h, o.edges, o.ops)
}

fn worker(w: usize, o: &Opts, next: &AtomicU64, stop: &AtomicBool, lowest: &AtomicU64, start: Instant, limit: Duration, iters: u64, known: &[Known], sh: &Mutex<Shared>) {
    let env = Rc::new(environment(&o.out));
    let ncpu = std::thread::available_parallelism().map_or(1, usize::from);
    let mut ctx = Ctx::new(env.clone(), w % ncpu);
    let mut twin: Option<Ctx> = None;
    let mut errors = vec![];
    loop {
        if stop.load(Ordering::SeqCst) || start.elapsed() > limit {
            break;
        }
        let i = next.fetch_add(1, Ordering::SeqCst);
        if i >= iters || i > lowest.load(Ordering::SeqCst) {
            break;
        }
        let mut rng = iter_rng(o.seed, &o.prop, i);
        ctx.iter = i;
        let cases = match generate(&mut ctx, &mut rng, &o.prop, o.thorough) {
            Ok(c) => c,
            Err(e) => {
                errors.push(format!("iteration {i}: {}", e.0));
                continue;
            }
        };
        let n = cases.len();
        for (k, case) in cases.into_iter().enumerate() {
            if start.elapsed() > limit + Duration::from_secs(20) {
                break;
            }
            ctx.stats.cases += 1;
            if i < 2 && (k < 2) {
                sh.lock().unwrap().samples.insert((i, k), describe(&case));
            }
            let t0 = Instant::now();
            let vs = match judge(&mut ctx, &case) {
                Ok(v) => v,
                Err(e) => {
                    let first = e.0;
                    match judge(&mut ctx, &case) {
                        Ok(v) => v,
                        Err(e) => {
                            errors.push(format!("iteration {i}: {first}; again: {}", e.0));
                            if let Ok(d) = std::env::var("SIMCHECK_DEBUG") {
                                let _ = std::fs::write(format!("{d}/error-{i}.json"), serde_json::to_string(&case).unwrap());
                            }
                            continue;
                        }
                    }
                }
            };
            if t0.elapsed() > Duration::from_secs(5) && std::env::var("SIMCHECK_DEBUG").is_ok() {
                eprintln!("slow case: iteration {i}: {:?}", t0.elapsed());
            }
            let (kn, vs): (Vec<_>, Vec<_>) = vs.into_iter().partition(|v| known.iter().any(|k| k.covers(&o.prop, v)));
            if !kn.is_empty() {
                let mut s = sh.lock().unwrap();
                for v in kn {
                    *s.known_hits.entry(v.class).or_default() += 1;
                }
            }
            if let Some(v) = vs.first() {
                // it must happen again in a new simulator process
                let mut again = Ctx::new(env.clone(), (w + 1) % ncpu);
                again.counting = false;
                let same = judge(&mut again, &case).map(|x| x.iter().any(|y| y.class == v.class)).unwrap_or(false);
                let mut s = sh.lock().unwrap();
                if same {
                    s.found.push(Found { iter: i, case, viol: v.clone() });
                    if !o.keep_going {
                        lowest.fetch_min(i, Ordering::SeqCst);
                    }
                    break;
                }
                s.unreproduced.push(format!("iteration {i}: {} ({})", v.class, v.detail));
                if let Ok(d) = std::env::var("SIMCHECK_DEBUG") {
                    let _ = std::fs::write(format!("{d}/unrep-{i}.json"), serde_json::to_string(&case).unwrap());
                }
                continue;
            }
            // determinism of the simulator itself
            if (i * 31 + k as u64) % 97 == 0 && k < n {
                let t = twin.get_or_insert_with(|| Ctx::new(env.clone(), (w + 3) % ncpu));
                t.counting = false;
                let run = &case.runs[0];
                ctx.counting = false;
                let a = ctx.run(&case.tree, run);
                ctx.counting = true;
                let b = t.run(&case.tree, run);
                if let (Ok(a), Ok(b)) = (a, b) {
                    let mut s = sh.lock().unwrap();
                    s.repeat_checks += 1;
                    let (x, y) = (fingerprint(&a), fingerprint(&b));
                    if x != y {
                        s.repeat_diffs.push(format!("iteration {i} case {k}: {x} / {y}"));
                        if let Ok(d) = std::env::var("SIMCHECK_DEBUG") {
                            let _ = std::fs::write(format!("{d}/diff-{i}.json"), serde_json::to_string(&case).unwrap());
                        }
                    }
                }
            }
        }
        sh.lock().unwrap().iters += 1;
    }
    let mut s = sh.lock().unwrap();
    s.stats.merge(std::mem::take(&mut ctx.stats));
    s.errors.extend(errors);
}

fn check(o: &Opts) -> i32 {
    let start = Instant::now();
    let (bi, bs) = budget(&o.prop, o.thorough);
    let iters = o.iters.unwrap_or(bi);
    let limit = Duration::from_secs(o.secs.unwrap_or(bs));
    let known = load_known(&o.root);
    let sh = Mutex::new(Shared::default());
    let next = AtomicU64::new(0);
    let lowest = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);

    // listed findings are shown again from their recorded cases
    for k in known.iter().filter(|k| k.property == o.prop) {
        let again = k.replay.as_ref().is_none_or(|p| {
            let mut ctx = Ctx::new(Rc::new(environment(&o.out)), 0);
            ctx.counting = false;
            std::fs::read_to_string(o.root.join(p))
                .ok()
                .and_then(|t| serde_json::from_str::<Replay>(&t).ok())
                .and_then(|r| judge(&mut ctx, &r.case).ok())
                .is_some_and(|v| v.iter().any(|x| k.covers(&o.prop, x)))
        });
        if again {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        }
    }

    let search = Instant::now();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..o.jobs)
            .map(|w| {
                let (next, stop, lowest, known, sh) = (&next, &stop, &lowest, &known, &sh);
                s.spawn(move || worker(w, o, next, stop, lowest, search, limit, iters, known, sh))
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                sh.lock().map(|mut s| s.errors.push("a worker of the driver panicked".into())).ok();
            }
        }
    });
    let mut sh = sh.into_inner().unwrap_or_else(|p| p.into_inner());
    let search_s = search.elapsed().as_secs_f64();
    sh.found.sort_by_key(|f| f.iter);
    let mut code = 0;
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut reported = vec![];
    for f in &sh.found {
        *seen.entry(f.viol.class.clone()).or_default() += 1;
    }
    let todo: Vec<&Found> = if o.keep_going {
        let mut v: Vec<&Found> = vec![];
        for f in &sh.found {
            if !v.iter().any(|g| g.viol.class == f.viol.class) {
                v.push(f);
            }
        }
        v
    } else {
        sh.found.iter().take(1).collect()
    };
    for f in todo {
        let mut ctx = Ctx::new(Rc::new(environment(&o.out)), 0);
        ctx.counting = false;
        let (case, viol, steps) = mini::minimise(&mut ctx, &f.case, &f.viol, &|v| known.iter().any(|k| k.covers(&o.prop, v)), Duration::from_secs(if o.thorough { 120 } else { 25 }));
        let trace = traces(&mut ctx, &case);
        let r = Replay { property: o.prop.clone(), class: viol.class.clone(), detail: viol.detail.clone(), seed: o.seed, iteration: f.iter, minimised: steps, case, trace };
        let text = serde_json::to_string_pretty(&r).unwrap();
        let dir = o.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{:012x}.json", o.prop, hash_bytes(text.as_bytes()) & 0xffff_ffff_ffff));
        if let Err(e) = std::fs::write(&p, text) {
            eprintln!("cannot write replay file: {e}");
        }
        println!("{}: {}", viol.class, viol.detail);
        println!("VIOLATION property={} replay={}", o.prop, p.display());
        reported.push(format!("{}: {}", viol.class, viol.detail));
        code = 1;
    }
    for e in sh.errors.iter().take(5) {
        eprintln!("harness: {e}");
    }
    for e in sh.unreproduced.iter().take(5) {
        eprintln!("harness: not reproduced: {e}");
    }
    for e in sh.repeat_diffs.iter().take(5) {
        eprintln!("harness: not repeatable: {e}");
    }
    write_evidence(o, &sh, search_s, start.elapsed().as_secs_f64(), &reported, &seen);
    println!(
        "{} {}: {} worlds, {} cases, {} simulated runs in {:.1} s, {} distinct schedules, {} non-trivial, {} violations",
        o.prop,
        if o.thorough { "thorough" } else { "quick" },
        sh.iters,
        sh.stats.cases,
        sh.stats.runs,
        search_s,
        sh.stats.il.len(),
        sh.stats.nontrivial.len(),
        sh.found.len()
    );
    if o.keep_going {
        for (k, n) in &seen {
            println!("  {n:6} x {k}");
        }
    }
    if code == 0 && (sh.stats.cases == 0 || sh.errors.len() as u64 * 100 > sh.stats.cases) {
        eprintln!("harness: {} of {} cases gave no answer", sh.errors.len(), sh.stats.cases);
        return 3;
    }
    code
}
fn traces(ctx: &mut Ctx, case: &Case) -> Vec<String> {
    ctx.log = Some(vec![]);
    let _ = judge(ctx, case);
    let l = ctx.log.take().unwrap_or_default();
    l.iter().map(|x| x.mark.clone()).collect()
}
pub fn mark(o: &Outcome) -> String {
    fingerprint(o)
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "A random world (templates, links, options) fixed under a random schedule with a crash (kill or power loss) before a random change of the disk, or failing/short operations or a full disk. Non-trivial: a template needed fixing and the crash or fault really happened. Distinct: by hash of the complete execution.",
        "C02" | "C03" => "A random world under a random schedule with operations on some templates or directories failing, templates vanishing or becoming unreadable meanwhile, or a full disk. Non-trivial: a template was reported as failed (C02), or something failed while other templates remained to be judged (C03). Distinct: by hash of the complete execution.",
        "C04" => "The same random world run plainly and under another schedule, worker count, hash seed, directory order and argument order; both compared, and compared with single runs per template. Non-trivial: several templates and more than four thread switches. Distinct: by hash of the complete execution.",
        "C05" => "A random world with ignore files, hidden entries, links and other files under a random schedule and directory order; judged against an independent model of the selection. Non-trivial: more than one template selected. Distinct: by hash of the complete execution.",
        "C06" => "A random world fixed with overlapping, repeated or linked paths under random schedules. Non-trivial: a template needing fixes was reached more than once and there were more than four thread switches. Distinct: by hash of the complete execution.",
        "C07" => "A random world with reports under random schedules, partial and interrupted terminal writes and failing reads. Non-trivial: several reports and more than four thread switches. Distinct: by hash of the complete execution.",
        "C08" => "A random world (also without any template, with missing paths, with exactly N problems) under random schedules with failing operations. Non-trivial: something was reported. Distinct: by hash of the complete execution.",
        "C09" => "A random world under random schedules with any operation failing, including the output streams, spurious wake-ups and interrupted calls. Non-trivial: a fault fired or a thread was preempted. Distinct: by hash of the complete execution.",
        "C10" => "A random world with unusual permissions and links under random schedules with failing operations. Non-trivial: every run that ended. Distinct: by hash of the complete execution.",
        "C11" => "A history of up to four killed, power-cut or failing fix runs followed by three undisturbed runs (fix, fix, check). Non-trivial: one of the earlier runs was really disturbed. Distinct: by hash of the complete execution.",
        "C12" => "The create-config option with an existing, missing or linked target, failing operations, another process creating the file, crash, full disk; then a later run. Non-trivial: a fault, crash or race really happened. Distinct: by hash of the complete execution.",
        "C13" => "A random world with a broken configuration file or one whose inspection, opening or reading fails. Non-trivial: the file was broken or a fault fired. Distinct: by hash of the complete execution.",
        "C14" => "A random world in which directories cannot be listed (completely) or ignore files cannot be read. Non-trivial: such a directory or ignore file was really reached. Distinct: by hash of the complete execution.",
        "C15" => "A random world run plainly and with interrupted calls, short reads and writes and spurious wake-ups. Non-trivial: at least one such event happened. Distinct: by hash of the complete execution.",
        "C16" => "A random world in which one or two templates are cut off, have bits flipped, ranges zeroed, lost or repeated. Non-trivial: every run. Distinct: by hash of the complete execution.",
        "C19" => "A random world with many templates or directories under random schedules, often with the same operation failing on most of them, and only a few descriptors per worker. Non-trivial: every run. Distinct: by hash of the complete execution.",
        "C20" => "A random world whose configuration file is replaced, created or removed at a random operation of the run; compared with undisturbed runs with the earlier and with the later configuration. Non-trivial: it happened, and the two differ. Distinct: by hash of the complete execution.",
        "C18" => "A random world in which another process replaces templates and creates files beside them at random moments of the run. Non-trivial: the other process really acted. Distinct: by hash of the complete execution.",
        _ => "A random world whose stdout or stderr fails from a random write on. Non-trivial: a write to an output stream really failed. Distinct: by hash of the complete execution.",
    }
}
fn write_evidence(o: &Opts, sh: &Shared, search_s: f64, wall: f64, reported: &[String], seen: &BTreeMap<String, u64>) {
    let s = &sh.stats;
    let level = if matches!(o.prop.as_str(), "C04" | "C05" | "C06" | "C07" | "C20") { "exploration" } else { "fault_enumeration" };
    let per_h = |n: u64| if search_s > 0.0 { (n as f64 / search_s * 3600.0) as u64 } else { 0 };
    let samples: Vec<&serde_json::Value> = sh.samples.values().collect();
    let ev = serde_json::json!({
        "property": o.prop,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": level,
        "coverage": {
            "evaluations": s.cases,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": rule(&o.prop),
            "samples": samples,
            "seeds_worlds": sh.iters,
            "simulated_runs": s.runs,
            "runs_per_hour": per_h(s.runs),
            "seeds_per_hour": per_h(sh.iters),
            "simulated_time_s": s.sim_ns as f64 / 1e9,
            "executed_control_flow_edges": s.edges as u64,
            "simulated_operations": s.ops as u64,
            "thread_switches": s.switches as u64,
            "preemptions_inside_code": s.preempts as u64,
            "spurious_wakeups": s.spurious,
            "clock_jumps": s.jumps,
            "most_threads": s.max_threads,
            "distinct_interleavings": s.il.len(),
            "interleaving_measure": "hash of the sequence of (thread, operation, path) at all simulated operations of a run",
            "runs_with_faults_or_crash": s.disturbed,
            "faults_injected": s.faults,
            "schedule_modes": s.sched,
            "ends": s.ends,
            "repeatability": { "runs_repeated_in_a_second_process": sh.repeat_checks, "different": sh.repeat_diffs.len() },
            "cases_without_answer": sh.errors.len(),
            "not_reproduced": sh.unreproduced.len(),
            "known_finding_hits": sh.known_hits,
            "violation_classes": seen,
            "violations_reported": reported,
            "components": {
                "real": ["ludtwig CLI (main, process, output, config, check and all rules)", "ludtwig-parser", "rayon, crossbeam, ignore/walkdir-style traversal, figment, codespan-reporting, clap as linked", "Rust standard library"],
                "simulated": ["file system and page cache / durability", "threads: scheduling, futex, yield, sleep, CPU count", "clocks", "stdout/stderr", "random numbers (hash seeds)", "process id, environment, working directory"],
                "stubbed": []
            }
        },
        "assumptions": [
            "Threads interleave at control-flow edges of ludtwig and its Rust dependencies (instrumented) and at system calls; sequentially consistent memory, no weak-memory reordering.",
            "The precompiled standard library is not instrumented inside; it is interleaved at its system calls (futex, I/O).",
            "Memory allocation does not fail; creating a thread fails in C09 only.",
            "Power loss model: data not synced may be lost, kept in part or replaced by zeros; renames and creations not synced may be lost, except that a rename is ordered as journaling file systems do after a sync of the data.",
            "The expected report and fix of a template are those of an undisturbed single run of the same build over that template."
        ],
        "wall_s": wall,
        "violations": reported.len(),
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", o.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
    }
}

fn replay(out: &Path, file: &str, verbose: bool) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 3;
        }
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => match serde_json::from_str::<Case>(&text) {
            Ok(case) => Replay { property: case.prop.clone(), class: String::new(), detail: String::new(), seed: 0, iteration: 0, minimised: BTreeMap::new(), case, trace: vec![] },
            Err(_) => {
                eprintln!("{file}: {e}");
                return 3;
            }
        },
    };
    let mut ctx = Ctx::new(Rc::new(environment(out)), 0);
    ctx.counting = false;
    ctx.log = Some(vec![]);
    let vs = match judge(&mut ctx, &r.case) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("harness: {}", e.0);
            return 3;
        }
    };
    let log = ctx.log.take().unwrap_or_default();
    for (i, l) in log.iter().enumerate() {
        let same = match r.trace.get(i) {
            Some(m) if *m == l.mark => " (as recorded)",
            Some(_) => " (differs from the record)",
            None => "",
        };
        println!("run {i}: {}{same}", l.mark);
        if verbose {
            for (k, x) in l.ops.iter().enumerate() {
                println!("  {k:5} t{} {} {} = {} [{}]{}", x.tid, x.op, x.path, x.res, x.arg, if x.mutn > 0 { format!(" change {}", x.mutn - 1) } else { String::new() });
            }
            println!("--- stdout\n{}--- stderr\n{}", String::from_utf8_lossy(&l.stdout), String::from_utf8_lossy(&l.stderr));
            println!("fired: {:?}", l.fired);
        }
    }
    for x in &vs {
        println!("{}: {}", x.class, x.detail);
    }
    if let Some(x) = vs.iter().find(|x| r.class.is_empty() || x.class == r.class) {
        let _ = x;
        println!("VIOLATION property={} replay={file}", r.property);
        return 1;
    }
    println!("property {} holds on this case", r.property);
    0
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let exe = std::env::current_exe().unwrap_or_default();
    let out = exe.parent().unwrap_or(Path::new(".")).to_path_buf();
    let mut o = Opts {
        root: out.parent().unwrap_or(Path::new(".")).to_path_buf(),
        out,
        prop: String::new(),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        iters: None,
        secs: None,
        jobs: std::thread::available_parallelism().map_or(4, usize::from).clamp(1, 16),
        keep_going: false,
    };
    let mut verbose = false;
    let mut files = vec![];
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_default();
        match a.as_str() {
            "--property" => o.prop = val(),
            "--tier" => o.thorough = val() == "thorough",
            "--seed" => o.seed = val().parse().unwrap_or(1),
            "--iters" => o.iters = val().parse().ok(),
            "--secs" => o.secs = val().parse().ok(),
            "--jobs" => o.jobs = val().parse().unwrap_or(1),
            "--root" => o.root = val().into(),
            "--out" => o.out = val().into(),
            "--keep-going" => o.keep_going = true,
            "-v" => verbose = true,
            f => files.push(f.to_string()),
        }
    }
    match args.first().map(String::as_str) {
        Some("check") if PROPS.contains(&o.prop.as_str()) => check(&o),
        // templates as the worlds have them, to see what of the code they reach
        Some("corpus") if files.len() == 1 => {
            let mut rng = crate::rng::Rng::new(o.seed);
            for i in 0..o.iters.unwrap_or(1000) {
                let k = if rng.pct(50) { crate::tmpl::Kind::Wild } else { crate::tmpl::any_kind(&mut rng) };
                let mut t = crate::tmpl::template(&mut rng, k, &format!("m{i}"));
                if rng.pct(30) {
                    t = crate::tmpl::damage(&mut rng, &t).0;
                }
                if std::fs::write(format!("{}/t{i}.html.twig", files[0]), t).is_err() {
                    return 3;
                }
            }
            0
        }
        Some("replay") if files.len() == 1 => replay(&o.out, &files[0], verbose),
        _ => {
            eprintln!("usage: simcheck check --property Cxx [--tier quick|thorough] [--seed N] | simcheck replay FILE [-v]");
            3
        }
    }
}
