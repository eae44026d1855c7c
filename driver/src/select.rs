//! Independent model of which templates a run must examine: the file type,
//! hidden-directory and ignore-file rules ludtwig documents (git's), written
//! from the gitignore documentation, not from the code under test.
use crate::sim::*;
use std::collections::BTreeMap;

pub struct Fs<'a> {
    pub by: BTreeMap<&'a str, &'a Node>,
}
pub fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}
pub fn base(p: &str) -> &str {
    p.rsplit('/').next().unwrap_or("")
}
pub fn join(a: &str, b: &str) -> String {
    if b.starts_with('/') {
        return b.to_string();
    }
    if a.ends_with('/') {
        format!("{a}{b}")
    } else {
        format!("{a}/{b}")
    }
}
/// lexical clean-up of . and .. and //
pub fn norm(cwd: &str, p: &str) -> String {
    let full = join(cwd, p);
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
impl<'a> Fs<'a> {
    pub fn new(tree: &'a [Node]) -> Fs<'a> {
        Fs { by: tree.iter().map(|n| (n.path.as_str(), n)).collect() }
    }
    pub fn is_dir(&self, p: &str) -> bool {
        if p == "/" {
            return true;
        }
        match self.by.get(p) {
            Some(n) => n.kind == DIR,
            None => {
                let pre = format!("{p}/");
                self.by.range(pre.as_str()..).next().is_some_and(|(k, _)| k.starts_with(&pre))
            }
        }
    }
    /// follow links; the final path may not exist
    pub fn real(&self, p: &str) -> Option<String> {
        self.real_n(p, 0)
    }
    fn real_n(&self, p: &str, depth: u32) -> Option<String> {
        if depth > 20 {
            return None;
        }
        let mut cur = String::from("/");
        for c in p.split('/').filter(|c| !c.is_empty() && *c != ".") {
            if c == ".." {
                cur = parent(&cur).to_string();
                continue;
            }
            let next = join(&cur, c);
            match self.by.get(next.as_str()) {
                Some(n) if n.kind == LINK => {
                    let t = String::from_utf8_lossy(&n.data).into_owned();
                    let t = if t.starts_with('/') { t } else { join(&cur, &t) };
                    cur = self.real_n(&t, depth + 1)?;
                }
                _ => cur = next,
            }
        }
        Some(cur)
    }
    /// the node that holds the data of a file (hard links resolved)
    pub fn data_node(&self, p: &str) -> Option<&'a Node> {
        let r = self.real(p)?;
        let n = self.by.get(r.as_str())?;
        if n.kind == HARD {
            return self.data_node(std::str::from_utf8(&n.data).ok()?);
        }
        Some(n)
    }
    pub fn children(&self, dir: &str) -> Vec<String> {
        let pre = if dir == "/" { "/".to_string() } else { format!("{dir}/") };
        let mut v: Vec<String> = vec![];
        for (k, _) in self.by.range(pre.as_str()..) {
            if !k.starts_with(&pre) {
                break;
            }
            let rest = &k[pre.len()..];
            let c = rest.split('/').next().unwrap();
            if !c.is_empty() && v.last().map(String::as_str) != Some(c) {
                v.push(c.to_string());
            }
        }
        v.sort();
        v.dedup();
        v
    }
}

// ------------------------------------------------------------- patterns
#[derive(Debug, Clone)]
pub struct Pat {
    neg: bool,
    dir_only: bool,
    /// path components; "**" stands for any number of them
    comps: Vec<String>,
}
pub fn patterns(text: &str) -> Vec<Pat> {
    let mut v = vec![];
    for l in text.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if l.starts_with('#') {
            continue;
        }
        let mut l = l.trim_end();
        if l.is_empty() {
            continue;
        }
        let mut neg = false;
        if let Some(r) = l.strip_prefix('!') {
            neg = true;
            l = r;
        }
        let mut anchored = false;
        if let Some(r) = l.strip_prefix('/') {
            anchored = true;
            l = r;
        }
        let mut dir_only = false;
        if let Some(r) = l.strip_suffix('/') {
            dir_only = true;
            l = r;
        }
        if l.contains('/') {
            anchored = true;
        }
        let mut comps: Vec<String> = l.split('/').map(String::from).collect();
        if !anchored && comps[0] != "**" {
            comps.insert(0, "**".into());
        }
        if comps.last().unwrap() == "**" && comps.len() > 1 {
            comps.push("*".into());
        }
        v.push(Pat { neg, dir_only, comps });
    }
    v
}
fn comp_match(p: &[u8], s: &[u8]) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    match p[0] {
        b'*' => (0..=s.len()).any(|k| comp_match(&p[1..], &s[k..])),
        b'?' => !s.is_empty() && comp_match(&p[1..], &s[1..]),
        b'[' => {
            let Some(e) = p.iter().skip(2).position(|c| *c == b']').map(|i| i + 2) else {
                return !s.is_empty() && s[0] == b'[' && comp_match(&p[1..], &s[1..]);
            };
            if s.is_empty() {
                return false;
            }
            let (neg, set) = if p[1] == b'!' || p[1] == b'^' { (true, &p[2..e]) } else { (false, &p[1..e]) };
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == b'-' {
                    hit |= set[i] <= s[0] && s[0] <= set[i + 2];
                    i += 3;
                } else {
                    hit |= set[i] == s[0];
                    i += 1;
                }
            }
            hit != neg && comp_match(&p[e + 1..], &s[1..])
        }
        b'\\' if p.len() > 1 => !s.is_empty() && s[0] == p[1] && comp_match(&p[2..], &s[1..]),
        c => !s.is_empty() && s[0] == c && comp_match(&p[1..], &s[1..]),
    }
}
fn comps_match(p: &[String], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(c) if c == "**" => (0..=s.len()).any(|k| comps_match(&p[1..], &s[k..])),
        Some(c) => !s.is_empty() && comp_match(c.as_bytes(), s[0].as_bytes()) && comps_match(&p[1..], &s[1..]),
    }
}
/// Some(true) ignored, Some(false) re-included, None no match
fn verdict(pats: &[Pat], rel: &str, is_dir: bool) -> Option<bool> {
    let comps: Vec<&str> = rel.split('/').collect();
    pats.iter()
        .rev()
        .find(|p| (is_dir || !p.dir_only) && comps_match(&p.comps, &comps))
        .map(|p| !p.neg)
}

// ------------------------------------------------------------- selection
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sel {
    /// as ludtwig names it
    pub display: String,
    /// where it is
    pub abs: String,
}
#[derive(Clone, Debug, Default)]
pub struct Selection {
    pub files: Vec<Sel>,
    /// path arguments that do not exist
    pub missing: Vec<String>,
    /// directories that are listed, with the name they go by
    pub dirs: Vec<Sel>,
    /// templates below the arguments that are excluded
    pub excluded: Vec<Sel>,
}
pub fn is_template_name(n: &str) -> bool {
    [".twig", ".html", ".htm", ".ejs"].iter().any(|e| n.ends_with(e))
}
pub const IGNORE_NAMES: [&str; 3] = [".ludtwig-ignore", ".ignore", ".gitignore"];

struct Ctx<'a> {
    fs: &'a Fs<'a>,
    cwd: &'a str,
}
impl Ctx<'_> {
    fn pats(&self, dir: &str, name: &str) -> Option<Vec<Pat>> {
        let n = self.fs.data_node(&join(dir, name))?;
        if n.kind != FILE {
            return None;
        }
        Some(patterns(&String::from_utf8_lossy(&n.data)))
    }
    /// is this entry (absolute real path) ignored / re-included
    fn ignored(&self, abs: &str, display: &str, is_dir: bool) -> Option<bool> {
        let mut ups: Vec<&str> = vec![];
        let mut d = parent(abs);
        loop {
            ups.push(d);
            if d == "/" {
                break;
            }
            d = parent(d);
        }
        let any_git = ups.iter().any(|d| self.fs.is_dir(&join(d, ".git")));
        for name in IGNORE_NAMES.into_iter().chain([".git/info/exclude"]) {
            let git = name.starts_with(".git");
            if git && !any_git {
                continue;
            }
            for d in &ups {
                if let Some(p) = self.pats(d, name) {
                    let rel = if *d == "/" { &abs[1..] } else { &abs[d.len() + 1..] };
                    if let Some(v) = verdict(&p, rel, is_dir) {
                        return Some(v);
                    }
                }
                // git does not look further up than the repository
                if git && self.fs.is_dir(&join(d, ".git")) {
                    break;
                }
            }
        }
        // the one in the working directory counts for every argument
        if let Some(p) = self.pats(self.cwd, ".ludtwig-ignore") {
            let rel = display.strip_prefix("./").unwrap_or(display);
            // (seen from there, what lies elsewhere keeps its absolute name)
            let rel = rel.strip_prefix(self.cwd).and_then(|r| r.strip_prefix('/')).unwrap_or(rel);
            if let Some(v) = verdict(&p, rel, is_dir) {
                return Some(v);
            }
        }
        None
    }
    fn all_below(&self, dir: &Sel, out: &mut Selection) {
        for c in self.fs.children(&dir.abs) {
            let abs = join(&dir.abs, &c);
            let s = Sel { display: join(&dir.display, &c), abs: abs.clone() };
            if self.fs.is_dir(&abs) {
                self.all_below(&s, out);
            } else if is_template_name(&c) {
                out.excluded.push(s);
            }
        }
    }
    fn walk(&self, dir: &Sel, out: &mut Selection) {
        out.dirs.push(dir.clone());
        for c in self.fs.children(&dir.abs) {
            let abs = join(&dir.abs, &c);
            let s = Sel { display: join(&dir.display, &c), abs: abs.clone() };
            let is_dir = self.fs.by.get(abs.as_str()).is_none_or(|n| n.kind == DIR);
            let ign = self.ignored(&abs, &s.display, is_dir);
            if is_dir {
                if ign == Some(true) || (ign.is_none() && c.starts_with('.')) {
                    self.all_below(&s, out);
                } else {
                    self.walk(&s, out);
                }
            } else if is_template_name(&c) {
                if ign == Some(true) {
                    out.excluded.push(s);
                } else {
                    out.files.push(s);
                }
            }
        }
    }
}
pub fn path_args(args: &[String]) -> (Vec<String>, Vec<String>) {
    let mut opts = vec![];
    let mut paths = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "-c" || a == "--config-path" {
            opts.push(a.clone());
            if let Some(v) = it.next() {
                opts.push(v.clone());
            }
        } else if a.starts_with('-') && a != "-" {
            opts.push(a.clone());
        } else {
            paths.push(a.clone());
        }
    }
    (opts, paths)
}
pub fn select(tree: &[Node], cwd: &str, args: &[String]) -> Selection {
    let fs = Fs::new(tree);
    let c = Ctx { fs: &fs, cwd };
    let mut out = Selection::default();
    for a in path_args(args).1 {
        if a == "-" {
            continue;
        }
        let abs = join(cwd, &a);
        let Some(real) = fs.real(&abs) else {
            out.missing.push(a);
            continue;
        };
        if fs.is_dir(&real) {
            c.walk(&Sel { display: a, abs: real }, &mut out);
        } else if fs.by.contains_key(real.as_str()) {
            // the link itself is what is named
            let lex = join(&fs.real(parent(&abs)).unwrap_or_default(), base(&abs));
            out.files.push(Sel { display: a, abs: lex });
        } else {
            out.missing.push(a);
        }
    }
    out
}
