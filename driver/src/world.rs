//! Random worlds: directory trees with templates, options, schedules.
use crate::rng::Rng;
use crate::select::*;
use crate::sim::*;
use crate::tmpl::*;

#[derive(Clone)]
pub struct Opt {
    pub n: (usize, usize),
    pub fix: u64,
    pub inspect: u64,
    pub links: u64,
    pub dangling: u64,
    pub config: u64,
    pub ignores: u64,
    pub overlap: u64,
    pub bad: u64,
    pub many: u64,
    pub kind: fn(&mut Rng) -> Kind,
}
impl Default for Opt {
    fn default() -> Opt {
        Opt { n: (1, 8), fix: 50, inspect: 10, links: 0, dangling: 20, config: 20, ignores: 0, overlap: 0, bad: 0, many: 2, kind: any_kind }
    }
}
pub struct World {
    pub tree: Vec<Node>,
    pub run: Run,
}
const VERSION: &str = "0.13.0";
pub fn config_text(rng: &mut Rng) -> String {
    let mut s = match rng.below(5) {
        0 => String::new(),
        1 => "version = \"0.12.0\"\n".to_string(),
        _ => format!("version = \"{VERSION}\"\n"),
    };
    if rng.pct(45) {
        s += "[general]\nactive-rules = [";
        let p = *rng.pick(&[0, 15, 40, 90]);
        for r in RULES {
            if rng.pct(p) {
                s += &format!("\"{r}\", ");
            }
        }
        if rng.pct(10) {
            s += "\"no-such-rule\"";
        }
        s += "]\n";
    }
    if rng.pct(60) {
        s += "[format]\n";
        let p = *rng.pick(&[20, 50]);
        let mut one = |rng: &mut Rng, k: &str, v: &[&str]| {
            if rng.pct(p) {
                s += &format!("{k} = {}\n", rng.pick(v));
            }
        };
        one(rng, "line-ending", &["\"windows_CRLF\"", "\"unix_LF\""]);
        one(rng, "indentation-mode", &["\"tab\"", "\"space\""]);
        one(rng, "indentation-count", &["0", "1", "2", "3", "8", "255"]);
        one(rng, "indent-children-of-blocks", &["false", "true"]);
        one(rng, "linebreaks-around-blocks", &["false", "true"]);
        one(rng, "twig-quotation", &["\"double\"", "\"single\""]);
        one(rng, "html-quotation", &["\"single\"", "\"double\""]);
    }
    if rng.pct(25) {
        s += "[twig]\n";
        if rng.pct(60) {
            s += *rng.pick(&["valid-filters = [\"upper\"]\n", "valid-filters = []\n", "valid-filters = [\"upper\", \"raw\", \"trans\", \"e\"]\n"]);
        }
        if rng.pct(40) {
            s += *rng.pick(&["valid-tests = [\"defined\"]\n", "valid-tests = []\n"]);
        }
        if rng.pct(40) {
            s += *rng.pick(&["valid-functions = [\"path\", \"constant\"]\n", "valid-functions = []\n"]);
        }
    }
    s
}
const RULES: &[&str] = &[
    "ludtwig-ignore-file-not-on-top", "whitespace-between-line-breaks", "line-ending", "indentation", "twig-block-line-breaks",
    "twig-block-name-snake-case", "html-attribute-name-kebab-case", "twig-logic-and", "twig-logic-or", "twig-string-quotation",
    "html-string-quotation", "twig-hash-key-no-quotes", "twig-use-is-same-as", "twig-use-is-not-same-as", "twig-prefer-shopware-extends",
    "twig-block-duplicate", "twig-json-encode-escape-js", "html-duplicate-id", "twig-variable-definition-naming", "twig-valid-filter",
    "twig-valid-test", "twig-valid-function",
];
fn config_env(rng: &mut Rng) -> String {
    let v = *rng.pick(&[
        "FORMAT__INDENTATION_MODE=tab", "FORMAT__LINE_ENDING=windows_CRLF", "FORMAT__TWIG_QUOTATION=double", "FORMAT__HTML_QUOTATION=single",
        "FORMAT__LINEBREAKS_AROUND_BLOCKS=false", "GENERAL__ACTIVE_RULES=[indentation, twig-logic-or, html-string-quotation]", "TWIG__VALID_FILTERS=[upper]",
        "VERSION=0.13.0", "VERSION=1.0.0",
    ]);
    format!("LUDTWIG_{v}")
}
const STEMS: &[&str] = &["a", "b", "index", "page", "my page", "\u{fc}ber", "x-1", "Foo", "meta", "_part", "z.min", "\u{4e2d}", "card", "list"];
const EXTS: &[&str] = &[".twig", ".html.twig", ".twig", ".html.twig", ".html", ".htm", ".ejs", ".txt.twig"];
const OTHER: &[&str] = &["readme.txt", "page.twig.bak", "X.TWIG", "app.js", "twig", "html", "data.json", "a.twig~", "b.htmlx", ".twigrc"];
const DIRS: &[&str] = &["views", "sub", "src", "storefront", "my dir", "\u{e9}t\u{e9}", "d", "component", "x.twig", "node_modules"];
const CWDS: &[&str] = &["/w", "/w", "/w", "/w", "/w", "/w", "/home/u/proj", "/home/u/proj", "/srv/my site/theme", "/srv/my site/theme", "/home/u/a/b/c/d/e/f/g/h/i/proj"];

/// A directory above this one, not the root.
pub fn some_parent(rng: &mut Rng, dir: &str) -> String {
    let n = dir.matches('/').count();
    let mut d = parent(dir);
    if n > 2 && rng.pct(60) {
        for _ in 0..rng.below(n - 1) {
            d = parent(d);
        }
    }
    d.to_string()
}

pub fn dirs_upto(out: &mut Vec<Node>, path: &str) {
    let mut p = path.to_string();
    let mut v = vec![];
    while p != "/" {
        v.push(p.clone());
        p = parent(&p).to_string();
    }
    for d in v.into_iter().rev() {
        if !out.iter().any(|n| n.path == d) {
            out.push(Node::dir(&d));
        }
    }
}
fn ignore_line(rng: &mut Rng, below: &[String]) -> String {
    // names relative to the ignore file
    let some = |rng: &mut Rng| -> String {
        if below.is_empty() || rng.pct(10) {
            "nothing.twig".to_string()
        } else {
            rng.pick(below).clone()
        }
    };
    let p = some(rng);
    let b = base(&p).to_string();
    let s = match rng.below(16) {
        0 | 1 => b,
        2 => format!("/{p}"),
        3 => p,
        4 => format!("*{}", b.chars().skip(1).collect::<String>()),
        5 => "*.html".into(),
        6 => "*.htm*".into(),
        7 => format!("{}/", base(parent(&format!("/{p}")))),
        8 => format!("**/{b}"),
        9 => {
            let d = parent(&format!("/{p}")).trim_start_matches('/').to_string();
            if d.is_empty() { "sub/**".into() } else { format!("{d}/**") }
        }
        10 => format!("{}?{}", b.chars().next().unwrap_or('a'), b.chars().skip(2).collect::<String>()),
        11 => "[a-m]*.twig".into(),
        12 => {
            let d = parent(&format!("/{p}")).to_string();
            if d == "/" { "/*.ejs".into() } else { format!("{d}/*") }
        }
        13 => "# a comment".into(),
        14 => String::new(),
        _ => format!("{}/", DIRS[rng.below(DIRS.len())]),
    };
    if rng.pct(15) && !s.is_empty() && !s.starts_with('#') {
        format!("!{s}")
    } else {
        s
    }
}
pub fn world(rng: &mut Rng, o: &Opt) -> World {
    let cwd = rng.pick(CWDS).to_string();
    let mut tree: Vec<Node> = vec![];
    dirs_upto(&mut tree, "/home/u");
    dirs_upto(&mut tree, &cwd);
    let mut dirs: Vec<String> = vec![cwd.clone()];
    let nd = if rng.pct(30) { 0 } else { rng.range(1, 5) };
    for _ in 0..nd {
        let p = rng.pick(&dirs).clone();
        let mut name = (*rng.pick(DIRS)).to_string();
        if dirs.len() > 1 && rng.pct(15) {
            name = base(&rng.pick(&dirs)[1..]).to_string();
        }
        if o.ignores > 0 && rng.pct(12) {
            name = format!(".{name}");
        }
        let d = join(&p, &name);
        if !tree.iter().any(|n| n.path == d) {
            tree.push(Node::dir(&d));
            dirs.push(d);
        }
    }
    // a deep structure
    let deep = rng.pct(6);
    if deep {
        let mut p = rng.pick(&dirs).clone();
        let levels = *rng.pick(&[6, 11, 13, 17, 26, 40]);
        for i in 0..levels {
            p = join(&p, &format!("{}{i}", rng.pick(&["d", "sub", "lvl", "v"])));
            if !tree.iter().any(|n| n.path == p) {
                tree.push(Node::dir(&p));
                dirs.push(p.clone());
            }
        }
    }
    let mut n = rng.range(o.n.0, o.n.1);
    let many = rng.pct(o.many);
    // templates with equal content
    let copies = rng.pct(8);
    let mut one_dir = false;
    if many {
        n = if rng.pct(25) { rng.range(120, 420) } else { rng.range(30, 120) };
        one_dir = rng.pct(40);
    }
    let tag0 = rng.below(1000);
    // templates that use the same names
    let same_names = rng.pct(20);
    let mut files: Vec<String> = vec![];
    for i in 0..n {
        let d = if deep && (i == 0 || rng.pct(30)) {
            dirs[dirs.len() - 1].clone()
        } else if one_dir && rng.pct(90) {
            dirs[dirs.len() / 2].clone()
        } else {
            rng.pick(&dirs).clone()
        };
        let mut stem = format!("{}{}", rng.pick(STEMS), i);
        if o.ignores > 0 && rng.pct(5) {
            stem = format!(".{stem}");
        }
        if o.ignores == 0 && rng.pct(2) {
            // bytes that are not UTF-8
            stem = format!("{stem}{}", rng.pick(&["\u{f7ff}", "\u{f7fc}b", "x\u{f7c3}", "\u{f780}\u{f7fe}"]));
        }
        let path = join(&d, &format!("{stem}{}", rng.pick(EXTS)));
        let mut k = (o.kind)(rng);
        if many && k == Kind::Big {
            k = Kind::Fix;
        }
        if rng.pct(o.bad) {
            k = Kind::BadUtf8;
        }
        let earlier = if copies && !files.is_empty() && rng.pct(60) { Some(rng.pick(&files).clone()) } else { None };
        let mut data = template(rng, k, &if same_names { "m".to_string() } else { format!("m{tag0}x{i}") });
        if k != Kind::Empty && !many && rng.pct(3) {
            pad(rng, &mut data);
        }
        if let Some(t) = earlier.and_then(|e| tree.iter().find(|n| n.path == e)) {
            data = t.data.clone();
        }
        let mut nd = Node::file(&path, data);
        if rng.pct(10) {
            nd.mode = *rng.pick(&[0o600, 0o664, 0o755, 0o640, 0o777, 0o700]);
        }
        tree.push(nd);
        files.push(path);
    }
    for _ in 0..rng.below(4) {
        let d = rng.pick(&dirs).clone();
        let p = join(&d, rng.pick(OTHER));
        if !tree.iter().any(|n| n.path == p) {
            tree.push(Node::file(&p, template(rng, Kind::Fix, "other")));
        }
    }
    if rng.pct(o.links) {
        for i in 0..rng.range(1, 3) {
            let d = rng.pick(&dirs).clone();
            let p = join(&d, &format!("link{i}.twig"));
            let t = if !rng.pct(o.dangling) && !files.is_empty() {
                // points to data that is not itself selected
                let tp = join(&cwd, &format!("shared{i}.tpl"));
                if !tree.iter().any(|n| n.path == tp) {
                    tree.push(Node::file(&tp, template(rng, Kind::Fix, &format!("l{i}"))));
                }
                if rng.pct(50) { tp } else { relative(&d, &tp) }
            } else {
                "gone.tpl".into()
            };
            tree.push(Node::link(&p, &t));
        }
        if rng.pct(30) {
            // link to a directory is not followed
            tree.push(Node::link(&join(&cwd, "linkdir"), rng.pick(&dirs)));
        }
    }
    // directories beside the working directory
    let mut outside: Vec<String> = vec![];
    let mut outside_names: Vec<String> = vec![];
    if o.ignores > 0 && rng.pct(14) {
        for i in 0..rng.range(1, 3) {
            let d = join(parent(&cwd), &format!("out{i}"));
            tree.push(Node::dir(&d));
            for j in 0..rng.range(1, 3) {
                let b = format!("{}{j}{}", rng.pick(STEMS), rng.pick(EXTS));
                let sub = if rng.pct(25) { join(&d, "sub") } else { d.clone() };
                dirs_upto(&mut tree, &sub);
                let p = join(&sub, &b);
                if !tree.iter().any(|n| n.path == p) {
                    let k = (o.kind)(rng);
                    tree.push(Node::file(&p, template(rng, k, &format!("o{i}x{j}"))));
                    outside_names.push(b);
                }
            }
            outside.push(d);
        }
    }
    let mut ignores_used = false;
    if rng.pct(o.ignores) {
        ignores_used = true;
        let up: Vec<String> = {
            let mut v = dirs.clone();
            v.push(cwd.clone());
            v.push(cwd.clone());
            v.extend(outside.iter().cloned());
            if !outside.is_empty() {
                v.extend(vec![cwd.clone(); dirs.len()]);
            }
            if parent(&cwd) != "/" {
                for _ in 0..if cwd.len() > 24 { 3 } else { 1 } {
                    v.push(some_parent(rng, &cwd));
                }
            }
            v
        };
        for _ in 0..rng.range(1, 3) {
            let d = rng.pick(&up).clone();
            let name = *rng.pick(&[".ludtwig-ignore", ".ludtwig-ignore", ".ludtwig-ignore", ".gitignore", ".gitignore", ".ignore"]);
            let p = join(&d, name);
            if tree.iter().any(|n| n.path == p) {
                continue;
            }
            let pre = format!("{d}/");
            let mut below: Vec<String> = files.iter().chain(dirs.iter()).filter_map(|f| f.strip_prefix(&pre)).map(String::from).collect();
            if d == cwd && !outside_names.is_empty() {
                below.clone_from(&outside_names);
            }
            let mut txt = String::new();
            for _ in 0..rng.range(1, 4) {
                txt += &ignore_line(rng, &below);
                txt += if rng.pct(5) { "\r\n" } else { "\n" };
            }
            if rng.pct(10) {
                txt.pop();
            }
            tree.push(Node::file(&p, txt));
        }
        if rng.pct(60) {
            let d = if rng.pct(70) { cwd.clone() } else { rng.pick(&dirs).clone() };
            let g = join(&d, ".git");
            if !tree.iter().any(|n| n.path == g) {
                tree.push(Node::dir(&g));
                if rng.pct(35) {
                    let info = join(&g, "info");
                    tree.push(Node::dir(&info));
                    let pre = format!("{d}/");
                    let below: Vec<String> = files.iter().chain(dirs.iter()).filter_map(|f| f.strip_prefix(&pre)).map(String::from).collect();
                    let mut txt = String::from("# git ls-files --others --exclude-from=.git/info/exclude\n");
                    for _ in 0..rng.below(3) {
                        txt += &ignore_line(rng, &below);
                        txt += "\n";
                    }
                    tree.push(Node::file(&join(&info, "exclude"), txt));
                }
            }
        }
    }

    // path arguments
    let fs = Fs::new(&tree);
    let top: Vec<String> = fs.children(&cwd).into_iter().filter(|c| !c.starts_with('.') && c != "linkdir" && !c.starts_with("shared")).collect();
    let mut args: Vec<String> = vec![];
    let dot = |rng: &mut Rng| -> String {
        match rng.below(10) {
            0 => "./".into(),
            1 => cwd.clone(),
            2 => format!("{cwd}/"),
            3 if cwd != "/w" => format!("../{}", base(&cwd)),
            _ => ".".into(),
        }
    };
    let usable: Vec<String> = top
        .iter()
        .filter(|c| fs.is_dir(&join(&cwd, c)) || is_template_name(c) || rng.pct(20))
        .cloned()
        .collect();
    let name = |rng: &mut Rng, c: &str| -> String {
        match rng.below(8) {
            0 => format!("./{c}"),
            1 => join(&cwd, c),
            2 if fs.is_dir(&join(&cwd, c)) => format!("{c}/"),
            _ => c.to_string(),
        }
    };
    if usable.is_empty() || rng.pct(50) {
        args.push(dot(rng));
    } else {
        for c in &usable {
            let inner: Vec<String> =
                if rng.pct(20) { fs.children(&join(&cwd, c)).into_iter().filter(|d| !d.starts_with('.') && fs.is_dir(&join(&join(&cwd, c), d))).collect() } else { vec![] };
            if !inner.is_empty() {
                for d in inner {
                    args.push(name(rng, &join(c, &d)));
                }
            } else if rng.pct(60) {
                args.push(name(rng, c));
            }
        }
        if args.is_empty() {
            args.push(name(rng, &usable[0]));
        }
        if args.len() > 1 {
            rng.shuffle(&mut args);
        }
    }
    for d in &outside {
        let a = if rng.pct(70) { format!("../{}", base(d)) } else { d.clone() };
        let i = rng.below(args.len() + 1);
        args.insert(i, a);
    }
    if rng.pct(o.overlap) {
        for _ in 0..rng.range(1, 3) {
            let extra = match rng.below(4) {
                0 => dot(rng),
                1 if !files.is_empty() => rng.pick(&files).clone(),
                2 if !dirs.is_empty() => rng.pick(&dirs).clone(),
                _ => rng.pick(&args).clone(),
            };
            args.push(extra);
        }
        rng.shuffle(&mut args);
    }
    let _ = ignores_used;

    let mut opts: Vec<String> = vec![];
    if rng.pct(o.fix) {
        opts.push(if rng.pct(80) { "-f" } else { "--fix" }.into());
    }
    if rng.pct(o.inspect) {
        opts.push("-i".into());
    }
    if rng.pct(6) {
        opts.push("-v".into());
    }
    let mut env = base_env();
    if rng.pct(o.config) {
        let text = config_text(rng);
        match rng.below(6) {
            0 => {
                opts.push("-c".into());
                opts.push("conf.toml".into());
                tree.push(Node::file(&join(&cwd, "conf.toml"), text));
            }
            1 => {
                for _ in 0..rng.range(1, 3) {
                    let v = if rng.pct(40) { format!("LUDTWIG_FORMAT__INDENTATION_COUNT={}", rng.range(0, 8)) } else { config_env(rng) };
                    let k = v.split('=').next().unwrap().to_string() + "=";
                    if !env.iter().any(|e| e.starts_with(&k)) {
                        env.push(v);
                    }
                }
            }
            2 => {
                // found in a directory further up
                let d = if parent(&cwd) == "/" { "/".to_string() } else { some_parent(rng, &cwd) };
                tree.push(Node::file(&join(&d, "ludtwig-config.toml"), text));
            }
            _ => tree.push(Node::file(&join(&cwd, "ludtwig-config.toml"), text)),
        }
    }
    let mut all = vec![];
    if rng.pct(80) {
        all.extend(opts);
        all.extend(args);
    } else {
        all.extend(args);
        all.extend(opts);
    }
    let run = Run { env, ..Run::new(&cwd, &all) };
    World { tree, run }
}
pub fn relative(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut v: Vec<&str> = vec![".."; a.len() - k];
    v.extend(&b[k..]);
    v.join("/")
}

/// a random way to run it: workers, schedule, addresses of chance
pub fn schedule(rng: &mut Rng, run: &mut Run, edges: u64) {
    run.ncpu = *rng.pick(&[1, 2, 2, 3, 4, 4, 6, 8]);
    run.hash_seed = rng.next();
    run.dir_seed = if rng.pct(30) { 0 } else { rng.next() };
    run.pid = rng.range(300, 30000) as u32;
    let seed = rng.next();
    let threads = 2 + run.ncpu as usize * 2;
    run.sched = match rng.below(10) {
        0 => Sched { mode: 0, seed, p1: 0, p2: 0, entries: None },
        1..=4 => Sched {
            mode: 1,
            seed,
            p1: *rng.pick(&[0, 1500, 6000, 16000, 40000]),
            p2: *rng.pick(&[0, 300, 3000, 30000, 200_000]),
            entries: None,
        },
        5 | 6 => Sched { mode: 2, seed, p1: rng.range(1, 6) as u64, p2: edges.max(1000), entries: None },
        7 => Sched { mode: 3, seed, p1: rng.below(threads) as u64, p2: *rng.pick(&[0, 2000, 50_000]), entries: None },
        _ => Sched { mode: 4, seed, p1: *rng.pick(&[3000, 12000, 30000]), p2: *rng.pick(&[2000, 10000, 30000]), entries: None },
    };
    if rng.pct(22) {
        run.noise = Some(Noise { seed: rng.next(), p: *rng.pick(&[500, 4000, 15000]), mask: *rng.pick(&[32, 64, 96]) });
    }
}
