//! C23: require, require_relative, load and autoload.
use crate::case::*;
use crate::report::Ctx;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Require,
    Load,
}

type Op = (Kind, usize);

/// What a file does: nothing more than its operations, or fail, before or after them, whenever / the first time it is evaluated.
#[derive(Clone, Copy, PartialEq)]
enum Fate {
    Fine,
    Once,
    Always,
    Early,
    Syntax,
}

// (two files of different directories have the same name)
const NAMES: [&str; 3] = ["a", "b.x", "s/a"];

/// All the ways in which file `j` can be named in the directory `d` (from the working directory) by file `i`.
fn spell(k: Kind, i: usize, j: usize, way: usize, d: &str) -> String {
    let n = NAMES[j];
    // from the directory of file `i` to `d`
    let up = if i == 2 { "../" } else { "" };
    match k {
        Kind::Require => match way % 11 {
            0 => format!("require_relative({:?})", format!("{up}{n}")),
            1 => format!("require({:?})", format!("./{d}/{n}")),
            2 => format!("require({:?})", format!("{d}/{n}")),
            3 => format!("require_relative({:?})", format!("{up}s/../{n}.rb")),
            4 => format!("require(Dir.pwd + {:?})", format!("/{d}/s/../{n}")),
            5 => format!("require({:?})", format!("./{d}/l/{n}.rb")),
            6 => format!("require({:?})", format!("{d}/s/./../{n}.rb")),
            7 => format!("require_relative({:?})", format!("./{up}l/{n}")),
            8 => format!("require_relative(Dir.pwd + {:?})", format!("/{d}/{n}")),
            9 => format!("require({:?})", format!("../w/{d}//{n}")),
            _ => format!("require(__dir__ + {:?})", format!("/{up}l/l/{n}.rb")),
        },
        Kind::Load => match way % 4 {
            0 => format!("load(__dir__ + {:?})", format!("/{up}{n}.rb")),
            1 => format!("load({:?})", format!("./{d}/s/../{n}.rb")),
            2 => format!("load({:?})", format!("{d}/{n}.rb")),
            _ => format!("load({:?})", format!("{d}/l/{n}.rb")),
        },
    }
}

fn guarded(code: &str) -> String {
    format!("begin\n  p({code})\nrescue SyntaxError\n  p :syntax\nrescue RuntimeError => e\n  p e.message\nend\n")
}

struct Graph {
    ops: [Vec<(Op, bool)>; 3],
    fate: [Fate; 3],
}

fn source(g: &Graph, i: usize, d: &str) -> String {
    let n = NAMES[i];
    let mut s = format!("local = (defined?(local_{}) ? 1 : 2)\nlocal_{i} = 1\nprint {:?}\n$n{i} = ($n{i} || 0) + 1\n", (i + 1) % 3, format!("<{n} "));
    if g.fate[i] == Fate::Early {
        s += &format!("raise {:?} if $n{i} == 1\n", format!("early {n}"));
    }
    for (x, ((k, j), caught)) in g.ops[i].iter().enumerate() {
        let c = spell(*k, i, *j, i * 3 + x + j * 2, d);
        s += &if *caught { guarded(&c) } else { format!("p({c})\n") };
    }
    s += &format!("class K{i}\n  def self.n\n    [$n{i}, __FILE__ == File.realpath({:?})]\n  end\nend\ndef m{i}\n  {i}\nend\n", format!("{d}/{n}.rb"));
    match g.fate[i] {
        Fate::Once => s += &format!("raise {:?} if $n{i} == 1\n", format!("once {n}")),
        Fate::Always => s += &format!("raise {:?}\n", format!("always {n}")),
        Fate::Syntax => s += "x = (1 +\n",
        _ => {}
    }
    s += &format!("puts {:?}\n", format!(" {n}>"));
    s
}

/// The model: which files have been, or are being, required, and how often each was evaluated.
struct Model<'a> {
    g: &'a Graph,
    feature: [bool; 3],
    count: [usize; 3],
    done: [bool; 3],
    out: String,
    depth: usize,
    endless: bool,
}

impl Model<'_> {
    fn op(&mut self, (k, j): Op) -> Result<bool, String> {
        if self.endless {
            return Ok(true);
        }
        if k == Kind::Require {
            if self.feature[j] {
                return Ok(false);
            }
            self.feature[j] = true;
        }
        let r = self.eval(j);
        if r.is_err() && k == Kind::Require {
            self.feature[j] = false;
        }
        r.map(|_| true)
    }
    fn guarded(&mut self, o: Op) {
        match self.op(o) {
            Ok(b) => writeln!(self.out, "{b}").unwrap(),
            Err(m) if m == "syntax" => self.out += ":syntax\n",
            Err(m) => writeln!(self.out, "{m:?}").unwrap(),
        }
    }
    fn eval(&mut self, i: usize) -> Result<(), String> {
        self.depth += 1;
        if self.depth > 12 {
            self.endless = true;
            return Ok(());
        }
        let r = self.eval1(i);
        self.depth -= 1;
        r
    }
    fn eval1(&mut self, i: usize) -> Result<(), String> {
        let n = NAMES[i];
        if self.g.fate[i] == Fate::Syntax {
            return Err("syntax".into());
        }
        write!(self.out, "<{n} ").unwrap();
        self.count[i] += 1;
        if self.g.fate[i] == Fate::Early && self.count[i] == 1 {
            return Err(format!("early {n}"));
        }
        for (o, caught) in &self.g.ops[i] {
            if *caught {
                self.guarded(*o);
            } else {
                let b = self.op(*o)?;
                writeln!(self.out, "{b}").unwrap();
            }
        }
        self.done[i] = true;
        match self.g.fate[i] {
            Fate::Once if self.count[i] == 1 => return Err(format!("once {n}")),
            Fate::Always => return Err(format!("always {n}")),
            _ => {}
        }
        writeln!(self.out, " {n}>").unwrap();
        Ok(())
    }
}

fn write_graph(root: &std::path::Path, d: &str, g: &Graph) {
    let dir = root.join(d);
    std::fs::create_dir_all(dir.join("s")).unwrap();
    std::os::unix::fs::symlink(".", dir.join("l")).unwrap();
    for i in 0..3 {
        std::fs::write(dir.join(format!("{}.rb", NAMES[i])), source(g, i, d)).unwrap();
    }
}

/// A history of operations of a program, over a graph.
fn history(g: &Graph, d: &str, h: &[Op], way: usize, place: usize) -> Option<Case> {
    let mut m = Model { g, feature: [false; 3], count: [0; 3], done: [false; 3], out: String::new(), depth: 0, endless: false };
    let mut code = "$:.unshift(Dir.pwd)\nlocal_0 = local_1 = local_2 = nil\n".to_string();
    for (x, o) in h.iter().enumerate() {
        // (the program itself is in no file of the directory)
        let mut w = way + x * 3 + o.1;
        let s = loop {
            let s = spell(o.0, 0, o.1, w, d);
            if !s.contains("_relative(\"") && !s.contains("__dir__") {
                break s;
            }
            w += 1;
        };
        let s = guarded(&s);
        code += &match (place + x) % 4 {
            0 => s,
            1 => format!("[1].each {{\n{s}}}\n"),
            2 => format!("def in{x}\n{s}end\nin{x}\n"),
            _ => format!("class In{x}\n{s}end\n"),
        };
        m.guarded(*o);
        if m.endless {
            return None;
        }
    }
    let mut exp = m.out;
    for i in 0..3 {
        code += &format!("p defined?(K{i}), defined?(m{i}), local_{i}\n");
        exp += if m.done[i] { "\"constant\"\n\"method\"\nnil\n" } else { "nil\nnil\nnil\n" };
        if m.done[i] {
            code += &format!("p K{i}.n, m{i}\n");
            exp += &format!("[{}, true]\n{i}\n", m.count[i]);
        }
    }
    code += "p defined?(local)\n";
    exp += "nil\n";
    Some(Case::top(code, exp))
}

fn seqs(n: usize) -> Vec<Vec<Op>> {
    let ops: Vec<Op> = [Kind::Require, Kind::Load].iter().flat_map(|k| (0..3).map(move |j| (*k, j))).collect();
    let mut all = vec![];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for l in &last {
            for o in &ops {
                let mut l: Vec<Op> = l.clone();
                l.push(*o);
                next.push(l);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

/// Histories of an autoloaded constant. The file defines it, or does not, or fails the first time.
fn autoloads(root: &std::path::Path, depth: usize) -> Vec<Case> {
    for (n, body) in [
        ("ok", "class Object; X1 = 7; end\nmodule M; X1 = 7; end\n"),
        ("no", "$none = 1\n"),
        ("once", "raise \"bad\" if ($f = ($f || 0) + 1) == 1\nclass Object; X1 = 7; end\nmodule M; X1 = 7; end\n"),
        ("late", "class Object; X1 = 7; end\nmodule M; X1 = 7; end\nraise \"bad\" if ($f = ($f || 0) + 1) == 1\n"),
    ] {
        std::fs::write(root.join(format!("auto_{n}.rb")), format!("puts \"L\"\n{body}")).unwrap();
    }
    #[derive(Clone, Copy, PartialEq)]
    enum S {
        None,
        Auto,
        Set,
    }
    let mut o = vec![];
    let ops = ["autoload", "ref", "require", "defined", "const_defined", "get", "load"];
    for file in ["ok", "no", "once", "late"] {
        for (def, name) in [("M.autoload(:X1, F)", "M::X1"), ("module M; autoload :X1, F; end", "M::X1"), ("Object.autoload(:X1, F)", "X1"), ("module M; autoload :X1, F; end", "in")] {
            let f = format!("./auto_{file}.rb");
            let total = (0..depth).fold(1, |a, _| a * ops.len());
            'h: for mut c in 0..total {
                let mut code = "module M; end\n".to_string();
                let mut exp = String::new();
                let (mut st, mut feat, mut count) = (S::None, false, 0);
                for _ in 0..depth {
                    let op = ops[c % ops.len()];
                    c /= ops.len();
                    // evaluating the file: the state after it, and whether it failed
                    let run = |st: &mut S, count: &mut usize, exp: &mut String| -> bool {
                        *count += 1;
                        *exp += "L\n";
                        let fail = *count == 1 && (file == "once" || file == "late");
                        if file != "no" && !(fail && file == "once") {
                            *st = S::Set;
                        }
                        fail
                    };
                    let (code1, place) = match op {
                        "autoload" => (def.replace('F', &format!("{f:?}")), false),
                        "ref" => (if name == "in" { "X1".into() } else { name.to_string() }, name == "in"),
                        "require" => (format!("require({f:?})"), false),
                        "load" => (format!("load({f:?})"), false),
                        "defined" => (format!("defined?({})", if name == "in" { "X1" } else { name }), name == "in"),
                        "const_defined" => (format!("{}.const_defined?(:X1)", if name == "X1" { "Object" } else { "M" }), false),
                        _ => (format!("{}.const_get(:X1)", if name == "X1" { "Object" } else { "M" }), false),
                    };
                    let r: Result<String, String> = match op {
                        "autoload" => {
                            if st == S::None {
                                st = S::Auto;
                            }
                            // the constant of a file which is already there stays undefined: not asked
                            if feat && st == S::Auto {
                                continue 'h;
                            }
                            Ok("nil".into())
                        }
                        "ref" | "get" => match st {
                            S::Set => Ok("7".into()),
                            S::None => Err("name".into()),
                            S::Auto if feat => Err("name".into()),
                            S::Auto => {
                                feat = true;
                                if run(&mut st, &mut count, &mut exp) {
                                    feat = false;
                                    Err("bad".into())
                                } else if st == S::Set {
                                    Ok("7".into())
                                } else {
                                    Err("name".into())
                                }
                            }
                        },
                        "require" if feat => Ok("false".into()),
                        "require" | "load" => {
                            let again = st == S::Set;
                            if again && file != "no" {
                                // would assign the constant twice
                                continue 'h;
                            }
                            if op == "require" {
                                feat = true;
                            }
                            if run(&mut st, &mut count, &mut exp) {
                                if op == "require" {
                                    feat = false;
                                }
                                Err("bad".into())
                            } else {
                                Ok("true".into())
                            }
                        }
                        // whether a constant which its file did not define is said to be defined is not asked
                        _ if st == S::Auto && (feat || count > 0) => continue 'h,
                        "defined" => Ok(if st == S::None { "nil" } else { "\"constant\"" }.into()),
                        _ => Ok(if st == S::None { "false" } else { "true" }.into()),
                    };
                    let body = format!("begin\n  p({code1})\nrescue NameError\n  p :name\nrescue RuntimeError => e\n  p e.message\nend\n");
                    if op == "autoload" && code1.starts_with("module") {
                        code += &format!("{code1}\np nil\n");
                    } else if place {
                        code += &format!("module M\n{body}end\n");
                    } else {
                        code += &body;
                    }
                    exp += &match r {
                        Ok(s) => format!("{s}\n"),
                        Err(e) if e == "name" => ":name\n".into(),
                        Err(e) => format!("{e:?}\n"),
                    };
                }
                o.push(Case::top(code, exp));
            }
        }
    }
    o
}

pub fn run(ctx: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("mc-c23-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("w")).unwrap();
    let root = dir.canonicalize().unwrap().join("w");
    let runner = |ctx: &mut Ctx, cs: Vec<Case>| {
        let mut r = Runner::new(ctx);
        r.cwd = Some(root.to_string_lossy().to_string());
        // every case needs a process in which nothing is loaded
        r.batch(1).run(cs.into_iter());
    };
    let t = ctx.thorough;
    let one: Vec<Vec<Op>> = std::iter::once(vec![]).chain(seqs(1)).collect();
    let mut id = 0;

    ctx.section("graphs of three files with up to one operation each");
    let mut cs = vec![];
    let hs = seqs(if t { 3 } else { 2 });
    for a in &one {
        for b in &one {
            for c in &one {
                let op = |v: &Vec<Op>| v.iter().map(|o| (*o, false)).collect::<Vec<_>>();
                let g = Graph { ops: [op(a), op(b), op(c)], fate: [Fate::Fine; 3] };
                let d = format!("g{id}");
                write_graph(&root, &d, &g);
                for (x, h) in hs.iter().enumerate() {
                    cs.extend(history(&g, &d, h, x + id, x / 2 + id));
                }
                id += 1;
            }
        }
    }
    ctx.bound("graphs", id);
    runner(ctx, cs);

    ctx.section("graphs whose first file has two operations");
    let mut cs = vec![];
    let two = seqs(2);
    let start = id;
    for a in two.iter().filter(|a| a.len() == 2) {
        for b in &one {
            for c in &one {
                let op = |v: &Vec<Op>| v.iter().map(|o| (*o, false)).collect::<Vec<_>>();
                let g = Graph { ops: [op(a), op(b), op(c)], fate: [Fate::Fine; 3] };
                let d = format!("g{id}");
                write_graph(&root, &d, &g);
                for (x, h) in seqs(if t { 2 } else { 1 }).iter().enumerate() {
                    cs.extend(history(&g, &d, h, x + id, x / 2 + id));
                }
                id += 1;
            }
        }
    }
    ctx.bound("two_op_graphs", id - start);
    runner(ctx, cs);

    ctx.section("files which fail");
    let mut cs = vec![];
    let fates = [Fate::Fine, Fate::Once, Fate::Always, Fate::Early, Fate::Syntax];
    let start = id;
    let reqs: Vec<Vec<Op>> = one.iter().filter(|o| t || o.is_empty() || o[0].0 == Kind::Require).cloned().collect();
    for a in &reqs {
        for b in &reqs {
            for x in 0..25 {
                for caught in [false, true] {
                    let op = |v: &Vec<Op>| v.iter().map(|o| (*o, caught)).collect::<Vec<_>>();
                    let g = Graph { ops: [op(a), op(b), vec![]], fate: [if x / 5 == 4 { Fate::Fine } else { fates[x / 5] }, fates[x % 5], fates[(x + 1) % 5]] };
                    let d = format!("g{id}");
                    write_graph(&root, &d, &g);
                    for (x, h) in seqs(2).iter().enumerate() {
                        if t || h.iter().all(|o| o.1 != 2) {
                            cs.extend(history(&g, &d, h, x + id, x / 2 + id));
                        }
                    }
                    id += 1;
                }
            }
        }
    }
    ctx.bound("failing_graphs", id - start);
    runner(ctx, cs);

    ctx.section("histories of autoloaded constants");
    let depth = if t { 5 } else { 4 };
    let cs = autoloads(&root, depth);
    runner(ctx, cs);

    ctx.section("files which do not exist, and search");
    let mut cs = vec![];
    std::fs::create_dir_all(root.join("p1")).unwrap();
    std::fs::create_dir_all(root.join("p2/q")).unwrap();
    for (f, n) in [("p1/z.rb", 1), ("p2/z.rb", 2), ("p2/y.rb", 3), ("z.rb", 4), ("w.rb", 5), ("p2/q/z.rb", 6), ("p1/v.w.rb", 7), ("v.w.rb", 8), ("p2/u.rb.rb", 9), ("p1/w2.rbx.rb", 10)] {
        std::fs::write(root.join(f), format!("puts {n}\n")).unwrap();
    }
    for how in ["require", "load"] {
        for paths in [vec![], vec!["p1"], vec!["p2"], vec!["p1", "p2"], vec!["p2", "p1"], vec!["none", "p2"]] {
            for f in ["z", "y", "w", "q/z", "v.w", "v", "u", "u.rb", "w2.rbx", "w2", "none", "./z", "./y", "./p2/y", "../w/z", "p1/z", "./none", "q"] {
                let f = if how == "load" { format!("{f}.rb") } else { f.into() };
                let file = if f.ends_with(".rb") { f.clone() } else { format!("{f}.rb") };
                // (u.rb may name u.rb.rb for require)
                if how == "require" && f == "u.rb" {
                    continue;
                }
                let read = |p: std::path::PathBuf| std::fs::read_to_string(p).ok().map(|s| s[5..].to_string());
                let mut r = None;
                if !f.starts_with('.') {
                    r = paths.iter().find_map(|p| read(root.join(p).join(&file)));
                }
                if r.is_none() && (how == "load" || f.starts_with('.')) {
                    r = read(root.join(&file));
                }
                let ps: String = paths.iter().map(|p| format!("Dir.pwd + \"/{p}\", ")).collect();
                let code = format!("$:.clear\n[{ps}].each {{|x| $: << x}}\n2.times do\n  begin\n    p({how}({f:?}))\n  rescue LoadError => e\n    p e.class\n  end\nend\n");
                let exp = match r {
                    Some(s) => format!("{s}true\n{}", if how == "load" { format!("{s}true\n") } else { "false\n".into() }),
                    None => "LoadError\nLoadError\n".into(),
                };
                cs.push(Case::top(code, exp));
            }
        }
    }
    runner(ctx, cs);
    let _ = std::fs::remove_dir_all(&dir);
}
