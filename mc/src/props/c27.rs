//! C27: files and paths.
use crate::case::*;
use crate::report::Ctx;

fn q(s: &str) -> String {
    super::c21::q(s)
}

// Paths as Ruby defines them

fn chomp_sep(s: &str) -> &str {
    s.trim_end_matches('/')
}

fn basename(p: &str) -> String {
    let s = chomp_sep(p);
    if s.is_empty() {
        return if p.is_empty() { "".into() } else { "/".into() };
    }
    s.rsplit('/').next().unwrap().into()
}

fn dirname(p: &str) -> String {
    let s = chomp_sep(p);
    match s.rfind('/') {
        None => if s.is_empty() && !p.is_empty() { "/".into() } else { ".".into() },
        Some(i) => {
            let d = chomp_sep(&s[..i]);
            if d.is_empty() { "/".into() } else { d.into() }
        }
    }
}

fn extname(p: &str) -> String {
    let b = basename(p);
    let s = b.trim_start_matches('.');
    match s.rfind('.') {
        Some(i) => s[i..].into(),
        None => "".into(),
    }
}

fn join(l: &[&str]) -> String {
    let mut r = String::new();
    for (i, s) in l.iter().enumerate() {
        if i > 0 {
            if s.starts_with('/') {
                r.truncate(chomp_sep(&r).len());
            } else if !r.ends_with('/') {
                r.push('/');
            }
        }
        r += s;
    }
    r
}

fn expand(p: &str, cwd: &str, home: &str) -> String {
    let abs = if p == "~" || p.starts_with("~/") {
        format!("{home}{}", &p[1..])
    } else if p.starts_with('/') {
        p.to_string()
    } else {
        format!("{cwd}/{p}")
    };
    let mut o: Vec<&str> = vec![];
    for c in abs.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    format!("/{}", o.join("/"))
}

/// Does the name match one component of a pattern?
fn fnmatch(p: &[u8], n: &[u8], first: bool) -> bool {
    if p.is_empty() {
        return n.is_empty();
    }
    let hidden = first && n.first() == Some(&b'.');
    match p[0] {
        b'*' => {
            let p = &p[1..];
            if hidden {
                return false;
            }
            (0..=n.len()).any(|i| fnmatch(p, &n[i..], false))
        }
        b'?' => !n.is_empty() && !hidden && fnmatch(&p[1..], &n[1..], false),
        c => n.first() == Some(&c) && fnmatch(&p[1..], &n[1..], false),
    }
}

/// The entries of the tree made below.
const DIRS: &[&str] = &["d", "d/e", "d/e/g", ".h", "x.y", "d/.i"];
const FILES: &[&str] = &[
    "a", "b.rb", "ab.rb", "a+b", "a.b.c", ".r", ".r.rb", "a(b", "d/a", "d/b.rb", "d/.r", "d/e/a.rb", "d/e/b", "d/e/g/b.rb", ".h/a", ".h/b.rb",
    "x.y/a", "d/.i/b.rb",
];

fn glob(pat: &str) -> Vec<String> {
    let comps: Vec<&str> = pat.split('/').collect();
    fn go(dir: &str, c: &[&str], out: &mut Vec<String>) {
        let kids = |dir: &str| -> Vec<(String, bool)> {
            let mut o = vec![];
            for (l, d) in [(DIRS, true), (FILES, false)] {
                for e in l {
                    let (p, n) = match e.rfind('/') {
                        Some(i) => (&e[..i], &e[i + 1..]),
                        None => ("", *e),
                    };
                    if p == dir {
                        o.push((n.to_string(), d));
                    }
                }
            }
            o
        };
        let path = |n: &str| if dir.is_empty() { n.to_string() } else { format!("{dir}/{n}") };
        if c[0] == "**" && c.len() > 1 {
            go(dir, &c[1..], out);
            for (n, d) in kids(dir) {
                if d && !n.starts_with('.') {
                    go(&path(&n), c, out);
                }
            }
            return;
        }
        for (n, d) in kids(dir) {
            if fnmatch(c[0].as_bytes(), n.as_bytes(), true) {
                if c.len() == 1 {
                    out.push(path(&n));
                } else if d {
                    go(&path(&n), &c[1..], out);
                }
            }
        }
    }
    let mut out = vec![];
    go("", &comps, &mut out);
    out.sort();
    out.dedup();
    out
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "))
}

fn paths(thorough: bool) -> Vec<String> {
    let atoms = ["", "a", "b.rb", ".", "..", ".h", "a.b.c", "..x", ".r.rb", "b.", "~"];
    let mut o: Vec<String> = atoms.iter().map(|s| s.to_string()).collect();
    let mut last = o.clone();
    for n in 0..3 {
        let at = if n == 2 && !thorough { &atoms[..5] } else { &atoms[..] };
        let mut next = vec![];
        for l in &last {
            for a in at {
                next.push(format!("{l}/{a}"));
            }
        }
        o.extend(next.iter().cloned());
        last = next;
    }
    o.push("日本/é.rb".into());
    o.push("a b/c d.txt".into());
    o
}

/// Histories of writes and reads, every file under all its names.
fn histories(thorough: bool) -> Vec<Case> {
    // the names of two files
    let names = [
        vec!["\"fZZ\"", "\"./fZZ\"", "\"d/../fZZ\"", "Dir.pwd + \"/fZZ\"", "\"d/e/../../fZZ\"", "\".//fZZ\""],
        vec!["\"d/fZZ\"", "\"./d/fZZ\"", "\"d/e/../fZZ\"", "Dir.pwd + \"/d/fZZ\"", "\"d//fZZ\"", "\"l/fZZ\""],
        vec!["\"d/e/f ZZ.é\"", "\"d/./e/f ZZ.é\"", "\"l/e/f ZZ.é\"", "\"m/../e/f ZZ.é\""],
    ];
    let texts = ["", "x", "a\nb", "a\n\nb", "日本\n", "q\"\\\t", "\u{0}z"];
    let mut o = vec![];
    let mut add = |ops: &[(usize, usize, usize)]| {
        let mut st: [Option<&str>; 3] = [None; 3];
        let mut code = String::new();
        let mut exp = String::new();
        for (f, n, t) in ops {
            let name = names[*f][*n % names[*f].len()];
            code += &format!("p File.write({name}, {})\n", q(texts[*t]));
            exp += &format!("{}\n", texts[*t].len());
            st[*f] = Some(texts[*t]);
            for (i, ns) in names.iter().enumerate() {
                let alt = ns[(*n + 1 + i) % ns.len()];
                match st[i] {
                    None => {}
                    Some(t) => {
                        code += &format!("p File.read({alt}) == {t}, File.read({alt}).class, File.binread({alt}).bytes == {t}.bytes, File.readlines({alt}).join(\"\\n\") == {t}, File.readlines({alt}).size, File.exist?({alt}), File.file?({alt}), File.directory?({alt})\n", t = q(t));
                        exp += &format!("true\nString\ntrue\ntrue\n{}\ntrue\ntrue\nfalse\n", t.split('\n').count());
                    }
                }
            }
        }
        // each case has files of its own
        let code = code.replace("ZZ", &format!("{}", o.len()));
        o.push(Case::f(code + "nil", exp + "nil"));
    };
    for n in 0..6 {
        for t in 0..texts.len() {
            for f in 0..3 {
                add(&[(f, n, t)]);
            }
        }
    }
    let d = if thorough { 3 } else { 2 };
    let mut all = vec![vec![]];
    for _ in 0..d {
        let mut next = vec![];
        for a in &all {
            for f in 0..3 {
                for n in [0, 2, 5] {
                    for t in if thorough { vec![0, 1, 3, 5] } else { vec![0, 2, 3, 5] } {
                        let mut a: Vec<(usize, usize, usize)> = a.clone();
                        a.push((f, n, t));
                        next.push(a);
                    }
                }
            }
        }
        all = next;
        for a in &all {
            if a.len() > 1 {
                add(a);
            }
        }
    }
    o
}

fn runner<'a>(ctx: &'a mut Ctx, d: &std::path::Path) -> Runner<'a> {
    let mut r = Runner::new(ctx);
    r.cwd = Some(d.to_string_lossy().to_string());
    r.batch(100)
}

pub fn run(ctx: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("mc-c27-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = dir.canonicalize().unwrap();
    let cwd = dir.join("t");
    std::fs::create_dir_all(&cwd).unwrap();
    for d in DIRS {
        std::fs::create_dir_all(cwd.join(d)).unwrap();
    }
    for f in FILES {
        std::fs::write(cwd.join(f), f).unwrap();
    }
    // another directory for histories, which has symbolic links
    let hist = dir.join("h");
    std::fs::create_dir_all(hist.join("d/e/g")).unwrap();
    std::os::unix::fs::symlink("d", hist.join("l")).unwrap();
    std::os::unix::fs::symlink("d/e", hist.join("m")).unwrap();
    let c = cwd.to_string_lossy().to_string();
    let home = std::env::var("HOME").unwrap_or_else(|_| "/root".into());

    ctx.section("paths of up to four components");
    let ps = paths(ctx.thorough);
    ctx.bound("paths", ps.len());
    let mut cs = vec![];
    for p in &ps {
        let s = q(p);
        cs.push(Case::f(format!("[File.basename({s}), File.dirname({s}), File.extname({s})]"), list(&[basename(p), dirname(p), extname(p)])));
        cs.push(Case::f(format!("File.expand_path({s})"), format!("{:?}", expand(p, &c, &home))));
    }
    let bases = ["", "a", ".", "..", "/", "/a/b", "a/../b", "/a/..", "d/", "~"];
    for b in bases {
        for p in ps.iter().take(300) {
            let e = expand(p, &expand(b, &c, &home), &home);
            cs.push(Case::f(format!("File.expand_path({}, {})", q(p), q(b)), format!("{e:?}")));
        }
    }
    runner(ctx, &cwd).run(cs.into_iter());

    ctx.section("joins of up to four parts");
    let parts = ["", "a", "/", "/b", "c/", "/d/", "e//", "//f", ".", ".."];
    let mut cs = vec![Case::f("File.join", "\"\""), Case::f("File.join([])", "\"\"")];
    for a in parts {
        cs.push(Case::f(format!("File.join({})", q(a)), format!("{:?}", join(&[a]))));
        for b in parts {
            cs.push(Case::f(format!("File.join({}, {})", q(a), q(b)), format!("{:?}", join(&[a, b]))));
            for d in parts {
                cs.push(Case::f(format!("File.join({}, {}, {})", q(a), q(b), q(d)), format!("{:?}", join(&[a, b, d]))));
                cs.push(Case::f(format!("File.join({}, [{}, {}])", q(a), q(b), q(d)), format!("{:?}", join(&[a, &join(&[b, d])]))));
                cs.push(Case::f(format!("File.join([{}, [{}]], {})", q(a), q(b), q(d)), format!("{:?}", join(&[&join(&[a, b]), d]))));
                if ctx.thorough {
                    for e in parts {
                        cs.push(Case::f(format!("File.join({}, {}, {}, {})", q(a), q(b), q(d), q(e)), format!("{:?}", join(&[a, b, d, e]))));
                    }
                }
            }
        }
    }
    runner(ctx, &cwd).run(cs.into_iter());

    ctx.section("questions about what exists");
    let mut cs = vec![];
    for p in ps.iter().chain(&DIRS.iter().chain(FILES).map(|s| s.to_string()).collect::<Vec<_>>()) {
        if p.starts_with('/') || p.contains('~') || p.contains("..") && p.matches("..").count() > 1 {
            continue;
        }
        // what the system says about the path
        let m = if p.is_empty() { None } else { std::fs::metadata(cwd.join(p)).ok() };
        let (e, f, d) = (m.is_some(), m.as_ref().map_or(false, |m| m.is_file()), m.as_ref().map_or(false, |m| m.is_dir()));
        let s = q(p);
        cs.push(Case::f(format!("[File.exist?({s}), File.file?({s}), File.directory?({s}), Dir.exist?({s})]"), format!("[{e}, {f}, {d}, {d}]")));
        let r = match std::fs::read_to_string(cwd.join(p)) {
            Ok(t) if !p.is_empty() => format!("[{t:?}, {t:?}, [{t:?}]]"),
            _ => "true".into(),
        };
        cs.push(Case::f(format!("begin; [File.read({s}), File.binread({s}), File.readlines({s})]; rescue => e; e.is_a?(StandardError); end"), r));
        let r = match cwd.join(p).canonicalize() {
            Ok(t) if !p.is_empty() => format!("{:?}", t.to_string_lossy()),
            _ => "true".into(),
        };
        cs.push(Case::f(format!("begin; File.realpath({s}); rescue => e; e.is_a?(StandardError); end"), r));
    }
    runner(ctx, &cwd).run(cs.into_iter());

    ctx.section("patterns of up to three components");
    let comps = ["a", "*", "*.rb", "a*", "?", "??", "b.rb", "**", "d", ".*b", ".h", "*b*", "a+b", "*.*", "a.b.c", "a(b", ".r*", "e"];
    let mut pats: Vec<String> = comps.iter().map(|s| s.to_string()).collect();
    for a in comps {
        for b in comps {
            pats.push(format!("{a}/{b}"));
            for d in comps {
                if ctx.thorough || a == "**" || b == "**" {
                    pats.push(format!("{a}/{b}/{d}"));
                }
            }
        }
    }
    ctx.bound("patterns", pats.len());
    let mut cs = vec![];
    for p in &pats {
        if p.contains("**/**") {
            continue;
        }
        let e = list(&glob(p));
        cs.push(Case::f(format!("Dir.glob({}).sort", q(p)), e.clone()));
        cs.push(Case::f(format!("Dir[{}].sort", q(p)), e));
        let abs: Vec<_> = glob(p).iter().map(|s| format!("{c}/{s}")).collect();
        cs.push(Case::f(format!("Dir[Dir.pwd + {}].sort", q(&format!("/{p}"))), list(&abs)));
    }
    cs.push(Case::f("Dir.pwd", format!("{c:?}")));
    runner(ctx, &cwd).run(cs.into_iter());

    ctx.section("histories of writes and reads through all names of the files");
    let hs = histories(ctx.thorough);
    runner(ctx, &hist).run(hs.into_iter());

    // bytes which are not text
    ctx.section("bytes");
    let mut cs = vec![];
    for b in 0..256 {
        std::fs::write(hist.join(format!("byte{b}")), [b as u8, 65, b as u8]).unwrap();
        cs.push(Case::f(
            format!("[File.binread(\"byte{b}\").bytes, File.read(\"byte{b}\").bytes, File.write(\"copy{b}\", File.binread(\"byte{b}\")), File.binread(\"copy{b}\").bytes]"),
            format!("[[{b}, 65, {b}], [{b}, 65, {b}], 3, [{b}, 65, {b}]]"),
        ));
    }
    runner(ctx, &hist).run(cs.into_iter());
    let _ = std::fs::remove_dir_all(&dir);
}
