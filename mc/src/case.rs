//! Cases: a program fragment and the observation the reference model prescribes for it.
use crate::report::Ctx;
use crate::worker::{run_pool, Gc, Outcome, Req, Status};

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    /// the code is the body of a method; what it prints, then its value's inspect, is observed
    Fn,
    /// the code runs at top level in a begin/rescue; what it prints is observed
    Top,
    /// the code is a program of its own; what it prints (and how it ends) is observed
    Raw,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub key: String,
    pub code: String,
    pub expect: Vec<String>,
    pub mode: Mode,
}

impl Case {
    pub fn f(code: impl Into<String>, expect: impl Into<String>) -> Case {
        let code = code.into();
        Case {
            key: code.clone(),
            code,
            expect: vec![expect.into()],
            mode: Mode::Fn,
        }
    }
    pub fn top(code: impl Into<String>, expect: impl Into<String>) -> Case {
        let mut c = Case::f(code, expect);
        c.mode = Mode::Top;
        c
    }
    pub fn raw(code: impl Into<String>, expect: impl Into<String>) -> Case {
        let mut c = Case::f(code, expect);
        c.mode = Mode::Raw;
        c
    }
    pub fn key(mut self, k: impl Into<String>) -> Case {
        self.key = k.into();
        self
    }
}

/// Expected text meaning: any outcome but a crash of the interpreter.
pub const ANY: &str = "<any outcome but a crash>";
/// Expected text: any Ruby exception
pub const ANYERR: &str = "<raises>";

fn accepts(expect: &[String], got: &str) -> bool {
    expect.iter().any(|e| {
        e == got
            || (e == ANY && !got.starts_with("<crash"))
            || (e == ANYERR && got.contains("!") && !got.starts_with("<crash"))
            || (e.ends_with(ANYERR)
                && got.len() > e.len() - ANYERR.len()
                && got.starts_with(&e[..e.len() - ANYERR.len()])
                && got[e.len() - ANYERR.len()..].starts_with('!'))
    })
}

fn wrap(c: &Case, n: usize) -> String {
    let code = c.code.replace("ZZ", &n.to_string());
    match c.mode {
        Mode::Fn => format!(
            "print \"\\n\\x01{n}:\"\nbegin\ndef __c{n}\n{code}\nend\n__v = __c{n}\nprint __v.inspect\nrescue Exception => __e\nprint \"!\", __e.class\nend\nprint \"\\x02\"\n"
        ),
        Mode::Top => format!(
            "print \"\\n\\x01{n}:\"\nbegin\n{code}\nrescue Exception => __e\nprint \"!\", __e.class\nend\nprint \"\\x02\"\n"
        ),
        Mode::Raw => code,
    }
}

fn parse(out: &str) -> std::collections::HashMap<usize, String> {
    let mut m = std::collections::HashMap::new();
    for part in out.split("\n\x01").skip(1) {
        if let Some((n, rest)) = part.split_once(':') {
            if let (Ok(n), Some(end)) = (n.parse::<usize>(), rest.rfind('\x02')) {
                m.insert(n, rest[..end].to_string());
            }
        }
    }
    m
}

fn single_obs(c: &Case, o: &Outcome) -> String {
    let crash = match &o.status {
        Status::Ok => None,
        Status::Err(e) => {
            if c.mode == Mode::Raw {
                return format!("{}!{}", o.text(), e);
            }
            Some(format!("<not run: {}>", e))
        }
        s => Some(format!("<crash: {}>", s.show())),
    };
    if let Some(c) = crash {
        return c;
    }
    if c.mode == Mode::Raw {
        return o.text();
    }
    let m = parse(&o.text());
    m.get(&0)
        .cloned()
        .unwrap_or_else(|| format!("<no record: {}>", o.text()))
}

pub struct Runner<'a> {
    pub ctx: &'a mut Ctx,
    pub prelude: String,
    pub batch: usize,
    pub gc: Gc,
    pub cpu_s: u32,
    pub stop_after: usize,
    pub cwd: Option<String>,
}

impl<'a> Runner<'a> {
    pub fn new(ctx: &'a mut Ctx) -> Runner<'a> {
        Runner {
            ctx,
            prelude: String::new(),
            batch: 200,
            gc: Gc::default(),
            cpu_s: 20,
            stop_after: if std::env::var_os("MC_ALL").is_some() { 1 << 40 } else { 200 },
            cwd: None,
        }
    }
    pub fn prelude(mut self, p: &str) -> Self {
        self.prelude = p.to_string();
        self
    }
    pub fn batch(mut self, n: usize) -> Self {
        self.batch = n;
        self
    }
    fn req(&self, script: String) -> Req {
        Req {
            scripts: vec![script],
            gc: self.gc.clone(),
            cpu_s: self.cpu_s,
            cwd: self.cwd.clone(),
            ..Default::default()
        }
    }

    pub fn run(self, cases: impl Iterator<Item = Case> + Send) {
        let mut cases = cases.peekable();
        let batch = self.batch.max(1);
        let proto = self.req(String::new());
        let prelude = self.prelude.clone();
        let mk = |script: String| {
            let mut r = proto.clone();
            r.scripts = vec![script];
            r
        };
        let retry: std::sync::Mutex<Vec<Case>> = std::sync::Mutex::new(vec![]);
        let stop = std::sync::atomic::AtomicBool::new(false);
        let stop_after = self.stop_after;
        let ctx = self.ctx;
        // Failing members of a batch: rerun alone.
        let mut suspects: Vec<(Case, String, String)> = vec![];
        {
            let ctx = &mut *ctx;
            let suspects = &mut suspects;
            run_pool(
                || {
                    use std::sync::atomic::Ordering::Relaxed;
                    if stop.load(Relaxed) {
                        return None;
                    }
                    let mut v: Vec<Case> = vec![];
                    while v.len() < batch {
                        match cases.peek() {
                            None => break,
                            Some(c) => {
                                if c.mode == Mode::Raw && !v.is_empty() {
                                    break;
                                }
                                let c = cases.next().unwrap();
                                let raw = c.mode == Mode::Raw;
                                v.push(c);
                                if raw {
                                    break;
                                }
                            }
                        }
                    }
                    if v.is_empty() {
                        return None;
                    }
                    let mut s = prelude.clone();
                    s.push('\n');
                    for (i, c) in v.iter().enumerate() {
                        s.push_str(&wrap(c, i));
                    }
                    let r = mk(s);
                    Some((v, r))
                },
                |v, req, o| {
                    ctx.executions += 1;
                    if v.len() == 1 && v[0].mode == Mode::Raw {
                        let c = &v[0];
                        let got = single_obs(c, &o);
                        if accepts(&c.expect, &got) {
                            ctx.agree(&c.key, &c.expect[0], &got);
                        } else {
                            ctx.disagree(
                                &c.key,
                                &req.scripts[0],
                                "raw",
                                &c.expect.join("\n--- or\n"),
                                &got,
                            );
                            if ctx.viol_total as usize >= stop_after {
                                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                        return;
                    }
                    let m = parse(&o.text());
                    let whole = o.status == Status::Ok;
                    for (i, c) in v.into_iter().enumerate() {
                        match m.get(&i) {
                            Some(got) if accepts(&c.expect, got) => {
                                ctx.agree(&c.key, &c.expect[0], got)
                            }
                            Some(got) => suspects.push((c, req.scripts[0].clone(), got.clone())),
                            None => {
                                if whole {
                                    suspects.push((c, req.scripts[0].clone(), "<no record>".into()))
                                } else {
                                    retry.lock().unwrap().push(c)
                                }
                            }
                        }
                    }
                    if suspects.len() >= stop_after {
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                },
            );
        }
        // Cases whose batch did not complete: alone.
        let mut retry = retry.into_inner().unwrap();
        let mut alone: Vec<(Case, Option<(String, String)>)> = suspects
            .into_iter()
            .map(|(c, s, g)| (c, Some((s, g))))
            .collect();
        if alone.len() > stop_after {
            alone.truncate(stop_after);
        }
        alone.extend(retry.drain(..).map(|c| (c, None)));
        let mut results: Vec<(Case, Option<(String, String)>, String, String)> = vec![];
        {
            let mut it = alone.into_iter();
            let results = &mut results;
            let ctx = &mut *ctx;
            let stopped = std::sync::atomic::AtomicUsize::new(0);
            run_pool(
                || {
                    if stopped.load(std::sync::atomic::Ordering::Relaxed) > stop_after * 2 {
                        return None;
                    }
                    let (c, b) = it.next()?;
                    let r = mk(format!("{}\n{}", prelude, wrap(&c, 0)));
                    Some(((c, b), r))
                },
                |(c, b), req, o| {
                    ctx.executions += 1;
                    let got = single_obs(&c, &o);
                    if !accepts(&c.expect, &got) {
                        stopped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    results.push((c, b, req.scripts[0].clone(), got));
                },
            );
        }
        results.sort_by(|a, b| (a.0.key.len(), &a.0.key).cmp(&(b.0.key.len(), &b.0.key)));
        for (c, b, script, got) in results {
            if !accepts(&c.expect, &got) {
                ctx.disagree(&c.key, &script, "single", &c.expect.join("\n--- or\n"), &got);
            } else {
                match b {
                    None => ctx.agree(&c.key, &c.expect[0], &got),
                    // Right alone, wrong after other cases ran before it: still a wrong execution.
                    Some((bs, bg)) => ctx.disagree(
                        &format!("{} (after other programs)", c.key),
                        &bs,
                        "batch",
                        &c.expect.join("\n--- or\n"),
                        &bg,
                    ),
                }
            }
        }
    }
}

/// Re-execute a replay file; true if the observed behaviour is still wrong.
pub fn replay(path: &str) -> bool {
    let t = std::fs::read_to_string(path)
        .unwrap_or_else(|e| crate::report::engine_error(&format!("{}: {}", path, e)));
    let get = |a: &str, b: &str| -> String {
        let s = t.find(a).map(|i| i + a.len()).unwrap_or(0);
        let e = t[s..].find(b).map(|i| i + s).unwrap_or(t.len());
        t[s..e].to_string()
    };
    let script = get("=== script\n", "\n=== expected\n");
    let expect = get("=== expected\n", "\n=== observed\n");
    let observed = get("=== observed\n", "\n=== end\n");
    let setup = get("\nsetup ", "\n");
    println!("--- script\n{}\n--- expected\n{}\n--- observed then\n{}", script, expect, observed);
    if setup == "alloc" {
        let r = crate::props::c02::replay_alloc(&script);
        println!("--- observed now\n{r:?}");
        return r.is_err();
    }
    let mut req = Req {
        scripts: script.split("\n=== next\n").map(|s| s.to_string()).collect(),
        cpu_s: 60,
        ..Default::default()
    };
    for w in setup.split(' ') {
        if let Some(p) = w.strip_prefix("gc=") {
            req.gc.controlled = true;
            req.gc.quarantine = true;
            req.gc.final_gc = true;
            if p == "every" {
                req.gc.every = true
            } else {
                req.gc.points = p.split(',').filter_map(|x| x.parse().ok()).collect();
            }
        }
        if w == "repl" {
            req.repl = true
        }
        if w == "shell" {
            req.shell = true
        }
        if w == "live" {
            req.live_probe = true
        }
        if w == "front" {
            req.front = true
        }
    }
    let mut w = crate::worker::Worker::spawn();
    let o = w.run(&req);
    println!("--- observed now ({})\n{}", o.status.show(), o.text());
    let ok = if setup.contains("shell") {
        let got = crate::props::c26::shell_text(&o.text());
        println!("{got}");
        expect == got
    } else if setup == "front" {
        let got = o.results.first().cloned().flatten().unwrap_or_else(|| o.status.show());
        println!("{got}");
        expect == got || expect.split(", ").any(|e| e.split(" or ").any(|e| e == got))
    } else if setup == "crash" {
        crate::props::c24::healthy(&o)
    } else if setup == "live" {
        println!("live objects {:?}", o.live);
        let base = o.live.get(2).copied().unwrap_or(0) as i64;
        let d: Vec<i64> = o.live.iter().skip(3).map(|x| *x as i64 - base).collect();
        if expect.starts_with("a constant") {
            o.status == Status::Ok && o.live.iter().skip(4).all(|x| *x == o.live[4])
        } else {
            expect == format!("{d:?} {:?}", o.text())
        }
    } else if setup.contains("session") {
        println!("{}", o.session_text());
        expect == o.session_text()
    } else if setup == "single" {
        let m = parse(&o.text());
        m.get(&0).map(|g| expect.split("\n--- or\n").any(|e| accepts(&[e.to_string()], g))).unwrap_or(false)
    } else {
        o.status == Status::Ok && expect.split("\n--- or\n").any(|e| e == o.text())
    };
    !ok
}
