//! C24: no call of a built-in method can do anything but return or raise.
//!
//! The methods are asked of the interpreter itself (`methods`, `singleton_methods`), so a method
//! that is added is covered as well. Every method is called on every receiver of its type with
//! every tuple of argument values up to a length, with and without blocks.
use crate::report::Ctx;
use crate::worker::*;

const VALUES: &[&str] = &[
    "nil", "true", "0", "1", "-1", "3", "4611686018427387903", "-4611686018427387904", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "-18446744073709551617", "1.5", "-0.0", "(0.0/0.0)",
    "(1.0/0.0)", "1e300", "\"\"", "\"abc\"", "\"\u{3042}b\"", ":sym", "[]", "[1, \"a\", nil]", "[[1, 2], [3]]", "{}", "{a: 1, 2 => [3]}", "(1..3)", "(3...-1)", "(\"a\"..\"c\")", "(nil..nil)",
    "Object.new", "Class.new", "Module.new", "Comparable", "lambda { |x| x }", "proc { |x, y| y }", "/a(.)/", "Struct.new(:a).new(1)", "ArgumentError.new(\"m\")", "Complex(1, 2)", "1.method(:+)",
    "Array.instance_method(:size)", "[1].each", "Fiber.new { |x| Fiber.yield x; 2 }", "Time.now", "$stdout", "binding", "OBJ", "BAD", "REC", "RECH", "\"a\\0b\"", "0.1", "255", "64", "-64", "\"%d %s\"", "\"-12ab\"",
];

/// The most telling ones, for longer tuples.
const FEW: &[&str] = &["nil", "0", "1", "-1", "4611686018427387903", "18446744073709551616", "1.5", "\"abc\"", "\"\"", ":sym", "[1, \"a\", nil]", "{a: 1, 2 => [3]}", "(1..3)", "OBJ", "BAD", "/a(.)/", "(3...-1)", "-3"];
const FEWER: &[&str] = &["nil", "0", "-1", "\"abc\"", "[1, \"a\", nil]", "4611686018427387903"];

/// Values only meant as receivers.
const RECEIVERS: &[&str] = &[
    "false", "2", "-7", "2.5", "[3, 1, 2]", "[\"b\", \"a\"]", "[nil, true]", "\"a b,c\\n\"", "\"xyz\".freeze", "{\"k\" => 1, 1.5 => nil}", "(1...1)", "(-2..2)", "(1.5..2.5)", "Struct.new(:a, :b).new", "RuntimeError.new", "[1, 2].each_with_index",
    "EN", "FD", "[1, 2].method(:map)", "lambda { }", ":+", "[[[]]]", "(\"a\"..\"zz\")", "Class.new(Array)", "Class.new(Array).new", "Class.new(String).new(\"q\")", "Class.new(Hash).new", "Module.new",
];

/// Called through the class or module itself.
const SINGLETONS: &[&str] = &[
    "Array", "Hash", "String", "Integer", "Float", "Range", "Regexp", "Struct", "Proc", "Method", "Exception", "ArgumentError", "Class", "Module", "Object", "Comparable", "Kernel", "Math", "File", "Dir", "IO", "GC", "Process", "Time", "Complex",
    "Fiber", "Enumerator", "Symbol", "NilClass", "TrueClass", "FalseClass", "Numeric", "BasicObject", "Binding", "UnboundMethod", "StopIteration",
];

/// What would end, block or leave the process, or loads programs.
const LEAVE_OUT: &[&str] = &["exit", "exit!", "abort", "sleep", "gets", "`", "irb", "system", "exec", "fork", "require", "require_relative", "load", "trap", "loop"];

/// Receivers of the methods every object has.
const COMMON: &[&str] = &["nil", "1", "\"abc\"", "[1, \"a\", nil]", "{a: 1, 2 => [3]}", "Object.new", "Class.new", "BAD", "REC", "Fiber.new { |x| Fiber.yield x; 2 }"];

/// Methods of Object that many classes have their own versions of.
const SPECIFIC: &[&str] = &["inspect", "to_s", "==", "===", "!=", "=~", "<=>", "eql?", "equal?", "dup", "clone", "freeze", "class", "singleton_class", "method"];

const PRELUDE: &str = r#"
OBJ = Object.new
BAD = Class.new do
  def to_s; raise "to_s"; end
  def inspect; 5; end
  def ==(o); raise "=="; end
  def <=>(o); "x"; end
  def each; yield; 3; end
  def to_proc; 7; end
  def to_ary; 8; end
  def hash; nil; end
  def coerce(o); 9; end
  def call(*a); 10; end
  def ===(o); nil; end
end.new
REC = [1]; REC << REC
RECH = {a: 1}; RECH[:b] = RECH
EN = [1, 2, 3].each; EN.next
FD = Fiber.new { 1 }; FD.resume
"#;

const HEALTH: &str = r#"
GC.start
print "\x01", [[1, 2, 3].map { |x| x * 2 }, {b: 2, a: 1}.sort, "a-b".split("-"), [1, 2, 3, 4].inject(0) { |a, x| a + x }, [3, 1, 2].sort, "%03d" % 7, [1, [2]].flatten].inspect
f = Fiber.new { |x| x = Fiber.yield x + 1; x * 2 }
print f.resume(1), f.resume(4), begin; Integer("z"); rescue ArgumentError; :no; end, 12345678901234567890 * 3, :ok
"#;
const HEALTHY: &str = "\x01[[2, 4, 6], [[:a, 1], [:b, 2]], [\"a\", \"b\"], 10, [1, 2, 3], \"007\", [1, 2]]28no37037036703703703670ok";

#[derive(Clone, Debug)]
struct Job {
    recv: String,
    method: String,
    /// argument values as indexes into the table, one list for each call
    tuples: std::sync::Arc<Vec<Vec<String>>>,
    lo: usize,
    hi: usize,
    /// how the block is passed
    mode: usize,
    /// the batch that failed and which this one is a half of
    parent: Option<usize>,
}

/// A batch of calls that failed, although no half of it may fail.
struct Failed {
    has_failed_half: bool,
    key: String,
    script: String,
    got: String,
    timeout: bool,
}

const MODES: &[&str] = &["", " { |*x| N[0] += 1; raise StopIteration, \"x\" if N[0] > 4; x[0] }", ", &:size", ", &LAM", " { |a, b| break 1 }", " { |a| next a <=> 1 }", ", &BAD", ", k: 1", ", &nil", " { |x, *y| x.clear if x.respond_to?(:clear); true }"];

fn program(j: &Job) -> String {
    let mut s = format!("{PRELUDE}LAM = lambda {{ |x| x }}\nN = [0]\nT = {{}}\n");
    let direct = j.method.chars().next().unwrap().is_alphabetic() && !j.method.ends_with('=') && !["class", "then", "end", "begin"].contains(&j.method.as_str());
    s.push_str("def chk(v)\n  v.inspect\n  T[v.class] = true\nend\n");
    for t in &j.tuples[j.lo..j.hi] {
        let args = t.join(", ");
        let (block_arg, block) = if MODES[j.mode].starts_with(',') { (&MODES[j.mode][2..], "") } else { ("", MODES[j.mode]) };
        let all = [args.as_str(), block_arg].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(", ");
        let call = if direct {
            format!("({}).{}({all}){block}", j.recv, j.method)
        } else {
            format!("({}).__send__(:{:?}{}{all}){block}", j.recv, j.method, if all.is_empty() { "" } else { ", " })
        };
        s.push_str(&format!("N[0] = 0; begin; chk({call}); rescue Exception => e; e.message; T[e.class] = true; end\n"));
    }
    s.push_str("print \"\\x02\", T.keys.inspect\n");
    s.push_str(HEALTH);
    s
}

fn tuples(thorough: bool) -> Vec<Vec<String>> {
    let s = |x: &str| x.to_string();
    let mut v: Vec<Vec<String>> = vec![vec![]];
    v.extend(VALUES.iter().map(|a| vec![s(a)]));
    let second: &[&str] = if thorough { VALUES } else { FEWER };
    let first: &[&str] = if thorough { VALUES } else { FEW };
    for a in first {
        for b in second {
            v.push(vec![s(a), s(b)]);
        }
    }
    let few: &[&str] = if thorough { &FEW[..12] } else { &FEWER[..3] };
    for a in few {
        for b in few {
            for c in few {
                v.push(vec![s(a), s(b), s(c)]);
            }
        }
    }
    v.push(vec![s("1"); 4]);
    v.push(vec![s("1"); 5]);
    v.push(vec![s("*[1, 2]"), s("*nil")]);
    v.push(vec![s("*(1..300).to_a")]);
    v
}

fn run_jobs(ctx: &mut Ctx, jobs: Vec<Job>) {
    let todo = std::sync::Mutex::new(jobs);
    let dir = std::env::temp_dir().join(format!("mc-c24-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let cwd = dir.to_string_lossy().into_owned();
    let mut bad: Vec<(String, String, String)> = vec![];
    let mut batches: Vec<Failed> = vec![];
    run_pool(
        || {
            let j = todo.lock().unwrap().pop()?;
            Some((j.clone(), Req { scripts: vec![program(&j)], cpu_s: if j.hi - j.lo > 1 { 4 } else { 2 }, cwd: Some(cwd.clone()), ..Req::default() }))
        },
        |j, req, o: Outcome| {
            ctx.executions += 1;
            let out = o.text();
            let fine = o.status == Status::Ok && out.rsplit('\x01').next().map_or(false, |t| format!("\x01{t}") == HEALTHY);
            if fine {
                ctx.states += (j.hi - j.lo) as u64;
                ctx.transitions += (j.hi - j.lo) as u64;
                let kinds = out.rsplit('\x02').next().unwrap_or("").split('\x01').next().unwrap_or("").to_string();
                let kinds = if kinds.contains("#<") { "anonymous".to_string() } else { kinds };
                for t in &j.tuples[j.lo..j.hi] {
                    ctx.agree(&format!("({}).{}({}){}", j.recv, j.method, t.join(", "), MODES[j.mode]), "", &kinds);
                }
            } else if j.hi - j.lo > 1 {
                if j.hi - j.lo == 1 || j.lo % 700 == 0 && std::env::var("MC_VERBOSE").is_ok() {
                    eprintln!("{} {} {}..{} mode {} {}", j.recv, j.method, j.lo, j.hi, j.mode, o.status.show());
                }
                let mid = (j.lo + j.hi) / 2;
                if let Some(p) = j.parent {
                    batches[p].has_failed_half = true;
                }
                let parent = Some(batches.len());
                batches.push(Failed {
                    has_failed_half: false,
                    key: format!("({}).{} with argument tuples {} to {}{}", j.recv, j.method, j.lo, j.hi, MODES[j.mode]),
                    script: req.scripts[0].clone(),
                    got: o.status.show(),
                    timeout: o.status == Status::Timeout,
                });
                let mut t = todo.lock().unwrap();
                t.push(Job { hi: mid, parent, ..j.clone() });
                t.push(Job { lo: mid, parent, ..j.clone() });
            } else {
                if let Some(p) = j.parent {
                    batches[p].has_failed_half = true;
                }
                ctx.states += 1;
                let m = MODES[j.mode];
                let key = format!("({}).{}({}{})", j.recv, j.method, j.tuples[j.lo].join(", "), m);
                let tail: String = out.rsplit('\x01').next().unwrap_or("").chars().take(200).collect();
                bad.push((key, req.scripts[0].clone(), format!("{} {tail:?}", o.status.show())));
            }
        },
    );
    let _ = std::fs::remove_dir_all(&dir);
    // Calls that fail only one after the other. (The time limit is one for the batch.)
    for b in batches.iter().filter(|b| !b.has_failed_half && !b.timeout) {
        bad.push((b.key.clone(), b.script.clone(), b.got.clone()));
    }
    bad.sort_by_key(|b| (b.0.len(), b.0.clone()));
    for (k, s, g) in bad {
        ctx.disagree(&k, &s, "crash", "returns or raises, and the interpreter works on", &g);
    }
}

/// What `crash` replays check.
pub fn healthy(o: &Outcome) -> bool {
    o.status == Status::Ok && o.text().ends_with(HEALTHY)
}

/// The methods of every receiver, as the interpreter lists them.
fn methods(ctx: &mut Ctx, recvs: &[(String, bool)]) -> Vec<(String, Vec<String>)> {
    let mut it = recvs.iter();
    let mut found: Vec<(String, Vec<String>)> = vec![];
    run_pool(
        || {
            let (r, singleton) = it.next()?;
            let code = format!("{PRELUDE}x = {r}\nputs({})\n", if *singleton { "(x.singleton_methods + [:new, :allocate]).select { |m| x.respond_to?(m) }".to_string() } else { "x.methods".to_string() });
            Some((r.clone(), Req { scripts: vec![code], ..Req::default() }))
        },
        |r, _, o: Outcome| {
            if o.status != Status::Ok {
                crate::report::engine_error(&format!("methods of {r}: {}", o.status.show()));
            }
            let mut m: Vec<String> = o.text().lines().map(|l| l.trim_start_matches(':').to_string()).filter(|l| !LEAVE_OUT.contains(&l.as_str()) && !l.starts_with('/')).collect();
            m.sort();
            m.dedup();
            found.push((r, m));
        },
    );
    found.sort();
    let n: usize = found.iter().map(|f| f.1.len()).sum();
    ctx.bound("receivers", found.len());
    ctx.bound("receiver_method_pairs", n);
    found
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("discovery of methods");
    let mut recvs: Vec<(String, bool)> = VALUES.iter().chain(RECEIVERS).map(|r| (r.to_string(), false)).collect();
    recvs.extend(SINGLETONS.iter().map(|r| (r.to_string(), true)));
    let found = methods(ctx, &recvs);
    ctx.section("every method with every argument tuple");
    let arc = |v: Vec<Vec<String>>| std::sync::Arc::new(v);
    let all = arc(tuples(ctx.thorough));
    let short = arc(all.iter().filter(|t| t.len() < 2).cloned().collect());
    let few = arc(all.iter().filter(|t| t.is_empty() || t.len() == 1 && FEW.contains(&t[0].as_str())).cloned().collect());
    // What every object has is called on a few receivers only, unless the receiver has its own.
    let common: Vec<String> = found.iter().find(|f| f.0 == "Object.new").unwrap().1.clone();
    let mut jobs = vec![];
    for (r, ms) in &found {
        for m in ms {
            if common.contains(m) && !ctx.thorough && !(COMMON.contains(&r.as_str()) || SPECIFIC.contains(&m.as_str())) {
                continue;
            }
            // Ends by itself only for a level that is small.
            if r == "REC" && m.starts_with("flatten") {
                continue;
            }
            for mode in 0..MODES.len() {
                // A block that does not stop the iteration runs on for too long.
                if ["upto", "downto", "step", "times"].contains(&m.as_str()) && [2, 3, 5, 9].contains(&mode) && r != "(3...-1)" {
                    continue;
                }
                let t = match (mode, ctx.thorough) {
                    (0, _) => &all,
                    (_, true) => &short,
                    (_, false) => &few,
                };
                let n = t.len();
                let mut lo = 0;
                while lo < n {
                    let hi = (lo + 700).min(n);
                    jobs.push(Job { recv: r.clone(), method: m.clone(), tuples: t.clone(), lo, hi, mode, parent: None });
                    lo = hi;
                }
            }
        }
    }
    ctx.bound("receiver_method_pairs_called", jobs.iter().map(|j| (&j.recv, &j.method)).collect::<std::collections::BTreeSet<_>>().len());
    eprintln!("{} calls", jobs.iter().map(|j| j.hi - j.lo).sum::<usize>());
    run_jobs(ctx, jobs);
}
