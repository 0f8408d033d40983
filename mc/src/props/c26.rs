//! C26: a session survives errors with its state intact.
use crate::report::Ctx;
use crate::worker::{run_pool, Gc, Outcome, Req, Status};

/// What the session can observe about itself.
#[derive(Clone, Debug, PartialEq)]
struct St {
    x: i64,
    arr: Vec<i64>,
    g: i64,
    m: i64,
    k: i64,
    iv: i64,
    late: Option<i64>,
    /// variable captured by a lambda
    l: i64,
    /// method on top level
    mm: i64,
    /// next value of a suspended fiber
    f: i64,
}

impl St {
    fn new() -> St {
        St { x: 0, arr: vec![], g: 0, m: 0, k: 0, iv: 0, late: None, l: 0, mm: 0, f: 0 }
    }
    fn show(&mut self, repl: bool) -> String {
        let late = self.late.map(|v| v.to_string()).unwrap_or(":none".into());
        let l = if repl { format!("{}, {:?}, ", self.x, self.arr) } else { String::new() };
        self.f += 1;
        format!("[{l}{}, {}, {}, {}, {late}, {}, {}, {}]\n", self.g, self.m, self.k, self.iv, self.l, self.mm, self.f - 1)
    }
}

const INIT: &str = r##"
$g = 0
$arr = []
class K
  @v = 0
  def self.v; @v; end
  def self.v=(n); @v = n; end
  def m; 0; end
  def each; yield 1; yield 2; yield 3; self; end
  def raiser(*a); raise ArgumentError, "r"; end
  def deep(n); n == 0 ? raise(IndexError, "deep") : 1 + deep(n - 1); end
  def dflt(a = raise(TypeError, "d"), b = 2); [a, b]; end
  def ens(v); yield; ensure; $g = v; end
  def eachv(v); $g = v; yield v; $g = v + 1; end
end
@iv = 0
lzz = 0
$l = [lambda { lzz += 1 }, lambda { lzz }]
def mm; 0; end
$f = Fiber.new { n = 0; while true; Fiber.yield n; n += 1; end }
class Bad
  def initialize(*a); raise TypeError, "init" if a.size > 0; end
  def inspect; raise "insp"; end
  def to_s; raise "tos"; end
  def <=>(o); raise IndexError; end
  def ==(o); raise IndexError; end
  def method_missing(n, *a); raise FrozenError, "mm"; end
  def to_proc; 5; end
end
class Bad2 < K
  def raiser(*a); [super]; end
  def deep(n); $g = n; n == 3 ? super(0) : deep(n - 1); end
end
"##;

/// Complete inputs in INIT.
const INIT_INPUTS: usize = 11;

fn probe(repl: bool) -> String {
    format!(
        "p [{}$g, K.new.m, K.v, @iv, (LATE rescue :none), $l[1].call, mm, $f.resume]\n",
        if repl { "x, arr, " } else { "" }
    )
}

/// A computation which uses every part of the machine; its output never changes.
const HEALTH: &str = r##"
def hzz(n, *r, k: 2, &b); b ? b.call(n, k) + r.size : n; end
h = {}
[3, 1, 2].each_with_index { |e, i| h[e] = [i, e.to_s * 2] }
f = Fiber.new { |q| q2 = Fiber.yield(q + 1); q2 * 2 }
e = [4, 5].each
s = begin; Integer("zz"); rescue ArgumentError => er; "resc"; ensure; h[:z] = 1; end
s2 = [9, 7, 8].sort { |a, b| a <=> b }
l = lambda { |a, b = a + 1| return [a, b] }
w = 0
while true
  w += 1
  next if w == 2
  break if w > 3
end
def rzz(n); n == 0 ? 0 : 1 + rzz(n - 1); end
p [hzz(1, 2, 3, k: 4) { |a, b| a + b }, h, f.resume(1), f.resume(5), e.next, e.next, s, s2, l.call(1), w, "a#{1 + 1}b".sub(/(\d)/) { $1 + "x" }, rzz(60), (1..4).map { |v| v * v }]
"##;
const HEALTH_OUT: &str = "[7, {3=>[0, \"33\"], 1=>[1, \"11\"], 2=>[2, \"22\"], :z=>1}, 2, 10, 4, 5, \"resc\", [7, 8, 9], [1, 2], 4, \"a2xb\", 60, [1, 4, 9, 16]]\n";

struct Input {
    src: &'static str,
    /// effects, separated by ';': each `slot` gets V (or `slot+1` V + 1)
    eff: &'static str,
    /// class of the uncaught error, "" when the input completes
    err: &'static str,
    repl_only: bool,
}

const fn i(src: &'static str, eff: &'static str, err: &'static str) -> Input {
    Input { src, eff, err, repl_only: false }
}
const fn r(src: &'static str, eff: &'static str, err: &'static str) -> Input {
    Input { src, eff, err, repl_only: true }
}

fn inputs() -> Vec<Input> {
    vec![
        // `V` is replaced by the number of the input in its session
        // complete
        i("$g = V", "g", ""),
        r("x = V", "x", ""),
        r("arr << V", "arr", ""),
        i("class K; def m; V; end; end", "m", ""),
        i("@iv = V", "iv", ""),
        i("K.v = V", "k", ""),
        i("begin; raise \"a\"; rescue; $g = V; end", "g", ""),
        // straight-line
        i("$g = V; raise \"a\"; $g = 99", "g", "RuntimeError"),
        r("x = V; nosuch; x = 99", "x", "NameError"),
        r("arr << V; arr << nosuch(1)", "arr", "NameError"),
        r("arr << V << (1 / 0)", "arr", "ZeroDivisionError"),
        i("@iv = V; Integer(\"q\"); @iv = 99", "iv", "ArgumentError"),
        i("K.v = V; NoSuchConst", "k", "NameError"),
        // in methods, with temporaries on the stack
        i("p [1, 2, 3, K.new.raiser(4, 5, *[6, 7])]", "", "ArgumentError"),
        i("$g = V; [1, [2, {a: 3, b: K.new.raiser}]]", "g", "ArgumentError"),
        i("K.new.deep(40)", "", "IndexError"),
        i("$g = V; \"a#{1}b#{K.new.deep(3)}c\"", "g", "IndexError"),
        i("K.new.dflt", "", "TypeError"),
        i("K.new.dflt(1, 2, 3)", "", "ArgumentError"),
        i("1 + K.new.eachv(V) { |v| raise FrozenError, \"q\" }", "g", "FrozenError"),
        // in blocks
        r("[1, 2, 3].each { |e| x = V; raise \"b\" if e == 2 }", "x", "RuntimeError"),
        r("K.new.each { |e| arr << V; raise StopIteration if e == 1 }", "arr", "StopIteration"),
        i("[3, 1, 2].sort { |a, b| $g = V; raise TypeError, \"s\" }", "g", "TypeError"),
        i("3.times { |q| [1].map { |w| K.new.each { |e| $g = V; raise \"n\" } } }", "g", "RuntimeError"),
        i("{a: 1}.each { |k, v| @iv = V; raise \"h\" }", "iv", "RuntimeError"),
        i("[1, 2].inject(0) { |a, b| $g = V; a + nil }", "g", "TypeError"),
        i("\"abc\".gsub(/b/) { $g = V; raise \"g\" }", "g", "RuntimeError"),
        i("l = lambda { |a| $g = V; a.nosuch }; l.call(1)", "g", "NameError"),
        i("l = lambda { |a| a }; $g = V; l.call", "g", "ArgumentError"),
        i("[1, 2, 3].map { |e| [e, [1].each { |q| $g = V; raise KeyErr if e == 2 }] }", "g", "NameError"),
        // ensure and rescue
        i("begin; raise \"e\"; ensure; $g = V; end", "g", "RuntimeError"),
        i("begin; raise \"e\"; rescue TypeError; $g = 99; ensure; @iv = V; end", "iv", "RuntimeError"),
        i("begin; raise \"e\"; rescue; K.v = V; raise TypeError, \"f\"; end", "k", "TypeError"),
        i("K.new.ens(V) { raise \"e\" }", "g", "RuntimeError"),
        i("K.new.ens(V) { K.new.ens(98) { raise \"e\" }; $g = 99 }", "g", "RuntimeError"),
        r("begin; begin; x = V; raise \"a\"; ensure; arr << V; end; ensure; raise TypeError; end", "x;arr", "TypeError"),
        // class bodies, definitions
        i("class K; @v = V; raise \"c\"; @v = 99; end", "k", "RuntimeError"),
        i("class K; def m; V; end; nosuch; def m; 99; end; end", "m", "NameError"),
        i("class Integer; $g = V; raise \"c\"; end", "g", "RuntimeError"),
        i("module Q; class << self; $g = V; raise \"c\"; end; end", "g", "RuntimeError"),
        i("class K < String; end", "", "TypeError"),
        // fibers, enumerators
        i("f = Fiber.new { $g = V; raise \"f\" }; f.resume; $g = 99", "g", "RuntimeError"),
        i("f = Fiber.new { Fiber.yield 1; $g = V; nosuch }; f.resume; f.resume", "g", "NameError"),
        i("e = [1].each; e.next; $g = V; e.next", "g", "StopIteration"),
        i("f = Fiber.new { [1, 2].each { |q| Fiber.yield q } }; f.resume; $g = V; raise \"x\"", "g", "RuntimeError"),
        i("f = Fiber.new { 1 }; f.resume; $g = V; f.resume", "g", "FiberError"),
        // eval
        i("eval(\"$g = V; raise 'ev'\")", "g", "RuntimeError"),
        i("$g = V; eval(\"1 +\")", "g", "SyntaxError"),
        r("eval(\"x = V; nosuch\")", "x", "NameError"),
        i("$g = V; eval(\"class K; def m; 99; end; end; )\")", "g", "SyntaxError"),
        // rejected texts execute nothing
        i("$g = V; )", "", "SyntaxError"),
        i("$g = V; class K; def m; 99 end", "", "SyntaxError"),
        r("x = V; if x then", "", "SyntaxError"),
        r("arr << V; [1, 2", "", "SyntaxError"),
        i("class K; def m; V; end; end; end", "", "SyntaxError"),
        i("def K.v; V; end; break", "", "SyntaxError"),
        i("$g = V; \"abc", "", "SyntaxError"),
        i("$g = V; 1 = 2", "", "SyntaxError"),
        i("LATE = V; raise \"l\"", "late", "RuntimeError"),
        i("$g = V; LATE = nosuch", "g", "NameError"),
        // what outlives the failed input
        i("q = V; $l = [lambda { q += 1 }, lambda { q }]; raise \"q\"", "l", "RuntimeError"),
        i("def qz; q = V; $l = [lambda { q += 1 }, lambda { q }]; [1].each { raise \"q\" }; end; qz", "l", "RuntimeError"),
        i("[V].each { |q| $l = [lambda { q += 1 }, lambda { q }]; q.nosuch }", "l", "NameError"),
        i("$l[0].call; nosuch", "l+", "NameError"),
        i("begin; $l[0].call; nosuch; ensure; $l[0].call; end", "l+;l+", "NameError"),
        i("def mm; V; end; mm.nosuch; def mm; 99; end", "mm", "NameError"),
        i("eval(\"def mm; V; end; 1.nosuch\")", "mm", "NameError"),
        i("$f = Fiber.new { n = V; while true; Fiber.yield n; n += 1; end }; nosuch", "f", "NameError"),
        i("$f = Fiber.new { [V, V + 1, V + 2].each { |q| Fiber.yield q }; n = V + 3; loop { Fiber.yield n; n += 1 } }; raise \"f\"", "f", "RuntimeError"),
        // errors raised by what built-in methods call back
        i("$g = V; p Bad.new", "g", "RuntimeError"),
        i("$g = V; \"a#{[1, \"b#{Bad.new}\"]}\"", "g", "RuntimeError"),
        i("$g = V; [1, Bad.new, 3].inspect", "g", "RuntimeError"),
        i("$g = V; [Bad.new, Bad.new].sort", "g", "IndexError"),
        i("$g = V; [1, 2].include?(Bad.new); [Bad.new].include?(1)", "g", "IndexError"),
        i("$g = V; Bad.new(1)", "g", "TypeError"),
        i("$g = V; [0, Bad.new.foo(1, 2)]", "g", "FrozenError"),
        i("Bad2.new.raiser(1, 2) { 3 }", "", "ArgumentError"),
        i("Bad2.new.deep(6)", "g3", "IndexError"),
        i("$g = V; K.new.send(:raiser, 1)", "g", "ArgumentError"),
        i("$g = V; K.new.method(:deep).call(2)", "g", "IndexError"),
        i("$g = V; [1, 2].map(&:nosuch)", "g", "NameError"),
        i("$g = V; case 1; when lambda { |q| q.nosuch } then 2; end", "g", "NameError"),
        i("for qf in [1, 2] do; $g = V; qf.nosuch; end", "g", "NameError"),
        i("a, b = [$g = V, nosuch], 2", "g", "NameError"),
        i("K.new.m(*[1, 2, $g = V])", "g", "ArgumentError"),
        i("while true; $g = V; begin; raise \"w\"; ensure; @iv = V; end; end", "g;iv", "RuntimeError"),
        // other errors
        i("$g = V; nil + 1", "g", "NameError"),
        i("$g = V; raise Class.new(StandardError)", "g", "*"),
        i("$g = V; require \"nosuchfile\"", "g", "LoadError"),
        i("$g = V; [1, 2].first(-1)", "g", "ArgumentError"),
        i("$g = V; Object.new.foo = 3", "g", "NameError"),
        i("$g = V; BasicObject.new.inspect", "g", "NameError"),
    ]
}

fn apply(s: &mut St, eff: &str, v: i64) {
    for e in eff.split(';') {
        match e {
            "" => {}
            "x" => s.x = v,
            "arr" => s.arr.push(v),
            "g" => s.g = v,
            "m" => s.m = v,
            "k" => s.k = v,
            "iv" => s.iv = v,
            "late" => s.late = Some(v),
            "l" => s.l = v,
            "l+" => s.l += 1,
            "mm" => s.mm = v,
            "f" => s.f = v,
            "g3" => s.g = 3,
            _ => unreachable!(),
        }
    }
}

fn sessions(ctx: &mut Ctx, repl: bool, seqs: Vec<Vec<usize>>, gc: Gc) {
    let ins = inputs();
    ctx.states += seqs.len() as u64;
    ctx.transitions += seqs.iter().map(|s| s.len() as u64).sum::<u64>();
    let mut it = seqs.into_iter();
    let mut bad: Vec<(String, String, String, String)> = vec![];
    run_pool(
        || {
            let seq = it.next()?;
            let mut st = St::new();
            let mut scripts = vec![if repl { format!("x = 0; arr = []\n{INIT}") } else { INIT.to_string() }];
            let mut out = String::new();
            let mut res = vec!["ok".to_string()];
            for (n, k) in seq.iter().enumerate() {
                let inp = &ins[*k];
                let v = n as i64 + 1;
                scripts.push(inp.src.replace('V', &v.to_string()));
                apply(&mut st, inp.eff, v);
                res.push(if inp.err.is_empty() { "ok".into() } else { inp.err.into() });
                scripts.push(probe(repl));
                out.push_str(&st.show(repl));
                res.push("ok".into());
            }
            scripts.push(HEALTH.to_string());
            out.push_str(HEALTH_OUT);
            res.push("ok".into());
            scripts.push(probe(repl));
            out.push_str(&st.show(repl));
            res.push("ok".into());
            let key = scripts[1..].iter().step_by(2).take(seq.len()).cloned().collect::<Vec<_>>().join(" // ");
            let exp = format!("{out}-- results: {}", res.join(" "));
            let req = Req { scripts, gc: gc.clone(), repl, cpu_s: 20, ..Req::default() };
            Some(((key, exp), req))
        },
        |(key, exp), req, o: Outcome| {
            ctx.executions += 1;
            let got = o.session_text();
            if matches(&exp, &got) {
                ctx.agree(&key, &exp, &got);
            } else {
                bad.push((key, req.scripts.join("\n=== next\n"), exp, got));
            }
        },
    );
    bad.sort_by_key(|b| (b.0.len(), b.0.clone()));
    for (k, s, e, g) in bad {
        let k = format!("{}{k}", if repl { "" } else { "(programs) " });
        ctx.disagree(&k, &s, &format!("session{}{}", if repl { " repl" } else { "" }, if gc.every { " gc=every" } else { "" }), &e, &g);
    }
}

/// Output of the interactive shell without the values it reports.
pub fn shell_text(out: &str) -> String {
    out.lines().map(|l| if l.starts_with("=> ") { "=>\n".to_string() } else { format!("{l}\n") }).collect()
}

/// The interactive shell itself, reading its standard input.
fn shell(ctx: &mut Ctx, seqs: Vec<Vec<usize>>) {
    let ins = inputs();
    ctx.states += seqs.len() as u64;
    ctx.transitions += seqs.iter().map(|s| s.len() as u64).sum::<u64>();
    let mut it = seqs.into_iter();
    let mut bad: Vec<(String, String, String, String)> = vec![];
    run_pool(
        || {
            let seq = it.next()?;
            let mut st = St::new();
            let mut scripts = vec![format!("x = 0; arr = []{INIT}")];
            // one value per complete input of INIT
            let mut out = format!("=>\n").repeat(1 + INIT_INPUTS);
            for (n, k) in seq.iter().enumerate() {
                let inp = &ins[*k];
                let v = n as i64 + 1;
                scripts.push(inp.src.replace('V', &v.to_string()));
                apply(&mut st, inp.eff, v);
                if inp.err.is_empty() {
                    out.push_str("=>\n");
                }
                scripts.push(probe(true).trim_end().to_string());
                out.push_str(&format!("{}=>\n", st.show(true)));
            }
            scripts.push(format!("begin\n{}\nend", HEALTH.trim()));
            out.push_str(&format!("{HEALTH_OUT}=>\n"));
            scripts.push(probe(true).trim_end().to_string());
            out.push_str(&format!("{}=>\n", st.show(true)));
            let key = format!("(shell) {}", scripts[1..].iter().step_by(2).take(seq.len()).cloned().collect::<Vec<_>>().join(" // "));
            Some(((key, out), Req { scripts, shell: true, cpu_s: 20, ..Req::default() }))
        },
        |(key, exp), req, o: Outcome| {
            ctx.executions += 1;
            let got = shell_text(&o.text());
            if exp == got {
                ctx.agree(&key, &exp, &got);
            } else {
                bad.push((key, req.scripts.join("\n=== next\n"), exp, format!("{got}{}", if o.status == Status::Ok { String::new() } else { o.status.show() })));
            }
        },
    );
    bad.sort_by_key(|b| (b.0.len(), b.0.clone()));
    for (k, s, e, g) in bad {
        ctx.disagree(&k, &s, "shell", &e, &g);
    }
}

fn matches(e: &str, g: &str) -> bool {
    if !e.contains(" *") {
        return e == g;
    }
    let (a, b): (Vec<&str>, Vec<&str>) = (e.split(' ').collect(), g.split(' ').collect());
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || (*x == "*" && *y != "ok"))
}

/// Repeating a failing input any number of times retains nothing.
fn leaks(ctx: &mut Ctx) {
    ctx.section("repeated failing inputs retain no objects");
    let ins = inputs();
    let n = if ctx.thorough { 40 } else { 12 };
    ctx.bound("repetitions of a failing input", n);
    let mut it = (0..ins.len()).filter(|k| !ins[*k].repl_only && ins[*k].err != "SyntaxError" && !ins[*k].src.contains("class ") && !ins[*k].src.contains("eval") && !ins[*k].src.contains("def ") && !ins[*k].src.contains("LATE"));
    let mut bad = vec![];
    run_pool(
        || {
            let k = it.next()?;
            let inp = &ins[k];
            // compiled once, so that only what its executions retain is counted
            let mut scripts = vec![format!("{INIT}\ndef fzz; {}; end", inp.src.replace('V', "5"))];
            for _ in 0..n {
                scripts.push("fzz".into());
            }
            let key = format!("x{n}: {}", inp.src.replace('V', "5"));
            Some((key, Req { scripts, live_probe: true, cpu_s: 20, ..Req::default() }))
        },
        |key, req, o: Outcome| {
            ctx.executions += 1;
            ctx.states += 1;
            ctx.transitions += req.scripts.len() as u64;
            // live counts after each failing input, from the third round on
            let l: Vec<u64> = o.live.iter().skip(3).copied().collect();
            let ok = l.len() == n - 2 && l.windows(2).all(|w| w[0] == w[1]);
            if ok {
                ctx.agree(&key, "constant", "constant");
            } else {
                bad.push((key, req.scripts.join("\n=== next\n"), format!("{:?} {}", l, o.status.show())));
            }
        },
    );
    bad.sort();
    for (k, s, g) in bad {
        ctx.disagree(&k, &s, "session", "a constant number of live objects", &g);
    }
}

pub fn run(ctx: &mut Ctx) {
    let ins = inputs();
    let n = ins.len();
    ctx.bound("kinds of input", n);
    ctx.section("interactive sessions");
    let mut seqs: Vec<Vec<usize>> = (0..n).flat_map(|a| (0..n).map(move |b| vec![a, b])).collect();
    let third: Vec<usize> = if ctx.thorough { (0..n).collect() } else { vec![1] };
    for a in 0..n {
        for b in 0..n {
            for c in &third {
                seqs.push(vec![a, b, *c]);
            }
        }
    }
    ctx.bound("inputs in a session", if ctx.thorough { "every sequence of 3" } else { "every sequence of 2, each also followed by one assignment" });
    sessions(ctx, true, seqs, Gc::default());
    ctx.section("programs run one after another in one interpreter");
    let ok: Vec<usize> = (0..n).filter(|k| !ins[*k].repl_only).collect();
    let mut seqs: Vec<Vec<usize>> = ok.iter().flat_map(|a| ok.iter().map(move |b| vec![*a, *b])).collect();
    if ctx.thorough {
        seqs = ok.iter().flat_map(|a| ok.iter().map(move |b| (*a, *b))).flat_map(|(a, b)| ok.iter().step_by(4).map(move |c| vec![a, b, *c])).collect();
    }
    sessions(ctx, false, seqs, Gc::default());
    ctx.section("sessions with a collection at every safe point");
    let step = if ctx.thorough { 1 } else { 7 };
    let seqs: Vec<Vec<usize>> = (0..n).flat_map(|a| (0..n).step_by(step).map(move |b| vec![a, (a + b) % n])).collect();
    sessions(ctx, true, seqs, Gc { controlled: true, every: true, quarantine: true, ..Gc::default() });
    ctx.section("the interactive shell reading the same sessions");
    // unfinished texts make the shell wait for more
    let whole: Vec<usize> = (0..n).filter(|k| !["if x then", "[1, 2", "\"abc", "m; V end", "m; 99 end"].iter().any(|e| ins[*k].src.ends_with(e))).collect();
    let step = if ctx.thorough { 1 } else { 4 };
    let seqs: Vec<Vec<usize>> = whole.iter().flat_map(|a| whole.iter().step_by(step).map(move |b| vec![*a, *b])).collect();
    shell(ctx, seqs);
    ctx.section("the same failing input over and over");
    // 200 failures in a row, then the session still has its whole stack
    let reps = if ctx.thorough { 2000 } else { 300 };
    ctx.bound("failures in a row", reps);
    sessions(ctx, true, (0..n).map(|a| vec![a; reps]).filter(|v| !inputs()[v[0]].eff.contains("arr")).collect(), Gc::default());
    leaks(ctx);
}
