//! C16: assignments bind the right parts, evaluate each part once and in order, and yield the assigned value.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use num::{Integer, Signed, ToPrimitive};

const PRELUDE: &str = r##"
class O
  def initialize(n); @x = n; end
  def x; $log << :get; @x; end
  def x=(v); $log << :set; @x = v; :unused; end
  def peek; @x; end
end
class Q
  def initialize(n); @v = n; end
  def [](*a); $log << [:idx, *a]; @v; end
  def []=(*a); $log << [:put, *a]; @v = a[-1]; :unused; end
  def peek; @v; end
end
class TA
  def to_ary; [21, 22]; end
end
class SA < Array; end
def x; $sx; end
def x=(v); $sx = v; :unused; end
def r(n, v); $log << n; v; end
def id(x) x end
def three; yield; end
"##;

const NSLOT: usize = 11;
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    A,
    B,
    C,
    I,
    G,
    At,
    SelfAt,
    El,
    ElVar,
    ElNeg,
    H,
    Q2,
    Cv,
}
use T::*;
const ALL: [T; 12] = [A, B, C, I, G, At, SelfAt, El, ElVar, ElNeg, H, Q2];

impl T {
    fn src(self) -> &'static str {
        match self {
            A => "a",
            B => "b",
            C => "c",
            I => "@i",
            G => "$g",
            At => "o.x",
            SelfAt => "self.x",
            El => "v[0]",
            ElVar => "v[j]",
            ElNeg => "v[-1]",
            H => "h[:k]",
            Q2 => "q[1, 2]",
            Cv => "@@c",
        }
    }
    fn slot(self) -> usize {
        match self {
            A => 0,
            B => 1,
            C => 2,
            I => 3,
            G => 4,
            At => 5,
            SelfAt => 6,
            El | ElVar => 7,
            ElNeg => 8,
            H => 9,
            Q2 => 10,
            Cv => 11,
        }
    }
}

#[derive(Clone)]
struct St(Vec<V>);
impl St {
    fn new() -> St {
        St((1..=NSLOT as i64).map(int).collect())
    }
    fn inspect(&self) -> String {
        self.0.iter().map(|v| v.inspect()).collect::<Vec<_>>().join(", ")
    }
}
const INIT: &str = "$log = []\na = 1; b = 2; c = 3; @i = 4; $g = 5; o = O.new(6); $sx = 7; v = [8, 9]; j = 0; h = {k: 10}; q = Q.new(11)\n";
const DUMP: &str = "a, b, c, @i, $g, o.peek, $sx, *v, h[:k], q.peek";

/// Elements of the right side of a multiple assignment.
#[derive(Clone, Debug)]
enum R {
    Read(T),
    V(V),
    Arr(Vec<R>),
    Splat(Box<R>),
    Src(&'static str, V),
}
impl R {
    fn src(&self) -> String {
        match self {
            R::Read(t) => t.src().into(),
            R::V(v) => v.lit(),
            R::Arr(v) => format!("[{}]", v.iter().map(|v| v.src()).collect::<Vec<_>>().join(", ")),
            R::Splat(r) => format!("*{}", r.src()),
            R::Src(s, _) => s.to_string(),
        }
    }
    fn eval(&self, s: &St) -> V {
        match self {
            R::Read(t) => s.0[t.slot()].clone(),
            R::V(v) | R::Src(_, v) => v.clone(),
            R::Arr(v) => arr(list(v, s)),
            R::Splat(_) => unreachable!(),
        }
    }
}
fn list(rs: &[R], s: &St) -> Vec<V> {
    let mut o = vec![];
    for r in rs {
        match r {
            R::Splat(r) => match r.eval(s) {
                V::Arr(a) => o.extend(a),
                V::Nil => {}
                V::Range(a, b, ex) => o.extend((a.i()..b.i() + if ex { 0 } else { 1 }).map(int)),
                V::Hash(h) => o.extend(h.into_iter().map(|(k, v)| arr(vec![k, v]))),
                v => o.push(v),
            },
            r => o.push(r.eval(s)),
        }
    }
    o
}

/// Value and state after `ts = rs`.
fn masgn(ts: &[T], trailing: bool, rs: &[R], st: &mut St) -> V {
    let lone = rs.len() == 1 && !matches!(rs[0], R::Splat(_));
    let val = if lone { rs[0].eval(st) } else { arr(list(rs, st)) };
    if ts.len() == 1 && !trailing {
        st.0[ts[0].slot()] = val.clone();
        return val;
    }
    let parts = match &val {
        V::Arr(a) => a.clone(),
        v => vec![v.clone()],
    };
    for (i, t) in ts.iter().enumerate() {
        st.0[t.slot()] = parts.get(i).cloned().unwrap_or(V::Nil);
    }
    val
}

fn mcase(ts: &[T], trailing: bool, rs: &[R], pos: usize) -> Case {
    let mut s = St::new();
    let v = masgn(ts, trailing, rs, &mut s);
    let l = ts.iter().map(|t| t.src()).collect::<Vec<_>>().join(", ") + if trailing { "," } else { "" };
    let stmt = format!("{l} = {}", rs.iter().map(|r| r.src()).collect::<Vec<_>>().join(", "));
    let (code, exp) = match pos {
        0 => (format!("{stmt}\n[{DUMP}]"), format!("[{}]", s.inspect())),
        1 => (format!("z = ({stmt})\n[z, {DUMP}]"), format!("[{}, {}]", v.inspect(), s.inspect())),
        2 => (format!("z = three do\n{stmt}\nend\n[z, {DUMP}]"), format!("[{}, {}]", v.inspect(), s.inspect())),
        3 => (format!("z = [0, ({stmt}), 1]\n[z[1], {DUMP}]"), format!("[{}, {}]", v.inspect(), s.inspect())),
        4 => (format!("z = if ({stmt}) then 1 else 2 end\n[z, {DUMP}]"), format!("[{}, {}]", if v.truthy() { 1 } else { 2 }, s.inspect())),
        _ => (format!("{stmt} if true\n[{DUMP}]"), format!("[{}]", s.inspect())),
    };
    Case::f(format!("{INIT}{code}"), exp)
}

fn opv(op: &str, l: &V, r: &V) -> Result<V, &'static str> {
    let (a, b) = match (l, r) {
        (V::Int(a), V::Int(b)) => (a, b),
        (V::Str(a), V::Str(b)) if op == "+" => return Ok(st(&format!("{a}{b}"))),
        (V::Arr(a), V::Arr(b)) if op == "+" => return Ok(arr(a.iter().chain(b).cloned().collect())),
        (V::Nil, _) if op == "&" => return Ok(V::False),
        (V::Nil, r) if op == "|" => return Ok(boolean(r.truthy())),
        (V::False, _) if op == "&" => return Ok(V::False),
        (V::False, r) if op == "|" => return Ok(boolean(r.truthy())),
        (V::Nil | V::False, r) if op == "^" => return Ok(boolean(r.truthy())),
        (V::Nil | V::False, _) => return Err("NoMethodError"),
        _ => return Err("TypeError"),
    };
    Ok(V::Int(match op {
        "+" => a + b,
        "-" => a - b,
        "*" => a * b,
        "/" => a.div_floor(b),
        "%" => a.mod_floor(b),
        "&" => a & b,
        "|" => a | b,
        "^" => a ^ b,
        "<<" => a << b.to_usize().unwrap(),
        ">>" => if b.is_negative() { a << (-b).to_usize().unwrap() } else { a >> b.to_usize().unwrap() },
        "**" => a.pow(b.to_u32().unwrap()),
        _ => unreachable!(),
    }))
}

/// Op-assign on one kind of target, with everything logged.
struct Op {
    /// text of the target; evaluation log before reading; log of the read; log of the write given the new value
    target: &'static str,
    pre: &'static [&'static str],
    get: &'static str,
    set: &'static str,
    init: &'static str,
    read: &'static str,
}
const OPS: &[Op] = &[
    Op { target: "a", pre: &[], get: "", set: "", init: "a = V", read: "a" },
    Op { target: "@i", pre: &[], get: "", set: "", init: "@i = V", read: "@i" },
    Op { target: "$g", pre: &[], get: "", set: "", init: "$g = V", read: "$g" },
    Op { target: "r(1, o).x", pre: &["1"], get: ":get", set: ":set", init: "o = O.new(V)", read: "o.peek" },
    Op { target: "o.x", pre: &[], get: ":get", set: ":set", init: "o = O.new(V)", read: "o.peek" },
    Op { target: "r(1, [o])[r(2, 0)].x", pre: &["1", "2"], get: ":get", set: ":set", init: "o = O.new(V)", read: "o.peek" },
    Op { target: "self.x", pre: &[], get: "", set: "", init: "$sx = V", read: "$sx" },
    Op { target: "v[0]", pre: &[], get: "", set: "", init: "v = [V, 9]", read: "v[0]" },
    Op { target: "r(1, v)[0]", pre: &["1"], get: "", set: "", init: "v = [V, 9]", read: "v[0]" },
    Op { target: "v[r(1, 0)]", pre: &["1"], get: "", set: "", init: "v = [V, 9]", read: "v[0]" },
    Op { target: "r(1, v)[r(2, -2)]", pre: &["1", "2"], get: "", set: "", init: "v = [V, 9]", read: "v[0]" },
    Op { target: "v[j += 1]", pre: &[], get: "", set: "", init: "v = [9, V, 9]; j = 0", read: "v[j]" },
    Op { target: "h[:k]", pre: &[], get: "", set: "", init: "h = {k: V}", read: "h[:k]" },
    Op { target: "r(1, h)[r(2, 'k')]", pre: &["1", "2"], get: "", set: "", init: "h = {'k' => V}", read: "h['k']" },
    Op { target: "q[3]", pre: &[], get: "[:idx, 3]", set: "[:put, 3, W]", init: "q = Q.new(V)", read: "q.peek" },
    Op { target: "q[:s]", pre: &[], get: "[:idx, :s]", set: "[:put, :s, W]", init: "q = Q.new(V)", read: "q.peek" },
    Op { target: "r(1, q)[r(2, 5)]", pre: &["1", "2"], get: "[:idx, 5]", set: "[:put, 5, W]", init: "q = Q.new(V)", read: "q.peek" },
    Op { target: "r(1, q)[r(2, 5), r(3, 6)]", pre: &["1", "2", "3"], get: "[:idx, 5, 6]", set: "[:put, 5, 6, W]", init: "q = Q.new(V)", read: "q.peek" },
    Op { target: "q[]", pre: &[], get: "[:idx]", set: "[:put, W]", init: "q = Q.new(V)", read: "q.peek" },
    Op { target: "r(1, h)[:a][r(2, 0)]", pre: &["1", "2"], get: "", set: "", init: "h = {a: [V]}", read: "h[:a][0]" },
    Op { target: "r(1, o).peek[r(2, :k)]", pre: &["1", "2"], get: "", set: "", init: "o = O.new({k: V})", read: "o.peek[:k]" },
];

fn ocase(o: &Op, op: &str, init: &V, rhs: (&str, &V), pos: usize, k: usize) -> Case {
    let mut log: Vec<String> = o.pre.iter().map(|s| s.to_string()).collect();
    if !o.get.is_empty() {
        log.push(o.get.into());
    }
    let short = match op {
        "||" => init.truthy(),
        "&&" => !init.truthy(),
        _ => false,
    };
    let mut now = init.clone();
    let mut val = Ok(init.clone());
    if !short {
        if rhs.0.contains("r(8") {
            log.push("8".into());
        }
        val = if op == "||" || op == "&&" { Ok(rhs.1.clone()) } else { opv(op, init, rhs.1) };
        if let Ok(v) = &val {
            now = v.clone();
            if !o.set.is_empty() {
                log.push(o.set.replace('W', &now.inspect()));
            }
        }
    }
    let stmt = format!("{} {op}= {}", o.target, rhs.0);
    let init = format!("$log = []\n{}\n", o.init.replace('V', &init.lit()));
    let (code, z) = match pos {
        0 => (format!("{stmt}\nz = 0"), "0".to_string()),
        1 => (format!("z = ({stmt})"), "V".to_string()),
        2 => (format!("z = {stmt}"), "V".to_string()),
        3 => (format!("z = three {{ {stmt} }}"), "V".to_string()),
        4 => (format!("z = [0, ({stmt}), 1][1]"), "V".to_string()),
        5 => (format!("z = ({stmt}) ? 1 : 2"), "T".to_string()),
        6 => (format!("z = id({stmt})"), "V".to_string()),
        7 => (format!("z = 0\nz = 3 while ({stmt}; z < 1)"), "3".to_string()),
        8 => (format!("z = y = {stmt}"), "V".to_string()),
        _ => (format!("{stmt} if true\nz = 0"), "0".to_string()),
    };
    let _ = k;
    match val {
        Err(e) => Case::f(format!("{init}z = 0\nbegin\n{code}\nrescue StandardError => e\n  z = e.class.to_s\nend\n[z, {}, $log]", o.read), format!("[\"{}\", {}, [{}]]", if e == "NoMethodError" { "NameError" } else { e }, now.inspect(), log.join(", "))),
        Ok(v) => {
            let z = z.replace('V', &v.inspect()).replace('T', if v.truthy() { "1" } else { "2" });
            Case::f(format!("{init}{code}\n[z, {}, $log]", o.read), format!("[{z}, {}, [{}]]", now.inspect(), log.join(", ")))
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.bound("target kinds", ALL.len());
    ctx.bound("op-assign targets", OPS.len());

    ctx.section("op-assign: every target, operator, value and position");
    {
        let inits = [V::Nil, V::False, int(0), int(7), int(-7), st("s"), arr(vec![int(1)])];
        let rhs: Vec<(&str, V)> = vec![("3", int(3)), ("r(8, 3)", int(3)), ("r(8, nil)", V::Nil), ("r(8, 'z')", st("z")), ("1 + 1", int(2)), ("[4]", arr(vec![int(4)])), ("r(8, [4])", arr(vec![int(4)]))];
        let ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "||", "&&"];
        let mut v = vec![];
        let mut k = 0;
        for o in OPS {
            for op in ops {
                for i in &inits {
                    for (rs, rv) in &rhs {
                        if op != "||" && op != "&&" {
                            let both = matches!(i, V::Int(_)) && matches!(rv, V::Int(_));
                            let same = op == "+" && std::mem::discriminant(i) == std::mem::discriminant(rv) && *i != V::Nil;
                            let nil = matches!(i, V::Nil | V::False);
                            if !both && !same && !nil {
                                continue;
                            }
                        }
                        for pos in 0..10 {
                            k += 1;
                            if pos == 7 && (op == "&&" && !i.truthy() || op == "||" && i.truthy() || true) && (pos == 7) {
                                // in a loop condition it is evaluated twice: covered by the statements below
                                continue;
                            }
                            v.push(ocase(o, op, i, (rs, rv), pos, k));
                        }
                    }
                }
            }
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
    ctx.section("multiple assignment: every pair of targets, every pair of sources");
    {
        let src: Vec<R> = ALL.iter().map(|t| R::Read(*t)).chain([R::V(int(50)), R::V(V::Nil), R::V(st("s"))]).collect();
        let n = src.len();
        let src = &src;
        ctx.states += (144 * n * n) as u64;
        Runner::new(ctx).prelude(PRELUDE).run((0..144 * n * n).flat_map(move |k| {
            let ts = [ALL[k / n / n / 12], ALL[k / n / n % 12]];
            let rs = [src[k / n % n].clone(), src[k % n].clone()];
            let ps: Vec<usize> = if t { vec![0, 1, 2, 3] } else { vec![k % 2, 2 + k % 3] };
            ps.into_iter().map(move |p| mcase(&ts, false, &rs, p)).collect::<Vec<_>>()
        }));
    }
    ctx.section("multiple assignment: three targets, three sources");
    {
        let ts: &[T] = if t { &[A, B, I, At, El, ElVar, H, Q2] } else { &[A, B, I, At, ElVar, H] };
        let n = ts.len();
        ctx.states += n.pow(6) as u64;
        Runner::new(ctx).prelude(PRELUDE).run((0..n.pow(6)).map(move |k| {
            let d = |i: u32| k / n.pow(i) % n;
            mcase(&[ts[d(0)], ts[d(1)], ts[d(2)]], false, &[R::Read(ts[d(3)]), R::Read(ts[d(4)]), R::Read(ts[d(5)])], k % 6)
        }));
    }
    ctx.section("multiple assignment: numbers of targets and shapes of sources");
    {
        let items: Vec<R> = vec![
            R::V(int(50)),
            R::V(V::Nil),
            R::Read(B),
            R::V(arr(vec![])),
            R::V(arr(vec![int(51)])),
            R::Arr(vec![R::V(int(52)), R::Read(A)]),
            R::V(arr(vec![int(53), int(54), int(55)])),
            R::V(arr(vec![arr(vec![int(56), int(57)]), int(58)])),
            R::Splat(Box::new(R::V(arr(vec![])))),
            R::Splat(Box::new(R::V(arr(vec![int(60)])))),
            R::Splat(Box::new(R::Arr(vec![R::Read(C), R::Read(A), R::V(int(61))]))),
            R::Splat(Box::new(R::V(V::Nil))),
            R::Splat(Box::new(R::V(int(62)))),
            R::Splat(Box::new(R::Src("(1..3)", V::Range(Box::new(int(1)), Box::new(int(3)), false)))),
            R::Src("id([63, 64])", arr(vec![int(63), int(64)])),
            R::Src("(a; b)", int(2)),
            R::Src("1 + 1", int(2)),
            R::Src("{k: 1}", V::Hash(vec![(sym("k"), int(1))])),
            R::Src("'ab'", st("ab")),
        ];
        let tl: Vec<(Vec<T>, bool)> = vec![
            (vec![A], false), (vec![A], true), (vec![A, B], false), (vec![A, B], true), (vec![A, B, C], false), (vec![A, B, C, I], false), (vec![B, A], false), (vec![A, A], false), (vec![C, B, A], false), (vec![At, A], false), (vec![A, At], false), (vec![El, ElNeg], false), (vec![ElVar, El], false), (vec![Q2, G, H], false), (vec![I, I, I], false), (vec![SelfAt, Q2, ElVar, A], false), (vec![At], false), (vec![El], false), (vec![ElVar], false), (vec![Q2], false), (vec![SelfAt], false), (vec![H], true), (vec![I], false), (vec![G, I], true),
        ];
        let n = items.len();
        let max = if t { 3 } else { 2 };
        let mut lists: Vec<Vec<R>> = vec![];
        for l in 1..=max {
            for k in 0..n.pow(l as u32) {
                lists.push((0..l).map(|i| items[k / n.pow(i as u32) % n].clone()).collect());
            }
        }
        // longer lists of a few items
        let few = [0usize, 2, 4, 10];
        for l in max + 1..=4 {
            for k in 0..4usize.pow(l as u32) {
                lists.push((0..l).map(|i| items[few[k / 4usize.pow(i as u32) % 4]].clone()).collect());
            }
        }
        ctx.bound("sources of a multiple assignment", format!("all lists of {n} items up to length {max}, of 4 up to length 4"));
        ctx.states += (lists.len() * tl.len()) as u64;
        let (lists, tl) = (&lists, &tl);
        Runner::new(ctx).prelude(PRELUDE).run((0..lists.len() * tl.len()).flat_map(move |k| {
            let (ts, tr) = &tl[k % tl.len()];
            let rs = &lists[k / tl.len()];
            let ps: &[usize] = if t { &[0, 1, 2, 3, 4] } else if k % 2 == 0 { &[0, 1] } else { &[2, 3] };
            // `a, b = x if c`, and parentheses around a lone trailing comma, are written once only
            ps.iter().map(move |p| mcase(ts, *tr, rs, *p)).collect::<Vec<_>>()
        }));
    }
    ctx.section("multiple assignment: order of evaluation of the sources");
    {
        let mut v = vec![];
        for n in 1..=4usize {
            for m in 1..=4usize {
                for splat in 0..1usize << m {
                    for use_v in [false, true] {
                        let ts = &["a", "@i", "v[0]", "$g"][..n];
                        let rs: Vec<String> = (0..m).map(|i| if splat >> i & 1 == 1 { format!("*r({}, [{}, {}])", i, i + 50, i + 60) } else { format!("r({i}, {})", i + 50) }).collect();
                        let mut vals = vec![];
                        for i in 0..m as i64 {
                            vals.push(int(i + 50));
                            if splat >> i & 1 == 1 {
                                vals.push(int(i + 60));
                            }
                        }
                        let lone = m == 1 && splat == 0;
                        let val = if lone { vals[0].clone() } else { arr(vals.clone()) };
                        let get = |i: usize| if n == 1 { val.clone() } else { vals.get(i).cloned().unwrap_or(V::Nil) };
                        let stmt = format!("{} = {}", ts.join(", "), rs.join(", "));
                        let log: Vec<String> = (0..m).map(|i| i.to_string()).collect();
                        let read = ts.join(", ");
                        let exp: Vec<String> = (0..n).map(|i| get(i).inspect()).collect();
                        v.push(Case::f(format!("{INIT}{}\n[z, {read}, $log]", if use_v { format!("z = ({stmt})") } else { format!("{stmt}\nz = 0") }), format!("[{}, {}, [{}]]", if use_v { val.inspect() } else { "0".into() }, exp.join(", "), log.join(", "))));
                    }
                }
            }
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
    ctx.section("single assignment: value and chains");
    {
        let mut v = vec![];
        let rv = [("50", "50"), ("nil", "nil"), ("[1, 2]", "[1, 2]"), ("'s'", "\"s\""), ("(1; 2)", "2"), ("*[1, 2]", "[1, 2]"), ("*nil", "[]"), ("*5", "[5]"), ("5, 6", "[5, 6]"), ("*[1], 2", "[1, 2]"), ("if true then 4 end", "4"), ("if false then 4 end", "nil"), ("begin; 3; end", "3"), ("case 1 when 1 then 8 end", "8"), ("while true do break 6 end", "6"), ("id 7", "7"), ("three do 5 end", "5"), ("{k: 1}", "{:k=>1}"), ("->{ 3 }.call", "3"), ("1 if true", "!"), ("true && 5", "5"), ("nil || 6", "6"), ("1 > 2 ? 3 : 4", "4"), ("[5, 6].map { |y| y + 1 }", "[6, 7]")];
        for ta in ALL {
            for (r, e) in rv {
                if e == "!" {
                    continue;
                }
                let s = ta.src();
                let c = match ta {
                    At => "o.peek",
                    Q2 => "q.peek",
                    _ => s,
                };
                v.push(Case::f(format!("{INIT}{s} = {r}\n{c}"), e));
                v.push(Case::f(format!("{INIT}z = ({s} = {r})\n[z, {c}]"), format!("[{e}, {e}]")));
                v.push(Case::f(format!("{INIT}three do {s} = {r} end"), e));
                if !r.contains(", 6") && !r.contains(", 2") && !r.starts_with('*') || r.starts_with('[') {
                    v.push(Case::f(format!("{INIT}z = {s} = {r}\n[z, {c}]"), format!("[{e}, {e}]")));
                    v.push(Case::f(format!("{INIT}z = [{s} = {r}]\n[z[0], {c}]"), format!("[{e}, {e}]")));
                    for tb in ALL {
                        if tb.slot() == ta.slot() {
                            continue;
                        }
                        let cb = match tb {
                            At => "o.peek",
                            Q2 => "q.peek",
                            _ => tb.src(),
                        };
                        v.push(Case::f(format!("{INIT}{} = {s} = {r}\n[{cb}, {c}]", tb.src()), format!("[{e}, {e}]")));
                    }
                }
            }
        }
        // logged evaluation of a plain assignment: receiver, index, value, then the write
        for o in OPS {
            for use_v in [false, true] {
                let mut log: Vec<String> = o.pre.iter().map(|s| s.to_string()).collect();
                log.push("8".into());
                if !o.set.is_empty() {
                    log.push(o.set.replace('W', "50"));
                }
                let stmt = format!("{} = r(8, 50)", o.target);
                v.push(Case::f(format!("$log = []\n{}\n{}\n[z, {}, $log]", o.init.replace('V', "1"), if use_v { format!("z = ({stmt})") } else { format!("{stmt}\nz = 0") }, o.read), format!("[{}, 50, [{}]]", if use_v { "50" } else { "0" }, log.join(", "))));
            }
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
    ctx.section("constants and class variables as targets");
    {
        let mut v = vec![];
        for (body, exp) in [
            ("X = 1; Y = 2; p [X, Y]", "[1, 2]"),
            ("X, Y = 1, 2; p [X, Y]", "[1, 2]"),
            ("X, Y = [1, 2]; p [X, Y]", "[1, 2]"),
            ("X, Y = 1; p [X, Y]", "[1, nil]"),
            ("z = (X, Y = 1, 2); p z", "[1, 2]"),
            ("z = X = 1; p [z, X]", "[1, 1]"),
            ("X ||= 1; p X", "1"),
            ("X = 2; X ||= 1; p X", "2"),
            ("z = (X ||= 1); p [z, X]", "[1, 1]"),
            ("X = nil; z = (X ||= 1); p [z, X]", "[1, 1]"),
            ("@@c = 1; p @@c", "1"),
            ("@@c = @@d = 1; p [@@c, @@d]", "[1, 1]"),
            ("@@c, @@d = 1, 2; p [@@c, @@d]", "[1, 2]"),
            ("@@c, @@d = 1, 2; @@c, @@d = @@d, @@c; p [@@c, @@d]", "[2, 1]"),
            ("@@c, @@c = 1, 2; p @@c", "2"),
            ("@@c = 1; @@c += 2; p @@c", "3"),
            ("@@c = 1; z = (@@c += 2); p [z, @@c]", "[3, 3]"),
            ("@@c ||= 4; p @@c", "4"),
            ("@@c = false; @@c ||= 4; p @@c", "4"),
            ("@@c = 3; @@c ||= 4; p @@c", "3"),
            ("@@c = 3; @@c &&= 4; p @@c", "4"),
            ("@@c = nil; z = (@@c &&= 4); p [z, @@c]", "[nil, nil]"),
            ("@@c = 5; def self.g; @@c -= 1; end; g; p [g, @@c]", "[3, 3]"),
            ("@@c = 5; def self.g; @@c, @x = @x, @@c; end; g; p [@@c, @x]", "[nil, 5]"),
            ("@@c = [1]; @@c[0] += 1; @@c << 3; p @@c", "[2, 3]"),
            ("@@c = {}; @@c[:a] ||= []; @@c[:a] << 3; p @@c", "{:a=>[3]}"),
            ("X = [1]; X[0] += 1; p X", "[2]"),
            ("X = {}; X[:a] ||= []; X[:a] << 3; p X", "{:a=>[3]}"),
            ("a, X, @i, @@c, $g = 1, 2, 3, 4, 5; p [a, X, @i, @@c, $g]", "[1, 2, 3, 4, 5]"),
            ("self::X = 3; p X", "3"),
            ("KZZ::X = 3; p X", "3"),
            ("KZZ::X, KZZ::Y = 3, 4; p [X, Y]", "[3, 4]"),
        ] {
            v.push(Case::top(format!("class KZZ\n{body}\nend"), format!("{exp}\n")));
            v.push(Case::top(format!("module MZZ\n{}\nend", body.replace("KZZ", "MZZ")), format!("{exp}\n")));
        }
        for (body, exp) in [
            ("@zuZZ ||= 1; @zuZZ", "1"),
            ("@zvZZ &&= 1; @zvZZ", "nil"),
            ("$zuZZ ||= 1; $zuZZ", "1"),
            ("$zuZZ &&= 1; $zuZZ", "nil"),
            ("zz ||= 1; zz", "1"),
            ("zz &&= 1; zz", "nil"),
            ("zz = zz; zz", "nil"),
            ("zz += 1 rescue 5", "5"),
            ("h = {}; h[:a] ||= 1; h[:a] ||= 2; h", "{:a=>1}"),
            ("h = {}; h[:a] &&= 1; h", "{}"),
            ("h = {a: {}}; h[:a][:b] ||= []; h[:a][:b] += [1]; h", "{:a=>{:b=>[1]}}"),
            ("a = []; a[2] ||= 3; a", "[nil, nil, 3]"),
            ("a = [1, 2, 3]; a[0], a[2] = a[2], a[0]; a", "[3, 2, 1]"),
            ("a = [1, 2, 3]; i = 0; a[i], a[i + 1] = a[i + 1], a[i]; a", "[2, 1, 3]"),
            ("a = 1; b = 2; a, b = b, a + b; [a, b]", "[2, 3]"),
            ("a = 0; b = 1; 10.times { a, b = b, a + b }; a", "55"),
            ("a = [1, [2, 3]]; b, c = a; b, c = c; [b, c]", "[2, 3]"),
            ("a, b = id(1), id(2); [a, b]", "[1, 2]"),
            ("a = b = c = 4; b += 1; [a, b, c]", "[4, 5, 4]"),
            ("a = 'x'; b = a; b += 'y'; [a, b]", "[\"x\", \"xy\"]"),
            ("a = [1]; b = a; b += [2]; [a, b]", "[[1], [1, 2]]"),
            ("a = [1]; b = a; b << 2; [a, b]", "[[1, 2], [1, 2]]"),
            ("a = [1, 2]; b = *a; b << 3; [a, b]", "[[1, 2], [1, 2, 3]]"),
            ("a = [1, 2]; b, c = a; b += 1; a", "[1, 2]"),
            ("a = SA.new; a << 1; a << 2; b, c = a; [b, c]", "[1, 2]"),
            ("[[1, 2], [3, 4]].map { |a, b| a, b = b, a; [a, b] }", "[[2, 1], [4, 3]]"),
            ("i = 0; a = [0, 0, 0]; a[i += 1] += 5; [i, a]", "[1, [0, 5, 0]]"),
            ("i = 0; a = [0, 0, 0]; a[i += 1] ||= 5; [i, a]", "[1, [0, 0, 0]]"),
            ("i = 0; a = [nil, nil, nil]; a[i += 1] ||= 5; [i, a]", "[1, [nil, 5, nil]]"),
            ("i = 0; a = [0, 0, 0]; a[i] += i += 1; [i, a]", "[1, [1, 0, 0]]"),
            ("a = 5; a += a += 1; a", "11"),
            ("a = 5; a = a += 1; a", "6"),
            ("a = 1; a += (a = 10); a", "11"),
            ("a = nil; a ||= begin; 1; 2; end; a", "2"),
            ("a = nil; a ||= (b = 3; b + 1); [a, b]", "[4, 3]"),
            ("a = 5; a ||= (b = 3); [a, b]", "[5, nil]"),
            ("$log = []; a = false; b = (a ||= r(1, nil)) || r(2, 7); [a, b, $log]", "[nil, 7, [1, 2]]"),
            ("z = 0; a = 0; z += 1 while (a += 1) < 5; [z, a]", "[4, 5]"),
            ("h = {n: 0}; z = 0; z += 1 until (h[:n] += 2) > 7; [z, h]", "[3, {:n=>8}]"),
            ("a = [3, 1]; a[0] -= 1 while a[0] > a[1]; a", "[1, 1]"),
            ("x = [1, 2, 3]; x[0..1] = 9; x", "[9, 3]"),
            ("x = [1, 2, 3]; z = (x[0, 2] = [7, 8, 9]); [x, z]", "[[7, 8, 9, 3], [7, 8, 9]]"),
            ("def mdZZ(a = (b = 2; b + 1)) [a, b] end; mdZZ", "[3, 2]"),
            ("f = proc { |a, b = a| a, b = b, 1; [a, b] }; f.call(5)", "[5, 1]"),
            ("a = 1; f = -> { a += 1 }; f.call; f.call; a", "3"),
            ("a, b = 1, 2; f = -> { a, b = b, a }; [f.call, a, b]", "[[2, 1], 2, 1]"),
            ("a = 1; [1, 2].each { |i| a, c = a + i, i }; a", "4"),
        ] {
            v.push(Case::f(body, exp));
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
}
