//! C15: case/when runs the body of the first clause one of whose patterns accepts the subject.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;

const PRELUDE: &str = r##"
class SS < String; end
class EQ1
  def ==(o); o == 1; end
  def inspect; "EQ1"; end
end
class TE
  def initialize(n, r); @n = n; @r = r; end
  def ===(o); $log << @n << o; @r; end
end
class TX
  def ===(o); raise ArgumentError, "x"; end
end
class Even
  def self.===(o); o.is_a?(Integer) && o % 2 == 0; end
end
module Mix; end
class WM
  include Mix
  def inspect; "WM"; end
end
def t(n, v); $log << n; v; end
def id(x) x end
ONE = 1
"##;

/// Subjects of the case.
#[derive(Clone, Debug)]
enum S {
    V(V),
    /// an instance of a String subclass
    Ss(&'static str),
    /// == accepts 1
    Eq1,
    /// instance of a class including Mix
    Wm,
}

impl S {
    fn src(&self) -> String {
        match self {
            S::V(v) => v.lit(),
            S::Ss(s) => format!("SS.new({s:?})"),
            S::Eq1 => "EQ1.new".into(),
            S::Wm => "WM.new".into(),
        }
    }
}

/// Patterns of a clause.
#[derive(Clone, Debug)]
enum P {
    V(V),
    /// other spellings of a value
    Src(&'static str, V),
    Class(&'static str),
    Re(&'static str),
    Splat(Vec<V>),
    Even,
    Te(bool),
}

impl P {
    fn src(&self) -> String {
        match self {
            P::V(v) => v.lit(),
            P::Src(s, _) => s.to_string(),
            P::Class(c) => c.to_string(),
            P::Re(r) => format!("/{r}/"),
            P::Splat(v) => format!("*[{}]", v.iter().map(|v| v.lit()).collect::<Vec<_>>().join(", ")),
            P::Even => "Even".into(),
            P::Te(b) => format!("TE.new(0, {b})"),
        }
    }
    fn teq(&self, s: &S) -> bool {
        match self {
            P::V(v) | P::Src(_, v) => veq(v, s),
            P::Splat(vs) => vs.iter().any(|v| veq(v, s)),
            P::Class(c) => match s {
                S::V(v) => {
                    let k = v.class();
                    *c == k || *c == "Object" || *c == "Comparable" && matches!(v, V::Int(_) | V::Float(_) | V::Str(_)) || *c == "Numeric" && matches!(v, V::Int(_) | V::Float(_))
                }
                S::Ss(_) => ["SS", "String", "Comparable", "Object"].contains(c),
                S::Eq1 => *c == "Object",
                S::Wm => *c == "Object" || *c == "Mix",
            },
            P::Re(r) => {
                let t = match s {
                    S::V(V::Str(t)) | S::V(V::Sym(t)) => t.as_str(),
                    S::Ss(t) => t,
                    _ => return false,
                };
                match *r {
                    "a" => t.contains('a'),
                    "^$" => t.is_empty(),
                    "\\Ab" => t.starts_with('b'),
                    _ => unreachable!(),
                }
            }
            P::Even => matches!(s, S::V(V::Int(i)) if (i % 2u8) == 0.into()),
            P::Te(b) => *b,
        }
    }
}

fn veq(p: &V, s: &S) -> bool {
    match s {
        S::V(s) => match p {
            V::Range(a, b, ex) => {
                let lo = match &**a {
                    V::Nil => true,
                    a => matches!(a.cmp(s), Some(o) if o != std::cmp::Ordering::Greater),
                };
                let hi = match &**b {
                    V::Nil => true,
                    b => match s.cmp(b) {
                        Some(std::cmp::Ordering::Less) => true,
                        Some(std::cmp::Ordering::Equal) => !ex,
                        _ => false,
                    },
                };
                lo && hi
            }
            _ => p.req(s),
        },
        S::Ss(t) => matches!(p, V::Str(p) if p == t) || matches!(p, V::Range(..)) && veq(p, &S::V(st(t))),
        S::Eq1 => matches!(p, V::Int(_) | V::Float(_)) && p.req(&int(1)),
        S::Wm => false,
    }
}

fn big(e: u32) -> V {
    V::Int(num::BigInt::from(1) << e)
}
fn bigm(e: u32, d: i64) -> V {
    V::Int((num::BigInt::from(1) << e) + d)
}
fn neg(e: u32, d: i64) -> V {
    V::Int(-(num::BigInt::from(1) << e) + d)
}
fn rng(a: V, b: V, ex: bool) -> V {
    V::Range(Box::new(a), Box::new(b), ex)
}

fn subjects() -> Vec<S> {
    let mut v: Vec<S> = [
        int(0), int(1), int(2), int(3), int(-1), int(-2), int(5), int(100), int(1000000),
        bigm(62, -1), big(62), bigm(62, 1), neg(62, -1), neg(62, 0), bigm(63, -1), big(63), neg(63, 0), neg(63, -1), big(64), big(70),
        V::Float(1.0), V::Float(1.5), V::Float(-1.0), V::Float(0.0), V::Float(1e20), V::Float(2f64.powi(62)),
        V::Nil, V::True, V::False, sym("a"), sym("b"), st("a"), st("b"), st(""), st("ab"), st("1"), arr(vec![int(1)]), arr(vec![]), V::Hash(vec![]), rng(int(1), int(2), false),
    ]
    .into_iter()
    .map(S::V)
    .collect();
    v.extend([S::Ss("a"), S::Ss("b"), S::Eq1, S::Wm]);
    v
}

fn patterns(t: bool) -> Vec<P> {
    let mut v: Vec<P> = [
        int(0), int(1), int(2), int(-1), int(5), int(100), bigm(62, -1), big(62), neg(62, 0), neg(62, -1), bigm(63, -1), big(63), neg(63, 0), big(64),
        V::Float(1.0), V::Float(1.5), V::Float(1e20), V::Nil, V::True, V::False, sym("a"), sym("b"), st("a"), st("b"), st(""), st("1"),
        arr(vec![int(1)]), arr(vec![]), V::Hash(vec![]),
    ]
    .into_iter()
    .map(P::V)
    .collect();
    v.extend([
        P::Src("(1..2)", rng(int(1), int(2), false)),
        P::Src("0...2", rng(int(0), int(2), true)),
        P::Src("(-1..1.5)", rng(int(-1), V::Float(1.5), false)),
        P::Src("('a'..'b')", rng(st("a"), st("b"), false)),
        P::Src("ONE", int(1)),
        P::Src("id(1)", int(1)),
        P::Src("2 - 1", int(1)),
        P::Src("(0; 1)", int(1)),
        P::Src("'a' + ''", st("a")),
        P::Class("Integer"),
        P::Class("Float"),
        P::Class("String"),
        P::Class("Symbol"),
        P::Class("Array"),
        P::Class("NilClass"),
        P::Class("Object"),
        P::Class("Mix"),
        P::Class("SS"),
        P::Re("a"),
        P::Re("^$"),
        P::Splat(vec![]),
        P::Splat(vec![int(1), st("a")]),
        P::Splat(vec![V::Nil, sym("b")]),
        P::Even,
        P::Te(true),
        P::Te(false),
    ]);
    if t {
        v.extend([P::Src("\"#{'a'}\"", st("a")), P::Src(":\"a\"", sym("a")), P::Src("-(1)", int(-1)), P::Src("1 .. 2", rng(int(1), int(2), false)), P::Re("\\Ab")]);
    }
    v
}

/// Clauses: lists of patterns; the value is the number of the clause.
fn case_src(clauses: &[Vec<String>], els: bool, style: usize) -> String {
    let mut s = String::new();
    for (i, c) in clauses.iter().enumerate() {
        let pats = c.join(", ");
        match style % 3 {
            0 => s.push_str(&format!(" when {pats} then {}", i + 10)),
            1 => s.push_str(&format!("\nwhen {pats}\n  {}", i + 10)),
            _ => s.push_str(&format!("\nwhen {}; {}", c.join(",\n  "), i + 10)),
        }
    }
    if els {
        s.push_str(if style % 3 == 0 { " else 9" } else { "\nelse\n  9" });
    }
    s.push_str(if style % 3 == 0 { " end" } else { "\nend" });
    s
}

fn first(clauses: &[Vec<P>], s: &S) -> Option<usize> {
    clauses.iter().position(|c| c.iter().any(|p| p.teq(s)))
}

fn ans(clauses: &[Vec<P>], s: &S, els: bool) -> String {
    match first(clauses, s) {
        Some(i) => (i + 10).to_string(),
        None if els => "9".into(),
        None => "nil".into(),
    }
}

/// All subjects against one list of clauses, in one method, so that the same code sees every type.
fn sweep(clauses: &[Vec<P>], subs: &[S], els: bool, style: usize, pos: usize) -> Case {
    let src: Vec<Vec<String>> = clauses.iter().map(|c| c.iter().map(|p| p.src()).collect()).collect();
    let c = case_src(&src, els, style);
    let body = match pos {
        0 => format!("case s{c}"),
        1 => format!("x = case s{c}\nx"),
        2 => format!("[0, case s{c}, 1][1]"),
        3 => format!("z = 1\nw = case z && s{c}\nreturn w\nz"),
        _ => format!("id(case id(s){c})"),
    };
    let l: Vec<String> = subs.iter().map(|s| s.src()).collect();
    let code = format!("$log = []\n[{}].map do |s| m{{ZZ}}(s) end", l.join(", "));
    let exp: Vec<String> = subs.iter().map(|s| ans(clauses, s, els)).collect();
    Case::f(code.replace("m{ZZ}", "lmZZ").replace("$log = []\n", &format!("$log = []\nlmZZ = ->(s) {{ {body} }}\n")).replace("lmZZ(s)", "lmZZ.call(s)"), format!("[{}]", exp.join(", ")))
}

/// One subject, case written at the top of a method body.
fn one(clauses: &[Vec<P>], s: &S, els: bool, style: usize) -> Case {
    let src: Vec<Vec<String>> = clauses.iter().map(|c| c.iter().map(|p| p.src()).collect()).collect();
    Case::f(format!("$log = []\ncase {}{}", s.src(), case_src(&src, els, style)), ans(clauses, s, els))
}

/// Partitions of a list in consecutive non-empty groups.
fn partitions(n: usize) -> Vec<Vec<usize>> {
    (0..1usize << (n - 1))
        .map(|m| {
            let mut v = vec![];
            let mut c = 1;
            for i in 0..n - 1 {
                if m >> i & 1 == 1 {
                    v.push(c);
                    c = 1;
                } else {
                    c += 1;
                }
            }
            v.push(c);
            v
        })
        .collect()
}

fn group(ps: &[P], part: &[usize]) -> Vec<Vec<P>> {
    let mut v = vec![];
    let mut k = 0;
    for n in part {
        v.push(ps[k..k + n].to_vec());
        k += n;
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let subs = subjects();
    let pats = patterns(t);
    ctx.bound("subjects", subs.len());
    ctx.bound("patterns", pats.len());

    ctx.section("every pattern, every subject");
    {
        let (subs, pats) = (&subs, &pats);
        let mut v = vec![];
        for p in pats {
            for els in [true, false] {
                for style in 0..3 {
                    for pos in 0..5 {
                        v.push(sweep(&[vec![p.clone()]], subs, els, style, pos));
                    }
                }
                for s in subs {
                    v.push(one(&[vec![p.clone()]], s, els, 0));
                }
            }
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
    ctx.section("every pair of patterns, in one clause or two");
    {
        ctx.states += (pats.len() * pats.len() * 2) as u64;
        let (subs, pats) = (&subs, &pats);
        Runner::new(ctx).prelude(PRELUDE).run((0..pats.len() * pats.len()).flat_map(move |k| {
            let ps = [pats[k / pats.len()].clone(), pats[k % pats.len()].clone()];
            partitions(2).into_iter().enumerate().map(move |(i, p)| sweep(&group(&ps, &p), subs, k % 2 == 0, k + i, k % 5)).collect::<Vec<_>>()
        }));
    }
    ctx.section("three patterns in every division into clauses");
    {
        let rep: Vec<P> = {
            let mut v: Vec<P> = [int(1), int(2), int(-1), big(62), big(64), V::Float(1.0), V::Nil, sym("a"), st("a")].into_iter().map(P::V).collect();
            v.extend([P::Src("(1..2)", rng(int(1), int(2), false)), P::Class("Integer"), P::Class("String"), P::Re("a"), P::Splat(vec![int(1), st("a")]), P::Even, P::Src("ONE", int(1))]);
            {
                v.extend([P::V(V::True), P::V(st("")), P::V(int(100)), P::Splat(vec![]), P::Te(false)]);
            }
            v
        };
        let n = rep.len();
        ctx.bound("patterns in triples", n);
        ctx.states += (n * n * n * 4) as u64;
        let (subs, rep) = (&subs, &rep);
        Runner::new(ctx).prelude(PRELUDE).run((0..n * n * n).flat_map(move |k| {
            let ps = [rep[k / n / n].clone(), rep[k / n % n].clone(), rep[k % n].clone()];
            partitions(3).into_iter().enumerate().map(move |(i, p)| sweep(&group(&ps, &p), subs, (k + i) % 2 == 0, k + i, k % 5)).collect::<Vec<_>>()
        }));
    }
    ctx.section("tables of integers: every sequence of values, duplicates included");
    {
        let vals: Vec<V> = [int(0), int(1), int(2), int(-1), int(4), int(40)].to_vec();
        let wide: Vec<V> = [int(0), int(1000), int(100000), int(-100000000), bigm(62, -1), neg(62, 0), neg(63, 0), bigm(63, -1)].to_vec();
        let len = if t { 6 } else { 5 };
        ctx.bound("values in an integer table", format!("all sequences of 6 near values up to length {len}, of 8 far values up to length 3"));
        let mut v = vec![];
        for (vals, len) in [(&vals, len), (&wide, 3)] {
            for l in 1..=len {
                for k in 0..vals.len().pow(l as u32) {
                    let mut j = k;
                    let ps: Vec<P> = (0..l)
                        .map(|_| {
                            let p = P::V(vals[j % vals.len()].clone());
                            j /= vals.len();
                            p
                        })
                        .collect();
                    let parts = partitions(l);
                    let part = if l <= 3 { parts } else { vec![vec![1; l], vec![2, l - 2]] };
                    for p in part {
                        v.push((group(&ps, &p), k));
                    }
                }
            }
        }
        ctx.states += v.len() as u64;
        let mut near = subs.clone();
        near.extend([int(39), int(40), int(41), int(-3), int(4), int(999), int(1000), int(100000), int(-100000000)].map(S::V));
        let near = &near;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter().map(move |(g, k)| sweep(&g, near, k % 2 == 0, k, k / 2 % 5)));
    }
    ctx.section("tables of mixed literals");
    {
        let vals: Vec<V> = [int(1), V::Float(1.0), st("a"), sym("a"), V::Nil, V::True, big(64), st("")].to_vec();
        let len = if t { 5 } else { 4 };
        let mut v = vec![];
        for l in 2..=len {
            for k in 0..vals.len().pow(l as u32) {
                let mut j = k;
                let ps: Vec<P> = (0..l)
                    .map(|_| {
                        let p = P::V(vals[j % vals.len()].clone());
                        j /= vals.len();
                        p
                    })
                    .collect();
                for p in partitions(l) {
                    v.push((group(&ps, &p), k));
                }
            }
        }
        ctx.states += v.len() as u64;
        let subs = &subs;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter().map(move |(g, k)| sweep(&g, subs, k % 2 == 0, k, k / 2 % 5)));
    }
    ctx.section("long tables");
    {
        let sizes: Vec<i64> = if t { (1..=80).chain([100, 127, 128, 129, 255, 256, 257, 500, 1000]).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() };
        let mut v = vec![];
        for &n in &sizes {
            for kind in 0..8 {
                let p = |i: i64| -> P {
                    match kind {
                        0 => P::V(int(i)),
                        1 => P::V(int(i * 7 - 50)),
                        2 => P::V(st(&format!("k{i}"))),
                        3 => P::V(sym(&format!("k{i}"))),
                        4 => P::V(V::Float(i as f64 + 0.5)),
                        5 => P::Src("(5..9)", rng(int(5), int(9), false)),
                        6 => if i % 3 == 0 { P::V(int(i)) } else if i % 3 == 1 { P::V(st(&format!("k{i}"))) } else { P::V(sym(&format!("k{i}"))) },
                        _ => P::V(int(n - i)),
                    }
                };
                if kind == 5 && n > 40 {
                    continue;
                }
                let ps: Vec<P> = (0..n).map(p).collect();
                let mut s: Vec<S> = ps.iter().filter_map(|p| if let P::V(v) = p { Some(S::V(v.clone())) } else { None }).collect();
                s.extend([int(-1), int(n), int(n + 1), st("k"), sym("zz"), V::Nil, V::Float(1.0), int(7)].map(S::V));
                v.push(sweep(&group(&ps, &vec![1; n as usize]), &s, n % 2 == 0, 1, 0));
                if n > 1 {
                    v.push(sweep(&group(&ps, &[(n / 2) as usize, (n - n / 2) as usize]), &s, n % 2 == 1, 2, 1));
                }
            }
        }
        ctx.bound("clauses in a long table", sizes.last().unwrap());
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).batch(8).run(v.into_iter());
    }
    ctx.section("order and number of evaluations");
    {
        // every shape of up to four patterns; every set of accepting patterns
        let max = if t { 6 } else { 5 };
        let mut v = vec![];
        for n in 1..=max {
            for part in partitions(n) {
                for acc in 0..1usize << n {
                    for els in [false, true] {
                        for kind in 0..5 {
                            let mut log: Vec<String> = vec![];
                            let mut src: Vec<Vec<String>> = vec![];
                            let mut k = 0;
                            let mut hit = None;
                            if kind < 3 {
                                log.push("0".into());
                            }
                            for (c, m) in part.iter().enumerate() {
                                let mut l = vec![];
                                for _ in 0..*m {
                                    let a = acc >> k & 1 == 1;
                                    let id = k + 1;
                                    l.push(match kind {
                                        // the pattern is computed, then asked
                                        0 => format!("t({id}, TE.new({}, {a}))", id + 10),
                                        1 => format!("t({id}, {})", if a { "77" } else { "78" }),
                                        2 => format!("*t({id}, [TE.new({}, false), TE.new({}, {a})])", id + 10, id + 20),
                                        3 => format!("t({id}, {})", if a { ["true", "1", "''", "[]"][k % 4] } else { ["nil", "false"][k % 2] }),
                                        _ => format!("t({id}, {}) {} t({}, {})", if a { "1" } else { "nil" }, if k % 2 == 0 { "&&" } else { "||" }, id + 10, if a { "2" } else { "false" }),
                                    });
                                    if hit.is_none() {
                                        log.push(id.to_string());
                                        match kind {
                                            0 => log.extend([(id + 10).to_string(), "77".into()]),
                                            2 => log.extend([(id + 10).to_string(), "77".into(), (id + 20).to_string(), "77".into()]),
                                            4 => {
                                                if a == (k % 2 == 0) {
                                                    log.push((id + 10).to_string())
                                                }
                                            }
                                            _ => {}
                                        }
                                        if a {
                                            hit = Some(c);
                                        }
                                    }
                                    k += 1;
                                }
                                src.push(l);
                            }
                            let subj = if kind < 3 { "t(0, 77)" } else { "" };
                            let val = match hit {
                                Some(c) => (c + 10).to_string(),
                                None => if els { "9".into() } else { "nil".to_string() },
                            };
                            v.push(Case::f(format!("$log = []\nx = case {subj}{}\n[x, $log]", case_src(&src, els, n + kind)), format!("[{val}, [{}]]", log.join(", "))));
                        }
                    }
                }
            }
        }
        ctx.bound("patterns with logged evaluation", max);
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
    ctx.section("bodies: control flow, nesting, operands on the stack");
    {
        let heads: &[(&str, &str, &str)] = &[("1", "2", "int"), ("'a'", "'b'", "str"), (":a", ":b", "sym"), ("nil", "1.5", "mix"), ("Integer", "String", "cls"), ("(1..1)", "*[2, 'b']", "splat")];
        let subs: &[(&str, [usize; 6])] = &[("1", [0, 2, 2, 2, 0, 0]), ("2", [1, 2, 2, 2, 0, 1]), ("'a'", [2, 0, 2, 2, 1, 2]), ("'b'", [2, 1, 2, 2, 1, 1]), (":b", [2, 2, 1, 2, 2, 2]), ("nil", [2, 2, 2, 0, 2, 2]), ("1.5", [2, 2, 2, 1, 2, 2])];
        // body texts with the value the whole yields when this body runs: the case stands in a loop of 3 over s
        let bodies: &[(&str, &str)] = &[("7", "7"), ("next 7", "7"), ("(next)", "nil"), ("if i == 0 then next 7 end; 8", "8"), ("[1, 2].each { |y| break y }", "1"), ("begin; raise 'a'; rescue; 7; end", "7"), ("case 5 when 5 then 7 end", "7"), ("case when false then 1 end", "nil"), ("", "nil"), ("x = 7; x", "7"), ("7 if s", "7"), ("while true do break 7 end", "7"), ("[i, s].length", "2"), ("->{ 7 }.call", "7")];
        let mut v = vec![];
        for (h, hd) in heads.iter().enumerate() {
            for (s, pick) in subs {
                for (b, bv) in bodies {
                    for (shape, wrap) in ["C", "id(C)", "[9, C, 9][1]", "1 && C", "\"#{C.inspect}\"", "(C)", "x = C\nx", "id(1) + 0; C", "{k: C}[:k]", "(1 + (C; 0)); C"].iter().enumerate() {
                        let c = format!("case s\nwhen {} then {b}\nwhen {} then 60\nelse 61\nend", hd.0, hd.1);
                        let r = match pick[h] {
                            0 => {
                                let nx = b.contains("next") && !b.contains("if i == 0");
                                let bv = if b.starts_with("7 if") && *s == "nil" { "nil" } else { bv };
                                if shape == 4 && !(nx) { format!("\"{bv}\"") } else { bv.to_string() }
                            }
                            n => {
                                let r = if n == 1 { "60" } else { "61" };
                                if shape == 4 { format!("\"{r}\"") } else { r.into() }
                            }
                        };
                        let first = if *b == "if i == 0 then next 7 end; 8" && pick[h] == 0 { "7".to_string() } else { r.clone() };
                        v.push(Case::f(format!("s = {s}\n[0, 1, 2].map do |i|\n{}\nend", wrap.replace('C', &c)), format!("[{first}, {r}, {r}]")));
                    }
                }
                for (b, exp) in [("return 7", "7"), ("break 7", "7"), ("raise 'x'", "!RuntimeError")] {
                    let r = match pick[h] {
                        0 => exp.to_string(),
                        1 => "[60, 60]".into(),
                        _ => "[61, 61]".into(),
                    };
                    for wrap in ["C", "[1, C][1]", "id(C)"] {
                        let c = format!("case s\nwhen {} then {b}\nwhen {} then 60\nelse 61\nend", hd.0, hd.1);
                        v.push(Case::f(format!("s = {s}\n[0, 1].map do |i|\n{}\nend", wrap.replace('C', &c)), r.clone()));
                    }
                }
            }
        }
        for (s, exp) in [
            ("case 1 when TX.new then 2 end", "!ArgumentError"),
            ("case (raise 'a') when 1 then 2 end", "!RuntimeError"),
            ("x = (case 1 when TX.new then 2 end rescue 5); x", "5"),
            ("begin; case 1 when 2, TX.new, 1 then 2 end; rescue ArgumentError; 6; end", "6"),
            ("case 1 when 1, TX.new then 2 end", "2"),
            ("r = []; [1, 'a', nil, 2, :b, 1.5].each { |x| r << case x when Integer then :i when String, Symbol then :s when nil then :n else :o end }; r", "[:i, :s, :n, :i, :s, :o]"),
            ("x = 5; case x when 5 then x = 6 when 6 then x = 7 end; x", "6"),
            ("x = 5; case x += 1 when 5 then 1 when 6 then x end", "6"),
            ("case [1, 2] when [1, 2] then 1 end", "1"),
            ("a = [1, 2]; b = [3]; case 3 when *a, *b then 1 else 2 end", "1"),
            ("a = [1, 2]; case 4 when *a, 4 then 1 else 2 end", "1"),
            ("a = [1, 2]; case 4 when 4, *a then 1 else 2 end", "1"),
            ("a = [1, 2]; case 2 when 4, *a then 1 else 2 end", "1"),
            ("a = [Integer, 'x']; case 4 when *a then 1 else 2 end", "1"),
            ("a = [Integer, 'x']; case 'x' when *a then 1 else 2 end", "1"),
            ("a = []; case nil when *a then 1 else 2 end", "2"),
            ("a = [[1, 2]]; case [1, 2] when *a then 1 else 2 end", "1"),
            ("a = (1..3); case 2 when *a then 1 else 2 end", "1"),
            ("a = nil; case nil when *a then 1 else 2 end", "2"),
            ("a = 5; case 5 when *a then 1 else 2 end", "1"),
        ] {
            v.push(Case::f(s.to_string(), exp.to_string()));
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).prelude(PRELUDE).run(v.into_iter());
    }
}
