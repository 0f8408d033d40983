//! C10: Hash operations against an insertion-ordered map.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use crate::worker::Gc;

const PRELUDE: &str = r#"
KS = [1, 1.0, :a, "a", nil, [1], "b", 2**70, 1..2, {x: [1]}, false, 0.5, ["a", 2.0]]
def obs(h, g)
  e = []; h.each { |q| e << q }
  x = []; h.each_key { |k| x << k }
  y = []; h.each_value { |v| y << v }
  [h.to_s, h.keys == x, h.values == y, e == h.keys.zip(h.values), h.length, h.empty?, KS.map { |k| [h[k], h.key?(k), h.fetch(k, :d)] }, g]
end
"#;

type H = Vec<(V, V)>;

fn keys() -> Vec<V> {
    vec![
        int(1),
        V::Float(1.0),
        sym("a"),
        st("a"),
        V::Nil,
        ints(&[1]),
        st("b"),
        V::Int(num::bigint::BigInt::from(2).pow(70)),
        V::Range(Box::new(int(1)), Box::new(int(2)), false),
        V::Hash(vec![(sym("x"), ints(&[1]))]),
        V::False,
        V::Float(0.5),
        arr(vec![st("a"), V::Float(2.0)]),
    ]
}

fn find(h: &H, k: &V) -> Option<usize> {
    h.iter().position(|(x, _)| x.eql(k))
}
fn get(h: &H, k: &V) -> Option<V> {
    find(h, k).map(|i| h[i].1.clone())
}
fn put(h: &mut H, k: V, v: V) {
    match find(h, &k) {
        Some(i) => h[i].1 = v,
        None => h.push((k, v)),
    }
}
fn del(h: &mut H, k: &V) -> Option<V> {
    find(h, k).map(|i| h.remove(i).1)
}

#[derive(Clone, Default)]
struct S {
    h: H,
    g: Option<H>,
}

struct Op {
    src: String,
    f: Box<dyn Fn(&mut S) -> V + Send + Sync>,
}
fn op(src: impl Into<String>, f: impl Fn(&mut S) -> V + Send + Sync + 'static) -> Op {
    Op { src: src.into(), f: Box::new(f) }
}

fn hv(h: &H) -> V {
    V::Hash(h.clone())
}

fn obs(s: &S) -> V {
    let ks = keys();
    arr(vec![
        V::Str(hv(&s.h).inspect()),
        V::True,
        V::True,
        V::True,
        int(s.h.len() as i64),
        boolean(s.h.is_empty()),
        arr(ks
            .iter()
            .map(|k| {
                let v = get(&s.h, k);
                arr(vec![v.clone().unwrap_or(V::Nil), boolean(v.is_some()), v.unwrap_or(sym("d"))])
            })
            .collect()),
        match &s.g {
            Some(g) => hv(g),
            None => V::Nil,
        },
    ])
}

fn mutators(full: bool) -> Vec<Op> {
    let mut o = vec![];
    let nk = if full { keys().len() } else { 5 };
    for k in keys().into_iter().take(nk) {
        let (k1, k2, k3) = (k.clone(), k.clone(), k.clone());
        o.push(op(format!("(h[{}] = :v)", k.lit()), move |s| {
            put(&mut s.h, k1.clone(), sym("v"));
            sym("v")
        }));
        o.push(op(format!("h.delete({})", k.lit()), move |s| del(&mut s.h, &k2).unwrap_or(V::Nil)));
        if full {
            o.push(op(format!("(h[{}] = nil)", k.lit()), move |s| {
                put(&mut s.h, k3.clone(), V::Nil);
                V::Nil
            }));
        }
    }
    o.push(op("(h[:a] = 1)", |s| {
        put(&mut s.h, sym("a"), int(1));
        int(1)
    }));
    o.push(op("h.clear.equal?(h)", |s| {
        s.h.clear();
        V::True
    }));
    o.push(op("(g = h; h = h.dup; 0)", |s| {
        s.g = Some(s.h.clone());
        int(0)
    }));
    o.push(op("(g = h.clone; 0)", |s| {
        s.g = Some(s.h.clone());
        int(0)
    }));
    o.push(op("(h = h.merge({\"a\" => 1, :z => 2, 1 => 3}); 0)", |s| {
        put(&mut s.h, st("a"), int(1));
        put(&mut s.h, sym("z"), int(2));
        put(&mut s.h, int(1), int(3));
        int(0)
    }));
    o.push(op("(h = h.reject { |k, v| k == 1 }; 0)", |s| {
        s.h.retain(|(k, _)| !k.req(&int(1)));
        int(0)
    }));
    o.push(op("(h = h.select { |k, v| v }; 0)", |s| {
        s.h.retain(|(_, v)| v.truthy());
        int(0)
    }));
    o.push(op("(h = h.invert; 0)", |s| {
        let mut n = vec![];
        for (k, v) in &s.h {
            put(&mut n, v.clone(), k.clone());
        }
        s.h = n;
        int(0)
    }));
    o.push(op("(h = h.compact; 0)", |s| {
        s.h.retain(|(_, v)| *v != V::Nil);
        int(0)
    }));
    o.push(op("(h[:a] ||= :o)", |s| match get(&s.h, &sym("a")) {
        Some(v) if v.truthy() => v,
        _ => {
            put(&mut s.h, sym("a"), sym("o"));
            sym("o")
        }
    }));
    o.push(op("(u = \"a\"; h[u] = :u; u << \"b\"; u)", |s| {
        put(&mut s.h, st("a"), sym("u"));
        st("ab")
    }));
    if full {
        o.push(op("(h[[1]] = h.length)", |s| {
            let n = int(s.h.len() as i64);
            put(&mut s.h, ints(&[1]), n.clone());
            n
        }));
        o.push(op("h.each { |k, v| h.delete(1) }.size", |s| {
            del(&mut s.h, &int(1));
            int(s.h.len() as i64)
        }));
        o.push(op("h.each { |k, v| h[k] = [v] }.size", |s| {
            for (_, v) in s.h.iter_mut() {
                *v = arr(vec![v.clone()]);
            }
            int(s.h.len() as i64)
        }));
        o.push(op("h.each_key { |k| h.delete(k) }.equal?(h)", |s| {
            s.h.clear();
            V::True
        }));
    }
    o
}

fn queries() -> Vec<Op> {
    let mut o = vec![];
    for v in [sym("v"), V::Nil, int(1), V::Float(1.0), int(3)] {
        o.push(op(format!("h.has_value?({})", v.lit()), move |s| boolean(s.h.iter().any(|(_, x)| x.req(&v)))));
    }
    for k in keys() {
        for m in ["has_key?", "key?", "include?", "member?"] {
            let k = k.clone();
            o.push(op(format!("h.{m}({})", k.lit()), move |s| boolean(find(&s.h, &k).is_some())));
        }
        let (k1, k2, k3) = (k.clone(), k.clone(), k.clone());
        o.push(op(format!("h.fetch({}) {{ |k| [k, 5] }}", k.lit()), move |s| get(&s.h, &k1).unwrap_or(arr(vec![k1.clone(), int(5)]))));
        o.push(op(format!("begin; h.fetch({}); rescue; :raised; end", k.lit()), move |s| get(&s.h, &k2).unwrap_or(sym("raised"))));
        o.push(op(format!("begin; h.fetch({}, nil); rescue; :raised; end", k.lit()), move |s| get(&s.h, &k3).unwrap_or(V::Nil)));
    }
    o.push(op("h.default", |_| V::Nil));
    o.push(op("h.size", |s| int(s.h.len() as i64)));
    o.push(op("h.inspect", |s| V::Str(hv(&s.h).inspect())));
    o.push(op("h.compact", |s| V::Hash(s.h.iter().filter(|(_, v)| *v != V::Nil).cloned().collect())));
    for m in ["select", "filter", "find_all"] {
        // find_all of a Hash gives pairs in Ruby; here it is an alias of select
        if m != "find_all" {
            o.push(op(format!("h.{m} {{ |k, v| k == 1 || v == :v }}"), |s| {
                V::Hash(s.h.iter().filter(|(k, v)| k.req(&int(1)) || v.req(&sym("v"))).cloned().collect())
            }));
        }
    }
    o.push(op("h.reject { |k, v| v == :v }", |s| V::Hash(s.h.iter().filter(|(_, v)| !v.req(&sym("v"))).cloned().collect())));
    o.push(op("h.merge", |s| hv(&s.h)));
    o.push(op("h.merge(h)", |s| hv(&s.h)));
    o.push(op("h.merge({2 => 1}, {:a => 3, 2 => 4})", |s| {
        let mut n = s.h.clone();
        put(&mut n, int(2), int(4));
        put(&mut n, sym("a"), int(3));
        hv(&n)
    }));
    o.push(op("{2 => 1, :a => 7}.merge(h)", |s| {
        let mut n = vec![(int(2), int(1)), (sym("a"), int(7))];
        for (k, v) in &s.h {
            put(&mut n, k.clone(), v.clone());
        }
        hv(&n)
    }));
    o.push(op("h.merge({1 => 8, :a => 9}) { |k, o, n| [k, o, n] }", |s| {
        let mut n = s.h.clone();
        for (k, v) in [(int(1), int(8)), (sym("a"), int(9))] {
            let v = match get(&n, &k) {
                Some(o) => arr(vec![k.clone(), o, v]),
                None => v,
            };
            put(&mut n, k, v);
        }
        hv(&n)
    }));
    o.push(op("h.merge({9 => 1, :a => 2}, {9 => 3, :b => 4}, {:a => 5, 9 => 6}) { |k, o, n| [k, o, n] }", |s| {
        let mut n = s.h.clone();
        for (k, v) in [(int(9), int(1)), (sym("a"), int(2)), (int(9), int(3)), (sym("b"), int(4)), (sym("a"), int(5)), (int(9), int(6))] {
            let v = match get(&n, &k) {
                Some(o) => arr(vec![k.clone(), o, v]),
                None => v,
            };
            put(&mut n, k, v);
        }
        hv(&n)
    }));
    o.push(op("{**h, 1 => 5}", |s| {
        let mut n = s.h.clone();
        put(&mut n, int(1), int(5));
        hv(&n)
    }));
    o.pop(); // ** in hash literals is not supported
    o.push(op("h.invert", |s| {
        let mut n = vec![];
        for (k, v) in &s.h {
            put(&mut n, v.clone(), k.clone());
        }
        hv(&n)
    }));
    o.push(op("h == h.dup", |_| V::True));
    o.push(op("h != h.dup", |_| V::False));
    o.push(op("h.dup.equal?(h)", |_| V::False));
    o.push(op("h == h.merge({zz: 1})", |_| V::False));
    o.push(op("h.eql?(h.clone)", |_| V::True));
    o.push(op("(r = {}; h.keys.reverse.each { |k| r[k] = h[k] }; [r == h, h == r, {r => 1}[h]])", |_| arr(vec![V::True, V::True, int(1)])));
    o.push(op("(x = 0; h.each { |k, v| x += 1; break [k, v] if x == 2 })", |s| {
        if s.h.len() >= 2 {
            arr(vec![s.h[1].0.clone(), s.h[1].1.clone()])
        } else {
            hv(&s.h)
        }
    }));
    o.push(op("(q = []; h.each_pair { |k, (v, w)| q << [k, v] }; q)", |s| {
        arr(s.h
            .iter()
            .map(|(k, v)| {
                let v = match v {
                    V::Arr(a) => a.get(0).cloned().unwrap_or(V::Nil),
                    v => v.clone(),
                };
                arr(vec![k.clone(), v])
            })
            .collect())
    }));
    o.pop(); // nested parameters are not supported
    o.push(op("h.keys.equal?(h.keys)", |_| V::False));
    o.push(op("(k = h.keys; k << 5; v = h.values; v.clear; h.size)", |s| int(s.h.len() as i64)));
    o
}

fn history(start: &str, s0: &S, ops: &[&Op]) -> Case {
    let mut s = s0.clone();
    let mut code = format!("h = {start}; g = nil; t = []\n");
    let mut exp = vec![];
    for o in ops {
        code += &format!("t << [{}, obs(h, g)]\n", o.src);
        let v = (o.f)(&mut s);
        exp.push(arr(vec![v, obs(&s)]));
    }
    code += "t";
    let key = format!("h = {start}; {}", ops.iter().map(|o| o.src.clone()).collect::<Vec<_>>().join("; "));
    Case::f(code, arr(exp).inspect()).key(key)
}

// ---- compare_by_identity: keys with an object identity

fn ident_cases(depth: usize) -> Vec<Case> {
    // (how it is written, its value, identity: None is a new object each time)
    let ks: Vec<(&str, V, Option<u32>)> = vec![
        ("s", st("x"), Some(1)),
        ("r", st("x"), Some(2)),
        ("\"x\"", st("x"), None),
        ("1", int(1), Some(3)),
        ("1.0", V::Float(1.0), Some(4)),
        (":x", sym("x"), Some(5)),
        ("w", ints(&[1]), Some(6)),
        ("[1]", ints(&[1]), None),
        ("nil", V::Nil, Some(7)),
    ];
    let n = ks.len();
    // operations: set k, delete k, lookup k, then: identity, select, dup, compact
    let nops = 3 * n + 4;
    let mut out = vec![];
    let mut fresh;
    for code_no in 0..nops.pow(depth as u32) {
        let mut c = code_no;
        let mut m: Vec<(V, u32, V)> = vec![(st("x"), 1, int(0)), (int(1), 3, int(1))];
        let mut ident = true;
        fresh = 100;
        let mut code = String::from("s = \"x\"; r = \"x\"; w = [1]; t = []; h = {}.compare_by_identity; h[s] = 0; h[1] = 1\n");
        let mut exp = vec![];
        for d in 0..depth {
            let o = c % nops;
            c /= nops;
            if o < 3 * n {
                let (txt, v, id) = &ks[o % n];
                let id = id.unwrap_or_else(|| {
                    fresh += 1;
                    fresh
                });
                let pos = m.iter().position(|x| x.1 == id);
                let val = int(d as i64 + 10);
                match o / n {
                    0 => {
                        code += &format!("t << (h[{txt}] = {})\n", d + 10);
                        match pos {
                            Some(i) => m[i].2 = val.clone(),
                            None => m.push((v.clone(), id, val.clone())),
                        }
                        exp.push(val);
                    }
                    1 => {
                        code += &format!("t << h.delete({txt})\n");
                        exp.push(match pos {
                            Some(i) => m.remove(i).2,
                            None => V::Nil,
                        });
                    }
                    _ => {
                        code += &format!("t << [h[{txt}], h.key?({txt})]\n");
                        let p = pos.map(|i| m[i].2.clone());
                        exp.push(arr(vec![p.clone().unwrap_or(V::Nil), boolean(p.is_some())]));
                    }
                }
            } else {
                let (txt, v) = match o - 3 * n {
                    0 => ("h.compare_by_identity; t << 0", int(0)),
                    1 => {
                        m.clear();
                        ("h.clear; t << 1", int(1))
                    }
                    2 => ("h = h.dup; t << 2", int(2)),
                    _ => {
                        m.push((ints(&[1]), 999 + d as u32, V::Nil));
                        m.retain(|x| x.2 != V::Nil);
                        ("h[[1]] = nil; h = h.compact; t << 3", int(3))
                    }
                };
                code += txt;
                code.push('\n');
                exp.push(v);
            }
            let _ = &mut ident;
        }
        code += "[t, h.to_s, h.keys, h.values, h.size]";
        let e = arr(vec![
            arr(exp),
            V::Str(V::Hash(m.iter().map(|x| (x.0.clone(), x.2.clone())).collect()).inspect()),
            arr(m.iter().map(|x| x.0.clone()).collect()),
            arr(m.iter().map(|x| x.2.clone()).collect()),
            int(m.len() as i64),
        ]);
        let key = code.replace('\n', "; ");
        out.push(Case::f(code, e.inspect()).key(key));
    }
    out
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let full = mutators(true);
    let core = mutators(false);
    let q = queries();
    ctx.bound("keys", keys().iter().map(|k| k.lit()).collect::<Vec<_>>().join(", "));
    ctx.bound("mutators", format!("{} full, {} core; {} queries", full.len(), core.len(), q.len()));
    let e = S::default();
    let big = S { h: vec![(int(1), int(1)), (sym("a"), sym("v")), (st("a"), V::Nil), (V::Nil, ints(&[1])), (ints(&[1]), int(3))], g: None };
    let starts: Vec<(String, &S)> = vec![("{}".into(), &e), (hv(&big.h).lit(), &big), ("Hash.new".into(), &e)];

    let d1 = if t { 3 } else { 2 };
    ctx.section("every mutator sequence over the full alphabet");
    ctx.bound("depth, full alphabet", d1);
    for (src, s0) in &starts {
        let n = full.len();
        ctx.states += n.pow(d1 as u32) as u64;
        ctx.transitions += (n.pow(d1 as u32) * d1) as u64;
        let full = &full;
        Runner::new(ctx).prelude(PRELUDE).batch(100).run((0..n.pow(d1 as u32)).map(move |mut i| {
            let mut v = vec![];
            for _ in 0..d1 {
                v.push(&full[i % n]);
                i /= n;
            }
            history(src, s0, &v)
        }));
    }
    let d2 = if t { 4 } else { 3 };
    ctx.section("every mutator sequence over the core alphabet");
    ctx.bound("depth, core alphabet", d2);
    for (src, s0) in &starts[..2] {
        let n = core.len();
        ctx.states += n.pow(d2 as u32) as u64;
        ctx.transitions += (n.pow(d2 as u32) * d2) as u64;
        let core = &core;
        Runner::new(ctx).prelude(PRELUDE).batch(100).run((0..n.pow(d2 as u32)).map(move |mut i| {
            let mut v = vec![];
            for _ in 0..d2 {
                v.push(&core[i % n]);
                i /= n;
            }
            history(src, s0, &v)
        }));
    }
    ctx.section("every query after every sequence of two mutators");
    let m2 = if t { &full } else { &core };
    for (src, s0) in &starts[..2] {
        let n = m2.len();
        ctx.states += (n * n * q.len()) as u64;
        let q = &q;
        Runner::new(ctx).prelude(PRELUDE).batch(100).run((0..n * n).flat_map(move |i| {
            q.iter().map(move |x| history(src, s0, &[&m2[i % n], &m2[i / n], x]))
        }));
    }
    ctx.section("every pair of mutators, collecting at every safe point");
    for (src, s0) in &starts[..2] {
        let n = full.len();
        let full = &full;
        let mut r = Runner::new(ctx).prelude(PRELUDE).batch(20);
        r.gc = Gc { controlled: true, every: true, ..Gc::default() };
        r.run((0..n * n).map(move |i| history(src, s0, &[&full[i % n], &full[i / n]])));
    }
    ctx.section("compare_by_identity");
    let c = ident_cases(if t { 3 } else { 2 });
    ctx.states += c.len() as u64;
    Runner::new(ctx).prelude(PRELUDE).batch(100).run(c.into_iter());
    ctx.section("sort and literals");
    let mut c = vec![];
    for (a, b) in [
        ("{b: 1, a: 2}.sort", "[[:a, 2], [:b, 1]]"),
        ("{3 => 1, 1 => 2, 2 => 0}.sort", "[[1, 2], [2, 0], [3, 1]]"),
        ("{}.sort", "[]"),
        ("{\"b\" => 1, \"a\" => 1}.sort", "[[\"a\", 1], [\"b\", 1]]"),
        ("{1 => 1, 1.0 => 2, 1 => 3}", "{1=>3, 1.0=>2}"),
        ("{a: 1, \"a\": 2, :a => 3}", "{:a=>3}"),
        ("{\"a\" => 1, \"a\" => 2}", "{\"a\"=>2}"),
        ("x = 5; {x => 1, 5 => 2, (x + 0) => 3}", "{5=>3}"),
        ("k = \"k\"; h = {k => 1}; k << \"z\"; [h, h[\"k\"], h[k]]", "[{\"k\"=>1}, 1, nil]"),
        ("k = \"k\"; h = {k => 1}; h[k] = 2; k << \"z\"; h[k] = 3; h", "{\"k\"=>2, \"kz\"=>3}"),
        ("h = {}; h[h.size] = h.size; h[h.size] = h.size; h", "{0=>0, 1=>1}"),
        ("h = {a: 1}; h[:a] += 5; h[:b] = h[:a]; h", "{:a=>6, :b=>6}"),
        ("h = {}; 300.times { |i| h[i * 7] = i }; 300.times { |i| h.delete(i * 7) if i % 3 == 0 }; 50.times { |i| h[i * 21] = :n }; [h.size, h.keys[0, 4], h.keys[-3, 3], h.keys.uniq.size, h[7 * 298], h[7 * 297]]", "[250, [7, 14, 28, 35], [987, 1008, 1029], 250, 298, nil]"),
        ("def mZZ; {a: [1]}; end; mZZ[:b] = 1; x = mZZ; x[:a] = 5; [x, mZZ]", "[{:a=>5}, {:a=>[1]}]"),
        ("h = {a: {b: {c: 1}}}; h[:a][:b][:d] = 2; h", "{:a=>{:b=>{:c=>1, :d=>2}}}"),
        ("h = {b: 1}; h.each { |x| return x }", "[:b, 1]"),
        ("h = {b: 1, c: 2}; r = []; h.each { |x, y = 9, *z| r << [x, y, z] }; r", "[[:b, 1, []], [:c, 2, []]]"),
        ("h = {b: 1, c: 2}; r = []; h.each { |*z| r << z }; r", "[[[:b, 1]], [[:c, 2]]]"),
        ("h = {b: 1, c: 2}; h.select { |*z| z == [:b, 1] }", "{:b=>1}"),
    ] {
        c.push(Case::f(a, b));
    }
    Runner::new(ctx).prelude(PRELUDE).run(c.into_iter());
}
