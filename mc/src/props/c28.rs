//! C28: sorting and searching, for every order of the input.
use crate::case::*;
use crate::report::Ctx;

fn arr(v: &[i64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}

fn opt(x: Option<i64>) -> String {
    x.map_or("nil".into(), |x| x.to_string())
}

/// Everything there is to ask of one array of small integers.
fn ask(v: &mut Vec<Case>, a: &[i64], full: bool) {
    let s = arr(a);
    let mut up = a.to_vec();
    up.sort();
    let down: Vec<i64> = up.iter().rev().copied().collect();
    let mut uniq: Vec<i64> = vec![];
    for x in a {
        if !uniq.contains(x) {
            uniq.push(*x);
        }
    }
    let mut put = |code: String, exp: String| v.push(Case::f(&format!("a = {s}; {code}"), exp));
    put(
        "r = a.sort; q = a.sort { |x, y| y <=> x }; [r, q, a.sort_by { |x| x }, a.sort_by { |x| -x }, a]".into(),
        format!("[{}, {}, {}, {}, {s}]", arr(&up), arr(&down), arr(&up), arr(&down)),
    );
    put("[a.min, a.max, a.uniq, a]".into(), format!("[{}, {}, {}, {s}]", opt(up.first().copied()), opt(up.last().copied()), arr(&uniq)));
    put(
        "t = []; r = a.each_with_index.map { |x, i| [x, i] }.sort_by { |e| e[0] }; r.each { |e| t << e[0] }; [t, r.map { |e| e[1] }.sort, r.all? { |e| a[e[1]] == e[0] }]".into(),
        format!("[{}, {}, true]", arr(&up), arr(&(0..a.len() as i64).collect::<Vec<_>>())),
    );
    put(
        "ok = true; r = a.map { |x| [x, x.to_s] }.sort { |x, y| ok = false unless a.include?(x[0]) && a.include?(y[0]) && x[1] == x[0].to_s; x[0] <=> y[0] }; [ok, r.map { |e| e[1] }]".into(),
        format!("[true, [{}]]", up.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(", ")),
    );
    if !full {
        return;
    }
    for k in -1..5i64 {
        let at = a.iter().position(|x| *x == k).map(|x| x as i64);
        let ge = up.iter().position(|x| *x >= k);
        put(
            format!("[a.index({k}), a.find_index {{ |x| x == {k} }}, a.include?({k}), a.count({k}), a.find {{ |x| x >= {k} }}, a.detect {{ |x| x == {k} }}, a.select {{ |x| x < {k} }}, a.reject {{ |x| x < {k} }}, a.partition {{ |x| x < {k} }}]"),
            {
                let (l, g): (Vec<i64>, Vec<i64>) = a.iter().partition(|x| **x < k);
                format!(
                    "[{0}, {0}, {1}, {2}, {3}, {4}, {5}, {6}, [{5}, {6}]]",
                    opt(at),
                    at.is_some(),
                    a.iter().filter(|x| **x == k).count(),
                    opt(a.iter().find(|x| **x >= k).copied()),
                    opt(a.iter().find(|x| **x == k).copied()),
                    arr(&l),
                    arr(&g)
                )
            },
        );
        if a == up {
            put(
                format!("[a.bsearch {{ |x| x >= {k} }}, (a.bsearch {{ |x| {k} <=> x }} || 9) == {k}, a.bsearch {{ |x| x > {k} }}]"),
                format!("[{}, {}, {}]", opt(ge.map(|i| up[i])), up.contains(&k), opt(up.iter().find(|x| **x > k).copied())),
            );
        }
    }
    put("a.uniq { |x| x % 2 }".into(), {
        let mut seen: Vec<i64> = vec![];
        let mut r = vec![];
        for x in a {
            if !seen.contains(&(x % 2)) {
                seen.push(x % 2);
                r.push(*x);
            }
        }
        arr(&r)
    });
    put("b = a.dup; q = b.uniq!; [b, q.nil?]".into(), format!("[{}, {}]", arr(&uniq), uniq.len() == a.len()));
}

fn small(ctx: &mut Ctx) {
    ctx.section("every short array over four keys");
    let len = if ctx.thorough { 6 } else { 5 };
    ctx.bound("length", len);
    let mut v = vec![];
    for n in 0..=len {
        for k in 0..4usize.pow(n) {
            let a: Vec<i64> = (0..n).map(|i| (k / 4usize.pow(i) % 4) as i64).collect();
            ask(&mut v, &a, n <= 5);
        }
    }
    // every permutation of more
    let n = if ctx.thorough { 8 } else { 7 };
    let mut p: Vec<i64> = (0..n).collect();
    let mut c = vec![0usize; n as usize];
    ask(&mut v, &p, false);
    let mut i = 0;
    while i < n as usize {
        if c[i] < i {
            if i % 2 == 0 {
                p.swap(0, i)
            } else {
                p.swap(c[i], i)
            }
            let s = arr(&p);
            let up = arr(&(0..n).collect::<Vec<_>>());
            let dn = arr(&(0..n).rev().collect::<Vec<_>>());
            v.push(Case::f(&format!("a = {s}; [a.sort, a.sort {{ |x, y| y <=> x }}, a.sort_by {{ |x| -x }}, a.min, a.max, a]"), format!("[{up}, {dn}, {dn}, 0, {}, {s}]", n - 1)));
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(60).run(v.into_iter());
}

fn structured(ctx: &mut Ctx) {
    ctx.section("long arrays made of runs");
    let lens: &[i64] = if ctx.thorough { &[10, 11, 19, 20, 21, 22, 31, 32, 33, 40, 63, 64, 65, 66, 127, 128, 129, 200] } else { &[10, 20, 21, 32, 33, 64, 65, 129] };
    let mut v = vec![];
    for &n in lens {
        let mut shapes: Vec<Vec<i64>> = vec![
            (0..n).collect(),
            (0..n).rev().collect(),
            vec![7; n as usize],
            (0..n).map(|i| if i < n / 2 { i } else { n - i }).collect(),
            (0..n).map(|i| if i < n / 2 { n - i } else { i }).collect(),
            (0..n).map(|i| i * 7919 % n).collect(),
            (0..n).map(|i| i % 2).collect(),
        ];
        for p in 2..8 {
            shapes.push((0..n).map(|i| i % p).collect());
            shapes.push((0..n).map(|i| i / p).collect());
            shapes.push((0..n).map(|i| (n - i) / p * p + i % p).collect());
        }
        let step = if ctx.thorough { 1 } else { (n / 10).max(1) };
        for k in (1..n).step_by(step as usize) {
            // two runs in each combination of directions, and a rotation
            shapes.push((0..k).chain(0..n - k).collect());
            shapes.push((0..k).rev().chain(0..n - k).collect());
            shapes.push((0..k).chain((0..n - k).rev()).collect());
            shapes.push((k..n).chain(0..k).collect());
            // one element out of place
            let mut a: Vec<i64> = (0..n).collect();
            a[k as usize] = -1;
            shapes.push(a.clone());
            a[k as usize] = n + 5;
            shapes.push(a.clone());
            a[k as usize] = 0;
            shapes.push(a);
            for j in (k + 1..n).step_by((step * 3) as usize) {
                let mut a: Vec<i64> = (0..n).collect();
                a.swap(k as usize, j as usize);
                shapes.push(a);
                // three runs
                shapes.push((0..k).chain((0..j - k).rev()).chain(0..n - j).collect());
            }
        }
        for a in shapes {
            ask(&mut v, &a, false);
        }
        // binary search for every threshold
        let a: Vec<i64> = (0..n).map(|i| i * 2).collect();
        for k in -1..=2 * n {
            v.push(Case::f(
                &format!("a = {}; [a.bsearch {{ |x| x >= {k} }}, a.bsearch {{ |x| {k} <=> x }}]", arr(&a)),
                format!("[{}, {}]", opt(a.iter().find(|x| **x >= k).copied()), opt(a.iter().find(|x| **x == k).copied())),
            ));
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(30).run(v.into_iter());
}

fn kinds(ctx: &mut Ctx) {
    ctx.section("numbers of every representation, strings and arrays");
    let mut v = vec![];
    // in ascending order
    let tables: &[&[&str]] = &[
        &["-18446744073709551616", "-4611686018427387905", "-1e10", "-1.5", "0", "0.25", "4611686018427387904"],
        &["-9223372036854775809", "-2", "-1.0", "1", "1.5", "2", "9223372036854775808", "18446744073709551617"],
        &["\"\"", "\"A\"", "\"a\"", "\"aa\"", "\"ab\"", "\"b\"", "\"\u{3042}\"", "\"\u{3042}a\""],
        &["[]", "[0]", "[0, 0]", "[0, 1]", "[1]", "[1, [0]]", "[1, [1]]", "[2, \"x\"]"],
        &["[\"a\", 1]", "[\"a\", 2]", "[\"b\"]", "[\"b\", nil]"],
        &[":A", ":a", ":aa", ":b"],
    ];
    for (ti, t) in tables.iter().enumerate() {
        let m = t.len();
        let n = if m > 4 { 4 } else { 4u32 };
        let show = |i: &[usize]| format!("[{}]", i.iter().map(|k| disp(t[*k])).collect::<Vec<_>>().join(", "));
        for d in 1..=n {
            for k in 0..m.pow(d) {
                let ix: Vec<usize> = (0..d).map(|i| k / m.pow(i) % m).collect();
                let mut up = ix.clone();
                up.sort();
                let dn: Vec<usize> = up.iter().rev().copied().collect();
                let lit = format!("[{}]", ix.iter().map(|k| t[*k]).collect::<Vec<_>>().join(", "));
                v.push(Case::f(&format!("a = {lit}; [a.sort, a.sort {{ |x, y| y <=> x }}, a.sort_by {{ |x| x }}, a.map {{ |x| [x, 1] }}.sort.map {{ |x| x[0] }}]"), format!("[{0}, {1}, {0}, {0}]", show(&up), show(&dn))));
                if d <= 3 {
                    let (mn, mx) = (disp(t[up[0]]), disp(t[up[d as usize - 1]]));
                    v.push(Case::f(&format!("a = {lit}; [a.min, a.max]"), format!("[{mn}, {mx}]")));
                    if ti < 3 {
                        let mut u: Vec<usize> = vec![];
                        for x in &ix {
                            if !u.contains(x) {
                                u.push(*x);
                            }
                        }
                        v.push(Case::f(&format!("{lit}.uniq"), show(&u)));
                    }
                }
            }
        }
    }
    // objects with an order of their own
    let pre = "class KZZ; include Comparable; attr_reader :k; def initialize(k); @k = k; end; def <=>(o); @k <=> o.k; end; end\n";
    for k in 0..81usize {
        let a: Vec<i64> = (0..4).map(|i| (k / 3usize.pow(i) % 3) as i64).collect();
        let mut up = a.clone();
        up.sort();
        v.push(Case::top(
            &format!("{pre}a = {}.map {{ |x| KZZ.new(x) }}\np a.sort.map {{ |x| x.k }}, a.sort {{ |x, y| y <=> x }}.map {{ |x| x.k }}, a.sort_by {{ |x| x }}.map {{ |x| x.k }}, a.max.k, a.min.k", arr(&a)),
            format!("{0}\n{1}\n{0}\n{2}\n{3}\n", arr(&up), arr(&up.iter().rev().copied().collect::<Vec<_>>()), up[3], up[0]),
        ));
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(60).run(v.into_iter());
}

fn disp(s: &str) -> String {
    match s {
        "-1e10" => "-10000000000.0".into(),
        "1e300" => "1.0e+300".into(),
        _ => s.into(),
    }
}

fn failing(ctx: &mut Ctx) {
    ctx.section("comparisons that fail, leave, disagree or meddle");
    let mut v = vec![];
    let bads = ["nil", "\"a\"", ":s", "Object.new", "[1]", "{}", "(0.0/0.0)"];
    for b in bads {
        for a in [format!("[1, {b}]"), format!("[{b}, 1]"), format!("[2, 1, {b}, 0]"), format!("[3, {b}, 1.5]")] {
            v.push(Case::f(&format!("a = {a}; a.sort"), "!ArgumentError".to_string()));
            v.push(Case::f(&format!("a = {a}; a.sort_by {{ |x| x }}"), "!ArgumentError".to_string()));
            v.push(Case::f(&format!("a = {a}; a.sort {{ |x, y| x <=> y }}"), "!ArgumentError".to_string()));
            if b != "(0.0/0.0)" {
                v.push(Case::f(&format!("a = {a}; a.max"), "!ArgumentError".to_string()));
                v.push(Case::f(&format!("a = {a}; a.min"), "!ArgumentError".to_string()));
            }
        }
    }
    for n in [2usize, 3, 5, 21, 40] {
        let a: Vec<i64> = (0..n as i64).map(|i| i * 7 % n as i64).collect();
        let s = arr(&a);
        let mut up = a.clone();
        up.sort();
        for c in ["nil", "\"x\"", "Object.new", "[]"] {
            v.push(Case::f(&format!("{s}.sort {{ |x, y| {c} }}"), "!ArgumentError".to_string()));
        }
        // whatever is answered, the result is a permutation
        for c in ["1", "-1", "0", "x", "-x", "x + y", "1.5", "-0.5", "2**70", "-(2**70)", "(n += 1).odd? ? 1 : -1", "(n += 1) % 3 - 1", "(n += 1) % 5 - 2"] {
            v.push(Case::f(&format!("n = 0; a = {s}; r = a.sort {{ |x, y| {c} }}; [r.size, r.sort, a]"), format!("[{n}, {}, {s}]", arr(&up))));
        }
        v.push(Case::f(&format!("{s}.sort {{ |x, y| (x <=> y) * 1.5 }}"), arr(&up)));
        v.push(Case::f(&format!("{s}.sort {{ |x, y| (x <=> y) * 2**70 }}"), arr(&up)));
        for k in 0..4usize {
            if k >= n - 1 {
                continue;
            }
            v.push(Case::f(&format!("n = 0; a = {s}; r = a.sort {{ |x, y| break :out if (n += 1) > {k}; x <=> y }}; [r, n, a]"), format!("[:out, {}, {s}]", k + 1)));
            v.push(Case::f(&format!("n = 0; a = {s}; r = (begin; a.sort {{ |x, y| raise IndexError if (n += 1) > {k}; x <=> y }}; rescue IndexError; :resc; end); [r, n, a]"), format!("[:resc, {}, {s}]", k + 1)));
            v.push(Case::f(&format!("n = 0; a = {s}; r = a.sort_by {{ |x| break :out if (n += 1) > {k}; x }}; [r, n, a]"), format!("[:out, {}, {s}]", k + 1)));
            v.push(Case::f(&format!("n = 0; a = {s}; r = (begin; a.sort_by {{ |x| raise IndexError if (n += 1) > {k}; x }}; rescue IndexError; :resc; end); [r, n, a]"), format!("[:resc, {}, {s}]", k + 1)));
            v.push(Case::f(&format!("def mzz(a); n = 0; a.sort {{ |x, y| return [n, :ret] if (n += 1) > {k}; x <=> y }}; end; mzz({s})"), format!("[{}, :ret]", k + 1)));
            for m in ["max", "min"] {
                v.push(Case::f(&format!("{s}.{m}"), opt(if m == "max" { up.last().copied() } else { up.first().copied() })));
            }
        }
        // changing the receiver meanwhile
        for c in ["a.clear", "a << 99", "a.shift", "a[0] = 50", "a.concat([1] * 100)", "a.reverse!", "a.sort"] {
            v.push(Case::f(&format!("a = {s}; r = a.sort {{ |x, y| {c}; x <=> y }}; r == {s}.sort"), "true".to_string()));
            v.push(Case::f(&format!("a = {s}; r = (a.sort_by {{ |x| {c} if a.size < 300; x.to_s }}; 1) rescue 2; [1, 2].include?(r)"), "true".to_string()));
        }
        v.push(Case::f(&format!("{s}.sort {{ |x, y| next y <=> x }}"), arr(&up.iter().rev().copied().collect::<Vec<_>>())));
        v.push(Case::f(&format!("{s}.sort {{ |x, y| [3, 2, 1].sort {{ |p, q| p <=> q }} == [1, 2, 3] ? x <=> y : 0 }}"), arr(&up)));
        v.push(Case::f(&format!("pr = proc {{ |x, y| x <=> y }}; {s}.sort(&pr)"), arr(&up)));
        v.push(Case::f(&format!("l = lambda {{ |x, y| y <=> x }}; {s}.sort(&l)"), arr(&up.iter().rev().copied().collect::<Vec<_>>())));
    }
    v.push(Case::f("[3, 1, 2].sort(&:<=>)", "[1, 2, 3]"));
    v.push(Case::f("[[2, 1], [1, 2]].sort { |(a, b), c| a <=> c[0] }", ANY));
    v.push(Case::f("[].sort { raise }", "[]"));
    v.push(Case::f("[1].sort { raise }", "[1]"));
    v.push(Case::f("[[], [nil], [1, nil]].map { |x| x.max rescue :err }", "[nil, nil, :err]"));
    for bad in ["[1, 2].bsearch { |x| \"a\" }", "[1].bsearch { |x| :s }", "[2, 1].sort(1)"] {
        v.push(Case::f(bad, ANYERR));
    }
    v.push(Case::f("[[1, 2, 3].bsearch { |x| nil }, [1, 2, 3].bsearch { |x| false }, [1, 2, 3].bsearch { |x| true }, [].bsearch { |x| true }, [1, 2, 3].bsearch { |x| 0 } != nil, [4, 7, 10].bsearch { |x| 7.0 <=> x }]", "[nil, nil, 1, nil, true, 7]"));
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(20).run(v.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    small(ctx);
    structured(ctx);
    kinds(ctx);
    failing(ctx);
}
