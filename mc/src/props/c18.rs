//! C18: ranges and counting loops visit exactly the prescribed values.
use crate::case::*;
use crate::report::Ctx;

fn arr(v: &[i128]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}

fn elems(a: i128, b: i128, ex: bool) -> Vec<i128> {
    if ex {
        (a..b).collect()
    } else {
        (a..=b).collect()
    }
}

fn lit(x: i128) -> String {
    if x < 0 {
        format!("({x})")
    } else {
        x.to_string()
    }
}

/// Windows of bounds: around zero and around each border of the representations of integers.
fn windows(thorough: bool) -> Vec<Vec<i128>> {
    let w = if thorough { 3 } else { 2 };
    let mut v = vec![if thorough { (-5..=6).collect::<Vec<i128>>() } else { (-3..=4).collect() }];
    for c in [1i128 << 62, -(1i128 << 62), 1i128 << 63, -(1i128 << 63), 1i128 << 64, 1i128 << 53] {
        v.push((c - w..=c + w).collect());
    }
    v
}

/// Ways to write one range.
fn forms(a: i128, b: i128, ex: bool) -> Vec<(String, String)> {
    let op = if ex { "..." } else { ".." };
    vec![
        (String::new(), format!("({}{op}{})", lit(a), lit(b))),
        (format!("a = {a}; b = {b}; "), format!("(a{op}b)")),
        (String::new(), format!("Range.new({a}, {b}, {ex})")),
    ]
}

fn ranges(ctx: &mut Ctx) {
    ctx.section("ranges of integers");
    let thorough = ctx.thorough;
    let mut v: Vec<Case> = vec![];
    for w in windows(thorough) {
        for &a in &w {
            for &b in &w {
                for ex in [false, true] {
                    let e = elems(a, b, ex);
                    for (fi, (pre, r)) in forms(a, b, ex).into_iter().enumerate() {
                        let mut put = |code: String, exp: String| v.push(Case::f(&format!("{pre}{}", code.replace("R!", &r)), exp));
                        put("R!.to_a".into(), arr(&e));
                        put("z = []; r = R!; q = r.each { |x| z << x }; [z, q.equal?(r)]".into(), format!("[{}, true]", arr(&e)));
                        put("z = []; for x in R! do z << x; end; [z, x]".into(), format!("[{}, {}]", arr(&e), e.last().map_or("nil".into(), |x| x.to_string())));
                        put("R!.map { |x| x - 1 }".into(), arr(&e.iter().map(|x| x - 1).collect::<Vec<_>>()));
                        if fi > 0 && !thorough {
                            continue;
                        }
                        put("r = R!; [r.begin, r.end, r.first, r.last, r.exclude_end?, r.inspect, r.to_s]".into(), {
                            let s = format!("{a}{}{b}", if ex { "..." } else { ".." });
                            format!("[{a}, {b}, {a}, {b}, {ex}, \"{s}\", \"{s}\"]")
                        });
                        for n in 0..4usize {
                            put(format!("[R!.first({n}), R!.last({n})]"), format!("[{}, {}]", arr(&e[..n.min(e.len())]), arr(&e[e.len() - n.min(e.len())..])));
                        }
                        put("R!.flat_map { |x| x.even? ? [x, [x]] : x }".into(), format!("[{}]", e.iter().map(|x| if x % 2 == 0 { format!("{x}, [{x}]") } else { x.to_string() }).collect::<Vec<_>>().join(", ")));
                        // leaving and skipping inside of the iteration
                        for k in &w {
                            let upto: Vec<i128> = e.iter().copied().take_while(|x| x != k).collect();
                            let brk = e.contains(k);
                            let seen = if brk { [upto.clone(), vec![*k]].concat() } else { e.clone() };
                            put(
                                format!("z = []; q = R!.each {{ |x| z << x; break :out if x == {k} }}; [z, q == :out]"),
                                format!("[{}, {brk}]", arr(&seen)),
                            );
                            put(format!("z = []; for x in R! do; next if x == {k}; z << x; end; z"), arr(&e.iter().copied().filter(|x| x != k).collect::<Vec<_>>()));
                            put(format!("z = []; for x in R! do; z << x; break if x == {k}; end; [z, x]"), format!("[{}, {}]", arr(&seen), seen.last().map_or("nil".into(), |x| x.to_string())));
                            put(format!("R!.all? {{ |x| x < {k} }}"), format!("{}", e.iter().all(|x| x < k)));
                            put(format!("R!.map {{ |x| next :s if x == {k}; x }}"), format!("[{}]", e.iter().map(|x| if x == k { ":s".to_string() } else { x.to_string() }).collect::<Vec<_>>().join(", ")));
                            let inc = e.contains(k);
                            put(
                                format!("r = R!; [r.include?({k}), r === {k}, (case {k} when r then true else false end)]"),
                                format!("[{inc}, {inc}, {inc}]"),
                            );
                            if k.abs() < 1 << 50 {
                                let half = *k as f64 + 0.5;
                                let inh = (a as f64) <= half && if ex { half < b as f64 } else { half <= b as f64 };
                                put(format!("r = R!; [r.include?({half:?}), r === {half:?}, r.include?({k}.0), r === {k}.0]"), format!("[{inh}, {inh}, {inc}, {inc}]"));
                            }
                        }
                        // an external enumerator
                        put(
                            "q = R!.each; z = []; begin; while true; z << q.next; end; rescue StopIteration; z << :stop; end; z".into(),
                            format!("[{}:stop]", e.iter().map(|x| format!("{x}, ")).collect::<String>()),
                        );
                        // bounds are evaluated once, the loop variable belongs to the body
                        put("z = []; e = 0; for x in R! do; z << x; x += 5; e -= 1; end; z".into(), arr(&e));
                        put("x = :outer; z = []; R!.each { |y| x = y }; x".into(), e.last().map_or(":outer".into(), |x| x.to_string()));
                        put(
                            format!("z = []; R!.each {{ |x| ({}..x).each {{ |y| z << y if y == x }} }}; z", lit(a)),
                            arr(&e),
                        );
                    }
                }
            }
        }
    }
    // windows far from each other: only questions that do not enumerate
    let far: Vec<i128> = windows(false).into_iter().flat_map(|w| vec![w[0], w[w.len() / 2], w[w.len() - 1]]).collect();
    for &a in &far {
        for &b in &far {
            for ex in [false, true] {
                let op = if ex { "..." } else { ".." };
                for &k in &far {
                    let inc = a <= k && if ex { k < b } else { k <= b };
                    v.push(Case::f(&format!("r = ({}{op}{}); [r.include?({k}), r === {k}]", lit(a), lit(b)), format!("[{inc}, {inc}]")));
                }
                if b > a + 10 {
                    v.push(Case::f(
                        &format!("z = []; ({}{op}{}).each {{ |x| z << x; break if z.size == 3 }}; z << ({}{op}{}).first(2)", lit(a), lit(b), lit(a), lit(b)),
                        format!("[{}, {}, {}, [{}, {}]]", a, a + 1, a + 2, a, a + 1),
                    ));
                    v.push(Case::f(&format!("z = []; for x in {}{op}{} do; z << x; break if z.size == 3; end; z", lit(a), lit(b)), format!("[{}, {}, {}]", a, a + 1, a + 2)));
                } else if b < a {
                    v.push(Case::f(&format!("r = ({}{op}{}); [r.to_a, r.map {{ 1 }}, r.each {{ 1 }} == r, r.first(1), r.last(1)]", lit(a), lit(b)), "[[], [], true, [], []]".to_string()));
                }
            }
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

fn fl(x: f64) -> String {
    if x.is_infinite() {
        return if x > 0.0 { "(1.0/0.0)".into() } else { "(-1.0/0.0)".into() };
    }
    format!("{x:?}")
}

fn mixed(ctx: &mut Ctx) {
    ctx.section("ranges with Float bounds and without an end");
    let mut v = vec![];
    let fs = [-3.5, -2.0, -1.5, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0];
    for a in -3i128..=3 {
        for b in fs {
            for ex in [false, true] {
                let op = if ex { "..." } else { ".." };
                let e: Vec<i128> = (a..=5).take_while(|x| if ex { (*x as f64) < b } else { *x as f64 <= b }).collect();
                let r = format!("({}{op}({}))", lit(a), fl(b));
                v.push(Case::f(&format!("z = []; {r}.each {{ |x| z << x }}; [z, {r}.to_a, {r}.map {{ |x| x }}]"), format!("[{0}, {0}, {0}]", arr(&e))));
                v.push(Case::f(&format!("z = []; for x in {r} do; z << x; end; z"), arr(&e)));
                for k in fs {
                    let inc = a as f64 <= k && if ex { k < b } else { k <= b };
                    v.push(Case::f(&format!("[{r}.include?({}), {r} === {}]", fl(k), fl(k)), format!("[{inc}, {inc}]")));
                    let incr = b <= k && if ex { k < a as f64 } else { k <= a as f64 };
                    let rr = format!("(({}){op}{})", fl(b), lit(a));
                    v.push(Case::f(&format!("[{rr}.include?({}), {rr} === {}]", fl(k), fl(k)), format!("[{incr}, {incr}]")));
                    if k == k.trunc() {
                        v.push(Case::f(&format!("[{r}.include?({}), {rr} === {}]", k as i64, k as i64), format!("[{inc}, {incr}]")));
                    }
                }
                let rr = format!("(({}){op}{})", fl(b), lit(a));
                for m in ["each { }", "to_a", "map { }", "flat_map { }", "all? { }", "first(1)", "first(0)"] {
                    v.push(Case::f(&format!("{rr}.{m}"), "!TypeError".to_string()));
                }
                v.push(Case::f(&format!("for x in {rr} do; end"), "!TypeError".to_string()));
                v.push(Case::f(&format!("[{rr}.first, {rr}.last, {rr}.begin, {rr}.end]"), format!("[{}, {a}, {}, {a}]", fl(b + 0.0), fl(b + 0.0))));
            }
        }
        for ex in [false, true] {
            for end in ["(1.0/0.0)"] {
                let r = format!("Range.new({a}, {end}, {ex})");
                v.push(Case::f(&format!("z = []; {r}.each {{ |x| z << x; break if z.size > 3 }}; z"), arr(&[a, a + 1, a + 2, a + 3])));
                v.push(Case::f(&format!("z = []; for x in {r} do; z << x; break if z.size > 3; end; z"), arr(&[a, a + 1, a + 2, a + 3])));
                v.push(Case::f(&format!("[{r}.first(3), {r}.first]"), format!("[{}, {a}]", arr(&[a, a + 1, a + 2]))));
                for k in -4i128..4 {
                    v.push(Case::f(&format!("[{r} === {k}, {r}.include?({k}), {r}.include?({k}.5), {r}.all? {{ |x| x < {} }}]", k + 6), format!("[{0}, {0}, {1}, false]", a <= k, if k < 0 { a as f64 <= k as f64 - 0.5 } else { a as f64 <= k as f64 + 0.5 })));
                }
                let q = format!("e = {r}.each; [e.next, e.next, e.next]");
                v.push(Case::f(&q, arr(&[a, a + 1, a + 2])));
            }
            v.push(Case::f(&format!("Range.new({a}, (-1.0/0.0), {ex}).to_a"), "[]".to_string()));
        }
    }
    for bad in ["(1..nil).to_a", "(1..nil).last", "(1..nil).last(1)", "(nil..1).each { }", "(nil..1).first", "(nil..1).first(1)", "(nil..1).to_a", "(1..\"a\")", "(:a..1)", "(Object.new..Object.new)", "([]..{})", "(1..2).first(-1)", "(1..2).last(-1)", "(1..2).first(\"a\")", "(1..2).first(nil)"] {
        v.push(Case::f(&bad.replace("nil..1", "nil..1").to_string(), ANYERR));
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

fn counting(ctx: &mut Ctx) {
    ctx.section("times, upto, downto and step");
    let thorough = ctx.thorough;
    let mut v = vec![];
    for n in -3i128..=6 {
        let e: Vec<i128> = (0..n).collect();
        v.push(Case::f(&format!("z = []; q = {}.times {{ |x| z << x }}; [z, q]", lit(n)), format!("[{}, {n}]", arr(&e))));
        v.push(Case::f(&format!("n = {n}; q = n.times {{ n += 1 }}; [n, q]"), format!("[{}, {n}]", n + n.max(0))));
        v.push(Case::f(&format!("e = {}.times; z = []; loop {{ z << e.next }}; z", lit(n)), arr(&e)));
        v.push(Case::f(&format!("{}.times.map {{ |x| x * 2 }}", lit(n)), arr(&e.iter().map(|x| x * 2).collect::<Vec<_>>())));
        for k in 0..n.max(0) {
            v.push(Case::f(&format!("z = []; q = {n}.times {{ |x| next if x == {k}; z << x; break :b if x > {k} }}; [z, q == :b]"), {
                let mut z: Vec<i128> = (0..k).collect();
                if k + 1 < n {
                    z.push(k + 1);
                }
                format!("[{}, {}]", arr(&z), k + 1 < n)
            }));
        }
    }
    for w in windows(thorough) {
        for &a in &w {
            for &b in &w {
                let (la, lb) = (lit(a), lit(b));
                let up = elems(a, b, false);
                let dn: Vec<i128> = (b..=a).rev().collect();
                for (m, e) in [("upto", &up), ("downto", &dn)] {
                    v.push(Case::f(&format!("z = []; q = {la}.{m}({lb}) {{ |x| z << x }}; [z, q]"), format!("[{}, {a}]", arr(e))));
                    v.push(Case::f(&format!("q = {la}.{m}({lb}); z = []; loop {{ z << q.next }}; z"), arr(e)));
                    v.push(Case::f(&format!("{la}.{m}({lb}).map {{ |x| x }}"), arr(e)));
                    v.push(Case::f(&format!("z = []; q = {la}.{m}({lb}) {{ |x| z << x; break x if x == {lb} }}; [z, q]"), format!("[{}, {}]", arr(e), e.last().unwrap_or(&a))));
                }
                for s in -3i128..=3 {
                    let mut e = vec![];
                    if s == 0 {
                        v.push(Case::f(&format!("{la}.step({lb}, 0) {{ break }}"), "!ArgumentError".to_string()));
                        continue;
                    }
                    let mut x = a;
                    while if s > 0 { x <= b } else { x >= b } {
                        e.push(x);
                        x += s;
                    }
                    v.push(Case::f(&format!("z = []; q = {la}.step({lb}, {s}) {{ |x| z << x }}; [z, q]"), format!("[{}, {a}]", arr(&e))));
                    v.push(Case::f(&format!("q = {la}.step({lb}, {s}); z = []; loop {{ z << q.next }}; z"), arr(&e)));
                    if s == 1 {
                        v.push(Case::f(&format!("z = []; {la}.step({lb}) {{ |x| z << x }}; z"), arr(&e)));
                    }
                }
            }
        }
    }
    // far limits
    let far: Vec<i128> = vec![1 << 62, -(1 << 62), 1 << 63, -(1 << 63) - 1, 1 << 64, 0];
    for &a in &far {
        for &b in &far {
            let (la, lb) = (lit(a), lit(b));
            let dir = if a < b { "upto" } else { "downto" };
            let s: i128 = if a < b { 1 } else { -1 };
            if a == b {
                continue;
            }
            v.push(Case::f(&format!("z = []; {la}.{dir}({lb}) {{ |x| z << x; break if z.size == 3 }}; z"), arr(&[a, a + s, a + 2 * s])));
            v.push(Case::f(&format!("z = []; {la}.{}({lb}) {{ |x| z << x }}; z", if a < b { "downto" } else { "upto" }), "[]".to_string()));
            for st in [1i128 << 61, 1 << 62, (1 << 62) - 1, 1 << 63, 1 << 64, 3 << 61] {
                let st = st * s;
                let mut e = vec![];
                let mut x = a;
                while (if s > 0 { x <= b } else { x >= b }) && e.len() < 20 {
                    e.push(x);
                    x += st;
                }
                v.push(Case::f(&format!("z = []; {la}.step({lb}, {st}) {{ |x| z << x }}; z"), arr(&e)));
            }
        }
    }
    v.push(Case::f("z = []; (2**62).times { |x| z << x; break if x > 2 }; z", "[0, 1, 2, 3]"));
    v.push(Case::f("z = []; (2**64).times { |x| z << x; break if x > 2 }; z", "[0, 1, 2, 3]"));
    v.push(Case::f("z = []; q = (-2**64).times { |x| z << x }; z", "[]"));
    // Float limits
    for a in -3i128..=3 {
        for b in [-3.5, -2.0, -0.5, 0.0, 0.5, 1.5, 2.0] {
            let up: Vec<i128> = (a..6).take_while(|x| *x as f64 <= b).collect();
            let dn: Vec<i128> = (-6..=a).rev().take_while(|x| *x as f64 >= b).collect();
            v.push(Case::f(&format!("z = []; {}.upto({b:?}) {{ |x| z << x }}; z", lit(a)), arr(&up)));
            v.push(Case::f(&format!("z = []; {}.downto({b:?}) {{ |x| z << x }}; z", lit(a)), arr(&dn)));
        }
    }
    for bad in ["1.upto(nil) { }", "1.upto(\"a\") { }", "1.downto(:a) { }", "1.upto { }", "1.step(nil, \"a\") { break }", "1.times(2) { }", "1.step(5, nil, 3) { }"] {
        v.push(Case::f(bad, ANYERR));
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

/// The successor of a string of letters and digits.
fn succ(s: &str) -> String {
    let mut c: Vec<u8> = s.bytes().collect();
    let mut i = c.len();
    loop {
        i -= 1;
        match c[i] {
            b'z' => c[i] = b'a',
            b'Z' => c[i] = b'A',
            b'9' => c[i] = b'0',
            _ => {
                c[i] += 1;
                break;
            }
        }
        if i == 0 {
            let f = match c[0] {
                b'0' => b'1',
                x => x,
            };
            c.insert(0, f);
            break;
        }
    }
    String::from_utf8(c).unwrap()
}

fn strings(ctx: &mut Ctx) {
    ctx.section("ranges of strings");
    let words = ["a", "b", "e", "y", "z", "aa", "ab", "az", "ba", "A", "C", "Z", "0", "1", "9", "10", "a8", "a9", "b1", "zz", "aaa", ""];
    let mut v = vec![];
    let q = |v: &[String]| format!("[{}]", v.iter().map(|s| format!("\"{}\"", s.replace('\\', "\\\\"))).collect::<Vec<_>>().join(", "));
    for a in words {
        for b in words {
            for ex in [false, true] {
                let op = if ex { "..." } else { ".." };
                let r = format!("(\"{a}\"{op}\"{b}\")");
                for k in words {
                    // === compares
                    let inc = a <= k && if ex { k < b } else { k <= b };
                    v.push(Case::f(&format!("{r} === \"{k}\""), inc.to_string()));
                }
                if a.is_empty() || b.is_empty() {
                    continue;
                }
                let num = |s: &str| s.bytes().all(|c| c.is_ascii_digit());
                let mut e: Vec<String> = vec![];
                if a.len() == 1 && b.len() == 1 {
                    let (x, y) = (a.as_bytes()[0], b.as_bytes()[0]);
                    for c in x..=y {
                        if c == y && ex {
                            break;
                        }
                        e.push((c as char).to_string());
                    }
                } else if num(a) && num(b) {
                    let (x, y): (u32, u32) = (a.parse().unwrap(), b.parse().unwrap());
                    if a.len() > b.len() || a.starts_with('0') && a.len() > 1 {
                        continue;
                    }
                    e = (x..=y).filter(|n| !ex || *n < y).map(|n| n.to_string()).collect();
                } else {
                    let after = succ(b);
                    let mut cur = a.to_string();
                    let n = a.cmp(b);
                    if n == std::cmp::Ordering::Greater || ex && n == std::cmp::Ordering::Equal {
                        // empty
                    } else {
                        while cur != after {
                            let next = if ex || cur != b { Some(succ(&cur)) } else { None };
                            if ex && cur == b {
                                break;
                            }
                            e.push(cur.clone());
                            match next {
                                Some(n) => cur = n,
                                None => break,
                            }
                            if cur.len() > b.len() || cur.is_empty() {
                                break;
                            }
                        }
                    }
                }
                if e.len() > 120 {
                    continue;
                }
                v.push(Case::f(&format!("{r}.to_a"), q(&e)));
                v.push(Case::f(&format!("z = []; {r}.each {{ |x| z << x }}; z"), q(&e)));
                v.push(Case::f(&format!("{r}.map {{ |x| x }}"), q(&e)));
                v.push(Case::f(&format!("z = []; for x in {r} do; next if x == \"b\"; z << x; break if x == \"z\"; end; z"), {
                    let mut z = vec![];
                    for x in &e {
                        if x == "b" {
                            continue;
                        }
                        z.push(x.clone());
                        if x == "z" {
                            break;
                        }
                    }
                    q(&z)
                }));
            }
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    ranges(ctx);
    mixed(ctx);
    counting(ctx);
    strings(ctx);
}
