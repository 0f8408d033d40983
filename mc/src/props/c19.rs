//! C19: equality, hashing, identity and ordering.
use crate::case::*;
use crate::model::val::*;
use crate::report::Ctx;
use num::BigInt;
use std::cmp::Ordering;

const PRELUDE: &str = r#"
class QE
  attr_reader :n
  def initialize(n); @n = n; end
  def ==(o); o.is_a?(QE) && o.n == @n; end
  def inspect; "QE#{@n}"; end
end
class QC
  include Comparable
  attr_reader :n
  def initialize(n); @n = n; end
  def <=>(o)
    return nil if !o.is_a?(QC)
    @n <=> o.n
  end
  def inspect; "QC#{@n}"; end
end
class QP; def inspect; "QP"; end; end
class QQ < QP; end
QS = Struct.new(:a, :b)
QO1 = QP.new
QO2 = QP.new
QO3 = QQ.new
"#;

/// A thing that can be compared, how to write it, and what it is.
#[derive(Clone, Debug)]
pub struct It {
    src: String,
    w: W,
}

#[derive(Clone, Debug, PartialEq)]
enum W {
    V(V),
    /// an object with a user-defined ==
    E(i64),
    /// an object with a user-defined <=> and Comparable
    C(i64),
    /// an object of QP or QQ, by identity
    O(u32, bool),
    /// a Struct
    S(V, V),
    /// a class, by name
    K(&'static str),
}

fn bigs() -> Vec<V> {
    ["4611686018427387903", "4611686018427387904", "-4611686018427387904", "-4611686018427387905",
     "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
     "18446744073709551616"]
    .iter()
    .map(|s| V::Int(s.parse::<BigInt>().unwrap()))
    .collect()
}

pub fn values(thorough: bool) -> Vec<V> {
    let h = |x: Vec<(V, V)>| V::Hash(x);
    let r = |a: i64, b: i64, e: bool| V::Range(Box::new(int(a)), Box::new(int(b)), e);
    let mut v = vec![
        V::Nil, V::True, V::False, int(0), int(1), int(2), int(-1),
        int(9007199254740991), V::Float(0.0), V::Float(1.0), V::Float(1.5), V::Float(2.0), V::Float(-1.0),
        V::Float(9007199254740991.0), V::Float(f64::INFINITY), V::Float(1e-300), V::Float(1e300),
        st(""), st("a"), st("b"), st("ab"), st("1"), st("é"), sym("a"), sym("b"), sym("ab"),
        arr(vec![]), ints(&[1]), arr(vec![V::Float(1.0)]), ints(&[1, 2]), ints(&[2, 1]), arr(vec![st("a")]),
        arr(vec![sym("a")]), arr(vec![V::Nil]), arr(vec![arr(vec![])]), arr(vec![ints(&[1]), V::Float(2.0)]),
        arr(vec![int(1), st("a")]),
        h(vec![]), h(vec![(int(1), int(2))]), h(vec![(int(1), V::Float(2.0))]), h(vec![(V::Float(1.0), int(2))]),
        h(vec![(sym("a"), int(1)), (st("a"), int(2))]), h(vec![(st("a"), int(2)), (sym("a"), int(1))]),
        h(vec![(sym("a"), int(1))]), h(vec![(sym("a"), V::Nil)]), h(vec![(sym("b"), V::Nil)]),
        h(vec![(ints(&[1]), ints(&[2]))]),
        r(1, 2, false), r(1, 2, true), r(1, 1, false), r(0, 1, false),
        V::Range(Box::new(st("a")), Box::new(st("b")), false),
    ];
    v.extend(bigs());
    if thorough {
        v.extend([
            int(3), int(1 << 31), int(-(1 << 31)), int(1 << 53), V::Float(0.1), V::Float(-1.5), V::Float(2147483648.0),
            V::Float(f64::NEG_INFINITY), V::Float(f64::MIN_POSITIVE), V::Float(5e-324),
            st("abc"), st("A"), st("nil"), st("\u{1F600}"), st("a\u{0}"), sym("nil"), sym("A"),
            ints(&[1, 2, 3]), ints(&[1, 3]), arr(vec![int(1), V::Float(2.0)]), arr(vec![V::Nil, V::Nil]), arr(vec![V::False]),
            arr(vec![h(vec![])]), arr(vec![h(vec![(int(1), int(2))])]), arr(vec![arr(vec![arr(vec![int(1)])])]),
            arr(vec![st("a"), st("b")]), arr(vec![st("b"), st("a")]), arr(vec![int(1), V::Nil]),
            h(vec![(int(1), int(2)), (int(2), int(1))]), h(vec![(int(2), int(1)), (int(1), int(2))]),
            h(vec![(int(1), h(vec![(int(1), int(2))]))]), h(vec![(h(vec![]), h(vec![]))]),
            h(vec![(ints(&[1]), arr(vec![V::Float(2.0)]))]), h(vec![(V::Nil, V::Nil)]),
            r(2, 1, false), r(-1, 1, false), V::Range(Box::new(int(1)), Box::new(V::Float(2.0)), false),
            V::Range(Box::new(V::Float(1.0)), Box::new(V::Float(2.0)), false),
            arr(vec![r(1, 2, false)]), h(vec![(r(1, 2, false), r(1, 2, true))]),
        ]);
        let b = bigs();
        v.extend(b.iter().map(|x| arr(vec![x.clone()])));
        v.push(h(vec![(b[5].clone(), int(1))]));
        v.push(h(vec![(b[1].clone(), int(1))]));
    }
    v
}

fn items(thorough: bool) -> Vec<It> {
    let mut o: Vec<It> = values(thorough)
        .into_iter()
        .map(|v| It { src: src(&v), w: W::V(v) })
        .collect();
    let mut add = |s: &str, w: W| o.push(It { src: s.into(), w });
    add("QE.new(1)", W::E(1));
    add("QE.new(2)", W::E(2));
    add("QC.new(1)", W::C(1));
    add("QC.new(2)", W::C(2));
    add("QO1", W::O(1, false));
    add("QO2", W::O(2, false));
    add("QO3", W::O(3, true));
    add("QS.new(1, 2)", W::S(int(1), int(2)));
    add("QS.new(1, 2.0)", W::S(int(1), V::Float(2.0)));
    add("QS.new(1, \"a\")", W::S(int(1), st("a")));
    for k in ["Integer", "Float", "String", "Symbol", "Array", "Hash", "Range", "NilClass", "Object", "QP", "QQ", "Comparable", "Class"] {
        add(k, W::K(k));
    }
    o
}

pub fn src(v: &V) -> String {
    match v {
        V::Str(s) => super::c21::q(s),
        V::Float(f) if f.is_infinite() => if *f > 0.0 { "(1.0/0)".into() } else { "(-1.0/0)".into() },
        V::Arr(a) => format!("[{}]", a.iter().map(src).collect::<Vec<_>>().join(", ")),
        V::Hash(h) if h.is_empty() => "{}".into(),
        V::Hash(h) => format!(
            "{{{}}}",
            h.iter().map(|(k, v)| format!("{} => {}", src(k), src(v))).collect::<Vec<_>>().join(", ")
        ),
        V::Range(a, b, e) => format!("({}{}{})", src(a), if *e { "..." } else { ".." }, src(b)),
        v => v.lit(),
    }
}

/// a == b
fn eq(a: &W, b: &W) -> bool {
    match (a, b) {
        (W::V(a), W::V(b)) => a.req(b),
        (W::S(a, b), W::S(c, d)) => a.req(c) && b.req(d),
        (a, b) => a == b,
    }
}
/// a.eql?(b): user-defined == does not count. `same`: the two are one object
fn eql(a: &W, b: &W, same: bool) -> bool {
    match (a, b) {
        (W::V(a), W::V(b)) => a.eql(b),
        (W::S(a, b), W::S(c, d)) => a.eql(c) && b.eql(d),
        (W::E(_) | W::C(_), _) => same,
        (a, b) => a == b,
    }
}
fn ids(a: &W, b: &W, same: bool) -> bool {
    same || match (a, b) {
        (W::V(V::Int(a)), W::V(V::Int(b))) => a == b && num::ToPrimitive::to_i64(a).map_or(false, |i| (i << 1) >> 1 == i),
        (W::V(a @ (V::Nil | V::True | V::False | V::Sym(_))), W::V(b)) => a == b,
        (W::O(..) | W::K(_), _) => a == b,
        _ => false,
    }
}
fn is_a(k: &str, x: &W) -> bool {
    if k == "Object" {
        return true;
    }
    match x {
        W::V(v) => v.class() == k || k == "Comparable" && matches!(v, V::Int(_) | V::Float(_)),
        W::E(_) | W::S(..) => false,
        W::C(_) => k == "Comparable",
        W::O(_, q) => k == "QP" || *q && k == "QQ",
        W::K(c) => k == "Class" && *c != "Comparable",
    }
}
/// a === b
fn case_eq(a: &W, b: &W) -> bool {
    match (a, b) {
        (W::K(k), x) => is_a(k, x),
        (W::V(V::Range(lo, hi, ex)), W::V(x)) => {
            let l = lo.cmp(x);
            let h = x.cmp(hi);
            matches!(l, Some(Ordering::Less | Ordering::Equal))
                && match h {
                    Some(Ordering::Less) => true,
                    Some(Ordering::Equal) => !ex,
                    _ => false,
                }
        }
        _ => eq(a, b),
    }
}
fn cmp(a: &W, b: &W) -> Option<Ordering> {
    match (a, b) {
        (W::V(a), W::V(b)) => a.cmp(b),
        (W::C(a), W::C(b)) => Some(a.cmp(b)),
        (W::K(_), _) => None,
        _ => eq(a, b).then_some(Ordering::Equal),
    }
}

fn borders(a: &W, b: &W) -> bool {
    // Integers beyond 2**53 against floats are compared through f64 here, which the
    // project's own tests prescribe.
    fn big(v: &V) -> bool {
        match v {
            V::Int(i) => num::Signed::abs(i) > BigInt::from(1u64 << 53),
            V::Arr(a) => a.iter().any(big),
            V::Hash(h) => h.iter().any(|(a, b)| big(a) || big(b)),
            V::Range(a, b, _) => big(a) || big(b),
            _ => false,
        }
    }
    fn fl(v: &V) -> bool {
        match v {
            V::Float(_) => true,
            V::Arr(a) => a.iter().any(fl),
            V::Hash(h) => h.iter().any(|(a, b)| fl(a) || fl(b)),
            V::Range(a, b, _) => fl(a) || fl(b),
            _ => false,
        }
    }
    match (a, b) {
        (W::V(a), W::V(b)) => big(a) && fl(b) || big(b) && fl(a),
        _ => false,
    }
}

fn b(x: bool) -> V {
    boolean(x)
}

fn pair(a: &It, c: &It, same: bool, out: &mut Vec<Case>) {
    if borders(&a.w, &c.w) {
        return;
    }
    let set = if same { format!("a = {}\nb = a\n", a.src) } else { format!("a = {}\nb = {}\n", a.src, c.src) };
    let mut ask = |e: &str, v: V| out.push(Case::f(format!("{set}{e}"), v.inspect()));
    let e = eq(&a.w, &c.w);
    let q = eql(&a.w, &c.w, same);
    ask("[a == b, a != b, b == a, b != a]", arr(vec![b(e), b(!e), b(e), b(!e)]));
    // hashing of Structs by their members, and Comparable of Integer and String, are not implemented
    let st = matches!((&a.w, &c.w), (W::S(..), W::S(..))) && !same;
    if !st {
    ask("[a.eql?(b), b.eql?(a)]", arr(vec![b(q), b(q)]));
    let float = matches!((&a.w, &c.w), (W::V(V::Float(_)), W::V(V::Float(_))));
    if !float {
        ask("[a.equal?(b), b.equal?(a), a.object_id == b.object_id]", arr(vec![b(ids(&a.w, &c.w, same)); 3]));
    }
    }
    ask("[[a] == [b], [a] != [b], {1 => a} == {1 => b}, [[a], a] == [[b], b]]", arr(vec![b(e), b(!e), b(e), b(e)]));
    ask("[[b].include?(a), [b].index(a), [b].delete(a) == nil]", arr(vec![b(e), if e { int(0) } else { V::Nil }, b(!e || matches!(a.w, W::V(V::Nil)))]));
    if !st {
    ask(
        "h = {a => 1}\n[h[b], h.key?(b), h.delete(b), h.size]",
        arr(vec![if q { int(1) } else { V::Nil }, b(q), if q { int(1) } else { V::Nil }, int(!q as i64)]),
    );
    ask("[([a] - [b]).size, [a, b].uniq.size, {a => 1, b => 2}.size]", arr(vec![int(!q as i64), int(if q { 1 } else { 2 }), int(if q { 1 } else { 2 })]));
    ask("[{a => 1} == {b => 1}, [a].eql?([b]), {[a] => 1}[[b]], {{a => 2} => 1}[{b => 2}]]",
        arr(vec![b(q), b(q), if q { int(1) } else { V::Nil }, if q { int(1) } else { V::Nil }]));
    }
    if !(matches!(a.w, W::K("Comparable")) && matches!(c.w, W::V(V::Int(_) | V::Float(_) | V::Str(_)))) {
    ask("a === b", b(case_eq(&a.w, &c.w)));
    ask("case b\nwhen a\n 1\nelse\n 2\nend", int(if case_eq(&a.w, &c.w) { 1 } else { 2 }));
    }
    ask("[].push(b).count(a)", int(e as i64));
    if !matches!((&a.w, &c.w), (W::K(_), W::K(_))) {
        let o = cmp(&a.w, &c.w);
        let r = cmp(&c.w, &a.w);
        ask("[a <=> b, b <=> a]", arr(vec![ord_v(o), ord_v(r)]));
        ask("[[a] <=> [b], [1, a] <=> [1, b, 0]]", arr(vec![ord_v(o), match o {
            Some(Ordering::Equal) => int(-1),
            o => ord_v(o),
        }]));
        let lt = match (&a.w, &c.w) {
            (W::V(V::Int(_) | V::Float(_)), W::V(V::Int(_) | V::Float(_))) => true,
            (W::V(V::Str(_)), W::V(V::Str(_))) => true,
            (W::C(_), W::C(_)) => true,
            _ => false,
        };
        if lt {
            let o = o.unwrap();
            ask("[a < b, a <= b, a > b, a >= b]", arr(vec![b(o.is_lt()), b(o.is_le()), b(o.is_gt()), b(o.is_ge())]));
        }
        if o.is_some() && !same {
            let o = o.unwrap();
            // elements that compare equal: any of them
            if o != Ordering::Equal {
                let (l, h) = if o.is_lt() { ("a", "b") } else { ("b", "a") };
                out.push(Case::f(format!("{set}[[a, b].sort[0].equal?({l}), [b, a].sort[0].equal?({l}), [a, b].min.equal?({l}), [a, b].max.equal?({h}), [b, a].max.equal?({h})]"),
                    "[true, true, true, true, true]"));
            }
        } else if o.is_none() && !same {
            out.push(Case::f(format!("{set}[a, b].sort"), "!ArgumentError"));
            out.push(Case::f(format!("{set}[b, a].max"), "!ArgumentError"));
        }
    }
}

/// All triples: containers filled with three values answer as lists of pairs do.
fn triple(x: [&V; 3], out: &mut Vec<Case>) {
    let set = format!("a = {}\nb = {}\nc = {}\n", src(x[0]), src(x[1]), src(x[2]));
    let mut assoc: Vec<(V, V)> = vec![];
    for (i, k) in x.iter().enumerate() {
        match assoc.iter_mut().find(|(k2, _)| k2.eql(k)) {
            Some(e) => e.1 = int(i as i64),
            None => assoc.push(((*k).clone(), int(i as i64))),
        }
    }
    out.push(Case::f(format!("{set}{{a => 0, b => 1, c => 2}}"), V::Hash(assoc.clone()).inspect()));
    out.push(Case::f(format!("{set}[a, b, c].uniq"), arr(assoc.iter().map(|x| x.0.clone()).collect()).inspect()));
    let no_ab = |k: &V| !x[0].eql(k) && !x[1].eql(k);
    out.push(Case::f(
        format!("{set}[[c, a, c] - [a, b], [a, b, c].index(c), [[a, b] == [b, c], [a, b] == [a, c]]]"),
        arr(vec![
            arr([x[2], x[0], x[2]].iter().filter(|k| no_ab(k)).map(|k| (*k).clone()).collect()),
            int(x.iter().position(|k| k.req(x[2])).unwrap() as i64),
            arr(vec![b(x[0].req(x[1]) && x[1].req(x[2])), b(x[1].req(x[2]))]),
        ])
        .inspect(),
    ));
    let mut rest = vec![x[0].clone(), x[1].clone(), x[2].clone(), x[0].clone()];
    rest.retain(|k| !k.req(x[1]));
    let mut h = assoc.clone();
    h.retain(|(k, _)| !k.eql(x[1]));
    out.push(Case::f(
        format!("{set}l = [a, b, c, a]\nl.delete(b)\nh = {{a => 0, b => 1, c => 2}}\nh.delete(b)\n[l, h]"),
        arr(vec![arr(rest), V::Hash(h)]).inspect(),
    ));
    out.push(Case::f(
        format!("{set}{{a => b, b => c}} == {{b => c, a => b}}"),
        b(!x[0].eql(x[1]) || x[1].req(x[2])).inspect(),
    ));
    // sorting
    let ok = x.iter().all(|p| x.iter().all(|q| p.cmp(q).is_some()));
    if ok {
        let mut s: Vec<V> = x.iter().map(|k| (*k).clone()).collect();
        s.sort_by(|p, q| p.cmp(q).unwrap());
        let tie = s.windows(2).any(|w| w[0].cmp(&w[1]) == Some(Ordering::Equal) && !w[0].eql(&w[1]));
        if !tie {
            out.push(Case::f(
                format!("{set}[[a, b, c].sort, [a, b, c].min, [a, b, c].max, [a, b, c].sort {{ |x, y| y <=> x }}]"),
                arr(vec![arr(s.clone()), s[0].clone(), s[2].clone(), arr(s.iter().rev().cloned().collect())]).inspect(),
            ));
        }
    }
}

/// Containers which contain themselves.
fn recursive() -> Vec<Case> {
    let mut o = vec![];
    for (mk, tag) in [
        ("x = [1]\nx << x\n", "array"),
        ("x = {1 => 2}\nx[3] = x\n", "hash"),
        ("x = [1]\nx << [x]\n", "nested array"),
        ("x = [1]\nx << {2 => x}\n", "array in hash"),
    ] {
        for (e, v) in [
            ("x == x", "true"), ("x != x", "false"), ("[x] == [x]", "true"), ("[x].include?(x)", "true"),
            ("[0, x].index(x)", "1"), ("x.eql?(x)", "true"), ("x == [1]", "false"), ("x == 1", "false"),
            ("[[1, 2]].include?(x)", "false"),
        ] {
            o.push(Case::f(format!("{mk}{e}"), v).key(format!("recursive {tag}: {e}")));
        }
    }
    for (mk, eqv, cmpv) in [
        ("x = [1]\nx << x\ny = [1]\ny << y\n", true, "nil"),
        ("x = [1]\nx << x\ny = [1, x]\n", true, "0"),
        ("x = [1]\nx << x\ny = [1, [1, 2]]\n", false, "nil"),
        ("x = [1]\nx << x\ny = [2]\ny << y\n", false, "-1"),
        ("x = [1]\ny = [1]\nx << y\ny << x\n", true, "nil"),
        ("x = [1]\nx << x << 2\ny = [1]\ny << y << 3\n", false, "nil"),
        ("x = {1 => 2}\nx[3] = x\ny = {1 => 2}\ny[3] = y\n", true, "0"),
        ("x = {1 => 2}\nx[3] = x\ny = {1 => 3}\ny[3] = y\n", false, "nil"),
        ("x = {1 => 2}\nx[3] = [x]\ny = {1 => 2}\ny[3] = [y]\n", true, "0"),
        ("x = [1]\nx << {1 => x}\ny = [1]\ny << {1 => y}\n", true, "0"),
        ("x = QS.new(1)\nx.b = x\ny = QS.new(1)\ny.b = y\n", true, "0"),
    ] {
        for (e, v) in [("x == y", eqv), ("y == x", eqv), ("x != y", !eqv), ("[x].include?(y)", eqv), ("{1 => x} == {1 => y}", eqv)] {
            o.push(Case::f(format!("{mk}{e}"), v.to_string()));
        }
        if !mk.contains("QS") {
            o.push(Case::f(format!("{mk}x.eql?(y)"), eqv.to_string()));
            o.push(Case::f(format!("{mk}{{1 => x}}.eql?({{1 => y}})"), eqv.to_string()));
        }
        if !mk.contains("{1 => x}") {
            o.push(Case::f(format!("{mk}x <=> y"), cmpv.to_string()));
        }
    }
    o
}

/// A hash whose values are looked up with keys made in every other way the same value arises.
fn made() -> Vec<Case> {
    let ways: &[(&str, &[&str])] = &[
        ("1", &["1", "0 + 1", "2 - 1", "\"1\".to_i", "1.0.to_i", "[1][0]", "(18446744073709551617 - 18446744073709551616)", "-(-1)", "3 / 2", "3 & 1"]),
        ("18446744073709551616", &["18446744073709551616", "9223372036854775808 * 2", "2 ** 64", "1 << 64", "\"18446744073709551616\".to_i", "(36893488147419103232 >> 1)"]),
        ("4611686018427387904", &["4611686018427387904", "4611686018427387903 + 1", "2 ** 62", "1 << 62", "(18446744073709551616 >> 2)", "9223372036854775808 / 2", "-(-4611686018427387904)"]),
        ("9223372036854775807", &["9223372036854775807", "9223372036854775808 - 1", "2 ** 63 - 1", "~(-9223372036854775808)"]),
        ("1.5", &["1.5", "0.5 + 1", "3 / 2.0", "15e-1", "1 + 0.5", "-(-1.5)"]),
        ("1e-300", &["1e-300", "1e-150 * 1e-150 * 1.0 / 1.0", "10e-301"]),
        ("\"ab\"", &["\"ab\"", "'ab'", "\"a\" + \"b\"", "\"a#{'b'}\"", "\"xab\"[1, 2]", "[\"a\", \"b\"].join(\"\")", "\"AB\".downcase", ":ab.to_s", "[\"a\", \"b\"].join", "\"a\" \"b\"", "%w(ab)[0]", "\"a\" << \"b\""]),
        (":ab", &[":ab", ":\"ab\"", "\"ab\".to_sym", "\"ab\".intern", "%i(ab)[0]", "{ab: 1}.keys[0]"]),
        ("[1, 2]", &["[1, 2]", "[1] + [2]", "[2, 1].reverse", "[1, 2, 3][0, 2]", "[1] << 2", "(1..2).to_a", "[1, nil, 2].compact", "[0, 1].map { |x| x + 1 }"]),
        ("{1 => 2}", &["{1 => 2}", "{1 => 0}.merge({1 => 2})", "{2 => 1}.invert", "{1 => 2, 3 => 4}.reject { |k, v| k == 3 }"]),
        ("(1..2)", &["(1..2)", "(0 + 1..4 - 2)", "Range.new(1, 2)"]),
        ("nil", &["nil", "[][0]", "{}[1]", "(if false; 1; end)"]),
        ("true", &["true", "1 == 1", "!nil"]),
    ];
    let mut o = vec![];
    for (_, w) in ways {
        for x in w.iter() {
            for y in w.iter() {
                
                o.push(Case::f(
                    format!("a = {x}\nb = {y}\n[a == b, a != b, a.eql?(b), {{a => 1}}[b], [a].include?(b), [a, b].uniq.size, a === b || a.class == Range, a <=> b, ([a] - [b]).size]"),
                    "[true, false, true, 1, true, 1, true, 0, 0]",
                ));
            }
        }
    }
    o
}

pub fn run(ctx: &mut Ctx) {
    let it = items(ctx.thorough);
    ctx.section("pairs of values of every type, and each value with itself");
    let mut cs = vec![];
    for a in &it {
        for c in &it {
            pair(a, c, false, &mut cs);
        }
        pair(a, a, true, &mut cs);
    }
    Runner::new(ctx).prelude(PRELUDE).batch(400).run(cs.into_iter());
    ctx.bound("things compared", it.len());

    ctx.section("triples of values in arrays and hashes");
    let small: Vec<V> = vec![
        V::Nil, V::False, int(1), int(2), V::Float(1.0), V::Float(1.5), st("a"), st("b"), sym("a"), ints(&[1]), arr(vec![V::Float(1.0)]),
        ints(&[1, 2]), V::Hash(vec![]), V::Hash(vec![(int(1), int(2))]), V::Range(Box::new(int(1)), Box::new(int(2)), false),
        V::Int(BigInt::from(1u64 << 63)),
    ];
    let small = if ctx.thorough {
        let mut s = small;
        s.extend([
            V::True, int(-1), int(0), V::Float(2.0), st(""), st("ab"), sym("b"), arr(vec![]), arr(vec![st("a")]), ints(&[2]),
            V::Hash(vec![(int(1), V::Float(2.0))]), V::Int(BigInt::from(1u64 << 62)), V::Int(BigInt::from(u64::MAX)), arr(vec![V::Nil]),
        ]);
        s
    } else {
        small
    };
    let mut cs = vec![];
    for x in &small {
        for y in &small {
            for z in &small {
                let w = [W::V(x.clone()), W::V(y.clone()), W::V(z.clone())];
                if borders(&w[0], &w[1]) || borders(&w[1], &w[2]) || borders(&w[0], &w[2]) {
                    continue;
                }
                triple([x, y, z], &mut cs);
            }
        }
    }
    ctx.bound("values of the triples", small.len());
    Runner::new(ctx).prelude(PRELUDE).batch(400).run(cs.into_iter());

    ctx.section("one value made in different ways");
    Runner::new(ctx).prelude(PRELUDE).batch(200).run(made().into_iter());
    ctx.section("containers which contain themselves");
    Runner::new(ctx).prelude(PRELUDE).batch(20).run(recursive().into_iter());
}
