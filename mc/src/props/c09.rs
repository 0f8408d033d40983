//! C09: Array operations against a plain sequence.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;

/// Outcome of one operation: its value (None: the receiver itself) or an exception.
type R = Result<Option<V>, ()>;

fn some(v: V) -> R {
    Ok(Some(v))
}

/// Start and length a subscript denotes in an array of `len` elements (reading).
fn span(len: usize, s: i64, n: i64) -> Option<(usize, usize)> {
    let l = len as i64;
    let s = if s < 0 { s + l } else { s };
    if s < 0 || s > l || n < 0 {
        return None;
    }
    Some((s as usize, n.min(l - s) as usize))
}

/// (start, length) of a range subscript; length may run past the end.
fn rng(len: usize, a: i64, b: i64, excl: bool) -> Option<(i64, i64)> {
    let l = len as i64;
    let a = if a < 0 { a + l } else { a };
    if a < 0 {
        return None;
    }
    let b = if b < 0 { b + l } else { b };
    let e = if excl { b } else { b + 1 };
    Some((a, (e - a).max(0)))
}

fn splice(a: &mut Vec<V>, s: usize, n: usize, new: Vec<V>) {
    while a.len() < s {
        a.push(V::Nil);
    }
    let e = (s + n).min(a.len());
    a.splice(s..e, new);
}

fn flat(v: &V, level: i64, out: &mut Vec<V>) -> bool {
    match v {
        V::Arr(x) if level != 0 => {
            for y in x {
                flat(y, level - 1, out);
            }
            true
        }
        _ => {
            out.push(v.clone());
            false
        }
    }
}

fn join(v: &[V], sep: &str) -> String {
    v.iter()
        .map(|x| match x {
            V::Arr(y) => join(y, sep),
            x => x.to_s(),
        })
        .collect::<Vec<_>>()
        .join(sep)
}

fn uniq(a: &[V]) -> Vec<V> {
    let mut o: Vec<V> = vec![];
    for x in a {
        if !o.iter().any(|y| y.eql(x)) {
            o.push(x.clone());
        }
    }
    o
}

pub struct Op {
    src: String,
    mutates: bool,
    /// the value may be any object that is not the receiver (no fresh-copy probe)
    f: Box<dyn Fn(&mut Vec<V>) -> R + Send + Sync>,
}

fn op(src: impl Into<String>, f: impl Fn(&mut Vec<V>) -> R + Send + Sync + 'static) -> Op {
    Op { src: src.into(), mutates: false, f: Box::new(f) }
}
fn mop(src: impl Into<String>, f: impl Fn(&mut Vec<V>) -> R + Send + Sync + 'static) -> Op {
    Op { src: src.into(), mutates: true, f: Box::new(f) }
}

fn index_ops(o: &mut Vec<Op>, lo: i64, hi: i64) {
    for i in lo..=hi {
        let get = move |a: &mut Vec<V>| {
            let j = if i < 0 { i + a.len() as i64 } else { i };
            some(if j < 0 { V::Nil } else { a.get(j as usize).cloned().unwrap_or(V::Nil) })
        };
        o.push(op(format!("a[{i}]"), get));
        o.push(op(format!("(i={i}; a[i])"), get));
        o.push(op(format!("a.at({i})"), get));
        let set = move |a: &mut Vec<V>| {
            let j = if i < 0 { i + a.len() as i64 } else { i };
            if j < 0 {
                return Err(());
            }
            let j = j as usize;
            while a.len() <= j {
                a.push(V::Nil);
            }
            a[j] = sym("n");
            some(sym("n"))
        };
        o.push(mop(format!("(a[{i}] = :n)"), set));
        o.push(mop(format!("(i={i}; a[i] = :n)"), set));
        for n in -1..=hi {
            o.push(op(format!("a[{i}, {n}]"), move |a| {
                some(match span(a.len(), i, n) {
                    None => V::Nil,
                    Some((s, n)) => arr(a[s..s + n].to_vec()),
                })
            }));
            for (t, v) in [
                (":n", vec![sym("n")]),
                ("nil", vec![V::Nil]),
                ("[]", vec![]),
                ("[:p]", vec![sym("p")]),
                ("[:p, :q, :r]", vec![sym("p"), sym("q"), sym("r")]),
            ] {
                o.push(mop(format!("(a[{i}, {n}] = {t})"), move |a| {
                    let l = a.len() as i64;
                    let s = if i < 0 { i + l } else { i };
                    if s < 0 || n < 0 {
                        return Err(());
                    }
                    splice(a, s as usize, n as usize, v.clone());
                    some(match t {
                        ":n" => sym("n"),
                        "nil" => V::Nil,
                        _ => arr(v.clone()),
                    })
                }));
            }
        }
        for j in lo..=hi {
            for ex in [false, true] {
                let d = if ex { "..." } else { ".." };
                let get = move |a: &mut Vec<V>| {
                    some(match rng(a.len(), i, j, ex) {
                        None => V::Nil,
                        Some((s, n)) => match span(a.len(), s, n) {
                            None => V::Nil,
                            Some((s, n)) => arr(a[s..s + n].to_vec()),
                        },
                    })
                };
                o.push(op(format!("a[{i}{d}{j}]"), get));
                for (t, v) in [(":n", vec![sym("n")]), ("[]", vec![]), ("[:p, :q]", vec![sym("p"), sym("q")])] {
                    o.push(mop(format!("(a[{i}{d}{j}] = {t})"), move |a| match rng(a.len(), i, j, ex) {
                        None => Err(()),
                        Some((s, n)) => {
                            splice(a, s as usize, n as usize, v.clone());
                            some(if t == ":n" { sym("n") } else { arr(v.clone()) })
                        }
                    }));
                }
            }
        }
        for n in 0..=hi {
            if i >= 0 {
                o.push(mop(format!("a.slice!({i}, {n})"), move |a| {
                    some(match span(a.len(), i, n) {
                        None => V::Nil,
                        Some((s, n)) => arr(a.drain(s..s + n).collect()),
                    })
                }));
            }
        }
        if i >= 0 {
            o.push(mop(format!("a.shift({i})"), move |a| {
                let n = (i as usize).min(a.len());
                some(arr(a.drain(0..n).collect()))
            }));
            o.push(op(format!("a.drop({i})"), move |a| some(arr(a.iter().skip(i as usize).cloned().collect()))));
            o.push(op(format!("a * {i}"), move |a| {
                let mut v = vec![];
                for _ in 0..i {
                    v.extend(a.iter().cloned());
                }
                some(arr(v))
            }));
        } else {
            o.push(op(format!("a * {i}"), |_| Err(())));
            o.push(op(format!("a.drop({i})"), |_| Err(())));
            o.push(mop(format!("a.shift({i})"), |_| Err(())));
        }
        o.push(mop(format!("a.rotate!({i})"), move |a| {
            if !a.is_empty() {
                let n = i.rem_euclid(a.len() as i64) as usize;
                a.rotate_left(n);
            }
            Ok(None)
        }));
    }
}

/// Operations without an index.
fn plain_ops(o: &mut Vec<Op>, elems: &[V]) {
    o.push(mop("a.rotate!", |a| {
        if !a.is_empty() {
            a.rotate_left(1);
        }
        Ok(None)
    }));
    o.push(mop("a.push(:x)", |a| { a.push(sym("x")); Ok(None) }));
    o.push(mop("a.push", |_| Ok(None)));
    o.push(mop("(a << :x)", |a| { a.push(sym("x")); Ok(None) }));
    o.push(mop("(a << [] << 1)", |a| { a.push(arr(vec![])); a.push(int(1)); Ok(None) }));
    o.push(mop("a.push(1, 2, 3)", |a| { a.extend([int(1), int(2), int(3)]); Ok(None) }));
    o.push(mop("a.push(*[1, 2])", |a| { a.extend([int(1), int(2)]); Ok(None) }));
    o.push(mop("a.push(*a)", |a| { let b = a.clone(); a.extend(b); Ok(None) }));
    o.push(mop("a.pop", |a| some(a.pop().unwrap_or(V::Nil))));
    o.push(mop("a.shift", |a| some(if a.is_empty() { V::Nil } else { a.remove(0) })));
    o.push(mop("a.unshift(:x)", |a| { a.insert(0, sym("x")); Ok(None) }));
    o.push(mop("a.unshift", |_| Ok(None)));
    o.push(mop("a.unshift(1, 2, 3)", |a| { a.splice(0..0, [int(1), int(2), int(3)]); Ok(None) }));
    o.push(mop("a.unshift(*a)", |a| { let b = a.clone(); a.extend(b); Ok(None) }));
    o.push(mop("a.concat([:x, nil])", |a| { a.extend([sym("x"), V::Nil]); Ok(None) }));
    o.push(mop("a.concat([])", |_| Ok(None)));
    o.push(mop("a.concat(a)", |a| { let b = a.clone(); a.extend(b); Ok(None) }));
    o.push(mop("(a += [1])", |a| { a.push(int(1)); Ok(None) }));
    o.push(op("a + []", |a| some(arr(a.clone()))));
    o.push(op("a + a", |a| { let mut b = a.clone(); b.extend(a.clone()); some(arr(b)) }));
    o.push(op("a + [1, [2]]", |a| { let mut b = a.clone(); b.push(int(1)); b.push(ints(&[2])); some(arr(b)) }));
    o.push(op("a + 1", |_| Err(())));
    o.push(op("a - a", |_| some(arr(vec![]))));
    o.push(op("a - []", |a| some(arr(a.clone()))));
    o.push(op("[a, a][0] == a", |_| some(V::True)));
    o.push(op("a == a.dup", |_| some(V::True)));
    o.push(op("a == 1", |_| some(V::False)));
    o.push(op("a != a.dup", |_| some(V::False)));
    o.push(op("a.length", |a| some(int(a.len() as i64))));
    o.push(op("a.size", |a| some(int(a.len() as i64))));
    o.push(op("a.count", |a| some(int(a.len() as i64))));
    o.push(op("a.empty?", |a| some(boolean(a.is_empty()))));
    o.push(op("a.first", |a| some(a.first().cloned().unwrap_or(V::Nil))));
    o.push(op("a.last", |a| some(a.last().cloned().unwrap_or(V::Nil))));
    o.push(op("a.dup", |a| some(arr(a.clone()))));
    o.push(op("a.clone", |a| some(arr(a.clone()))));
    o.push(op("Array.new(a)", |a| some(arr(a.clone()))));
    o.push(op("Array.new(a.length)", |a| some(arr(vec![V::Nil; a.len()]))));
    o.push(op("Array.new(a.length, 7)", |a| some(arr(vec![int(7); a.len()]))));
    o.push(op("[*a]", |a| some(arr(a.clone()))));
    o.push(op("[0, *a, *a, 9]", |a| {
        let mut v = vec![int(0)];
        v.extend(a.clone());
        v.extend(a.clone());
        v.push(int(9));
        some(arr(v))
    }));
    o.push(op("Array[*a, 1]", |a| { let mut v = a.clone(); v.push(int(1)); some(arr(v)) }));
    o.push(mop("a.to_a", |_| Ok(None)));
    o.push(op("a.reverse", |a| some(arr(a.iter().rev().cloned().collect()))));
    o.push(mop("a.reverse!", |a| { a.reverse(); Ok(None) }));
    o.push(op("a.compact", |a| some(arr(a.iter().filter(|x| **x != V::Nil).cloned().collect()))));
    o.push(mop("a.compact!", |a| {
        let n = a.len();
        a.retain(|x| *x != V::Nil);
        if n == a.len() { some(V::Nil) } else { Ok(None) }
    }));
    o.push(op("a.uniq", |a| some(arr(uniq(a)))));
    o.push(mop("a.uniq!", |a| {
        let n = a.len();
        *a = uniq(a);
        if n == a.len() { some(V::Nil) } else { Ok(None) }
    }));
    o.push(op("a.uniq { |x| x.class }", |a| {
        let mut seen = vec![];
        let mut v = vec![];
        for x in a.iter() {
            if !seen.contains(&x.class()) {
                seen.push(x.class());
                v.push(x.clone());
            }
        }
        some(arr(v))
    }));
    o.push(mop("a.uniq! { |x| x.class }", |a| {
        let mut seen = vec![];
        let mut v = vec![];
        for x in a.iter() {
            if !seen.contains(&x.class()) {
                seen.push(x.class());
                v.push(x.clone());
            }
        }
        let n = a.len();
        *a = v;
        if n == a.len() { some(V::Nil) } else { Ok(None) }
    }));
    for lv in [None, Some(0), Some(1), Some(2), Some(-1)] {
        let t = lv.map(|l: i64| format!("({l})")).unwrap_or_default();
        let l = lv.unwrap_or(-1);
        o.push(op(format!("a.flatten{t}"), move |a| {
            let mut out = vec![];
            for x in a.iter() {
                flat(x, l, &mut out);
            }
            some(arr(out))
        }));
        o.push(mop(format!("a.flatten!{t}"), move |a| {
            let mut out = vec![];
            let mut f = false;
            for x in a.iter() {
                f |= flat(x, l, &mut out);
            }
            *a = out;
            if f { Ok(None) } else { some(V::Nil) }
        }));
    }
    for (t, s) in [("", ""), ("(\"-\")", "-"), ("(\", \")", ", "), ("(\"\")", "")] {
        o.push(op(format!("a.join{t}"), move |a| some(V::Str(join(a, s)))));
    }
    o.push(op("a * \"+\"", |a| some(V::Str(join(a, "+")))));
    o.push(op("a.inspect", |a| some(V::Str(arr(a.clone()).inspect()))));
    o.push(op("a.to_s", |a| some(V::Str(arr(a.clone()).inspect()))));
    o.push(op("\"#{a}\"", |a| some(V::Str(arr(a.clone()).inspect()))));
    o.push(mop("a.clear", |a| { a.clear(); Ok(None) }));
    o.push(mop("a.fill(0)", |a| { a.iter_mut().for_each(|x| *x = int(0)); Ok(None) }));
    o.push(mop("a.fill(nil)", |a| { a.iter_mut().for_each(|x| *x = V::Nil); Ok(None) }));
    o.push(op("a.zip(a)", |a| some(arr(a.iter().map(|x| arr(vec![x.clone(), x.clone()])).collect()))));
    o.push(op("a.zip([1, 2], [3])", |a| {
        some(arr(a.iter().enumerate().map(|(i, x)| {
            arr(vec![x.clone(), [int(1), int(2)].get(i).cloned().unwrap_or(V::Nil), if i == 0 { int(3) } else { V::Nil }])
        }).collect()))
    }));
    o.push(op("a.zip", |a| some(arr(a.iter().map(|x| arr(vec![x.clone()])).collect()))));
    o.push(op("(t = []; a.zip([1, 2]) { |x, y| t << y << x }; t)", |a| {
        let mut t = vec![];
        for (i, x) in a.iter().enumerate() {
            t.push([int(1), int(2)].get(i).cloned().unwrap_or(V::Nil));
            t.push(x.clone());
        }
        some(arr(t))
    }));
    o.push(op("a.zip([1]) { |x, y| y }", |_| some(V::Nil)));
    o.push(op("a.map { |x| [x] }.transpose", |a| some(arr(if a.is_empty() { vec![] } else { vec![arr(a.clone())] }))));
    o.push(op("a.map { |x| [x, 1] }.transpose", |a| {
        some(arr(if a.is_empty() { vec![] } else { vec![arr(a.clone()), arr(vec![int(1); a.len()])] }))
    }));
    o.push(op("[a, a].transpose", |a| some(arr(a.iter().map(|x| arr(vec![x.clone(), x.clone()])).collect()))));
    o.push(op("[a, a, [1]].transpose", |a| {
        if a.len() == 1 { some(arr(vec![arr(vec![a[0].clone(), a[0].clone(), int(1)])])) } else { Err(()) }
    }));
    // per element value
    for e in elems {
        let t = e.lit();
        let f = |f: fn(&[V], &V) -> V| {
            let e = e.clone();
            move |a: &mut Vec<V>| some(f(a, &e))
        };
        o.push(op(format!("a.include?({t})"), f(|a, e| boolean(a.iter().any(|x| x.req(e))))));
        let idx: fn(&[V], &V) -> V = |a, e| a.iter().position(|x| x.req(e)).map(|i| int(i as i64)).unwrap_or(V::Nil);
        o.push(op(format!("a.index({t})"), f(idx)));
        o.push(op(format!("a.find_index({t})"), f(idx)));
        o.push(op(format!("a.count({t})"), f(|a, e| int(a.iter().filter(|x| x.req(e)).count() as i64))));
        let e1 = e.clone();
        o.push(mop(format!("a.delete({t})"), move |a| {
            let r = a.iter().rev().find(|x| x.req(&e1)).cloned();
            a.retain(|x| !x.req(&e1));
            some(r.unwrap_or(V::Nil))
        }));
        let e1 = e.clone();
        o.push(op(format!("a - [{t}, :none]"), move |a| {
            some(arr(a.iter().filter(|x| !x.eql(&e1)).cloned().collect()))
        }));
        let e1 = e.clone();
        o.push(op(format!("a.any? {{ |x| x == {t} }}"), move |a| some(boolean(a.iter().any(|x| x.req(&e1))))));
        let e1 = e.clone();
        o.push(op(format!("a.all? {{ |x| x != {t} }}"), move |a| some(boolean(a.iter().all(|x| !x.req(&e1))))));
        let e1 = e.clone();
        o.push(op(format!("a <=> [{t}, {t}]"), move |a| some(ord_v(arr(a.clone()).cmp(&arr(vec![e1.clone(), e1.clone()]))))));
        let e1 = e.clone();
        o.push(op(format!("[{t}] <=> a"), move |a| some(ord_v(arr(vec![e1.clone()]).cmp(&arr(a.clone()))))));
        let e1 = e.clone();
        o.push(op(format!("a == [{t}, {t}]"), move |a| some(boolean(arr(a.clone()).req(&arr(vec![e1.clone(), e1.clone()]))))));
        // blocks that select by value: c(x) prints and tests
        for (m, keep) in [("select", true), ("filter", true), ("reject", false)] {
            let e1 = e.clone();
            o.push(op(format!("a.{m} {{ |x| x == {t} }}"), move |a| {
                some(arr(a.iter().filter(|x| x.req(&e1) == keep).cloned().collect()))
            }));
        }
        for m in ["find", "detect"] {
            let e1 = e.clone();
            o.push(op(format!("a.{m} {{ |x| x == {t} }}"), move |a| {
                some(a.iter().find(|x| x.req(&e1)).cloned().unwrap_or(V::Nil))
            }));
        }
        for m in ["index", "find_index"] {
            let e1 = e.clone();
            o.push(op(format!("a.{m} {{ |x| x == {t} }}"), move |a| {
                some(a.iter().position(|x| x.req(&e1)).map(|i| int(i as i64)).unwrap_or(V::Nil))
            }));
        }
        let e1 = e.clone();
        o.push(op(format!("a.partition {{ |x| x == {t} }}"), move |a| {
            let (x, y): (Vec<V>, Vec<V>) = a.iter().cloned().partition(|x| x.req(&e1));
            some(arr(vec![arr(x), arr(y)]))
        }));
    }
    o.push(op("a.any?", |a| some(boolean(a.iter().any(|x| x.truthy())))));
    o.push(op("a.all?", |a| some(boolean(a.iter().all(|x| x.truthy())))));
    for (t, c) in [("Integer", "Integer"), ("Array", "Array"), ("NilClass", "NilClass")] {
        o.push(op(format!("a.any?({t})"), move |a| some(boolean(a.iter().any(|x| x.class() == c)))));
        o.push(op(format!("a.all?({t})"), move |a| some(boolean(a.iter().all(|x| x.class() == c)))));
        o.push(op(format!("a.grep({t})"), move |a| some(arr(a.iter().filter(|x| x.class() == c).cloned().collect()))));
    }
    o.push(op("a.grep(1..2)", |a| some(arr(a.iter().filter(|x| x.req(&int(1)) || x.req(&int(2))).cloned().collect()))));
    o.push(op("a.map { |x| [x] }", |a| some(arr(a.iter().map(|x| arr(vec![x.clone()])).collect()))));
    o.push(op("a.collect { |x| x.class.to_s }", |a| some(arr(a.iter().map(|x| st(x.class())).collect()))));
    o.push(op("a.map(&:class).length", |a| some(int(a.len() as i64))));
    o.push(op("a.map(&:inspect)", |a| some(arr(a.iter().map(|x| V::Str(x.inspect())).collect()))));
    o.push(mop("a.map! { |x| [x] }", |a| { *a = a.iter().map(|x| arr(vec![x.clone()])).collect(); Ok(None) }));
    o.push(mop("a.collect! { |x| x.inspect }", |a| { *a = a.iter().map(|x| V::Str(x.inspect())).collect(); Ok(None) }));
    o.push(op("a.flat_map { |x| [x, 0] }", |a| some(arr(a.iter().flat_map(|x| [x.clone(), int(0)]).collect()))));
    o.push(op("a.flat_map { |x| x }", |a| {
        let mut out = vec![];
        for x in a.iter() {
            flat(x, 1, &mut out);
        }
        some(arr(out))
    }));
    o.push(op("a.flat_map { |x| [[x]] }", |a| some(arr(a.iter().map(|x| arr(vec![x.clone()])).collect()))));
    o.push(op("a.inject([]) { |m, x| m << x << m.length }", |a| {
        let mut m = vec![];
        for x in a.iter() {
            m.push(x.clone());
            let n = m.len();
            m.push(int(n as i64));
        }
        some(arr(m))
    }));
    o.push(op("a.reduce(\"\") { |m, x| m + x.inspect }", |a| some(V::Str(a.iter().map(|x| x.inspect()).collect()))));
    let trace = |a: &Vec<V>| arr(a.clone());
    o.push(op("(t = []; a.each { |x| t << x }; t)", move |a| some(trace(a))));
    o.push(mop("a.each { |x| x }", |_| Ok(None)));
    o.push(op("(t = []; for x in a do t << x end; t)", move |a| some(trace(a))));
    o.push(op("(t = []; a.each_index { |x| t << x }; t)", |a| some(arr((0..a.len()).map(|i| int(i as i64)).collect()))));
    o.push(mop("a.each_index { |x| x }", |_| Ok(None)));
    o.push(op("(t = []; a.each_with_index { |x, i| t << [i, x] }; t)", |a| {
        some(arr(a.iter().enumerate().map(|(i, x)| arr(vec![int(i as i64), x.clone()])).collect()))
    }));
    o.push(mop("a.each_with_index { |x| x }", |_| Ok(None)));
    o.push(op("a.each.next", |a| if a.is_empty() { Err(()) } else { some(a[0].clone()) }));
    o.push(op("a.each_with_index.map { |x, i| [x, i] }", |a| {
        some(arr(a.iter().enumerate().map(|(i, x)| arr(vec![x.clone(), int(i as i64)])).collect()))
    }));
    o.push(op("a.map.with_index { |x, i| [x, i] }", |a| {
        some(arr(a.iter().enumerate().map(|(i, x)| arr(vec![x.clone(), int(i as i64)])).collect()))
    }));
    o.push(op("(t = a.dup; t << 1; t.clear; a.length)", |a| some(int(a.len() as i64))));
    o.push(op("(x, y = *a; [x, y])", |a| {
        some(arr(vec![a.first().cloned().unwrap_or(V::Nil), a.get(1).cloned().unwrap_or(V::Nil)]))
    }));
    o.push(op("(t = []; t << a; t[0].equal?(a))", |_| some(V::True)));
}

/// One history as a program. After every operation the value, whether it is the receiver, and the
/// contents are recorded; a fresh array value is then spoilt to show that it shares no storage.
fn history(init: &[V], ops: &[&Op]) -> Case {
    let mut code = format!("a = {}; r = []; ", arr(init.to_vec()).inspect());
    let mut a = init.to_vec();
    let mut obs: Vec<String> = vec![];
    for o in ops {
        // these return an element
        let elem = ["a.first", "a.last", "a.find", "a.detect", "a.each.next", "a.pop", "a.shift", "a[", "a.at(", "(i=", "a.delete("]
            .iter()
            .any(|x| o.src.starts_with(x));
        code.push_str(&format!("r << h(a, {}) {{ |a| {} }}; ", !elem || o.src.starts_with("a.shift("), o.src));
        let mut b = a.clone();
        let plus = o.src.starts_with("(a += ");
        match (o.f)(&mut b) {
            Ok(None) if plus => {
                // a fresh array; the receiver keeps its contents
                obs.push(format!("[{:?}, {:?}]", arr(b.clone()).inspect(), arr(a.clone()).inspect()));
            }
            Ok(v) => {
                let t = match &v {
                    None => "self".to_string(),
                    Some(v) => v.inspect(),
                };
                obs.push(format!("[{}, {}]", str_inspect(&t), str_inspect(&arr(b.clone()).inspect())));
                a = b;
            }
            Err(()) => obs.push(format!("[\"raises\", {}]", str_inspect(&arr(a.clone()).inspect()))),
        }
    }
    code.push('r');
    Case::f(code, format!("[{}]", obs.join(", ")))
}

/// h: value (or "self" / "raises"), contents of the receiver after it; a fresh array is spoilt.
const PRELUDE: &str = r#"
def h(a, fresh)
  v = begin
    x = yield(a)
    if x.equal?(a)
      "self"
    else
      s = x.inspect
      x.push(:spoil) if fresh && x.is_a?(Array)
      s
    end
  rescue => e
    "raises"
  end
  [v, a.inspect]
end
"#;

pub fn elems() -> Vec<V> {
    vec![int(1), int(2), V::Nil, V::Float(1.0), st("s"), sym("k"), ints(&[1]), V::False, arr(vec![arr(vec![int(2)])])]
}

fn seqs(e: &[V], max: usize) -> Vec<Vec<V>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for x in e {
                let mut t: Vec<V> = s.clone();
                t.push(x.clone());
                next.push(t);
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

/// The receiver is changed while an iterating method runs over it.
fn reentrant(ctx: &mut Ctx) {
    // what the block does in its k-th call
    let acts: Vec<(&str, fn(&mut Vec<V>))> = vec![
        ("a.push(8)", |a| a.push(int(8))),
        ("a.pop", |a| { a.pop(); }),
        ("a.shift", |a| { if !a.is_empty() { a.remove(0); } }),
        ("a.unshift(9)", |a| a.insert(0, int(9))),
        ("a.clear", |a| a.clear()),
        ("a[0] = 7", |a| { if a.is_empty() { a.push(int(7)) } else { a[0] = int(7) } }),
        ("a.concat([5, 5, 5, 5, 5])", |a| a.extend(vec![int(5); 5])),
        ("a.reverse!", |a| a.reverse()),
    ];
    let mut cases = vec![];
    let max = if ctx.thorough { 6 } else { 5 };
    for len in 0..=max {
        for (act, f) in &acts {
            for k in 1..=(len + 1) {
                for m in ["each", "map", "select", "reject", "each_with_index", "each_index", "find", "any?", "all?", "inject", "partition", "index", "flat_map"] {
                    // MRI reads the element again after the block
                    if m == "select" && ["a.shift", "a.unshift(9)", "a.reverse!", "a[0] = 7"].contains(act) {
                        continue;
                    }
                    let mut a: Vec<V> = (1..=len).map(|i| int(i as i64)).collect();
                    let mut i = 0;
                    let mut n = 0;
                    let mut seen = vec![];
                    let mut res = vec![];
                    let mut res2 = vec![];
                    while i < a.len() {
                        let x = if m == "each_index" { int(i as i64) } else { a[i].clone() };
                        seen.push(x.clone());
                        n += 1;
                        if n == k {
                            f(&mut a);
                        }
                        let c = n % 2 == 0;
                        match m {
                            "map" | "flat_map" => res.push(x),
                            "select" if c => res.push(x),
                            "reject" if !c => res.push(x),
                            "partition" => if c { res.push(x) } else { res2.push(x) },
                            "inject" => res.push(x),
                            _ => {}
                        }
                        i += 1;
                        if n > 40 {
                            break;
                        }
                    }
                    let (args, body) = match m {
                        "inject" => ("([])", "r << x"),
                        "map" | "flat_map" => ("", "x"),
                        "select" | "reject" | "partition" => ("", "n % 2 == 0"),
                        "find" | "any?" | "index" => ("", "false"),
                        "all?" => ("", "true"),
                        _ => ("", "0"),
                    };
                    let params = if m == "inject" { "r, x" } else { "x" };
                    let v = match m {
                        "each" | "each_index" | "each_with_index" => arr(a.clone()),
                        "find" | "index" => V::Nil,
                        "any?" => V::False,
                        "all?" => V::True,
                        "partition" => arr(vec![arr(res.clone()), arr(res2.clone())]),
                        _ => arr(res.clone()),
                    };
                    let init = ints(&(1..=len as i64).collect::<Vec<_>>());
                    cases.push(Case::f(
                        format!("a = {}; n = 0; s = []; v = a.{m}{args} {{ |{params}| s << x; n += 1; {act} if n == {k}; {body} }}; [v, s, a]", init.inspect()),
                        arr(vec![v, arr(seen), arr(a)]).inspect(),
                    ));
                }
            }
        }
    }
    Runner::new(ctx).batch(100).run(cases.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    let e = elems();
    let (lo, hi) = if ctx.thorough { (-8, 8) } else { (-6, 6) };
    let mut idx = vec![];
    index_ops(&mut idx, lo, hi);
    let mut plain = vec![];
    plain_ops(&mut plain, &e);
    ctx.bound("subscript bounds", format!("{lo}..={hi}"));
    ctx.bound("operations", idx.len() + plain.len());

    ctx.section("every operation on every array of up to 3 (2 quick) elements");
    let ss = seqs(&e, if ctx.thorough { 3 } else { 2 });
    ctx.bound("arrays", ss.len());
    Runner::new(ctx)
        .prelude(PRELUDE)
        .run(ss.iter().flat_map(|s| plain.iter().map(move |o| history(s, &[o]))));

    ctx.section("every subscript form on arrays of every length");
    let max = if ctx.thorough { 9 } else { 6 };
    let lens: Vec<Vec<V>> = (0..=max).map(|n| (0..n).map(|i| int(i)).collect()).collect();
    Runner::new(ctx)
        .prelude(PRELUDE)
        .run(lens.iter().flat_map(|s| idx.iter().map(move |o| history(s, &[o]))));

    ctx.section("histories of two and three mutations and a query");
    let mut i2 = vec![];
    index_ops(&mut i2, -2, 3);
    let muts: Vec<&Op> = plain
        .iter()
        .filter(|o| o.mutates && !o.src.contains("delete(") && !o.src.starts_with("(a +="))
        .chain(plain.iter().filter(|o| o.src == "a.delete(1)" || o.src == "a.delete(nil)"))
        .chain(i2.iter().filter(|o| {
            o.mutates
                && ((o.src.contains("[:p, :q") && !o.src.contains(":r")) || o.src.contains(":n)") || o.src.contains("= [])"))
        }))
        .collect();
    let starts: Vec<Vec<V>> = vec![vec![], vec![int(1), V::Nil, ints(&[2])], (0..5).map(int).collect()];
    let n2 = muts.len();
    ctx.bound("mutators in histories of two", n2);
    Runner::new(ctx).prelude(PRELUDE).run(starts.iter().flat_map(|s| {
        let muts = &muts;
        muts.iter().flat_map(move |x| muts.iter().map(move |y| history(s, &[x, y])))
    }));
    let m3: Vec<&Op> = muts
        .iter()
        .filter(|o| {
            let core = [
                "a.push(:x)", "a.push(1, 2, 3)", "a.pop", "a.shift", "a.unshift(:x)", "a.unshift(1, 2, 3)", "a.concat(a)",
                "a.rotate!", "a.reverse!", "a.compact!", "a.uniq!", "a.flatten!", "a.clear", "a.fill(0)", "a.delete(1)",
                "a.slice!(1, 2)", "a.slice!(0, 3)", "a.shift(2)", "(a[3] = :n)", "(a[-1] = :n)", "(a[1, 2] = [:p])",
                "(a[0, 1] = [:p, :q, :r])", "(a[1..2] = [:p, :q])", "(a[2, 0] = :n)", "a.map! { |x| [x] }", "(a[-2, 2] = [])",
            ];
            core.contains(&o.src.as_str())
        })
        .cloned()
        .collect();
    ctx.bound("mutators in histories of three (four thorough)", m3.len());
    Runner::new(ctx).prelude(PRELUDE).run(starts.iter().flat_map(|s| {
        let m = &m3;
        m.iter().flat_map(move |x| m.iter().flat_map(move |y| m.iter().map(move |z| history(s, &[x, y, z]))))
    }));
    if ctx.thorough {
        Runner::new(ctx).prelude(PRELUDE).run(starts.iter().flat_map(|s| {
            let m = &m3;
            m.iter().flat_map(move |x| {
                m.iter().flat_map(move |y| m.iter().flat_map(move |z| m.iter().map(move |w| history(s, &[x, y, z, w]))))
            })
        }));
    }

    ctx.section("iterating methods while the block changes the receiver");
    reentrant(ctx);
}
