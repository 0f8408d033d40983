//! C03: method dispatch after every history of class-graph operations.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use std::collections::BTreeMap;

pub const PRELUDE: &str = r##"
def oc(k); s = ""; k.ancestors.each { |x| break if x == Object; s << x.to_s[0] }; s; end
def ob(ca, cb, cc, m, n, a, b, c)
  [ (begin; a.m; rescue NameError; :none; end), (begin; b.m; rescue NameError; :none; end), (begin; c.m; rescue NameError; :none; end),
    (begin; b.n; rescue NameError; :none; end), (begin; c.n; rescue NameError; :none; end),
    (begin; ca.m; rescue NameError; :none; end), (begin; cc.m; rescue NameError; :none; end),
    (begin; b.send(:m); rescue NameError; :none; end), (begin; b.method(:m).call; rescue NameError; :none; end),
    a.respond_to?(:m), b.respond_to?(:m), c.respond_to?(:n), ca.method_defined?(:m), cc.method_defined?(:m), cb.method_defined?(:n),
    (begin; cc.instance_method(:m).owner.to_s[0]; rescue NameError; :none; end),
    oc(ca), oc(cc), b.is_a?(m), c.is_a?(m), m === b, n === c, b.is_a?(n), a.is_a?(cb), c.is_a?(ca), cb === c, cc.include?(m) ]
end
"##;

type E = &'static str; // A B C M N, b (its singleton class), sA sB sC
#[derive(Clone, PartialEq)]
enum Body {
    Plain,
    Super,
    Attr,
    Missing,
}

#[derive(Clone)]
struct Def {
    tag: String,
    body: Body,
    name: &'static str, // the name `super` looks for
    owner: E,           // where it was defined
}

#[derive(Clone, Default)]
struct G {
    pre: BTreeMap<E, Vec<E>>,
    inc: BTreeMap<E, Vec<E>>,
    defs: BTreeMap<(E, &'static str), Def>,
}

fn sup(c: E) -> Option<E> {
    match c {
        "B" => Some("A"),
        "C" => Some("B"),
        "b" => Some("B"),
        "sB" => Some("sA"),
        "sC" => Some("sB"),
        _ => None,
    }
}

impl G {
    fn own(&self, c: E) -> Vec<E> {
        let mut v = self.pre.get(c).cloned().unwrap_or_default();
        v.push(c);
        v.extend(self.inc.get(c).cloned().unwrap_or_default());
        v
    }
    fn mro(&self, c: E) -> Vec<E> {
        let mut v = self.own(c);
        if let Some(s) = sup(c) {
            v.extend(self.mro(s));
        }
        v
    }
    fn include(&mut self, c: E, m: E) {
        let above: Vec<E> = sup(c).map(|s| self.mro(s)).unwrap_or_default();
        let mut list = self.inc.get(c).cloned().unwrap_or_default();
        let mut pos = 0;
        for x in self.own(m) {
            if let Some(i) = list.iter().position(|y| *y == x) {
                if i >= pos {
                    pos = i + 1;
                }
            } else if !above.contains(&x) {
                list.insert(pos, x);
                pos += 1;
            }
        }
        self.inc.insert(c, list);
    }
    fn prepend(&mut self, c: E, m: E) {
        let mut list = self.pre.get(c).cloned().unwrap_or_default();
        let mut pos = 0;
        for x in self.own(m) {
            if let Some(i) = list.iter().position(|y| *y == x) {
                if i >= pos {
                    pos = i + 1;
                }
            } else {
                list.insert(pos, x);
                pos += 1;
            }
        }
        self.pre.insert(c, list);
    }
    fn find(&self, mro: &[E], name: &'static str) -> Option<(usize, &Def)> {
        mro.iter().enumerate().find_map(|(i, c)| self.defs.get(&(*c, name)).map(|d| (i, d)))
    }
    /// Symbols a call returns, None when no method is found.
    fn call(&self, mro: &[E], from: usize, name: &'static str) -> Option<Vec<V>> {
        match self.find(&mro[from..], name) {
            None => {
                let (_, d) = self.find(mro, "method_missing")?;
                Some(vec![sym(&d.tag), sym(name)])
            }
            Some((_, d)) => match d.body {
                Body::Plain => Some(vec![sym(&d.tag)]),
                Body::Attr => Some(vec![sym("iv")]),
                Body::Missing => unreachable!(),
                Body::Super => {
                    let at = mro.iter().position(|c| *c == d.owner).unwrap();
                    let mut v = vec![sym(&d.tag)];
                    v.extend(self.call(mro, at + 1, d.name)?);
                    Some(v)
                }
            },
        }
    }
    fn dup_free(&self) -> bool {
        ["C", "b", "sC"].iter().all(|c| {
            let mut v = self.mro(c);
            let n = v.len();
            v.sort();
            v.dedup();
            v.len() == n
        })
    }
    fn used(&self, m: E) -> bool {
        self.pre.values().chain(self.inc.values()).any(|v| v.contains(&m))
    }
    fn observe(&self) -> V {
        let (a, b, c) = (self.mro("A"), self.mro("b"), self.mro("C"));
        let call = |m: &[E], n: &'static str| self.call(m, 0, n).map(arr).unwrap_or(sym("none"));
        let has = |m: &[E], n: &'static str| boolean(self.find(m, n).is_some());
        let cls = self.mro("B");
        let (sa, sc) = (self.mro("sA"), self.mro("sC"));
        let names = |m: &[E]| st(&m.concat());
        let isa = |m: &[E], k: E| boolean(m.contains(&k));
        // for `method` a missing method is an error even if there is a method_missing
        let meth = if self.find(&b, "m").is_some() { call(&b, "m") } else { sym("none") };
        arr(vec![
            call(&a, "m"),
            call(&b, "m"),
            call(&c, "m"),
            call(&b, "n"),
            call(&c, "n"),
            call(&sa, "m"),
            call(&sc, "m"),
            call(&b, "m"),
            meth,
            has(&a, "m"),
            has(&b, "m"),
            has(&c, "n"),
            has(&a, "m"),
            has(&c, "m"),
            has(&cls, "n"),
            self.find(&c, "m").map(|(i, _)| st(c[i])).unwrap_or(sym("none")),
            names(&a),
            names(&c),
            isa(&b, "M"),
            isa(&c, "M"),
            isa(&b, "M"),
            isa(&c, "N"),
            isa(&b, "N"),
            boolean(false),
            boolean(true),
            boolean(true),
            isa(&c, "M"),
        ])
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Def(E, bool),
    Attr(E),
    Alias(E),
    AliasM(E),
    Include(E, E),
    Prepend(E, E),
    Missing(E),
}

fn ops(full: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for e in ["A", "B", "C", "M", "b"] {
        v.push(Def(e, false));
        v.push(Def(e, true));
    }
    v.extend([Def("N", true), Def("sA", false), Def("sC", true), Attr("B"), Alias("A"), Alias("B"), AliasM("M"), Missing("A"), Missing("M")]);
    v.extend([Include("A", "M"), Include("B", "M"), Include("C", "M"), Include("B", "N"), Include("M", "N"), Include("b", "M"), Include("sA", "M"), Include("sC", "N")]);
    v.extend([Prepend("A", "M"), Prepend("B", "M"), Prepend("B", "N"), Prepend("M", "N"), Prepend("C", "M")]);
    if full {
        v.extend([Def("sB", true), Def("N", false), Attr("A"), Alias("C"), Include("b", "N"), Include("A", "N"), Prepend("A", "N")]);
    }
    v
}

/// Apply; None when the operation is left out in this state.
fn apply(g: &G, op: Op, k: usize) -> Option<(G, String)> {
    let mut g = g.clone();
    let open = |e: E| match e {
        "b" => "class << bZZ; ".to_string(),
        "sA" => "class << AZZ; ".into(),
        "sB" => "class << BZZ; ".into(),
        "sC" => "class << CZZ; ".into(),
        "M" | "N" => format!("module {e}ZZ; "),
        _ => format!("class {e}ZZ; "),
    };
    let obj = |e: E| match e {
        "b" => "bZZ".to_string(),
        "sA" => "AZZ".into(),
        "sB" => "BZZ".into(),
        "sC" => "CZZ".into(),
        _ => format!("{e}ZZ"),
    };
    let code = match op {
        Op::Def(e, s) => {
            let tag = format!("{e}{k}");
            let body = if s { format!("[:{tag}] + super") } else { format!("[:{tag}]") };
            g.defs.insert((e, "m"), Def { tag, body: if s { Body::Super } else { Body::Plain }, name: "m", owner: e });
            match e {
                "b" | "sA" | "sB" | "sC" if k % 2 == 0 => format!("def {}.m; {body}; end", obj(e)),
                _ => format!("{}def m; {body}; end; end", open(e)),
            }
        }
        Op::Attr(e) => {
            g.defs.insert((e, "m"), Def { tag: "iv".into(), body: Body::Attr, name: "m", owner: e });
            format!("{}attr_reader :m; end", open(e))
        }
        Op::Alias(e) | Op::AliasM(e) => {
            let mro = g.mro(e);
            let (i, d) = g.find(&mro, "m")?;
            let d = d.clone();
            // the owner of the alias differs from the owner of the method: left out when it matters
            if mro[i] != e && d.body == Body::Super {
                return None;
            }
            g.defs.insert((e, "n"), d);
            if matches!(op, Op::Alias(_)) {
                format!("{}alias n m; end", open(e))
            } else {
                format!("{}alias_method :n, :m; end", open(e))
            }
        }
        Op::Include(e, m) => {
            if (e == "M" && g.used("M")) || g.pre.get(e).map_or(false, |v| v.contains(&m)) {
                return None;
            }
            g.include(e, m);
            match e {
                "b" | "sA" | "sC" => format!("{}.extend({m}ZZ)", obj(e)),
                _ => format!("{}include {m}ZZ; end", open(e)),
            }
        }
        Op::Prepend(e, m) => {
            if (e == "M" && g.used("M")) || g.inc.get(e).map_or(false, |v| v.contains(&m)) {
                return None;
            }
            g.prepend(e, m);
            format!("{}prepend {m}ZZ; end", open(e))
        }
        Op::Missing(e) => {
            let tag = format!("mm{e}{k}");
            g.defs.insert((e, "method_missing"), Def { tag: tag.clone(), body: Body::Missing, name: "method_missing", owner: e });
            format!("{}def method_missing(n, *r); [:{tag}, n]; end; end", open(e))
        }
    };
    // a module which is there twice cannot tell its two places apart (documented limitation)
    if !g.dup_free() {
        return None;
    }
    Some((g, code))
}

fn grow(g: &G, depth: usize, k: usize, ops: &[Op], code: &mut Vec<String>, seen: &mut Vec<V>, out: &mut Vec<Case>) {
    if !code.is_empty() && depth == 0 {
        let setup = "class AZZ; def initialize; @m = [:iv]; end; end; class BZZ < AZZ; end; class CZZ < BZZ; end; module MZZ; end; module NZZ; end";
        let o = "ob(AZZ, BZZ, CZZ, MZZ, NZZ, aZZ, bZZ, cZZ)";
        let mut s = format!("{setup}; aZZ = AZZ.new; bZZ = BZZ.new; cZZ = CZZ.new; r = []; {o}; ");
        for c in code.iter() {
            s += &format!("{c}; r << {o}; ");
        }
        s += "p r";
        out.push(Case::top(s, format!("{}\n", arr(seen.clone()).inspect())));
        return;
    }
    for op in ops {
        if let Some((g2, c)) = apply(g, *op, k) {
            code.push(c);
            seen.push(g2.observe());
            grow(&g2, depth - 1, k + 1, ops, code, seen, out);
            code.pop();
            seen.pop();
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.section("all histories of class-graph operations, every call site executed after every step");
    let o = ops(ctx.thorough);
    ctx.bound("operations in the alphabet", o.len());
    let depth = 3;
    ctx.bound("depth", depth);
    let mut out = vec![];
    grow(&G::default(), depth, 1, &o, &mut vec![], &mut vec![], &mut out);
    ctx.states += out.len() as u64;
    Runner::new(ctx).prelude(PRELUDE).batch(40).run(out.into_iter());
}
