//! C04: a constant reference evaluates to what Ruby's lookup selects at that moment, however often it was evaluated before.
use crate::case::{Case, Runner};
use crate::report::Ctx;

/// Scopes a constant can live in.
const TOP: usize = 0;
const A: usize = 1; // class A
const B: usize = 2; // class B < A
const C: usize = 3; // class C
const M: usize = 4; // module M
const N: usize = 5; // module A::N
const D: usize = 6; // class A::D < C
const L: usize = 7; // module L
const NAMES: [&str; 8] = ["Object", "AZZ", "BZZ", "CZZ", "MZZ", "AZZ::N", "AZZ::D", "LZZ"];
const IS_MOD: [bool; 8] = [false, false, false, false, true, true, false, true];

const SETUP: &str = r##"
def topZZ; XZZ; end
module LZZ
  def l_i; XZZ; end
end
class CZZ
  def c_i; XZZ; end
  def c_b; [1].map { XZZ }[0]; end
  def self.c_s; XZZ; end
  def self.lam; @l ||= -> { XZZ }; end
  def self.dflt(x = XZZ) x end
end
class AZZ
  def a_i; XZZ; end
  def a_n; if true then [[XZZ]] end[0][0]; end
  def self.a_s; XZZ; end
  module N
    def self.n_s; XZZ; end
    def n_i; XZZ; end
  end
  class D < CZZ
    def d_i; XZZ; end
    def self.d_s; 1.times { return XZZ }; end
  end
end
class BZZ < AZZ
  def b_i; XZZ; end
  def b_t; "#{XZZ}".to_i; end
  def self.b_s; XZZ; end
end
module MZZ
  def m_i; XZZ; end
  def self.m_s; XZZ; end
end
class EZZ
  include MZZ
  include AZZ::N
  include LZZ
end
class FZZ < BZZ
end
CZZ.lam
$sites = [
SITES
]
def runZZ
  r = $sites.map do |s|
    begin
      s.call
    rescue NameError
      :-
    end
  end
  puts r.map { |v| v == true ? "t" : v == false ? "f" : v.to_s }.join(" ")
end
"##;

enum Site {
    /// lexical scopes from the inside out
    Lex(&'static str, &'static [usize]),
    /// P::X
    Scope(usize),
    Get(usize),
    Def(usize),
    In(usize),
    InOwn(usize),
    Defined(&'static str, &'static [usize]),
    DefScope(usize),
}
use Site::*;

fn sites() -> Vec<Site> {
    vec![
        Lex("topZZ", &[]),
        Lex("XZZ", &[]),
        Lex("AZZ.new.send(:topZZ)", &[]),
        Lex("MZZ.send(:topZZ)", &[]),
        Lex("AZZ.new.a_i", &[A]),
        Lex("AZZ.new.a_n", &[A]),
        Lex("BZZ.new.a_i", &[A]),
        Lex("AZZ.a_s", &[A]),
        Lex("BZZ.a_s", &[A]),
        Lex("BZZ.new.b_i", &[B]),
        Lex("BZZ.new.b_t", &[B]),
        Lex("FZZ.new.b_i", &[B]),
        Lex("BZZ.b_s", &[B]),
        Lex("FZZ.b_s", &[B]),
        Lex("CZZ.new.c_i", &[C]),
        Lex("CZZ.new.c_b", &[C]),
        Lex("CZZ.c_s", &[C]),
        Lex("CZZ.lam.call", &[C]),
        Lex("CZZ.dflt", &[C]),
        Lex("AZZ::D.new.c_i", &[C]),
        Lex("AZZ::D.new.d_i", &[D, A]),
        Lex("AZZ::D.d_s", &[D, A]),
        Lex("AZZ::N.n_s", &[N, A]),
        Lex("EZZ.new.n_i", &[N, A]),
        Lex("EZZ.new.m_i", &[M]),
        Lex("MZZ.m_s", &[M]),
        Lex("EZZ.new.l_i", &[L]),
        Scope(A),
        Scope(B),
        Scope(C),
        Scope(M),
        Scope(N),
        Scope(D),
        Scope(L),
        Scope(TOP),
        Lex("::XZZ", &[]),
        Get(A),
        Get(B),
        Get(C),
        Get(M),
        Get(D),
        Get(TOP),
        Def(A),
        Def(B),
        Def(M),
        Def(D),
        In(A),
        In(B),
        In(D),
        In(M),
        InOwn(B),
        InOwn(D),
        Defined("topZZ", &[]),
        DefScope(B),
        DefScope(D),
    ]
}

fn src(s: &Site) -> String {
    match s {
        Lex(e, _) => e.to_string(),
        Scope(s) => format!("{}::XZZ", NAMES[*s]),
        Get(s) => format!("{}.const_get(:XZZ)", NAMES[*s]),
        Def(s) => format!("{}.const_defined?(:XZZ)", NAMES[*s]),
        In(s) => format!("{}.constants.include?(:XZZ)", NAMES[*s]),
        InOwn(s) => format!("{}.constants(false).include?(:XZZ)", NAMES[*s]),
        Defined(..) => "!defined?(XZZ).nil?".into(),
        DefScope(s) => format!("!defined?({}::XZZ).nil?", NAMES[*s]),
    }
}

#[derive(Clone)]
struct St {
    own: [Option<usize>; 8],
    /// modules included, latest first
    inc: [Vec<usize>; 8],
    pre: [Vec<usize>; 8],
}

fn ancestors(s: &St, c: usize) -> Vec<usize> {
    let mut v: Vec<usize> = s.pre[c].clone();
    v.push(c);
    v.extend(&s.inc[c]);
    match c {
        B => v.extend(ancestors(s, A)),
        D => v.extend(ancestors(s, C)),
        TOP | M | N | L => {}
        _ => v.extend(ancestors(s, TOP)),
    }
    v
}

fn lookup(s: &St, cref: &[usize]) -> Option<usize> {
    for c in cref {
        if let Some(v) = s.own[*c] {
            return Some(v);
        }
    }
    let k = cref.first().copied().unwrap_or(TOP);
    get(s, k)
}

/// Where the search starts the class's own constants win over those of modules prepended to it; further up prepended modules come first.
fn get(s: &St, k: usize) -> Option<usize> {
    if s.own[k].is_some() {
        return s.own[k];
    }
    let mut a = ancestors(s, k);
    if IS_MOD[k] {
        a.extend(ancestors(s, TOP));
    }
    a.into_iter().find_map(|c| s.own[c])
}

fn scope(s: &St, k: usize) -> Option<usize> {
    if s.own[k].is_some() {
        return s.own[k];
    }
    let top = ancestors(s, TOP);
    ancestors(s, k).into_iter().filter(|c| k == TOP || *c == k || !top.contains(c)).find_map(|c| s.own[c])
}

fn observe(s: &St, sites: &[Site]) -> String {
    let v = |o: Option<usize>| o.map(|v| v.to_string()).unwrap_or("-".into());
    let b = |o: bool| if o { "t".to_string() } else { "f".into() };
    sites
        .iter()
        .map(|x| match x {
            Lex(_, c) => v(lookup(s, c)),
            Scope(k) => v(scope(s, *k)),
            Get(k) => v(get(s, *k)),
            Def(k) => b(get(s, *k).is_some()),
            In(k) => b(scope(s, *k).is_some()),
            InOwn(k) => b(s.own[*k].is_some()),
            Defined(_, c) => b(lookup(s, c).is_some()),
            DefScope(k) => b(scope(s, *k).is_some()),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Clone, Copy)]
enum Op {
    /// reopen the scope and assign
    Set(usize),
    /// P::X = v
    SetIn(usize),
    Include(usize, usize),
    Prepend(usize, usize),
    /// a new class of the same name elsewhere, an unrelated constant, an unrelated method
    Other,
}

fn op_src(o: Op, v: usize) -> String {
    let open = |s: usize| if IS_MOD[s] { "module" } else { "class" };
    match o {
        Op::Set(TOP) => format!("XZZ = {v}"),
        Op::Set(N) => format!("class AZZ; module N; XZZ = {v}; end; end"),
        Op::Set(D) => format!("class AZZ; class D < CZZ; XZZ = {v}; end; end"),
        Op::Set(s) => format!("{} {}; XZZ = {v}; end", open(s), NAMES[s]),
        Op::SetIn(s) => format!("{}::XZZ = {v}", NAMES[s]),
        Op::Include(c, m) => format!("{}.send(:include, {})", NAMES[c], NAMES[m]),
        Op::Prepend(c, m) => format!("{}.send(:prepend, {})", NAMES[c], NAMES[m]),
        Op::Other => "class GZZ; XZZ = 99; def x; XZZ; end; end\nGZZ.new.x".into(),
    }
}

fn apply(o: Op, v: usize, s: &mut St) -> bool {
    match o {
        Op::Set(k) | Op::SetIn(k) => s.own[k] = Some(v),
        Op::Include(c, m) | Op::Prepend(c, m) => {
            // one inclusion of a module per hierarchy
            if ancestors(s, c).contains(&m) || [A, B, C, D, TOP].iter().any(|k| ancestors(s, *k).contains(&m)) {
                return false;
            }
            if let Op::Include(..) = o {
                s.inc[c].insert(0, m)
            } else {
                s.pre[c].insert(0, m)
            }
        }
        Op::Other => {}
    }
    true
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let sites = sites();
    let setup = SETUP.replace("SITES", &sites.iter().map(|s| format!("-> {{ {} }}", src(s))).collect::<Vec<_>>().join(",\n"));
    let mut ops: Vec<Op> = [TOP, A, B, C, M, N, D, L].iter().map(|s| Op::Set(*s)).collect();
    ops.extend([Op::SetIn(A), Op::SetIn(D), Op::SetIn(M), Op::Include(C, M), Op::Include(A, M), Op::Include(B, L), Op::Include(D, L), Op::Include(TOP, L), Op::Prepend(A, L), Op::Prepend(C, L), Op::Other]);
    ctx.bound("reference sites", sites.len());
    ctx.bound("operations", ops.len());
    let n = ops.len();
    let depth = if t { 4 } else { 3 };
    ctx.bound("operations in a history", format!("every history up to length {depth}; after each operation every site is evaluated twice"));
    ctx.section("histories of definitions and inclusions");
    {
        let (sites, setup, ops) = (&sites, &setup, &ops);
        let total: usize = n.pow(depth as u32);
        ctx.states += total as u64;
        ctx.transitions += (total * depth * sites.len() * 2) as u64;
        Runner::new(ctx).batch(10).run((0..total).filter_map(move |k| {
            let mut s = St { own: [None; 8], inc: Default::default(), pre: Default::default() };
            let mut code = setup.clone();
            let mut exp = String::new();
            let mut j = k;
            code.push_str("runZZ\n");
            exp.push_str(&format!("{}\n", observe(&s, sites)));
            for i in 0..depth {
                let o = ops[j % n];
                j /= n;
                if !apply(o, i + 1, &mut s) {
                    return None;
                }
                code.push_str(&op_src(o, i + 1));
                code.push_str("\nrunZZ; runZZ\n");
                let l = observe(&s, sites);
                exp.push_str(&format!("{l}\n{l}\n"));
            }
            Some(Case::top(code, exp))
        }));
    }
    ctx.section("class and module definitions as constants");
    {
        let mut v = vec![];
        for (code, exp) in [
            ("class KZZ; def v; 1; end; end\nclass HZZ; class KZZ; def v; 2; end; end; def g; KZZ.new.v; end; end\np KZZ.new.v, HZZ.new.g, HZZ::KZZ.new.v", "1\n2\n2"),
            ("class KZZ; def v; 1; end; end\nclass HZZ; def g; KZZ.new.v; end; end\nh = HZZ.new\np h.g\nclass HZZ; class KZZ; def v; 2; end; end; end\np h.g\np h.g", "1\n2\n2"),
            ("class HZZ; KZZ = 1; end\nclass IZZ < HZZ; p KZZ; KZZ = 2; p KZZ; end\nclass HZZ; p KZZ; end", "1\n2\n1"),
            ("class HZZ; KZZ = 1; class I; p KZZ; class J; p KZZ; KZZ = 3; p KZZ; end; p KZZ; end; end\np HZZ::I::J::KZZ", "1\n1\n3\n1\n3"),
            ("module HZZ; KZZ = 1; end\nclass IZZ; include HZZ; p KZZ; def k; KZZ; end; end\np IZZ.new.k\np IZZ::KZZ", "1\n1\n1"),
            ("module HZZ; KZZ = 1; class I; def k; KZZ; end; end; end\nclass JZZ < HZZ::I; KZZ = 2; end\np JZZ.new.k", "1"),
            ("class HZZ; KZZ = 1; def k; KZZ; end; def sk; self.class::KZZ; end; end\nclass IZZ < HZZ; KZZ = 2; end\np IZZ.new.k, IZZ.new.sk, HZZ.new.sk", "1\n2\n1"),
            ("def fZZ; KZZ; end\nr = []\n3.times { |i| r << (fZZ rescue :no); Object::KZZ = i if i == 1 }\np r", "[:no, :no, 1]"),
            ("KZZ = 1\nr = []\n4.times { |i| r << KZZ; Object::KZZ = i + 10 if i % 2 == 1 }\np r", "[1, 1, 11, 11]"),
            ("class HZZ; end\nr = []\n3.times { |i| r << (HZZ::KZZ rescue :no); HZZ::KZZ = i if i < 2 }\np r", "[:no, 0, 1]"),
            ("KZZ = [1]\nKZZ << 2\np KZZ\np KZZ.equal?(Object.const_get(:KZZ))", "[1, 2]\ntrue"),
            ("KZZ = 1\nclass HZZ; p KZZ; p ::KZZ; KZZ = 2; p KZZ; p ::KZZ; p Object::KZZ; end", "1\n1\n2\n1\n1"),
            ("module HZZ; KZZ = 1; module I; end; end\nmodule HZZ::I; def self.k; KZZ; end; end\np((HZZ::I.k rescue :no))", ":no"),
            ("module HZZ; KZZ = 1; module I; def self.k; KZZ; end; end; end\np((HZZ::I.k rescue :no))", "1"),
            ("class HZZ; KZZ = 1; end\nIZZ = HZZ\np IZZ::KZZ\nclass IZZ; KZZ = 2; end\np HZZ::KZZ", "1\n2"),
            ("p((KZZ rescue :no))\nKZZ = nil\np KZZ\np defined?(KZZ)", ":no\nnil\n\"constant\""),
            ("p((KZZ::J rescue :no))\nmodule KZZ; end\np((KZZ::J rescue :no))\nmodule KZZ; J = 1; end\np KZZ::J", ":no\n:no\n1"),
            ("begin; 5::KZZ; rescue TypeError; p 1; end", "1"),
            ("p Object.const_defined?(:KZZ)\nKZZ = 1\np Object.const_defined?(:KZZ)\np Object.constants.include?(:KZZ)", "false\ntrue\ntrue"),
            ("KZZ = 1; LZZ = -> { KZZ }; p LZZ.call; Object::KZZ = 2; p LZZ.call", "1\n2"),
            ("class HZZ; KZZ = 5; [1].each { p KZZ }; LZZ = -> { KZZ }; end; p HZZ::LZZ.call", "5\n5"),
            ("class HZZ; KZZ = 5; def self.each; yield; end; end\nKZZ = 6\nHZZ.each { p KZZ }", "6"),
            ("class HZZ; KZZ = 5; end\nKZZ = 6\no = HZZ.new\ndef o.k; KZZ; end\np o.k", "6"),
            ("class HZZ; KZZ = 5; def self.m(&b) b; end; end\nclass IZZ; KZZ = 7; def b; HZZ.m { KZZ }; end; end\np IZZ.new.b.call", "7"),
            ("module HZZ; KZZ = 1; def k; KZZ; end; end\nclass IZZ; KZZ = 2; include HZZ; end\nclass JZZ; KZZ = 3; include HZZ; end\np IZZ.new.k, JZZ.new.k, IZZ.new.k", "1\n1\n1"),
            ("module HZZ; def k; KZZ; end; end\nclass IZZ; KZZ = 2; include HZZ; end\np((IZZ.new.k rescue :no))", ":no"),
            ("class HZZ; def k; KZZ; end; end\nclass IZZ < HZZ; KZZ = 2; end\np((IZZ.new.k rescue :no))\nclass HZZ; KZZ = 1; end\np IZZ.new.k", ":no\n1"),
            ("class HZZ; KZZ = 1; end\nclass IZZ < HZZ; def self.s; KZZ; end; end\np IZZ.s", "1"),
            ("class HZZ; KZZ = 1; end\nclass IZZ < HZZ; X = KZZ + 1; p X; end", "2"),
            ("module HZZ; KZZ = 1; end\nclass IZZ; include HZZ; X = KZZ + 1; p X; def self.s; KZZ; end; p s; end", "2\n1"),
        ] {
            v.push(Case::top(code, format!("{exp}\n")));
        }
        ctx.states += v.len() as u64;
        Runner::new(ctx).run(v.into_iter());
    }
}
