//! C20: every read yields the last value written to that very slot; slots are shared only where Ruby shares them.
use crate::case::{Case, Runner};
use crate::report::Ctx;
use std::collections::BTreeMap;

const SETUP: &str = r##"
module MZZ
  def m; @m; end
  def m=(v); @m = v; end
  def ovr; :m; end
end
class AZZ
  @@cv = 0
  attr_accessor :x
  def initialize; @l = []; end
  def y; @y; end
  def sety(v); @y = v; end
  def l; @l; end
  def setz(v); @z = v; end
  def ovr; :a; end
  def cv; @@cv; end
  def setcv(v); @@cv = v; end
  def late; @@late; end
  def setlate(v); @@late = v; end
  def self.ccv; @@cv; end
  def self.ci; @ci; end
  def self.ci=(v); @ci = v; end
  class << self
    attr_accessor :ca
    def scv; @@cv; end
  end
end
class BZZ < AZZ
  attr_writer :w
  def w; [@w].map { |e| [e, @x] }; end
  def setz(v); super; @z2 = v; end
  def bcv; @@cv; end
  def setbcv(v); [v].each { |e| @@cv = e }; end
end
def obsZZ(o)
  r = [o.x, o.y, o.instance_variable_get(:@z), o.l, o.instance_variables.sort, o.ovr]
  r << (o.respond_to?(:s) ? o.s : :-)
  r << (o.respond_to?(:m) ? o.m : :-)
  r << (o.respond_to?(:t) ? o.t : :-)
  r << (o.respond_to?(:w) ? o.w : :-)
  r << o.singleton_methods.sort
  r << o.class.name[0]
  r
end
def obsallZZ(a, b, c)
  p obsZZ(a)
  p obsZZ(b)
  p obsZZ(c)
  late = begin; b.late; rescue NameError; :-; end
  p [a.cv, b.bcv, c.cv, AZZ.ccv, BZZ.ccv, BZZ.scv, late, AZZ.ci, BZZ.ci, AZZ.ca, BZZ.ca, $gZZ]
  p [AZZ.class_variables(false).sort, BZZ.class_variables(false), AZZ.instance_variables.sort, BZZ.instance_variables.sort]
end
"##;

#[derive(Clone)]
struct Obj {
    b: bool,
    iv: BTreeMap<&'static str, String>,
    /// index of the list object
    l: usize,
    s: Option<usize>,
    m: bool,
}

#[derive(Clone)]
struct St {
    /// a, b, c
    o: [Obj; 3],
    /// c is the same object as a or b
    alias: Option<usize>,
    lists: Vec<Vec<usize>>,
    cv: usize,
    late: Option<usize>,
    ci: [Option<usize>; 2],
    ca: [Option<usize>; 2],
    g: Option<usize>,
    t: Option<usize>,
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    X(usize),
    Y(usize),
    IvSet(usize, &'static str),
    Z(usize),
    W,
    Push(usize),
    Dup(usize),
    Clone(usize),
    Same(usize),
    DefS(usize),
    Ext(usize),
    M(usize),
    Cv,
    BCv,
    Late(usize),
    Ci(usize),
    Ca(usize),
    G,
    T,
}
use Op::*;

fn n(i: usize) -> &'static str {
    ["a", "b", "c"][i]
}
fn k(i: usize) -> &'static str {
    ["AZZ", "BZZ"][i]
}

fn src(o: Op, v: usize) -> String {
    match o {
        X(i) => format!("{}.x = {v}", n(i)),
        Y(i) => format!("{}.sety({v})", n(i)),
        IvSet(i, name) => format!("{}.instance_variable_set(:{name}, {v})", n(i)),
        Z(i) => format!("{}.setz({v})", n(i)),
        W => format!("b.w = {v}"),
        Push(i) => format!("{}.l << {v}", n(i)),
        Dup(i) => format!("c = {}.dup", n(i)),
        Clone(i) => format!("c = {}.clone", n(i)),
        Same(i) => format!("c = {}", n(i)),
        DefS(i) => format!("def {}.s; {v}; end", n(i)),
        Ext(i) => format!("{}.extend(MZZ)", n(i)),
        M(i) => format!("begin; {}.m = {v}; rescue NameError; p :no; end", n(i)),
        Cv => format!("a.setcv({v})"),
        BCv => format!("b.setbcv({v})"),
        Late(i) => format!("{}.setlate({v})", n(i)),
        Ci(i) => format!("{}.ci = {v}", k(i)),
        Ca(i) => format!("{}.ca = {v}", k(i)),
        G => format!("$gZZ = {v}"),
        T => format!("class AZZ; def t; {v}; end; end"),
    }
}

/// Returns what the operation prints.
fn apply(o: Op, v: usize, s: &mut St) -> &'static str {
    let at = |s: &St, i: usize| if i == 2 { s.alias.unwrap_or(2) } else { i };
    match o {
        X(i) => drop(s.o[at(s, i)].iv.insert("@x", v.to_string())),
        Y(i) => drop(s.o[at(s, i)].iv.insert("@y", v.to_string())),
        IvSet(i, name) => drop(s.o[at(s, i)].iv.insert(name, v.to_string())),
        Z(i) => {
            let i = at(s, i);
            s.o[i].iv.insert("@z", v.to_string());
            if s.o[i].b {
                s.o[i].iv.insert("@z2", v.to_string());
            }
        }
        W => drop(s.o[1].iv.insert("@w", v.to_string())),
        Push(i) => {
            let l = s.o[at(s, i)].l;
            s.lists[l].push(v)
        }
        Dup(i) => {
            let o = s.o[at(s, i)].clone();
            s.alias = None;
            s.o[2] = Obj { s: None, m: false, ..o };
        }
        Clone(i) => {
            let o = s.o[at(s, i)].clone();
            s.alias = None;
            s.o[2] = o;
        }
        Same(i) => s.alias = Some(i),
        DefS(i) => s.o[at(s, i)].s = Some(v),
        Ext(i) => s.o[at(s, i)].m = true,
        M(i) => {
            let i = at(s, i);
            if s.o[i].m {
                s.o[i].iv.insert("@m", v.to_string());
            } else {
                return ":no\n";
            }
        }
        Cv | BCv => s.cv = v,
        Late(_) => s.late = Some(v),
        Ci(i) => s.ci[i] = Some(v),
        Ca(i) => s.ca[i] = Some(v),
        G => s.g = Some(v),
        T => s.t = Some(v),
    }
    ""
}

fn observe(s: &St) -> String {
    let mut r = String::new();
    let nil = |o: Option<usize>| o.map(|v| v.to_string()).unwrap_or("nil".into());
    for i in 0..3 {
        let o = &s.o[if i == 2 { s.alias.unwrap_or(2) } else { i }];
        let iv = |n: &str| o.iv.get(n).cloned().unwrap_or("nil".into());
        let mut names: Vec<&str> = o.iv.keys().copied().collect();
        names.push("@l");
        names.sort();
        let mut sing = vec![];
        if o.m {
            sing.extend([":m", ":m=", ":ovr"]);
        }
        if o.s.is_some() {
            sing.push(":s");
        }
        let l = &s.lists[o.l];
        r.push_str(&format!(
            "[{}, {}, {}, {:?}, [{}], {}, {}, {}, {}, {}, [{}], {}]\n",
            iv("@x"),
            iv("@y"),
            iv("@z"),
            l,
            names.iter().map(|n| format!(":{n}")).collect::<Vec<_>>().join(", "),
            if o.m { ":m" } else { ":a" },
            o.s.map(|v| v.to_string()).unwrap_or(":-".into()),
            if o.m { iv("@m") } else { ":-".into() },
            s.t.map(|v| v.to_string()).unwrap_or(":-".into()),
            if o.b { format!("[[{}, {}]]", iv("@w"), iv("@x")) } else { ":-".into() },
            sing.join(", "),
            if o.b { "\"B\"" } else { "\"A\"" },
        ));
    }
    let civ = |i: usize| {
        let mut v = vec![];
        if s.ca[i].is_some() {
            v.push(":@ca");
        }
        if s.ci[i].is_some() {
            v.push(":@ci");
        }
        v.join(", ")
    };
    r.push_str(&format!(
        "[{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}]\n",
        s.cv,
        s.cv,
        s.cv,
        s.cv,
        s.cv,
        s.cv,
        s.late.map(|v| v.to_string()).unwrap_or(":-".into()),
        nil(s.ci[0]),
        nil(s.ci[1]),
        nil(s.ca[0]),
        nil(s.ca[1]),
        nil(s.g)
    ));
    r.push_str(&format!("[[:@@cv{}], [], [{}], [{}]]\n", if s.late.is_some() { ", :@@late" } else { "" }, civ(0), civ(1)));
    r
}

fn init() -> St {
    let ob = |b, l| Obj { b, iv: BTreeMap::new(), l, s: None, m: false };
    St { o: [ob(false, 0), ob(true, 1), ob(false, 2)], alias: None, lists: vec![vec![], vec![], vec![]], cv: 0, late: None, ci: [None; 2], ca: [None; 2], g: None, t: None }
}

fn histories(ctx: &mut Ctx) {
    ctx.section("histories over instances, copies, class variables, class-level variables and globals");
    let ops = [
        X(0), X(1), X(2), Y(0), IvSet(0, "@x"), IvSet(2, "@q"), Z(1), Z(2), W, Push(0), Push(2), Dup(0), Dup(1), Clone(0), Clone(1), Same(0), DefS(0), DefS(2), Ext(0), Ext(2), M(0), M(2), Cv, BCv, Late(1), Ci(0), Ci(1), Ca(0), Ca(1), G, T,
    ];
    let d = if ctx.thorough { 4 } else { 3 };
    let mut s0 = vec![];
    s0.extend(ops);
    ctx.bound("operations", ops.len());
    ctx.bound("operations in a history", format!("every history of length {d}; every slot is read after each operation"));
    let nn = ops.len();
    let total = nn.pow(d as u32);
    ctx.states += total as u64;
    ctx.transitions += (total * d) as u64;
    Runner::new(ctx).batch(24).run((0..total).map(move |k| {
        let mut st = init();
        let mut code = format!("{SETUP}a = AZZ.new; b = BZZ.new; c = AZZ.new\n");
        let mut exp = String::new();
        let mut j = k;
        for i in 0..d {
            let o = ops[j % nn];
            j /= nn;
            exp.push_str(apply(o, i + 1, &mut st));
            code.push_str(&src(o, i + 1));
            // reading between the operations may not change anything: alternate between reading always and only at the end
            if i + 1 == d || k % 2 == 0 {
                code.push_str("\nobsallZZ(a, b, c)");
                exp.push_str(&observe(&st));
            }
            code.push('\n');
        }
        Case::top(code, exp)
    }));
}

/// Containers, strings, exceptions, procs and classes as carriers of instance variables; copies are shallow and independent.
fn carriers(ctx: &mut Ctx) {
    ctx.section("instance variables and singleton methods of built-in objects; copies");
    // (expression, content, mutation through `it`, content afterwards)
    let kinds = [
        ("[1, [2]]", "[1, [2]]", "it << 3", "[1, [2], 3]"),
        ("{a: 1}", "{:a=>1}", "it[:b] = 2", "{:a=>1, :b=>2}"),
        ("\"ab\"", "\"ab\"", "it << \"c\"", "\"abc\""),
        ("LZZ.new([1])", "[1]", "it << 2", "[1, 2]"),
        ("TZZ.new(\"q\")", "\"q\"", "it << \"r\"", "\"qr\""),
        ("HZZ.new", "{}", "it[1] = 2", "{1=>2}"),
    ];
    let setup = "class LZZ < Array; attr_accessor :at; def sub; @at; end; end\nclass TZZ < String; attr_accessor :at; end\nclass HZZ < Hash; attr_accessor :at; end\n";
    let mut v = vec![];
    for (e, c0, m, c1) in kinds {
        for copy in ["o.dup", "o.clone", "o"] {
            let same = copy == "o";
            let sing = copy != "o.dup";
            // order of events: E1 set ivar on o, E2 def singleton, E3 copy; then writes on either side
            for order in ["ISC", "SIC", "ICS", "CIS", "CSI", "SCI"] {
                for side in ["o", "c"] {
                    let mut code = format!("{setup}o = {e}\nc = nil\n");
                    let (mut oi, mut ci, mut os, mut cs) = (false, false, false, false);
                    for ch in order.chars() {
                        match ch {
                            'I' => {
                                code.push_str("o.instance_variable_set(:@iv, 1)\n");
                                oi = true;
                            }
                            'S' => {
                                code.push_str("def o.sg; 5; end\n");
                                os = true;
                            }
                            _ => {
                                code.push_str(&format!("c = {copy}\n"));
                                ci = oi;
                                cs = os && sing;
                            }
                        }
                    }
                    if same {
                        ci = oi;
                        cs = os;
                    }
                    code.push_str(&format!("it = {side}\n{m}\n{side}.instance_variable_set(:@iw, 2)\n"));
                    let (mut oc, mut cc) = (c0, c0);
                    let (mut ow, mut cw) = (false, false);
                    if side == "o" || same {
                        oc = c1;
                        ow = true;
                    }
                    if side == "c" || same {
                        cc = c1;
                        cw = true;
                    }
                    code.push_str("p o, c\n[o, c].each { |q| p [q.instance_variable_get(:@iv), q.instance_variable_get(:@iw), q.instance_variables.sort, q.respond_to?(:sg), q.class == o.class, q.equal?(o)] }\n");
                    let l = |i: bool, w: bool, s: bool, same: bool| {
                        let mut n = vec![];
                        if i {
                            n.push(":@iv")
                        }
                        if w {
                            n.push(":@iw")
                        }
                        format!("[{}, {}, [{}], {s}, true, {same}]\n", if i { "1" } else { "nil" }, if w { "2" } else { "nil" }, n.join(", "))
                    };
                    let exp = format!("{oc}\n{cc}\n{}{}", l(oi, ow, os, true), l(ci, cw, cs, same));
                    v.push(Case::top(code, exp));
                }
            }
        }
    }
    ctx.bound("copies of built-in objects", v.len());
    ctx.states += v.len() as u64;
    Runner::new(ctx).run(v.into_iter());
}

fn structs(ctx: &mut Ctx) {
    ctx.section("Struct members");
    let ops: [&str; 10] = ["s.a = V", "s.b = V", "t.a = V", "t = s.dup", "t = s", "s, t = t, s", "u.a = V", "s.l << V", "t = KZZ.new(V); t.l", "def s.b; 99; end"];
    let d = if ctx.thorough { 4 } else { 3 };
    let n = ops.len();
    let total = n.pow(d as u32);
    ctx.states += total as u64;
    ctx.bound("Struct operations", n);
    Runner::new(ctx).run((0..total).map(move |k| {
        // heap of (a, b, list id, singleton, class K?)
        let mut heap: Vec<(String, String, usize, bool, bool)> = vec![("1".into(), "2".into(), 0, false, false), ("3".into(), "nil".into(), 0, false, false), ("5".into(), "6".into(), 1, false, true)];
        let mut lists: Vec<Vec<usize>> = vec![vec![], vec![]];
        let (mut s, mut t, u) = (0usize, 1usize, 2usize);
        let mut code = String::from("SZZ = Struct.new(:a, :b) do\n  def sum; [a, b]; end\n  def l; @list ||= []; end\nend\nclass KZZ < SZZ\n  attr_reader :q\n  def b=(v); super; @q = v; end\nend\nl = []\ns = SZZ.new(1, 2); t = SZZ.new(3); u = KZZ.new(5, 6)\n[s, t].each { |e| e.instance_variable_set(:@list, l) }\nu.l\n");
        let mut j = k;
        for i in 0..d {
            let o = j % n;
            j /= n;
            let v = (i + 10).to_string();
            code.push_str(&ops[o].replace('V', &v));
            code.push('\n');
            match o {
                0 => heap[s].0 = v,
                1 => heap[s].1 = v,
                2 => heap[t].0 = v,
                3 => {
                    let mut h = heap[s].clone();
                    h.3 = false;
                    heap.push(h);
                    t = heap.len() - 1;
                }
                4 => t = s,
                5 => std::mem::swap(&mut s, &mut t),
                6 => heap[u].0 = v,
                7 => {
                    let l = heap[s].2;
                    lists[l].push(i + 10)
                }
                8 => {
                    lists.push(vec![]);
                    heap.push((v, "nil".into(), lists.len() - 1, false, true));
                    t = heap.len() - 1;
                }
                _ => heap[s].3 = true,
            }
        }
        code.push_str("[s, t, u].each { |e| p [e.a, e.b, e.sum, e.l, e.class.name[0]] }\np s.equal?(t)\n");
        let mut exp = String::new();
        for i in [s, t, u] {
            let h = &heap[i];
            let b = if h.3 { "99" } else { &h.1 };
            exp.push_str(&format!("[{}, {b}, [{}, {b}], {:?}, {}]\n", h.0, h.0, lists[h.2], if h.4 { "\"K\"" } else { "\"S\"" }));
        }
        exp.push_str(&format!("{}\n", s == t));
        Case::top(code, exp)
    }));
}

fn shared(ctx: &mut Ctx) {
    ctx.section("what is shared and what is not");
    let mut v = vec![];
    for (code, exp) in [
        ("class AZZ; def f; 1; end; end\nBZZ = AZZ.dup\nclass BZZ; def f; 2; end; def g; 3; end; end\np AZZ.new.f, BZZ.new.f, AZZ.new.respond_to?(:g), BZZ.name[0], AZZ.name[0]", "1\n2\nfalse\n\"B\"\n\"A\""),
        ("class AZZ; X = 1; @i = 5; class << self; attr_accessor :i; end; end\nBZZ = AZZ.dup\nBZZ.i = 6\nBZZ::Y = 2\np AZZ.i, BZZ.i, BZZ::X, AZZ.const_defined?(:Y)", "5\n6\n1\nfalse"),
        ("class AZZ; def self.s; 1; end; end\nBZZ = AZZ.clone\ndef BZZ.s; 2; end\np AZZ.s, BZZ.s", "1\n2"),
        ("module MZZ; def f; 1; end; end\nNZZ = MZZ.dup\nmodule NZZ; def f; 2; end; end\nclass AZZ; include MZZ; end\nclass BZZ; include NZZ; end\np AZZ.new.f, BZZ.new.f", "1\n2"),
        ("module MZZ; @@v = 1; def v; @@v; end; def v=(x); @@v = x; end; end\nclass AZZ; include MZZ; end\nclass BZZ; include MZZ; def w; @@v; end; end\nAZZ.new.v = 5\np BZZ.new.v, BZZ.new.w\nBZZ.new.v = 6\np AZZ.new.v", "5\n5\n6"),
        ("class AZZ; def s; @@v = 1; end; def g; @@v; end; end\nclass BZZ < AZZ; end\nclass CZZ < AZZ; end\nBZZ.new.s\np CZZ.new.g, AZZ.new.g", "1\n1"),
        ("class AZZ; @@v = 1; def self.v; @@v; end; end\nclass BZZ < AZZ; @@v = 2; end\np AZZ.v\nclass CZZ; @@v = 3; def self.v; @@v; end; end\np AZZ.v, CZZ.v", "2\n2\n3"),
        ("class AZZ; def v; @@v; end; end\nbegin; AZZ.new.v; rescue NameError; p :no; end\nclass AZZ; @@v = 1; end\np AZZ.new.v", ":no\n1"),
        ("class AZZ; def self.c; @@n ||= 0; @@n += 1; end; end\nclass BZZ < AZZ; end\nAZZ.c; BZZ.c\np AZZ.c", "3"),
        ("class AZZ; @@a, @@b = 1, 2; def s; [@@a, @@b]; end; def sw; @@a, @@b = @@b, @@a; end; end\nAZZ.new.sw\np AZZ.new.s", "[2, 1]"),
        ("class AZZ; @v = 1; def self.v; @v; end; def v; @v; end; end\nclass BZZ < AZZ; end\np AZZ.v, BZZ.v, AZZ.new.v", "1\nnil\nnil"),
        ("class AZZ; def b; @v = 1; [2, 3].each { |x| @v += x }; l = -> { @v *= 2 }; l.call; @v; end; end\np AZZ.new.b, AZZ.new.b", "12\n12"),
        ("class AZZ; attr_accessor :v; def m(o); o.v = 3; @v = 4; o; end; end\na = AZZ.new; b = AZZ.new\na.m(b)\np a.v, b.v\na.m(a)\np a.v", "4\n3\n4"),
        ("class AZZ; attr_accessor :v; end\no = [0, 0, 0].map { AZZ.new }\no[1].v = 1\np o.map(&:v)\no = Array.new(3, AZZ.new)\no[1].v = 1\np o.map(&:v)", "[nil, 1, nil]\n[1, 1, 1]"),
        ("a = Object.new; b = Object.new\ndef a.f; @v = 1; end\ndef b.f; @v; end\na.f\np b.f, a.instance_variables, b.instance_variables", "nil\n[:@v]\n[]"),
        ("class AZZ; def f; :c; end; end\na = AZZ.new; b = AZZ.new\ndef a.f; [:s, super]; end\np a.f, b.f\nclass AZZ; def f; :d; end; end\np a.f, b.f", "[:s, :c]\n:c\n[:s, :d]\n:d"),
        ("class AZZ; def f; :c; end; end\na = AZZ.new\ndef a.f; [:s, super]; end\nb = a.clone\nclass AZZ; def f; :d; end; end\np b.f\ndef b.f; [:t, super]; end\np a.f, b.f", "[:s, :d]\n[:s, :d]\n[:t, :d]"),
        ("$aZZ = 1\ndef sZZ; $aZZ += 1; end\n2.times { sZZ }\n-> { $aZZ += 10 }.call\nclass AZZ; def g; $aZZ; end; $aZZ += 100; end\np AZZ.new.g, $aZZ, $bZZ", "113\n113\nnil"),
        ("class AZZ; attr_accessor :x; end\na = AZZ.new; a.x = [1]\nb = a.dup; c = a.clone\nb.x << 2; c.x += [3]\np a.x, b.x, c.x\np a.x.equal?(b.x)", "[1, 2]\n[1, 2]\n[1, 2, 3]\ntrue"),
        ("class AZZ; attr_reader :r; attr_writer :w; attr_accessor :q; end\na = AZZ.new\np [:r, :r=, :w, :w=, :q, :q=].map { |m| a.respond_to?(m) }\np a.instance_variables\na.w = 1\np a.instance_variables", "[true, false, false, true, true, true]\n[]\n[:@w]"),
        ("class AZZ; attr_accessor :x; end\na = AZZ.new\np a.send(:x=, 3), a.x, (a.x = 4), a.x", "3\n3\n4\n4"),
        ("class AZZ; attr_accessor :x; end\nclass BZZ < AZZ; def x; [super]; end; def x=(v); super(v + 1); end; end\nb = BZZ.new\nb.x = 1\np b.x, b.instance_variable_get(:@x)", "[2]\n2"),
        ("class Integer; def svZZ; @a = 1; end; def gvZZ; @a; end; end\nbegin; 1.svZZ; rescue RuntimeError; p :frozen; end\np 1.gvZZ, 1.instance_variables, :a.instance_variable_get(:@b)\nbegin; nil.instance_variable_set(:@a, 1); rescue RuntimeError; p :frozen; end", ":frozen\nnil\n[]\nnil\n:frozen"),
        ("class Integer; attr_accessor :zqZZ; end\np 1.zqZZ\nbegin; 1.zqZZ = 2; rescue RuntimeError; p :frozen; end\np 1.zqZZ", "nil\n:frozen\nnil"),
        ("a = Object.new\ns = a.singleton_class\np s.equal?(a.singleton_class), a.dup.singleton_class.equal?(s), a.clone.singleton_class.equal?(s)\ndef a.f; 1; end\np s.instance_methods(false)", "true\nfalse\nfalse\n[:f]"),
        ("e = StandardError.new(\"m\")\nf = e.dup\nf.instance_variable_set(:@z, 1)\np e.instance_variable_get(:@z), f.message, f.class", "nil\n\"m\"\nStandardError"),
        ("module MZZ; def m; 1; end; end\nmodule NZZ; def n; 2; end; end\na = Object.new; a.extend(MZZ)\nb = a.dup; c = a.clone\np b.respond_to?(:m), c.respond_to?(:m)\nc.extend(NZZ)\np a.respond_to?(:n), c.n, c.m\na.extend(NZZ)\np a.n, b.respond_to?(:n)\nmodule MZZ; def m; 7; end; end\np a.m, c.m", "false\ntrue\nfalse\n2\n1\n2\nfalse\n7\n7"),
        ("class AZZ; prepend(Module.new { def f; [1, super]; end }); def f; 2; end; end\nBZZ = AZZ.dup\nclass BZZ; def f; 3; end; end\np AZZ.new.f, BZZ.new.f", "[1, 2]\n[1, 3]"),
        ("module MZZ; @@m = 1; end\nclass AZZ; @@a = 1; end\nclass BZZ < AZZ; include MZZ; @@b = 2; @@a = 3; end\np BZZ.class_variables.sort, BZZ.class_variables(false), BZZ.class_variables(true).sort, AZZ.class_variables, MZZ.class_variables", "[:@@a, :@@b, :@@m]\n[:@@b]\n[:@@a, :@@b, :@@m]\n[:@@a]\n[:@@m]"),
        ("p [nil.dup, 1.dup, :a.clone, 1.5.dup, true.clone]", "[nil, 1, :a, 1.5, true]"),
    ] {
        v.push(Case::top(code, format!("{exp}\n")));
    }
    ctx.states += v.len() as u64;
    let mut r = Runner::new(ctx).batch(1);
    r.run(v.into_iter());
}

/// Class variables over every shape of a small hierarchy of classes and modules.
fn cvars(ctx: &mut Ctx) {
    ctx.section("class variables over a hierarchy of classes and modules");
    const N: [&str; 5] = ["MZZ", "NZZ", "AZZ", "BZZ", "CZZ"];
    let depth = if ctx.thorough { 3 } else { 2 };
    let mut cases = vec![];
    for conf in 0..16usize {
        let on = |b: usize| conf >> b & 1 == 1;
        // ancestors of every scope, itself first
        let m = vec![0];
        let mut n = vec![1];
        if on(0) {
            n.push(0);
        }
        let mut a = vec![2];
        if on(1) {
            a.push(0);
        }
        let mut b = vec![3];
        if on(2) {
            b.extend(n.iter());
        }
        b.extend(a.iter().filter(|x| !(on(2) && n.contains(x))));
        let mut c = vec![4];
        if on(3) {
            c.push(0);
        }
        c.extend(a.iter().filter(|x| !(on(3) && **x == 0)));
        let anc = [m, n, a, b, c];
        let body = |s: &str, head: &str| {
            format!(
                "{head}\n  {s}\n  def self.r; @@v; rescue NameError; :no; end\n  def self.w(x); @@v = x; end\n  def w{0}(x); @@v = x; end\n  def r{0}; @@v; rescue NameError; :no; end\n  def o{0}(x); [1].each {{ @@v ||= x }}; end\n  class << self; def sw(x); @@v = x; end; end\nend\n",
                &head.split(' ').nth(1).unwrap()[..1].to_lowercase()
            )
        };
        let prelude = format!(
            "{}{}{}{}{}",
            body("", "module MZZ"),
            body(if on(0) { "include MZZ" } else { "" }, "module NZZ"),
            body(if on(1) { "include MZZ" } else { "" }, "class AZZ"),
            body(if on(2) { "include NZZ" } else { "" }, "class BZZ < AZZ"),
            body(if on(3) { "include MZZ" } else { "" }, "class CZZ < AZZ"),
        );
        // (text, scope, assign only when unset)
        let mut ops: Vec<(String, usize, bool)> = vec![];
        for (s, name) in N.iter().enumerate() {
            let lc = name[..1].to_lowercase();
            ops.push((format!("{name}.w(V)"), s, false));
            ops.push((format!("{name}.sw(V)"), s, false));
            ops.push((format!("{} {name}; @@v = V; end", if s < 2 { "module" } else { "class" }), s, false));
            for t in 2..5 {
                if anc[t].contains(&s) && (t == s || s < 2) {
                    ops.push((format!("{}.new.w{lc}(V)", N[t]), s, false));
                    ops.push((format!("{}.new.o{lc}(V)", N[t]), s, true));
                }
            }
        }
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..depth {
            seqs = seqs.iter().flat_map(|q| (0..ops.len()).map(move |o| [q.clone(), vec![o]].concat())).collect();
        }
        'seq: for q in seqs {
            let mut cell: [Option<i64>; 5] = [None; 5];
            let mut code = prelude.clone();
            let mut exp = String::new();
            let find = |cell: &[Option<i64>; 5], s: usize| anc[s].iter().copied().find(|x| cell[*x].is_some());
            for (k, o) in q.iter().enumerate() {
                let (txt, s, unset) = &ops[*o];
                let v = k as i64 + 1;
                code.push_str(&txt.replace('V', &v.to_string()));
                code.push('\n');
                match find(&cell, *s) {
                    Some(_) if *unset => {}
                    Some(h) => cell[h] = Some(v),
                    None => cell[*s] = Some(v),
                }
                // a variable overtaken by one further up is an error in Ruby
                if (0..5).any(|s| anc[s].iter().filter(|x| cell[**x].is_some()).count() > 1) {
                    continue 'seq;
                }
                let show = |s: usize| find(&cell, s).map_or(":no".to_string(), |h| cell[h].unwrap().to_string());
                code.push_str("p [MZZ.r, NZZ.r, AZZ.r, BZZ.r, CZZ.r, AZZ.new.ra, BZZ.new.rb, BZZ.new.ra, CZZ.new.rc]\n");
                exp.push_str(&format!("[{}]\n", [0, 1, 2, 3, 4, 2, 3, 2, 4].iter().map(|s| show(*s)).collect::<Vec<_>>().join(", ")));
            }
            cases.push(Case::top(&code, exp));
        }
    }
    ctx.states += cases.len() as u64;
    ctx.transitions += cases.len() as u64 * depth as u64;
    let mut r = Runner::new(ctx).batch(20);
    r.run(cases.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    histories(ctx);
    carriers(ctx);
    structs(ctx);
    shared(ctx);
    cvars(ctx);
}
