//! C29: defined?, respond_to? and the other existence queries agree with use.
use crate::case::*;
use crate::report::Ctx;

/// What an expression is, when it is asked about.
#[derive(Clone, Debug)]
struct E {
    src: String,
    /// what defined? answers
    d: Option<&'static str>,
    /// does evaluating it raise, and what
    raises: Option<&'static str>,
    /// class of its value
    k: K,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Int,
    Str,
    Arr,
    Nil,
    Mod,
    Other,
}

fn e(src: &str, d: Option<&'static str>, raises: Option<&'static str>, k: K) -> E {
    E { src: src.into(), d, raises, k }
}

/// Named things which exist or do not in every context built below.
fn atoms() -> Vec<E> {
    let ne = Some("NameError");
    vec![
        e("x", Some("local-variable"), None, K::Int),
        e("y", None, ne, K::Nil),
        e("@a", Some("instance-variable"), None, K::Int),
        e("@n", Some("instance-variable"), None, K::Nil),
        e("@z", None, None, K::Nil),
        e("$qg", Some("global-variable"), None, K::Int),
        e("$qz", None, None, K::Nil),
        e("QA", Some("constant"), None, K::Int),
        e("QN", Some("constant"), None, K::Nil),
        e("QZ", None, ne, K::Nil),
        e("QM", Some("constant"), None, K::Mod),
        e("QM::QB", Some("constant"), None, K::Int),
        e("QM::QZ", None, ne, K::Nil),
        e("QZ::QB", None, ne, K::Nil),
        e("QM::QI::QD", Some("constant"), None, K::Str),
        e("QM::QZ::QD", None, ne, K::Nil),
        e("::QA", Some("constant"), None, K::Int),
        e("::QZ", None, ne, K::Nil),
        e("::QM::QB", Some("constant"), None, K::Int),
        e("QA::QB", None, Some("TypeError"), K::Nil),
        e("qm", Some("method"), None, K::Int),
        e("qz", None, ne, K::Nil),
        e("qm()", Some("method"), None, K::Int),
        e("qz()", None, ne, K::Nil),
        e("self.qm", Some("method"), None, K::Int),
        e("self.qz", None, ne, K::Nil),
        e("qr", Some("method"), Some("QErr"), K::Nil),
        e("QM.qf", Some("method"), None, K::Str),
        e("QM.qz", None, ne, K::Nil),
        e("QZ.qf", None, ne, K::Nil),
        e("nil", Some("nil"), None, K::Nil),
        e("true", Some("true"), None, K::Other),
        e("false", Some("false"), None, K::Other),
        e("self", Some("self"), None, K::Other),
        e("1", Some("expression"), None, K::Int),
        e("\"s\"", Some("expression"), None, K::Str),
        e("[1]", Some("expression"), None, K::Arr),
        e("{}", Some("expression"), None, K::Other),
        e(":s", Some("expression"), None, K::Other),
        e("(1..2)", Some("expression"), None, K::Other),
        e("->{ qz }", Some("expression"), None, K::Other),
        e("(x && qz)", Some("expression"), ne, K::Nil),
        e("(qz || x)", Some("expression"), ne, K::Nil),
        e("\"a#{qz}\"", Some("expression"), ne, K::Nil),
    ]
}

fn has(k: K, m: &str) -> Option<bool> {
    Some(match m {
        "to_s" | "class" => true,
        "qnone" => false,
        "+" => match k {
            K::Int | K::Str | K::Arr => true,
            K::Nil | K::Mod => false,
            K::Other => return None,
        },
        "[]" => match k {
            K::Int | K::Str | K::Arr => true,
            K::Nil | K::Mod => false,
            K::Other => return None,
        },
        "-@" => match k {
            K::Int => true,
            K::Nil | K::Mod | K::Arr => false,
            _ => return None,
        },
        _ => return None,
    })
}

/// Calls, operators and containers over `x` and `y`; None when not asked.
fn compose(x: &E, y: &E) -> Vec<E> {
    let mut o = vec![];
    let paren = |s: &str| {
        if s.starts_with('-') || s.contains(' ') && !s.starts_with(['"', '[', '(']) || s.contains(" + ") || s.starts_with('(') && !s.ends_with(')') {
            format!("({s})")
        } else {
            s.to_string()
        }
    };
    let (xs, ys) = (paren(&x.src), paren(&y.src));
    // evaluation order: receiver, arguments, call
    let mut call = |src: String, m: &str, args: &[&E], ok_args: bool, ret: K| {
        let Some(h) = has(x.k, m) else { return };
        let mut d = x.d.is_some() && x.raises.is_none() && h;
        for a in args {
            d &= a.d.is_some();
        }
        let raises = x
            .raises
            .or(args.iter().find_map(|a| a.raises))
            .or((!h).then_some("NameError"));
        if raises.is_none() && !ok_args {
            // an argument of the wrong type: only ask what is defined
            o.push(E { src, d: d.then_some("method"), raises: Some("?"), k: ret });
            return;
        }
        o.push(E { src, d: d.then_some("method"), raises, k: ret });
    };
    call(format!("{xs}.to_s"), "to_s", &[], true, K::Str);
    call(format!("{xs}.qnone"), "qnone", &[], true, K::Nil);
    call(format!("{xs}.qnone({ys})"), "qnone", &[y], true, K::Nil);
    call(format!("{xs} + {ys}"), "+", &[y], x.k == y.k, x.k);
    call(format!("{xs}[{ys}]"), "[]", &[y], y.k == K::Int, if x.k == K::Int { K::Int } else { K::Other });
    call(format!("-({})", x.src), "-@", &[], true, K::Int);
    o.push(E {
        src: format!("[{}, {}]", x.src, y.src),
        d: (x.d.is_some() && y.d.is_some()).then_some("expression"),
        raises: x.raises.or(y.raises),
        k: K::Arr,
    });
    o
}

const PRELUDE: &str = r#"
class QErr < StandardError; end
QA = 3
QN = nil
$qg = 4
$log = []
module QM
  QB = 5
  module QI; QD = "d"; end
  def self.qf; "f"; end
end
class QBase
  def qsup; 1; end
  def initialize; @a = 2; @n = nil; end
  def qm; 7; end
  def qm1(a); a; end
  def qlog(n); $log << n; n; end
  def qr; raise QErr, "r"; end
end
def qm; 7; end
def qr; raise QErr, "r"; end
def qm1(a); a; end
def qlog(n); $log << n; n; end
def qcls(x)
  case x
  when NameError
    "NameError"
  else
    x.class.to_s
  end
end
"#;

/// Where the question is asked. `ZZ` is the number of the case.
const CTX: &[(&str, &str, &str)] = &[
    ("method of a class", "class QCZZ < QBase\ndef t\nx = 1\n", "\nend\nend\nputs QCZZ.new.t.inspect\n"),
    ("block in a method", "class QCZZ < QBase\ndef t\nx = 1\nr = nil\n[1].each do |i|\nr = (", "\n)\nend\nr\nend\nend\nputs QCZZ.new.t.inspect\n"),
    ("lambda", "class QCZZ < QBase\ndef t\nx = 1\n->{\n", "\n}.call\nend\nend\nputs QCZZ.new.t.inspect\n"),
    ("top level", "x = 1\n@a = 2\n@n = nil\n@z = @z\nputs((begin\n", "\nend).inspect)\n"),
    ("singleton method", "q = QBase.new\ndef q.t\nx = 1\n", "\nend\nputs q.t.inspect\n"),
];

fn ask(c: usize, body: &str, expect: String) -> Case {
    let (_, a, b) = CTX[c];
    Case::top(format!("{a}{body}{b}"), expect + "\n")
}

fn q(s: Option<&str>) -> String {
    match s {
        None => "nil".into(),
        Some(s) => format!("{s:?}"),
    }
}

fn query(c: usize, x: &E, out: &mut Vec<Case>) {
    let used = match x.raises {
        Some("?") => None,
        Some(s) => Some(format!("[{:?}]", s)),
        None => Some("1".into()),
    };
    let s = &x.src;
    if c == 3 && (s.contains("@z") || s.contains("self.q")) {
        return;
    }
    out.push(ask(c, &format!("defined?({s})"), q(x.d)));
    if let Some(u) = used {
        // the use itself, the question before and after it
        out.push(ask(
            c,
            &format!("(a = defined?({s})\nb = begin\n{s}\n1\nrescue => err\n[qcls(err)]\nend\n[a, b, defined?({s})])"),
            format!("[{}, {u}, {}]", q(x.d), q(x.d)),
        ));
    }
}

/// Questions do not change anything.
fn effects() -> Vec<(&'static str, &'static str, &'static str)> {
    vec![
        ("defined?(x = 9)", "assignment", "x"),
        ("defined?(x += 9)", "assignment", "x"),
        ("defined?(x ||= 9)", "assignment", "x"),
        ("defined?(x &&= 9)", "assignment", "x"),
        ("defined?(@a = 9)", "assignment", "@a"),
        ("defined?(@a += 9)", "assignment", "@a"),
        ("defined?(@a ||= 9)", "assignment", "@a"),
        ("defined?($qg = 9)", "assignment", "$qg"),
        ("defined?($qg += 9)", "assignment", "$qg"),
        ("defined? (x, w = 9, 8)", "assignment", "x"),
        ("defined? (@a, x = 9, 8)", "assignment", "[@a, x]"),
        ("defined?(@y1 = 9)", "assignment", "defined?(@y1)"),
        ("defined?(@y1 ||= 9)", "assignment", "[defined?(@y1), instance_variables.include?(:@y1)]"),
        ("defined?($qy1 = 9)", "assignment", "defined?($qy1)"),
        ("defined?(qlog(1))", "method", "$log"),
        ("defined?(self.qlog(1))", "method", "$log"),
        ("defined?(qm1(qlog(1)))", "method", "$log"),
        ("defined?([qlog(1)])", "expression", "$log"),
        ("defined?(1 + qlog(1))", "method", "$log"),
        ("defined?([1][qlog(0)])", "method", "$log"),
        ("defined?({1 => qlog(1)})", "expression", "$log"),
        ("defined?(\"a#{qlog(1)}\")", "expression", "$log"),
        ("defined?(x && qlog(1))", "expression", "$log"),
        ("defined?((qlog(1); 2))", "expression", "$log"),
        ("defined?(if x then qlog(1) end)", "expression", "$log"),
        ("defined?(->{ qlog(1) })", "expression", "$log"),
        ("defined?(->{ qlog(1) }.call)", "method", "$log"),
        ("defined?(begin; qlog(1); end)", "expression", "$log"),
        ("defined?(qlog(1) ? 1 : 2)", "expression", "$log"),
    ]
}

/// Histories of definitions, with all queries after every step.
struct H {
    /// the method is defined in: class, superclass, module; on the object
    cls: bool,
    sup: bool,
    modu: bool,
    single: bool,
    incl: bool,
    ext: bool,
}

const HQ: &str = r#"
def q29(o, c)
  u = begin
    o.mq
    true
  rescue NameError
    false
  end
  puts [u, o.respond_to?(:mq), !defined?(o.mq).nil?, o.methods.include?(:mq), c.method_defined?(:mq), c.instance_methods.include?(:mq), o.respond_to?("mq"), c.method_defined?("mq", false), (begin; o.method(:mq); true; rescue NameError; false; end), (begin; o.send(:mq); true; rescue NameError; false; end), (begin; c.new.mq; true; rescue NameError; false; end)].inspect
end
"#;

fn histories(depth: usize) -> Vec<Case> {
    let ev = [
        "class QHZZ; def mq; 1; end; end",
        "class QPZZ; def mq; 2; end; end",
        "module QNZZ; def mq; 3; end; end",
        "def o.mq; 4; end",
        "class QHZZ; include QNZZ; end",
        "o.extend(QNZZ)",
        "class QHZZ; def mq; 1; end; end; o.mq",
        "class QHZZ; attr_reader :mq; end",
        "class QHZZ; alias mq to_s; end",
    ];
    let mut out = vec![];
    let mut seq = vec![0usize; depth];
    loop {
        let mut h = H { cls: false, sup: false, modu: false, single: false, incl: false, ext: false };
        let mut code = String::from("class QPZZ; end\nclass QHZZ < QPZZ; end\nmodule QNZZ; end\no = QHZZ.new\nq29(o, QHZZ)\n");
        let mut exp = String::new();
        let ok = true;
        let line = |h: &H| {
            let c = (h.cls || h.sup || h.incl && h.modu);
            let o = c || h.single || h.ext && h.modu;
            let b = |x: bool| if x { "true" } else { "false" };
            let own = h.cls;
            format!("[{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}]\n", b(o), b(o), b(o), b(o), b(c), b(c), b(o), b(own), b(o), b(o), b(c))
        };
        exp += &line(&h);
        for s in &seq {
            match s {
                0 | 6 | 7 | 8 => {
                    h.cls = true;
                }
                1 => h.sup = true,
                2 => h.modu = true,
                3 => h.single = true,
                4 => h.incl = true,
                5 => h.ext = true,
                _ => unreachable!(),
            }
            code += ev[*s];
            code += "\nq29(o, QHZZ)\n";
            exp += &line(&h);
        }
        if ok {
            out.push(Case::top(code, exp));
        }
        let mut i = depth;
        loop {
            if i == 0 {
                return out;
            }
            i -= 1;
            seq[i] += 1;
            if seq[i] < ev.len() {
                break;
            }
            seq[i] = 0;
        }
    }
}

/// Constants: set in the scopes one after the other, all queries after every step.
fn constants(depth: usize) -> Vec<Case> {
    let ev = [
        "module QOZZ; class QI < QPZZ; KQ = 1; end; end",
        "module QOZZ; KQ = 2; end",
        "class QPZZ; KQ = 3; end",
        "module QNZZ; KQ = 4; end",
        "module QOZZ; class QI; include QNZZ; end; end",
    ];
    let mut out = vec![];
    fn perms(n: usize, d: usize, cur: &mut Vec<usize>, f: &mut impl FnMut(&[usize])) {
        f(cur);
        if cur.len() == d {
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                perms(n, d, cur, f);
                cur.pop();
            }
        }
    }
    perms(ev.len(), depth, &mut vec![], &mut |seq| {
        if seq.is_empty() {
            return;
        }
        let mut code = String::from(
            "class QPZZ; end\nmodule QNZZ; end\nmodule QOZZ\nclass QI < QPZZ\ndef u; [defined?(KQ), (begin; KQ; true; rescue NameError; false; end)].inspect; end\nend\nend\n",
        );
        let q = "puts QOZZ::QI.new.u + [defined?(QOZZ::QI::KQ), QOZZ::QI.const_defined?(:KQ), (begin; QOZZ::QI::KQ; true; rescue NameError; false; end), (begin; QOZZ::QI.const_get(:KQ); true; rescue NameError; false; end), defined?(QOZZ::KQ), QOZZ.const_defined?(:KQ), defined?(::QPZZ::KQ), defined?(KQ)].inspect\n";
        code += q;
        let mut st = [false; 5];
        let line = |st: &[bool; 5]| {
            let inh = st[0] || st[2] || st[3] && st[4];
            let lex = inh || st[1];
            let c = |b: bool| if b { "\"constant\"" } else { "nil" };
            format!("[{}, {lex}][{}, {inh}, {inh}, {inh}, {}, {}, {}, nil]\n", c(lex), c(inh), c(st[1]), st[1], c(st[2]))
        };
        let mut exp = line(&st);
        for s in seq {
            st[*s] = true;
            code += ev[*s];
            code += "\n";
            code += q;
            exp += &line(&st);
        }
        out.push(Case::top(code, exp));
    });
    out
}

/// Variables, blocks and super, in every context that has them.
fn others() -> Vec<Case> {
    let mut o = vec![];
    let mut c = |code: &str, exp: &str| o.push(Case::top(code, format!("{}\n", exp)));
    // yield, block_given? and what happens when the block is used
    let body = "[block_given?, defined?(yield), (begin; yield; true; rescue LocalJumpError; false; end)]";
    for (def, _) in [
        (format!("def t; {body}; end\n"), 0),
        (format!("def t; r = nil; [1].each {{ r = {body} }}; r; end\n"), 0),
        (format!("def t; r = nil; [1].each {{ [2].each {{ r = {body} }} }}; r; end\n"), 0),
        (format!("def t; ->{{ {body} }}.call; end\n"), 0),
        (format!("def t(&b); {body}; end\n"), 0),
        (format!("def t(&b); b = nil; {body}; end\n"), 0),
        (format!("def t(a = 1, *r, k: 2, &b); {body}; end\n"), 0),
        (format!("def t; i = 0; r = nil; while i < 1; r = {body}; i += 1; end; r; end\n"), 0),
        (format!("def t; begin; raise 'a'; rescue; {body}; end; end\n"), 0),
    ] {
        let cls = format!("class QYZZ\n{def}def u; t; end\ndef v; t {{ }}; end\ndef w(&b); t(&b); end\ndef self.s; end\nend\nq = QYZZ.new\n");
        let no = "[false, nil, false]";
        let yes = "[true, \"yield\", true]";
        for (call, e) in [
            ("q.t", no), ("q.t { }", yes), ("q.t { |x| x }", yes), ("q.t(&nil)", no), ("q.t(&->{ })", yes), ("q.t(&proc { })", yes),
            ("q.u", no), ("q.u { }", no), ("q.v", yes), ("q.w", no), ("q.w { }", yes), ("q.send(:t)", no), ("q.send(:t) { }", yes),
            ("q.method(:t).call", no), ("[1].map { q.t }[0]", no), ("[1].map { q.t { } }[0]", yes), ("(q.t { }; q.t)", no),
        ] {
            c(&format!("{cls}puts(({call}).inspect)"), e);
        }
    }
    // super
    let sb = "[defined?(super), defined?(super()), defined?(super(1)), (begin; super(); true; rescue NameError; false; end)]";
    let yes = "[\"super\", \"super\", \"super\", true]";
    let no = "[nil, nil, nil, false]";
    for (pre, e) in [
        ("class QPZZ; def t; end; end\nclass QSZZ < QPZZ; def t; BODY; end; end\n", yes),
        ("class QPZZ; end\nclass QSZZ < QPZZ; def t; BODY; end; end\n", no),
        ("class QPZZ; end\nclass QSZZ < QPZZ; def t; BODY; end; end\nclass QPZZ; def t; end; end\n", yes),
        ("module QMZZ; def t; end; end\nclass QSZZ; include QMZZ; def t; BODY; end; end\n", yes),
        ("module QMZZ; end\nclass QSZZ; include QMZZ; def t; BODY; end; end\n", no),
        ("module QMZZ; def t; BODY; end; end\nclass QPZZ; def t; end; end\nclass QSZZ < QPZZ; include QMZZ; end\n", yes),
        ("module QMZZ; def t; BODY; end; end\nclass QPZZ; end\nclass QSZZ < QPZZ; include QMZZ; end\n", no),
        ("class QPZZ; def t; end; end\nclass QSZZ < QPZZ; def t; ->{ BODY }.call; end; end\n", yes),
        ("class QPZZ; end\nclass QSZZ < QPZZ; def t; ->{ BODY }.call; end; end\n", no),
        ("class QPZZ; def t; end; end\nclass QSZZ < QPZZ; def t; [1].map { BODY }[0]; end; end\n", yes),
        ("class QSZZ; def to_s; [defined?(super), 1]; end; def t; to_s; end; end\n", "[\"super\", 1]"),
    ] {
        c(&format!("{}puts QSZZ.new.t.inspect", pre.replace("BODY", sb)), e);
    }
    // class variables
    for (pre, e) in [
        ("class QPZZ; @@c = 1; def t; BODY; end; def self.s; BODY; end; end\nclass QSZZ < QPZZ; end\n", true),
        ("class QPZZ; @@c = nil; def t; BODY; end; def self.s; BODY; end; end\nclass QSZZ < QPZZ; end\n", true),
        ("class QPZZ; @@c = 1; end\nclass QSZZ < QPZZ; def t; BODY; end; def self.s; BODY; end; end\n", true),
        ("class QPZZ; end\nclass QSZZ < QPZZ; def t; BODY; end; def self.s; BODY; end; end\n", false),
        ("class QPZZ; end\nclass QSZZ < QPZZ; def t; BODY; end; def self.s; BODY; end; end\nclass QPZZ; @@c = 1; end\n", true),
        ("class QPZZ; end\nclass QSZZ < QPZZ; @@c = 1; end\nclass QPZZ; def t; BODY; end; def self.s; BODY; end; end\n", false),
        ("module QPZZ; @@c = 1; end\nclass QSZZ; include QPZZ; def t; BODY; end; def self.s; BODY; end; end\n", true),
        ("class QPZZ; end\nclass QSZZ; def t; [1].map { BODY }[0]; end; def self.s; [1].map { BODY }[0]; end; end\n", false),
    ] {
        let b = "[defined?(@@c), defined?(@@c.to_s), defined?([@@c]), (begin; @@c; true; rescue NameError; false; end)]";
        let e = if e { "[\"class variable\", \"method\", \"expression\", true]" } else { "[nil, nil, nil, false]" };
        for call in ["QSZZ.new.t", "QSZZ.s"] {
            c(&format!("{}puts {call}.inspect", pre.replace("BODY", b)), e);
        }
    }
    // instance variables of objects of one class, in every order
    for order in 0..64u32 {
        let mut code = String::from("class QVZZ\ndef g(i); case i\nwhen 0\n @a = nil\nwhen 1\n @b = 1\nelse\n @c = 2\nend; end\ndef t; [defined?(@a), defined?(@b), defined?(@c), instance_variables.sort, @a, @b, @c].inspect; end\nend\nx = QVZZ.new\ny = QVZZ.new\n");
        let mut st = [[false; 3]; 2];
        let line = |s: &[bool; 3]| {
            let d = |b: bool| if b { "\"instance-variable\"" } else { "nil" };
            let l: Vec<_> = [":@a", ":@b", ":@c"].iter().zip(s).filter(|x| *x.1).map(|x| *x.0).collect();
            format!("[{}, {}, {}, [{}], nil, {}, {}]\n", d(s[0]), d(s[1]), d(s[2]), l.join(", "), if s[1] { "1" } else { "nil" }, if s[2] { "2" } else { "nil" })
        };
        let mut exp = String::new();
        let mut o = order;
        for _ in 0..3 {
            let w = (o % 4) as usize;
            o /= 4;
            if w < 3 {
                code += &format!("x.g({w})\n");
                st[0][w] = true;
            } else {
                code += "y.instance_variable_set(:@b, 1)\n";
                st[1][1] = true;
            }
            code += "puts x.t\nputs y.t\n";
            exp += &line(&st[0]);
            exp += &line(&st[1]);
        }
        c(&code, exp.trim_end());
    }
    // local variables: assigned on one path, in blocks, parameters
    for (code, e) in [
        ("def t(f); x = 1 if f; b = binding; [x, b.local_variables.include?(:x), b.local_variable_defined?(:x)]; end\nputs [t(true), t(false)].inspect", "[[1, true, true], [nil, true, true]]"),
        ("def t; [1].each { |i| w = i }; defined?(w); end\nputs t.inspect", "nil"),
        ("def t; w = 0; [1].each { |i| return [defined?(w), defined?(i)] }; end\nputs t.inspect", "[\"local-variable\", \"local-variable\"]"),
        ("def t(a, b = 2, *c, d: 4, **e, &f); [defined?(a), defined?(b), defined?(c), defined?(d), defined?(e), defined?(f)]; end\nputs t(1).uniq.inspect", "[\"local-variable\"]"),
        ("def t; [1].each { |w| w }; begin; w; rescue NameError; 5; end; end\nputs t.inspect", "5"),
        ("def t; defined?(w = 1); w; end\nputs t.inspect", "nil"),
        ("w = 1\ndef t; defined?(w); end\nputs t.inspect", "nil"),
        ("def w; 8; end\ndef t; a = defined?(w); w = 1; [a, defined?(w), defined?(w())]; end\nputs t.inspect", "[\"method\", \"local-variable\", \"method\"]"),
        ("x = nil\nputs defined?(x).inspect", "\"local-variable\""),
        ("def t; x = 1; eval(\"[defined?(x), defined?(y)]\"); end\nputs t.inspect", "[\"local-variable\", nil]"),
        ("def t; eval(\"zz = 1\"); eval(\"defined?(zz)\"); end\nputs t.inspect", "nil"),
    ] {
        c(code, e);
    }
    o
}

pub fn run(ctx: &mut Ctx) {
    let at = atoms();
    ctx.section("every kind of expression, existing or not, in every context");
    let mut cs = vec![];
    for c in 0..CTX.len() {
        for x in &at {
            query(c, x, &mut cs);
        }
    }
    Runner::new(ctx).prelude(PRELUDE).batch(50).run(cs.into_iter());

    ctx.section("calls, operators and containers over all of them");
    let mut cs = vec![];
    for c in 0..CTX.len() {
        for x in &at {
            for (i, y) in at.iter().enumerate() {
                if !ctx.thorough && c > 0 && i % 4 != 0 {
                    continue;
                }
                for z in compose(x, y) {
                    if z.src.contains(&y.src) || i == 0 {
                        query(c, &z, &mut cs);
                    }
                }
            }
        }
    }
    if ctx.thorough {
        // two levels
        let some: Vec<&E> = at.iter().step_by(3).collect();
        for x in &some {
            for y in &some {
                for z in compose(x, y) {
                    if z.raises == Some("?") {
                        continue;
                    }
                    for w in &some {
                        for v in compose(&z, w).into_iter().chain(compose(w, &z)) {
                            query(0, &v, &mut cs);
                        }
                    }
                }
            }
        }
    }
    Runner::new(ctx).prelude(PRELUDE).batch(100).run(cs.into_iter());

    ctx.section("the question leaves everything as it was");
    let mut cs = vec![];
    for c in 0..CTX.len() {
        for (ask_, d, after) in effects() {
            let exp = match after {
                "x" => "1",
                "@a" => "2",
                "$qg" => "4",
                "[@a, x]" => "[2, 1]",
                "$log" => "[]",
                "[defined?(@y1), instance_variables.include?(:@y1)]" => "[nil, false]",
                _ => "nil",
            };
            cs.push(ask(c, &format!("($log = []\nd = {ask_}\n[d, {after}])"), format!("[\"{d}\", {exp}]")));
        }
    }
    Runner::new(ctx).prelude(PRELUDE).batch(30).run(cs.into_iter());

    ctx.section("histories of method definitions with all queries after every step");
    let d = if ctx.thorough { 4 } else { 3 };
    ctx.bound("definitions in a row", d);
    Runner::new(ctx).prelude(HQ).batch(100).run(histories(d).into_iter());

    ctx.section("histories of constant definitions with all queries after every step");
    Runner::new(ctx).batch(50).run(constants(5).into_iter());

    ctx.section("blocks, super, class variables, instance variables and local variables");
    Runner::new(ctx).batch(50).run(others().into_iter());
}
