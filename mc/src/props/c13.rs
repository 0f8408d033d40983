//! C13: an operator means the same in every syntactic position and however it is compiled.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use num::bigint::BigInt;
use num::{Integer, Signed, ToPrimitive, Zero};

const PRELUDE: &str = r#"
$log = []
class U
  def initialize(n); @n = n; end
  def inspect; "U#{@n}"; end
OPS
  def [](i); $log << [:idx, @n, i.inspect]; @i || [:idx, i.inspect]; end
  def []=(i, v); $log << [:set, @n, i.inspect, v.inspect]; @i = [:set, i.inspect, v.inspect]; :unused; end
end
class CC
  include Comparable
  attr_reader :n
  def initialize(n); @n = n; end
  def inspect; "CC#{@n}"; end
  def <=>(o); $log << [:cmp, @n]; o.is_a?(CC) ? @n <=> o.n : nil; end
end
class EQ
  def initialize(n); @n = n; end
  def inspect; "EQ#{@n}"; end
  def ==(o); $log << [:eq, @n]; o.is_a?(EQ) || o == 1; end
end
class W
  def inspect; "W"; end
end
class SA < Array
  def inspect; "SA"; end
OPS2
end
class SH < Hash
  def inspect; "SH"; end
OPS2
end
class SS < String
  def inspect; "SS"; end
OPS2
end
def sing(o)
  def o.inspect; "sing"; end
SOPS
  o
end
def id(x) x end
def obs
  $log = []
  v = begin
    r = yield
    r.inspect + ":" + r.class.to_s
  rescue StandardError => e
    "!" + e.class.to_s
  end
  v + $log.inspect
end
def tobs
  $log = []
  v = begin
    (yield) ? "t" : "f"
  rescue StandardError => e
    "!" + e.class.to_s
  end
  v + $log.inspect
end
"#;

const BIN: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "<=>", "==", "!=", "==="];

fn prelude() -> String {
    let mut ops = String::new();
    let mut ops2 = String::new();
    let mut sops = String::new();
    for o in BIN {
        // not definable here
        if ["!=", "===", "**", "^"].contains(o) {
            continue;
        }
        ops.push_str(&format!("  def {o}(o); $log << [:'{o}', @n, o.inspect]; [:r, '{o}', o.inspect]; end\n"));
    }
    for o in ["+", "-", "*", "<<", "&", "|", "%", "<", "<=>", "[]"] {
        ops2.push_str(&format!("  def {o}(o); $log << '{o}'; [:r, '{o}', o.inspect]; end\n"));
        sops.push_str(&format!("  def o.{o}(o); $log << '{o}'; [:r, '{o}', o.inspect]; end\n"));
    }
    ops2.push_str("  def []=(i, v); $log << [:set, i.inspect, v.inspect]; end\n");
    sops.push_str("  def o.[]=(i, v); $log << [:set, i.inspect, v.inspect]; end\n");
    PRELUDE.replace("SOPS", &sops).replace("OPS2", &ops2).replace("OPS", &ops)
}

#[derive(Clone)]
struct X {
    src: String,
    v: Option<V>,
    lit: bool,
}

fn values(t: bool) -> Vec<X> {
    let mut r = vec![];
    let two = |k: u32| BigInt::from(2).pow(k);
    let mut is: Vec<BigInt> = [0, 1, 2, -3].iter().map(|i| BigInt::from(*i)).collect();
    is.extend([two(31) - 1, two(31), -two(31), two(62) - 1, two(62), -two(62), two(64)]);
    if t {
        is.extend([(-1).into(), 7.into(), 3.into(), (-7).into(), 63.into(), 64.into(), two(31) + 1, -two(31) - 1, two(61), -two(62) - 1, two(63) - 1, two(63), -two(63), two(53) + 1]);
    }
    for i in is {
        r.push(X { src: i.to_string(), v: Some(V::Int(i)), lit: true });
    }
    let mut fs = vec![0.0, 0.5, -2.0, 1.5e300];
    if t {
        fs.extend([7.0, -0.5, 3.25, 1e-300, 4611686018427387904.0, -1e19, 1.0]);
    }
    for f in fs {
        r.push(X { src: format!("{:?}", f), v: Some(V::Float(f)), lit: true });
    }
    let quick = ["false", "[1, 2]", "EQ.new(2)", "U.new(2)", "CC.new(1)", "{}", "sing({})", "\"\""];
    for s in [
        "\"a\"", "\"\"", ":a", "nil", "true", "false", "[]", "[1]", "[1, 2]", "[[1], 'a']", "{}", "{1 => 2}", "(1..2)", "Integer", "Comparable", "U.new(1)", "U.new(2)", "CC.new(1)", "CC.new(2)", "EQ.new(1)",
        "EQ.new(2)", "W.new", "SA.new", "SH.new", "SS.new('a')", "sing([1])", "sing('a')", "sing({})", "sing(Object.new)",
    ] {
        if !t && quick.contains(&s) {
            continue;
        }
        r.push(X { src: s.into(), v: None, lit: !s.contains('.') && !s.contains("sing") });
    }
    r
}

/// The prescribed value of a numeric operation; None: not modelled, Err: raises
fn model(op: &str, a: &V, b: &V) -> Option<Result<V, &'static str>> {
    let real = |v: &V| matches!(v, V::Int(_) | V::Float(_));
    if !real(a) || !real(b) {
        return None;
    }
    if let (V::Int(x), V::Int(y)) = (a, b) {
        let v = match op {
            "+" => V::Int(x + y),
            "-" => V::Int(x - y),
            "*" => V::Int(x * y),
            "/" | "%" if y.is_zero() => return Some(Err("ZeroDivisionError")),
            "/" => V::Int(x.div_floor(y)),
            "%" => V::Int(x.mod_floor(y)),
            "**" if !y.is_negative() => V::Int(x.pow(y.to_u32()?)),
            "<<" | ">>" => {
                let n = y.to_i64()? * if op == "<<" { 1 } else { -1 };
                V::Int(if n >= 0 { x << n as usize } else { x >> (-n) as usize })
            }
            "&" => V::Int(x & y),
            "|" => V::Int(x | y),
            "^" => V::Int(x ^ y),
            "<=>" => ord_v(Some(x.cmp(y))),
            "==" | "===" => boolean(x == y),
            "!=" => boolean(x != y),
            "<" => boolean(x < y),
            "<=" => boolean(x <= y),
            ">" => boolean(x > y),
            ">=" => boolean(x >= y),
            _ => return None,
        };
        return Some(Ok(v));
    }
    if ["<=>", "==", "===", "!=", "<", "<=", ">", ">="].contains(&op) {
        // a bignum against a float is compared after conversion
        let big = |v: &V| matches!(v, V::Int(i) if i.to_i64().map_or(true, |i| i.abs() > 1 << 53));
        if big(a) || big(b) {
            return None;
        }
        let o = a.f().partial_cmp(&b.f())?;
        return Some(Ok(match op {
            "<=>" => ord_v(Some(o)),
            "==" | "===" => boolean(o.is_eq()),
            "!=" => boolean(o.is_ne()),
            "<" => boolean(o.is_lt()),
            "<=" => boolean(o.is_le()),
            ">" => boolean(o.is_gt()),
            _ => boolean(o.is_ge()),
        }));
    }
    let f = |v: &V| match v {
        V::Int(i) => i.to_f64(),
        V::Float(f) => Some(*f),
        _ => None,
    };
    let (x, y) = (f(a)?, f(b)?);
    let r = match op {
        "+" => x + y,
        "-" => x - y,
        "*" => x * y,
        "/" => x / y,
        "%" => {
            let m = x % y;
            if m != 0.0 && (m < 0.0) != (y < 0.0) {
                m + y
            } else {
                m
            }
        }
        "**" if x >= 0.0 => x.powf(y),
        _ => return None,
    };
    if !r.is_finite() || r == 0.0 || r.abs() >= 1e16 || r.abs() < 1e-3 {
        return None;
    }
    Some(Ok(V::Float(r)))
}

/// value forms; X, Y: operands as variables; LX, LY: written out
const VAL: &[&str] = &[
    "X OP Y", "X OP LY", "LX OP Y", "LX OP LY", "(X) OP (Y)", "X.send(:OP, Y)", "[1].map { X OP Y }[0]", "[1].map { |q| X OP LY }[0]", "id(X OP LY)", "[X OP Y, 1][0]", "return X OP LY", "(true && (X OP Y))", "(false || (X OP LY))",
    "w = X OP Y\nw", "begin; X OP LY; end", "id(X) OP id(Y)", "->(z) { z OP Y }.call(X)",
];
const ASG: &[&str] = &[
    "z = X; z OP= Y; z", "z = X; z OP= LY", "z = [X]; z[0] OP= Y; z[0]", "z = {a: X}; z[:a] OP= LY; z[:a]", "@z = X; @z OP= LY; @z", "$z = X; $z OP= Y", "z = X; [1].each { z OP= LY }; z", "z = [X, 9]; i = -2; z[i] OP= LY",
];
const EFF: &[&str] = &["X OP Y; X", "X OP LY; X", "z = X\nz OP LY\nz", "[1].each { X OP LY }; X", "X.send(:OP, Y); X"];
/// truth forms: return :t or :f
const CND: &[&str] = &[
    "if X OP Y then :t else :f end", "if X OP LY then :t else :f end", "unless X OP Y then :f else :t end", "unless X OP LY then :f else :t end", "X OP Y ? :t : :f", "X OP LY ? :t : :f", "r = :f; while X OP Y; r = :t; break; end; r",
    "r = :f; while X OP LY; r = :t; break; end; r", "r = :t; until X OP LY; r = :f; break; end; r", "!(X OP Y) ? :f : :t", "if !(X OP LY) then :f else :t end", "X OP LY && :t || :f", "(:t if X OP LY) || :f",
    "(:f unless X OP Y) || :t", "if X OP LY and true then :t else :f end", "if false || X OP LY then :t else :f end", "r = :f; (r = :t; break) while X OP LY; r", "LX OP LY ? :t : :f", "if LX OP Y then :t else :f end", "if (X OP LY) then :t else :f end",
    "[1].map { if X OP LY then :t else :f end }[0]", "if true && (X OP Y) then :t else :f end", "if nil then 1 elsif X OP LY then :t else :f end", "r = :f; begin; r = :t; break; end until !(X OP LY); r == :t ? (X OP Y ? :t : :f) : :f",
];

fn fill(f: &str, op: &str, x: &str, y: &str) -> String {
    let x = if x.starts_with('-') { format!("({x})") } else { x.to_string() };
    f.replace("LX", "\u{1}").replace("LY", "\u{2}").replace("OP", op).replace('X', "x").replace('Y', "y").replace('\u{1}', &x).replace('\u{2}', y)
}

fn case(op: &str, a: &X, b: &X) -> Case {
    let mut code = String::new();
    let (lx, ly) = (&a.src, &b.src);
    let call = |f: &str| format!("{f}({lx}, {ly})");
    // Float#== and Float#!= called as methods raise for other kinds of objects, which a test pins
    let by_method = !(matches!(&a.v, Some(V::Float(_))) && b.v.is_none() && (op == "==" || op == "!="));
    let gen = if by_method { format!("x.{op}(y)") } else { format!("x {op} y") };
    code.push_str(&format!("m = []\ndef cZZ(x, y) {gen} end\nref = obs {{ {} }}\n", call("cZZ")));
    let cmp = ["<", "<=", ">", ">=", "<=>", "==", "!=", "==="].contains(&op);
    let mut n = 0;
    let mut add = |code: &mut String, body: String, refname: &str, ob: &str| {
        n += 1;
        code.push_str(&format!("def fZZ_{n}(x, y)\n{body}\nend\ng = {ob} {{ {} }}\nm << [{:?}, g] if g != {refname}\n", call(&format!("fZZ_{n}")), body));
    };
    for f in VAL {
        if f.contains("LX OP LY") && !(a.lit && b.lit) {
            continue;
        }
        if !by_method && f.contains("send") {
            continue;
        }
        add(&mut code, fill(f, op, lx, ly), "ref", "obs");
    }
    if !cmp && op != "**" {
        for f in ASG {
            add(&mut code, fill(f, op, lx, ly), "ref", "obs");
        }
    }
    if !cmp {
        code.push_str(&format!("def eZZ(x, y) x.{op}(y); x end\neff = obs {{ {} }}\n", call("eZZ")));
        for f in EFF {
            add(&mut code, fill(f, op, lx, ly), "eff", "obs");
        }
    }
    code.push_str(&format!("tr = tobs {{ {} }}\n", call("cZZ")));
    for f in CND {
        // a truthy accumulator would loop or be evaluated twice
        if f.contains("until !(") {
            continue;
        }
        add(&mut code, format!("v = ({})\nv == :t", fill(f, op, lx, ly)), "tr", "tobs");
    }
    let expect = match (&a.v, &b.v) {
        (Some(x), Some(y)) => match model(op, x, y) {
            Some(Ok(v)) => Some(format!("{}:{}[]", v.inspect(), cls(&v))),
            Some(Err(e)) => Some(format!("!{e}[]")),
            None => None,
        },
        _ => None,
    };
    code.push_str(if expect.is_some() { "print ref, m.inspect" } else { "print m.inspect" });
    Case::top(code, format!("{}[]", expect.unwrap_or_default())).key(format!("{lx} {op} {ly}"))
}
fn cls(v: &V) -> &'static str {
    v.class()
}

fn skip(op: &str, a: &X, b: &X) -> bool {
    let big = |x: &X| matches!(&x.v, Some(V::Int(i)) if i.abs() > BigInt::from(70));
    match op {
        "**" => big(b) || matches!(&a.v, Some(V::Int(_))) && matches!(&b.v, Some(V::Int(i)) if i.is_negative()),
        "<<" | ">>" => big(b) && a.v.is_some(),
        "*" => a.v.is_none() && big(b),
        _ => false,
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let vs = values(t);
    ctx.bound("operand values", vs.iter().map(|x| x.src.clone()).collect::<Vec<_>>().join(", "));
    ctx.bound("operators", BIN.join(" "));
    ctx.bound("positions", VAL.len() + ASG.len() + EFF.len() + CND.len());
    ctx.section("every binary operator, every pair of operands, every position");
    let pre = prelude();
    {
        let vs = &vs;
        ctx.states += (vs.len() * vs.len() * BIN.len()) as u64;
        ctx.transitions += (vs.len() * vs.len() * BIN.len() * (VAL.len() + CND.len())) as u64;
        Runner::new(ctx).prelude(&pre).batch(20).run(BIN.iter().flat_map(move |op| vs.iter().flat_map(move |a| vs.iter().filter(move |b| !skip(op, a, b)).map(move |b| case(op, a, b)))));
    }
    ctx.section("every unary operator");
    {
        let vs = &vs;
        Runner::new(ctx).prelude(&pre).batch(20).run(["-", "~", "!"].iter().flat_map(move |op| {
            vs.iter().map(move |a| {
                let l = &a.src;
                let m = if *op == "!" { "x ? false : true".to_string() } else if *op == "~" { "x.send(:~)".to_string() } else { format!("x.send(:{op}@)") };
                let mut code = format!("m = []\ndef cZZ(x) {m} end\nref = obs {{ cZZ({l}) }}\ntr = tobs {{ cZZ({l}) }}\n");
                let mut n = 0;
                for f in ["OPx", "OP(x)", "OP x", "[1].map { OPx }[0]", "id(OPx)", "return OPx", "w = OPx\nw", "[OPx][0]", "OP(L)", "(OP x)"] {
                    n += 1;
                    let b = f.replace("OP", op).replace('L', l);
                    code.push_str(&format!("def fZZ_{n}(x)\n{b}\nend\ng = obs {{ fZZ_{n}({l}) }}\nm << [{b:?}, g] if g != ref\n"));
                }
                for f in ["if OPx then :t else :f end", "unless OPx then :f else :t end", "OPx ? :t : :f", "r = :f; while OPx; r = :t; break; end; r", "r = :t; until OPx; r = :f; break; end; r", "OPx && :t || :f", "(:t if OPx) || :f", "!(OPx) ? :f : :t"] {
                    n += 1;
                    let b = f.replace("OP", op);
                    code.push_str(&format!("def fZZ_{n}(x)\nv = ({b})\nv == :t\nend\ng = tobs {{ fZZ_{n}({l}) }}\nm << [{b:?}, g] if g != tr\n"));
                }
                let expect = match (&a.v, *op) {
                    (Some(V::Int(i)), "-") => Some(V::Int(-i)),
                    (Some(V::Int(i)), "~") => Some(V::Int(-i - 1)),
                    (Some(V::Float(f)), "-") if *f != 0.0 && f.abs() < 1e15 => Some(V::Float(-f)),
                    (_, "!") if !l.contains("::") => Some(boolean(l == "nil" || l == "false")),
                    _ => None,
                };
                code.push_str(if expect.is_some() { "print ref, m.inspect" } else { "print m.inspect" });
                let e = expect.map_or(String::new(), |v| format!("{}:{}[]", v.inspect(), cls(&v)));
                Case::top(code, format!("{e}[]")).key(format!("{op} {l}"))
            })
        }));
    }
    ctx.section("every subscript read and write");
    {
        let recv = ["[]", "[1, 2, 3]", "[[1], nil, 7]", "{}", "{1 => 2}", "{-1 => 3, nil => 4, 'a' => 5, 1 => nil}", "'abc'", "'é'", "5", "-6", "2**70", "nil", "W.new", "U.new(1)", "SA.new", "SH.new", "SS.new('abc')", "sing([1])", "sing({1 => 2})", "sing(Object.new)", "->(x) { [x] }", "[1].method(:push)", "Array", "Hash.new { |h, k| k }"];
        let idx = ["0", "1", "-1", "3", "63", "64", "100", "nil", "'a'", ":a", "1..2", "2**70", "U.new(1)", "0.5", "[1]"];
        Runner::new(ctx).prelude(&pre).batch(20).run(recv.iter().flat_map(move |r| {
            let idx = idx;
            idx.into_iter().map(move |i| {
                let mut code = format!("m = []\ndef cZZ(x, y) x.[](y) end\nref = obs {{ cZZ({r}, {i}) }}\ntr = tobs {{ cZZ({r}, {i}) }}\n");
                let mut n = 0;
                for (f, rf, ob) in [
                    ("x[y]", "ref", "obs"), ("x[LY]", "ref", "obs"), ("(LX)[LY]", "ref", "obs"), ("x.send(:[], y)", "ref", "obs"), ("[1].map { x[LY] }[0]", "ref", "obs"), ("id(x[LY])", "ref", "obs"), ("return x[y]", "ref", "obs"),
                    ("@x = x; @x[LY]", "ref", "obs"), ("x[*[y]]", "ref", "obs"), ("id(x)[LY]", "ref", "obs"), ("v = x[LY]\nv", "ref", "obs"),
                    ("x[LY] ? true : false", "tr", "tobs"), ("if x[y] then true else false end", "tr", "tobs"), ("!x[LY] ? false : true", "tr", "tobs"), ("r = false; while x[LY]; r = true; break; end; r", "tr", "tobs"), ("unless x[LY] then false else true end", "tr", "tobs"), ("(x[LY] && true) || false", "tr", "tobs"),
                    ("x.[]=(y, 9); x", "set", "obs"), ("x[y] = 9; x", "set", "obs"), ("x[LY] = 9; x", "set", "obs"), ("x.send(:[]=, y, 9); x", "set", "obs"), ("[1].each { x[LY] = 9 }; x", "set", "obs"), ("@x = x; @x[LY] = 9; x", "set", "obs"), ("x[y], w = 9, 8; x", "set", "obs"), ("w, x[LY] = 8, 9; x", "set", "obs"), ("x[*[y]] = 9; x", "set", "obs"),
                    ("v = (x[LY] = 9); raise 'v' if v != 9; x", "set", "obs"), ("for x[LY] in [9]; end; x", "", ""),
                ] {
                    if rf.is_empty() {
                        continue;
                    }
                    if f.starts_with("x.[]=(y") {
                        code.push_str(&format!("def sZZ(x, y) {f} end\nset = obs {{ sZZ({r}, {i}) }}\n"));
                        continue;
                    }
                    n += 1;
                    let b = f.replace("LY", &i).replace("LX", r);
                    code.push_str(&format!("def fZZ_{n}(x, y)\n{b}\nend\ng = {ob} {{ fZZ_{n}({r}, {i}) }}\nm << [{b:?}, g] if g != {rf}\n"));
                }
                code.push_str("print m.inspect");
                Case::top(code, "[]").key(format!("{r} [{i}]"))
            })
        }));
    }
}
