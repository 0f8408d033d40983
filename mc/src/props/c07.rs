//! C07: closures share variables with their scope for as long as they live.
//! All sequences, to a depth, of operations which capture, write and call; each closure is called again after the
//! defining method has returned and again after a second activation.
use crate::case::{Case, Runner};
use crate::report::Ctx;

#[derive(Clone, Debug)]
enum Clo {
    Add10(usize),                // proc { x += 10 }
    Dbl(usize, usize),           // lambda { |v = 3| y = x; x = y * 2 + v }   (own y)
    Bind(usize, Option<i64>, usize), // binding: x, its own variable nw, id
    Keep(usize),                 // block kept by another method: x += 100
    Nest(usize),                 // proc { proc { x += 5 } }
    In1(usize),                  // proc in a block: x += 20
    W(usize, usize),             // w += x; w
    Z(usize, usize),             // z += 1; x += z
    Q(usize),                    // q += 1
    Ev(usize),                   // eval "proc { x += 4 }"
    Met(usize),                  // proc { |&b| b.call(x) }
}

#[derive(Clone)]
struct M {
    cells: Vec<i64>,
    x: usize,
    w: Option<usize>,
    q: Option<usize>,
    a: Vec<Clo>,
    t: Vec<String>,
}

impl M {
    fn cell(&mut self, v: i64) -> usize {
        self.cells.push(v);
        self.cells.len() - 1
    }
    fn call(&mut self, i: usize) -> i64 {
        let c = self.a[i].clone();
        let m = &mut self.cells;
        // keep the numbers small
        let r = match c {
            Clo::Add10(x) => { m[x] += 10; m[x] }
            Clo::Dbl(x, _) => { m[x] = (m[x] * 2 + 3) % 100003; m[x] }
            Clo::Bind(x, nw, _) => {
                let v = nw.unwrap_or(0) + m[x] + 7;
                m[x] += 7;
                if let Clo::Bind(_, n, _) = &mut self.a[i] {
                    *n = Some(v);
                }
                v
            }
            Clo::Keep(x) => { m[x] += 100; m[x] }
            Clo::Nest(x) => { m[x] += 5; m[x] }
            Clo::In1(x) => { m[x] += 20; m[x] }
            Clo::W(w, x) => { m[w] += m[x]; m[w] }
            Clo::Z(z, x) => { m[z] += 1; m[x] += m[z]; m[x] }
            Clo::Q(q) => { m[q] += 1; m[q] }
            Clo::Ev(x) => { m[x] += 4; m[x] }
            Clo::Met(x) => m[x] * 3,
        };
        r
    }
}

const OPS: usize = 15;
const CODE: [&str; OPS] = [
    "x += 1",
    "a << proc { x += 10 }",
    "a << lambda { |v = 3| y = x; x = (y * 2 + v) % 100003 }",
    "a << binding",
    "a << keep { x += 100 }",
    "yi { x += 1000 }",
    "a << proc { proc { x += 5 } }.call",
    "[7].each { |x| x += 1 }",
    "eval(\"x += 3\")",
    "1.times { x += 2; a << proc { x += 20 } }",
    "w = x; a << proc { w += x; w }",
    "2.times { |i| z = i; a << proc { z += 1; x += z } }",
    "j = 0; while j < 2; q = j; a << proc { q += 1 }; j += 1; end",
    "a << eval(\"proc { x += 4 }\")",
    "a << proc { met(x) { |b| b * 3 } }",
];

/// op < OPS: CODE[op]; otherwise the closure with the index op - OPS is called
fn step(m: &mut M, op: usize) -> bool {
    if op >= OPS {
        let i = op - OPS;
        if i >= m.a.len() {
            return false;
        }
        let r = m.call(i);
        m.t.push(r.to_string());
        let x = m.cells[m.x];
        m.t.push(x.to_string());
        return true;
    }
    let x = m.x;
    match op {
        0 => m.cells[x] += 1,
        1 => m.a.push(Clo::Add10(x)),
        2 => {
            m.a.push(Clo::Dbl(x, 0))
        }
        3 => {
            let n = m.a.len();
            m.a.push(Clo::Bind(x, None, n))
        }
        4 => m.a.push(Clo::Keep(x)),
        5 => m.cells[x] += 1000,
        6 => m.a.push(Clo::Nest(x)),
        7 => {}
        8 => m.cells[x] += 3,
        9 => {
            m.cells[x] += 2;
            m.a.push(Clo::In1(x))
        }
        10 => {
            let v = m.cells[x];
            let w = match m.w {
                Some(w) => {
                    m.cells[w] = v;
                    w
                }
                None => {
                    let w = m.cell(v);
                    m.w = Some(w);
                    w
                }
            };
            m.a.push(Clo::W(w, x))
        }
        11 => {
            for i in 0..2 {
                let z = m.cell(i);
                m.a.push(Clo::Z(z, x));
            }
        }
        12 => {
            for i in 0..2 {
                let q = match m.q {
                    Some(q) => {
                        m.cells[q] = i;
                        q
                    }
                    None => {
                        let q = m.cell(i);
                        m.q = Some(q);
                        q
                    }
                };
                m.a.push(Clo::Q(q));
            }
        }
        13 => m.a.push(Clo::Ev(x)),
        14 => m.a.push(Clo::Met(x)),
        _ => unreachable!(),
    }
    let v = m.cells[x];
    m.t.push(v.to_string());
    true
}

const PRELUDE: &str = r#"
def keep(&b); b; end
def yi; yield; end
def met(v, &b); b.call(v); end
def cc(f)
  if f.is_a?(Proc)
    f.call
  else
    eval("x += 7; nw = (nw || 0) + x", f)
  end
end
"#;

/// Where the operations run.
const CONTEXTS: [(&str, &str, &str); 7] = [
    ("method", "", ""),
    ("block", "1.times do\n", "\nend"),
    ("nested blocks", "yi do\n[0].each do |_e|\n", "\nend\nend"),
    ("lambda", "lambda do\n", "\nend.call"),
    ("while", "g = 0\nwhile g < 1\n g += 1\n", "\nend"),
    ("begin", "begin\n", "\nensure\nt << x\nend"),
    ("fiber", "Fiber.new do\n", "\nend.resume"),
];

fn case(seq: &[usize], ctx: usize) -> Option<Case> {
    let run = |start: i64| -> Option<M> {
        let mut m = M { cells: vec![start], x: 0, w: None, q: None, a: vec![], t: vec![] };
        for op in seq {
            if !step(&mut m, *op) {
                return None;
            }
        }
        if ctx == 5 {
            let v = m.cells[0];
            m.t.push(v.to_string());
        }
        Some(m)
    };
    let mut m1 = run(1)?;
    let mut exp: Vec<String> = vec![];
    let out = |m: &M| format!("[{}, [{}]]", m.cells[m.x], m.t.join(", "));
    exp.push(out(&m1));
    let calls = |m: &mut M| -> String {
        let n = m.a.len();
        let mut v = vec![];
        for i in 0..n {
            v.push(m.call(i));
        }
        for i in (0..n).rev() {
            v.push(m.call(i));
        }
        format!("{:?}", v)
    };
    exp.push(calls(&mut m1));
    let mut m2 = run(50)?;
    exp.push(out(&m2));
    exp.push(calls(&mut m1));
    exp.push(calls(&mut m2));
    exp.push(calls(&mut m1));
    let mut body = String::new();
    for op in seq {
        if *op >= OPS {
            body += &format!("t << cc(a[{}]); t << x\n", op - OPS);
        } else {
            body += &format!("{}; t << x\n", CODE[*op]);
        }
    }
    let (name, pre, post) = CONTEXTS[ctx];
    let code = format!(
        "def mZZ(n)\nx = n\na = []\nt = []\n{pre}{body}{post}\n[[x, t], a]\nend
u, a1 = mZZ(1)
c = ->(a) {{ a.map {{ |f| cc(f) }} + a.reverse.map {{ |f| cc(f) }} }}
print u.inspect
print c.call(a1).inspect
u, a2 = mZZ(50)
print u.inspect
print c.call(a1).inspect
print c.call(a2).inspect
print c.call(a1).inspect"
    );
    Some(Case::f(format!("{code}\nnil"), exp.concat() + "nil").key(format!("{name}: {}", body.replace('\n', " / "))))
}

fn seqs(depth: usize, alphabet: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(v: &mut Vec<usize>, depth: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
        if !v.is_empty() {
            f(v);
        }
        if v.len() == depth {
            return;
        }
        for op in 0..n {
            v.push(op);
            go(v, depth, n, f);
            v.pop();
        }
    }
    go(&mut vec![], depth, alphabet, f);
}

fn templates() -> Vec<Case> {
    let mut v = vec![];
    let mut t = |code: &str, exp: &str| v.push(Case::top(code.to_string(), exp.to_string()));
    let _ = &mut t;
    // self, instance variables, the block of the defining method, return and break
    let kinds: [(&str, &str, &str); 6] = [
        ("proc { ", " }", ".call"),
        ("lambda { ", " }", ".call"),
        ("-> { ", " }", ".call"),
        ("proc { proc { ", " }.call }", ".call"),
        ("keep { ", " }", ".call"),
        ("proc { [1].map { |_q| ", " }[0] }", ".call"),
    ];
    let bodies: [(&str, &str); 9] = [
        ("self.class.name[0]", "\"K\""),
        ("@v", "5"),
        ("@v += 1", "6"),
        ("yield(3)", "33"),
        ("(yield(4)) + (yield 5)", "99"),
        ("block_given?", "true"),
        ("hid(2)", "[2, 5]"),
        ("x = (x || 0) + 1; [x]", "[1]"),
        ("[p1, (p1 += 1)]", "[8, 9]"),
    ];
    for (a, b, call) in kinds {
        for (body, exp) in bodies {
            let cls = |inner: &str| {
                format!("class KZZ\ndef initialize; @v = 5; end\ndef hid(n); [n, @v]; end\n{inner}\nend\n")
            };
            // called inside the method, by another method, by another object, after the return
            for (how, code) in [
                ("inside", cls(&format!("def m(p1); f = {a}{body}{b}; f{call}; end")) + "p(KZZ.new.m(8) { |q| q * 11 })"),
                ("other method", cls(&format!("def m(p1); f = {a}{body}{b}; o(f) {{ 0 }}; end\ndef o(f); f{call}; end")) + "p(KZZ.new.m(8) { |q| q * 11 })"),
                ("other object", cls(&format!("def m(p1); f = {a}{body}{b}; cc(f); end")) + "p(KZZ.new.m(8) { |q| q * 11 })"),
                ("later", cls(&format!("def m(p1); {a}{body}{b}; end")) + &format!("f = KZZ.new.m(8) {{ |q| q * 11 }}\np f{call}")),
                ("instance_exec of its own", cls(&format!("def m(p1); f = {a}{body}{b}; 1.times {{ return f{call} }}; end")) + "p(KZZ.new.m(8) { |q| q * 11 })"),
            ] {
                t(&code, &format!("{exp}\n"));
                let _ = how;
            }
            // instance_exec / instance_eval change self only
            if body == "yield(3)" || body == "(yield(4)) + (yield 5)" || body == "block_given?" {
                let _ = cls;
            }
        }
    }
    for (a, b) in [("proc { |*s| ", " }"), ("proc { |*s| 1.times { return_value = 1 }; ", " }")] {
        for (body, exp) in [
            ("self.class.name[0]", "\"L\""),
            ("@v", "7"),
            ("[p1, @v]", "[8, 7]"),
            ("p1 += 1; [p1, self.class.name[0]]", "[9, \"L\"]"),
            ("yield(3)", "33"),
            ("hid(1)", "[:l, 1]"),
            ("[1].map { |i| @v + p1 + i }", "[16]"),
            ("@v = p1; hid(@v)", "[:l, 8]"),
        ] {
            for ex in ["instance_exec", "instance_exec(1, 2)"] {
                let amp = if ex.ends_with(')') { ex.replace(")", ", &f)") } else { format!("{ex}(&f)") };
                t(
                    &format!("class LZZ\ndef initialize; @v = 7; end\ndef hid(n); [:l, n]; end\nend\nclass KZZ\ndef initialize; @v = 5; end\ndef hid(n); [:k, n]; end\ndef m(p1); f = {a}{body}{b}; LZZ.new.{amp}; end\nend\np(KZZ.new.m(8) {{ |q| q * 11 }})"),
                    &format!("{exp}\n"),
                );
            }
        }
    }
    // class_eval
    for (body, exp) in [
        ("self.name[0]", "\"L\""),
        ("p1 += 1", "9"),
        ("def neu(a); [a, @v]; end; new.neu(p1)", "[8, 7]"),
        ("attr_reader :v; new.v + p1", "15"),
    ] {
        for ce in ["class_eval", "module_eval"] {
            t(
                &format!("class LZZ\ndef initialize; @v = 7; end\nend\nclass KZZ\ndef m(p1); LZZ.{ce} {{ {body} }}; end\nend\np KZZ.new.m(8)"),
                &format!("{exp}\n"),
            );
        }
    }
    // return and break
    for (a, b, lam) in [("proc { ", " }", false), ("lambda { ", " }", true), ("-> { ", " }", true), ("keep { ", " }", false)] {
        for (jump, n) in [("return 9", 0), ("1.times { return 9 }", 1), ("next 9", 2), ("begin; return 9; ensure; print :e; end", 3), ("next 9 if true; 4", 2)] {
            for (ctx, (x, y)) in [("", ("", "")), ("block", ("[1].each { ", " }")), ("ensure", ("begin; ", "; ensure; print :f; end")), ("while", ("while true; ", "; break; end"))] {
                let code = format!("def mZZ\nf = {a}{jump}{b}\nr = 0\n{x}r = f.call{y}\nprint :g\n[r]\nend\np mZZ");
                let e = if n == 3 { "e" } else { "" };
                let fin = if ctx == "ensure" { "f" } else { "" };
                let exp = if lam || n == 2 {
                    format!("{e}{fin}g[9]\n")
                } else {
                    format!("{e}{fin}9\n")
                };
                t(&code, &exp);
                // after the method returned
                let code = format!("def mZZ\n{a}{jump}{b}\nend\nf = mZZ\nbegin\np f.call\nrescue LocalJumpError\np :lje\nend");
                let exp = if lam || n == 2 { format!("{e}9\n") } else { format!("{e}:lje\n") };
                if ctx.is_empty() {
                    t(&code, &exp);
                }
            }
        }
    }
    // bindings
    for (code, exp) in [
        ("def mZZ; x = 1; b = binding; x = 2; [eval(\"x\", b), eval(\"x = 5\", b), x]; end; p mZZ", "[2, 5, 5]\n"),
        ("def mZZ; x = 1; binding; end; b = mZZ; c = mZZ; eval(\"x = 7\", b); p eval(\"x\", b), eval(\"x\", c)", "7\n1\n"),
        ("def mZZ; x = 1; b = binding; eval(\"n1 = x + 1\", b); eval(\"n2 = n1 + 1\", b); eval(\"n3 = [x, n1, n2]\", b); eval(\"x += n2; [x, n1, n2, n3]\", b); end; p mZZ", "[4, 2, 3, [1, 2, 3]]\n"),
        ("def mZZ; x = 1; b = binding; f = eval(\"n1 = 5; proc { n1 += x }\", b); [f.call, x += 1, f.call, eval(\"n1\", b)]; end; p mZZ", "[6, 2, 8, 8]\n"),
        ("def mZZ; x = 1; [1, 2].map { |i| binding }; end; a = mZZ; eval(\"x += 10\", a[0]); p eval(\"[x, i]\", a[1]), eval(\"[x, i]\", a[0])", "[11, 2]\n[11, 1]\n"),
        ("def mZZ(k); b = binding; eval(\"k += 1; y = k\", b); [k, eval(\"y\", b)]; end; p mZZ(3)", "[4, 4]\n"),
        ("def mZZ; x = 1; eval(\"eval(\\\"x += 1\\\"); x += 1\"); x; end; p mZZ", "3\n"),
        ("def mZZ; x = 1; f = eval(\"proc { |d| x += d }\"); x = 10; f.call(5); x; end; p mZZ", "15\n"),
        ("x = 4; f = eval(\"-> { x += 1 }\"); f.(); f.(); p x", "6\n"),
        ("class KZZ; def initialize; @v = 2; end; def b; binding; end; end; p eval(\"[@v, self.class.name[0]]\", KZZ.new.b)", "[2, \"K\"]\n"),
        ("def mZZ; b = binding; b.local_variables.size; end; p mZZ", "1\n"),
        ("def mZZ; x = 3; b = binding; [b.local_variable_defined?(:x), b.local_variable_defined?(:nope)]; end; p mZZ", "[true, false]\n"),
    ] {
        t(code, exp);
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let (d0, d1) = if ctx.thorough { (5, 4) } else { (4, 3) };
    let calls = 4;
    ctx.bound("operations", format!("{} and calls of the first {} closures", OPS, calls));
    ctx.bound("depth", format!("{} in a method, {} in the other contexts", d0, d1));
    ctx.section("capture / write / call histories");
    for c in 0..CONTEXTS.len() {
        let mut cases = vec![];
        seqs(if c == 0 { d0 } else { d1 }, OPS + calls, &mut |s| {
            if let Some(k) = case(s, c) {
                cases.push(k);
            }
        });
        ctx.states += cases.len() as u64;
        ctx.transitions += cases.iter().map(|c| c.key.matches(" / ").count() as u64 + 1).sum::<u64>();
        Runner::new(ctx).prelude(PRELUDE).batch(100).run(cases.into_iter());
    }
    ctx.section("self, blocks, jumps and bindings of closures");
    let cases = templates();
    ctx.states += cases.len() as u64;
    Runner::new(ctx).prelude(PRELUDE).batch(50).run(cases.into_iter());
}
