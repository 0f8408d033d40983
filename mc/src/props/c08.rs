//! C08: fibers and enumerators switch and resume without losing state.
//! All schedules of resumes over two and three fibers, for all bodies from a coroutine language, against a reference
//! coroutine machine; all schedules of next / iteration over pairs of enumerators.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use crate::worker::Gc;

const PRELUDE: &str = r#"
def deep(n); if n == 0; yield; else; deep(n - 1) { yield }; end; end
def rs(f, *a); f.resume(*a); rescue FiberError; :fe; rescue LocalJumpError; :lj; rescue => e; e.message; end
def nx(e); e.next; rescue StopIteration; :stop; rescue FiberError; :fe; end
class Multi
  def each; yield; yield 1; yield 2, 3; yield [4, 5]; :done; end
  def two(a, b); yield a; yield b; yield a, b; self; end
  def ens; begin; yield 7; yield 8; ensure; @e = 1; end; end
  def nest; [1, 2].each { |x| [3, 4].each { |y| yield x * 10 + y } }; end
  def deepy; deep(5) { yield :d }; yield :e; end
end
"#;

#[derive(Clone, Debug)]
enum E {
    X,
    C(V),
}

#[derive(Clone, Debug)]
enum Err_ {
    Propagate,
    Rescue,
    Ensure,
}

#[derive(Clone, Debug)]
enum Mi {
    Yield(Vec<E>),     // x = Fiber.yield(...)
    YieldDrop(Vec<E>), // Fiber.yield(...)
    YieldPair(Vec<E>), // x = [x, Fiber.yield(...)]
    Res(usize, Err_),  // x = f[j].resume(x)
    Raise,
    Jump,
    Ret(E),
    Trace(V),
    Cap,
    Set(V),
}

type Snip = (String, Vec<Mi>);

fn snips(me: usize, n: usize, full: bool) -> Vec<Snip> {
    let o = if n == 2 { 1 - me } else { (me + 1) % n };
    let s = |x: &str| E::C(sym(x));
    let mut v: Vec<Snip> = vec![
        ("x = Fiber.yield(:a)".into(), vec![Mi::Yield(vec![s("a")])]),
        ("x = Fiber.yield(x)".into(), vec![Mi::Yield(vec![E::X])]),
        (format!("x = f[{o}].resume(x)"), vec![Mi::Res(o, Err_::Propagate)]),
        (format!("x = begin; f[{o}].resume(x); rescue FiberError; t << :r; :fe; rescue => e; t << e.message; :er; end"), vec![Mi::Res(o, Err_::Rescue)]),
        (format!("begin; x = f[{o}].resume(x); ensure; t << :ens{me}; end"), vec![Mi::Res(o, Err_::Ensure)]),
        ("raise \"boom\"".into(), vec![Mi::Raise]),
        ("2.times { |i| x = Fiber.yield(i, i) }".into(), vec![Mi::Yield(vec![E::C(int(0)), E::C(int(0))]), Mi::Yield(vec![E::C(int(1)), E::C(int(1))])]),
        ("x = deep(4) { Fiber.yield(x) }".into(), vec![Mi::Yield(vec![E::X])]),
        ("x = [x, Fiber.yield(:n, x, *[2, 3, 4, 5, 6, 7], 8, 9)]".into(), vec![Mi::YieldPair([s("n"), E::X].into_iter().chain((2..10).map(|i| E::C(int(i)))).collect())]),
        ("begin; x = Fiber.yield; ensure; t << x; end".into(), vec![Mi::Yield(vec![]), Mi::Trace(V::Nil)]),
        ("c << -> { x }".into(), vec![Mi::Cap]),
        ("next x".into(), vec![Mi::Ret(E::X)]),
    ];
    if full {
        v.push(("break x".into(), vec![Mi::Jump]));
        v.push(("return x".into(), vec![Mi::Jump]));
        v.push((format!("x = f[{me}].resume(x)"), vec![Mi::Res(me, Err_::Propagate)]));
        v.push(("[:p, :q].map { |i| Fiber.yield(i) }".into(), vec![Mi::YieldDrop(vec![s("p")]), Mi::YieldDrop(vec![s("q")])]));
        v.push(("i = 0; while i < 2; x = Fiber.yield(i); i += 1; end".into(), vec![Mi::Yield(vec![E::C(int(0))]), Mi::Yield(vec![E::C(int(1))])]));
        v.push(("begin; raise \"in\"; rescue; x = Fiber.yield(:resc); end".into(), vec![Mi::Yield(vec![s("resc")])]));
        v.push(("x = :z; eval(\"x = Fiber.yield(x)\")".into(), vec![Mi::Set(sym("z")), Mi::Yield(vec![E::X])]));
    }
    v
}

#[derive(Clone, PartialEq)]
enum St {
    Created,
    Suspended,
    Active,
    Dead,
}

#[derive(Clone)]
struct F {
    body: Vec<Mi>,
    pc: usize,
    x: V,
    st: St,
}

#[derive(Clone)]
struct W {
    f: Vec<F>,
    t: Vec<V>,
    c: Vec<usize>,
    fuel: usize,
}

#[derive(Clone, Debug)]
enum Ex {
    Fiber,
    Boom,
    Jump,
}

fn pack(mut a: Vec<V>) -> V {
    match a.len() {
        0 => V::Nil,
        1 => a.remove(0),
        _ => arr(a),
    }
}

impl W {
    fn ev(&self, i: usize, e: &E) -> V {
        match e {
            E::X => self.f[i].x.clone(),
            E::C(v) => v.clone(),
        }
    }
    fn resume(&mut self, i: usize, args: Vec<V>) -> Result<V, Ex> {
        match self.f[i].st {
            St::Dead | St::Active => return Err(Ex::Fiber),
            St::Created => {
                // |x|: a procs's single parameter takes the first argument
                self.f[i].x = args.get(0).cloned().unwrap_or(V::Nil);
            }
            St::Suspended => {
                let v = pack(args);
                let pc = self.f[i].pc;
                match self.f[i].body[pc - 1] {
                    Mi::Yield(_) => self.f[i].x = v,
                    Mi::YieldPair(_) => {
                        let x = self.f[i].x.clone();
                        self.f[i].x = arr(vec![x, v]);
                    }
                    _ => {}
                }
            }
        }
        self.f[i].st = St::Active;
        loop {
            let pc = self.f[i].pc;
            if pc >= self.f[i].body.len() {
                self.f[i].st = St::Dead;
                return Ok(self.f[i].x.clone());
            }
            self.f[i].pc += 1;
            match self.f[i].body[pc].clone() {
                Mi::Yield(es) | Mi::YieldDrop(es) | Mi::YieldPair(es) => {
                    let v = pack(es.iter().map(|e| self.ev(i, e)).collect());
                    self.f[i].st = St::Suspended;
                    return Ok(v);
                }
                Mi::Res(j, m) => {
                    let x = self.f[i].x.clone();
                    let r = self.resume(j, vec![x]);
                    if let Err_::Ensure = m {
                        if let Ok(v) = &r {
                            self.f[i].x = v.clone();
                        }
                        self.t.push(sym(&format!("ens{}", i)));
                    }
                    match (r, m) {
                        (Ok(v), _) => self.f[i].x = v,
                        (Err(Ex::Fiber), Err_::Rescue) => {
                            self.t.push(sym("r"));
                            self.f[i].x = sym("fe");
                        }
                        (Err(Ex::Boom), Err_::Rescue) => {
                            self.t.push(st("boom"));
                            self.f[i].x = sym("er");
                        }
                        // its message is not compared
                        (Err(Ex::Jump), Err_::Rescue) => {
                            self.fuel = 0;
                            return Err(Ex::Jump);
                        }
                        (Err(e), _) => {
                            self.f[i].st = St::Dead;
                            return Err(e);
                        }
                    }
                }
                Mi::Raise => {
                    self.f[i].st = St::Dead;
                    return Err(Ex::Boom);
                }
                Mi::Jump => {
                    self.f[i].st = St::Dead;
                    return Err(Ex::Jump);
                }
                Mi::Ret(e) => {
                    let v = self.ev(i, &e);
                    self.f[i].st = St::Dead;
                    return Ok(v);
                }
                Mi::Trace(_) => {
                    let x = self.f[i].x.clone();
                    self.t.push(x);
                }
                Mi::Cap => self.c.push(i),
                Mi::Set(v) => self.f[i].x = v,
            }
        }
    }
}

/// bodies: for every fiber the indexes of its snippets
fn fiber_cases(n: usize, bodies: &[Vec<usize>], full: bool, depth: usize, out: &mut Vec<Case>) {
    let mut code = String::from("f = []; t = []; c = []; r = []\n");
    let mut fs = vec![];
    for (i, b) in bodies.iter().enumerate() {
        let sn = snips(i, n, full);
        let mut body = vec![];
        let mut txt = vec![];
        for k in b {
            txt.push(sn[*k].0.clone());
            body.extend(sn[*k].1.iter().cloned());
        }
        txt.push("x".into());
        code += &format!("f << Fiber.new {{ |x| {} }}\n", txt.join("; "));
        fs.push(F { body, pc: 0, x: V::Nil, st: St::Created });
    }
    let w0 = W { f: fs, t: vec![], c: vec![], fuel: 1 };
    for s in 0..n.pow(depth as u32) {
        // the first resume of the schedule is of fiber 0 or 1 by symmetry of nothing: all schedules
        let mut w = w0.clone();
        let mut code = code.clone();
        let mut r = vec![];
        let mut k = s;
        for d in 0..depth {
            let i = k % n;
            k /= n;
            // one argument, at the third step none, at the fourth two
            let (txt, args) = match d {
                2 => ("".to_string(), vec![]),
                3 => (format!(", {}, nil", d), vec![int(d as i64), V::Nil]),
                _ => (format!(", {}", d + 20), vec![int(d as i64 + 20)]),
            };
            code += &format!("r << rs(f[{i}]{txt})\n");
            r.push(match w.resume(i, args) {
                Ok(v) => v,
                Err(Ex::Fiber) => sym("fe"),
                Err(Ex::Boom) => st("boom"),
                Err(Ex::Jump) => sym("lj"),
            });
        }
        if w.fuel == 0 {
            continue;
        }
        code += "[r, t, c.map { |q| q.call }]";
        let exp = arr(vec![arr(r), arr(w.t.clone()), arr(w.c.iter().map(|i| w.f[*i].x.clone()).collect())]);
        let key = code.replace('\n', "; ");
        out.push(Case::f(code, exp.inspect()).key(key));
    }
}

fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|s: Vec<usize>| (0..n).map(move |k| { let mut s = s.clone(); s.push(k); s })).collect();
    }
    v
}

// ---- enumerators

/// (source, the values, what each returns)
fn sources() -> Vec<(&'static str, Vec<V>)> {
    let p = |a: i64, b: i64| ints(&[a, b]);
    vec![
        ("[3, 4, 5].each", vec![int(3), int(4), int(5)]),
        ("[].each", vec![]),
        ("(1..3).each", vec![int(1), int(2), int(3)]),
        ("(1...1).each", vec![]),
        ("2.times", vec![int(0), int(1)]),
        ("2.upto(4)", vec![int(2), int(3), int(4)]),
        ("4.downto(3)", vec![int(4), int(3)]),
        ("1.step(6, 2)", vec![int(1), int(3), int(5)]),
        ("[7, 8].map", vec![int(7), int(8)]),
        ("[7, nil, false].each", vec![int(7), V::Nil, V::False]),
        ("[[1, 2], [3]].each", vec![p(1, 2), ints(&[3])]),
        ("[5, 6].each_with_index", vec![p(5, 0), p(6, 1)]),
        ("[5, 6].each.with_index", vec![p(5, 0), p(6, 1)]),
        ("[5, 6].map.with_index", vec![p(5, 0), p(6, 1)]),
        ("[2, 4].each.map", vec![int(2), int(4)]),
        ("Enumerator.new([9, 8])", vec![int(9), int(8)]),
        ("Enumerator.new(1..2, :each)", vec![int(1), int(2)]),
        ("Enumerator.new(Multi.new)", vec![V::Nil, int(1), p(2, 3), p(4, 5)]),
        ("Enumerator.new(Multi.new, :two, 6, 7)", vec![int(6), int(7), p(6, 7)]),
        ("Multi.new.to_enum(:ens)", vec![int(7), int(8)]),
        ("Multi.new.to_enum(:nest)", ints_v(&[13, 14, 23, 24])),
        ("Enumerator.new(Multi.new, :deepy)", vec![sym("d"), sym("e")]),
        ("Enumerator.new([4, 5].each.with_index, :each)", vec![p(4, 0), p(5, 1)]),
        ("Enumerator.new([1, 2].each)", vec![int(1), int(2)]),
    ]
}

fn ints_v(v: &[i64]) -> Vec<V> {
    v.iter().map(|i| int(*i)).collect()
}

/// operations on enumerators a (source s) and b (source u): next of both, iteration, fibers
fn enum_cases(full: bool, depth: usize) -> Vec<Case> {
    let src = sources();
    let mut out = vec![];
    const NOPS: usize = 7;
    for (i, (sa, va)) in src.iter().enumerate() {
        for (j, (sb, vb)) in src.iter().enumerate() {
            if !full && j != i && j != (i + 1) % src.len() && j != (i + 7) % src.len() {
                continue;
            }
            for s in seqs(NOPS, depth) {
                // at least one next of a
                if !s.contains(&0) {
                    continue;
                }
                let mut code = format!("a = {sa}; b = {sb}; g = Fiber.new {{ 9.times {{ Fiber.yield(nx(a)) }} }}; r = []\n");
                let (mut pa, mut pb) = (0, 0);
                let mut r = vec![];
                let stop = |v: &Vec<V>, p: &mut usize| -> V {
                    let x = v.get(*p).cloned().unwrap_or(sym("stop"));
                    *p += 1;
                    x
                };
                for o in s {
                    let (c, v) = match o {
                        0 => ("r << nx(a)", stop(va, &mut pa)),
                        1 => ("r << nx(b)", stop(vb, &mut pb)),
                        2 => ("r << a.map { |x| x }", arr(va.iter().map(|v| v.clone()).collect())),
                        3 => ("r << g.resume", stop(va, &mut pa)),
                        4 => {
                            let mut q = vec![];
                            while pa < va.len() {
                                q.push(va[pa].clone());
                                pa += 1;
                            }
                            ("q = []; loop { q << a.next }; r << q", arr(q))
                        }
                        5 => ("q = []; a.each { |x| q << x; q << nx(b) if q.size == 1 }; r << q", {
                            let mut q = vec![];
                            for x in va {
                                q.push(x.clone());
                                if q.len() == 1 {
                                    q.push(stop(vb, &mut pb));
                                }
                            }
                            arr(q)
                        }),
                        _ => ("q = []; b.with_index { |x, i| q << [x, i]; q << nx(a) }; r << q", {
                            let mut q = vec![];
                            for (i, x) in vb.iter().enumerate() {
                                q.push(arr(vec![x.clone(), int(i as i64)]));
                                q.push(stop(va, &mut pa));
                            }
                            arr(q)
                        }),
                    };
                    code += c;
                    code.push('\n');
                    r.push(v);
                }
                code += "r";
                let key = code.replace('\n', "; ");
                out.push(Case::f(code, arr(r).inspect()).key(key));
            }
        }
    }
    out
}

fn misc() -> Vec<Case> {
    let mut v = vec![];
    // parameters of the block x arguments of the first and of the second resume
    for (par, obs, want) in [
        ("", "0", ["0", "0", "0", "0"]),
        ("|x|", "x", ["nil", "1", "1", "[5, 6]"]),
        ("|x, y|", "[x, y]", ["[nil, nil]", "[1, nil]", "[1, 2]", "[5, 6]"]),
        ("|x, *y|", "[x, y]", ["[nil, []]", "[1, []]", "[1, [2]]", "[5, [6]]"]),
        ("|*y|", "y", ["[]", "[1]", "[1, 2]", "[[5, 6]]"]),
        ("|x = 8, y = 9|", "[x, y]", ["[8, 9]", "[1, 9]", "[1, 2]", "[5, 6]"]),
        ("", "if false; l = 1; end; l", ["nil", "nil", "nil", "nil"]),
        ("", "l = [l]; l", ["[nil]", "[nil]", "[nil]", "[nil]"]),
    ] {
        for (k, a) in ["", "1", "1, 2", "[5, 6]"].iter().enumerate() {
            for (b, bw) in [("", "nil"), ("3", "3"), ("3, 4", "[3, 4]"), ("*[]", "nil"), ("[3]", "[3]")] {
                for (yv, yw) in [("", "nil"), ("(7)", "7"), ("(7, 8)", "[7, 8]"), ("([7])", "[7]"), ("(*[7, 8])", "[7, 8]")] {
                    let code = format!("f = Fiber.new {{ {par} z = ({obs}); q = Fiber.yield{yv}; [z, q] }}; [f.resume({a}), f.resume({b}), rs(f)]");
                    v.push(Case::f(code, format!("[{yw}, [{}, {bw}], :fe]", want[k])));
                }
            }
        }
    }
    for (c, e) in [
        ("Fiber.yield(1)", "!FiberError"),
        ("e = [1, 2].each; f = e.dup; [e.next, f.next, f.next, e.next]", "[1, 1, 2, 2]"),
        ("e = [1].each; e.next; e.dup", "!TypeError"),
        ("Fiber.new { 1 }.dup", "!TypeError"),
        ("x = 1; f = Fiber.new { x += 1; Fiber.yield x; x += 10; x }; [f.resume, x, x += 5, f.resume, x]", "[2, 2, 7, 17, 17]"),
        ("f = Fiber.new { |a| g = Fiber.new { |b| h = Fiber.new { |c| Fiber.yield(c + 1); Fiber.yield(c + 2); c + 3 }; [h.resume(b * 10), Fiber.yield(b), h.resume, h.resume] }; [g.resume(a * 2), Fiber.yield(a), g.resume(:in)] }; [f.resume(1), f.resume(:out)]", "[1, [2, :out, [21, :in, 22, 23]]]"),
        ("pr = proc { |x| x += Fiber.yield(x); x }; f = Fiber.new(&pr); g = Fiber.new(&pr); [f.resume(1), g.resume(100), f.resume(5), g.resume(6)]", "[1, 100, 6, 106]"),
        ("l = ->(x) { Fiber.yield(x); :l }; f = Fiber.new(&l); [f.resume(1), f.resume]", "[1, :l]"),
        ("l = ->(x) { return x }; f = Fiber.new(&l); [f.resume(1), rs(f)]", "[1, :fe]"),
        ("f = Fiber.new(&:succ); [f.resume(4), rs(f)]", "[5, :fe]"),
        ("a = [1, 2]; e = a.each; x = e.next; a << 3; [x, e.next, e.next, nx(e), nx(e)]", "[1, 2, 3, :stop, :stop]"),
        ("f = Fiber.new { loop { Fiber.yield 1; raise StopIteration }; 2 }; [f.resume, f.resume, rs(f)]", "[1, 2, :fe]"),
        ("def mZZ; yield 1; yield 2; end; f = Fiber.new { mZZ { |x| Fiber.yield x }; :end }; [f.resume, f.resume, f.resume]", "[1, 2, :end]"),
        ("def gZZ(n); Fiber.yield(n) if n == 0; n == 0 ? 0 : 1 + gZZ(n - 1); end; f = Fiber.new { gZZ(60) }; g = Fiber.new { gZZ(40) }; [f.resume, g.resume, f.resume, g.resume]", "[0, 0, 60, 40]"),
        ("fs = (0..9).map { |i| Fiber.new { |x| 3.times { |k| x = Fiber.yield(x + i + k) }; x } }; (0..3).map { |r| fs.map { |f| f.resume(r * 100) }.inject(0) { |a, b| a + b } }", "[45, 1055, 2065, 3000]"),
        ("f = Fiber.new { begin; Fiber.yield 1; raise \"x\"; rescue => e; Fiber.yield e.message; ensure; Fiber.yield :ens; end; :end }; [f.resume, f.resume, f.resume, f.resume, rs(f)]", "[1, \"x\", :ens, :end, :fe]"),
        ("f = Fiber.new { begin; raise \"x\"; ensure; Fiber.yield :ens; end; :end }; [f.resume, rs(f), rs(f)]", "[:ens, \"x\", :fe]"),
        ("f = Fiber.new { Fiber.new { raise \"deep\" }.resume }; [rs(f), rs(f)]", "[\"deep\", :fe]"),
        ("f = Fiber.new { begin; Fiber.new { raise \"deep\" }.resume; rescue => e; Fiber.yield e.message; end; 4 }; [rs(f), rs(f)]", "[\"deep\", 4]"),
        ("o = Object.new; $fb = nil; def o.each; yield 1; yield $fb.next; end; $fb = Enumerator.new(o); [$fb.next, nx($fb)]", "[1, :fe]"),
        ("e = [1, 2, 3].each; f = Fiber.new { [e.next, Fiber.yield(:x), e.next] }; [f.resume, e.next, f.resume(9)]", "[:x, 2, [1, 9, 3]]"),
        ("[1.upto(3).inspect, [1].each.inspect, [1].each.with_index.inspect, Enumerator.new([2], :each_slice, \"a\", :b).inspect]", "[\"#<Enumerator: 1:upto(3)>\", \"#<Enumerator: [1]:each>\", \"#<Enumerator: #<Enumerator: [1]:each>:with_index>\", \"#<Enumerator: [2]:each_slice(\\\"a\\\", :b)>\"]"),
        ("[1, 2].each.with_index.map { |x, i| [x, i] }", "[[1, 0], [2, 1]]"),
        ("[4, 5].map.with_index { |x, i| x * i }", "[0, 5]"),
        ("[4, 5].each_with_index.map { |x, i| x * i }", "[0, 5]"),
        ("f = Fiber.new { |x| y = x; b = binding; Fiber.yield b; [x, y] }; b = f.resume(3); eval(\"x += 1; y += 10\", b); f.resume", "[4, 13]"),
        ("f = Fiber.new { |x| k = -> { x += 1 }; Fiber.yield k; x }; k = f.resume(3); k.(); k.(); [f.resume, k.()]", "[5, 6]"),
        ("f = Fiber.new { |x| [1, 2].each { |i| [3, 4].each { |j| x << Fiber.yield([i, j]) } }; x }; [f.resume([]), f.resume(:a), f.resume(:b), f.resume(:c), f.resume(:d)]", "[[1, 3], [1, 4], [2, 3], [2, 4], [:a, :b, :c, :d]]"),
    ] {
        v.push(Case::f(c, e));
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let plan: Vec<(usize, usize, bool, usize, bool)> = if t {
        // fibers, body length, whole alphabet, schedule length, collecting at every safe point
        vec![(2, 1, true, 7, false), (2, 2, true, 4, false), (3, 1, false, 5, false), (2, 1, true, 5, true), (3, 1, false, 3, true)]
    } else {
        vec![(2, 1, true, 6, false), (2, 2, false, 4, false), (3, 1, false, 3, false), (2, 1, false, 4, true)]
    };
    for (n, len, full, depth, gc) in plan {
        let al = snips(0, n, full).len();
        ctx.section(&format!("{n} fibers, bodies of {len} of {al} statements, all schedules of {depth} resumes{}", if gc { ", collecting at every safe point" } else { "" }));
        ctx.bound(&format!("{n} fibers, body {len}{}", if gc { " (gc)" } else { "" }), format!("schedule length {depth}, {al} statements"));
        let bodies = seqs(al, len * n);
        ctx.states += bodies.len() as u64;
        let it = bodies.into_iter().flat_map(move |b| {
            let bs: Vec<Vec<usize>> = b.chunks(len).map(|c| c.to_vec()).collect();
            let mut out = vec![];
            fiber_cases(n, &bs, full, depth, &mut out);
            out
        });
        ctx.transitions += (al.pow((len * n) as u32) * n.pow(depth as u32) * depth) as u64;
        let mut r = Runner::new(ctx).prelude(PRELUDE).batch(if gc { 10 } else { 64 });
        if gc {
            r.gc = Gc { controlled: true, every: true, ..Gc::default() };
        }
        r.run(it);
    }
    ctx.section("schedules over two enumerators");
    let c = enum_cases(t, if t { 4 } else { 3 });
    ctx.bound("enumerator schedule", if t { "4 of 7 operations, all pairs of sources" } else { "3 of 7 operations, three partners for every source" });
    ctx.states += c.len() as u64;
    Runner::new(ctx).prelude(PRELUDE).batch(64).run(c.into_iter());
    ctx.section("parameters, nesting and errors");
    let c = misc();
    ctx.states += c.len() as u64;
    Runner::new(ctx).prelude(PRELUDE).batch(64).run(c.into_iter());
    ctx.section("enumerators, nesting and errors, collecting at every safe point");
    let mut c = misc();
    c.extend(enum_cases(t, if t { 3 } else { 2 }));
    ctx.states += c.len() as u64;
    let mut r = Runner::new(ctx).prelude(PRELUDE).batch(10);
    r.gc = Gc { controlled: true, every: true, ..Gc::default() };
    r.run(c.into_iter());
}
