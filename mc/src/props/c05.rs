//! C05: non-local control flow.
use crate::case::{Case, Runner};
use crate::model::mini::*;
use crate::report::Ctx;

fn t(n: i64) -> Ex {
    Ex::T(n)
}
fn seq(v: Vec<Ex>) -> Ex {
    Ex::Seq(v)
}
fn resc(c: &[&'static str], bind: bool, body: Ex) -> Resc {
    Resc { classes: c.to_vec(), bind, body }
}
fn begin(body: Ex, rescues: Vec<Resc>, els: Option<Ex>, ens: Option<Ex>) -> Ex {
    Ex::Begin { body: bx(body), rescues, els: els.map(bx), ens: ens.map(bx) }
}
fn nth(k: i64, e: Ex) -> Ex {
    Ex::ModIf(false, bx(Ex::Nth(k)), bx(e))
}
fn o(e: Ex) -> Option<Box<Ex>> {
    Some(bx(e))
}

pub fn leaves() -> Vec<Ex> {
    vec![
        t(1),
        Ex::Raise("EA"),
        Ex::Raise("EB"),
        Ex::Raise("EX"),
        Ex::Div0,
        Ex::Break(o(t(2))),
        Ex::Break(None),
        Ex::Next(o(t(3))),
        Ex::Return(o(t(4))),
        Ex::Return(None),
        nth(2, Ex::Break(o(Ex::Int(5)))),
        nth(1, Ex::Next(None)),
        nth(2, Ex::Return(o(Ex::Int(6)))),
        nth(2, Ex::Raise("EA")),
    ]
}

type Wrap = (&'static str, Box<dyn Fn(usize, Ex) -> Ex + Send + Sync>);

/// Every way to put a statement into an enclosing construct; d numbers the nesting level.
pub fn wrappers(all: bool) -> Vec<Wrap> {
    let mut v: Vec<Wrap> = vec![];
    macro_rules! w {
        ($n:expr, |$d:ident, $h:ident| $e:expr) => {
            v.push(($n, Box::new(move |$d: usize, $h: Ex| -> Ex {
                let _ = $d;
                $e
            })));
        };
    }
    let b = |d: usize| 10 + 10 * d as i64;
    w!("then", |d, h| seq(vec![h, t(b(d))]));
    w!("last", |d, h| seq(vec![t(b(d)), h]));
    w!("if", |d, h| Ex::If(bx(t(b(d))), bx(h), Some(bx(t(b(d) + 1)))));
    w!("else", |d, h| Ex::If(bx(Ex::Nil), bx(t(b(d))), Some(bx(h))));
    w!("unless", |d, h| Ex::Unless(bx(Ex::False), bx(h)));
    w!("while", |d, h| Ex::While { until: false, k: d, n: 2, body: bx(seq(vec![t(b(d)), h])) });
    w!("while-void", |d, h| Ex::While { until: false, k: d, n: 2, body: bx(seq(vec![h, t(b(d))])) });
    w!("until", |d, h| Ex::While { until: true, k: d, n: 2, body: bx(h) });
    w!("do-while", |d, h| Ex::DoWhile { until: false, k: d, n: 2, body: bx(seq(vec![h, t(b(d))])) });
    w!("each", |d, h| Ex::Iter(It::Each, bx(seq(vec![h, t(b(d))]))));
    w!("times", |_d, h| Ex::Iter(It::Times, bx(h)));
    w!("loop", |d, h| Ex::Iter(It::Loop(d), bx(h)));
    w!("for", |d, h| Ex::Iter(It::For, bx(seq(vec![h, t(b(d))]))));
    w!("y2", |_d, h| Ex::Iter(It::Yield2, bx(h)));
    w!("ye", |_d, h| Ex::Iter(It::YieldEnsure, bx(h)));
    w!("yr", |_d, h| Ex::Iter(It::YieldRescue, bx(h)));
    w!("bc", |_d, h| Ex::Iter(It::BlockCall, bx(h)));
    w!("ps", |_d, h| Ex::Iter(It::Pass, bx(h)));
    w!("body-res", |d, h| begin(h, vec![resc(&["EA"], true, t(b(d)))], None, None));
    w!("body-all", |d, h| begin(
        h,
        vec![resc(&["EC", "EB"], false, t(b(d))), resc(&[], true, t(b(d) + 1))],
        Some(t(b(d) + 2)),
        Some(t(b(d) + 3))
    ));
    w!("body-ens", |d, h| begin(h, vec![], None, Some(t(b(d)))));
    w!("body-ens-void", |d, h| seq(vec![begin(h, vec![], None, Some(t(b(d)))), t(b(d) + 1)]));
    w!("body-ens2", |d, h| begin(
        h,
        vec![],
        None,
        Some(begin(Ex::Raise("EA"), vec![resc(&[], false, t(b(d)))], None, None))
    ));
    w!("res", |d, h| begin(Ex::Raise("EB"), vec![resc(&["EA"], true, h)], None, Some(t(b(d)))));
    w!("res-only", |_d, h| begin(Ex::Div0, vec![resc(&[], true, h)], None, None));
    w!("else", |d, h| begin(t(b(d)), vec![resc(&[], true, t(b(d) + 1))], Some(h), Some(t(b(d) + 2))));
    w!("ens-ok", |d, h| begin(t(b(d)), vec![], None, Some(h)));
    w!("ens-raise", |d, h| begin(Ex::Raise("EA"), vec![], None, Some(seq(vec![h, t(b(d))]))));
    w!("ens-return", |d, h| begin(Ex::Return(o(t(b(d)))), vec![], None, Some(h)));
    w!("lambda", |d, h| seq(vec![Ex::Lambda(bx(h)), t(b(d))]));
    w!("call", |d, h| seq(vec![Ex::Call(bx(h)), t(b(d))]));
    w!("arr", |d, h| Ex::Arr(vec![t(b(d)), h]));
    if all {
        w!("map", |_d, h| Ex::Iter(It::Map, bx(h)));
        w!("upto", |_d, h| Ex::Iter(It::Upto, bx(h)));
        w!("hash", |_d, h| Ex::Iter(It::Hash, bx(h)));
        w!("with_index", |_d, h| Ex::Iter(It::WithIndex, bx(h)));
        w!("inject", |_d, h| Ex::Iter(It::Inject, bx(h)));
        w!("select", |_d, h| Ex::Iter(It::Select, bx(h)));
        w!("yw", |_d, h| Ex::Iter(It::YieldWhile, bx(h)));
        w!("yi", |_d, h| Ex::Iter(It::YieldIn, bx(h)));
        w!("proc", |d, h| seq(vec![Ex::Proc(bx(h)), t(b(d))]));
        w!("mod", |d, h| Ex::RescueMod(bx(h), bx(t(b(d)))));
        w!("and", |d, h| Ex::And(bx(t(b(d))), bx(h)));
        w!("or", |_d, h| Ex::Or(bx(Ex::Nil), bx(h)));
        w!("let", |d, h| Ex::Let(d, bx(h)));
        w!("arg", |_d, h| Ex::Arg(bx(h)));
        w!("cond", |d, h| Ex::If(bx(h), bx(t(b(d))), Some(bx(t(b(d) + 1)))));
        w!("modif", |_d, h| Ex::ModIf(true, bx(Ex::False), bx(h)));
        w!("res2", |d, h| begin(
            Ex::Raise("EC"),
            vec![resc(&["EA"], false, t(b(d))), resc(&["EX", "EC"], false, h)],
            Some(t(b(d) + 1)),
            None
        ));
        w!("do-until", |d, h| Ex::DoWhile { until: true, k: d, n: 2, body: bx(h) });
        w!("ens-break", |d, h| Ex::Iter(
            It::Each,
            bx(begin(Ex::Break(o(t(b(d)))), vec![], None, Some(h)))
        ));
    }
    v
}

fn case(e: &Ex) -> Option<Case> {
    program(e).map(|(c, o)| Case::f(c, o))
}

fn deep(d: usize, ws: &[Wrap], leaf: &Ex, lvl: usize, f: &mut dyn FnMut(Ex)) {
    if d == 0 {
        f(leaf.clone());
        return;
    }
    for w in ws {
        deep(d - 1, ws, leaf, lvl + 1, &mut |e| f((w.1)(lvl, e)));
    }
}

/// All chains of d constructs around each leaf; streamed per outermost pair.
fn chains(d: usize, ws: std::sync::Arc<Vec<Wrap>>, ls: Vec<Ex>) -> impl Iterator<Item = Case> + Send {
    let n = ws.len();
    let l = ls.len();
    let outer = if d >= 2 { n * n } else { n };
    (0..outer * l).flat_map(move |i| {
        let leaf = &ls[i % l];
        let k = i / l;
        let mut out = vec![];
        if d >= 2 {
            let (a, b) = (k / n, k % n);
            deep(d - 2, &ws, leaf, 2, &mut |e| {
                let e = (ws[a].1)(0, (ws[b].1)(1, e));
                if let Some(c) = case(&e) {
                    out.push(c)
                }
            });
        } else if let Some(c) = case(&(ws[k].1)(0, leaf.clone())) {
            out.push(c)
        }
        out
    })
}

/// Every filling of the four slots of begin/rescue/else/ensure, in every surrounding loop or block.
fn slots(thorough: bool) -> impl Iterator<Item = Case> + Send {
    let l: Vec<Ex> = vec![
        t(1),
        Ex::Raise("EA"),
        Ex::Raise("EC"),
        Ex::Break(o(Ex::Int(2))),
        Ex::Next(o(Ex::Int(3))),
        Ex::Return(o(Ex::Int(4))),
        nth(2, Ex::Break(None)),
    ];
    let ens_l: Vec<Option<Ex>> = std::iter::once(None)
        .chain(l.iter().cloned().map(|e| Some(seq(vec![t(8), e]))))
        .chain(std::iter::once(Some(t(9))))
        .collect();
    let else_l: Vec<Option<Ex>> = std::iter::once(None)
        .chain(l.iter().take(if thorough { 7 } else { 5 }).cloned().map(Some))
        .collect();
    let kinds: Vec<(Vec<&'static str>, bool)> = vec![
        (vec!["-"], false),
        (vec![], true),
        (vec!["EA"], true),
        (vec!["EC", "EB"], false),
    ];
    let mut bs: Vec<Ex> = vec![];
    for body in &l {
        for (k, bind) in &kinds {
            let rl: Vec<Ex> = if k.first() == Some(&"-") { vec![Ex::Nil] } else { l.clone() };
            for r in rl {
                let rescues = if k.first() == Some(&"-") {
                    vec![]
                } else {
                    vec![resc(k, *bind, seq(vec![t(7), r]))]
                };
                for els in &else_l {
                    if els.is_some() && rescues.is_empty() {
                        continue;
                    }
                    for ens in &ens_l {
                        bs.push(begin(seq(vec![t(6), body.clone()]), rescues.clone(), els.clone(), ens.clone()));
                    }
                }
            }
        }
    }
    let nctx = if thorough { 9 } else { 6 };
    bs.into_iter().flat_map(move |b| {
        let mut v = vec![];
        for c in 0..nctx {
            let e = match c {
                0 => b.clone(),
                1 => Ex::While { until: false, k: 0, n: 2, body: bx(seq(vec![b.clone(), t(20)])) },
                2 => Ex::Iter(It::Each, bx(b.clone())),
                3 => Ex::Iter(It::YieldEnsure, bx(seq(vec![b.clone(), t(21)]))),
                4 => begin(
                    Ex::While { until: true, k: 0, n: 2, body: bx(b.clone()) },
                    vec![resc(&["EC"], true, t(22))],
                    None,
                    Some(t(23)),
                ),
                5 => Ex::Iter(
                    It::Map,
                    bx(begin(b.clone(), vec![resc(&["EA"], false, t(24))], None, Some(t(25)))),
                ),
                6 => Ex::Iter(It::YieldWhile, bx(b.clone())),
                7 => Ex::Iter(It::Pass, bx(Ex::Iter(It::For, bx(b.clone())))),
                _ => seq(vec![
                    Ex::Lambda(bx(b.clone())),
                    Ex::Call(bx(Ex::Iter(It::Loop(3), bx(b.clone())))),
                ]),
            };
            v.extend(case(&e));
        }
        v
    })
}

/// Which rescue clause takes which exception.
fn matching() -> Vec<Case> {
    let classes = [
        "EA", "EB", "EC", "EX", "StandardError", "Exception", "RuntimeError", "ArgumentError", "NameError",
        "TypeError", "ZeroDivisionError", "IndexError", "RangeError", "StopIteration",
    ];
    let mut v = vec![];
    let lists: Vec<Vec<&'static str>> = {
        let cs = ["EA", "EB", "EC", "EX", "StandardError", "Exception", "NameError", "IndexError"];
        let mut l: Vec<Vec<&'static str>> = vec![vec![]];
        for a in cs {
            l.push(vec![a]);
        }
        for (a, b) in [("EA", "EC"), ("EB", "TypeError"), ("EX", "StandardError"), ("ArgumentError", "RuntimeError")] {
            l.push(vec![a, b]);
        }
        l
    };
    for c in classes {
        for l1 in &lists {
            for l2 in std::iter::once(None).chain(lists.iter().map(Some)) {
                for form in 0..6 {
                    let mut rescues = vec![resc(l1, false, t(1))];
                    if let Some(l2) = l2 {
                        rescues.push(resc(l2, false, t(2)));
                    }
                    let e = begin(Ex::Raise(c), rescues, Some(t(3)), Some(t(4)));
                    let (code, obs) = match program(&e) {
                        Some(x) => x,
                        None => continue,
                    };
                    let raise = format!("raise({}, \"m\")", c);
                    let other = match form {
                        0 => raise.clone(),
                        1 => format!("raise {}", c),
                        2 => format!("raise {}.new(\"m\")", c),
                        3 => format!("x = {}.new; raise x", c),
                        4 => format!("[1].each {{ |q| raise {}, \"m\" }}", c),
                        _ => format!("def rZZ; raise {}, \"m\"; end; rZZ", c),
                    };
                    if form == 5 || form == 3 || l2.is_none() || form == 0 {
                        v.push(Case::f(code.replace(&raise, &other), obs));
                    }
                }
            }
        }
    }
    // class and message survive
    for c in classes {
        for (r, m) in [
            (format!("raise {}, \"msg\"", c), "msg".to_string()),
            (format!("raise {}.new(\"msg\")", c), "msg".to_string()),
            (format!("raise {}", c), c.to_string()),
            (format!("raise {}.new", c), c.to_string()),
        ] {
            for (pre, post) in [
                ("", ""),
                ("begin; ", "; ensure; 1; end"),
                ("begin; ", "; rescue EX, IndexError => q; raise q; end"),
                ("begin; ", "; rescue Exception => q; raise q; end"),
                ("begin; begin; ", "; ensure; [1].each { |x| begin; raise \"z\"; rescue; end }; end; ensure; (raise \"w\" rescue 2); end"),
                ("ye { ", " }"),
                ("[1].each { |x| yr { ", " } }"),
                ("lambda { ", " }.call"),
                ("Proc.new { ", " }.call"),
                ("1.times { 1.upto(1) { ", " } }"),
            ] {
                if pre.starts_with("[1].each { |x| yr") && (c == "EA" || c == "EB") {
                    continue;
                }
                let tr = if pre.starts_with("ye") {
                    "94 "
                } else if pre.contains("yr") {
                    "96 "
                } else {
                    ""
                };
                v.push(Case::f(
                    format!("begin; {}{}{}; rescue Exception => e; print e.class, \"/\", e.message; end; 0", pre, r, post),
                    format!("{}{}/{}0", tr, c, m),
                ));
            }
        }
    }
    v.push(Case::f("begin; raise \"text\"; rescue => e; print e.class, e.message; end; 0", "RuntimeErrortext0"));
    v.push(Case::f("begin; raise; rescue => e; print e.class; end; 0", "RuntimeError0"));
    v
}

/// Loops: number of iterations, condition kinds, modifiers, break/next at each iteration.
fn loops() -> Vec<Case> {
    let mut v = vec![];
    for n in 0..4i64 {
        for k in 1..=4i64 {
            for act in 0..5 {
                for form in 0..12 {
                    // trace: s collects iteration numbers before the action, e after it
                    let a = match act {
                        0 => format!("break if i == {}", k),
                        1 => format!("break i * 10 if i == {}", k),
                        2 => format!("next if i == {}", k),
                        3 => format!("return i * 100 if i == {}", k),
                        _ => format!("raise EA if i == {}", k),
                    };
                    let (code, post, fin): (String, bool, String) = match form {
                        0 => (format!("i = 0; x = while i < {n}; i += 1; print i; {a}; print '.'; end; x"), false, "nil".into()),
                        1 => (format!("i = 0; x = until i >= {n}; i += 1; print i; {a}; print '.'; end; x"), false, "nil".into()),
                        2 => (format!("i = 0; x = (begin; i += 1; print i; {a}; print '.'; end while i < {n}); x"), true, "nil".into()),
                        3 => (format!("i = 0; x = (begin; i += 1; print i; {a}; print '.'; end until i >= {n}); x"), true, "nil".into()),
                        4 => (format!("x = for i in 1..{n} do print i; {a}; print '.'; end; x"), false, format!("1..{n}")),
                        5 => (format!("x = (1..{n}).each {{ |i| print i; {a}; print '.' }}; x"), false, format!("1..{n}")),
                        6 => (format!("x = {n}.times {{ |i| i += 1; print i; {a}; print '.' }}; x"), false, format!("{n}")),
                        7 => (format!("x = 1.upto({n}) {{ |i| print i; {a}; print '.' }}; x"), false, "1".into()),
                        8 => (format!("i = 0; x = loop do i += 1; break :q if i > {n}; print i; {a}; print '.'; end; x"), false, ":q".into()),
                        9 => (format!("def yyZZ(n); i = 0; while i < n; i += 1; yield i; end; :z; end; x = yyZZ({n}) {{ |i| print i; {a}; print '.' }}; x"), false, ":z".into()),
                        10 => (format!("i = 0; x = while true; break :q unless i < {n}; i += 1; print i; {a}; print '.'; end; x"), false, ":q".into()),
                        _ => (format!("i = 0; print i, {}; i += 1; i", "(x = while i < 0 do end)"), true, "1".into()),
                    };
                    if form == 11 {
                        v.push(Case::f("i = 5; i += 1 while i < 8; i -= 1 until i < 3; i", "2"));
                        continue;
                    }
                    let mut out = String::new();
                    let m = if post { n.max(1) } else { n };
                    let mut end: Option<String> = None;
                    for i in 1..=m {
                        out.push_str(&i.to_string());
                        if i == k {
                            match act {
                                0 => end = Some("nil".into()),
                                1 => end = Some((i * 10).to_string()),
                                2 => continue,
                                3 => end = Some((i * 100).to_string()),
                                _ => end = Some("!EA".into()),
                            }
                        }
                        if end.is_some() {
                            break;
                        }
                        out.push('.');
                    }
                    v.push(Case::f(code, format!("{}{}", out, end.unwrap_or(fin))));
                }
            }
        }
    }
    // nested loops of every pair of kinds: an inner exit does not touch the outer loop
    let kinds: Vec<(&str, &str)> = vec![
        ("I = 0; while I < 3; I += 1; ", "; end"),
        ("I = 0; until I == 3; I += 1; ", "; end"),
        ("for I in 1..3 do ", "; end"),
        ("[1, 2, 3].each { |I| ", " }"),
        ("3.times { |I| I += 1; ", " }"),
        ("1.upto(3) { |I| ", " }"),
        ("I = 0; loop { I += 1; break if I > 3; ", " }"),
        ("y3ZZ { |I| ", " }"),
        ("I = 0; begin; I += 1; ", "; end while I < 3"),
    ];
    for (o1, o2) in &kinds {
        for (i1, i2) in &kinds {
            for (outer_act, inner_act) in [("break", "next"), ("next", "break"), ("break", "break"), ("next", "next")] {
                for (ko, ki) in [(1, 2), (2, 1), (2, 2), (3, 3)] {
                    let code = format!(
                        "def y3ZZ; yield 1; yield 2; yield 3; end; {}{} if a == {ko}; {}{} if b == {ki}; print a, b, ' '{}; print '|'{}; 0",
                        o1.replace('I', "a"),
                        outer_act,
                        i1.replace('I', "b"),
                        inner_act,
                        i2.replace('I', "b"),
                        o2.replace('I', "a"),
                    );
                    let mut out = String::new();
                    'o: for a in 1..=3 {
                        if a == ko {
                            if outer_act == "break" {
                                break 'o;
                            }
                            continue;
                        }
                        for b in 1..=3 {
                            if b == ki {
                                if inner_act == "break" {
                                    break;
                                }
                                continue;
                            }
                            out.push_str(&format!("{}{} ", a, b));
                        }
                        out.push('|');
                    }
                    v.push(Case::f(code, format!("{}0", out)));
                }
            }
        }
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let all = std::sync::Arc::new(wrappers(true));
    let few = std::sync::Arc::new(wrappers(false));
    let th = ctx.thorough;
    ctx.section("rescue clause selection, class and message");
    Runner::new(ctx).prelude(PRELUDE).run(matching().into_iter());
    ctx.section("loops: every kind x exit x iteration, nested pairs");
    Runner::new(ctx).prelude(PRELUDE).run(loops().into_iter());
    ctx.section("chains of 1 and 2 constructs around every exit");
    Runner::new(ctx).prelude(PRELUDE).run(chains(1, all.clone(), leaves()));
    Runner::new(ctx).prelude(PRELUDE).run(chains(2, all.clone(), leaves()));
    ctx.section("slots of begin/rescue/else/ensure");
    Runner::new(ctx).prelude(PRELUDE).run(slots(th));
    ctx.section("chains of 3 constructs around every exit");
    Runner::new(ctx).prelude(PRELUDE).run(chains(3, if th { all.clone() } else { few.clone() }, leaves()));
    if th {
        ctx.section("chains of 4 constructs around the main exits");
        let l = leaves();
        let ls = vec![l[1].clone(), l[5].clone(), l[8].clone(), l[11].clone()];
        Runner::new(ctx).prelude(PRELUDE).run(chains(4, few, ls));
    }
    ctx.bound("chain depth", if th { 4 } else { 3 });
    ctx.bound("exits", leaves().len());
    ctx.bound("enclosing constructs", all.len());
}
