//! C06: arguments bind to parameters as declared, or the call is rejected.
//! The full product of parameter lists and argument lists, for methods, send, Method#call, lambdas, procs, yield and super.
use crate::case::{Case, Runner};
use crate::report::Ctx;

#[derive(Clone, Copy, PartialEq)]
enum Rest {
    No,
    Named,
    Anon,
}

#[derive(Clone)]
struct Params {
    req: usize,
    opt: usize,
    rest: Rest,
    post: usize,
    k: bool,
    l: bool,
    kwrest: bool,
    block: bool,
}

const REQ: [&str; 3] = ["a", "b", "e"];
const OPT: [&str; 2] = ["c", "d"];
const POST: [&str; 2] = ["y", "z"];

impl Params {
    fn has_kw(&self) -> bool {
        self.k || self.l || self.kwrest
    }
    /// A method with required parameters only silently drops surplus keywords (the existing tests rely on it).
    fn ignores_kw(&self, a: &Args) -> bool {
        !self.has_kw() && !self.block && self.opt == 0 && self.rest == Rest::No && self.post == 0 && !a.kw.is_empty() && a.pos.len() == self.req
    }
    fn text(&self) -> String {
        let mut v: Vec<String> = vec![];
        for i in 0..self.req {
            v.push(REQ[i].into());
        }
        for i in 0..self.opt {
            v.push(match i {
                0 => "c = (u = w(\"c\", 50))".into(),
                _ => "d = w(\"d\", [c])".into(),
            });
        }
        match self.rest {
            Rest::No => {}
            Rest::Named => v.push("*r".into()),
            Rest::Anon => v.push("*".into()),
        }
        for i in 0..self.post {
            v.push(POST[i].into());
        }
        if self.k {
            v.push("k:".into());
        }
        if self.l {
            v.push("l: w(\"l\", 60)".into());
        }
        if self.kwrest {
            v.push("**o".into());
        }
        if self.block {
            v.push("&bl".into());
        }
        v.join(", ")
    }
    fn body(&self) -> String {
        let mut v: Vec<String> = vec![];
        for i in 0..self.req {
            v.push(REQ[i].into());
        }
        for i in 0..self.opt {
            v.push(OPT[i].into());
        }
        if self.rest == Rest::Named {
            v.push("r".into());
        }
        for i in 0..self.post {
            v.push(POST[i].into());
        }
        if self.k {
            v.push("k".into());
        }
        if self.l {
            v.push("l".into());
        }
        if self.kwrest {
            v.push("o".into());
        }
        if self.block {
            v.push("(bl ? bl.call(3) : nil)".into());
        }
        format!("[{}]", v.join(", "))
    }
}

/// A positional value: an integer or an array of integers
#[derive(Clone, PartialEq)]
enum P {
    I(i64),
    A(Vec<i64>),
    H(String),
}
impl P {
    fn s(&self) -> String {
        match self {
            P::I(i) => i.to_string(),
            P::A(v) => format!("{:?}", v),
            P::H(s) => s.clone(),
        }
    }
}

#[derive(Clone)]
struct Args {
    text: String,
    pos: Vec<P>,
    /// (inspect of the key, is it a symbol, value)
    kw: Vec<(String, bool, String)>,
}

fn hash(kw: &[(String, bool, String)]) -> String {
    if kw.is_empty() {
        return "{}".into();
    }
    format!(
        "{{{}}}",
        kw.iter().map(|(k, _, v)| format!("{}=>{}", k, v)).collect::<Vec<_>>().join(", ")
    )
}

/// Some(printed text, value) or None for ArgumentError
fn bind(p: &Params, a: &Args, strict: bool, block: Option<&str>) -> Option<String> {
    let mut pos = a.pos.clone();
    let mut kw = a.kw.clone();
    if !p.has_kw() && !kw.is_empty() {
        pos.push(P::H(hash(&kw)));
        kw.clear();
    }
    let min = p.req + p.post;
    if strict {
        if pos.len() < min || (p.rest == Rest::No && pos.len() > min + p.opt) {
            return None;
        }
    } else {
        let multi = p.req + p.opt + p.post > 1 || (p.req + p.opt + p.post == 1 && p.rest != Rest::No);
        if pos.len() == 1 && multi {
            if let P::A(v) = pos[0].clone() {
                pos = v.into_iter().map(P::I).collect();
            }
        }
        while pos.len() < min {
            pos.push(P::H("nil".into()));
        }
        if p.rest == Rest::No {
            // surplus arguments are dropped from the right
            pos.truncate(min + p.opt);
        }
    }
    let mut out = String::new();
    let mut v: Vec<String> = vec![];
    let n_opt = p.opt.min(pos.len() - min);
    let n_rest = pos.len() - min - n_opt;
    let mut i = 0;
    for _ in 0..p.req {
        v.push(pos[i].s());
        i += 1;
    }
    let mut o = vec![];
    for k in 0..p.opt {
        if k < n_opt {
            o.push(pos[i].s());
            i += 1;
        } else {
            out += OPT[k];
            let d = if k == 0 { "50".to_string() } else { format!("[{}]", o[0]) };
            o.push(d);
        }
    }
    v.extend(o);
    let r: Vec<String> = (0..n_rest).map(|k| pos[i + k].s()).collect();
    i += n_rest;
    if p.rest == Rest::Named {
        v.push(format!("[{}]", r.join(", ")));
    }
    for _ in 0..p.post {
        v.push(pos[i].s());
        i += 1;
    }
    if p.has_kw() {
        let mut take = |name: &str| {
            kw.iter().position(|x| x.0 == name).map(|n| kw.remove(n).2)
        };
        if p.k {
            v.push(take(":k")?);
        }
        if p.l {
            v.push(match take(":l") {
                Some(x) => x,
                None => {
                    out += "l";
                    "60".into()
                }
            });
        }
        if p.kwrest {
            v.push(hash(&kw));
        } else if !kw.is_empty() {
            return None;
        }
    }
    if p.block {
        v.push(block.unwrap_or("nil").to_string());
    }
    Some(format!("{}[{}]", out, v.join(", ")))
}

fn arg_lists(thorough: bool) -> Vec<Args> {
    let i = |v: &[i64]| v.iter().map(|x| P::I(*x)).collect::<Vec<_>>();
    let mut pos: Vec<(String, Vec<P>)> = vec![];
    for n in 0..=5i64 {
        let v: Vec<i64> = (1..=n).collect();
        pos.push((v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "), i(&v)));
    }
    for (t, v) in [
        ("*[]", vec![]),
        ("*[1]", vec![1]),
        ("1, *[2, 3]", vec![1, 2, 3]),
        ("*[1, 2], 3", vec![1, 2, 3]),
        ("*[1], *[], *[2]", vec![1, 2]),
        ("*nil", vec![]),
        ("1, *nil, 2", vec![1, 2]),
        ("*(1..2)", vec![1, 2]),
        ("*5, 6", vec![5, 6]),
        ("*[1, 2, 3, 4], 5", vec![1, 2, 3, 4, 5]),
    ] {
        pos.push((t.into(), i(&v)));
    }
    let mut kw: Vec<(&str, Vec<(&str, bool, &str)>)> = vec![
        ("", vec![]),
        ("k: 101", vec![(":k", true, "101")]),
        ("l: 102", vec![(":l", true, "102")]),
        ("k: 101, l: 102", vec![(":k", true, "101"), (":l", true, "102")]),
        ("m: 103, k: 101", vec![(":m", true, "103"), (":k", true, "101")]),
        ("**{}", vec![]),
        ("l: 104, **{k: 101, l: 102}", vec![(":l", true, "102"), (":k", true, "101")]),
    ];
    if thorough {
        kw.extend(vec![
            ("**{k: 101}", vec![(":k", true, "101")]),
            ("m: 103", vec![(":m", true, "103")]),
            ("**{l: 102}, **{k: 101}", vec![(":l", true, "102"), (":k", true, "101")]),
            ("k: 101, **{\"s\" => 105}", vec![(":k", true, "101"), ("\"s\"", false, "105")]),
        ]);
    }
    let mut res = vec![];
    for (pt, pv) in &pos {
        for (kt, kv) in &kw {
            let text = match (pt.is_empty(), kt.is_empty()) {
                (true, _) => kt.to_string(),
                (_, true) => pt.clone(),
                _ => format!("{}, {}", pt, kt),
            };
            res.push(Args {
                text,
                pos: pv.clone(),
                kw: kv.iter().map(|(a, b, c)| (a.to_string(), *b, c.to_string())).collect(),
            });
        }
    }
    // a Hash in braces is an ordinary argument
    for (t, v) in [
        ("{k: 101}", vec![P::H("{:k=>101}".into())]),
        ("1, {k: 101}", vec![P::I(1), P::H("{:k=>101}".into())]),
    ] {
        res.push(Args { text: t.into(), pos: v, kw: vec![] });
    }
    res
}

fn array_args() -> Vec<Args> {
    let mut res = vec![];
    for (t, v) in [
        ("[]", vec![P::A(vec![])]),
        ("[1]", vec![P::A(vec![1])]),
        ("[1, 2]", vec![P::A(vec![1, 2])]),
        ("[1, 2, 3]", vec![P::A(vec![1, 2, 3])]),
        ("[1, 2, 3, 4]", vec![P::A(vec![1, 2, 3, 4])]),
        ("[1, 2, 3, 4, 5, 6]", vec![P::A(vec![1, 2, 3, 4, 5, 6])]),
        ("[1, 2], 3", vec![P::A(vec![1, 2]), P::I(3)]),
        ("3, [1, 2]", vec![P::I(3), P::A(vec![1, 2])]),
        ("*[[1, 2]]", vec![P::A(vec![1, 2])]),
    ] {
        res.push(Args { text: t.into(), pos: v, kw: vec![] });
    }
    res
}

fn param_lists() -> Vec<Params> {
    let mut v = vec![];
    for req in 0..=2 {
        for opt in 0..=2 {
            for rest in [Rest::No, Rest::Named, Rest::Anon] {
                for post in 0..=2 {
                    if post > 0 && opt == 0 && rest == Rest::No {
                        continue;
                    }
                    for kw in 0..8 {
                        v.push(Params {
                            req,
                            opt,
                            rest,
                            post,
                            k: kw & 1 != 0,
                            l: kw & 2 != 0,
                            kwrest: kw & 4 != 0,
                            block: false,
                        });
                    }
                }
            }
        }
    }
    v
}

const PRELUDE: &str = r#"
def w(n, v); print n; v; end
def t
  begin
    v = yield
    print v.inspect
  rescue ArgumentError
    print "!A"
  rescue => e
    print "!", e.class
  end
  print ";"
end
"#;

fn case(p: &Params, a: &Args, full: bool) -> Case {
    let (pt, b, at) = (p.text(), p.body(), &a.text);
    let show = |x: Option<String>| format!("{};", x.unwrap_or("!A".into()));
    let strict = show(bind(p, a, true, None));
    let loose = show(bind(p, a, false, None));
    let mut code = format!("def fZZ({pt}); {b}; end\nt {{ fZZ({at}) }}\n");
    let mut exp = strict.clone();
    let mut add = |c: String, e: &str| {
        code += &c;
        exp += e;
    };
    add(format!("x = ->({pt}) {{ {b} }}\nt {{ x.call({at}) }}\n"), &strict);
    add(format!("y = proc {{ |{pt}| {b} }}\nt {{ y.call({at}) }}\n"), &loose);
    add(format!("def gZZ; yield({at}); end\nt {{ gZZ {{ |{pt}| {b} }} }}\n"), &loose);
    if full {
        add(format!("t {{ send(:fZZ, {at}) }}\n").replace(", )", ")"), &strict);
        add(format!("t {{ method(:fZZ).call({at}) }}\n"), &strict);
        add(format!("x = lambda {{ |{pt}| {b} }}\nt {{ x.({at}) }}\n"), &strict);
        add(
            format!("class XZZ; def m({pt}); {b}; end; end\nclass YZZ; def initialize({pt}); @v = {b}; end; attr_reader :v; end\nclass WZZ < XZZ; def m; super({at}); end; end\nt {{ XZZ.new.m({at}) }}\nt {{ WZZ.new.m }}\nt {{ YZZ.new({at}).v }}\n"),
            &strict.repeat(3),
        );
    }
    Case::top(code, exp).key(format!("({pt}) <- ({at}){}", if full { " full" } else { "" }))
}

pub fn run(ctx: &mut Ctx) {
    let params = param_lists();
    let args = arg_lists(ctx.thorough);
    let arrays = array_args();
    let thorough = ctx.thorough;
    ctx.bound("parameter lists", params.len());
    ctx.bound("argument lists", args.len() + arrays.len());
    ctx.bound("callables", "method, lambda, proc, yield; full: send, Method#call, lambda literal forms, method of a class, super, initialize");
    let mut cases: Vec<Case> = vec![];
    for p in &params {
        for a in args.iter().filter(|a| !p.ignores_kw(a)) {
            cases.push(case(p, a, thorough));
        }
        if !p.has_kw() && !(p.req + p.post == 0 && p.opt == 1) {
            for a in &arrays {
                cases.push(case(p, a, thorough));
            }
        }
    }
    if !thorough {
        // every callable for the shorter lists
        let short: Vec<&Params> = params.iter().filter(|p| p.req + p.opt + p.post <= 2).collect();
        for p in short {
            for a in args.iter().filter(|a| a.pos.len() <= 3 && !p.ignores_kw(a)) {
                cases.push(case(p, a, true));
            }
        }
    }
    // block arguments
    for p in params.iter().filter(|p| p.post == 0 && p.rest != Rest::Anon) {
        let mut p = p.clone();
        p.block = true;
        for a in args.iter().filter(|a| a.pos.len() <= 3) {
            let (pt, b, at) = (p.text(), p.body(), &a.text);
            let sep = if at.is_empty() { "" } else { ", " };
            let s = |blk| format!("{};", bind(&p, a, true, blk).unwrap_or("!A".into()));
            let code = format!(
                "def fZZ({pt}); {b}; end\nt {{ fZZ({at}) }}\nt {{ fZZ({at}) {{ |q| q + 1 }} }}\nq = proc {{ |v| v + 2 }}\nt {{ fZZ({at}{sep}&q) }}\nt {{ fZZ({at}{sep}&nil) }}\nt {{ fZZ({at}{sep}&:to_s) }}\nx = ->({pt}) {{ {b} }}\nt {{ x.call({at}) {{ |v| v * 3 }} }}\nt {{ x.call({at}{sep}&q) }}"
            );
            let exp = [s(None), s(Some("4")), s(Some("5")), s(None), s(Some("\"3\"")), s(Some("9")), s(Some("5"))].concat();
            cases.push(Case::top(code, exp).key(format!("({pt}) <- ({at}) with blocks")));
        }
    }
    ctx.states += cases.len() as u64;
    ctx.section("parameter lists x argument lists x callables");
    Runner::new(ctx).prelude(PRELUDE).batch(100).run(cases.into_iter());
}
