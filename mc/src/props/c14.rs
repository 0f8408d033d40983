//! C14: grouping by precedence and associativity; layout and equivalent forms do not change the meaning.
use crate::case::{Case, Runner};
use crate::report::Ctx;

const PRELUDE: &str = r##"
class Regexp
  def inspect; "/a/"; end
end
class T
  def initialize(s); @s = s; end
  def inspect; @s; end
  def to_s; @s; end
OPS
  def method_missing(n, *a)
    if a.length == 0
      n == :-@ || n == :~ ? T.new("(#{n == :~ ? '~' : '-'}#{@s})") : T.new("#{@s}.#{n}")
    else
      T.new("(#{@s}#{n}#{a[0].inspect})")
    end
  end
  def q(*x, &y); T.new("#{@s}.q(#{x.map { |i| i.inspect }.join(',')})" + (y ? "{#{y.call(1).inspect}}" : "")); end
  def w=(x); $last = "#{@s}.w=#{x.inspect}"; end
  def []=(i, x); $last = "#{@s}[#{i.inspect}]=#{x.inspect}"; end
  def [](i); T.new("#{@s}[#{i.inspect}]"); end
end
class O
  attr_reader :a, :b, :c, :d, :e
  def initialize; @a = $a; @b = $b; @c = $c; @d = $d; @e = $e; end
end
$a = T.new("a"); $b = T.new("b"); $c = T.new("c"); $d = T.new("d"); $e = T.new("e")
KA = $a; KB = $b; KC = $c; KD = $d; KE = $e
$o = O.new
$h = {a: $a, b: $b, c: $c, d: $d, e: $e}
def ma; $a end
def mb; $b end
def mc; $c end
def md; $d end
def me; $e end
def m(x) $h[x] end
def w; yield end
def f(*a, &b) T.new("f(#{a.map { |x| x.inspect }.join(',')})" + (b ? "{#{b.call(1).inspect}}" : "")) end
def g(*a, &b) T.new("g(#{a.map { |x| x.inspect }.join(',')})" + (b ? "{#{b.call(1).inspect}}" : "")) end
def n; $a end
def kw(x = 0, k: 0, j: 0) [x, k, j] end
class S1; def s(*a) T.new("s(#{a.map { |x| x.inspect }.join(',')})") end; end
def id(x = nil) x end
def l(i) $log << i; $mask[i] == 1 ? i : nil end
"##;

const BINS: &[(&str, i32)] = &[
    ("**", 18), ("*", 16), ("/", 16), ("%", 16), ("+", 15), ("-", 15), ("<<", 14), (">>", 14), ("&", 13), ("|", 12), ("^", 12), ("<", 11), ("<=", 11), (">", 11), (">=", 11), ("<=>", 10), ("==", 10), ("===", 10), ("!=", 10), ("=~", 10),
    ("&&", 9), ("||", 8), ("..", 7), ("...", 7), ("and", 3), ("or", 3),
];
fn prec(op: &str) -> i32 {
    BINS.iter().find(|o| o.0 == op).unwrap().1
}

#[derive(Clone, Debug)]
enum N {
    L,
    Bin(&'static str, Box<N>, Box<N>),
    Un(&'static str, Box<N>),
    Tern(Box<N>, Box<N>, Box<N>),
    /// operator ("" for plain assignment), right side
    Asg(&'static str, Box<N>),
    /// suffix
    Post(&'static str, Box<N>),
}
use N::*;

#[derive(Clone, Debug, PartialEq)]
enum W {
    T(String),
    I(usize),
    B(bool),
    Nil,
    R(String),
}
impl W {
    fn s(&self) -> String {
        match self {
            W::T(s) | W::R(s) => s.clone(),
            W::I(i) => i.to_string(),
            W::B(b) => b.to_string(),
            W::Nil => "nil".into(),
        }
    }
    fn truthy(&self) -> bool {
        !matches!(self, W::Nil | W::B(false))
    }
}

/// the operator nodes available to a tree
#[derive(Clone, Copy)]
enum K {
    B(&'static str),
    U(&'static str),
    Q,
    A(&'static str),
    P(&'static str),
}

fn trees(n: usize, ks: &[K]) -> Vec<N> {
    if n == 0 {
        return vec![L];
    }
    let mut r = vec![];
    for k in ks {
        match k {
            K::U(o) => r.extend(trees(n - 1, ks).into_iter().map(|x| Un(o, Box::new(x)))),
            K::A(o) => r.extend(trees(n - 1, ks).into_iter().map(|x| Asg(o, Box::new(x)))),
            K::P(o) => r.extend(trees(n - 1, ks).into_iter().map(|x| Post(o, Box::new(x)))),
            K::B(o) => {
                for i in 0..n {
                    let rs = trees(n - 1 - i, ks);
                    for l in trees(i, ks) {
                        for x in &rs {
                            r.push(Bin(o, Box::new(l.clone()), Box::new(x.clone())));
                        }
                    }
                }
            }
            K::Q => {
                for i in 0..n {
                    for j in 0..n - i {
                        for a in trees(i, ks) {
                            for b in trees(j, ks) {
                                for c in trees(n - 1 - i - j, ks) {
                                    r.push(Tern(Box::new(a.clone()), Box::new(b.clone()), Box::new(c)));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    r
}

struct Ev<'a> {
    leaf: usize,
    asg: usize,
    /// mask of truthy leaves in logical mode
    mask: Option<u32>,
    log: Vec<usize>,
    vars: &'a mut [W; 5],
}
fn count(n: &N, leaf: &mut usize, asg: &mut usize) {
    match n {
        L => *leaf += 1,
        Bin(_, a, b) => {
            count(a, leaf, asg);
            count(b, leaf, asg);
        }
        Un(_, a) | Post(_, a) => count(a, leaf, asg),
        Tern(a, b, c) => {
            count(a, leaf, asg);
            count(b, leaf, asg);
            count(c, leaf, asg);
        }
        Asg(_, a) => {
            *asg += 1;
            count(a, leaf, asg)
        }
    }
}
impl Ev<'_> {
    fn skip(&mut self, n: &N) {
        count(n, &mut self.leaf, &mut self.asg);
    }
    fn ev(&mut self, n: &N) -> Option<W> {
        Some(match n {
            L => {
                let i = self.leaf;
                self.leaf += 1;
                match self.mask {
                    Some(m) => {
                        self.log.push(i);
                        if m >> i & 1 == 1 {
                            W::I(i)
                        } else {
                            W::Nil
                        }
                    }
                    None => W::T(["a", "b", "c", "d", "e"].get(i)?.to_string()),
                }
            }
            Bin(o, a, b) => {
                let x = self.ev(a)?;
                match *o {
                    "&&" | "||" | "and" | "or" => {
                        if matches!(x, W::R(_)) {
                            return None; // a range as a condition
                        }
                        if x.truthy() == (*o == "&&" || *o == "and") {
                            self.ev(b)?
                        } else {
                            self.skip(b);
                            x
                        }
                    }
                    _ => {
                        let y = self.ev(b)?;
                        if self.mask.is_some() {
                            return match *o {
                                "==" => Some(W::B(x == y)),
                                "!=" => Some(W::B(x != y)),
                                _ => None,
                            };
                        }
                        match (*o, x, y) {
                            (".." | "...", W::T(x), W::T(y)) => W::R(format!("{x}{o}{y}")),
                            (".." | "...", ..) => return None,
                            ("!=", W::T(_), _) => W::B(false),
                            (_, W::T(x), y) => W::T(format!("({x}{o}{})", y.s())),
                            _ => return None,
                        }
                    }
                }
            }
            Un(o, a) => {
                let x = self.ev(a)?;
                match (*o, x) {
                    (_, W::R(_)) => return None,
                    ("!", x) => W::B(!x.truthy()),
                    (_, W::T(x)) => W::T(format!("({o}{x})")),
                    _ => return None,
                }
            }
            Post(o, a) => match self.ev(a)? {
                W::T(x) => W::T(match *o {
                    "[7]" => format!("{x}[7]"),
                    o => format!("{x}{o}"),
                }),
                _ => return None,
            },
            Tern(a, b, c) => {
                let x = self.ev(a)?;
                if matches!(x, W::R(_)) {
                    return None;
                }
                if x.truthy() {
                    let v = self.ev(b)?;
                    self.skip(c);
                    v
                } else {
                    self.skip(b);
                    self.ev(c)?
                }
            }
            Asg(o, a) => {
                let k = self.asg;
                self.asg += 1;
                let old = self.vars[k].clone();
                let v = match *o {
                    "" => self.ev(a)?,
                    "||" | "&&" => {
                        if old.truthy() == (*o == "&&") {
                            self.ev(a)?
                        } else {
                            self.skip(a);
                            old
                        }
                    }
                    _ => match (old, self.ev(a)?) {
                        (W::T(x), y) => W::T(format!("({x}{o}{})", y.s())),
                        _ => return None,
                    },
                };
                self.vars[k] = v.clone();
                v
            }
        })
    }
}

#[derive(Clone, Debug)]
enum Tok {
    Atom(String),
    Op(&'static str),
    Pre(&'static str),
    Q,
    Colon,
    As(String, &'static str),
    Open,
    Close,
    Post(&'static str),
}

struct Pr<'a> {
    leaf: usize,
    asg: usize,
    full: bool,
    spell: &'a dyn Fn(usize) -> String,
}
struct Out(Vec<Tok>, i32, i32);
impl Pr<'_> {
    fn par(&self, o: Out) -> Vec<Tok> {
        let mut v = vec![Tok::Open];
        v.extend(o.0);
        v.push(Tok::Close);
        v
    }
    /// operand on the left (something follows it): both it and its right edge must bind tighter
    fn left(&mut self, n: &N, min: i32) -> Vec<Tok> {
        let o = self.p(n);
        if o.1 < min || o.2 < min || self.full && !matches!(n, L) {
            self.par(o)
        } else {
            o.0
        }
    }
    fn right(&mut self, n: &N, ok: impl Fn(&N, i32) -> bool) -> (Vec<Tok>, i32) {
        let o = self.p(n);
        if ok(n, o.1) && !(self.full && !matches!(n, L)) {
            (o.0, o.2)
        } else {
            (self.par(o), 20)
        }
    }
    fn p(&mut self, n: &N) -> Out {
        match n {
            L => {
                let i = self.leaf;
                self.leaf += 1;
                Out(vec![Tok::Atom((self.spell)(i))], 20, 20)
            }
            Bin(o, a, b) => {
                let p = prec(o);
                let nonassoc = p == 10 || p == 7;
                let mut v = self.left(a, if nonassoc || p == 18 { p + 1 } else { p });
                v.push(Tok::Op(o));
                let (r, e) = self.right(b, |n, q| {
                    q > p || (p == 18 && (q == 18 || matches!(n, Un("-", _)))) || (matches!(*o, "&&" | "||" | "and" | "or") && matches!(n, Asg(..)))
                });
                v.extend(r);
                Out(v, p, e.min(p))
            }
            Un(o, a) => {
                let p = if *o == "-" { 17 } else { 19 };
                let (r, e) = self.right(a, |_, q| q >= p);
                let mut v = vec![Tok::Pre(o)];
                v.extend(r);
                Out(v, p, e.min(p))
            }
            Post(o, a) => {
                let mut v = self.left(a, 20);
                v.push(Tok::Post(o));
                Out(v, 20, 20)
            }
            Tern(a, b, c) => {
                let mut v = self.left(a, 7);
                v.push(Tok::Q);
                v.extend(self.right(b, |_, q| q >= 5).0);
                v.push(Tok::Colon);
                let (r, e) = self.right(c, |_, q| q >= 5);
                v.extend(r);
                Out(v, 6, e.min(6))
            }
            Asg(o, a) => {
                let k = self.asg;
                self.asg += 1;
                let mut v = vec![Tok::As(format!("z{k}"), o)];
                let (r, e) = self.right(a, |_, q| q >= 5);
                v.extend(r);
                Out(v, 5, e.min(5))
            }
        }
    }
}

const STYLES: usize = 8;
fn join(ts: &[Tok], style: usize) -> String {
    let mut s = String::new();
    let after = match style {
        1 => "",
        2 | 7 => "\n",
        3 => " # x ( ' + \n  ",
        6 => " \t ",
        _ => " ",
    };
    let before = match style {
        1 => "",
        4 => " \\\n ",
        6 => "  ",
        _ => " ",
    };
    for t in ts {
        match t {
            Tok::Atom(a) => s.push_str(a),
            Tok::Op(o) => {
                let word = o.chars().all(|c| c.is_alphabetic());
                s.push_str(if word && before.is_empty() { " " } else { before });
                s.push_str(o);
                s.push_str(if word && after.is_empty() { " " } else { after });
            }
            Tok::Pre(o) => {
                // prefix operators written together could read as another token
                if s.ends_with(['-', '!', '~', '=', '<', '>', '&', '|', '*', '.', '%', '^', '+', '/']) {
                    s.push(' ');
                }
                s.push_str(o);
                if style == 6 {
                    s.push(' ');
                }
            }
            Tok::Q => {
                s.push_str(if before.is_empty() { " " } else { before });
                s.push('?');
                s.push_str(if after.is_empty() { " " } else { after });
            }
            Tok::Colon => {
                s.push_str(if before.is_empty() { " " } else { before });
                s.push(':');
                s.push_str(if after.is_empty() { " " } else { after });
            }
            Tok::As(v, o) => {
                s.push_str(&format!("{v}{}{o}={after}", if style == 1 { "" } else { " " }));
            }
            Tok::Open => {
                s.push('(');
                if style == 7 || style == 3 {
                    s.push_str(after);
                }
            }
            Tok::Close => {
                if style == 7 {
                    s.push('\n');
                }
                s.push(')');
            }
            Tok::Post(p) => {
                if style == 2 && p.starts_with('.') {
                    s.push('\n');
                }
                if style == 4 && p.starts_with('.') {
                    s.push_str("\n  # x\n  ");
                }
                s.push_str(p);
            }
        }
    }
    s
}

const SPELL: &[&str] = &["v", "@v", "$v", "KV", "mv", "m(:v)", "$o.v", "$h[:v]", "w { v }", "begin; v; end", "if true then v end", "(v)", "(0; v)", "->{ v }.()", "id(v)", "[v][0]", "case 1 when 1 then v end", "id v"];
fn spell(k: usize, i: usize) -> String {
    let l = ["a", "b", "c", "d", "e"][i];
    let s = SPELL[k];
    if s.contains("KV") {
        format!("K{}", l.to_uppercase())
    } else {
        s.replace("id(v", "id(\u{1}").replace('v', l).replace('\u{1}', l)
    }
}
const HEAD: &str = "a, b, c, d, e = $a, $b, $c, $d, $e; @a = a; @b = b; @c = c; @d = d; @e = e; z0 = T.new('z0'); z1 = T.new('z1'); z2 = T.new('z2'); z3 = T.new('z3'); z4 = T.new('z4')\n";

fn sym_case(n: &N, style: usize, sp: usize) -> Option<Case> {
    let (mut lv, mut k) = (0, 0);
    count(n, &mut lv, &mut k);
    if lv > 5 {
        return None;
    }
    let mut vars = [0, 1, 2, 3, 4].map(|i| W::T(format!("z{i}")));
    let v = Ev { leaf: 0, asg: 0, mask: None, log: vec![], vars: &mut vars }.ev(n)?;
    let f = |i| spell(sp, i);
    let o = Pr { leaf: 0, asg: 0, full: style == 5, spell: &f }.p(n);
    let text = join(&o.0, style);
    let zs: Vec<String> = (0..k).map(|i| format!("z{i}")).collect();
    let mut e = v.s();
    for i in 0..k {
        e.push(' ');
        e.push_str(&vars[i].s());
    }
    // nothing after the expression shares its line
    Some(Case::top(format!("def fZZ\n{HEAD}r = (\n{text}\n)\nprint r.inspect{}\nend\nfZZ", zs.iter().map(|z| format!(", ' ', {z}.inspect")).collect::<String>()), e).key(text))
}

fn log_case(n: &N, style: usize, form: usize) -> Option<Case> {
    let (mut lv, mut k) = (0, 0);
    count(n, &mut lv, &mut k);
    let f = |i| format!("l({i})");
    let o = Pr { leaf: 0, asg: 0, full: style == 5, spell: &f }.p(n);
    if form == 4 && o.1 < 5 {
        return None;
    }
    let text = join(&o.0, style);
    let mut e = String::new();
    let mut code = String::from("def fZZ\nz0 = z1 = z2 = z3 = z4 = nil\n");
    match form {
        0 => code.push_str(&format!("r = (\n{text}\n)\nprint r.inspect, $log.inspect\n")),
        1 => code.push_str(&format!("if {text}\nprint 't'\nelse\nprint 'f'\nend\nprint $log.inspect\n")),
        2 => code.push_str(&format!("print 'f' unless {text}\nprint $log.inspect\n")),
        3 => code.push_str(&format!("print 't' while (print 'w'\n$log.length < 7) && ({text}) && false\nprint $log.inspect\n")),
        4 => code.push_str(&format!("r = id({text})\nprint r.inspect, $log.inspect\n")),
        _ => code.push_str(&format!("{text}\nprint $log.inspect\n")),
    }
    code.push_str("end\n");
    for m in 0..1u32 << lv {
        let mut vars = [W::Nil, W::Nil, W::Nil, W::Nil, W::Nil];
        let mut ev = Ev { leaf: 0, asg: 0, mask: Some(m), log: vec![], vars: &mut vars };
        let v = ev.ev(n)?;
        let bits: Vec<String> = (0..lv).map(|i| (m >> i & 1).to_string()).collect();
        code.push_str(&format!("$log = []; $mask = [{}]; fZZ; print ' '\n", bits.join(", ")));
        let log = format!("[{}]", ev.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
        match form {
            0 | 4 => e.push_str(&v.s()),
            1 => e.push(if v.truthy() { 't' } else { 'f' }),
            2 => e.push_str(if v.truthy() { "" } else { "f" }),
            3 => e.push('w'),
            _ => {}
        }
        e.push_str(&log);
        e.push(' ');
    }
    Some(Case::top(code, e).key(format!("logic {form}: {text}")))
}

/// groups of equivalent texts: (what they print, texts); XX, YY stand for argument expressions
const GROUPS: &[(&str, &[&str])] = &[
    ("f(XX)", &[
        "f(XX)", "f XX", "f( XX )", "f(\nXX\n)", "f(XX,)", "f (XX)", "self.f(XX)", "self.f XX", "f(*[XX])", "f *[XX]", "send(:f, XX)", "send :f, XX", "z = f XX\nz", "z = f(XX)\nz", "(f XX)", "begin; f XX; end", "begin\nf XX\nend", "f(XX) if true",
        "f XX if true", "f XX unless false", "true && f(XX)", "true and f XX", "false or f XX", "false || f(XX)", "return f XX", "return f(XX)", "return(f(XX))", "[f(XX)][0]", "w { f XX }", "w do f XX end", "w do\nf XX\nend", "w {\nf XX\n}", "w{f XX}",
        "->{ f XX }.call", "lambda { f XX }.call", "(lambda do f XX end).call", "if true then f XX end", "if true\nf XX\nend", "if true; f XX; end", "if true then\nf XX\nend", "if false then 1 else f XX end", "if false\n1\nelse\nf XX\nend", "if false; 1; elsif true; f XX; end",
        "unless false then f XX end", "unless true\n1\nelse\nf XX\nend", "case 1 when 1 then f XX end", "case 1\nwhen 1\nf XX\nend", "case 1\nwhen 2 then 3\nelse f XX\nend", "case; when true; f XX; end", "while true do break f XX end", "while true\nbreak f(XX)\nend",
        "until false do break f(XX) end", "begin f XX rescue 1 end", "begin\nf XX\nensure\n1\nend", "begin; raise; rescue; f XX; end", "(raise '' rescue 1; f XX)", "f(XX) # comment ' \" (", "f XX # comment", "f XX;", ";f XX", "# c\nf XX", "\n\nf XX\n\n", "f \\\n XX",
        "z = nil\nfor i in [1] do z = f XX end; z", "z = nil\nfor i in [1]\nz = f XX\nend\nz", "false ? 1 : f(XX)", "true ? f(XX) : 1", "z ||= f(XX)", "z = nil; z ||= f XX", "z, y = f(XX), 1; z", "y, z = 1, f(XX); z", "z = y = f XX; z", "z = y = f(XX)",
        "z = (f XX); z", "z = if true then f XX end; z", "z = begin; f XX; end; z", "z = case 1 when 1 then f XX end; z", "z = while true do break f(XX) end; z", "z = true && f(XX)", "z = (w do f XX end); z", "z = w { f XX }; z", "z = w do f XX end\nz", "w { next f XX }", "[1].each { break f XX }", "[1].each do break f(XX) end", "loop do break f XX end", "loop { break f(XX) }", "m(:a); f XX", "f(XX)\t", "\tf\tXX", "self\n.f(XX)", "self.\nf(XX)", "self::f(XX)", "self&.f(XX)", "{k: f(XX)}[:k]", "{k: (f XX)}[:k]", "{:k => f(XX)}[:k]", "id(f(XX))", "id f(XX)", "id (f XX)", "id(f XX)", "id((f XX))",
        "def dmZZ; yield; end\ndmZZ { f XX }", "f(XX) and f XX", "nil or f XX", "i = 0\nz = f(XX) while (i += 1) < 3\nz", "i = 0\nbegin\nz = f XX\ni += 1\nend while i < 2\nz", "z = f XX if true\nz", "z = 1\nz = f XX unless z == 2\nz", "if !false then f XX end", "if (true) then (f XX) end", "if true and true then f XX end", "if true && (true || false)\nf XX\nend",
    ]),
    ("f(XX,YY)", &[
        "f(XX, YY)", "f XX, YY", "f XX,YY", "f XX,\nYY", "f(XX,\nYY)", "f(\nXX,\nYY\n)", "f(\n  XX, # c\n  YY, # d\n)", "f XX, # c\n YY", "f XX, *[YY]", "f *[XX], YY", "f(*[XX, YY])", "f *[XX, YY]", "f (XX), YY", "f (XX), (YY)", "send :f, XX, YY", "z = f XX, YY\nz", "z = f(XX, YY)\nz", "f XX, YY if true", "return f XX, YY", "return f(XX, YY)", "w { f XX, YY }", "w do f XX, YY end", "true and f XX, YY", "if true then f XX, YY end", "case 1 when 1 then f XX, YY end", "begin; f XX, YY; end", "f XX, YY # c", "f XX, YY;", "->(x, y) { f x, y }.call(XX, YY)", "->(x, y) { f x, y }.(XX, YY)", "->(x, y) do f(x, y) end[XX, YY]", "(f XX, YY)", "f(XX, \\\n YY)",
        "f XX \\\n , YY", "x, y = XX, YY\nf x, y", "x, y = XX, YY; f(x, y)", "x, y = [XX, YY]; f x, y", "x = XX; y = YY; f x, y", "x = XX\ny = YY\nf x, y", "x = XX\ny =\nYY\nf x, y", "@x = XX; $y = YY; f @x, $y", "f(x = XX, YY)", "f XX, y = YY", "x = [XX, YY]; f *x", "x = [\nXX,\nYY\n]; f(*x)", "x = [XX, YY,]\nf *x", "x = [XX,\nYY,\n]\nf *x", "x = {a: XX, b: YY}; f x[:a], x[:b]", "x = {\na: XX,\nb: YY,\n}\nf x[:a], x[:b]", "x = {:a => XX, :b => YY}; f x[:a], x[:b]", "x = {a:XX,b:YY}; f(x[:a], x[:b])", "x = {a: \nXX, b: \nYY}; f(x[:a], x[:b])",
    ]),
    ("f(XX){YY}", &[
        "f(XX) { YY }", "f(XX) do YY end", "f XX do YY end", "f XX do |q| YY end", "f XX do |q|\nYY\nend", "f(XX) { |q| YY }", "f(XX){|q|YY}", "f(XX) {\nYY\n}", "f(XX) {\n|q| YY\n}", "f(XX) do\nYY\nend", "f(XX, &->(q) { YY })", "f XX, &proc { YY }", "f XX, &proc { |q| YY }", "f(XX, &lambda { |q| YY })", "z = f XX do YY end\nz", "z = f(XX) { YY }\nz", "z = f(XX) do YY end\nz", "z = proc { YY }\nf(XX, &z)", "z = proc { YY }\nf XX, &z", "z = proc do YY end\nf XX, &z", "z = ->(q) do YY end\nf XX, &z", "z = ->q { YY }\nf XX, &z", "z = -> q { YY }\nf XX, &z", "z = -> (q) { YY }\nf XX, &z", "z = ->(q) {\nYY\n}\nf XX, &z", "self.f(XX) { YY }", "self.f XX do YY end", "f *[XX] do YY end", "f(*[XX]) { YY }", "f (XX) { YY }", "f (XX) do YY end", "(f(XX) { YY })", "(f XX do YY end)", "return f(XX) { YY }", "w { f(XX) { YY } }", "w do f(XX) do YY end end", "w { f XX do YY end }", "f(XX) { YY } if true", "f XX do YY end if true", "true and f XX do YY end", "f(XX) { # c\nYY # d\n}", "f XX do # c\nYY # d\nend",
        "f(XX) { next YY }", "f XX do next YY; 1 end", "f(XX) { |q| if true then YY end }", "f(XX) { 1; YY }", "f(XX) { 1\nYY }",
    ]),
    ("f(g(){YY})", &["f g { YY }", "f(g { YY })", "f(g() { YY })", "f g() { YY }", "f(g do YY end)", "f((g do YY end))", "f (g { YY })", "z = g { YY }; f z", "f g {\nYY\n}", "f g { |q| YY }"]),
    ("f(g()){YY}", &["f(g) { YY }", "f(g) do YY end", "f(g()) { YY }"]),
    ("f(a.q(){YY})", &["f a.q { YY }", "f(a.q { YY })", "f a.q() { YY }", "f(a.q do YY end)", "f (a.q { YY })"]),
    ("f(a.q()){YY}", &["f(a.q) { YY }", "f(a.q()) do YY end"]),
    ("f(XX,g(YY))", &["f XX, g(YY)", "f(XX, g(YY))", "f(XX, (g YY))", "f XX, (g YY)", "f(XX, g(YY),)", "f(*[XX, g(YY)])"]),
    ("f(XX).q(YY)", &["f(XX).q(YY)", "f(XX)\n.q(YY)", "f(XX).\nq(YY)", "f(XX)&.q(YY)", "f(XX)::q(YY)", "f(XX)  .q YY", "(f XX).q YY", "f(XX)\n  # c\n  .q(YY)", "f(XX).q YY", "f(XX).q(\nYY\n)", "z = f(XX)\nz.q(YY)", "z = f XX\nz.q YY", "(f XX)\n\t.q YY", "f(XX).send(:q, YY)", "f(XX)\n&.q(YY)", "f(XX) . q(YY)", "[f(XX)].map { |x| x.q YY }[0]", "f(XX).q(YY) if true", "begin f(XX) end.q(YY)", "begin\nf XX\nend.q(YY)", "if true then f XX end.q(YY)", "case 1 when 1 then f XX end.q YY", "w { f XX }.q(YY)", "(w do f XX end).q(YY)", "w do f XX end.q(YY)", "->{ f XX }.call.q YY", "f(XX).q((YY))", "id(f(XX)).q(YY)"]),
    ("f(XX.q(YY))", &["f((XX).q(YY))", "f (XX).q(YY)", "f (XX).q YY", "f((XX).q YY)", "z = (XX).q YY\nf z", "f((XX)\n.q(YY))"]),
    ("f((-a))", &["f -a", "f(-a)", "f (-a)", "f(- a)"]),
    ("(f()-a)", &["f - a", "f() - a", "f()-a", "f-a", "(f) - a", "f.-(a)", "f() -a", "f -\na"]),
    ("f(-1)", &["f -1", "f(-1)", "f (-1)", "f(- 1)"]),
    ("(f()-1)", &["f - 1", "f-1", "f() -1", "f()-1", "f() - 1"]),
    ("f([a])", &["f [a]", "f([a])", "f ([a])"]),
    ("f()[a]", &["f[a]", "f()[a]", "(f)[a]", "f() [a]"]),
    ("f(a)", &["f *a", "f(*a)", "f *[a]", "f a"]),
    ("(f()*a)", &["f * a", "f() * a", "f()*a", "f*a", "f() *a"]),
    ("f(){c}", &["z = ->(q) { c }; f &z", "z = ->(q) { c }; f(&z)", "f { c }", "f {c}", "f do c end", "f() { c }", "f() do c end", "f{c}", "f { |q| c }", "f { |q, r| c }", "f { |q, r = 2, *s, t, u: 1, **v, &w| c }"]),
    ("(f()&a)", &["f & a", "f() & a", "f()&a", "f&a", "f() &a"]),
    ("((f()/a)/b)", &["f / a / b", "f() / a / b", "f()/a/b", "f() /a/b", "f/a/b"]),
    ("((a/b)/c)", &["a / b / c", "a/b/c", "a /b/ c", "a /b/c", "a/ b /c", "a /b / c"]),
    ("f(/a/)", &["f(/a/)", "f /a/", "z = /a/; f z", "f %r(a)", "f (/a/)"]),
    ("f(\"x\")", &["f ?x", "f(?x)", "f 'x'", "f(\"x\")", "f \"x\"", "f 'x' ''", "f %q(x)", "f %(x)", "f(%Q{x})"]),
    ("b", &["a ? b : c", "a ?b : c", "a ? (b) : (c)", "a ? b: c", "f ? b : c", "f() ? b : c", "f(a) ? b : c", "a.q ? b : c", "a.q() ? b : c", "a ?\nb :\nc", "a ? b : a ? c : d", "nil ? a : a ? b : c", "a ? a ? b : c : d", "a ? $b : c", "a ? @b : c", "a ? KB : KC", "a ?KB : KC", "(a) ? b : c", "a[0] ? b : c", "a==a ? b : c", "!nil ? b : c", "!nil ? b : :c", "nil ? :b : b", "a ? b : :c", "nil ?:c : b", "a ? mb : mc", "a ? m(:b) : m(:c)", "a ? (m :b) : c", "nil ? nil : b", "true ? b : nil", "a ? b :c", "a.nil? ? c : b", "nil.nil? ? b : c", "f.nil? ? 1 : b", "a ? b : f(c)", "a ? b : c.q { d }", "a ? id(b) : id(c)", "id a ? b : c", "(id a) ? b : c", "if a then b else c end", "if a; b; else; c; end", "(if a then b else c end)", "unless a then c else b end", "unless a; c; else; b; end", "case a when nil then c else b end", "if nil then a elsif a then b else c end", "a && b || c", "a and b or c", "nil || a && b", "nil or a and b", "(nil or a) and b", "b if a", "b unless nil", "return b if a; c", "return c unless a\nb"]),
    ("f(:a)", &["f :a", "f(:a)", "f(:'a')", "f :\"a\"", "f((:a))", "f(*[:a])", "f *:a"]),
    ("f(a)", &["f ::KA", "f(::KA)", "f KA", "f(Object::KA)", "f Object::KA"]),
    ("f(false)", &["f !a", "f(!a)", "f (!a)", "f(! a)", "f (a && false)", "f a && false"]),
    ("false", &["f != a", "f() != a", "f()!=a", "!f", "!f()", "!(f a)", "!f(a)", "!(f(a))", "! f(a)", "!a.q", "!a.q(b)", "!a.q { c }", "!a[b]", "!!!a"]),
    ("(f()<<a)", &["f << a", "f()<<a", "f() << a", "f() <<a", "f.<<(a)", "f.<< a"]),
    ("(f()%a)", &["f % a", "f()%a", "f() % a", "f() %a"]),
    ("f([\"a\", \"b\"])", &["f %w(a b)", "f(%w(a b))", "f %w[a b]", "f ['a', 'b']", "f(['a', \"b\"])", "f %w( a\n b )"]),
    ("f((a+b))", &["f (a) + b", "f((a) + b)", "f a + b", "f(a + b)", "f a+b", "f (a + b)", "f (a)+b", "f a +b", "f (a) +b", "f(a+b)", "f a +\nb", "f (\na + b\n)", "f((a\n) + b)"]),
    ("(f(a)+b)", &["f(a) + b", "f(a)+b", "(f a) + b", "f(a) +b", "f(a) +\nb", "f(a).+(b)", "f(a).+ b"]),
    ("f(a.q(b),c)", &["f (a).q(b), c", "f a.q(b), c", "f(a.q(b), c)", "f((a.q b), c)", "f (a.q b), c"]),
    ("f()", &["f", "f()", "f( )", "f(\n)", "self.f", "self.f()", "send(:f)", "send :f", "(f)", "f;", "f if true", "f # c", "f\n", "f unless false", "z = f; z", "z = f\nz", "(f\n)", "begin f end", "w { f }", "w do f end", "->{ f }.()", "if f then f end", "f && f", "f and f", "nil || f", "[f][0]", "[f,][0]", "return f", "true ? f : 1", "f(*[])", "f *[]", "id f", "id(f)", "id (f)"]),
    ("f({})", &["f({})", "f ({})", "z = {}; f z", "f(id({}))"]),
    ("f(XX,{:k=>YY})", &["f(XX, k: YY)", "f XX, k: YY", "f XX, {k: YY}", "f(XX, {k: YY})", "f XX, :k => YY", "f(XX, :k => YY)", "f XX, {:k => YY}", "f(XX,\nk: YY)", "f XX,\n k: YY", "f(XX, k:\nYY)", "f XX, k:YY", "f(XX, k: YY,)", "f(\nXX,\nk: YY,\n)", "z = {k: YY}; f XX, z", "f XX, k: YY if true"]),
    ("[XX, YY, 0]", &["kw(XX, k: YY)", "kw XX, k: YY", "kw(XX, **{k: YY})", "kw(XX,\nk: YY)", "kw XX,\nk: YY", "kw(XX, j: 0, k: YY)", "kw(XX, k: YY, j: 0)", "kw(XX, k:\n YY)", "kw XX, k: YY, j: 0", "kw(*[XX], k: YY)", "kw *[XX], k: YY", "z = kw XX, k: YY\nz", "kw(XX, k: YY,)", "send(:kw, XX, k: YY)", "self.kw XX, k: YY"]),
    ("(a-b)", &["a - b", "a-b", "a -b", "a- b", "a -\nb", "a - # c\nb", "(a) - b", "(a)-b", "(a) -b", "a.-(b)", "a.- b", "(a - b)", "(a\n) - (\nb)", "a - \\\nb", "a \\\n- b", "a\t-\tb", "a -(b)", "a-(b)", "z = a; z -= b; z", "z = a; z -=b", "z = a; z-=b", "z = a\nz -= b\nz", "z=a;z-=b"]),
    ("a[b]", &["a[b]", "a [b]", "a[ b ]", "a[\nb\n]", "a.[](b)", "a.[] b", "(a)[b]", "a[(b)]", "a[*[b]]", "@z = a; @z[b]", "@z = a; @z [b]", "ma[b]", "ma()[b]", "w { a }[b]", "[a][0][b]", "id(a)[b]", "{k: a}[:k][b]", "KA[b]", "$a[b]", "a[b,]"]),
    ("(a*b)", &["a * b", "a*b", "a *b", "a* b", "a *\nb", "a.*(b)", "a *(b)", "z = a; z *= b", "z = a; z*=b"]),
    ("(a&b)", &["a & b", "a&b", "a &b", "a& b", "a &\nb", "a.&(b)", "z = a; z &= b", "a &(b)"]),
    ("(a%b)", &["a % b", "a%b", "a %b", "a% b", "a %\nb", "a.%(b)", "z = a; z %= b", "a %(b)"]),
    ("(a<<b)", &["a << b", "a<<b", "a <<b", "a<< b", "a <<\nb", "a.<<(b)", "z = a; z <<= b"]),
    ("(a/b)", &["a / b", "a/b", "a /b", "a/ b", "a /\nb", "a./(b)", "z = a; z /= b"]),
    ("(a^b)", &["a ^ b", "a^b", "a ^b", "a^\nb", "a.^(b)", "z = a; z ^= b"]),
    ("(a|b)", &["a | b", "a|b", "a |b", "a|\nb", "a.|(b)", "z = a; z |= b"]),
    ("(a<b)", &["a < b", "a<b", "a <b", "a< b", "a <\nb", "a.<(b)"]),
    ("(a<=>b)", &["a <=> b", "a<=>b", "a <=>b", "a<=> b", "a <=>\nb", "a.<=>(b)"]),
    ("(a=~b)", &["a =~ b", "a=~b", "a =~b", "a =~\nb"]),
    ("(a==b)", &["a == b", "a==b", "a ==b", "a== b", "a ==\nb", "a.==(b)", "a.== b"]),
    ("(a**b)", &["a ** b", "a**b", "a **b", "a** b", "a **\nb"]),
    ("a..b", &["a..b", "a .. b", "a ..b", "(a..b)", "(a .. b)", "a..(b)", "(a)..(b)", "z = a..b; z", "z = (a..b); z", "id(a..b)", "id a..b", "[a..b][0]", "{k: a..b}[:k]", "->{ a..b }.call", "return a..b", "return (a..b)"]),
    ("[a, b]", &["[a, b]", "[a,b]", "[ a , b ]", "[a, b,]", "[\na,\nb\n]", "[a,\nb,\n]", "[a, # c\nb]", "z = a, b; z", "z = [a, b]", "z = *[a, b]; z", "z = a, *[b]; z", "[*[a], b]", "[a, *[b]]", "[*[a, b]]", "[*[a], *[b]]", "return a, b", "return [a, b]", "w { next a, b }", "w { next [a, b] }", "while true do break a, b end", "loop { break a, b }", "[[a, b]].map { |x, y| [x, y] }[0]", "[[a, b]].map do |x, y| [x, y] end[0]", "x, y = a, b; [x, y]", "x, y = [a, b]; [x, y]", "y, x = b, a; [x, y]", "x, y = b, a; x, y = y, x; [x, y]", "(x, y = a, b)", "x = y = nil; x, y = a, b", "x = a; y = b; [x, y]", "[a].zip([b])[0]"]),
    ("{:k=>a, :j=>b}", &["{k: a, j: b}", "{:k => a, :j => b}", "{k: a, :j => b}", "{ k: a, j: b, }", "{\nk: a,\nj: b\n}", "{k:a,j:b}", "{:k=>a,:j=>b}", "z = {k: a, j: b}; z", "id({k: a, j: b})", "id(k: a, j: b)", "id k: a, j: b", "id :k => a, :j => b", "return {k: a, j: b}", "({k: a, j: b})", "w { {k: a, j: b} }", "[{k: a, j: b}][0]", "{k: # c\n a, j: b}", "{\n # c\n k: a,\n\n j: b }", "{:'k' => a, :\"j\" => b}", "{k: (a), j: (b)}", "{k: a,\n\n j: b,\n\n}"]),
    ("f(a,b,{:k=>c})", &["f(a, b, k: c)", "f a, b, k: c", "f a, b, {k: c}", "f a, b, :k => c", "f *[a, b], k: c", "f(*[a], b, k: c)", "f a, *[b], k: c"]),
    ("XX.w=YY", &["(XX).w = YY; $last", "(XX).w=YY; $last", "(XX).w =\nYY\n$last", "z = XX; z.w = YY; $last", "z = XX\nz.w=(YY)\n$last", "z = XX; z.send(:w=, YY); $last", "z = XX; z.w, y = YY, 1; $last", "z = XX; y, z.w = 1, YY; $last", "z = XX; y = z.w = YY; $last", "z = XX; z.w = y = YY; $last", "z = XX; z&.w = YY; $last", "z = XX; (z.w = YY); $last", "z = XX; z.w = YY if true; $last", "z = XX; z.w = YY unless false; $last", "(XX)\n.w = YY\n$last"]),
    ("XX[b]=YY", &["(XX)[b] = YY; $last", "(XX)[b]=YY; $last", "(XX)[b] =\nYY\n$last", "z = XX; z[b] = YY; $last", "z = XX\nz[b]=(YY)\n$last", "z = XX; z.[]=(b, YY); $last", "z = XX; z[b], y = YY, 1; $last", "z = XX; y, z[b] = 1, YY; $last", "z = XX; y = z[b] = YY; $last", "z = XX; z[b] = y = YY; $last", "z = XX; z[*[b]] = YY; $last", "z = XX; (z[b] = YY); $last", "z = XX; z[b] = YY if true; $last", "z = XX; z[\nb\n] = YY; $last"]),
    ("y(XX)", &["def dmZZ; yield $x; end\n$x = XX\ndmZZ { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ; yield($x); end\n$x = XX\ndmZZ { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ() yield($x) end\n$x = XX\ndmZZ() { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ; yield ($x); end\n$x = XX\ndmZZ { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ; yield *[$x]; end\n$x = XX\ndmZZ do |x| T.new(\"y(#{x.inspect})\") end", "def dmZZ(x)\nyield x\nend\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ x\nyield x\nend\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ x; yield x; end\ndmZZ XX do |x| T.new(\"y(#{x.inspect})\") end", "def dmZZ(x) yield x end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); z = yield x; z; end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); return yield(x); end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); return yield x; end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); yield x if true; end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); [yield(x)][0]; end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); id(yield(x)); end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x); true && yield(x); end\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x,\ny = 1)\nyield(x)\nend\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }", "def dmZZ(x)\nyield(\nx\n)\nend\ndmZZ(XX) { |x| T.new(\"y(#{x.inspect})\") }"]),
    ("y().q(c)", &["def dmZZ; yield.q($c); end\ndmZZ { T.new('y()') }", "def dmZZ; yield().q($c); end\ndmZZ { T.new('y()') }", "def dmZZ; yield(1).q($c); end\ndmZZ { T.new('y()') }", "def dmZZ; (yield).q $c; end\ndmZZ { T.new('y()') }", "def dmZZ; z = yield; z.q($c); end\ndmZZ { T.new('y()') }", "def dmZZ; yield(1)\n.q($c); end\ndmZZ { T.new('y()') }"]),
    ("(y()+c)", &["def dmZZ; yield + $c; end\ndmZZ { T.new('y()') }", "def dmZZ; yield() + $c; end\ndmZZ { T.new('y()') }", "def dmZZ; yield(1) + $c; end\ndmZZ { T.new('y()') }", "def dmZZ; (yield) + $c; end\ndmZZ { T.new('y()') }", "def dmZZ; (yield 1) + $c; end\ndmZZ { T.new('y()') }"]),
    ("y()[c]", &["def dmZZ; yield()[$c]; end\ndmZZ { T.new('y()') }", "def dmZZ; yield(1)[$c]; end\ndmZZ { T.new('y()') }", "def dmZZ; (yield)[$c]; end\ndmZZ { T.new('y()') }", "def dmZZ; z = yield; z[$c]; end\ndmZZ { T.new('y()') }"]),
    ("c", &["def dmZZ; yield && $c; end\ndmZZ { 1 }", "def dmZZ; yield ? $c : 1; end\ndmZZ { 1 }", "def dmZZ; yield || $c; end\ndmZZ { nil }", "def dmZZ; yield and $c; end\ndmZZ { 1 }", "def dmZZ; yield or $c; end\ndmZZ { nil }", "def dmZZ; $c if yield; end\ndmZZ { 1 }", "def dmZZ; if yield then $c end; end\ndmZZ { 1 }", "def dmZZ; $c unless yield == 2; end\ndmZZ { 1 }", "def dmZZ; x = yield || 3; x; end\ndmZZ { $c }", "def dmZZ; return $c unless yield; end\ndmZZ { nil }", "def dmZZ; !yield ? 1 : $c; end\ndmZZ { 1 }", "def dmZZ; yield(1) ? $c : 1; end\ndmZZ { 1 }", "def dmZZ; $c while yield; $c; end\ndmZZ { nil }", "def dmZZ; case yield when 1 then $c end; end\ndmZZ { 1 }", "def dmZZ; [yield, $c][1]; end\ndmZZ { 1 }", "def dmZZ; {k: yield}[:k]; end\ndmZZ { $c }", "def dmZZ; x, y = yield; y; end\ndmZZ { [1, $c] }", "def dmZZ; \"#{yield}\"; yield; end\ndmZZ { $c }", "def dmZZ\nyield\nend\ndmZZ { $c }", "def dmZZ; (yield); end\ndmZZ { $c }", "def dmZZ; begin yield end; end\ndmZZ { $c }", "def dmZZ; yield rescue 1; end\ndmZZ { $c }", "def dmZZ; yield; ensure; 1; end\ndmZZ { $c }"]),
    ("s(a,b)", &["class S2 < S1; def s(*a) super end end\nS2.new.s($a, $b)", "class S3 < S1; def s(x, y) super(x, y) end end\nS3.new.s($a, $b)", "class S4 < S1; def s(x, y) super x, y end end\nS4.new.s $a, $b", "class S5 < S1\ndef s(x, y)\nsuper\nend\nend\nS5.new.s($a, $b)", "class S6 < S1; def s(x, y); z = super; z; end; end; S6.new.s($a, $b)", "class S7 < S1; def s(x, y); super if true; end; end; S7.new.s($a, $b)", "class S8 < S1; def s(*x); super(*x); end; end; S8.new.s($a, $b)", "class S9 < S1; def s(*x); super *x; end; end; S9.new.s($a, $b)", "class S10 < S1; def s(x, y); return super; end; end; S10.new.s($a, $b)", "class S11 < S1; def s(x); super(x, $b); end; end; S11.new.s($a)"]),
    ("s(a).q(b)", &["class S12 < S1; def s(x) super.q($b) end end\nS12.new.s($a)", "class S13 < S1; def s(x) super(x).q($b) end end\nS13.new.s($a)", "class S14 < S1; def s(x) (super x).q $b end end\nS14.new.s($a)", "class S15 < S1; def s(x) z = super\n z.q($b) end end\nS15.new.s($a)", "class S16 < S1; def s(x) (super).q $b end end\nS16.new.s($a)"]),
    ("(s(a)+b)", &["class S17 < S1; def s(x) super + $b end end\nS17.new.s($a)", "class S18 < S1; def s(x) super(x) + $b end end\nS18.new.s($a)", "class S19 < S1; def s(x) (super) + $b end end\nS19.new.s($a)", "class S20 < S1; def s(x) (super x) + $b end end\nS20.new.s($a)"]),
    ("[1, 2, 3]", &["z = []; for i in 1..3 do z << i end; z", "z = []; for i in 1..3\nz << i\nend\nz", "z = []; for i in (1..3); z << i; end; z", "z = []; i = 0; while i < 3 do i += 1; z << i end; z", "z = []; i = 0\nwhile i < 3\ni += 1\nz << i\nend\nz", "z = []; i = 0; while i < 3; i += 1; z << i; end; z", "z = []; i = 0; until i == 3 do i += 1; z << i end; z", "z = []; i = 0; until i >= 3; i += 1; z << i; end; z", "z = []; i = 0; z << (i += 1) while i < 3; z", "z = []; i = 0; z << (i += 1) until i == 3; z", "z = []; i = 0; begin; z << (i += 1); end while i < 3; z", "z = []; i = 0\nbegin\ni += 1\nz << i\nend until i == 3\nz", "z = []; (1..3).each { |i| z << i }; z", "z = []; (1..3).each do |i| z << i end; z", "z = []\n(1..3).each do |i|\nz << i\nend\nz", "z = []; 1.upto(3) { |i| z << i }; z", "z = []; 1.upto 3 do |i| z << i end; z", "z = []; i = 0; loop do i += 1; z << i; break if i == 3 end; z", "z = []; i = 0; loop { i += 1; z << i; break if i == 3 }; z", "z = []; 3.times { |i| z << i + 1 }; z", "z = []; 3.times do |i| z << i + 1 end; z", "(1..3).map { |i| i }", "(1..3).map do |i| i end", "(1..3).to_a", "[*1..3]", "[1, 2, 3].map { |i| next i; 0 }", "[1,2,3].each do |i| end", "z = []; for i in [1, 2, 3] do z.push i end; z", "z = []; for i, j in [[1, 0], [2, 0], [3, 0]] do z.push i end; z", "z = [0] * 3; z.each_with_index { |x, i| z[i] = i + 1 }; z"]),
    ("7", &["def dmZZ(x) x end; dmZZ(7)", "def dmZZ(x) x; end; dmZZ 7", "def dmZZ x; x; end; dmZZ(7)", "def dmZZ x\nx\nend\ndmZZ 7", "def dmZZ(x)\nx\nend\ndmZZ(7)", "def dmZZ(x); x; end; dmZZ(7)", "def dmZZ(x); return x; end; dmZZ(7)", "def dmZZ() 7 end; dmZZ", "def dmZZ; 7; end; dmZZ()", "def dmZZ; 7 end; dmZZ", "def dmZZ\n7\nend; dmZZ", "def dmZZ(); 7; end\ndmZZ", "def dmZZ(x = 7) x end; dmZZ", "def dmZZ(x=7) x end; dmZZ()", "def dmZZ x = 7; x; end; dmZZ", "def dmZZ(x,\ny)\nx\nend\ndmZZ(7, 8)", "def dmZZ(\nx\n)\nx\nend\ndmZZ(7)", "def dmZZ(*x) x[0] end; dmZZ(7)", "def dmZZ *x; x[0]; end; dmZZ 7", "def dmZZ(k:) k end; dmZZ(k: 7)", "def dmZZ(k: 7) k end; dmZZ", "def dmZZ k: 7; k; end; dmZZ", "def dmZZ(&b) b.call end; dmZZ { 7 }", "def dmZZ &b; b.call; end; dmZZ { 7 }", "def self.dmZZ; 7; end; self.dmZZ", "def self.dmZZ(x) x end; self.dmZZ 7", "def dmZZ?; 7; end; dmZZ?", "def dmZZ!; 7; end; dmZZ!", "def dmZZ?() 7 end; dmZZ?()", "def dmZZ; begin; 7; ensure; 8; end; end; dmZZ", "def dmZZ; raise; rescue; 7; end; dmZZ", "def dmZZ; raise; rescue => x; 7; end; dmZZ", "def dmZZ\n7\nensure\n8\nend\ndmZZ", "def dmZZ; 1; rescue; 2; else; 7; end; dmZZ", "->(x) { x }.call(7)", "->x { x }.call 7", "-> x { x }.(7)", "-> (x) { x }[7]", "->(x) do x end.call(7)", "->(x = 7) { x }.call", "->() { 7 }.call", "->{7}.()", "-> { 7 }.call", "-> do 7 end.call", "lambda { |x| x }.call(7)", "lambda do |x| x end.call(7)", "proc { |x| x }.call(7)", "Proc.new { |x| x }.call(7)", "proc { |x, y| x }.(7, 8)", "z = ->(x) { x }\nz.call 7", "z = lambda do |x| x end\nz.call(7)", "->(x, y = 0, *r, k: 1, &b) { x }.call(7)", "if 7 then 7 end", "7 if 7", "begin 7 end", "(7)", "((7))", "(7;)", "(1; 7)", "(1\n7)", "7;", ";;7", "7 # x", "+7", "- -7", "-(-7)", "x = 7; x", "x = 7\nx", "x=7;x", "x = (7)", "7 rescue 8", "7.abs", "7 . abs", "7\n.abs", "7.\nabs", "-7.abs", "(-7).abs", "7&.abs", "6 + 1", "6+1", "8-1", "8 -1", "8 - 1", "x = 8; x -1", "x = 8; x-1", "1 + 2 * 3", "1+2*3", "(1 + 2) * 3 - 2", "2 ** 3 - 1", "2**3-1", "7.0.to_i", "7.+(0)", "7 .+ 0", "14 / 2", "14/2", "z = 14; z / 2", "z = 14; z /2", "z = 14; z/2", "15 >> 1", "15>>1", "3 | 4", "7 & 15", "1 ^ 6", "~-8", "~ -8", "-~6", "!7 ? 1 : 7", "7 || 1", "1 && 7", "nil || 7", "(1 and 7)", "(nil or 7)", "[7][0]", "[7] [0]", "[7].first", "{7 => 7}[7]", "{k: 7}[:k]", "{:k=>7}[:k]", "'7'.to_i", "\"7\".to_i", "\"#{7}\".to_i", "\"#{\"#{7}\"}\".to_i", "(7..8).first", "%w(7)[0].to_i", "?7.to_i", "0b111", "0x7", "07", "7_0 / 10", "case 7 when 7 then 7 end", "case 7\nwhen 6, 7\n7\nend", "case 7 when 6 then 1 when 7 then 7 else 2 end", "case 7\nwhen 5,\n7 then 7\nend", "case when false then 1 else 7 end", "while true do break 7 end", "loop { break 7 }", "[1].each { |x| break 7 }", "[8].map { |x| x - 1 }[0]", "[8].map { |x| x -1 }[0]", "[7].map(&:abs)[0]", "[7].map &:abs\n7", "x = [7]; x[0]", "x = [7]; x [0]", "x = [7]; x[-1]", "x = [7]; x[x.length - 1]", "x = [7]; x[x.length-1]", "x = [1]; x[0] += 6; x[0]", "x = {}; x[:k] ||= 7; x[:k]", "x = nil; x ||= 7", "x = 1; x &&= 7", "x, y = 7, 8; x", "x = y = 7; x", "x = (y = 7)", "x = if true then 7 else 8 end", "x = while true do break 7 end", "x = begin; 7; end", "x = case 1 when 1 then 7 end", "x = (1; 7)", "x = [7, 8].first", "x = 7 if true; x", "x = 7 unless false; x", "x = true ? 7 : 8", "x = nil || 7", "x = 1 && 7", "x = 7 and x", "(x = nil or 7)", "x = !nil && 7", "alias zdmZZ id; zdmZZ 7", "alias :zdmZZ :id\nzdmZZ(7)", "undef zyZZ rescue 7", "defined?(x) ? 1 : 7", "x = 1; defined?(x) ? 7 : 1", "defined?(zq) || 7", "__method__ rescue 7", "x = 0; x += 1 while x < 7; x", "x = 0; x += 1 until x == 7; x", "x = 14; x /= 2; x", "x = 14; x/=2; x", "$x = 7; $x", "@x = 7; @x", "@x=7;@x", "x = <<E\n7\nE\nx.to_i", "<<E.to_i\n7\nE\n", "x = <<-E\n7\n  E\nx.to_i", "x = <<~E\n  7\n  E\nx.to_i", "x = <<'E'\n7\nE\nx.to_i", "[<<E, 8][0].to_i\n7\nE\n", "id(<<E).to_i\n7\nE\n", "x = <<E; x.to_i\n7\nE\n"]),
];

const ATOMS: &[(&str, &str)] = &[
    ("a", "a"), ("1", "1"), ("-a", "(-a)"), ("!a", "false"), ("a + b", "(a+b)"), ("a ? b : c", "b"), ("a && b", "b"), ("[a]", "[a]"), ("a.q(b)", "a.q(b)"), ("a[b]", "a[b]"), ("g(a)", "g(a)"), ("\"s#{a}\"", "\"sa\""), (":s", ":s"), ("->{ a }.call", "a"), ("a == b", "(a==b)"), ("(a; b)", "b"), ("a * b + c", "((a*b)+c)"),
    ("-1", "-1"), ("nil", "nil"), ("'x'", "\"x\""), ("KA", "a"), ("@a", "a"), ("$a", "a"), ("g", "g()"), ("g { b }", "g(){b}"), ("(a..b)", "a..b"), ("a.k", "a.k"), ("!!a", "true"), ("a << b", "(a<<b)"), ("mb", "b"), ("a || b", "a"), ("::KA", "a"), ("w { a }", "a"), ("a\n.q(b)", "a.q(b)"), ("a <=> b", "(a<=>b)"), ("if a then b end", "b"), ("begin; a; end", "a"), ("{1 => a}[1]", "a"), ("%w(a b)", "[\"a\", \"b\"]"),
];

fn group_cases(t: bool) -> Vec<Case> {
    let mut r = vec![];
    for (e, forms) in GROUPS {
        for f in *forms {
            let (hx, hy) = (f.contains("XX"), f.contains("YY"));
            for (xi, (xs, xv)) in ATOMS.iter().enumerate() {
                if !hx && xi > 0 {
                    break;
                }
                for (yi, (ys, yv)) in ATOMS.iter().enumerate() {
                    if !hy && yi > 0 || hy && hx && !t && xi > 3 && yi > 3 && (xi + yi) % 7 != 0 {
                        continue;
                    }
                    let text = f.replace("XX", xs).replace("YY", ys);
                    let expect = e.replace("XX", xv).replace("YY", yv);
                    if skip(f, xs, ys) {
                        continue;
                    }
                    let mut c = Case::top(format!("def hZZ\n{HEAD}\n{text}\nend\nx = hZZ\nprint(x.is_a?(String) ? x : x.inspect)"), expect).key(format!("form: {text}"));
                    if text.contains("def d") || text.contains("def self.d") || text.contains("class S") {
                        c.code = format!("{HEAD}x = begin\n{text}\nend\nprint(x.is_a?(String) ? x : x.inspect)");
                        if text.contains("return") && !text.contains("; return") {
                            continue;
                        }
                    }
                    r.push(c);
                }
            }
        }
    }
    r
}

/// combinations that are not Ruby, or which read differently
fn skip(form: &str, x: &str, y: &str) -> bool {
    // the first argument of a command cannot start like a block or a modifier
    let flat = form.replace("\\\n", " ").split_whitespace().collect::<Vec<_>>().join(" ");
    let first = |h: &str, v: &str| (v.starts_with('{') || v.starts_with("if ")) && ["f ", "kw ", "q ", "yield ", "g ", "next ", "dmZZ "].iter().any(|c| flat.contains(&format!("{c}{h}")));
    // `k::x` is another token
    let colon = |h: &str, v: &str| v.starts_with(':') && form.contains(&format!(":{h}"));
    // a test pins that `do` goes to the last call of the arguments
    let call = |v: &str| ["g", "mb", "a.k", "g(a)", "a.q(b)", "a\n.q(b)", "->{ a }.call"].contains(&v);
    // only the test objects have the methods which the forms call
    let not_t = |v: &str| v.starts_with(['1', '-', '"', '\'', '[', ':', '!', '(', '%']) && !v.starts_with("(a; b)") && v != "-a" && v != "::KA" || v == "nil";
    let recv = ["(XX).q", "(XX).w", "(XX)[b]", "z = XX; z.", "z = XX; z[", "z = XX; y", "z = XX; (z", "z = XX; z&", "z = XX\nz.w", "z = XX\nz[", "z = XX\nf z", "(XX)\n.", "((XX)", "z = (XX)"];
    first("XX", x) || first("YY", y) || colon("XX", x) || colon("YY", y) || (call(x) && form.contains("XX do")) || (form.starts_with("f") && form.contains("f XX do") && call(x)) || (recv.iter().any(|r| form.contains(r)) && not_t(x))
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let pre = {
        let mut ops = String::new();
        for (o, p) in BINS {
            if *p > 9 && !["**", "^", "!="].contains(o) {
                ops.push_str(&format!("  def {o}(o); T.new(\"(#{{@s}}{o}#{{o.inspect}})\"); end\n"));
            }
        }
        PRELUDE.replace("OPS", &ops)
    };
    let all: Vec<K> = BINS.iter().map(|b| K::B(b.0)).chain([K::U("-"), K::U("!"), K::U("~"), K::Q, K::A(""), K::A("+"), K::A("||"), K::P(".k"), K::P("[7]")]).collect();
    let rep = [K::B("**"), K::B("*"), K::B("-"), K::B("<<"), K::B("&"), K::B("|"), K::B("<"), K::B("=="), K::B("&&"), K::B("||"), K::B(".."), K::U("-"), K::U("!"), K::Q, K::A(""), K::A("-"), K::P(".k"), K::B("and")];
    let rep12 = [K::B("**"), K::B("*"), K::B("-"), K::B("<<"), K::B("<"), K::B("=="), K::B("&&"), K::U("-"), K::U("!"), K::Q, K::A(""), K::P(".k")];
    ctx.bound("operators", "26 binary operators, 3 prefix operators, ?:, = += ||=, method call, index");
    ctx.bound("tree size", if t { "all of 2 and 3 operators, 12 representatives of 4" } else { "all of 2 operators, 18 representatives of 3" });
    ctx.bound("layouts", STYLES);
    ctx.bound("leaf spellings", SPELL.len());

    ctx.section("equivalent forms");
    {
        let cs = group_cases(t);
        ctx.bound("groups of equivalent forms", GROUPS.len());
        ctx.bound("texts", GROUPS.iter().map(|g| g.1.len()).sum::<usize>());
        ctx.states += cs.len() as u64;
        Runner::new(ctx).prelude(&pre).run(cs.into_iter());
    }
    ctx.section("two operators: every pair, every layout");
    let two = trees(2, &all);
    ctx.states += two.len() as u64;
    {
        let two = &two;
        Runner::new(ctx).prelude(&pre).run(two.iter().flat_map(move |n| (0..STYLES).filter_map(move |s| sym_case(n, s, 0))));
    }
    ctx.section("two operators: every spelling of the operands");
    {
        let base = trees(2, &all);
        let base = &base;
        Runner::new(ctx).prelude(&pre).run(base.iter().flat_map(move |n| {
            (1..SPELL.len()).flat_map(move |sp| {
                [0, 1].into_iter().filter_map(move |s| {
                    // a word before an operator without spaces reads as an argument; `id v` takes the rest as its argument
                    if sp == 17 || (sp == 4 && s == 1) {
                        return None;
                    }
                    sym_case(n, s, sp)
                })
            })
        }));
    }
    ctx.section("three operators");
    let three = if t { trees(3, &all) } else { trees(3, &rep) };
    ctx.states += three.len() as u64;
    {
        let three = &three;
        let st: &[usize] = if t { &[0, 1, 2, 4] } else { &[0, 1, 4] };
        Runner::new(ctx).prelude(&pre).run(three.iter().flat_map(move |n| st.iter().filter_map(move |s| sym_case(n, *s, 0))));
    }
    if t {
        ctx.section("four operators");
        let four = trees(4, &rep12);
        ctx.states += four.len() as u64;
        let four = &four;
        Runner::new(ctx).prelude(&pre).run(four.iter().filter_map(move |n| sym_case(n, 0, 0)));
    }
    ctx.section("short-circuit operators: which operands are evaluated");
    {
        let lg = [K::B("&&"), K::B("||"), K::U("!"), K::Q, K::B("and"), K::B("or"), K::B("=="), K::B("!="), K::A(""), K::A("||"), K::A("&&")];
        let l1 = trees(2, &lg);
        let l2 = trees(3, if t { &lg } else { &lg[..7] });
        ctx.states += (l1.len() + l2.len()) as u64;
        let (l1, l2) = (&l1, &l2);
        Runner::new(ctx).prelude(&pre).batch(60).run(
            l1.iter()
                .flat_map(move |n| (0..6).flat_map(move |f| (0..STYLES).filter_map(move |s| if f > 0 && f < 4 && (s == 2 || s == 3) { None } else { log_case(n, s, f) })))
                .chain(l2.iter().flat_map(move |n| [0, 1, 2, 4].into_iter().filter_map(move |f| log_case(n, 0, f)))),
        );
    }
}
