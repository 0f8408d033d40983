//! A small Ruby-like language: syntax trees, their Ruby text, and a reference evaluator written
//! from the definition of the control-flow constructs.
use super::val::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Nil,
    False,
    Int(i64),
    /// traced value: prints `n ` and is n
    T(i64),
    /// raise CLS, "m"
    Raise(&'static str),
    Div0,
    Seq(Vec<Ex>),
    If(Box<Ex>, Box<Ex>, Option<Box<Ex>>),
    Unless(Box<Ex>, Box<Ex>),
    /// `body if cond` / `body unless cond`
    ModIf(bool, Box<Ex>, Box<Ex>),
    /// (iK = 0; while iK < n; iK += 1; body; end)
    While {
        until: bool,
        k: usize,
        n: i64,
        body: Box<Ex>,
    },
    /// (iK = 0; begin; iK += 1; body; end while iK < n)
    DoWhile {
        until: bool,
        k: usize,
        n: i64,
        body: Box<Ex>,
    },
    Begin {
        body: Box<Ex>,
        rescues: Vec<Resc>,
        els: Option<Box<Ex>>,
        ens: Option<Box<Ex>>,
    },
    RescueMod(Box<Ex>, Box<Ex>),
    Break(Option<Box<Ex>>),
    Next(Option<Box<Ex>>),
    Return(Option<Box<Ex>>),
    Iter(It, Box<Ex>),
    Lambda(Box<Ex>),
    Proc(Box<Ex>),
    /// call of a method with this body
    Call(Box<Ex>),
    Arr(Vec<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    /// ($n += 1) == k
    Nth(i64),
    /// x = e; x
    Let(usize, Box<Ex>),
    /// send(:t, e)-like argument position: id(e)
    Arg(Box<Ex>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Resc {
    /// empty: plain rescue
    pub classes: Vec<&'static str>,
    pub bind: bool,
    pub body: Ex,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum It {
    Each,
    Times,
    Map,
    Loop(usize),
    Upto,
    For,
    Hash,
    WithIndex,
    Inject,
    Select,
    Yield2,
    YieldEnsure,
    YieldRescue,
    BlockCall,
    Pass,
    YieldWhile,
    YieldIn,
}

pub const PRELUDE: &str = r#"
class EA < StandardError; end
class EB < EA; end
class EC < StandardError; end
class EX < Exception; end
def t(n)
  print n, " "
  n
end
def id(x)
  x
end
def y2
  a = yield
  t 91
  b = yield
  t 92
  [a, b]
end
def ye
  r = yield
  t 93
  r
ensure
  t 94
end
def yr
  yield
rescue EA
  t 95
ensure
  t 96
end
def bc(&b)
  r = b.call
  t 97
  r
end
def ps(&b)
  r = ye(&b)
  t 98
  r
end
def yw
  i = 0
  while i < 2
    i += 1
    begin
      yield
    ensure
      t 99
    end
  end
  t 89
end
def yi
  [1, 2].each do |x|
    begin
      yield
    ensure
      t 88
    end
  end
  t 87
end
"#;

pub fn is_a(cls: &str, anc: &str) -> bool {
    let parent = |c: &str| -> Option<&'static str> {
        Some(match c {
            "EB" => "EA",
            "EA" | "EC" => "StandardError",
            "EX" => "Exception",
            "ZeroDivisionError" => "StandardError",
            "FloatDomainError" => "RangeError",
            "RuntimeError" | "ArgumentError" | "NameError" | "TypeError" | "IndexError" | "RangeError"
            | "LocalJumpError" | "FiberError" | "RegexpError" => "StandardError",
            "StopIteration" | "KeyError" => "IndexError",
            "NoMethodError" => "NameError",
            "FrozenError" => "RuntimeError",
            "StandardError" => "Exception",
            _ => return None,
        })
    };
    let mut c = cls.to_string();
    loop {
        if c == anc {
            return true;
        }
        match parent(&c) {
            Some(p) => c = p.to_string(),
            None => return false,
        }
    }
}

pub fn bx(e: Ex) -> Box<Ex> {
    Box::new(e)
}

pub struct Src {
    pub defs: String,
    pub ndef: usize,
}

impl Src {
    pub fn new() -> Src {
        Src { defs: String::new(), ndef: 0 }
    }
    fn opt(&mut self, e: &Option<Box<Ex>>) -> String {
        match e {
            None => String::new(),
            Some(e) => format!(" {}", self.ex(e)),
        }
    }
    /// Text of e as one or more statements
    pub fn body(&mut self, e: &Ex) -> String {
        match e {
            Ex::Seq(v) => v.iter().map(|e| self.ex(e)).collect::<Vec<_>>().join("; "),
            e => self.ex(e),
        }
    }
    pub fn ex(&mut self, e: &Ex) -> String {
        match e {
            Ex::Nil => "nil".into(),
            Ex::False => "false".into(),
            Ex::Int(i) => i.to_string(),
            Ex::T(n) => format!("t({})", n),
            Ex::Raise(c) => format!("raise({}, \"m\")", c),
            Ex::Div0 => "(1 / 0)".into(),
            Ex::Seq(v) => format!("({})", v.iter().map(|e| self.ex(e)).collect::<Vec<_>>().join("; ")),
            Ex::If(c, a, None) => format!("if ({}) then {} end", self.ex(c), self.body(a)),
            Ex::If(c, a, Some(b)) => {
                format!("if ({}) then {} else {} end", self.ex(c), self.body(a), self.body(b))
            }
            Ex::Unless(c, a) => format!("unless {} then {} end", self.ex(c), self.body(a)),
            Ex::ModIf(neg, c, a) => {
                let a = self.ex(a);
                format!("({} {} {})", a, if *neg { "unless" } else { "if" }, self.ex(c))
            }
            Ex::While { until, k, n, body } => {
                let b = self.body(body);
                if *until {
                    format!("(i{k} = 0; until i{k} >= {n} do i{k} += 1; {b}; end)")
                } else {
                    format!("(i{k} = 0; while i{k} < {n} do i{k} += 1; {b}; end)")
                }
            }
            Ex::DoWhile { until, k, n, body } => {
                let b = self.body(body);
                if *until {
                    format!("(i{k} = 0; begin; i{k} += 1; {b}; end until i{k} >= {n})")
                } else {
                    format!("(i{k} = 0; begin; i{k} += 1; {b}; end while i{k} < {n})")
                }
            }
            Ex::Begin { body, rescues, els, ens } => {
                let mut s = format!("begin; {}; ", self.body(body));
                for r in rescues {
                    s.push_str("rescue");
                    if !r.classes.is_empty() {
                        s.push(' ');
                        s.push_str(&r.classes.join(", "));
                    }
                    if r.bind {
                        s.push_str(" => e");
                    }
                    s.push_str("; ");
                    if r.bind {
                        s.push_str("print e.class, \":\", e.message == \"m\", \" \"; ");
                    }
                    s.push_str(&self.body(&r.body));
                    s.push_str("; ");
                }
                if let Some(e) = els {
                    s.push_str(&format!("else; {}; ", self.body(e)));
                }
                if let Some(e) = ens {
                    s.push_str(&format!("ensure; {}; ", self.body(e)));
                }
                s.push_str("end");
                s
            }
            Ex::RescueMod(a, b) => {
                let a = self.ex(a);
                format!("({} rescue {})", a, self.ex(b))
            }
            Ex::Break(v) => format!("break{}", self.opt(v)),
            Ex::Next(v) => format!("next{}", self.opt(v)),
            Ex::Return(v) => format!("return{}", self.opt(v)),
            Ex::Iter(it, b) => {
                let b = self.body(b);
                match it {
                    It::Each => format!("[1, 2].each {{ |x| {b} }}"),
                    It::Times => format!("2.times {{ |x| {b} }}"),
                    It::Map => format!("[1, 2].map {{ |x| {b} }}"),
                    It::Loop(k) => {
                        format!("(i{k} = 0; loop {{ i{k} += 1; break 70 if i{k} > 2; {b} }})")
                    }
                    It::Upto => format!("1.upto(2) {{ |x| {b} }}"),
                    It::For => format!("(for x in [1, 2] do {b}; end)"),
                    It::Hash => format!("{{a: 1, b: 2}}.each {{ |k, v| {b} }}"),
                    It::WithIndex => format!("[1, 2].each_with_index {{ |x, j| {b} }}"),
                    It::Inject => format!("[1, 2].inject(0) {{ |x, j| {b} }}"),
                    It::Select => format!("[1, 2].select {{ |x| {b} }}"),
                    It::Yield2 => format!("y2 {{ {b} }}"),
                    It::YieldEnsure => format!("ye {{ {b} }}"),
                    It::YieldRescue => format!("yr {{ {b} }}"),
                    It::BlockCall => format!("bc {{ {b} }}"),
                    It::Pass => format!("ps {{ {b} }}"),
                    It::YieldWhile => format!("yw {{ {b} }}"),
                    It::YieldIn => format!("yi {{ {b} }}"),
                }
            }
            Ex::Lambda(b) => format!("lambda {{ {} }}.call", self.body(b)),
            Ex::Proc(b) => format!("Proc.new {{ {} }}.call", self.body(b)),
            Ex::Call(b) => {
                let b = self.body(b);
                self.ndef += 1;
                let n = self.ndef;
                self.defs.push_str(&format!("def mZZ_{n}; {b}; end; "));
                format!("mZZ_{n}")
            }
            Ex::Arr(v) => format!("[{}]", v.iter().map(|e| self.ex(e)).collect::<Vec<_>>().join(", ")),
            Ex::And(a, b) => {
                let a = self.ex(a);
                format!("({} && {})", a, self.ex(b))
            }
            Ex::Or(a, b) => {
                let a = self.ex(a);
                format!("({} || {})", a, self.ex(b))
            }
            Ex::Nth(k) => format!("($n += 1) == {}", k),
            Ex::Let(k, e) => format!("(v{k} = ({}); v{k})", self.ex(e)),
            Ex::Arg(e) => format!("id(({}))", self.ex(e)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ctl {
    Break(V),
    Next(V),
    Return(V),
    Raise(&'static str, bool),
}

#[derive(Default)]
pub struct Ev {
    pub out: String,
    pub n: i64,
    pub steps: usize,
    /// no execution is longer than this; exceeding: the model refuses
    pub limit: usize,
    pub overflow: bool,
}

type R = Result<V, Ctl>;

impl Ev {
    pub fn new() -> Ev {
        Ev { limit: 2000, ..Default::default() }
    }
    fn t(&mut self, n: i64) -> V {
        self.out.push_str(&format!("{} ", n));
        int(n)
    }
    fn opt(&mut self, e: &Option<Box<Ex>>) -> R {
        match e {
            None => Ok(V::Nil),
            Some(e) => self.ex(e),
        }
    }
    /// call the block: next gives its value
    fn blk(&mut self, b: &Ex) -> R {
        match self.ex(b) {
            Err(Ctl::Next(v)) => Ok(v),
            r => r,
        }
    }
    fn ensure(&mut self, r: R, n: i64) -> R {
        self.t(n);
        r
    }
    fn ye(&mut self, b: &Ex) -> R {
        let r = match self.blk(b) {
            Ok(r) => {
                self.t(93);
                Ok(r)
            }
            e => e,
        };
        self.ensure(r, 94)
    }
    fn iter(&mut self, it: It, b: &Ex) -> R {
        match it {
            It::Each | It::For | It::WithIndex => {
                for _ in 0..2 {
                    self.blk(b)?;
                }
                Ok(ints(&[1, 2]))
            }
            It::Times => {
                for _ in 0..2 {
                    self.blk(b)?;
                }
                Ok(int(2))
            }
            It::Upto => {
                for _ in 0..2 {
                    self.blk(b)?;
                }
                Ok(int(1))
            }
            It::Hash => {
                for _ in 0..2 {
                    self.blk(b)?;
                }
                Ok(V::Hash(vec![(sym("a"), int(1)), (sym("b"), int(2))]))
            }
            It::Map => {
                let mut v = vec![];
                for _ in 0..2 {
                    v.push(self.blk(b)?);
                }
                Ok(V::Arr(v))
            }
            It::Select => {
                let mut v = vec![];
                for i in 1..=2 {
                    if self.blk(b)?.truthy() {
                        v.push(int(i));
                    }
                }
                Ok(V::Arr(v))
            }
            It::Inject => {
                let mut v = int(0);
                for _ in 0..2 {
                    v = self.blk(b)?;
                }
                Ok(v)
            }
            It::Loop(_) => {
                let mut i = 0;
                loop {
                    i += 1;
                    if i > 2 {
                        return Err(Ctl::Break(int(70)));
                    }
                    self.blk(b)?;
                }
            }
            It::Yield2 => {
                let x = self.blk(b)?;
                self.t(91);
                let y = self.blk(b)?;
                self.t(92);
                Ok(V::Arr(vec![x, y]))
            }
            It::YieldEnsure => self.ye(b),
            It::YieldRescue => {
                let r = match self.blk(b) {
                    Err(Ctl::Raise(c, _)) if is_a(c, "EA") => Ok(self.t(95)),
                    r => r,
                };
                self.ensure(r, 96)
            }
            It::BlockCall => {
                let r = self.blk(b)?;
                self.t(97);
                Ok(r)
            }
            It::Pass => {
                let r = self.ye(b)?;
                self.t(98);
                Ok(r)
            }
            It::YieldWhile => {
                for _ in 0..2 {
                    let r = self.blk(b);
                    self.ensure(r, 99)?;
                }
                Ok(self.t(89))
            }
            It::YieldIn => {
                for _ in 0..2 {
                    let r = self.blk(b);
                    self.ensure(r, 88)?;
                }
                Ok(self.t(87))
            }
        }
    }
    fn begin(&mut self, body: &Ex, rescues: &[Resc], els: &Option<Box<Ex>>) -> R {
        match self.ex(body) {
            Ok(v) => match els {
                Some(e) => self.ex(e),
                None => Ok(v),
            },
            Err(Ctl::Raise(c, m)) => {
                for r in rescues {
                    let hit = if r.classes.is_empty() {
                        is_a(c, "StandardError")
                    } else {
                        r.classes.iter().any(|k| is_a(c, k))
                    };
                    if hit {
                        if r.bind {
                            self.out.push_str(&format!("{}:{} ", c, m));
                        }
                        return self.ex(&r.body);
                    }
                }
                Err(Ctl::Raise(c, m))
            }
            e => e,
        }
    }
    pub fn ex(&mut self, e: &Ex) -> R {
        self.steps += 1;
        if self.steps > self.limit {
            self.overflow = true;
            return Err(Ctl::Raise("EX", false));
        }
        match e {
            Ex::Nil => Ok(V::Nil),
            Ex::False => Ok(V::False),
            Ex::Int(i) => Ok(int(*i)),
            Ex::T(n) => Ok(self.t(*n)),
            Ex::Raise(c) => Err(Ctl::Raise(c, true)),
            Ex::Div0 => Err(Ctl::Raise("ZeroDivisionError", false)),
            Ex::Seq(v) => {
                let mut r = V::Nil;
                for e in v {
                    r = self.ex(e)?;
                }
                Ok(r)
            }
            Ex::If(c, a, b) => {
                if self.ex(c)?.truthy() {
                    self.ex(a)
                } else {
                    self.opt(b)
                }
            }
            Ex::Unless(c, a) => {
                if self.ex(c)?.truthy() {
                    Ok(V::Nil)
                } else {
                    self.ex(a)
                }
            }
            Ex::ModIf(neg, c, a) => {
                if self.ex(c)?.truthy() != *neg {
                    self.ex(a)
                } else {
                    Ok(V::Nil)
                }
            }
            Ex::While { n, body, .. } => {
                for _ in 0..*n {
                    match self.ex(body) {
                        Err(Ctl::Break(v)) => return Ok(v),
                        Err(Ctl::Next(_)) | Ok(_) => {}
                        e => return e,
                    }
                }
                Ok(V::Nil)
            }
            Ex::DoWhile { n, body, .. } => {
                for _ in 0..(*n).max(1) {
                    match self.ex(body) {
                        Err(Ctl::Break(v)) => return Ok(v),
                        Err(Ctl::Next(_)) | Ok(_) => {}
                        e => return e,
                    }
                }
                Ok(V::Nil)
            }
            Ex::Begin { body, rescues, els, ens } => {
                let r = self.begin(body, rescues, els);
                if let Some(e) = ens {
                    self.ex(e)?;
                }
                r
            }
            Ex::RescueMod(a, b) => match self.ex(a) {
                Err(Ctl::Raise(c, _)) if is_a(c, "StandardError") => self.ex(b),
                r => r,
            },
            Ex::Break(v) => {
                let v = self.opt(v)?;
                Err(Ctl::Break(v))
            }
            Ex::Next(v) => {
                let v = self.opt(v)?;
                Err(Ctl::Next(v))
            }
            Ex::Return(v) => {
                let v = self.opt(v)?;
                Err(Ctl::Return(v))
            }
            Ex::Iter(it, b) => match self.iter(*it, b) {
                Err(Ctl::Break(v)) => Ok(v),
                r => r,
            },
            Ex::Lambda(b) => match self.ex(b) {
                Err(Ctl::Break(v)) | Err(Ctl::Next(v)) | Err(Ctl::Return(v)) => Ok(v),
                r => r,
            },
            Ex::Proc(b) => self.blk(b),
            Ex::Call(b) => match self.ex(b) {
                Err(Ctl::Return(v)) => Ok(v),
                r => r,
            },
            Ex::Arr(v) => {
                let mut r = vec![];
                for e in v {
                    r.push(self.ex(e)?);
                }
                Ok(V::Arr(r))
            }
            Ex::And(a, b) => {
                let x = self.ex(a)?;
                if x.truthy() {
                    self.ex(b)
                } else {
                    Ok(x)
                }
            }
            Ex::Or(a, b) => {
                let x = self.ex(a)?;
                if x.truthy() {
                    Ok(x)
                } else {
                    self.ex(b)
                }
            }
            Ex::Nth(k) => {
                self.n += 1;
                Ok(boolean(self.n == *k))
            }
            Ex::Let(_, e) | Ex::Arg(e) => self.ex(e),
        }
    }
}

/// break/next/return may only stand where they have a target.
#[derive(Clone, Copy, PartialEq)]
pub struct Where {
    /// inside a while loop or a block (in this frame)
    pub brk: bool,
    pub nxt: bool,
}

pub const METHOD: Where = Where { brk: false, nxt: false };

pub fn valid(e: &Ex, w: Where) -> bool {
    let o = |e: &Option<Box<Ex>>, w: Where| e.as_ref().map(|e| valid(e, w)).unwrap_or(true);
    let lp = Where { brk: true, nxt: true };
    let bl = Where { brk: true, nxt: true };
    match e {
        Ex::Nil | Ex::False | Ex::Int(_) | Ex::T(_) | Ex::Raise(_) | Ex::Div0 | Ex::Nth(_) => true,
        Ex::Seq(v) => v.iter().all(|e| valid(e, w)),
        Ex::If(c, a, b) => valid(c, w) && valid(a, w) && o(b, w),
        Ex::Unless(c, a) | Ex::ModIf(_, c, a) => valid(c, w) && valid(a, w),
        Ex::While { body, .. } | Ex::DoWhile { body, .. } => valid(body, lp),
        Ex::Begin { body, rescues, els, ens } => {
            valid(body, w) && rescues.iter().all(|r| valid(&r.body, w)) && o(els, w) && o(ens, w)
        }
        Ex::RescueMod(a, b) | Ex::And(a, b) | Ex::Or(a, b) => valid(a, w) && valid(b, w),
        Ex::Break(v) => w.brk && o(v, w),
        Ex::Next(v) => w.nxt && o(v, w),
        Ex::Return(v) => o(v, w),
        Ex::Iter(_, b) => valid(b, bl),
        Ex::Lambda(b) => valid(b, bl),
        Ex::Proc(b) => valid(b, Where { brk: false, ..bl }),
        Ex::Call(b) => valid(b, METHOD),
        Ex::Arr(v) => v.iter().all(|e| valid(e, w)),
        Ex::Let(_, e) => valid(e, w),
        Ex::Arg(e) => valid(e, w),
    }
}

/// The program text (a method body) and what it must print and return.
pub fn program(e: &Ex) -> Option<(String, String)> {
    if !valid(e, METHOD) {
        return None;
    }
    let mut s = Src::new();
    let b = s.body(e);
    let code = format!("{}$n = 0; {}", s.defs, b);
    let mut ev = Ev::new();
    let r = ev.ex(e);
    if ev.overflow {
        return None;
    }
    let obs = match r {
        Ok(v) | Err(Ctl::Return(v)) => format!("{}{}", ev.out, v.inspect()),
        Err(Ctl::Raise(c, _)) => format!("{}!{}", ev.out, c),
        Err(_) => return None,
    };
    Some((code, obs))
}
