//! Values of the reference models.
use num::bigint::BigInt;
use num::ToPrimitive;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Nil,
    True,
    False,
    Int(BigInt),
    Float(f64),
    Str(String),
    Sym(String),
    Arr(Vec<V>),
    /// insertion-ordered
    Hash(Vec<(V, V)>),
    Range(Box<V>, Box<V>, bool),
}

pub fn int(i: i64) -> V {
    V::Int(BigInt::from(i))
}
pub fn st(s: &str) -> V {
    V::Str(s.to_string())
}
pub fn sym(s: &str) -> V {
    V::Sym(s.to_string())
}
pub fn arr(v: Vec<V>) -> V {
    V::Arr(v)
}
pub fn ints(v: &[i64]) -> V {
    V::Arr(v.iter().map(|i| int(*i)).collect())
}
pub fn boolean(b: bool) -> V {
    if b {
        V::True
    } else {
        V::False
    }
}

pub fn fmt_float(f: f64) -> String {
    crate::props::c22::float_text(f)
}

pub fn str_inspect(s: &str) -> String {
    let mut o = String::from("\"");
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '#' if matches!(it.peek(), Some('{' | '$' | '@')) => o.push_str("\\#"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\x0b' => o.push_str("\\v"),
            '\x07' => o.push_str("\\a"),
            '\x08' => o.push_str("\\b"),
            '\x0c' => o.push_str("\\f"),
            '\x1b' => o.push_str("\\e"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl V {
    pub fn truthy(&self) -> bool {
        !matches!(self, V::Nil | V::False)
    }
    pub fn inspect(&self) -> String {
        match self {
            V::Nil => "nil".into(),
            V::True => "true".into(),
            V::False => "false".into(),
            V::Int(i) => i.to_string(),
            V::Float(f) => fmt_float(*f),
            V::Str(s) => str_inspect(s),
            V::Sym(s) => format!(":{}", s),
            V::Arr(a) => format!(
                "[{}]",
                a.iter().map(|x| x.inspect()).collect::<Vec<_>>().join(", ")
            ),
            V::Hash(h) => format!(
                "{{{}}}",
                h.iter()
                    .map(|(k, v)| format!("{}=>{}", k.inspect(), v.inspect()))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            V::Range(a, b, e) => {
                format!("{}{}{}", a.inspect(), if *e { "..." } else { ".." }, b.inspect())
            }
        }
    }
    /// Source text that denotes the value.
    pub fn lit(&self) -> String {
        match self {
            V::Range(..) => format!("({})", self.inspect()),
            V::Hash(h) if h.is_empty() => "{}".into(),
            _ => self.inspect(),
        }
    }
    pub fn to_s(&self) -> String {
        match self {
            V::Nil => String::new(),
            V::Str(s) | V::Sym(s) => s.clone(),
            V::Range(a, b, e) => {
                format!("{}{}{}", a.to_s(), if *e { "..." } else { ".." }, b.to_s())
            }
            _ => self.inspect(),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            V::Nil => "NilClass",
            V::True => "TrueClass",
            V::False => "FalseClass",
            V::Int(_) => "Integer",
            V::Float(_) => "Float",
            V::Str(_) => "String",
            V::Sym(_) => "Symbol",
            V::Arr(_) => "Array",
            V::Hash(_) => "Hash",
            V::Range(..) => "Range",
        }
    }
    /// ==
    pub fn req(&self, o: &V) -> bool {
        match (self, o) {
            (V::Int(a), V::Float(_)) => cmp_int_float(a, o.f()) == Some(Ordering::Equal),
            (V::Float(_), V::Int(b)) => cmp_int_float(b, self.f()) == Some(Ordering::Equal),
            (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.req(y)),
            (V::Hash(a), V::Hash(b)) => {
                a.len() == b.len()
                    && a.iter().all(|(k, v)| {
                        b.iter().any(|(k2, v2)| k.eql(k2) && v.req(v2))
                    })
            }
            (V::Range(a, b, e), V::Range(c, d, f)) => e == f && a.req(c) && b.req(d),
            _ => self == o,
        }
    }
    /// eql?
    pub fn eql(&self, o: &V) -> bool {
        match (self, o) {
            (V::Arr(a), V::Arr(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eql(y))
            }
            (V::Hash(a), V::Hash(b)) => {
                a.len() == b.len()
                    && a.iter()
                        .all(|(k, v)| b.iter().any(|(k2, v2)| k.eql(k2) && v.eql(v2)))
            }
            _ => self == o,
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            V::Float(f) => *f,
            V::Int(i) => i.to_f64().unwrap(),
            _ => f64::NAN,
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            V::Int(i) => i.to_i64().unwrap(),
            _ => panic!("not an int"),
        }
    }
    /// <=>
    pub fn cmp(&self, o: &V) -> Option<Ordering> {
        match (self, o) {
            (V::Int(a), V::Int(b)) => Some(a.cmp(b)),
            (V::Float(a), V::Float(b)) => a.partial_cmp(b),
            (V::Int(a), V::Float(b)) => cmp_int_float(a, *b),
            (V::Float(a), V::Int(b)) => cmp_int_float(b, *a).map(|x| x.reverse()),
            (V::Str(a), V::Str(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
            (V::Sym(a), V::Sym(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
            (V::Arr(a), V::Arr(b)) => {
                for (x, y) in a.iter().zip(b) {
                    match x.cmp(y) {
                        Some(Ordering::Equal) => {}
                        r => return r,
                    }
                }
                Some(a.len().cmp(&b.len()))
            }
            _ => {
                if self.req(o) {
                    Some(Ordering::Equal)
                } else {
                    None
                }
            }
        }
    }
}

pub fn cmp_int_float(a: &BigInt, f: f64) -> Option<Ordering> {
    if f.is_nan() {
        return None;
    }
    if f.is_infinite() {
        return Some(if f > 0.0 { Ordering::Less } else { Ordering::Greater });
    }
    let t = f.trunc();
    let b = <BigInt as num::FromPrimitive>::from_f64(t).unwrap();
    match a.cmp(&b) {
        Ordering::Equal => 0.0f64.partial_cmp(&(f - t)),
        r => Some(r),
    }
}

pub fn ord_v(o: Option<Ordering>) -> V {
    match o {
        None => V::Nil,
        Some(o) => int(o as i64),
    }
}
