//! C12: exact integer arithmetic.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use num::bigint::{BigInt, Sign};
use num::{Integer, One, Signed, ToPrimitive, Zero};

pub fn pow2(k: u32) -> BigInt {
    BigInt::one() << k
}

pub fn values(thorough: bool) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![];
    let small: &[i64] = if thorough {
        &[0, 1, 2, 3, 5, 7, 8, 9, 10, 63, 64, 255, 256, 1000, 65535, 65536]
    } else {
        &[0, 1, 2, 3, 7, 10, 64, 256]
    };
    for s in small {
        v.push(BigInt::from(*s));
        v.push(BigInt::from(-*s));
    }
    let ks: &[u32] = if thorough {
        &[15, 16, 30, 31, 32, 33, 52, 53, 54, 60, 61, 62, 63, 64, 65, 96, 127, 128, 192]
    } else {
        &[31, 32, 53, 61, 62, 63, 64, 128]
    };
    for k in ks {
        for d in [-1i64, 0, 1] {
            let x = pow2(*k) + d;
            v.push(-x.clone());
            v.push(x);
        }
    }
    v.push(BigInt::from(3037000499u64));
    v.push(BigInt::from(3037000500u64));
    v.push(BigInt::from(4611686018427387904u64) / 3);
    v.sort();
    v.dedup();
    v
}

fn opt(r: Option<V>) -> String {
    match r {
        Some(v) => v.inspect(),
        None => "!ZeroDivisionError".into(),
    }
}

/// The definition of each binary operator. None: ZeroDivisionError
pub fn binop(op: &str, a: &BigInt, b: &BigInt) -> Option<V> {
    Some(match op {
        "+" => V::Int(a + b),
        "-" => V::Int(a - b),
        "*" => V::Int(a * b),
        "/" | "div" => {
            if b.is_zero() {
                return None;
            }
            V::Int(a.div_floor(b))
        }
        "%" => {
            if b.is_zero() {
                return None;
            }
            V::Int(a.mod_floor(b))
        }
        "&" => V::Int(a & b),
        "|" => V::Int(a | b),
        "^" => V::Int(a ^ b),
        "==" | "===" => boolean(a == b),
        "!=" => boolean(a != b),
        "<" => boolean(a < b),
        "<=" => boolean(a <= b),
        ">" => boolean(a > b),
        ">=" => boolean(a >= b),
        "<=>" => ord_v(Some(a.cmp(b))),
        "gcd" => V::Int(a.gcd(b).abs()),
        "lcm" => V::Int(if a.is_zero() || b.is_zero() {
            BigInt::zero()
        } else {
            a.lcm(b).abs()
        }),
        _ => panic!("{}", op),
    })
}

fn paren(a: &BigInt) -> String {
    if a.sign() == Sign::Minus {
        format!("({})", a)
    } else {
        a.to_string()
    }
}

pub fn run(ctx: &mut Ctx) {
    let vals = values(ctx.thorough);
    ctx.bound("operands", format!("{} values around 0 and +-2^k", vals.len()));
    let ops = ["+", "-", "*", "/", "%", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "<=>", "===", "gcd", "lcm", "div"];
    let mut cases = vec![];
    for a in &vals {
        for b in &vals {
            for op in ops {
                let e = opt(binop(op, a, b));
                let word = op.chars().all(|c| c.is_alphabetic());
                if word {
                    cases.push(Case::f(format!("a={a}; b={b}; a.{op}(b)"), e));
                    continue;
                }
                cases.push(Case::f(format!("a={a}; b={b}; a {op} b"), e.clone()));
                cases.push(Case::f(format!("a={a}; a {op} {}", paren(b)), e.clone()));
                if ctx.thorough || b.bits() <= 31 {
                    cases.push(Case::f(format!("b={b}; {} {op} b", paren(a)), e.clone()));
                    cases.push(Case::f(format!("{} {op} {}", paren(a), paren(b)), e.clone()));
                    cases.push(Case::f(format!("{}.{op}({b})", paren(a)), e.clone()));
                    cases.push(Case::f(format!("{}.send(:{op}, {b})", paren(a)), e.clone()));
                    if ["+", "-", "*", "/", "%", "&", "|", "^"].contains(&op) {
                        cases.push(Case::f(format!("a={a}; a {op}= {b}; a"), e.clone()));
                    }
                    if ["==", "!=", "<", "<=", ">", ">="].contains(&op) {
                        let w = |p: &str, q: &str| if e == "true" { p.to_string() } else { q.to_string() };
                        cases.push(Case::f(format!("a={a}; if a {op} {b} then 1 else 2 end"), w("1", "2")));
                        cases.push(Case::f(format!("a={a}; b={b}; 1 unless a {op} b"), w("nil", "1")));
                    }
                }
            }
        }
    }
    ctx.states += (vals.len() * vals.len()) as u64;
    ctx.transitions += cases.len() as u64;
    ctx.section("binary operators");
    Runner::new(ctx).run(cases.into_iter());

    // shifts
    let mut cases = vec![];
    let shifts: Vec<i64> = if ctx.thorough {
        (-130..=130).collect()
    } else {
        vec![-200, -129, -128, -65, -64, -63, -62, -33, -32, -31, -2, -1, 0, 1, 2, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 127, 128, 200]
    };
    for a in &vals {
        for s in &shifts {
            let shl = |a: &BigInt, s: i64| -> BigInt {
                if s >= 0 { a << (s as u64) } else { a.div_floor(&pow2((-s) as u32)) }
            };
            let l = V::Int(shl(a, *s)).inspect();
            let r = V::Int(shl(a, -*s)).inspect();
            cases.push(Case::f(format!("a={a}; s={s}; a << s"), l.clone()));
            cases.push(Case::f(format!("a={a}; s={s}; a >> s"), r.clone()));
            cases.push(Case::f(format!("a={a}; a << {s}"), l.clone()));
            cases.push(Case::f(format!("a={a}; a >>= {s}; a"), r));
            if *s >= -1 {
                let bit = if *s < 0 { BigInt::zero() } else { shl(a, -*s) & BigInt::one() };
                cases.push(Case::f(format!("a={a}; a[{s}]"), bit.to_string()));
            }
        }
    }
    ctx.states += (vals.len() * shifts.len()) as u64;
    ctx.transitions += cases.len() as u64;
    ctx.section("shifts and bit reference");
    Runner::new(ctx).run(cases.into_iter());

    // powers
    let mut cases = vec![];
    for a in &vals {
        let maxe: u32 = if a.bits() > 64 { 6 } else if a.bits() > 16 { 9 } else { 70 };
        for e in 0..=maxe {
            let r = num::pow(a.clone(), e as usize).to_string();
            cases.push(Case::f(format!("a={a}; e={e}; a ** e"), r.clone()));
            if e <= 3 {
                cases.push(Case::f(format!("a={a}; a.pow({e})"), r));
            }
        }
    }
    ctx.transitions += cases.len() as u64;
    ctx.section("powers");
    Runner::new(ctx).run(cases.into_iter());

    // unary and conversions
    let mut cases = vec![];
    for a in &vals {
        let mut put = |code: &str, e: String| {
            cases.push(Case::f(format!("a={a}; {code}"), e));
        };
        put("-a", (-a).to_string());
        put("+a", a.to_string());
        put("~a", (-a.clone() - 1i64).to_string());
        put("a.-@", (-a).to_string());
        put("a", a.to_string());
        put("a.to_s", format!("\"{}\"", a));
        put("\"#{a}\"", format!("\"{}\"", a));
        put("a.inspect", format!("\"{}\"", a));
        put("a.abs", a.abs().to_string());
        put("a.even?", a.is_even().to_string());
        put("a.odd?", a.is_odd().to_string());
        put("a.succ", (a + 1i64).to_string());
        put("a.next", (a + 1i64).to_string());
        put("a.pred", (a - 1i64).to_string());
        put("a.class", "Integer".into());
        put("a.to_i", a.to_string());
        put("a.floor", a.to_string());
        if a.bits() < 50 {
            put("a.to_f", fmt_float(a.to_f64().unwrap()));
        }
        put("a == a.to_s.to_i", if a.bits() <= 62 { "true".into() } else { "true".into() });
        put("Integer(a.to_s)", a.to_string());
        let bl = if a.is_negative() { (-a.clone() - 1u8).bits() } else { a.bits() };
        put("a.bit_length", bl.to_string());
        if !a.is_negative() {
            let ds: Vec<String> = a.to_string().chars().rev().map(|c| c.to_string()).collect();
            put("a.digits", format!("[{}]", ds.join(", ")));
        }
        put("a.eql?(a+1-1)", "true".into());
        put("[a+1-1].include?(a)", "true".into());
        put("{a=>1}[a+1-1]", "1".into());
        put("(a <=> a+1)", "-1".into());
    }
    ctx.transitions += cases.len() as u64;
    ctx.section("unary operations and conversions");
    Runner::new(ctx).run(cases.into_iter());

    // Two-step histories through the representation border and back.
    let mut cases = vec![];
    let border: Vec<BigInt> = vals.iter().filter(|v| v.bits() >= 60 && v.bits() <= 66).cloned().collect();
    let ops = ["+", "-", "*", "/", "&", "|"];
    for a in &border {
        for b in &border {
            for o1 in ops {
                for o2 in ops {
                    let Some(V::Int(m)) = binop(o1, a, b) else { continue };
                    let e = opt(binop(o2, &m, b));
                    cases.push(Case::f(format!("a={a}; b={b}; (a {o1} b) {o2} b"), e.clone()));
                    if ctx.thorough {
                        cases.push(Case::f(format!("a={a}; b={b}; c=a; c {o1}= b; c {o2}= b; c"), e));
                    }
                }
            }
        }
    }
    ctx.states += (border.len() * border.len()) as u64;
    ctx.transitions += cases.len() as u64;
    ctx.section("two-step histories across the border");
    Runner::new(ctx).run(cases.into_iter());
}
