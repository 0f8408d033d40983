//! C22: formatting, and conversion between numbers and text.
use crate::case::*;
use crate::report::Ctx;
use num::{BigInt, Signed, ToPrimitive, Zero};

fn q(s: &str) -> String {
    super::c21::q(s)
}

/// The exact decimal expansion of a finite float, rounded (ties to even) to `p` places.
fn fixed(f: f64, p: usize) -> String {
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i64;
    let m = bits & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let ten = num::pow(BigInt::from(10), p);
    let n = BigInt::from(m) * ten;
    let n = if e >= 0 {
        n << e as usize
    } else {
        let d = BigInt::from(1) << (-e) as usize;
        let (q, r) = (&n / &d, &n % &d);
        let twice = r * 2;
        if twice > d || twice == d && (&q % 2) == BigInt::from(1) {
            q + 1
        } else {
            q
        }
    };
    let s = n.to_string();
    let s = if s.len() <= p { format!("{}{s}", "0".repeat(p + 1 - s.len())) } else { s };
    let (i, d) = s.split_at(s.len() - p);
    let sign = if f.is_sign_negative() { "-" } else { "" };
    if p == 0 {
        format!("{sign}{i}")
    } else {
        format!("{sign}{i}.{d}")
    }
}

#[derive(Clone, Debug)]
enum A {
    I(BigInt),
    F(f64, &'static str),
    S(&'static str),
    O(&'static str, &'static str),
}

impl A {
    fn src(&self) -> String {
        match self {
            A::I(i) => i.to_string(),
            A::F(_, s) => s.to_string(),
            A::S(s) => q(s),
            A::O(s, _) => s.to_string(),
        }
    }
    fn int(&self) -> Option<BigInt> {
        match self {
            A::I(i) => Some(i.clone()),
            A::F(f, _) if f.is_finite() => Some(BigInt::from(f.trunc() as i128)),
            _ => None,
        }
    }
    fn text(&self) -> String {
        match self {
            A::I(i) => i.to_string(),
            A::F(_, s) => s.trim_matches(|c| c == '(' || c == ')').to_string(),
            A::S(s) => s.to_string(),
            A::O(_, t) => t.to_string(),
        }
    }
}

fn pad(s: String, width: usize) -> String {
    format!("{}{s}", " ".repeat(width.saturating_sub(s.chars().count())))
}

/// `%[0][width][.prec]conv` of one argument; None = raises.
fn directive(zero: bool, width: usize, prec: Option<usize>, conv: char, a: &A) -> Option<String> {
    Some(match conv {
        'd' | 'b' | 'x' | 'X' => {
            let i = a.int()?;
            let base = match conv {
                'd' => 10,
                'b' => 2,
                _ => 16,
            };
            let neg = i.is_negative();
            // digits, and what stands for infinitely many leading ones
            let (lead, mut digits, fill) = if !neg {
                ("", i.to_str_radix(base), '0')
            } else if base == 10 {
                ("-", (-&i).to_str_radix(10), '0')
            } else {
                let bits = if base == 2 { 1 } else { 4 };
                let mut n = 1;
                while BigInt::from(-1) << (n * bits - 1) as usize > i {
                    n += 1;
                }
                // n digits hold it; keep exactly one leading digit of ones
                let m = (BigInt::from(1) << (n * bits) as usize) + &i;
                let one = if base == 2 { '1' } else { 'f' };
                let s = m.to_str_radix(base);
                let s = format!("{}{s}", "0".repeat(n as usize - s.len()));
                (".." as &str, format!("{one}{}", s.trim_start_matches(one)), one)
            };
            if let Some(p) = prec {
                let dots = lead == "..";
                if digits.len() < p {
                    digits = format!("{}{digits}", fill.to_string().repeat(p - digits.len()));
                    let s = format!("{}{digits}", if dots { "" } else { lead });
                    return Some(up(conv, pad(s, width)));
                }
                return Some(up(conv, pad(format!("{lead}{digits}"), width)));
            }
            if zero {
                let have = lead.len() + digits.len();
                digits = format!("{}{digits}", fill.to_string().repeat(width.saturating_sub(have)));
            }
            up(conv, pad(format!("{lead}{digits}"), width))
        }
        'f' => {
            let p = prec.unwrap_or(6);
            let f = match a {
                A::F(f, _) => *f,
                A::I(i) => i.to_f64()?,
                _ => return None,
            };
            let s = if f.is_infinite() {
                return Some(pad(if f > 0.0 { "Inf".into() } else { "-Inf".into() }, width));
            } else {
                fixed(f, p)
            };
            if zero {
                let (sign, d) = match s.strip_prefix('-') {
                    Some(d) => ("-", d),
                    None => ("", &s[..]),
                };
                format!("{sign}{}{d}", "0".repeat(width.saturating_sub(s.len())))
            } else {
                pad(s, width)
            }
        }
        's' => {
            let s: String = a.text();
            let s = match prec {
                Some(p) => s.chars().take(p).collect(),
                None => s,
            };
            pad(s, width)
        }
        'c' => {
            let c = match a {
                A::I(i) => char::from_u32(i.to_u32()?)?.to_string(),
                A::S(s) => s.chars().next()?.to_string(),
                _ => return None,
            };
            pad(c, width)
        }
        _ => return None,
    })
}

fn up(conv: char, s: String) -> String {
    if conv == 'X' {
        s.to_uppercase()
    } else {
        s
    }
}

fn ints() -> Vec<BigInt> {
    let one = BigInt::from(1);
    let mut v: Vec<BigInt> = vec![];
    for i in [0i64, 1, 7, 8, 9, 10, 15, 16, 17, 42, 99, 100, 127, 128, 255, 256, 1000, 4095, 65535, 65536] {
        v.push(i.into());
    }
    for s in [31usize, 32, 53, 61, 62, 63, 64, 70, 100] {
        for d in [-1i64, 0, 1] {
            v.push((&one << s) + d);
        }
    }
    let neg: Vec<BigInt> = v.iter().filter(|x| !x.is_zero()).map(|x| -x).collect();
    v.extend(neg);
    v
}

const FLOATS: &[(f64, &str)] = &[
    (0.0, "0.0"),
    (0.5, "0.5"),
    (1.5, "1.5"),
    (2.5, "2.5"),
    (-0.5, "(-0.5)"),
    (-1.5, "(-1.5)"),
    (0.1, "0.1"),
    (0.125, "0.125"),
    (0.375, "0.375"),
    (3.99, "3.99"),
    (-3.99, "(-3.99)"),
    (2.675, "2.675"),
    (999.999, "999.999"),
    (-0.0004, "(-0.0004)"),
    (9.5, "9.5"),
    (123456.789, "123456.789"),
    (4294967296.5, "4294967296.5"),
    (0.0009, "0.0009"),
];

fn formats(ctx: &mut Ctx) {
    ctx.section("one directive");
    let mut args: Vec<A> = ints().into_iter().map(A::I).collect();
    args.extend(FLOATS.iter().map(|(f, s)| A::F(*f, s)));
    args.push(A::F(f64::INFINITY, "(1.0/0)"));
    args.push(A::F(f64::NEG_INFINITY, "(-1.0/0)"));
    args.extend(["", "a", "abc", "éx", "日本語", "12"].map(A::S));
    args.extend([A::O(":sym", "sym"), A::O("nil", ""), A::O("[[1, \"a\"]]", "[1, \"a\"]"), A::O("(1..2)", "1..2"), A::O("true", "true"), A::O("Object", "Object")]);
    let widths: &[Option<usize>] = if ctx.thorough { &[None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(9), Some(10), Some(20), Some(40)] } else { &[None, Some(1), Some(3), Some(5), Some(10), Some(22)] };
    let precs: &[Option<usize>] = if ctx.thorough { &[None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(10), Some(17), Some(30)] } else { &[None, Some(0), Some(1), Some(2), Some(5), Some(17)] };
    let mut v = vec![];
    for a in &args {
        for conv in ['d', 'b', 'x', 'X', 'f', 's', 'c'] {
            // what is not implemented: text and nil as numbers, containers as characters
            let numeric = matches!(a, A::I(_) | A::F(..));
            if !numeric && "dbxXf".contains(conv) || conv == 'c' && matches!(a, A::F(..) | A::O(..)) || conv == 's' && matches!(a, A::F(f, _) if f.is_infinite()) {
                continue;
            }
            // (how inspect spells control characters is not asked here)
            if conv == 'c' && matches!(a, A::I(i) if !i.is_negative() && i.to_u32().and_then(char::from_u32).map_or(false, |c| c.is_control() || c as u32 > 0xfff)) {
                continue;
            }
            for zero in [false, true] {
                if zero && (conv == 's' || conv == 'c') {
                    continue;
                }
                for w in widths {
                    if zero && w.is_none() {
                        continue;
                    }
                    for p in precs {
                        if conv == 'c' && p.is_some() || conv == 'f' && zero && matches!(a, A::F(f, _) if f.is_infinite()) {
                            continue;
                        }
                        // the digits asked of negative numbers in other bases
                        if p.is_some() && zero && conv != 'f' {
                            continue;
                        }
                        let spec = format!(
                            "%{}{}{}{conv}",
                            if zero { "0" } else { "" },
                            w.map_or(String::new(), |w| w.to_string()),
                            p.map_or(String::new(), |p| format!(".{p}"))
                        );
                        if conv == 'd' && *p == Some(0) && a.int().map_or(false, |i| i.is_zero()) {
                            continue;
                        }
                        let src = match a {
                            A::O(s, _) if s.starts_with('[') => s.to_string(),
                            _ => format!("[{}]", a.src()),
                        };
                        let e = match directive(zero, w.unwrap_or(0), *p, conv, a) {
                            Some(s) => q(&s),
                            None => ANYERR.to_string(),
                        };
                        v.push(Case::f(&format!("\"{spec}\" % {src}"), e));
                    }
                }
            }
        }
    }
    // several directives and text between them take the arguments in order
    ctx.section("sequences of directives");
    let parts: Vec<(&str, Option<char>)> = vec![("%d", Some('d')), ("%x", Some('x')), ("%s", Some('s')), ("%f", Some('f')), ("%c", Some('c')), ("%03d", Some('d')), ("%%", None), ("é", None), ("a%%b", None), (" ", None)];
    let n = parts.len();
    let len = if ctx.thorough { 4 } else { 3 };
    ctx.bound("directives", len);
    for l in 0..=len {
        for k in 0..n.pow(l) {
            let ix: Vec<usize> = (0..l).map(|d| k / n.pow(d) % n).collect();
            let fmt: String = ix.iter().map(|i| parts[*i].0).collect();
            let need = ix.iter().filter(|i| parts[**i].1.is_some()).count();
            for have in [need, need + 1, need.wrapping_sub(1)] {
                if have > 9 {
                    continue;
                }
                let nums: Vec<BigInt> = (0..have).map(|i| BigInt::from(65 + i)).collect();
                let mut at = 0;
                let mut out = String::new();
                for i in &ix {
                    match parts[*i] {
                        (t, None) => out += &t.replace("%%", "%"),
                        (t, Some(c)) => {
                            if at < have {
                                out += &directive(t.contains('0'), if t.contains('3') { 3 } else { 0 }, None, c, &A::I(nums[at].clone())).unwrap();
                            }
                            at += 1;
                        }
                    }
                }
                let list = nums.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
                let e = if have < need { ANYERR.to_string() } else { q(&out) };
                v.push(Case::f(&format!("\"{fmt}\" % [{list}]"), e.clone()));
                if have == 1 {
                    v.push(Case::f(&format!("\"{fmt}\" % {}", nums[0]), e));
                }
            }
        }
    }
    for bad in ["\"%\" % 1", "\"%5\" % 1", "\"%.\" % 1", "\"%.2\" % 1", "\"%y\" % 1", "\"%d\" % nil", "\"%d\" % \"x\"", "\"%d\" % [[]]", "\"%f\" % nil", "\"%f\" % :a", "\"%c\" % -1", "\"%c\" % 55296", "\"%c\" % (2**40)", "\"%d\" % (0.0/0)", "\"%x\" % (1.0/0)", "\"%99999999999999999999d\" % 1", "\"%.99999999999999999999f\" % 1.0", "\"%c\" % []", "\"%c\" % \"\""] {
        v.push(Case::f(bad, if bad.ends_with("\"\"") { ANY } else { ANYERR }));
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(60).run(v.into_iter());
}

/// What `to_i` reads at the start of the text, and whether it is all of it (as Integer() asks).
fn to_i(s: &str) -> BigInt {
    let s = s.trim_start_matches([' ', '\t', '\n']);
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let mut n = BigInt::from(0);
    let mut digit = false;
    for c in s.chars() {
        match c.to_digit(10) {
            Some(d) => {
                n = n * 10 + d;
                digit = true;
            }
            None if c == '_' && digit => digit = false,
            None => break,
        }
    }
    if neg {
        -n
    } else {
        n
    }
}

fn strict(s: &str) -> Option<BigInt> {
    let t = s.trim_matches([' ', '\t', '\n']);
    let d = t.strip_prefix(['-', '+']).unwrap_or(t);
    let ok = !d.is_empty() && d.chars().all(|c| c == '_' || c.is_ascii_digit()) && !d.starts_with('_') && !d.ends_with('_') && !d.contains("__");
    ok.then(|| to_i(t))
}

fn reading(ctx: &mut Ctx) {
    ctx.section("to_i, Integer()");
    let len = if ctx.thorough { 5 } else { 4 };
    ctx.bound("text length", len);
    let alpha = ['0', '1', '9', '_', '-', '+', ' ', 'a', '.', '\n'];
    let n = alpha.len();
    let mut v = vec![];
    for l in 0..=len {
        for k in 0..n.pow(l) {
            let s: String = (0..l).map(|d| alpha[k / n.pow(d) % n]).collect();
            let i = to_i(&s);
            let d = s.trim().trim_start_matches(['-', '+']);
            // (the octal prefix 0 is not implemented)
            let octal = d.len() > 1 && d.starts_with('0');
            if octal {
                v.push(Case::f(&format!("{}.to_i", q(&s)), i.to_string()));
            } else {
                v.push(Case::f(
                    &format!("s = {}; [s.to_i, (Integer(s) rescue :bad)]", q(&s)),
                    format!("[{i}, {}]", strict(&s).map_or(":bad".into(), |i| i.to_string())),
                ));
            }
        }
    }
    for i in ints() {
        v.push(Case::f(&format!("n = {i}; s = n.to_s; [s, s.to_i, Integer(s), s.to_i == n, n.inspect, \"#{{n}}\", (s + \"x\").to_i, (\" \" + s).to_i, Integer(n)]"), format!("[\"{i}\", {i}, {i}, true, \"{i}\", \"{i}\", {i}, {i}, {i}]")));
        if !i.is_negative() {
            for base in [2u32, 3, 7, 10, 16, 100, 1 << 20] {
                let mut n = i.clone();
                let mut ds = vec![];
                while !n.is_zero() || ds.is_empty() {
                    ds.push((&n % base).to_string());
                    n /= base;
                }
                let arg = if base == 10 { String::new() } else { format!("({base})") };
                v.push(Case::f(&format!("{i}.digits{arg}"), format!("[{}]", ds.join(", "))));
            }
        } else {
            v.push(Case::f(&format!("({i}).digits"), ANYERR));
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(60).run(v.into_iter());
}

/// Shortest text that reads back as the same float, in Ruby's layout.
pub fn float_text(f: f64) -> String {
    if f.is_nan() {
        return "NaN".into();
    }
    if f.is_infinite() {
        return if f > 0.0 { "Infinity".into() } else { "-Infinity".into() };
    }
    if f == 0.0 {
        return if f.is_sign_negative() { "-0.0".into() } else { "0.0".into() };
    }
    let s = format!("{f:e}");
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let (sign, m) = match m.strip_prefix('-') {
        Some(m) => ("-", m),
        None => ("", m),
    };
    let d: String = m.chars().filter(|c| *c != '.').collect();
    if (-4..16).contains(&e) {
        if e < 0 {
            format!("{sign}0.{}{d}", "0".repeat((-e - 1) as usize))
        } else {
            let e = e as usize;
            if d.len() <= e + 1 {
                format!("{sign}{d}{}.0", "0".repeat(e + 1 - d.len()))
            } else {
                format!("{sign}{}.{}", &d[..=e], &d[e + 1..])
            }
        }
    } else {
        let frac = if d.len() == 1 { "0" } else { &d[1..] };
        format!("{sign}{}.{frac}e{}{:02}", &d[..1], if e < 0 { '-' } else { '+' }, e.abs())
    }
}

fn floats(ctx: &mut Ctx) {
    ctx.section("text of floats");
    let mut v = vec![];
    let mants: &[&str] = if ctx.thorough { &["1", "2.5", "9.5", "1.25", "9.999", "1.23456789", "1.234567890123456", "9.999999999999999", "3.3333333333333335", "5"] } else { &["1", "2.5", "9.75", "1.23456789", "9.999999999999999"] };
    let exps: Vec<i32> = if ctx.thorough { (-40..=40).chain([-323, -308, -300, -100, 100, 200, 300, 307]).collect() } else { (-8..=24).chain([-300, -100, 100, 300]).collect() };
    for m in mants {
        for e in &exps {
            for sign in ["", "-"] {
                let src = format!("{sign}{m}e{e}");
                let f: f64 = src.parse().unwrap();
                let t = float_text(f);
                v.push(Case::f(&format!("x = {src}; [x.to_s, \"#{{x}}\", x, x == {src}]"), format!("[\"{t}\", \"{t}\", {t}, true]")));
                // floor, truncation
                if f.abs() < 1e18 {
                    v.push(Case::f(&format!("x = {src}; [x.to_i, x.floor, Integer(x)]"), format!("[{0}, {1}, {0}]", f.trunc() as i128, f.floor() as i128)));
                }
            }
        }
    }
    for (s, t) in [("1.0/0", "Infinity"), ("-1.0/0", "-Infinity"), ("0.0/0", "NaN")] {
        v.push(Case::f(&format!("x = {s}; [x.to_s, \"#{{x}}\", x]"), format!("[\"{t}\", \"{t}\", {t}]")));
        v.push(Case::f(&format!("({s}).to_i"), ANYERR.to_string()));
        v.push(Case::f(&format!("({s}).floor"), ANYERR.to_string()));
        v.push(Case::f(&format!("Integer({s})"), ANYERR.to_string()));
    }
    // characters
    for i in [0i64, 10, 32, 65, 97, 126, 127] {
        v.push(Case::f(&format!("s = {i}.chr; [s.size, s.ord, s.bytes]"), format!("[1, {i}, [{i}]]")));
    }
    for c in ['a', 'é', '日', '😀', '\n'] {
        v.push(Case::f(&format!("{}.ord", q(&c.to_string())), (c as u32).to_string()));
        v.push(Case::f(&format!("\"%c\" % {}", c as u32), q(&c.to_string())));
    }
    v.push(Case::f("\"\".ord", ANYERR));
    ctx.section("padding");
    for s in ["", "a", "ab", "é日"] {
        let n = s.chars().count() as i64;
        for w in -1..9i64 {
            for pad in ["", "*", "xy", "日x-"] {
                let fill = |k: i64| -> String {
                    let p = if pad.is_empty() { " " } else { pad };
                    p.chars().cycle().take(k.max(0) as usize).collect()
                };
                let m = (w - n).max(0);
                let arg = if pad.is_empty() { format!("{w}") } else { format!("{w}, {}", q(pad)) };
                v.push(Case::f(
                    &format!("s = {}; [s.center({arg}), s.ljust({arg}), s.rjust({arg}), s]", q(s)),
                    format!("[{}, {}, {}, {}]", q(&format!("{}{s}{}", fill(m / 2), fill(m - m / 2))), q(&format!("{s}{}", fill(m))), q(&format!("{}{s}", fill(m))), q(s)),
                ));
            }
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(60).run(v.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    formats(ctx);
    reading(ctx);
    floats(ctx);
}
