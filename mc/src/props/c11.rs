//! C11: String operations against a character-sequence model.
use crate::case::{Case, Runner};
use crate::model::val::*;
use crate::report::Ctx;
use crate::worker::Gc;

type R = Result<V, &'static str>;

fn cs(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn sv(c: &[char]) -> V {
    V::Str(c.iter().collect())
}

/// What a subscript selects: (start, length), in characters.
#[derive(Clone, Debug)]
enum Sub {
    At(i64),
    Len(i64, i64),
    Rng(i64, i64, bool),
    Str(&'static str),
}
impl Sub {
    fn src(&self) -> String {
        match self {
            Sub::At(i) => format!("{i}"),
            Sub::Len(i, l) => format!("{i}, {l}"),
            Sub::Rng(a, b, x) => format!("{a}{}{b}", if *x { "..." } else { ".." }),
            Sub::Str(s) => str_inspect(s),
        }
    }
    fn find(&self, s: &[char], assign: bool) -> Option<(usize, usize)> {
        let n = s.len() as i64;
        let clip = |i: i64, l: i64| {
            let i = if i < 0 { i + n } else { i };
            if i < 0 || i > n || l < 0 {
                None
            } else {
                Some((i as usize, l.min(n - i) as usize))
            }
        };
        match self {
            Sub::At(i) => {
                if assign && *i == n {
                    return Some((n as usize, 0));
                }
                clip(*i, 1).filter(|x| x.1 == 1)
            }
            Sub::Len(i, l) => clip(*i, *l),
            Sub::Rng(a, b, x) => {
                let a = if *a < 0 { a + n } else { *a };
                let b = (if *b < 0 { b + n } else { *b }) + if *x { 0 } else { 1 };
                if a < 0 {
                    None
                } else {
                    clip(a, (b - a).max(0))
                }
            }
            Sub::Str(t) => {
                let t = cs(t);
                (0..=s.len()).find(|i| s[*i..].starts_with(&t)).map(|i| (i, t.len()))
            }
        }
    }
}
fn subs(lo: i64, hi: i64, lens: &[i64], strs: &[&'static str]) -> Vec<Sub> {
    let mut v = vec![];
    for i in lo..=hi {
        v.push(Sub::At(i));
        for l in lens {
            v.push(Sub::Len(i, *l));
        }
        for j in lo..=hi {
            v.push(Sub::Rng(i, j, false));
            v.push(Sub::Rng(i, j, true));
        }
    }
    v.extend(strs.iter().map(|s| Sub::Str(s)));
    v
}

fn find_all(s: &[char], p: &[char]) -> Vec<usize> {
    let (mut v, mut i) = (vec![], 0);
    while i + p.len() <= s.len() {
        if s[i..].starts_with(p) {
            v.push(i);
            i += p.len().max(1);
        } else {
            i += 1;
        }
    }
    v
}
fn split_at(s: &[char], sep: &str, lim: i64) -> Vec<V> {
    let mut out: Vec<Vec<char>> = vec![];
    let p = cs(sep);
    if s.is_empty() {
        return vec![];
    }
    if lim == 1 {
        return vec![sv(s)];
    }
    let mut i = 0;
    if sep == " " {
        let ws = |c: char| " \t\n\r\x0b\x0c".contains(c);
        while i < s.len() && ws(s[i]) {
            i += 1;
        }
        let mut ended = i < s.len();
        while i < s.len() {
            if lim > 0 && out.len() as i64 == lim - 1 {
                out.push(s[i..].to_vec());
                ended = false;
                break;
            }
            let b = i;
            while i < s.len() && !ws(s[i]) {
                i += 1;
            }
            out.push(s[b..i].to_vec());
            ended = i < s.len();
            while i < s.len() && ws(s[i]) {
                i += 1;
            }
        }
        if ended {
            out.push(vec![]);
        }
    } else {
        loop {
            let hit = if lim > 0 && out.len() as i64 == lim - 1 {
                None
            } else if p.is_empty() {
                (i < s.len()).then_some((i + 1, i + 1))
            } else {
                (i..s.len()).find(|k| s[*k..].starts_with(&p)).map(|k| (k, k + p.len()))
            };
            match hit {
                Some((e, n)) => {
                    out.push(s[i..e].to_vec());
                    i = n;
                }
                None => {
                    out.push(s[i..].to_vec());
                    break;
                }
            }
        }
    }
    if lim == 0 {
        while out.last().map_or(false, |x| x.is_empty()) {
            out.pop();
        }
    }
    out.iter().map(|x| sv(x)).collect()
}
fn set(spec: &str) -> (bool, Vec<char>) {
    let c = cs(spec);
    let neg = c.len() > 1 && c[0] == '^';
    let c = &c[neg as usize..];
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if i + 2 < c.len() && c[i + 1] == '-' {
            v.extend(c[i]..=c[i + 2]);
            i += 3;
        } else {
            v.push(c[i]);
            i += 1;
        }
    }
    (neg, v)
}
fn in_set(spec: &str, c: char) -> bool {
    let (n, v) = set(spec);
    v.contains(&c) != n
}
fn tr(s: &[char], from: &str, to: &str) -> Vec<char> {
    let (n, f) = set(from);
    let t = set(to).1;
    s.iter()
        .filter_map(|c| {
            let p = if n {
                (!f.contains(c)).then_some(usize::MAX)
            } else {
                f.iter().position(|x| x == c)
            };
            match p {
                None => Some(*c),
                Some(i) => t.get(i).or(t.last()).copied(),
            }
        })
        .collect()
}
fn pad(s: &[char], w: i64, p: &str, left: bool, right: bool) -> Vec<char> {
    let p = cs(p);
    let n = (w - s.len() as i64).max(0) as usize;
    let (l, r) = match (left, right) {
        (true, true) => (n / 2, n - n / 2),
        (true, false) => (n, 0),
        _ => (0, n),
    };
    let mut v: Vec<char> = p.iter().cycle().take(l).copied().collect();
    v.extend(s);
    v.extend(p.iter().cycle().take(r));
    v
}
/// Ruby's successor, for ASCII strings
fn succ(s: &[char]) -> Vec<char> {
    let mut v = s.to_vec();
    if v.is_empty() {
        return v;
    }
    if !v.iter().any(|c| c.is_ascii_alphanumeric()) {
        let n = v.len();
        v[n - 1] = (v[n - 1] as u8 + 1) as char;
        return v;
    }
    let mut last: Option<usize> = None;
    let mut i = v.len();
    let mut gap = false;
    while i > 0 {
        i -= 1;
        let c = v[i];
        if !c.is_ascii_alphanumeric() {
            gap = true;
            continue;
        }
        if let (Some(l), true) = (last, gap) {
            if v[l].is_ascii_digit() != c.is_ascii_digit() {
                break;
            }
        }
        gap = false;
        v[i] = match c {
            'z' => 'a',
            'Z' => 'A',
            '9' => '0',
            c => {
                v[i] = (c as u8 + 1) as char;
                return v;
            }
        };
        last = Some(i);
    }
    let l = last.unwrap();
    v.insert(l, if v[l] == '0' { '1' } else { v[l] });
    v
}
fn is_ws(c: char) -> bool {
    " \t\n\r\x0b\x0c".contains(c)
}
fn lstrip(s: &[char]) -> Vec<char> {
    s.iter().skip_while(|c| is_ws(**c)).copied().collect()
}
fn rstrip(s: &[char]) -> Vec<char> {
    let mut v = s.to_vec();
    while v.last().map_or(false, |c| is_ws(*c)) {
        v.pop();
    }
    v
}
fn chomp(s: &[char], a: Option<&str>) -> Vec<char> {
    let mut v = s.to_vec();
    match a {
        // ruruby removes every trailing line terminator (its test suite says so)
        None => {
            while matches!(v.last(), Some('\n' | '\r')) {
                v.pop();
            }
        }
        Some("") => {
            while v.last() == Some(&'\n') {
                v.pop();
                if v.last() == Some(&'\r') {
                    v.pop();
                }
            }
        }
        Some(a) => {
            let a = cs(a);
            if v.ends_with(&a) {
                v.truncate(v.len() - a.len());
            }
        }
    }
    v
}
fn to_i(s: &[char]) -> V {
    let s = lstrip(s);
    let (neg, s) = match s.first() {
        Some('-') => (true, &s[1..]),
        Some('+') => (false, &s[1..]),
        _ => (false, &s[..]),
    };
    let mut n: i64 = 0;
    let mut us = true;
    for c in s {
        match c {
            '0'..='9' => {
                n = n * 10 + (*c as i64 - 48);
                us = false
            }
            '_' if !us => us = true,
            _ => break,
        }
    }
    int(if neg { -n } else { n })
}
fn lines(s: &[char]) -> V {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s {
        cur.push(*c);
        if *c == '\n' {
            v.push(V::Str(std::mem::take(&mut cur)));
        }
    }
    if !cur.is_empty() {
        v.push(V::Str(cur));
    }
    arr(v)
}
fn up(s: &[char]) -> V {
    V::Str(s.iter().collect::<String>().to_uppercase())
}
fn down(s: &[char]) -> V {
    V::Str(s.iter().collect::<String>().to_lowercase())
}

struct Q {
    src: String,
    f: Box<dyn Fn(&[char]) -> R + Send + Sync>,
    ascii: bool,
}
fn q(src: impl Into<String>, f: impl Fn(&[char]) -> V + Send + Sync + 'static) -> Q {
    Q { src: src.into(), f: Box::new(move |s| Ok(f(s))), ascii: false }
}

fn queries(t: bool) -> Vec<Q> {
    let mut v = vec![
        q("s.length", |s| int(s.len() as i64)),
        q("s.size", |s| int(s.len() as i64)),
        q("s.empty?", |s| boolean(s.is_empty())),
        q("s.chars", |s| arr(s.iter().map(|c| sv(&[*c])).collect())),
        q("s.bytes", |s| arr(s.iter().collect::<String>().bytes().map(|b| int(b as i64)).collect())),
        q("s.codepoints", |s| arr(s.iter().map(|c| int(*c as i64)).collect())),
        q("s.lines", lines),
        q("s.sum", |s| int(s.iter().collect::<String>().bytes().map(|b| b as i64).sum::<i64>() & 0xffff)),
        q("s.upcase", up),
        q("s.downcase", down),
        q("s.strip", |s| sv(&rstrip(&lstrip(s)))),
        q("s.lstrip", |s| sv(&lstrip(s))),
        q("s.rstrip", |s| sv(&rstrip(s))),
        q("s.chomp", |s| sv(&chomp(s, None))),
        q("s.to_i", to_i),
        q("s.to_s", sv),
        q("s.inspect", |s| V::Str(sv(s).inspect())),
        q("s.dup", sv),
        q("[s.to_sym == s.to_sym, s.to_sym.to_s, s.intern.class.to_s]", |s| arr(vec![V::True, sv(s), st("Symbol")])),
        q("eval(s.inspect)", sv),
        q("\"<#{s}>\"", |s| V::Str(format!("<{}>", s.iter().collect::<String>()))),
        q("r = []; s.each_char { |c| r << c }; r", |s| arr(s.iter().map(|c| sv(&[*c])).collect())),
        q("r = []; s.each_byte { |c| r << c }; r", |s| arr(s.iter().collect::<String>().bytes().map(|b| int(b as i64)).collect())),
        q("r = []; s.each_char { |c| r << c; s << 'x' if r.size < 3 }; r", |s| arr(s.iter().map(|c| sv(&[*c])).collect())),
        q("s.split", |s| arr(split_at(s, " ", 0))),
        q("s.chars.join", sv),
        q("s.chars.join('é-')", |s| V::Str(s.iter().map(|c| c.to_string()).collect::<Vec<_>>().join("é-"))),
        q("s == s.chars.join", |_| V::True),
        q("{s => 1}[s.chars.join]", |_| int(1)),
        q("{s => 1}[('x' * 40 + s)[40, 999]]", |_| int(1)),
        q("x = 'x' * 40 + s; x.slice!(0, 40); [x == s, s == x, x.eql?(s), {s => 1}[x], {x => 1}[s], x <=> s]", |_| arr(vec![V::True, V::True, V::True, int(1), int(1), int(0)])),
    ];
    v.push(Q {
        src: "s.ord".into(),
        f: Box::new(|s| s.first().map(|c| int(*c as i64)).ok_or("ArgumentError")),
        ascii: false,
    });
    for m in ["succ", "next"] {
        v.push(Q { src: format!("s.{m}"), f: Box::new(|s| Ok(sv(&succ(s)))), ascii: true });
    }
    let pats: &[&'static str] = if t { &["", "a", "b", "é", "ab", "aa", " ", "\n", "éa", "9", "aé", "z9"] } else { &["", "a", "é", "ab", " ", "\n"] };
    for p in pats {
        let p: &'static str = p;
        let l = str_inspect(p);
        v.push(q(format!("s.include?({l})"), move |s| boolean(Sub::Str(p).find(s, false).is_some())));
        v.push(q(format!("s.start_with?({l})"), move |s| boolean(s.starts_with(&cs(p)))));
        v.push(q(format!("s.end_with?({l})"), move |s| boolean(s.ends_with(&cs(p)))));
        v.push(q(format!("s.chomp({l})"), move |s| sv(&chomp(s, Some(p)))));
        for lim in [0, -1, 1, 2, 3] {
            let a = if lim == 0 { String::new() } else { format!(", {lim}") };
            v.push(q(format!("s.split({l}{a})"), move |s| arr(split_at(s, p, lim))));
        }
        v.push(q(format!("r = []; s.split({l}) {{ |x| r << x }}; r"), move |s| arr(split_at(s, p, 0))));
        v.push(q(format!("s + {l}"), move |s| V::Str(s.iter().collect::<String>() + p)));
        v.push(q(format!("{l} + s"), move |s| V::Str(p.to_string() + &s.iter().collect::<String>())));
        v.push(q(format!("[s <=> {l}, s == {l}, s != {l}, s < {l}, s <= {l}, s > {l}, s >= {l}, s.eql?({l}), s === {l}]"), move |s| {
            let o = s.iter().collect::<String>().as_bytes().cmp(p.as_bytes());
            arr(vec![ord_v(Some(o)), boolean(o.is_eq()), boolean(o.is_ne()), boolean(o.is_lt()), boolean(o.is_le()), boolean(o.is_gt()), boolean(o.is_ge()), boolean(o.is_eq()), boolean(o.is_eq())])
        }));
        if p.is_empty() {
            continue;
        }
        v.push(q(format!("s.scan({l})"), move |s| arr(find_all(s, &cs(p)).iter().map(|_| st(p)).collect())));
        for r in ["", "X", "éé"] {
            v.push(q(format!("s.sub({l}, {})", str_inspect(r)), move |s| {
                let b: String = s.iter().collect();
                V::Str(b.replacen(p, r, 1))
            }));
            v.push(q(format!("s.gsub({l}, {})", str_inspect(r)), move |s| {
                let b: String = s.iter().collect();
                V::Str(b.replace(p, r))
            }));
        }
        v.push(q(format!("s.gsub({l}) {{ |x| x + 'é' }}"), move |s| {
            let b: String = s.iter().collect();
            V::Str(b.replace(p, &format!("{p}é")))
        }));
        for w in [0, 1, 3, 5, 8, -1] {
            for (m, l0, r0) in [("ljust", false, true), ("rjust", true, false), ("center", true, true)] {
                v.push(q(format!("s.{m}({w}, {l})"), move |s| sv(&pad(s, w, p, l0, r0))));
                if p == "a" {
                    v.push(q(format!("s.{m}({w})"), move |s| sv(&pad(s, w, " ", l0, r0))));
                }
            }
        }
    }
    for f in ["a", "é", "ab", "a-c", "^a", "^", "-a", "a-", "b-é", "^a-z", "9a"] {
        v.push(q(format!("s.count({})", str_inspect(f)), move |s| int(s.iter().filter(|c| in_set(f, **c)).count() as i64)));
        for t in ["", "x", "xé", "A-C", "*-"] {
            v.push(q(format!("s.tr({}, {})", str_inspect(f), str_inspect(t)), move |s| sv(&tr(s, f, t))));
        }
    }
    for n in [0usize, 1, 2, 7] {
        v.push(q(format!("s * {n}"), move |s| V::Str(s.iter().collect::<String>().repeat(n))));
    }
    for s in subs(-4, 4, &[-1, 0, 1, 2, 5], pats) {
        let s2 = s.clone();
        v.push(q(format!("s[{}]", s.src()), move |c| s.find(c, false).map_or(V::Nil, |(i, l)| sv(&c[i..i + l]))));
        if !t {
            continue;
        }
        let src = s2.src();
        v.push(q(format!("[s.slice!({src}), s]"), move |c| match s2.find(c, false) {
            None => arr(vec![V::Nil, sv(c)]),
            Some((i, l)) => arr(vec![sv(&c[i..i + l]), sv(&[&c[..i], &c[i + l..]].concat())]),
        }));
    }
    for e in ["s + 1", "s + nil", "s * -1", "s < 1", "s[nil]", "s << nil", "s.ljust(9, '')", "s.center(9, '')"] {
        v.push(Q { src: e.into(), f: Box::new(|_| Err("")), ascii: false });
    }
    v
}

fn out(r: R) -> String {
    match r {
        Ok(v) => v.inspect(),
        Err("") => crate::case::ANYERR.into(),
        Err(e) => format!("!{e}"),
    }
}

// ---- histories ----
const PRELUDE: &str = r#"
def ob(s, t, u)
  [s, s.length, s.bytes.size, s.empty?, s == t, t, u, {s => 1}[t + ''], s <=> t, s.chars.join == s, s[-1], s[1..-1]]
end
"#;

#[derive(Clone)]
struct S {
    s: Vec<char>,
    /// an alias of s, or a copy made at some point
    t: Option<Vec<char>>,
    u: V,
}
impl S {
    fn t(&self) -> &Vec<char> {
        self.t.as_ref().unwrap_or(&self.s)
    }
    fn obs(&self) -> V {
        let o = |x: &Vec<char>| x.iter().collect::<String>();
        let (s, t) = (o(&self.s), o(self.t()));
        let n = self.s.len();
        arr(vec![
            sv(&self.s),
            int(n as i64),
            int(s.len() as i64),
            boolean(n == 0),
            boolean(s == t),
            sv(self.t()),
            self.u.clone(),
            if s == t { int(1) } else { V::Nil },
            ord_v(Some(s.as_bytes().cmp(t.as_bytes()))),
            V::True,
            self.s.last().map_or(V::Nil, |c| sv(&[*c])),
            if n == 0 { V::Nil } else { sv(&self.s[1..]) },
        ])
    }
}
struct Op {
    src: String,
    f: Box<dyn Fn(&mut S) -> R + Send + Sync>,
}
fn op(src: impl Into<String>, f: impl Fn(&mut S) -> R + Send + Sync + 'static) -> Op {
    Op { src: src.into(), f: Box::new(f) }
}
/// `s` may be the same object as `t`
fn set_s(x: &mut S, v: Vec<char>) {
    x.s = v;
}
fn mutators(full: bool) -> Vec<Op> {
    let mut v = vec![
        op("t = s", |x| {
            x.t = None;
            Ok(sv(&x.s))
        }),
        op("t = s.dup", |x| {
            x.t = Some(x.s.clone());
            Ok(sv(&x.s))
        }),
        op("t = s[0, 9999]", |x| {
            x.t = Some(x.s.clone());
            Ok(sv(&x.s))
        }),
        op("u = s.to_sym", |x| {
            x.u = V::Sym(x.s.iter().collect());
            Ok(x.u.clone())
        }),
        op("s += 'q'", |x| {
            x.t = Some(x.t().clone());
            x.s.push('q');
            Ok(sv(&x.s))
        }),
        op("s << t", |x| {
            let mut n = x.s.clone();
            n.extend(x.t());
            set_s(x, n);
            Ok(sv(&x.s))
        }),
        op("s << 233", |x| {
            x.s.push('é');
            Ok(sv(&x.s))
        }),
        op("s.gsub!('a', 'bé')", |x| {
            let o: String = x.s.iter().collect();
            let n = o.replace('a', "bé");
            x.s = n.chars().collect();
            Ok(if n != o { sv(&x.s) } else { V::Nil })
        }),
        op("s.chomp!('é')", |x| {
            let n = chomp(&x.s, Some("é"));
            let ch = n != x.s;
            x.s = n;
            Ok(if ch { sv(&x.s) } else { V::Nil })
        }),
        op("s.replace(t.succ)", |x| {
            if !x.t().iter().all(|c| c.is_ascii()) {
                return Err("skip");
            }
            x.s = succ(x.t());
            Ok(sv(&x.s))
        }),
    ];
    let words: &[&'static str] = if full { &["", "a", "é", "ab", "xyzxyzxyzxyzxyzxyzxyzxyzxyzxyz"] } else { &["", "é", "xyzxyzxyzxyzxyzxyzxyzxyzxyzxyz"] };
    for w in words {
        let w: &'static str = w;
        let l = str_inspect(w);
        v.push(op(format!("s << {l}"), move |x| {
            x.s.extend(w.chars());
            Ok(sv(&x.s))
        }));
        if full {
            v.push(op(format!("s.concat({l})"), move |x| {
                x.s.extend(w.chars());
                Ok(sv(&x.s))
            }));
        }
        v.push(op(format!("s.replace({l})"), move |x| {
            x.s = cs(w);
            Ok(sv(&x.s))
        }));
        let su = if full { subs(-2, 2, &[0, 1, 9], &["a", "é", ""]) } else { vec![Sub::At(0), Sub::At(-1), Sub::Len(1, 1), Sub::Len(1, 0), Sub::Len(0, 99), Sub::Rng(1, -1, false), Sub::Rng(0, 31, true), Sub::Str("é")] };
        for i in su {
            v.push(op(format!("s[{}] = {l}", i.src()), move |x| match i.find(&x.s, true) {
                None => Err("err"),
                Some((b, n)) => {
                    x.s.splice(b..b + n, w.chars());
                    Ok(st(w))
                }
            }));
        }
    }
    let su = if full { subs(-2, 2, &[0, 1, 9], &["a", "é", "ab"]) } else { vec![Sub::At(0), Sub::At(-1), Sub::Len(1, 1), Sub::Len(0, 30), Sub::Rng(0, 30, false), Sub::Rng(1, -2, false), Sub::Str("é")] };
    for i in su {
        v.push(op(format!("s.slice!({})", i.src()), move |x| match i.find(&x.s, false) {
            None => Ok(V::Nil),
            Some((b, n)) => Ok(sv(&x.s.splice(b..b + n, []).collect::<Vec<_>>())),
        }));
    }
    v
}
fn history(start: &str, ops: &[&Op]) -> Option<Case> {
    let mut x = S { s: cs(start), t: Some(vec!['a']), u: V::Nil };
    let mut code = format!("s = {}; t = 'a'; u = nil; w = []\n", str_inspect(start));
    let mut log = vec![];
    for o in ops {
        match (o.f)(&mut x) {
            Err("skip") => return None,
            Err(_) => {
                code.push_str(&format!("w << (begin; {}; rescue StandardError; :err; end).inspect\n", o.src));
                log.push(V::Str(":err".into()));
            }
            Ok(v) => {
                code.push_str(&format!("w << ({}).inspect\n", o.src));
                log.push(V::Str(v.inspect()));
            }
        }
    }
    code.push_str("[w, ob(s, t, u)]");
    let key = format!("{} | {}", str_inspect(start), ops.iter().map(|o| o.src.clone()).collect::<Vec<_>>().join("; "));
    Some(Case::f(code, arr(vec![arr(log), x.obs()]).inspect()).key(key))
}

fn strings(alpha: &[char], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut i = 0;
    while i < v.len() {
        if v[i].chars().count() < n {
            for c in alpha {
                let s = format!("{}{}", v[i], c);
                v.push(s);
            }
        }
        i += 1;
    }
    v
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let alpha: &[char] = &['a', 'b', 'é', ' ', '\n', '9'];
    let n = if t { 4 } else { 3 };
    let mut ss = strings(alpha, n);
    let qs = queries(t);
    for k in [29, 30, 31, 32, 33, 40] {
        ss.push("é".repeat(k / 2) + &"a".repeat(k % 2));
        ss.push("a".repeat(k));
        ss.push(format!("{}é", "ab ".repeat(k / 3)));
    }
    for s in ["\r\n", "a\r\n", "a\n\n", "-12", "+3_4", "1__2", "あいう", "aあ", "A-z.9", "\"", "\\", "#{1}", "#", "\t", "𝒳y", "ß", "Éa"] {
        if s != "#{1}" {
            ss.push(s.to_string());
        }
    }
    ctx.bound("strings", format!("all of length <= {n} over {alpha:?}, and strings around the inline-storage limit"));
    ctx.section("every query on every string");
    ctx.bound("queries", qs.len());
    ctx.states += ss.len() as u64;
    ctx.transitions += (ss.len() * qs.len()) as u64;
    {
        let (ss, qs) = (&ss, &qs);
        Runner::new(ctx).batch(300).run(ss.iter().flat_map(move |s| {
            let c = cs(s);
            qs.iter().filter(|q| !q.ascii || s.is_ascii()).map(move |q| {
                let e = out((q.f)(&c));
                Case::f(format!("s = {}; {}", str_inspect(s), q.src), e)
            }).collect::<Vec<_>>()
        }));
    }
    ctx.section("successor of every short ASCII string");
    {
        let ss = strings(&['a', 'y', 'z', 'Z', '0', '8', '9', '.', '-'], if t { 5 } else { 4 });
        ctx.states += ss.len() as u64;
        Runner::new(ctx).batch(300).run(ss.iter().filter(|s| !s.contains("ZZ")).map(|s| Case::f(format!("{:?}.succ", s), sv(&succ(&cs(s))).inspect())));
    }
    ctx.section("ordering and equality of every pair");
    {
        let ss = strings(&['a', 'b', 'é', '\u{7f}', '\u{80}', '𝒳'], if t { 3 } else { 2 });
        ctx.states += (ss.len() * ss.len()) as u64;
        let ss = &ss;
        Runner::new(ctx).batch(300).run(ss.iter().flat_map(move |a| {
            ss.iter().map(move |b| {
                let o = a.as_bytes().cmp(b.as_bytes());
                Case::f(
                    format!("a = \"{a}\"; b = \"{b}\"; [a <=> b, a == b, a < b, a <= b, a > b, a >= b, a.eql?(b), {{a => 1}}[b], a.to_sym == b.to_sym]"),
                    arr(vec![ord_v(Some(o)), boolean(o.is_eq()), boolean(o.is_lt()), boolean(o.is_le()), boolean(o.is_gt()), boolean(o.is_ge()), boolean(o.is_eq()), if o.is_eq() { int(1) } else { V::Nil }, boolean(o.is_eq())]).inspect(),
                )
            })
        }));
    }
    let full = mutators(true);
    let core = mutators(false);
    ctx.bound("mutators", format!("{} full, {} core", full.len(), core.len()));
    let starts = ["", "aé", "é b\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaé"];
    for (name, ops, d, every) in [
        ("every history over the full alphabet", &full, 2, false),
        ("every history over the core alphabet", &core, if t { 4 } else { 3 }, false),
        ("every short history, collecting at every safe point", &core, if t { 2 } else { 1 }, true),
    ] {
        ctx.section(name);
        ctx.bound(name, format!("depth {d}"));
        for start in starts {
            let n = ops.len();
            if d == 4 && start.len() > 2 && start.len() < 20 {
                continue;
            }
            ctx.states += n.pow(d) as u64;
            ctx.transitions += n.pow(d) as u64 * d as u64;
            let mut r = Runner::new(ctx).prelude(PRELUDE).batch(100);
            if every {
                r.gc = Gc { controlled: true, every: true, ..Gc::default() };
            }
            r.run((0..n.pow(d)).filter_map(move |mut i| {
                let mut v = vec![];
                for _ in 0..d {
                    v.push(&ops[i % n]);
                    i /= n;
                }
                history(start, &v)
            }));
        }
    }
}
