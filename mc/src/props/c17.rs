//! C17: literals denote what they spell, and inspect spells it back.
use crate::case::*;
use crate::model::val::*;
use crate::report::Ctx;
use num::BigInt;

/// Text which spells the string without doubt.
fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || c == ' ' {
            o.push(c);
        } else {
            o += &format!("\\u{{{:x}}}", c as u32);
        }
    }
    o + "\""
}

/// All texts over `al` up to `n` characters.
fn words(al: &[&str], n: usize) -> Vec<Vec<usize>> {
    let mut o: Vec<Vec<usize>> = vec![vec![]];
    let mut last = o.clone();
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for i in 0..al.len() {
                let mut w = w.clone();
                w.push(i);
                next.push(w);
            }
        }
        o.extend(next.iter().cloned());
        last = next;
    }
    o
}

/// Is it digits with single underscores between them?
fn digits(s: &str) -> bool {
    !s.is_empty() && !s.starts_with('_') && !s.ends_with('_') && !s.contains("__")
}

fn integers(n: usize) -> Vec<Case> {
    let mut o = vec![];
    for (prefix, radix, al) in [
        ("", 10, &["0", "1", "9", "_"][..]),
        ("0x", 16, &["0", "1", "a", "F", "_"][..]),
        ("0X", 16, &["0", "c", "E", "_"][..]),
        ("0b", 2, &["0", "1", "_"][..]),
        ("0B", 2, &["0", "1", "_"][..]),
        ("0o", 8, &["0", "1", "7", "_"][..]),
        ("0", 8, &["0", "1", "7", "_"][..]),
    ] {
        for tail in ["", "23456701234567", "777777777777777777777777"] {
            if radix == 2 && !tail.is_empty() {
                continue;
            }
            for w in words(al, n) {
                let t: String = w.iter().map(|i| al[*i]).collect::<String>() + tail;
                // a decimal has no leading zero; an octal has one
                if !digits(&t) || prefix.is_empty() && t.starts_with('0') && t != "0" || prefix == "0" && t.starts_with(|c| c == 'o') {
                    continue;
                }
                let v = BigInt::parse_bytes(t.replace('_', "").to_lowercase().as_bytes(), radix).unwrap();
                o.push(Case::f(format!("x = {prefix}{t}\n[x, x.class]"), format!("[{v}, Integer]")));
                o.push(Case::f(format!("[-{prefix}{t}, - {prefix}{t}, 3-{prefix}{t}]"), format!("[{}, {}, {}]", -&v, -&v, 3 - &v)));
            }
        }
    }
    o
}

fn floats(n: usize) -> Vec<Case> {
    let mut o = vec![];
    let int = ["0", "1", "9", "12", "1_0", "123456789012345678", "0"];
    let frac = ["", ".0", ".5", ".05", ".1_5", ".123456789012345678", ".10"];
    let exp = ["", "e0", "e1", "E2", "e+3", "e-4", "E-05", "e1_0", "e22", "e23", "e-7", "e308", "e-320", "e15", "e16"];
    for i in int {
        for f in frac {
            for e in exp {
                if f.is_empty() && e.is_empty() {
                    continue;
                }
                let t = format!("{i}{f}{e}");
                let v: f64 = t.replace('_', "").parse().unwrap();
                let s = fmt_float(v);
                o.push(Case::f(format!("x = {t}\n[x, x.class, -{t}]"), if v == 0.0 { format!("[0.0, Float, {}]", fmt_float(-0.0)) } else { format!("[{s}, Float, -{s}]") }));
            }
        }
    }
    let _ = n;
    // -0.0 is outside of this
    o.retain(|c| !c.expect[0].contains("-0.0]"));
    o
}

/// Spelling and value of a piece of a double-quoted string.
const DQ: &[(&str, &str)] = &[
    ("a", "a"), (" ", " "), ("'", "'"), ("#", "#"), ("é", "é"), ("\n", "\n"), ("1", "1"), ("{", "{"), ("}", "}"), ("(", "("), ("日", "日"),
    ("\\n", "\n"), ("\\t", "\t"), ("\\s", " "), ("\\r", "\r"), ("\\a", "\x07"), ("\\b", "\x08"), ("\\e", "\x1b"), ("\\f", "\x0c"), ("\\v", "\x0b"),
    ("\\\\", "\\"), ("\\\"", "\""), ("\\#", "#"), ("\\'", "'"), ("\\q", "q"), ("\\\n", ""),
    ("\\0", "\0"), ("\\101", "A"), ("\\7", "\x07"), ("\\x41", "A"), ("\\x9", "\t"), ("\\u0041", "A"), ("\\u00e9", "é"), ("\\u{41}", "A"), ("\\u{1F600}", "😀"),
    ("#{1}", "1"), ("#{'}'}", "}"), ("#{\"\\\"x\\\"\"}", "\"x\""), ("#{}", ""), ("#{nil}", ""), ("#{[1]}", "[1]"), ("#{:s}", "s"), ("#@iv", "7"), ("#$qgv", "8"), ("#{\"#{1 + 1}\"}", "2"), ("#{{1 => 2}[1]}", "2"),
];
const SQ: &[(&str, &str)] = &[
    ("a", "a"), (" ", " "), ("\"", "\""), ("#", "#"), ("é", "é"), ("\n", "\n"), ("\\n", "\\n"), ("\\\\", "\\"), ("\\'", "'"), ("\\\"", "\\\""),
    ("#{1}", "#{1}"), ("\\x41", "\\x41"), ("\\0", "\\0"), ("\\#", "\\#"), ("{", "{"), ("0", "0"),
];

fn octal_hazard(a: &str, b: &str) -> bool {
    // the digit would belong to the escape
    (a == "\\0" || a == "\\7" || a == "\\x9") && b.starts_with(|c: char| c.is_ascii_hexdigit())
        || a == "#" && (b.starts_with('{') || b.starts_with('@') || b.starts_with('$'))
        || (a == "#@iv" || a == "#$qgv") && b.starts_with(|c: char| c.is_alphanumeric())
        || a == "\\" 
}

fn strings(thorough: bool) -> Vec<Case> {
    let mut o = vec![];
    let mut add = |open: &str, close: &str, t: &[(&str, &str)], n: usize, bad: &dyn Fn(&str) -> bool| {
        let al: Vec<&str> = t.iter().map(|x| x.0).collect();
        for w in words(&al, n) {
            if w.windows(2).any(|x| octal_hazard(t[x[0]].0, t[x[1]].0)) || w.iter().any(|i| bad(t[*i].0)) {
                continue;
            }
            let s: String = w.iter().map(|i| t[*i].0).collect();
            let v: String = w.iter().map(|i| t[*i].1).collect();
            o.push(Case::f(
                format!("@iv = 7\n$qgv = 8\nx = {open}{s}{close}\n[x.bytes, x.size, x.class]"),
                format!("[{}, {}, String]", arr(v.bytes().map(|b| int(b as i64)).collect()).inspect(), v.chars().count()),
            ));
        }
    };
    let n = if thorough { 3 } else { 2 };
    add("\"", "\"", DQ, n, &|_| false);
    add("'", "'", SQ, n, &|_| false);
    for (open, close) in [("%Q(", ")"), ("%(", ")"), ("%Q{", "}"), ("%Q[", "]"), ("%Q|", "|"), ("%<", ">")] {
        let bad = |s: &str| {
            let d = ['(', ')', '{', '}', '[', ']', '|', '<', '>'];
            s.contains(d) && (s.contains(open.chars().last().unwrap()) || s.contains(close)) || s == "\\#" && false
        };
        add(open, close, DQ, if thorough { 2 } else { 1 }, &bad);
    }
    for (open, close) in [("%q(", ")"), ("%q{", "}"), ("%q!", "!"), ("%q[", "]")] {
        let bad = |s: &str| s.contains(open.chars().last().unwrap()) || s.contains(close) || s == "\\'";
        add(open, close, SQ, 2, &bad);
    }
    // nested delimiters
    for (code, v) in [
        ("%q(a(b)c)", "a(b)c"), ("%Q(a(b(c)d)e)", "a(b(c)d)e"), ("%(a(#{1})b)", "a(1)b"), ("%q{a{b}c}", "a{b}c"), ("%q<a<b>c>", "a<b>c"), ("%q[a[b]c]", "a[b]c"),
        ("%q(a\\)b)", "a)b"), ("%q(a\\(b)", "a(b"), ("\"a\" \"b\"", "ab"), ("'a' 'b'", "ab"), ("\"a\" 'b'", "ab"), ("\"a\"\\\n \"b\"", "ab"), ("''", ""), ("\"\"", ""),
        ("?a", "a"), ("?\\n", "\n"), ("?\\s", " "), ("?é", "é"), ("?1", "1"), ("?\\u0041", "A"), ("?\\x41", "A"), ("?\"", "\""), ("?#", "#"), ("?\\\\", "\\"), ("?(", "("),
        ("\"#{\"a\" + \"#{\"b\"}\"}\"", "ab"), ("\"#{[1, 2].map { |x| \"<#{x}>\" }.join}\"", "<1><2>"), ("\"#{if true then \"t\" end}\"", "t"), ("\"#{1;2}\"", "2"),
    ] {
        o.push(Case::f(code, st(v).inspect()));
    }
    o
}

fn heredocs() -> Vec<Case> {
    let mut o = vec![];
    let bodies: &[(&str, &str, &str)] = &[
        ("", "", ""), ("a\n", "a\n", "a\n"), ("a\nb\n", "a\nb\n", "a\nb\n"), ("  a\n\n b\n", "  a\n\n b\n", "  a\n\n b\n"), ("#{1 + 1}\n", "2\n", "#{1 + 1}\n"),
        ("\\t\n", "\t\n", "\\t\n"), ("\"q\" 'r'\n", "\"q\" 'r'\n", "\"q\" 'r'\n"), ("x E\n", "x E\n", "x E\n"), ("EE\n", "EE\n", "EE\n"), ("é\n", "é\n", "é\n"), ("\\\\\n", "\\\n", "\\\\\n"),
    ];
    for (b, dq, sq) in bodies {
        for (open, end, v) in [("<<E", "E", dq), ("<<\"E\"", "E", dq), ("<<'E'", "E", sq), ("<<-E", "  E", dq), ("<<-E", "E", dq), ("<<-'E'", " E", sq)] {
            for (pre, post, wrap) in [("x = ", "\n", ""), ("x = [", ", 1][0]\n", ""), ("x = ", ".to_s\n", ""), ("x = \"\" + ", "\n", ""), ("x = [1, ", "].last\n", "")] {
                let _ = wrap;
                o.push(Case::f(format!("{pre}{open}{post}{b}{end}\n[x, 5]"), format!("[{}, 5]", st(v).inspect())));
            }
            o.push(Case::f(format!("x = [{open}, {open}]\n{b}{end}\n{b}{end}\nx"), arr(vec![st(v), st(v)]).inspect()));
        }
    }
    o
}

fn collections() -> Vec<Case> {
    let mut o = vec![];
    for (c, e) in [
        ("%w(a b c)", "[\"a\", \"b\", \"c\"]"), ("%w( a  b )", "[\"a\", \"b\"]"), ("%w(a\nb)", "[\"a\", \"b\"]"), ("%w()", "[]"), ("%w[a b]", "[\"a\", \"b\"]"), ("%w(a#{1} b)", "[\"a\\#{1}\", \"b\"]"),
        ("%i(a b)", "[:a, :b]"), ("%i[a]", "[:a]"), ("%w{a b}", "[\"a\", \"b\"]"), ("%w|a b|", "[\"a\", \"b\"]"),
        ("[]", "[]"), ("[1]", "[1]"), ("[1, ]", "[1]"), ("[1,\n2\n]", "[1, 2]"), ("[\n]", "[]"), ("[[], [[]]]", "[[], [[]]]"), ("[1, *[2, 3], 4]", "[1, 2, 3, 4]"), ("[*nil]", "[]"), ("[*1]", "[1]"), ("[*1..3]", "[1, 2, 3]"),
        ("{}", "{}"), ("{1 => 2}", "{1=>2}"), ("{a: 1}", "{:a=>1}"), ("{\"a\": 1}", "{:a=>1}"), ("{a: 1, \"b\" => 2, 3 => 4}", "{:a=>1, \"b\"=>2, 3=>4}"), ("{a: 1,}", "{:a=>1}"), ("{\na: 1,\nb: 2\n}", "{:a=>1, :b=>2}"),
        ("{1 => 2, 1 => 3}", "{1=>3}"), ("{a: {b: {}}}", "{:a=>{:b=>{}}}"), ("{if: 1, end: 2}", "{:if=>1, :end=>2}"), ("{a: :b}", "{:a=>:b}"), ("{1=>:a}", "{1=>:a}"), ("{nil => nil}", "{nil=>nil}"),
        ("(1..2)", "1..2"), ("(1...2)", "1...2"), ("(-1..-2)", "-1..-2"), ("(\"a\"..\"b\")", "\"a\"..\"b\""), ("(1..2).class", "Range"), ("(1.5..2)", "1.5..2"),
        (":a", ":a"), (":a?", ":a?"), (":a!", ":a!"), (":a=", ":a="), (":A", ":A"), (":@a", ":@a"), (":$a", ":$a"), (":@@a", ":@@a"), (":+", ":+"), (":[]", ":[]"), (":[]=", ":[]="), (":<=>", ":<=>"), (":==", ":=="), (":!", ":!"), (":if", ":if"), (":nil", ":nil"),
        (":\"a\"", ":a"), (":'a'", ":a"), (":\"a#{1}\"", ":a1"), (":a.class", "Symbol"), (":\"a b\".to_s", "\"a b\""), (":\"\".to_s", "\"\""),
        ("nil", "nil"), ("true", "true"), ("false", "false"), ("nil.class", "NilClass"), ("true.class", "TrueClass"), ("self.nil?", "false"),
        ("/a/.class", "Regexp"), ("/a\\/b/ =~ \"xa/b\"", "1"), ("/a#{1}b/ =~ \"a1b\"", "0"), ("/A/i =~ \"xa\"", "1"), ("/\\n/ =~ \"x\\n\"", "1"), ("/[\\]]/ =~ \"x]\"", "1"),
        ("1.class", "Integer"), ("1.0.class", "Float"), ("1i", "(0+1i)"), ("__LINE__.class", "Integer"), ("1_000", "1000"), ("1.e rescue 5", "5"),
    ] {
        o.push(Case::f(c, e));
    }
    o
}

/// What puts, print, p, to_s and interpolation write.
fn printed(v: &V) -> Vec<Case> {
    fn puts(v: &V, o: &mut String) {
        match v {
            V::Arr(a) => a.iter().for_each(|x| puts(x, o)),
            v => {
                let s = v.to_s();
                *o += &s;
                if !s.ends_with('\n') {
                    *o += "\n";
                }
            }
        }
    }
    let s = lit;
    let src = super::c19::src(v);
    let mut t = String::new();
    match v {
        V::Arr(a) if a.is_empty() => t += "\n",
        v => puts(v, &mut t),
    }
    let i = v.inspect();
    let mut o = vec![
        Case::f(format!("puts({src})\nnil"), format!("{t}nil")),
        Case::f(format!("print({src}, 1)\nnil"), format!("{}1nil", v.to_s())),
        Case::f(format!("p({src})"), format!("{i}\n{i}")),
        Case::f(format!("puts(1, {src}, 2)\nnil"), format!("1\n{}2\nnil", if matches!(v, V::Arr(a) if a.is_empty()) { "" } else { &t })),
        Case::f(format!("x = {src}\n[x.to_s, \"<#{{x}}>\", x.inspect] == [{}, {}, {}]", s(&v.to_s()), s(&format!("<{}>", v.to_s())), s(&i)), "true"),
        Case::f(format!("x = {src}\ny = eval(x.inspect)\n[x == y, x.class == y.class, x.eql?(y), y.inspect == x.inspect]"), "[true, true, true, true]"),
        Case::f(format!("p({src}, [{src}])\nnil"), format!("{i}\n[{i}]\nnil")),
    ];
    if matches!(v, V::Float(f) if f.is_infinite()) || i.contains("Infinity") {
        o.remove(5);
    }
    if matches!(v, V::Arr(a) if a.is_empty()) {
        o.remove(0);
    }
    o
}

fn chars(thorough: bool) -> Vec<Case> {
    let mut o = vec![];
    let mut add = |s: String| {
        let l = lit(&s);
        // (how the other control characters are spelled is not prescribed)
        if !s.chars().any(|c| c < '\x07' || ('\x0e'..'\x1b').contains(&c) || ('\x1c'..' ').contains(&c) || ('\x7f'..'\u{a1}').contains(&c)) {
            let i = crate::model::val::str_inspect(&s);
            o.push(Case::f(format!("p({l}, [{l}])\nputs({l}, {l}.inspect)\nprint({l})\nnil"), format!("{i}\n[{i}]\n{s}{}{i}\n{s}nil", if s.ends_with('\n') { "" } else { "\n" })));
        }
        o.push(Case::f(format!("x = {l}\n[eval(x.inspect) == x, eval([x, 1].inspect) == [x, 1], eval({{x => x}}.inspect) == {{x => x}}, x.inspect[0], x.inspect[-1]]"), "[true, true, true, \"\\\"\", \"\\\"\"]"));
    };
    for c in 0..0x250u32 {
        add(char::from_u32(c).unwrap().to_string());
    }
    let sp: Vec<char> = "a1#{}\"'\\\n\t\r\0\x07\x08\x1b\x0b\x0c$@é😀 nxu\x7f".chars().collect();
    for a in &sp {
        for b in &sp {
            add(format!("{a}{b}"));
            for c in &sp {
                if thorough {
                    add(format!("{a}{b}{c}"));
                }
            }
        }
    }
    o
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.section("integers in all bases");
    Runner::new(ctx).batch(400).run(integers(if t { 6 } else { 5 }).into_iter());
    ctx.section("floats");
    Runner::new(ctx).batch(400).run(floats(1).into_iter());
    ctx.section("strings of pieces");
    Runner::new(ctx).batch(400).run(strings(t).into_iter());
    ctx.section("heredocs");
    Runner::new(ctx).batch(50).run(heredocs().into_iter());
    ctx.section("collections, symbols, regexps");
    Runner::new(ctx).batch(20).run(collections().into_iter());
    ctx.section("inspect, p, puts, print, to_s of composite values");
    let mut cs = vec![];
    let vs = super::c19::values(t);
    for v in &vs {
        cs.extend(printed(v));
        for w in vs.iter().step_by(if t { 1 } else { 3 }) {
            cs.extend(printed(&arr(vec![v.clone(), w.clone()])));
            cs.extend(printed(&V::Hash(vec![(v.clone(), w.clone())])));
        }
    }
    Runner::new(ctx).batch(400).run(cs.into_iter());
    ctx.section("inspect of every character, and of pairs of special ones");
    Runner::new(ctx).batch(400).run(chars(t).into_iter());
}
