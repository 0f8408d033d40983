//! C21: regexps against a backtracking matcher written down here.
use crate::case::*;
use crate::report::Ctx;

#[derive(Debug, Clone)]
enum N {
    Chr(char),
    Any,
    Set(Vec<char>, bool),
    Seq(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, usize, usize, bool),
    Grp(usize, Box<N>),
    Bol,
    Eol,
    Bos,
    Eos,
    Word(bool),
    Ref(usize),
    Look(bool, bool, Box<N>),
}

/// Reader of the pattern text.
struct P<'a> {
    t: &'a [char],
    i: usize,
    groups: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.t.get(self.i).copied()
    }
    fn eat(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        if self.i + n <= self.t.len() && self.t[self.i..self.i + n].iter().copied().eq(s.chars()) {
            self.i += n;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> N {
        let mut v = vec![self.seq()];
        while self.eat("|") {
            v.push(self.seq());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            N::Alt(v)
        }
    }
    fn seq(&mut self) -> N {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom();
            let (lo, hi) = if self.eat("*") {
                (0, usize::MAX)
            } else if self.eat("+") {
                (1, usize::MAX)
            } else if self.eat("?") {
                (0, 1)
            } else if self.eat("{2}") {
                (2, 2)
            } else if self.eat("{1,2}") {
                (1, 2)
            } else if self.eat("{2,}") {
                (2, usize::MAX)
            } else {
                v.push(a);
                continue;
            };
            let lazy = self.eat("?");
            v.push(N::Rep(Box::new(a), lo, hi, lazy));
        }
        N::Seq(v)
    }
    fn atom(&mut self) -> N {
        for (t, ahead, neg) in [("(?=", true, false), ("(?!", true, true), ("(?<=", false, false), ("(?<!", false, true)] {
            if self.eat(t) {
                let n = self.alt();
                assert!(self.eat(")"));
                return N::Look(ahead, neg, Box::new(n));
            }
        }
        if self.eat("(?:") {
            let n = self.alt();
            assert!(self.eat(")"));
            return n;
        }
        if self.eat("(") {
            self.groups += 1;
            let g = self.groups;
            let n = self.alt();
            assert!(self.eat(")"));
            return N::Grp(g, Box::new(n));
        }
        if self.eat("[") {
            let neg = self.eat("^");
            let mut s = vec![];
            while !self.eat("]") {
                let c = self.peek().unwrap();
                self.i += 1;
                if c == '-' {
                    let lo = s.pop().unwrap();
                    let hi = self.peek().unwrap();
                    self.i += 1;
                    s.extend(lo..=hi);
                } else {
                    s.push(c);
                }
            }
            return N::Set(s, neg);
        }
        for (t, n) in [("\\A", N::Bos), ("\\z", N::Eos), ("\\b", N::Word(true)), ("\\B", N::Word(false)), ("\\1", N::Ref(1)), ("\\2", N::Ref(2)), ("^", N::Bol), ("$", N::Eol), (".", N::Any)] {
            if self.eat(t) {
                return n;
            }
        }
        let digits: Vec<char> = ('0'..='9').collect();
        for (t, n) in [("\\d", N::Set(digits.clone(), false)), ("\\D", N::Set(digits, true)), ("\\s", N::Set(vec![' ', '\t', '\n', '\r', '\x0b', '\x0c'], false)), ("\\n", N::Chr('\n'))] {
            if self.eat(t) {
                return n;
            }
        }
        if self.eat("\\w") {
            return N::Set(('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_', 'é', 'É']).collect(), false);
        }
        self.eat("\\");
        let c = self.peek().unwrap();
        self.i += 1;
        N::Chr(c)
    }
}

#[derive(Clone, Copy, PartialEq, Default)]
struct Flags {
    icase: bool,
    dotall: bool,
}

type Caps = Vec<Option<(usize, usize)>>;

fn word(c: Option<&char>) -> bool {
    c.map_or(false, |c| c.is_alphanumeric() || *c == '_')
}

fn same(a: char, b: char, fl: Flags) -> bool {
    a == b || fl.icase && a.to_lowercase().eq(b.to_lowercase())
}

fn m(n: &N, s: &[char], i: usize, c: &mut Caps, fl: Flags, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
    match n {
        N::Chr(x) => i < s.len() && same(s[i], *x, fl) && k(i + 1, c),
        N::Any => i < s.len() && (fl.dotall || s[i] != '\n') && k(i + 1, c),
        N::Set(v, neg) => i < s.len() && v.iter().any(|x| same(s[i], *x, fl)) != *neg && k(i + 1, c),
        N::Seq(v) => match v.split_first() {
            None => k(i, c),
            Some((h, t)) => {
                let t = N::Seq(t.to_vec());
                m(h, s, i, c, fl, &mut |j, c| m(&t, s, j, c, fl, k))
            }
        },
        N::Alt(v) => v.iter().any(|a| m(a, s, i, c, fl, k)),
        N::Rep(a, lo, hi, lazy) => {
            if *hi == 0 {
                return k(i, c);
            }
            let less = N::Rep(a.clone(), lo.saturating_sub(1), if *hi == usize::MAX { *hi } else { hi - 1 }, *lazy);
            let optional = *lo == 0;
            if optional && *lazy && k(i, c) {
                return true;
            }
            // an iteration that consumes nothing is not repeated
            if m(a, s, i, c, fl, &mut |j, c| (j > i || !optional) && m(&less, s, j, c, fl, k)) {
                return true;
            }
            optional && !*lazy && k(i, c)
        }
        N::Grp(g, a) => {
            let old = c[*g];
            let r = m(a, s, i, c, fl, &mut |j, c| {
                let inner = c[*g];
                c[*g] = Some((i, j));
                k(j, c) || {
                    c[*g] = inner;
                    false
                }
            });
            if !r {
                c[*g] = old;
            }
            r
        }
        N::Bol => (i == 0 || s[i - 1] == '\n') && k(i, c),
        N::Eol => (i == s.len() || s[i] == '\n') && k(i, c),
        N::Bos => i == 0 && k(i, c),
        N::Eos => i == s.len() && k(i, c),
        N::Word(yes) => (word(if i > 0 { s.get(i - 1) } else { None }) != word(s.get(i))) == *yes && k(i, c),
        N::Ref(g) => match c[*g] {
            None => false,
            Some((b, e)) => i + (e - b) <= s.len() && s[b..e].iter().zip(&s[i..]).all(|(x, y)| same(*x, *y, fl)) && k(i + (e - b), c),
        },
        N::Look(ahead, neg, a) => {
            let mut cc = c.clone();
            let found = if *ahead {
                m(a, s, i, &mut cc, fl, &mut |_, _| true)
            } else {
                (0..=i).rev().any(|b| m(a, s, b, &mut cc, fl, &mut |j, _| j == i))
            };
            if found == *neg {
                return false;
            }
            if !*neg {
                *c = cc;
            }
            k(i, c)
        }
    }
}

pub struct Re {
    n: N,
    groups: usize,
    fl: Flags,
}

impl Re {
    fn new(p: &str, fl: Flags) -> Re {
        let t: Vec<char> = p.chars().collect();
        let mut r = P { t: &t, i: 0, groups: 0 };
        let n = r.alt();
        assert!(r.i == t.len(), "pattern {p}");
        Re { n, groups: r.groups, fl }
    }
    fn find(&self, s: &[char], from: usize) -> Option<Caps> {
        for b in from..=s.len() {
            let mut c: Caps = vec![None; self.groups + 1];
            let mut end = 0;
            let mut got = None;
            if m(&self.n, s, b, &mut c, self.fl, &mut |j, c| {
                end = j;
                got = Some(c.clone());
                true
            }) {
                let mut c = got.unwrap();
                c[0] = Some((b, end));
                return Some(c);
            }
        }
        None
    }
    fn all(&self, s: &[char]) -> Vec<Caps> {
        let mut v = vec![];
        let mut i = 0;
        while i <= s.len() {
            let Some(c) = self.find(s, i) else { break };
            let (b, e) = c[0].unwrap();
            i = if b == e { e + 1 } else { e };
            v.push(c);
        }
        v
    }
}

pub fn q(s: &str) -> String {
    crate::model::val::str_inspect(s)
}

fn text(s: &[char]) -> String {
    s.iter().collect()
}

fn sub(s: &[char], r: Option<(usize, usize)>) -> String {
    r.map_or("nil".into(), |(b, e)| q(&text(&s[b..e])))
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(", "))
}

/// The text with every match in `ms` replaced.
fn replaced(s: &[char], ms: &[Caps], f: &dyn Fn(&Caps) -> String) -> String {
    let mut r = String::new();
    let mut at = 0;
    for c in ms {
        let (b, e) = c[0].unwrap();
        r += &text(&s[at..b]);
        r += &f(c);
        at = e;
    }
    r + &text(&s[at..])
}

fn split(re: &Re, s: &[char], lim: i64) -> Vec<String> {
    if s.is_empty() {
        return vec![];
    }
    if lim == 1 {
        return vec![text(s)];
    }
    let mut v = vec![];
    let (mut beg, mut fields) = (0, 1);
    loop {
        let c = match re.find(s, beg) {
            Some(c) if c[0] == Some((beg, beg)) => re.find(s, beg + 1),
            c => c,
        };
        let Some(c) = c else { break };
        let (b, e) = c[0].unwrap();
        v.push(text(&s[beg..b]));
        beg = e;
        for g in c[1..].iter().flatten() {
            v.push(text(&s[g.0..g.1]));
        }
        fields += 1;
        if lim > 0 && fields >= lim {
            break;
        }
    }
    if beg < s.len() || lim != 0 {
        v.push(text(&s[beg..]));
    }
    if lim == 0 {
        while v.last().map_or(false, |x| x.is_empty()) {
            v.pop();
        }
    }
    v
}

/// `\0`..`\9`, `\&`, `` \` ``, `\'` and `\\` in a replacement.
fn expand(t: &str, s: &[char], c: &Caps) -> String {
    let mut r = String::new();
    let mut it = t.chars().peekable();
    let (b, e) = c[0].unwrap();
    while let Some(ch) = it.next() {
        if ch != '\\' {
            r.push(ch);
            continue;
        }
        match it.next() {
            Some(d @ '0'..='9') => {
                if let Some(Some((b, e))) = c.get(d as usize - '0' as usize) {
                    r += &text(&s[*b..*e]);
                }
            }
            Some('&') => r += &text(&s[b..e]),
            Some('`') => r += &text(&s[..b]),
            Some('\'') => r += &text(&s[e..]),
            Some('\\') => r.push('\\'),
            Some(x) => {
                r.push('\\');
                r.push(x);
            }
            None => r.push('\\'),
        }
    }
    r
}

fn strings(alpha: &[char], len: usize) -> Vec<Vec<char>> {
    let mut v = vec![vec![]];
    let mut at = 0;
    for _ in 0..len {
        let end = v.len();
        for i in at..end {
            for c in alpha {
                let mut w = v[i].clone();
                w.push(*c);
                v.push(w);
            }
        }
        at = end;
    }
    v
}

fn patterns(thorough: bool) -> Vec<String> {
    let atoms = ["a", "b", "é", ".", "[ab]", "[^a]", "(a)", "(b|ab)", "(?:a|b)", "\\w", "(é|a)"];
    let quants = ["", "*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{1,2}?", "{2,}"];
    let mut pieces = vec![];
    for a in atoms {
        for r in quants {
            pieces.push(format!("{a}{r}"));
        }
    }
    let mut v: Vec<String> = vec!["".into(), "()".into(), "(|a)".into(), "(a|)".into(), "a|".into()];
    v.extend(pieces.iter().cloned());
    let few = ["a", "b*", "é?", "(a)", "(b)?", ".", "[^b]+", "(a|b)*?", "(?:ab)+", "a??", "(.)", "\\w+?"];
    let some: Vec<String> = if thorough { pieces.clone() } else { few.iter().map(|s| s.to_string()).collect() };
    for x in &some {
        for y in few {
            v.push(format!("{x}{y}"));
            v.push(format!("{x}|{y}"));
            v.push(format!("({x}){y}"));
            if thorough {
                v.push(format!("{y}{x}"));
                v.push(format!("{y}|{x}"));
                v.push(format!("(?:{x}|{y})a"));
            }
        }
    }
    for x in few {
        for a in ["^X", "X$", "^X$", "\\AX", "X\\z", "\\bX", "X\\b", "X\\B", "(?=X)", "(?!X)", "a(?=X)", "a(?!X)", "(X)(?=a)", "(?:X)(b)"] {
            v.push(a.replace('X', x));
        }
    }
    for x in ["(a)\\1", "(.)\\1", "(a|b)\\1", "(a)(b)\\2\\1", "(.)(.)\\1", "((a)|b)\\1", "((.)b)", "(a(b)?)", "(a(b)?)+b", "((a)|(b))", "((a)|(b))+", "(?<=a)b", "(?<!a)b", "(?<=é).", "(?<=a)", "(?<!b)", "(?<!a)$", "\\n", "a\\n?", "^", "$", "^$", "\\A", "\\z", "\\b", "\\B", "^.", ".$", "\\Aa|b\\z", "(^a|b$)", "(a)|(b)|(é)"] {
        v.push(x.into());
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// `$&`, `$'`, `$1` and `$2` after the match `c`.
fn vars(s: &[char], c: Option<&Caps>) -> String {
    match c {
        None => "[nil, nil, nil, nil]".into(),
        Some(c) => format!(
            "[{}, {}, {}, {}]",
            sub(s, c[0]),
            q(&text(&s[c[0].unwrap().1..])),
            sub(s, c.get(1).copied().flatten()),
            sub(s, c.get(2).copied().flatten())
        ),
    }
}

fn bracket(s: &[char], c: &Caps) -> String {
    format!("<{}>", text(&s[c[0].unwrap().0..c[0].unwrap().1]))
}

const VARS: &str = "[$&, $', $1, $2]";

fn ask(v: &mut Vec<Case>, lit: &str, re: &Re, s: &[char]) {
    let st = q(&text(s));
    let all = re.all(s);
    let first = all.first();
    let pos = first.map_or("nil".into(), |c| c[0].unwrap().0.to_string());
    let g = |n: usize| first.map_or("nil".into(), |c| sub(s, c.get(n).copied().flatten()));
    let vs = vars(s, first);
    let vl = vars(s, all.last());
    // matching
    v.push(Case::f(
        &format!("s = {st}; r = {lit}; [s =~ r, {VARS}, r =~ s, {VARS}, r === s, {VARS}, (s !~ r), s[r], s[r, 1], s[r, 2], {VARS}, (m = s.match(r)) && m[0], m && m[1], m && m[2], {VARS}, (case s when r then $1 || 0 else :no end)]"),
        format!(
            "[{pos}, {vs}, {pos}, {vs}, {}, {vs}, {}, {}, {}, {}, {vs}, {}, {}, {}, {vs}, {}]",
            first.is_some(),
            first.is_none(),
            g(0),
            g(1),
            g(2),
            g(0),
            g(1),
            g(2),
            match first {
                None => ":no".into(),
                Some(_) if g(1) == "nil" => "0".to_string(),
                Some(_) => g(1),
            }
        ),
    ));
    // all matches
    let scan: Vec<String> = all
        .iter()
        .map(|c| if re.groups == 0 { sub(s, c[0]) } else { list(&c[1..].iter().map(|g| sub(s, *g)).collect::<Vec<_>>()) })
        .collect();
    let each: Vec<String> = all.iter().map(|c| format!("[{}, {}]", sub(s, c[0]), sub(s, c.get(1).copied().flatten()))).collect();
    let lists = |lim: i64| list(&split(re, s, lim).iter().map(|x| q(x)).collect::<Vec<_>>());
    v.push(Case::f(
        &format!("s = {st}; r = {lit}; t = []; [s.scan(r), {VARS}, s.scan(r) {{ t << [$&, $1] }} == s, t, s.split(r), s.split(r, -1), s.split(r, 1), s.split(r, 2), s.split(r, 3)]"),
        format!(
            "[{}, {vl}, true, {}, {}, {}, {}, {}, {}]",
            list(&scan),
            list(&each),
            lists(0),
            lists(-1),
            lists(1),
            lists(2),
            lists(3)
        ),
    ));
    // replacing
    let one = &all[..all.len().min(1)];
    let rest = match first {
        Some(c) => format!("{}{}", text(&s[..c[0].unwrap().0]), text(&s[c[0].unwrap().1..])),
        None => text(s),
    };
    let tag = |c: &Caps| bracket(s, c);
    let up = |c: &Caps| format!("({})", c.get(1).copied().flatten().map_or(String::new(), |(b, e)| text(&s[b..e])));
    let plain = |_: &Caps| "-".to_string();
    let ga = q(&replaced(s, &all, &plain));
    v.push(Case::f(
        &format!("s = {st}; r = {lit}; a = [s.sub(r, \"-\"), s.sub(r, '<\\0>'), s.sub(r, '(\\1)'), s.sub(r) {{ |m| \"<\" + m + \">\" }}, {VARS}, s.gsub(r, \"-\"), {VARS}, s.gsub(r, '<\\0>'), s.gsub(r, '(\\1)'), s.gsub(r) {{ |m| \"<\" + m + \">\" }}, s.gsub(r) {{ \"(\" + $1.to_s + \")\" }}, {VARS}, s.dup]; a << s.gsub!(r, \"-\") << s; s = {st}; a << s.slice!(r) << s << {VARS}; a"),
        format!(
            "[{}, {}, {}, {}, {vs}, {ga}, {vl}, {}, {}, {}, {}, {vl}, {st}, {}, {ga}, {}, {}, {vs}]",
            q(&replaced(s, one, &plain)),
            q(&replaced(s, one, &tag)),
            q(&replaced(s, one, &up)),
            q(&replaced(s, one, &tag)),
            q(&replaced(s, &all, &tag)),
            q(&replaced(s, &all, &up)),
            q(&replaced(s, &all, &tag)),
            q(&replaced(s, &all, &up)),
            if all.is_empty() { "nil".to_string() } else { ga.clone() },
            g(0),
            q(&rest)
        ),
    ));
}

fn products(ctx: &mut Ctx) {
    ctx.section("patterns x strings");
    let pats = patterns(ctx.thorough);
    let strs = strings(&['a', 'b', 'é'], if ctx.thorough { 4 } else { 3 });
    ctx.bound("patterns", pats.len());
    ctx.bound("strings", strs.len());
    let mut v = vec![];
    for p in &pats {
        let re = Re::new(p, Flags::default());
        let lit = format!("/{p}/");
        for s in &strs {
            ask(&mut v, &lit, &re, s);
        }
    }
    // several lines
    for p in ["^", "$", "^a", "a$", "^a$", "^$", "a.b", ".", ".*", "a*$", "\\Aa", "a\\z", "a\\n", "[^a]", "\\s", "(^.)", "(.)$", "^(a|b)*$", "$\\n", "\\n^"] {
        let re = Re::new(p, Flags::default());
        for s in strings(&['a', '\n', 'b'], if ctx.thorough { 5 } else { 4 }) {
            ask(&mut v, &format!("/{p}/"), &re, &s);
        }
        let re = Re::new(p, Flags { dotall: true, icase: false });
        for s in strings(&['a', '\n', 'b'], 3) {
            ask(&mut v, &format!("/{p}/m"), &re, &s);
        }
    }
    // digits, words, cases
    for p in ["\\d", "\\d+", "\\D", "\\w", "\\b\\w", "\\w\\b", "[a-c]", "[^a-c]", "a", "(A)", "[A-B]", "(a)\\1", "\\B", "é", "É"] {
        for s in strings(&['a', 'A', '1', ' ', 'É'], 3) {
            ask(&mut v, &format!("/{p}/"), &Re::new(p, Flags::default()), &s);
            if !p.contains("[^") && !p.contains("\\1") {
                ask(&mut v, &format!("/{p}/i"), &Re::new(p, Flags { icase: true, dotall: false }), &s);
            }
        }
    }
    // spellings of the same regexp
    for p in ["a", "a*", "(a)|b", "^b", "a$", "[ab]+", "a b", "é."] {
        let re = Re::new(p, Flags::default());
        for s in strings(&['a', 'b', '\n'], 3) {
            let half: String = p.chars().skip(1).collect();
            let head: String = p.chars().take(1).collect();
            ask(&mut v, &format!("Regexp.new(\"{p}\")"), &re, &s);
            ask(&mut v, &format!("%r{{{p}}}"), &re, &s);
            if !"[(^".contains(&head) {
                ask(&mut v, &format!("/#{{\"{head}\"}}{half}/"), &re, &s);
            }
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

/// Text that means something in a regexp stands for itself when it is escaped or a String.
fn plain_text(ctx: &mut Ctx) {
    ctx.section("strings as patterns, Regexp.escape");
    let mut v = vec![];
    let metas: Vec<char> = ".*+?()[]{}|^$\\/-#&~ab é\n\t".chars().collect();
    let len = if ctx.thorough { 3 } else { 2 };
    for t in strings(&metas, len) {
        if t.is_empty() {
            continue;
        }
        let tt = text(&t);
        // as a literal in single quotes, with quoting of \ and '
        let lit = format!("'{}'", tt.replace('\\', "\\\\"));
        let doubled: Vec<char> = format!("x{tt}{tt}y").chars().collect();
        let n = t.len();
        // where a plain search finds it
        let mut at = vec![];
        let mut i = 0;
        while i + n <= doubled.len() {
            if doubled[i..i + n] == t[..] {
                at.push(i);
                i += n;
            } else {
                i += 1;
            }
        }
        let caps: Vec<Caps> = at.iter().map(|i| vec![Some((*i, *i + n))]).collect();
        let dash = |_: &Caps| "-".to_string();
        let s = text(&doubled);
        v.push(Case::f(
            &format!("t = {lit}; s = 'x' + t + t + 'y'; r = Regexp.new(Regexp.escape(t)); [s =~ r, s.scan(r).size, s.scan(t).size, s.gsub(r, '-') == {0}, s.gsub(t, '-') == {0}, s.gsub(t) {{ '-' }} == {0}, s.sub(t, '-') == {1}, s.sub(t) {{ '-' }} == {1}, s.split(r, -1).size, t.gsub(t, 'z'), (t + 'q') =~ /\\A#{{Regexp.escape(t)}}q\\z/, Regexp.escape(t) == Regexp.quote(t)]",
                lit_of(&replaced(&doubled, &caps, &dash)), lit_of(&replaced(&doubled, &caps[..1], &dash))),
            format!("[{}, {k}, {k}, true, true, true, true, true, {}, \"z\", 0, true]", at[0], at.len() + 1, k = at.len()),
        ).key(format!("text {}", q(&s))));
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

fn lit_of(s: &str) -> String {
    format!("'{}'", s.replace('\\', "\\\\").replace('\'', "\\'"))
}

/// Replacement texts.
fn templates(ctx: &mut Ctx) {
    ctx.section("replacement texts");
    let toks = ["\\0", "\\1", "\\2", "\\3", "\\9", "\\&", "\\`", "\\'", "\\\\", "x", "é", "\\z", "1", "$1", "#"];
    let mut v = vec![];
    let mut temps: Vec<String> = vec!["".into(), "\\".into(), "a\\".into()];
    for a in toks {
        temps.push(a.into());
        for b in toks {
            temps.push(format!("{a}{b}"));
            if ctx.thorough {
                for c in toks {
                    temps.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    for (p, st) in [("(a)(b)?", "abéa"), ("(b)|(é)", "abéa"), ("é*", "aéb"), (".", "éa"), ("z", "ab"), ("(.)(.)(.)", "abéab")] {
        let re = Re::new(p, Flags::default());
        let s: Vec<char> = st.chars().collect();
        let all = re.all(&s);
        for t in &temps {
            let f = |c: &Caps| expand(t, &s, c);
            let lit = lit_of(t);
            v.push(Case::f(
                &format!("s = \"{st}\"; [s.sub(/{p}/, {lit}), s.gsub(/{p}/, {lit})]"),
                format!("[{}, {}]", q(&replaced(&s, &all[..all.len().min(1)], &f)), q(&replaced(&s, &all, &f))),
            ));
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(60).run(v.into_iter());
}

/// Sequences of matches: the variables belong to the last one.
fn histories(ctx: &mut Ctx) {
    ctx.section("histories of matches");
    // (code, what the variables are afterwards: None = as before, Some(None) = nil)
    let pre = |s: &str, p: &str, last: bool| -> Option<Option<String>> {
        let re = Re::new(p, Flags::default());
        let t: Vec<char> = s.chars().collect();
        let all = re.all(&t);
        Some((if last { all.last() } else { all.first() }).map(|c| vars(&t, Some(c))))
    };
    let ops: Vec<(&str, Option<Option<String>>)> = vec![
        ("\"xab\" =~ /(a)(b)/", pre("xab", "(a)(b)", false)),
        ("\"xab\" =~ /(q)/", pre("xab", "(q)", false)),
        ("/(b)|(é)/ =~ \"aé\"", pre("aé", "(b)|(é)", false)),
        ("/b/ === \"abc\"", pre("abc", "b", false)),
        ("/(z)/ === \"abc\"", pre("abc", "(z)", false)),
        ("/(z)/ === 5", Some(None)),
        ("\"ab\".gsub(/(.)/) { $1 + \"1\" }", pre("ab", "(.)", true)),
        ("\"ab\".gsub(/z/, \"\")", pre("ab", "z", true)),
        ("\"aab\".scan(/(a)(b)?/)", pre("aab", "(a)(b)?", true)),
        ("\"aab\".scan(/(z)/)", pre("aab", "(z)", true)),
        ("case \"éa\" when /(b)/ then 1 when /(é)/ then 2 end", pre("éa", "(é)", false)),
        ("\"ab\"[/(b)/, 1]", pre("ab", "(b)", false)),
        ("\"ab\"[/(z)/, 1]", pre("ab", "(z)", false)),
        ("\"ab\".match(/(.)(.)/)", pre("ab", "(.)(.)", false)),
        ("\"ab\".match(/(z)(.)/)", pre("ab", "(z)(.)", false)),
        ("\"ab\".sub(/(a)/, \"\\\\1\")", pre("ab", "(a)", false)),
        ("\"ab\".split(/(a)/)", None),
        ("[1, 2].map { |x| x + 1 }", None),
        ("x = \"ab\".dup; x.slice!(/b/)", pre("ab", "b", false)),
        ("\"ab\" + \"c\"", None),
    ];
    let depth = if ctx.thorough { 4 } else { 3 };
    ctx.bound("depth", depth);
    let mut v = vec![];
    let n = ops.len();
    for k in 0..n.pow(depth) {
        let ix: Vec<usize> = (0..depth).map(|d| k / n.pow(d) % n).collect();
        let mut code = String::from("t = []; /(i)(n)i/ =~ \"init\"; ");
        let mut cur = "[\"ini\", \"t\", \"i\", \"n\"]".to_string();
        let mut exp = vec![];
        for i in ix {
            code += &format!("{}; t << {VARS}; ", ops[i].0);
            if let Some(x) = &ops[i].1 {
                cur = x.clone().unwrap_or("[nil, nil, nil, nil]".into());
            }
            exp.push(cur.clone());
        }
        v.push(Case::f(&(code + "t"), list(&exp)));
    }
    for (c, e) in [
        ("[nil =~ /a/, :ab =~ /b/, /b/ =~ :ab, /b/ =~ nil, /b/ === :ab, /b/ === nil, /b/ === 3, /b/ === [\"b\"]]", "[nil, 1, 1, nil, true, false, false, false]"),
        ("[/a/ == /a/, /a/ == /b/, /a/ == /a/i, /a/ == /a/m, Regexp.new(\"a\") == /a/, /a/ == \"a\", {/a/ => 1}[/a/], /a/.eql?(/a/)]", "[true, false, false, false, true, false, 1, true]"),
        ("(Regexp.new(\"(\") rescue 1)", "1"),
        ("(Regexp.new(\"[\") rescue 1)", "1"),
        ("s = \"ab\"; s =~ /(a)/; s << \"c\"; [$1, $']", "[\"a\", \"b\"]"),
        ("s = \"ab\"; s.gsub(/a|b/) { |m| s << \"x\" if s.size < 9; m * 2 }", "\"aabb\""),
        ("s = \"ab\"; r = s.gsub(/a|b/) { s.replace(\"\"); \"q\" }; [r, s]", "[\"qq\", \"\"]"),
        ("s = \"ab\"; t = []; s.scan(/./) { |m| s.replace(\"\"); GC.start; t << m }; t", "[\"a\", \"b\"]"),
        ("s = \"aab\"; s.sub(/(a)/) { \"zzz\" =~ /(z)/; $1 }", "\"zab\""),
        ("t = []; \"abc\".scan(/(.)/) { |x| \"q\" =~ /(q)/ if x == \"a\" || x == [\"a\"]; t << $1 }; t", "[\"q\", \"b\", \"c\"]"),
        ("t = []; \"abab\".scan(/(a)(b)/) { |x, y| t << y << x }; t", "[\"b\", \"a\", \"b\", \"a\"]"),
        ("\"abc\".gsub(/b/) { break :out }", ":out"),
        ("\"abc\".gsub(/b/) { next \"N\" }", "\"aNc\""),
        ("\"abc\".gsub(/b/) { 5 }", "\"a5c\""),
        ("\"abc\".gsub(/b/) { nil }", "\"ac\""),
        ("(\"abc\".gsub(/b/) { raise IndexError } rescue 7)", "7"),
        ("(\"abc\".scan(/b/) { raise IndexError } rescue 7)", "7"),
        ("\"abc\".scan(/b/) { |m| break m * 3 }", "\"bbb\""),
        ("\"abc\".sub(/b/) { break :out }", ":out"),
        ("(1..12).map { |i| \"a\" * i =~ /a{#{i}}\\z/ }.uniq", "[0]"),
        ("(1..3).map { |i| \"x123\" =~ /#{i}/o }", ANY),
        ("/(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)/ =~ \"abcdefghij\"; [$1, $9, $10, $11]", "[\"a\", \"i\", \"j\", nil]"),
        ("\"ab\" =~ /(b)/; [Regexp.last_match(0), Regexp.last_match(1), Regexp.last_match(2)]", "[\"b\", \"b\", nil]"),
        ("\"ab\".match(/b/, 1)[0] + \"é\".match(/./, 0)[0]", "\"bé\""),
        ("[\"abab\".match(/b/, 2)[0], \"ab\".match(/a/, 1), \"ab\".match(/a/, 5), \"ab\".match(/\\z/, 2)[0]]", "[\"b\", nil, nil, \"\"]"),
        ("\"ab\".match(/(b)/) { |m| m[0] + $1 }", "\"bb\""),
        ("\"ab\".match(/z/) { |m| 5 }", "nil"),
        ("if \"k=v\" =~ /(\\w)=(\\w)/ then [$1, $2, $&, $'] end", "[\"k\", \"v\", \"k=v\", \"\"]"),
    ] {
        v.push(Case::f(c, e));
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).batch(40).run(v.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    products(ctx);
    plain_text(ctx);
    templates(ctx);
    histories(ctx);
}
