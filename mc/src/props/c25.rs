//! C25: every text is compiled or rejected with a position inside it; nothing else can happen.
use crate::report::Ctx;
use crate::worker::*;

/// Every token class of the language.
pub const TOKENS: &[&str] = &[
    "1", "1.5", "\"s\"", "'s'", ":a", "\"#{a}\"", "\"#{", "%w(a b)", "/r/", "nil", "self", "[", "]", "(", ")", "{", "}", "|", "||", "&&", "&", "*", "**", "+", "-", "!", "!=", "==", "===", "=~", "<",
    "<<", "<=>", ">", "=", "+=", "||=", ",", ";", "\n", ".", "&.", "::", ":", "?", "=>", "->", "..", "...", "~", "%", "/", "^", "a", "A", "@a", "@@a", "$a", "f", "a:", "if", "unless", "else", "elsif",
    "then", "end", "while", "until", "for", "in", "do", "case", "when", "def", "class", "module", "begin", "rescue", "ensure", "return", "break", "next", "redo", "yield", "super", "and", "or", "not",
    "alias", "undef", "defined?", "<<A\n", "A\n", "#", "\\", "\"", "'", "`", "\t", "\u{0}", "é", "__END__", "@", "$", "0x", "1e", "1_", "?a", "%i[", "f?", "a!", "=begin\n", "\\\n", "\"\\u", ">>", "%=",
    "->(a)", "|a|", "do |a|", "**a", "*a", "&a", "..1", "!~", "<=", ">=", "-1", "b", "puts", "0b1", "1r", "2i", "raise", "true", "%q(", "%(",
    "retry", "BEGIN", "END", "__FILE__", "__LINE__", "1..", "&:a", "(a)", "[1]", "{}", "()", "[]", "=end\n", "\r\n", "\u{3042}",
];

/// Where a sequence is put.
const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("def f\n", "\nend"),
    ("[1].each { |x| ", " }"),
    ("f(", ")"),
    ("a = ", ""),
    ("x = [", "]"),
    ("h = {", "}"),
    ("\"#{", "}\""),
    ("case 1\nwhen ", "\n2\nend"),
    ("class A\n", "\nend"),
    ("begin\n", "\nend"),
    ("if ", "\n1\nend"),
    ("def f(", "); end"),
    ("->(", ") { }"),
    ("[1].each { |", "| }"),
    ("while a\n", "\nend"),
    ("a ? ", " : 1"),
    ("f ", " do |x| end"),
    ("for ", " in a\nend"),
    ("1.f ", ""),
    ("a, ", " = 1, 2"),
    ("begin\nrescue ", "\nend"),
    ("a[", "] += 1"),
    ("class ", "\nend"),
    ("def ", "\nend"),
    ("return ", ""),
    ("x = <<A\n#{", "}\nA\n"),
    ("/#{", "}/"),
    ("%w(", ")"),
    ("case\nwhen 1\n", "\nend"),
    ("begin\n", "\nrescue\nelse\nensure\nend"),
    ("f a: ", ", b: 1"),
    ("yield ", ""),
    ("!", ""),
    ("-", ""),
];

/// Programs all of which run from an opening keyword or bracket to its end, so that
/// no proper prefix (after the first `open` characters) is a program.
pub const CORPUS: &[(&str, usize)] = &[
    ("def f(a, b = 1, *c, d, e:, g: 2, **h, &i)\n  return a if b == 1 and !c.empty?\n  x, y = d, e rescue nil\n  [a, *c, { e: 1, :g => 2, \"s\" => 3 }]\nend", 4),
    ("class A < B\n  attr_accessor :a, :b\n  include M\n  X = 1\n  @@v = 0\n  def initialize(a)\n    @a = a\n    super()\n  end\n  def self.m; yield 1, 2; end\n  class << self\n    def z; end\n  end\n  private\n  alias p q\nend", 6),
    ("begin\n  raise ArgumentError, \"m\" unless $g\nrescue A, B => e\n  p e.message\nrescue => e then 1\nelse\n  2\nensure\n  3\nend", 6),
    ("if a > 1 && b <= 2 || c then\n  p 1\nelsif not_x? # comment\n  p(2)\nelse\n  p :sym, \"a#{b}c#{\"d#{1 + 2}\"}\"\nend", 3),
    ("while i < 10 do\n  i += 1\n  next if i.odd?\n  break i if i == 8\n  until z; z ||= true; end\nend", 6),
    ("case x\nwhen 1, 2 then :a\nwhen Integer, *list\n  :b\nwhen 3..5, \"s\", /r#{1}e/i\n  :c\nelse\n  :d\nend", 5),
    ("[1, 2.5, -3, 1_000, 0xff, 0b101, :sym, \"str\\n\\u0041\\x41\\e\", 'q\\'s', %w(a b), %i[c d], nil, true, self, 1..2, (3...4), ->(x, y = 1) { x + y }, [[]], {}, ?a, `ls`]", 1),
    ("{ a: 1, \"b\" => [2], :c => { d: 3 }, 4 => lambda { |x, y, *z, k: 1, &b| x }, e: proc do |x| x end }", 1),
    ("for a, b in [[1, 2], [3, 4]] do\n  p a + b * 2 ** 3 - -4 / 5 % 6 << 1 & 2 | 3 ^ ~4\nend", 4),
    ("module M\n  def m; M::N::O; ::P; end\n  module_function :m\n  module N; end\nend", 7),
    ("(a = b = 1; a += 1; a ||= 2; a &&= 3; @x -= 1; $y *= 2; a[0] <<= 1; o.z |= 4; A::B; o&.q; o.r(1) { |v| v }.s do |w| w end)", 1),
    ("def m\n  <<A + <<-'B' + \"x\"\nline #{1 +\n 2} one\nA\n  raw #{no}\n  B\nend", 4),
    ("def ==(o); !(self != o) ? (o =~ /x/) : o <=> 1; end", 4),
    ("begin\n  a\n    .b(1)\n    .c { |x| x }\n    .d\n  e +\n    f\n  g(1,\n    2,\n    *h,\n    k: 1,\n    &i)\nend", 6),
    ("loop {\n  x = if a then b else c end\n  y = case z when 1 then 2 end\n  w = begin; 1; end while false\n  v = defined?(q) && defined?(r)\n  next 1\n}", 6),
    ("def s; yield(*a, **b); return; super; super(1); redo_it; __FILE__; __LINE__; end", 4),
    ("unless x === y\n  a, b = b, a\n  a, b, c = *d\n  (e.f, g[0], @h, $i, J = 1, 2, 3, 4, 5)\n  e.f, g[0], @h, $i = 1, 2, 3, 4\nend", 7),
];

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    /// compiled or rejected
    Either,
    Valid,
    /// rejected in one way or the other
    Invalid,
    /// rejected as incomplete
    Incomplete,
}

pub fn judge(w: Want, got: &str) -> bool {
    match w {
        Want::Either => matches!(got, "ok" | "rejected" | "incomplete"),
        Want::Valid => got == "ok",
        Want::Invalid => matches!(got, "rejected" | "incomplete"),
        Want::Incomplete => got == "incomplete",
    }
}

pub fn describe(w: Want) -> &'static str {
    match w {
        Want::Either => "ok, rejected or incomplete",
        Want::Valid => "ok",
        Want::Invalid => "rejected or incomplete",
        Want::Incomplete => "incomplete",
    }
}

const CHUNK: usize = 400;

/// Hand every text to the front end.
pub fn texts(ctx: &mut Ctx, it: impl Iterator<Item = (Want, String)> + Send) {
    let retry = std::sync::Mutex::new(Vec::<(Vec<Want>, Vec<String>)>::new());
    let it = std::sync::Mutex::new(it);
    let mut bad = vec![];
    run_pool(
        || {
            let (w, t) = match retry.lock().unwrap().pop() {
                Some(x) => x,
                None => {
                    let mut it = it.lock().unwrap();
                    let (w, t): (Vec<Want>, Vec<String>) = it.by_ref().take(CHUNK).unzip();
                    if t.is_empty() {
                        return None;
                    }
                    (w, t)
                }
            };
            Some((w, Req { scripts: t, front: true, cpu_s: 5, ..Req::default() }))
        },
        |w, req, o: Outcome| {
            ctx.executions += 1;
            for (n, r) in o.results.iter().enumerate() {
                let got = r.clone().unwrap_or_default();
                if judge(w[n], &got) {
                    ctx.states += 1;
                    ctx.transitions += 1;
                    ctx.agree(&format!("{:?}", req.scripts[n]), &got, &got);
                } else {
                    ctx.states += 1;
                    bad.push((req.scripts[n].clone(), w[n], got));
                }
            }
            let n = o.results.len();
            if n < req.scripts.len() {
                ctx.states += 1;
                // a limit reached by a long batch is not the fault of its last text
                if o.status == Status::Timeout && n > 0 {
                    retry.lock().unwrap().push((w[n..].to_vec(), req.scripts[n..].to_vec()));
                } else {
                    bad.push((req.scripts[n].clone(), w[n], o.status.show()));
                    if n + 1 < req.scripts.len() {
                        retry.lock().unwrap().push((w[n + 1..].to_vec(), req.scripts[n + 1..].to_vec()));
                    }
                }
            } else if o.status != Status::Ok && !matches!(o.status, Status::Err(_)) {
                bad.push((format!("end of batch: {}", req.scripts.last().unwrap()), w[n - 1], o.status.show()));
            }
        },
    );
    bad.sort_by_key(|b: &(String, Want, String)| (b.0.len(), b.0.clone()));
    for (t, w, got) in bad {
        ctx.disagree(&format!("{t:?}"), &t, "front", describe(w), &got);
    }
}

fn sequences(ctx: &mut Ctx) {
    let n = TOKENS.len();
    ctx.bound("tokens", n);
    ctx.section("every sequence of up to three tokens, joined with and without spaces");
    let seqs = (0..=3u32).flat_map(move |d| (0..n.pow(d)).map(move |k| (0..d).map(|i| TOKENS[k / n.pow(i) % n]).collect::<Vec<_>>()));
    let joiners = if ctx.thorough { vec![" ", "", "\n"] } else { vec![" "] };
    texts(ctx, seqs.flat_map(move |s| joiners.clone().into_iter().map(move |j| (Want::Either, s.join(j))).collect::<Vec<_>>()));
    ctx.section("every sequence of up to two tokens in every context");
    let d = if ctx.thorough { 3 } else { 2 };
    let step = if ctx.thorough { 3 } else { 1 };
    let ctxs = CONTEXTS.iter().flat_map(move |(a, b)| {
        (1..=d).flat_map(move |d| {
            let step = if d == 3 { step } else { 1 };
            let toks: Vec<&str> = TOKENS.iter().copied().step_by(step).collect();
            let m = toks.len();
            (0..m.pow(d)).map(move |k| {
                let s: Vec<_> = (0..d).map(|i| toks[k / m.pow(i) % m]).collect();
                (Want::Either, format!("{a}{}{b}", s.join(" ")))
            })
        })
    });
    texts(ctx, ctxs);
}

/// Split into tokens well enough to edit a program.
fn split(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let class = |c: char| if c.is_alphanumeric() || c == '_' { 0 } else if c == ' ' { 1 } else { 2 };
    for c in s.chars() {
        match v.last_mut() {
            Some(l) if class(c) < 2 && class(l.chars().last().unwrap()) == class(c) => l.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}

fn corpus(ctx: &mut Ctx) {
    ctx.section("programs and all their prefixes");
    let mut v = vec![];
    for (p, open) in CORPUS {
        v.push((Want::Valid, p.to_string()));
        v.push((Want::Valid, format!("{p}\n")));
        v.push((Want::Valid, format!("{p}; {p}")));
        for (i, c) in p.char_indices().filter(|(i, _)| *i >= *open) {
            v.push((if c == '\n' { Want::Incomplete } else { Want::Invalid }, p[..i].to_string()));
            // what is left after a beginning was cut off
            v.push((Want::Either, p[i..].to_string()));
        }
    }
    texts(ctx, v.into_iter());
    ctx.section("programs with one token replaced, inserted, removed, doubled or moved");
    let toks: &[&str] = TOKENS;
    let thorough = ctx.thorough;
    let edits = CORPUS.iter().flat_map(move |(p, _)| {
        let t = split(p);
        (0..t.len()).flat_map(move |i| {
            let t = t.clone();
            let mut v = vec![];
            let mk = |w: Want, x: &[String], y: &str, z: &[String]| (w, format!("{}{y}{}", x.concat(), z.concat()));
            v.push(mk(Want::Either, &t[..i], "", &t[i + 1..]));
            v.push(mk(Want::Either, &t[..i], &t[i].repeat(2), &t[i + 1..]));
            for (n, k) in toks.iter().enumerate() {
                if thorough || (n + i) % 3 == 0 {
                    v.push(mk(Want::Either, &t[..i], k, &t[i + 1..]));
                }
                if thorough || (n + i) % 3 == 1 {
                    v.push(mk(Want::Either, &t[..i], &format!(" {k} "), &t[i..]));
                }
            }
            let far = if thorough { t.len() } else { (i + 6).min(t.len()) };
            for j in i + 1..far {
                let mut u = t.clone();
                u.swap(i, j);
                v.push((Want::Either, u.concat()));
                if j > i + 1 {
                    v.push(mk(Want::Either, &t[..i], "", &t[j..]));
                }
            }
            v
        })
    });
    texts(ctx, edits);
}

//---------------------------------------------------------------- an exact grammar

/// Tokens of a sub-language of literals and operators whose grammar is known exactly.
const LITERAL_TOKENS: &[&str] = &["1", "+", "-", "*", "==", "&&", "!", "(", ")", "[", "]", "{", "}", "=>", ",", "?", ":", "\n", ";", "if", "and"];

/// Recogniser of the sub-language, following the grammar of Ruby.
struct Rec<'a> {
    t: &'a [&'static str],
    i: usize,
    /// met a form which the implementation is free to reject or accept
    free: bool,
}

impl<'a> Rec<'a> {
    fn peek(&self) -> &'static str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn is(&self, s: &str) -> bool {
        self.peek() == s
    }
    fn eat(&mut self, s: &str) -> bool {
        let b = self.is(s);
        self.i += b as usize;
        b
    }
    fn nl(&mut self) {
        while self.eat("\n") {}
    }
    fn terms(&mut self) -> bool {
        let i = self.i;
        while self.eat("\n") || self.eat(";") {}
        self.i > i
    }
    fn program(t: &'a [&'static str]) -> Want {
        // labels with a space before the colon
        let mut last = "";
        for w in t.iter().filter(|w| **w != "\n") {
            if *w == ":" && matches!(last, "if" | "and") {
                return Want::Either;
            }
            last = *w;
        }
        let mut r = Rec { t, i: 0, free: false };
        let ok = r.stmts() && r.i == t.len();
        if r.free {
            Want::Either
        } else if ok {
            Want::Valid
        } else {
            Want::Invalid
        }
    }
    /// Statements up to a token that cannot begin one.
    fn stmts(&mut self) -> bool {
        self.terms();
        while !matches!(self.peek(), "" | ")") {
            if !self.stmt() {
                return false;
            }
            if !self.terms() {
                break;
            }
        }
        true
    }
    fn stmt(&mut self) -> bool {
        if !self.expr() {
            return false;
        }
        while self.eat("if") {
            self.nl();
            if !self.expr() {
                return false;
            }
        }
        true
    }
    fn expr(&mut self) -> bool {
        if !self.arg() {
            return false;
        }
        while self.eat("and") {
            self.nl();
            if !self.arg() {
                return false;
            }
        }
        true
    }
    fn arg(&mut self) -> bool {
        if !self.conj() {
            return false;
        }
        if self.eat("?") {
            self.nl();
            if !self.arg() {
                return false;
            }
            self.nl();
            if !self.eat(":") {
                return false;
            }
            self.nl();
            return self.arg();
        }
        true
    }
    fn conj(&mut self) -> bool {
        if !self.eq() {
            return false;
        }
        while self.eat("&&") {
            self.nl();
            if !self.eq() {
                return false;
            }
        }
        true
    }
    /// `==` does not associate
    fn eq(&mut self) -> bool {
        if !self.add() {
            return false;
        }
        if self.eat("==") {
            self.nl();
            if !self.add() || self.is("==") {
                return false;
            }
        }
        true
    }
    fn add(&mut self) -> bool {
        if !self.unary() {
            return false;
        }
        while self.eat("+") || self.eat("-") || self.eat("*") {
            self.nl();
            if !self.unary() {
                return false;
            }
        }
        true
    }
    fn unary(&mut self) -> bool {
        while self.eat("!") || self.eat("-") || self.eat("+") {
            self.nl();
        }
        if !self.primary() {
            return false;
        }
        while self.eat("[") {
            self.nl();
            if !self.elems("]") {
                return false;
            }
        }
        true
    }
    fn primary(&mut self) -> bool {
        match self.peek() {
            "1" => {
                self.i += 1;
                true
            }
            "(" => {
                self.i += 1;
                self.stmts() && self.eat(")")
            }
            "[" => {
                self.i += 1;
                self.nl();
                self.elems("]")
            }
            "{" => {
                self.i += 1;
                self.nl();
                self.elems("}")
            }
            _ => false,
        }
    }
    /// Elements of an array, hash or index up to `close`.
    fn elems(&mut self, close: &str) -> bool {
        let mut assoc = close == "}";
        while !self.eat(close) {
            let splat = close == "]" && self.eat("*");
            if splat {
                self.nl();
            }
            if !self.arg() {
                return false;
            }
            if !splat && (self.is("=>") || assoc) {
                // an array of a hash without braces is not implemented
                self.free |= close == "]";
                if !self.eat("=>") {
                    return false;
                }
                assoc = true;
                self.nl();
                if !self.arg() {
                    return false;
                }
            }
            if self.eat(",") {
                self.nl();
                continue;
            }
            self.nl();
            return self.eat(close);
        }
        true
    }
}

fn grammar(ctx: &mut Ctx) {
    ctx.section("every text of the literal sub-language is accepted exactly when it is in the grammar");
    let d = if ctx.thorough { 6 } else { 5 };
    ctx.bound("grammar_depth", d);
    let n = LITERAL_TOKENS.len();
    let it = (0..=d as u32).flat_map(move |d| {
        (0..n.pow(d)).map(move |k| {
            let t: Vec<&'static str> = (0..d).map(|i| LITERAL_TOKENS[k / n.pow(i) % n]).collect();
            (Rec::program(&t), t.join(" "))
        })
    });
    texts(ctx, it);
}

pub fn run(ctx: &mut Ctx) {
    grammar(ctx);
    corpus(ctx);
    sequences(ctx);
}
