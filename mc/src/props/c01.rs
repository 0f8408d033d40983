//! C01: garbage collection is invisible, under every schedule of collections.
//!
//! A program is run once with collection disabled; the number N of safe points it passes is then
//! known, and the program is run again under every schedule of the bound: at every point, at each
//! single point, at each pair of points. Swept cells are never reused in these runs (and poisoned),
//! so that any use of a reclaimed object shows; another run collects everywhere with reuse.
use crate::case::*;
use crate::report::Ctx;
use crate::worker::{run_pool, Gc, Outcome, Req, Status};

pub const PRELUDE: &str = r##"
def c; z = [1, "a" + "b"]; nil; end
class A; attr_accessor :v; def initialize(v); @v = v; end; def to_s; c; "A(" + @v.to_s + ")"; end
  def inspect; c; "#A(" + @v.inspect + ")"; end
  def ==(o); c; v == o.v; end
  def <=>(o); c; v <=> o.v; end
  def +(o); c; A.new(v + o.v); end
  def each; c; yield @v; c; yield @v; end
  def to_proc; c; w = @v; Proc.new { |x| c; [w, x] }; end
end
class Q; include Comparable; attr_reader :v; def initialize(v); @v = v; end; def <=>(o); c; @v <=> o.v; end; end
S = Struct.new(:m, :n)
def id(x); c; x; end
def yi(*a); c; yield(*a); end
"##;

/// (constructor of a fresh object, what to observe of `x`)
pub fn shapes() -> Vec<(&'static str, &'static str)> {
    vec![
        ("(\"st\" + \"r\")", "x"),
        ("[\"a\" + \"b\", [\"c\" * 2]]", "x"),
        ("{ (\"k\" + \"1\") => [\"v\" * 2], [1, \"z\" * 2] => 2 ** 70 }", "x"),
        ("(2 ** 80)", "x + 1"),
        ("(1.5 * 10.0 ** 290)", "x == 1.5 * 10.0 ** 290"),
        ("((\"a\" * 2)..(\"c\" * 2))", "[x.begin, x.end]"),
        ("A.new(\"p\" * 3)", "x.v"),
        ("S.new(\"m\" * 2, [\"n\" * 2])", "[x.m, x.n]"),
        ("(lambda { w = \"cap\" * 2; Proc.new { w << \"!\"; w } }).call", "[x.call, x.call]"),
        ("(w2 = \"l\" * 3; lambda { |a| [w2, a] })", "x.call(\"q\" * 2)"),
        ("(\"rec\" + \"v\").method(:length)", "x.call"),
        ("A.new(\"um\").method(:v).unbind", "x.bind(A.new(\"zz\" * 2)).call"),
        ("Complex(1.5 * 10.0 ** 290, 3)", "x == Complex(1.5 * 10.0 ** 290, 3)"),
        ("/#{\"a\" + \"b\"}(.)/", "x =~ \"xxabc\""),
        ("(RuntimeError.new(\"me\" + \"ss\"))", "[x.class, x.message]"),
        ("(begin; raise IndexError, \"ra\" * 2; rescue => ex; ex; end)", "[x.class, x.message]"),
        ("(ze = [\"e1\" * 2, \"e2\" * 2, \"e3\" * 2].each; ze.next; ze)", "[x.next, x.next]"),
        ("(zf = Fiber.new { |za| zl = \"loc\" + za; zb = Fiber.yield(zl); c; zl + zb }; zf.resume(\"in\" * 2); zf)", "x.resume(\"two\" * 2)"),
        ("Class.new(A) { attr_reader :q; def initialize(q); @q = q; end; def k; @q * 2; end }", "x.new(\"kk\").k"),
        ("Module.new { def mm; \"m\" * 3; end }", "(zp = Object.new; zp.extend(x); zp.mm)"),
        ("(zo = Object.new; w3 = \"sg\" * 2; def zo.sing; \"so\" * 2; end; zo.instance_variable_set(:@iv, [w3]); zo)", "[x.sing, x.instance_variable_get(:@iv)]"),
        ("(zh = {}.compare_by_identity; zk = \"id\" * 2; zh[zk] = [\"va\" * 2]; zh)", "[x.keys, x.values]"),
        ("(bl = \"bi\" * 2; binding)", "eval(\"bl\", x)"),
        ("(zd = [\"s1\" * 2]; zd << zd; zd)", "[x[0], x[1][1][0], x.length]"),
        ("[1, 2].each_with_index", "x.next"),
        ("(\"é\" * 3)", "[x, x.length]"),
        ("Time.now", "x.class"),
        ("(\"frag-ment\").split(\"-\")", "x"),
        ("[[[\"dee\" * 2]]]", "x"),
        ("Enumerator.new(1..3)", "[x.next, x.next]"),
    ]
}

/// Programs in which @B is held while collections run; @O observes it (as `x`).
pub fn holders() -> Vec<&'static str> {
    vec![
        "x = @B; c; c; p(@O)",
        "def f; x = @B; c; p(@O); c; end; f; c",
        "def f(x); c; p(@O); end; f(@B)",
        "def f(a, x); c; p a; p(@O); end; f(\"arg\" * 2, @B)",
        "def f(a, x = @B, *r, k: c); c; p(@O); p a, r, k; end; f(\"arg\" * 2)",
        "def f(*r); c; x = r[1]; p(@O); end; f(1, @B, 3)",
        "def f(*r); c; x = r[1]; p(@O); end; f(*[1, @B, c])",
        "def f(k: 1); c; x = k; p(@O); end; f(k: @B)",
        "def f(k: 1, **o); c; x = o[:y]; p(@O); end; f(k: 3, y: @B)",
        "def f(k: id(@B)); c; x = k; p(@O); end; f",
        "def f(&b); c; b.call; end; y = @B; f { c; x = y; p(@O) }",
        "y = nil; [@B].each { |z| c; y = z }; c; x = y; p(@O)",
        "[[@B, 2]].each { |x, t| c; p(@O); p t }",
        "x = [0, @B, 1][1]; c; p(@O)",
        "t = [c, @B, c, c]; x = t[1]; c; p(@O)",
        "t = [1, *[@B, c], c]; c; x = t[1]; p(@O)",
        "t = { a: c, b: @B, cc: c }; c; x = t[:b]; p(@O)",
        "t = { @B => c }; c; t.each { |x, v| c; p(@O) }",
        "t = {}; t[@B] = 1; c; x = t.keys[0]; c; p(@O)",
        "t = {}; t[1] = @B; t.delete(3); c; x = t.delete(1); c; p(@O)",
        "@iv = @B; c; x = @iv; p(@O)",
        "$gv = @B; c; x = $gv; p(@O)",
        "KK = @B; c; x = KK; p(@O)",
        "class A; KA = @B; @@cv = @B; @ci = @B; def self.cv; @@cv; end; def self.ci; @ci; end; end; c; x = A::KA; p(@O); x = A.cv; p(@O); x = A.ci; p(@O)",
        "o = A.new(@B); c; x = o.v; p(@O); o.v = @B; c; x = o.v; p(@O)",
        "o = S.new(1, @B); c; x = o.n; p(@O); o.m = @B; c; x = o.m; p(@O)",
        "o = Object.new; o.instance_variable_set(:@zz, @B); c; x = o.instance_variable_get(:@zz); p(@O)",
        "o = \"str\" * 1; o.instance_variable_set(:@zz, @B); c; x = o.instance_variable_get(:@zz); p(@O)",
        
        "def mk(y); c; Proc.new { c; y }; end; q = mk(@B); c; x = q.call; c; p(@O); x = q.call; p x.class",
        "def mk(y); lambda { |t = y| c; t }; end; q = mk(@B); c; x = q.call; p(@O)",
        "def mk(y); l = y; [Proc.new { l }, Proc.new { |n| l = n }]; end; g, s = mk(1); s.call(@B); c; x = g.call; p(@O)",
        "def mk(y); Proc.new { Proc.new { c; y } }; end; q = mk(@B); c; q2 = q.call; q = nil; c; x = q2.call; p(@O)",
        "def mk(y); l = y; binding; end; b = mk(@B); c; x = eval(\"l\", b); p(@O)",
        
        
        "fb = Fiber.new { |a| l = a; c; Fiber.yield(c); c; l }; fb.resume(@B); c; c; x = fb.resume; p(@O)",
        "fb = Fiber.new { l = @B; [1].each { Fiber.yield 1 }; c; l }; fb.resume; c; x = fb.resume; p(@O)",
        "fb = Fiber.new { Fiber.yield(@B) }; x = fb.resume; c; p(@O)",
        "fb = Fiber.new { @B }; x = fb.resume; c; p(@O)",
        "def deep(n, y); return Fiber.yield(n) if n == 0; z = y; deep(n - 1, y); z; end; fb = Fiber.new { deep(4, @B) }; fb.resume; c; x = fb.resume; p(@O)",
        "fb = Fiber.new { |a| l = a; g = Fiber.new { |b| k = b; Fiber.yield 1; c; k }; g.resume(l); Fiber.yield 2; c; g.resume }; fb.resume(@B); c; x = fb.resume; p(@O)",
        "e = [@B, 1, @B].each; x = e.next; c; p(@O); e.next; c; x = e.next; p(@O)",
        "e = [@B].map; r = e.with_index { |x, i| c; p(@O); i }; p r",
        "e = [1, @B].each_with_index; e.next; c; x = e.next[0]; p(@O)",
        "e = A.new(@B).to_enum(:each); x = e.next; c; e.next; p(@O)",
        "e = Enumerator.new([@B]); c; x = e.next; p(@O)",
        "def f; return @B; ensure; c; c; end; x = f; p(@O)",
        "def f; begin; @B; ensure; c; end; end; x = f; p(@O)",
        "x = begin; raise \"q\"; rescue; @B; ensure; c; end; p(@O)",
        "def f; yield; end; def g; f { return @B }; ensure; c; end; x = g; c; p(@O)",
        "def f; yield; ensure; c; end; x = f { break @B }; c; p(@O)",
        "x = [1].each { break @B }; c; p(@O)",
        "x = while true do c; break @B; end; c; p(@O)",
        "x = [1, 2].map { c; next @B }[1]; c; p(@O)",
        "class E9 < StandardError; attr_accessor :pl; end; begin; e = E9.new(\"mm\"); e.pl = @B; raise e; rescue E9 => g; c; x = g.pl; p(@O); end",
        "class E9 < StandardError; attr_accessor :pl; end; def f; e = E9.new(\"mm\"); e.pl = @B; raise e; ensure; c; end; begin; f; rescue E9 => g; c; x = g.pl; p(@O); end",
        "x = [@B, c][0]; c; p(@O)",
        "x, y = @B, c; c; p(@O)",
        "a = [nil]; a[id(0)] = @B; c; x = a[0]; p(@O)",
        "a = [nil]; a[(c; 0)] ||= @B; c; x = a[0]; p(@O)",
        "h = {}; h[\"k\" * 2] ||= @B; c; x = h[\"kk\"]; p(@O)",
        "o = A.new(nil); o.v ||= @B; c; x = o.v; p(@O)",
        "x = id(@B); c; p(@O)",
        "x = yi(@B) { |q| c; q }; p(@O)",
        "x = [@B].send(:first); c; y = [@B].send(:map) { |zq| c; zq }; c; y.size; p(@O)",
        "x = (c; @B) || c; p(@O)",
        "x = case @B when nil then 1 else c; @B end; c; p(@O)",
        "x = (true ? @B : c); c; p(@O)",
        "p(\"#{x = @B; c; (@O).class}-#{c}-#{\"t\" * 2}\")",
        "for x in [@B, @B] do c; p((@O).class) end; c; p(@O)",
        "x = @B.dup; c; p(@O)",
        "x = [@B].dup[0]; c; p(@O)",
        "x = [[@B]].flatten(1)[0]; c; x = [x].reverse[0]; c; p(@O)",
        "class A; def method_missing(n, *a); c; a; end; end; x = A.new(1).zork(@B)[0]; c; p(@O)",
        "class A; def self.mk(*a); c; new(*a); end; end; x = A.mk(@B).v; c; p(@O)",
        "class B2 < A; def initialize(v); c; super(v); c; end; end; x = B2.new(@B).v; p(@O)",
        "class B2 < A; def initialize(v); c; super; c; end; end; x = B2.new(@B).v; p(@O)",
        "m = A.instance_method(:v).bind(A.new(@B)); c; x = m.call; p(@O)",
        "m = A.new(@B).method(:v); c; x = m.call; p(@O)",
        "x = A.new(@B).instance_exec(1) { c; @v }; p(@O)",
        "pr = A.new(@B).to_proc; c; x = [1].map(&pr)[0][0]; p(@O)",
        "x = [1].map(&A.new(@B))[0][0]; c; p(@O)",
        
        "x = eval(\"c; y = @E; c; y\"); c; p(@O)",
        "(s = Object.new; class << s; attr_accessor :q; end; s.q = @B; c; x = s.q; p(@O))",
        "x = @B; 1.times { c; x = @B; c }; p(@O)",
        "x = nil; i = 0; while i < 3; x = @B; c; i += 1; end; p(@O)",
        "def r(n, y); x = y; r(n - 1, y) if n > 0; c; n == 0 ? p(@O) : nil; end; r(5, @B)",
        "x = @B; GC.start; c; p(@O)",
        "t = [@B] * 2; c; x = t[1]; p(@O)",
        "t = Array.new(2, @B); c; x = t[1]; p(@O)",
        "t = [1]; t.concat([@B]); t.unshift(@B); t << @B; c; x = t.pop; c; p(@O); x = t.shift; c; p(@O)",
        "t = [@B, @B, @B, @B, @B, @B]; c; x = t[5]; t.clear; c; p(@O)",
        "at = A.new(@B); alias zid id; c; x = zid(at).v; p(@O)",
    ]
}

/// Built-ins that hold partial results in their own variables while they call back.
pub fn builtins() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let arrs = ["[\"c\" * 2, \"a\" * 2, \"b\" * 2, \"a\" * 2, \"d\" * 2]", "[[\"c\" * 2], [\"a\" * 2], [\"b\" * 2]]", "(t = []; 9.times { |i| t << \"e\" + i.to_s }; t)"];
    for a in arrs {
        for m in [
            "map { |x| c; [x] }", "collect { |x| c; [x] }", "map! { |x| c; [x] }", "flat_map { |x| c; [x, \"f\" * 2] }", "select { |x| c; true }", "filter { |x| c; x != nil }", "reject { |x| c; false }", "partition { |x| c; x == [] }",
            "sort { |x, y| c; x <=> y }", "sort_by { |x| c; [x, \"k\" * 2] }", "sort_by { |x| c; x.inspect + \"z\" }", "uniq { |x| c; [x] }", "uniq! { |x| c; \"u\" + x.inspect }", "inject([]) { |m, x| c; m + [x] }",
            "inject(\"\") { |m, x| c; m + x.inspect }", "zip([\"z\" * 2]) { |x, y| c; [x, y] }", "zip([\"z\" * 2], [c])", "each_with_index { |x, i| c; [x] }", "each_index { |i| c; \"i\" * i }", "each { |x| c; x }",
            "find { |x| c; x.length == 9 }", "find { |x| c; true }", "find_index { |x| c; false }", "index { |x| c; [x] }", "any? { |x| c; false }", "all? { |x| c; [x] }", "each.next", "map.with_index { |x, i| c; [x, i] }",
            "each_with_index.map { |x, i| c; [x, i] }", "map(&:inspect)", "map(&A.new(\"tp\" * 2))", "each(&A.new(\"tp\" * 2))", "bsearch { |x| c; true }", "bsearch_index { |x| c; false }", "grep(String) { |x| c; [x] }", "inspect", "to_s", "join(\"-\" * 2)",
            "map { |x| A.new(x) }.inspect", "map { |x| A.new(x) }.join(\"-\")", "map { |x| A.new(x) }.include?(A.new(\"zz\"))", "map { |x| A.new(x) }.index(A.new(\"zz\"))", "map { |x| A.new(x) }.count(A.new(\"aa\"))",
            "map { |x| A.new(x) }.delete(A.new(\"aa\"))", "map { |x| A.new(x) }.sort.map { |x| x.v }", "map { |x| Q.new(x) }.max.v", "sort", "map { |x| A.new(x) } == [1]", "map { |x| A.new(x) } <=> [A.new(\"aa\")]",
            "each_slice(2).to_a", "map { |x| A.new(x) } * \",\"", "select.with_index { |x, i| c; i > 0 }", "map { |x| c; break [x] }", "map { |x| c; next [x] }", "transpose", "flatten", "compact", "reverse", "dup", "max", "min",
            "map { |x| c; [x].each { |y| c } }", "each { |x| [x].map { |y| c; [y] } }", "sort_by { |x| c; x }.first", "map { |x| c; raise x.inspect if x == 3; [x] }",
        ] {
            v.push(format!("r = {a}.{m}; c; p r"));
            v.push(format!("r = begin; {a}.{m}; ensure; c; end; p r"));
        }
    }
    let hs = ["{ (\"a\" * 2) => [\"x\" * 2], \"b\" => \"y\" * 2, [1] => 2 ** 70 }"];
    for h in hs {
        for m in [
            "each { |k, v| c; [k, v] }", "each_key { |k| c; [k] }", "each_value { |v| c; [v] }", "select { |k, v| c; true }", "reject { |k, v| c; v == 1 }", "map { |k, v| c; [k, v] }", "merge({ \"zz\" * 2 => [c] })", "merge!({ \"zz\" * 2 => [c] })",
            "invert", "sort_by { |k, v| c; k.inspect }", "keys", "values", "fetch(\"nope\") { |k| c; [k] }", "inspect", "to_s", "dup", "clone", "compact", "delete(\"b\")", "min_by { |k, v| c; 1 }", "key?([1])", "has_value?(\"yy\")",
            "any? { |k, v| c; false }", "all? { |k, v| c; true }", "each.next", "sum { |k, v| c; 1 }",
        ] {
            v.push(format!("r = {h}.{m}; c; p r"));
        }
    }
    v.push("h = {}; 20.times { |i| h[\"k\" + i.to_s] = [i.to_s * 2]; c }; c; p h".into());
    v.push("h = { A.new(1) => A.new(\"in\" * 2) }; c; p h.inspect.length; h.each { |k, v| p k.v, v.v }".into());
    v.push("h = Hash.new(\"de\" * 2); c; p h[1]; c; h[2] = [h[3]]; p h[2], h.default".into());
    for r in ["(1..5)", "(1...4)", "(\"a\"..\"e\")"] {
        for m in [
            "map { |x| c; [x] }", "each { |x| c; [x] }", "flat_map { |x| c; [x, \"a\" * 2] }", "all? { |x| c; [x] }", "to_a", "each.next", "inspect", "select { |x| c; true }", "reject { |x| c; false }", "inject { |a, b| c; [a, b] }",
            "each_with_index { |x, i| c }", "first(2)", "include?(\"c\" * 1)", "sort_by { |x| c; [x] }",
        ] {
            v.push(format!("r = {r}.{m}; c; p r"));
        }
    }
    for m in [
        "3.times { |i| c; \"t\" * i }", "3.times.map { |i| c; [i] }", "1.upto(4) { |i| c; [i] }", "4.downto(1) { |i| c; [i] }", "1.step(7, 2) { |i| c; [i] }", "3.times.next", "Array.new(4) { |i| c; \"n\" * i }", "loop { c; break [\"l\" * 2] }",
        "(2 ** 70).times { c; break \"b\" * 2 }", "[(2 ** 70), (2 ** 71)].map { |b| c; b + 1 }", "(2 ** 100) * (3 ** 50) / (2 ** 64)", "[2 ** 70, 2 ** 65].sort { |a, b| c; a <=> b }", "(2 ** 70).to_s + c.inspect",
    ] {
        v.push(format!("r = {m}; c; p r"));
    }
    for m in [
        "gsub(/[aeiou]/) { |x| c; \"<\" + x + \">\" }", "sub(/[aeiou]/) { |x| c; \"<\" + x + \">\" }", "gsub(\"l\") { |x| c; x * 2 }", "gsub(/l(.)/) { c; $1 + $1 }", "gsub(/l/, \"L\" * 2)", "sub(\"h\", \"J\" * 2)", "scan(/l./) { |x| c; [x] }", "scan(/(.)(o)/)", "scan(/./)",
        "split(\" \")", "split(/ /)", "each_char { |x| c; x }", "each_char.map { |x| c; x * 2 }", "chars", "bytes", "lines", "upcase", "center(30, \"xy\")", "ljust(30, \"-\" * 2)", "tr(\"l\", \"r\")", "match(/l(l)(o)/)[1]", "=~(/w(o)/)", "[](/o (w)/)", "slice!(/l+/)", "slice!(1, 3)",
        "% []", "succ", "each_line { |x| c; [x] }", "gsub!(/o/) { |x| c; x * 3 }", "sub!(/o/) { |x| c; x * 3 }", "sum", "to_sym", "each_byte { |x| c }", "each_char.next", "partition(\"o\")", "concat(\"x\" * 2)", "<<(\"y\" * 2)", "replace(\"zz\" * 2)", "*(3)", "+(A.new(1).to_s)",
    ] {
        v.push(format!("r = (\"hello\" + \" world\").{m}; c; p r"));
    }
    for s in [
        "p \"%s-%s-%d\" % [A.new(\"f1\" * 2), A.new(\"f2\" * 2), 2 ** 70]",
        "r = \"%p %p\" % [A.new(\"f1\" * 2), [A.new(\"f2\")]]; c; p r",
        "r = \"a#{A.new(\"i1\" * 2)}b#{A.new(\"i2\" * 2)}c#{c}\"; c; p r",
        "r = :\"s#{A.new(\"i1\" * 2)}\"; c; p r",
        "r = /#{A.new(\"i1\" * 2).to_s.length}#{c}x/; c; p r =~ \"96x\"",
        "r = `echo #{A.new(\"sh\").v}`; c; p r",
        "puts A.new(\"pu\" * 2), [A.new(\"pv\" * 2), [A.new(\"pw\" * 2)]], c",
        "print A.new(\"pr\" * 2), \"x\" * 2, A.new(3), \"\\n\"",
        "p A.new(\"pi\" * 2), [A.new(1)], { A.new(2) => A.new(3) }, (A.new(4)..A.new(5)), S.new(A.new(6), 7)",
        "r = p(A.new(\"x\" * 2), \"y\" * 2); c; p r.length",
        "x = A.new(\"p\" * 2) + A.new(\"q\" * 2) + A.new(\"r\" * 2); c; p x.v",
        "x = A.new([1]); x.v += [\"oa\" * 2, c]; c; p x.v",
        "x = [A.new([1])]; x[id(0)] += A.new([\"ob\" * 2]); c; p x[0].v",
        "x = (Q.new(\"a\" * 2) < Q.new(\"b\" * 2)); y = [Q.new(\"b\" * 2), Q.new(\"a\" * 2)].max.v; c; p x, y",
        "\"zabcz\" =~ /a(b)(c)/; c; c; p $1, $2; c; p $1 + $2",
        "m = \"zabcz\".match(/a(b)(c)/); c; c; p m[0], m[1], m[2]",
        "def f; \"zabcz\" =~ /a(b)/; c; $1; end; r = f; c; p r",
        "case \"zabcz\" * 1 when /a(b)/ then c; p $1 end",
        "x = S.new(\"s\" * 2, c); c; p x.m, x.n, x; c; p x.inspect",
        "T = Struct.new(:a, :b) do; def sum; c; a + b; end; end; t = T.new(\"t\" * 2, \"u\" * 2); c; p t.sum",
        "o = Object.new; o.instance_variable_set(:@a, \"ia\" * 2); o.instance_variable_set(:@b, [c]); c; p o.instance_variables, o.instance_variable_get(:@a)",
        "k = Class.new(A) { def m; c; [super_m, \"km\" * 2]; end; def super_m; v; end }; c; o = k.new(\"kv\" * 2); k = nil; c; p o.m",
        "m = Module.new { def mm; c; \"mm\" * 2; end }; A.include(m) rescue A.send(:include, m); m = nil; c; p A.new(1).mm",
        "m = Module.new { def v; c; super + \"!\"; end }; A.prepend(m); m = nil; c; p A.new(\"pv\" * 2).v",
        "o = A.new(\"sg\" * 2); def o.v; c; super + \"?\"; end; c; p o.v; o2 = o; o = nil; c; p o2.v",
        "class A; def g; c; end; alias h g; alias_method :i, :g; end; c; p A.new(1).i",
        "def f(a, b = a + \"d\", *r, d, k: b + \"k\", **o, &bl); c; bl.call(a, b, r, d, k, o); end; p f(\"a\" * 2, \"z\" * 2, z: [c]) { |*a| c; a }",
        "def f(*a, **k, &b); g(*a, **k, &b); end; def g(x, y, z: 1); c; yield x + y + z; end; p f(\"a\" * 2, \"b\" * 2, z: \"c\" * 2) { |q| c; q * 2 }",
        "def f; yield \"a\" * 2, [\"b\" * 2, [\"c\" * 2]]; end; p f { |a, b| c; [b, a] }",
        "pr = Proc.new { |a, (b, d), *e| c; [a, b, d, e] }; p pr.call(\"a\" * 2, [\"b\" * 2, \"c\" * 2], \"d\" * 2)",
        "pr = proc { |a| c; a }; p [[\"q\" * 2, 1], [\"r\" * 2, 2]].map(&pr)",
        "l = lambda { |x| c; return x + \"l\" }; p l.call(\"a\" * 2), l.(\"b\" * 2), l[\"c\" * 2]",
        "def f(n); n == 0 ? [\"z\" * 2] : f(n - 1) + [\"f\" * n, c]; end; p f(6)",
        "def fib(n); n < 2 ? n.to_s : fib(n - 1) + fib(n - 2); end; p fib(6)",
        "a = [\"x\" * 2, \"y\" * 2]; a[0], a[1] = a[1], a[0]; c; p a; b, *d = *a, \"z\" * 2; c; p b, d",
        "a, (b), *d = \"a\" * 2, \"b\" * 2, c, \"d\" * 2; p a, b, d",
        "x = [\"a\" * 2]; y = x; x += [\"b\" * 2]; c; p x, y; x << (\"c\" * 2) << [c]; p x",
        "x = \"a\" * 2; x += \"b\" * 2; x <<= 1 rescue x << \"c\"; c; p x; y = x * 2; c; p y",
        "b = binding; eval(\"q1 = 'q' * 3; c\", b); c; p eval(\"q1 + 'r' * 2\", b)",
        "p eval(\"[1, 2].map { |x| c; 's' * x }\"), eval(\"def ev(x); c; x * 2; end; ev('e' * 2)\")",
        "A.class_eval { def ce; c; \"ce\" * 2; end }; c; p A.new(1).ce",
        "p A.new(\"ie\" * 2).instance_exec(\"x\" * 2) { |y| c; @v + y }",
        "p Module.new { c; def self.q; \"mq\" * 2; end }.q",
        "def f; c; yield; ensure; c; $e = \"en\" * 2; end; r = begin; f { raise \"ex\" * 2 }; rescue => e; c; e.message + $e; end; p r",
        "r = begin; Integer(\"zz\" * 2); rescue => e; c; e.message; end; p r; r = begin; nil.foo(\"a\" * 2); rescue NoMethodError, NameError => e; c; e.class; end; p r",
        "begin; begin; raise \"in\" * 2; ensure; c; begin; raise \"mid\" * 2; rescue => e; c; p e.message; end; end; rescue => e; c; p e.message; end",
        "begin; raise ArgumentError.new(\"ae\" * 2); rescue TypeError, ArgumentError => e; c; p e.message, e.backtrace.class; end",
        "begin; raise A; rescue TypeError => e; c; p e.class; end",
        "r = [1, 2, 3].each { |x| begin; c; next if x == 1; break \"br\" * x; ensure; c; end }; p r",
        "fs = (1..3).map { |i| Fiber.new { |a| s = \"f#{i}\" + a; loop { c; s = s + Fiber.yield(s) } } }; fs.each { |f| p f.resume(\"-\" * 2) }; fs.each { |f| c; p f.resume(\"x\" * 2) }; fs.reverse.each { |f| p f.resume(\"y\" * 2) }",
        "f = Fiber.new { begin; Fiber.yield \"a\" * 2; raise \"fe\" * 2; ensure; c; end }; f.resume; begin; f.resume; rescue => e; c; p e.message; end",
        "e = [\"a\" * 2, \"b\" * 2].each; begin; loop { c; p e.next }; end; c; p((e.next rescue 1))",
        "e1 = [1, 2].map; e2 = e1.with_index; c; p e2.map { |x, i| c; [\"w\" * x, i] }",
        "50.times { |i| f = Fiber.new { |a| Fiber.yield(a + \"q\"); 1 }; f.resume(\"r\" * 2) }; c; p 1",
        "o = Object.new; def o.each; yield \"oe1\" * 1; c; yield \"oe2\" * 1; end; e = o.to_enum; p e.next; c; p e.next",
        "x = nil; y = Proc.new { x }; x = \"late\" * 2; c; p y.call; 2.times { |i| z = \"b#{i}\"; y = Proc.new { z } }; c; p y.call",
        "def cnt; n = \"\"; inc = -> { n = n + \"i\"; c; n }; get = -> { n }; [inc, get]; end; i, g = cnt; i.call; c; i.call; j, k = cnt; p g.call, k.call",
        "a = []; 3.times { |i| a << lambda { c; \"cl\" * i } }; c; p a.map { |l| l.call }",
        "x = 5; s = \"a\" * 2; until x == 0; s = s + (c; x.to_s); x -= 1; end; p s",
        "class D; def self.[](x); c; [x, \"br\" * 2]; end; def []=(k, v); @h ||= {}; c; @h[k] = v; end; def [](k); c; @h[k]; end; end; d = D.new; d[\"k\" * 2] = [\"v\" * 2]; c; p d[\"kk\"], D[\"z\" * 2]; d[\"kk\"] += [\"w\" * 2]; p d[\"kk\"]",
        "class D; def coerce(x); c; [1, 2]; end; def -@; c; \"neg\" * 2; end; def !; c; super; end; def call(x); c; [x]; end; end; d = D.new; p(-d); p d.(\"c\" * 2)",
        "class D; def respond_to_missing?(*a); c; true; end; def method_missing(n, *a, &b); c; [n, a, b ? b.call(\"mb\" * 2) : c]; end; end; p D.new.foo(\"mm\" * 2) { |x| c; x }",
        "catch_all = begin; [3, 1].sort_by { |x| c; raise \"sb\" * 2 }; rescue => e; e.message; end; c; p catch_all",
        "r = [[\"b\" * 2, 1], [\"a\" * 2, 2]].sort; c; p r, r.max, r.min",
        "ObjectSpace rescue 1; s = \"k\" * 40; t = s[3, 10]; u = s.dup; s << \"!\"; c; p s.length, t, u.length",
        "x = ([1] * 100).map { |i| \"n#{i}\" }; c; p x.uniq, x.length; x.map! { |y| c if y == 3; y + \"m\" }; p x[99]",
        "Dir.pwd; x = File.join(\"a\" * 2, \"b\" * 2); c; p x, File.basename(x), File.extname(\"q.\" + \"rb\")",
        "x = [3, 1, 2].sort.reverse.map { |y| y.to_s * 2 }.select { |y| c; y }.join(\"/\" * 2); c; p x",
        "x = \"a-b-c\".split(\"-\").map(&:upcase).each_with_index.map { |y, i| c; y * (i + 1) }; p x",
        "p [\"a\" * 2, c, [\"b\" * 2, c, { k: \"c\" * 2, l: [c, \"d\" * 2] }], c, \"e\" * 2]",
        "p({ (\"a\" * 2) => c, \"b\" * 2 => [c, { c => \"d\" * 2 }] })",
        "p id([id(\"a\" * 2), id([id(\"b\" * 2)])]), [c, id(\"d\" * 2), c]",
        "x = id(\"a\" * 2) + id(\"b\" * 2) + [id(\"c\" * 2)].join(id(\"d\" * 2)); c; p x",
        "def kw(a:, b: a + \"b\", **r); c; [a, b, r]; end; p kw(a: id(\"ka\" * 2), z: id(\"kz\" * 2)); h = { a: \"ha\" * 2, y: c }; p kw(**h)",
        "p((1..3).map { |x| c; (1..x).map { |y| c; \"r\" * y } })",
        "p(__method__.inspect) rescue p 1; def mth; c; yield; end; p mth { mth { c; \"nested\" * 2 } }",
        "$a = [\"ga\" * 2]; $b = $a; $a = nil; c; p $b; @q = { q: \"iq\" * 2 }; c; p @q; @q = nil; c; p @q",
        "C1 = [\"c1\" * 2]; C1 << (\"c2\" * 2); c; module M1; C2 = C1; c; def self.g; C2; end; end; p M1.g, M1::C2",
        "class A; @@z = [\"cz\" * 2]; def z; c; @@z << \"q\" * 2; end; end; A.new(1).z; c; p A.new(2).z",
    ] {
        v.push(s.to_string());
    }
    v
}

/// What a run showed: the printed text and how it ended.
/// Addresses differ between runs and are blanked.
fn obs(o: &Outcome) -> String {
    let s = format!("{} [{}]", o.text(), o.status.show());
    let mut r = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("0x") {
        r += &rest[..i + 2];
        rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
    }
    r + rest
}

fn req(code: &str, gc: Gc) -> Req {
    Req { scripts: vec![format!("{PRELUDE}{code}\n")], gc, cpu_s: 10, ..Default::default() }
}

pub fn explore(ctx: &mut Ctx, progs: Vec<String>, single: u64, pairs: u64) {
    // 1: without any collection
    let mut it = progs.into_iter();
    let mut base: Vec<(String, String, u64)> = vec![];
    {
        let base = &mut base;
        let ctx = &mut *ctx;
        run_pool(
            || {
                let p = it.next()?;
                let r = req(&p, Gc { controlled: true, ..Default::default() });
                Some((p, r))
            },
            |p, _, o| {
                ctx.executions += 1;
                if !matches!(o.status, Status::Ok | Status::Err(_)) {
                    // judged by other properties; without a normal outcome there is nothing to compare
                    if std::env::var_os("MC_VERBOSE").is_some() {
                        println!("base run of {:?}: {}", p, o.status.show());
                    }
                    ctx.skipped += 1;
                    return;
                }
                if o.status != Status::Ok && std::env::var_os("MC_VERBOSE").is_some() {
                    println!("base run of {:?}: {}", p, o.status.show());
                }
                base.push((p, obs(&o), o.gc_points));
            },
        );
    }
    base.sort();
    let total: u64 = base.iter().map(|b| b.2).sum();
    ctx.bound("programs", base.len());
    ctx.bound("safe points in all programs", total);
    ctx.states += total;
    // 2: the schedules
    let mut scheds: Vec<(usize, Gc, String)> = vec![];
    for (i, (_, _, n)) in base.iter().enumerate() {
        let g = Gc { controlled: true, final_gc: true, ..Default::default() };
        scheds.push((i, Gc { every: true, quarantine: true, ..g.clone() }, "every".into()));
        scheds.push((i, Gc { every: true, ..g.clone() }, "every, cells reused".into()));
        for a in 0..(*n).min(single) {
            scheds.push((i, Gc { points: vec![a as u32], quarantine: true, ..g.clone() }, format!("{a}")));
        }
        for a in 0..(*n).min(pairs) {
            for b in a + 1..(*n).min(pairs) {
                scheds.push((i, Gc { points: vec![a as u32, b as u32], ..g.clone() }, format!("{a},{b}")));
            }
        }
    }
    ctx.transitions += scheds.len() as u64;
    let mut it = scheds.into_iter();
    let mut failed: std::collections::BTreeMap<usize, (String, String, String)> = Default::default();
    {
        let failed = &mut failed;
        let base = &base;
        let ctx = &mut *ctx;
        run_pool(
            || {
                let (i, g, name) = it.next()?;
                let r = req(&base[i].0, g);
                Some(((i, name), r))
            },
            |(i, name), r, o| {
                ctx.executions += 1;
                let got = obs(&o);
                if got == base[i].1 {
                    ctx.agree(&base[i].0, &base[i].1, &got);
                } else {
                    failed.entry(i).or_insert((name, r.scripts[0].clone(), got));
                }
            },
        );
    }
    for (i, (name, script, got)) in failed {
        let sched = if name.starts_with("every") { "every".to_string() } else { name.clone() };
        ctx.disagree(&base[i].0, &script, &format!("gc={sched}"), &base[i].1, &format!("[collecting at: {name}] {got}"));
    }
}

const KINDS: &str = r#"
class KA; def initialize(*); end; def v; :a; end; end
class KB; def initialize(*); end; def v; :b; end; end
class KS < String; def v; :str; end; end
class KE < StandardError; def v; :err; end; end
class Struct; def v; :struct; end; end
class KV < KA; def initialize(*); super(); end; def v; :ary; end; end
class Module; def w(c); c.new("m").v; end; end
def probe(c); o = c.new("m"); [o.v, o.respond_to?(:v), o.is_a?(c), c.new("z").method(:v).call]; end
def make(k)
  case k
  when 0 then Class.new(KA)
  when 1 then Class.new(KB)
  when 2 then Struct.new(:q)
  when 3 then Class.new(KS)
  when 4 then Class.new(KE)
  when 5 then Class.new(KV)
  end
end
"#;

/// Classes that are made, used at the same call sites and dropped, with collections in between
/// which let later classes have the addresses of earlier ones.
fn reuse(ctx: &mut Ctx) {
    ctx.section("classes at addresses of reclaimed classes");
    let names = [":a", ":b", ":struct", ":str", ":err", ":ary"];
    let n = if ctx.thorough { 5 } else { 4 };
    let mut v = vec![];
    for len in 1..=n {
        let total = 12usize.pow(len as u32);
        for i in 0..total {
            let (mut x, mut code, mut exp) = (i, "r = [];".to_string(), vec![]);
            for _ in 0..len {
                let (k, gc) = (x % 6, x / 6 % 2 == 1);
                x /= 12;
                code.push_str(&format!(" r << probe(make({k}));{}", if gc { " GC.start;" } else { "" }));
                exp.push(format!("[{0}, true, true, {0}]", names[k]));
            }
            // a collection after the last use shows nothing
            if i / 6 / 12usize.pow(len as u32 - 1) % 2 == 1 {
                continue;
            }
            v.push(Case::f(&format!("{code} r"), format!("[{}]", exp.join(", "))));
        }
    }
    ctx.states += v.len() as u64;
    Runner::new(ctx).prelude(KINDS).batch(60).run(v.into_iter());
}

pub fn run(ctx: &mut Ctx) {
    reuse(ctx);
    let mut progs = vec![];
    for h in holders() {
        for (b, o) in shapes() {
            let e = b.replace('\\', "\\\\").replace('"', "\\\"").replace("#{", "\\#{");
            progs.push(h.replace("@E", &e).replace("@B", b).replace("@O", o));
        }
    }
    let (single, pairs) = if ctx.thorough { (200, 14) } else { (12, 0) };
    ctx.bound("single-collection schedules per program, at most", single);
    ctx.section("every holder of every kind of object");
    explore(ctx, progs, single, pairs);
    ctx.section("built-ins and constructs that call back");
    let (single, pairs) = if ctx.thorough { (400, 20) } else { (60, 0) };
    explore(ctx, builtins(), single, pairs);
}
