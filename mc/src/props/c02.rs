//! C02: the collector reclaims exactly the unreachable objects.
//!
//! Part one explores the allocator itself (the real `ruruby::Allocator`, instantiated with a cell type
//! that records what happens to it): all histories of allocating, dropping and collecting.
//! Part two runs histories of Ruby steps and counts the objects left.
use crate::report::Ctx;
use crate::worker::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

const LIVE: u64 = 0x4c49_5645;
const FREE: u64 = 0x4652_4545;

#[derive(PartialEq)]
#[repr(C)]
struct Cell {
    tag: u64,
    id: u64,
    next: Option<std::ptr::NonNull<Cell>>,
    check: [u64; 5],
}

thread_local!(static FREED: RefCell<Vec<u64>> = const { RefCell::new(vec![]) });

impl Cell {
    fn new(id: u64) -> Cell {
        Cell { tag: LIVE, id, next: None, check: [id ^ 0x55, id.wrapping_mul(3), !id, id + 7, 42] }
    }
    fn intact(&self, id: u64) -> bool {
        *self == Cell::new(id)
    }
}

impl ruruby::GCBox for Cell {
    fn free(&mut self) {
        if self.tag == LIVE {
            FREED.with(|f| f.borrow_mut().push(self.id));
            self.tag = FREE;
        }
    }
    fn next(&self) -> Option<std::ptr::NonNull<Self>> {
        self.next
    }
    fn set_next_none(&mut self) {
        self.tag = FREE;
        self.next = None;
    }
    fn set_next(&mut self, next: *mut Self) {
        self.tag = FREE;
        self.next = std::ptr::NonNull::new(next);
    }
    fn new_invalid() -> Self {
        Cell { tag: FREE, id: 0, next: None, check: [0; 5] }
    }
}

struct Root(Vec<*mut Cell>);

impl ruruby::GC<Cell> for Root {
    fn mark(&self, alloc: &mut ruruby::Allocator<Cell>) {
        for p in &self.0 {
            alloc.gc_check_and_mark(unsafe { &**p });
        }
    }
}

impl ruruby::GCRoot<Cell> for Root {
    fn startup_flag(&self) -> bool {
        true
    }
}

const PAGE: usize = 64 * 63;
const PAGE_MASK: usize = !(64 * 64 * 64 - 1);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Alloc(usize),
    /// keep only the objects for which this holds
    Keep(&'static str),
    Gc,
}

fn keep(how: &str, n: usize, i: usize) -> bool {
    match how {
        "none" => false,
        "odd" => i % 2 == 1,
        "all-but-first" => i != 0,
        "all-but-last" => i + 1 != n,
        "first" => i == 0,
        "last" => i + 1 == n,
        "first-half" => i < n / 2,
        "last-half" => i >= n / 2,
        "word-borders" => i % 64 == 0 || i % 64 == 63,
        "without-first-page" => i >= PAGE,
        "every-page-first" => i % PAGE == 0,
        "every-page-last" => i % PAGE == PAGE - 1,
        _ => unreachable!(),
    }
}

fn ops(thorough: bool) -> Vec<Op> {
    let mut v: Vec<Op> = [1usize, 63, PAGE - 1, PAGE, PAGE + 1, 2 * PAGE].iter().map(|n| Op::Alloc(*n)).collect();
    v.extend(["none", "odd", "all-but-first", "last", "without-first-page"].map(Op::Keep));
    if thorough {
        v.extend([64usize, 65, PAGE - 64].map(Op::Alloc));
        v.extend(["all-but-last", "first-half", "first", "last-half", "word-borders", "every-page-first", "every-page-last"].map(Op::Keep));
    }
    v.push(Op::Gc);
    v
}

fn show(h: &[Op]) -> String {
    h.iter()
        .map(|o| match o {
            Op::Alloc(n) => format!("alloc {n}"),
            Op::Keep(k) => format!("keep {k}"),
            Op::Gc => "gc".to_string(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn parse(s: &str) -> Vec<Op> {
    let all = ops(true);
    s.trim()
        .split("; ")
        .map(|p| match p.strip_prefix("alloc ") {
            Some(n) => Op::Alloc(n.parse().unwrap()),
            None => *all.iter().find(|o| show(&[**o]) == p).unwrap(),
        })
        .collect()
}

/// Run one history on a fresh heap; the number of objects handled, or what was wrong.
fn history(h: &[Op]) -> Result<u64, String> {
    let mut a = ruruby::Allocator::<Cell>::new();
    FREED.with(|f| f.borrow_mut().clear());
    let mut live: Vec<(u64, *mut Cell)> = vec![];
    let mut dropped: HashSet<u64> = HashSet::new();
    // address -> the object which lives there or may still be freed there
    let mut owner: HashMap<usize, u64> = HashMap::new();
    let mut id = 0u64;
    let mut since_gc = 0usize;
    let alloc = |n: usize, a: &mut ruruby::Allocator<Cell>, live: &mut Vec<(u64, *mut Cell)>, owner: &mut HashMap<usize, u64>, id: &mut u64| -> Result<(), String> {
        for _ in 0..n {
            *id += 1;
            let p = a.alloc(Cell::new(*id));
            if p as usize % 64 != 0 || (p as usize & !PAGE_MASK) / 64 >= PAGE {
                return Err(format!("object {id} was placed outside of the cells of a page"));
            }
            if let Some(o) = owner.insert(p as usize, *id) {
                return Err(format!("object {id} was given the cell of object {o} which was not reclaimed"));
            }
            live.push((*id, p));
        }
        Ok(())
    };
    let mut steps = h.to_vec();
    // whatever the history, two more collections and a refill must come out right
    steps.extend([Op::Gc, Op::Keep("odd"), Op::Gc, Op::Alloc(usize::MAX), Op::Gc, Op::Keep("none"), Op::Gc]);
    for (n, op) in steps.iter().enumerate() {
        let at = |m: String| format!("step {} ({}): {m}", n + 1, if n < h.len() { show(&[*op]) } else { "closing steps".into() });
        match op {
            Op::Alloc(k) => {
                let (pages, free) = (a.pages_len(), a.free_count());
                let k = if *k == usize::MAX { free } else { *k };
                alloc(k, &mut a, &mut live, &mut owner, &mut id).map_err(at)?;
                if k <= free && a.pages_len() != pages {
                    return Err(at(format!("a page was added although {free} cells were free for {k} objects")));
                }
                if a.free_count() != free.saturating_sub(k) {
                    return Err(at(format!("{} cells are counted free after using {k} of {free}", a.free_count())));
                }
                since_gc += k.saturating_sub(free);
                if since_gc > PAGE && !a.is_allocated() {
                    return Err(at("no collection is due although a page was filled".into()));
                }
            }
            Op::Keep(how) => {
                let n = live.len();
                let mut i = 0;
                live.retain(|(id, _)| {
                    let k = keep(how, n, i);
                    i += 1;
                    if !k {
                        dropped.insert(*id);
                    }
                    k
                });
            }
            Op::Gc => {
                let root = Root(live.iter().map(|x| x.1).collect());
                let count = a.count();
                a.gc(&root);
                since_gc = 0;
                if a.count() != count + 1 {
                    return Err(at("no collection took place".into()));
                }
                if a.live_count() != live.len() {
                    return Err(at(format!("{} objects are counted live instead of {}", a.live_count(), live.len())));
                }
                for (id, p) in &live {
                    if !unsafe { (**p).intact(*id) } {
                        return Err(at(format!("live object {id} was changed")));
                    }
                }
                let freed: Vec<u64> = FREED.with(|f| std::mem::take(&mut *f.borrow_mut()));
                for f in freed {
                    if !dropped.remove(&f) {
                        return Err(at(format!("object {f} was freed while live or for a second time")));
                    }
                }
                if let Some(x) = dropped.iter().min() {
                    return Err(at(format!("{} unreachable objects were not freed (the first is {x})", dropped.len())));
                }
                // cells of dead objects on pages which are still in use must be on the free list
                let alive: HashSet<usize> = live.iter().map(|x| x.1 as usize).collect();
                let pages: HashSet<usize> = alive.iter().map(|p| p & PAGE_MASK).collect();
                let holes = owner.keys().filter(|p| pages.contains(&(**p & PAGE_MASK)) && !alive.contains(p)).count();
                if a.free_count() < holes {
                    return Err(at(format!("{holes} reclaimed cells but only {} free ones", a.free_count())));
                }
                owner.retain(|p, _| alive.contains(p));
                if a.is_allocated() {
                    return Err(at("a collection is still due after a collection".into()));
                }
            }
        }
        for (id, p) in live.iter().step_by(61) {
            if !unsafe { (**p).intact(*id) } {
                return Err(at(format!("live object {id} was changed")));
            }
        }
    }
    // hand the pages back is not supported by the allocator: leave them to the process
    Ok(id)
}

pub fn replay_alloc(h: &str) -> Result<u64, String> {
    history(&parse(h))
}

fn allocator(ctx: &mut Ctx) {
    ctx.section("histories of the allocator");
    let ops = ops(ctx.thorough);
    let depth = 4u32;
    ctx.bound("allocator_ops", ops.len());
    ctx.bound("allocator_depth", depth);
    let total: usize = ops.len().pow(depth);
    // pages are never given back to the system, so each share of the histories runs in a child process
    let n = n_workers();
    let exe = std::env::current_exe().unwrap();
    let share = (total + 8 * n - 1) / (8 * n);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let lo = next.fetch_add(share, std::sync::atomic::Ordering::SeqCst);
                if lo >= total {
                    break;
                }
                let hi = (lo + share).min(total);
                let o = std::process::Command::new(&exe)
                    .args(["--alloc-histories", &lo.to_string(), &hi.to_string(), &depth.to_string(), if ctx_thorough(ops.len()) { "1" } else { "0" }])
                    .output()
                    .expect("spawn");
                res.lock().unwrap().push((lo, hi, o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned()));
            });
        }
    });
    let mut res = res.into_inner().unwrap();
    res.sort();
    for (lo, hi, code, out) in res {
        let mut done = 0;
        for l in out.lines() {
            if let Some(x) = l.strip_prefix("DONE ") {
                let mut w = x.split(' ').map(|x| x.parse::<u64>().unwrap());
                done = w.next().unwrap();
                let objects = w.next().unwrap();
                ctx.states += done;
                ctx.executions += done;
                ctx.transitions += objects;
            } else if let Some(x) = l.strip_prefix("BAD ") {
                let (h, e) = x.split_once('|').unwrap();
                ctx.disagree(h, h, "alloc", "exactly the unreachable objects are reclaimed", e);
            }
        }
        if code != Some(0) || done != (hi - lo) as u64 {
            ctx.disagree(&format!("histories {lo} to {hi}"), &format!("{lo}..{hi}"), "alloc", "all histories run", &format!("the process ended with {code:?}"));
        }
        ctx.agree(&format!("histories {lo} to {hi}"), "held", "held");
    }
}

fn ctx_thorough(n: usize) -> bool {
    n == ops(true).len()
}

/// The child process: `--alloc-histories lo hi depth thorough`
pub fn child_main(args: &[String]) -> ! {
    let p = |i: usize| args[i].parse::<usize>().unwrap();
    let (lo, hi, depth) = (p(0), p(1), p(2) as u32);
    let ops = ops(args[3] == "1");
    let n = ops.len();
    let mut objects = 0;
    let mut bad = 0;
    let start = std::time::Instant::now();
    let mut done = 0;
    // run in groups: a fork per group bounds the memory taken by pages
    let mut k = lo;
    while k < hi {
        let g = (k + 200).min(hi);
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let mut text = String::new();
            let mut obj = 0;
            for k in k..g {
                let h: Vec<Op> = (0..depth).map(|i| ops[k / n.pow(i) % n]).collect();
                match history(&h) {
                    Ok(o) => obj += o,
                    Err(e) => text.push_str(&format!("BAD {}|{e}\n", show(&h))),
                }
            }
            text.push_str(&format!("OBJ {obj}\n"));
            unsafe {
                libc::write(fds[1], text.as_ptr() as *const libc::c_void, text.len());
                libc::_exit(0)
            }
        }
        unsafe { libc::close(fds[1]) };
        let mut text = String::new();
        {
            use std::io::Read;
            use std::os::unix::io::FromRawFd;
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
            let _ = f.read_to_string(&mut text);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let mut whole = false;
        for l in text.lines() {
            if let Some(o) = l.strip_prefix("OBJ ") {
                objects += o.parse::<u64>().unwrap();
                whole = true;
            } else if bad < 20 {
                bad += 1;
                println!("{l}");
            }
        }
        if !whole {
            let h: Vec<Op> = (0..depth).map(|i| ops[k / n.pow(i) % n]).collect();
            println!("BAD {}|the heap broke down in this or one of the next {} histories (status {st})", show(&h), g - k);
        }
        done += g - k;
        k = g;
    }
    let _ = start;
    println!("DONE {done} {objects}");
    std::process::exit(0)
}

//---------------------------------------------------------------- Ruby level

const PRELUDE: &str = r#"
$l = [[], [], []]
class Obj
  attr_accessor :a
  def initialize(n); @a = n; end
end
def fill(s, n)
  l = $l[s]
  n.times { |i| l << "s#{i}" }
  nil
end
def fillo(s, n)
  l = $l[s]
  n.times { |i| l << Obj.new(i) }
  nil
end
def filla(s, n)
  l = $l[s]
  n.times { |i| l << [i] }
  nil
end
def fillh(s, n)
  l = $l[s]
  n.times { |i| l << {i => 1} }
  nil
end
def fillb(s, n)
  l = $l[s]
  n.times { |i| l << 2**70 + i }
  nil
end
def cyc(s, n)
  n.times do |i|
    a = Obj.new(i); b = Obj.new(a); a.a = b
    c = [a]; c << c; h = {1 => c}; h[2] = h; c << h
  end
  nil
end
def garbage(s, n)
  n.times { |i| "g#{i}"; [i]; {i => 1} }
  nil
end
def half(s)
  l = $l[s]
  k = []
  j = 1
  while j < l.size
    k << l[j]
    j += 2
  end
  $l[s] = k
  nil
end
def drop(s); $l[s] = []; nil; end
def nop; nil; end
def same; $l[1] = $l[0].dup; nil; end
def check
  ids = {}
  $l.each { |l| l.each { |x| ids[x.object_id] = x } }
  n = 0
  $l.each_with_index { |l, k| l.each { |x| n += 1 if ids[x.object_id].equal?(x) } }
  print ids.size, " ", n, "\n"
  nil
end
"#;

#[derive(Clone)]
struct Heap {
    /// identity and number of cells of the kept elements
    slots: [Vec<(u64, u64)>; 2],
    next: u64,
}

impl Heap {
    fn live(&self) -> u64 {
        let mut seen = HashSet::new();
        self.slots.iter().flatten().filter(|x| seen.insert(x.0)).map(|x| x.1).sum()
    }
}

fn ruby_histories(ctx: &mut Ctx) {
    ctx.section("histories of Ruby steps, objects counted after each");
    let sizes: &[usize] = if ctx.thorough { &[1, 64, 3000, 4031, 4032, 4033, 8200] } else { &[1, 64, 4033] };
    let mut ops: Vec<(String, usize, usize)> = vec![];
    for s in 0..2usize {
        for n in sizes {
            ops.push((format!("fill({s}, {n})"), s, *n));
        }
        ops.push((format!("half({s})"), s, 0));
        ops.push((format!("drop({s})"), s, 0));
    }
    for k in ["fillo", "filla", "fillh", "fillb"] {
        ops.push((format!("{k}(0, 70)"), 0, 70));
    }
    ops.push(("cyc(0, 30)".into(), 9, 0));
    ops.push(("cyc(0, 900)".into(), 9, 0));
    ops.push(("garbage(0, 1500)".into(), 9, 0));
    ops.push(("same".into(), 8, 0));
    ops.push(("GC.start".into(), 9, 0));
    let n = ops.len();
    let depth = 3u32;
    ctx.bound("ruby_ops", n);
    ctx.bound("ruby_depth", depth);
    let total = n.pow(depth);
    let mut k = 0;
    let mut bad = vec![];
    ctx.states += total as u64;
    ctx.transitions += total as u64 * depth as u64;
    run_pool(
        || {
            if k >= total {
                return None;
            }
            let seq: Vec<usize> = (0..depth).map(|i| k / n.pow(i) % n).collect();
            k += 1;
            let mut scripts = vec![PRELUDE.to_string(), "nop\n".into(), "nop\n".into()];
            let mut h = Heap { slots: [vec![], vec![]], next: 0 };
            let mut exp = vec![];
            for o in &seq {
                let (txt, s, c) = &ops[*o];
                if txt.starts_with("fill") {
                    let cells = if txt.starts_with("filla") || txt.starts_with("fillh") { 1 } else { 1 };
                    for _ in 0..*c {
                        h.next += 1;
                        let id = h.next;
                        h.slots[*s].push((id, cells));
                    }
                } else if txt.starts_with("half") {
                    h.slots[*s] = h.slots[*s].iter().skip(1).step_by(2).copied().collect();
                } else if txt.starts_with("drop") {
                    h.slots[*s].clear();
                } else if txt == "same" {
                    h.slots[1] = h.slots[0].clone();
                }
                scripts.push(format!("{txt}\n"));
                exp.push(h.live());
            }
            scripts.push("check\n".into());
            let distinct: HashSet<u64> = h.slots.iter().flatten().map(|x| x.0).collect();
            let out = format!("{} {}\n", distinct.len(), h.slots[0].len() + h.slots[1].len());
            let key = seq.iter().map(|o| ops[*o].0.clone()).collect::<Vec<_>>().join("; ");
            exp.push(h.live());
            Some(((key, exp, out), Req { scripts, live_probe: true, cpu_s: 20, ..Req::default() }))
        },
        |(key, exp, out), req, o: Outcome| {
            ctx.executions += 1;
            let base = o.live.get(2).copied().unwrap_or(0);
            let got: Vec<i64> = o.live.iter().skip(3).map(|x| *x as i64 - base as i64).collect();
            let e = format!("{exp:?} {out:?}");
            let g = format!("{got:?} {:?}{}", o.text(), if o.status == Status::Ok { String::new() } else { o.status.show() });
            if e == g {
                ctx.agree(&key, &e, &g);
            } else {
                bad.push((key, req.scripts.join("\n=== next\n"), e, g));
            }
        },
    );
    bad.sort_by_key(|b| (b.0.len(), b.0.clone()));
    for (k, s, e, g) in bad {
        ctx.disagree(&k, &s, "live", &e, &g);
    }
}

/// Steps which keep nothing.
const STEPS: &[&str] = &[
    "[1, 2, 3].map { |x| x.to_s }.each { |s| s + s }",
    "{1 => \"a\", \"b\" => [2]}.each { |k, v| [v, k] }",
    "begin; raise ArgumentError, \"x\"; rescue => e; e.message; end",
    "begin; [1].each { |x| x.nosuch }; rescue NameError; end",
    "f = Fiber.new { |x| Fiber.yield x; [x] * 3 }; f.resume([1]); f.resume(2)",
    "f = Fiber.new { |x| Fiber.yield \"a\" + \"b\"; 2 }; f.resume(1)",
    "e = [1, 2, 3].each; e.next; e.next",
    "e = [1, 2, 3].each_with_index; begin; while true; e.next; end; rescue StopIteration; end",
    "[4, 5].each.with_index { |x, i| [x, i] }",
    "x = 1; l = lambda { |y| x += y; lambda { x } }; l.call(2).call",
    "pr = proc { |a, *b| [a, b] }; pr.call(1, 2, 3); [[1, 2]].each(&pr)",
    "s = \"abc\"; s.gsub(\"b\", \"x\"); s.split(\"\"); s.chars; s * 3; s[0, 2]; s.to_sym; s =~ /b(.)/; $1",
    "(1..20).to_a.sort.reverse.select { |x| x.even? }.reject { |x| x > 9 }",
    "Struct.new(:a, :b).new(1, [2]).a",
    "c = Class.new { def m; [1]; end }; c.new.m",
    "m = Module.new { def q; \"q\"; end }; o = Object.new; o.extend(m); o.q",
    "o = Object.new; def o.s; [self]; end; o.s",
    "o = Object.new; o.instance_variable_set(:@a, [o]); o.instance_variables",
    "5.method(:+).call(3); [1].method(:map).unbind",
    "2**100 + 3**90; (2**100).to_s; 10.0 / 3; 1e300 * 1e300",
    "a, b, d = *[2, 3, 4], 5",
    "a, b = [1, [2], \"3\"]; a, b = b, a",
    "h = {}; 50.times { |i| h[i.to_s] = [i] }; h.delete(\"3\"); h.sort; h.invert; h.keys; h.values",
    "\"%d %s\" % [1, \"a\"]; \"x#{[1, 2]}y\"; :sym.inspect; [nil, 1.5].inspect",
    "case [1, 2] when Array then \"a\" + \"b\" end",
    "while true; a = [1, \"b\"]; break a; end",
    "[3, 1, 2].sort { |a, b| b <=> a }; [3, 1].sort_by { |x| -x }; [1, 2].zip([3, 4]); [[1, 2], [3]].flatten",
    "def rec(n); n == 0 ? [] : [rec(n - 1)]; end; rec(30)",
    "catchit = lambda { return [1] }; catchit.call",
    "[1, 2, 3].each { |x| [4].each { |y| next if x == 2; break [x, y] } }",
    "binding.local_variables; x = [1]; binding.local_variable_defined?(:x)",
    "Time.now; Complex(1, 2) * Complex(2, 3); rand",
    "def kw(a, b = [1], *c, d: {x: 1}, **e, &f); [a, b, c, d, e, f]; end; kw(1); kw(1, 2, 3, d: 4, z: 5) { }",
    "[[1, 2], [3, 4]].each { |a, b| [b, a] }; {a: 1}.each { |k, v| \"#{k}#{v}\" }",
    "begin; begin; raise \"a\"; ensure; [1, 2]; end; rescue; end",
    "def dflt; yield [1], *[2, 3]; end; dflt { |a, b, c| [c, b, a] }",
    "a = []; a << a; h = {}; h[:h] = h; [a, h]",
    "fs = (1..5).map { |i| Fiber.new { Fiber.yield i; [i] } }; fs.each { |f| f.resume }",
    "g = [[1], [2], 3].each_with_index; g.next; g.next",
    "Integer(\"z\") rescue \"rescued\"",
    "[1, 2].freeze.dup << 3; \"abc\".freeze.dup << \"d\"",
    "l = []; [1, 2].each { |x| l << lambda { [x, l.size] } }; l.map { |q| q.call }",
    "x = [1, 2, 3, 4].bsearch { |v| v >= 3 }; [1, nil].compact; [1, 1].uniq; [[1, 2]].transpose; [1, 2, 3].pack(\"C*\")",
    "Object.new.to_s; Object.new.inspect; Class.new.name; nil.to_a; :a.to_proc",
    "send(:format_it) rescue 1; __send__(:puts) if false; respond_to?(:x)",
    "c = Class.new(StandardError); begin; raise c, \"m\"; rescue c => e; [e]; end",
    "o = Object.new; def o.v=(x); @v = x; end; def o.v; @v; end; o.v = [1]; o.v",
    "o = Class.new { include Comparable; def <=>(x); 0; end }.new; o == o; o.clone; o.dup",
    "instance_exec([1]) { |x| x << 2 }; Object.instance_method(:to_s).bind([]).call",
    "Class.new { @@x = 1 rescue 0; @y = [1]; def self.s; @y; end }.s",
];

fn steps(ctx: &mut Ctx) {
    ctx.section("steps that keep nothing, repeated");
    let thorough = ctx.thorough;
    let mut jobs: Vec<(String, Gc)> = vec![];
    for a in STEPS {
        for g in [Gc::default(), Gc { controlled: true, every: true, ..Gc::default() }] {
            jobs.push((a.to_string(), g));
        }
    }
    for (i, a) in STEPS.iter().enumerate() {
        for (j, b) in STEPS.iter().enumerate() {
            if thorough || (i + j) % 3 == 0 {
                // both, one after the other and one inside of a block with the other
                jobs.push((format!("{a}\n  {b}"), Gc::default()));
                jobs.push((format!("2.times {{\n  {a}\n  begin\n  {b}\n  ensure\n  {a}\n  end\n  }}"), Gc::default()));
                jobs.push((format!("Fiber.new {{ {a}\n  Fiber.yield 1\n  {b} }}.resume"), Gc::default()));
            }
        }
    }
    ctx.states += jobs.len() as u64;
    let mut it = jobs.into_iter();
    let mut bad = vec![];
    run_pool(
        || {
            let (body, gc) = it.next()?;
            let mut scripts = vec![format!("def step\n  {body}\n  nil\nend\ndef nop; nil; end\ndef deep(n); n == 0 ? 0 : 1 + deep(n - 1); end\n")];
            // the first rounds may fill caches
            scripts.extend((0..10).map(|_| "step\ndeep(60)\n".to_string()));
            Some((format!("{body}{}", if gc.every { " (gc=every)" } else { "" }), Req { scripts, live_probe: true, gc, cpu_s: 20, ..Req::default() }))
        },
        |key, req, o: Outcome| {
            ctx.executions += 1;
            ctx.transitions += 10;
            let l: Vec<u64> = o.live.iter().skip(4).copied().collect();
            // an object left in an unused stack slot may differ between rounds; growth may not
            let steady = o.status == Status::Ok && l.len() == 7 && l.windows(2).all(|w| w[0] == w[1]);
            if steady {
                ctx.agree(&key, "steady", "steady");
            } else {
                bad.push((key, req.scripts.join("\n=== next\n"), format!("{:?} {}", o.live, o.status.show())));
            }
        },
    );
    bad.sort_by_key(|b| (b.0.len(), b.0.clone()));
    for (k, s, g) in bad {
        ctx.disagree(&k, &s, "live", "a constant number of live objects", &g);
    }
}

pub fn run(ctx: &mut Ctx) {
    allocator(ctx);
    ruby_histories(ctx);
    steps(ctx);
}
