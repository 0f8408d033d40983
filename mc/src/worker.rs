//! Execution of Ruby programs on the real interpreter.
//!
//! A worker process owns one initialised VM. For every request it forks; the child runs the
//! program on its (copy-on-write) VM, so every execution starts from the same initial state and a
//! crash costs only that execution.
use std::io::{Read, Write};
use std::os::unix::io::{FromRawFd, RawFd};
use std::process::{Child, Command, Stdio};

#[derive(Clone, Debug, Default)]
pub struct Gc {
    pub controlled: bool,
    pub every: bool,
    pub quarantine: bool,
    pub final_gc: bool,
    pub points: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    /// Uncaught Ruby-level error
    Err(String),
    Panic(String),
    Signal(i32),
    Timeout,
}

impl Status {
    pub fn show(&self) -> String {
        match self {
            Status::Ok => "ok".into(),
            Status::Err(e) => format!("uncaught error: {}", e),
            Status::Panic(e) => format!("interpreter panic: {}", e),
            Status::Signal(s) => format!("killed by signal {}", s),
            Status::Timeout => "timeout".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub out: Vec<u8>,
    pub gc_points: u64,
    pub gc_done: u64,
    pub live: Vec<u64>,
    /// result of each program: None when it completed, otherwise the uncaught error
    pub results: Vec<Option<String>>,
}

impl Outcome {
    /// Output of a session followed by what each of its inputs ended with (the class of the error only).
    pub fn session_text(&self) -> String {
        let mut s = self.text();
        s.push_str("-- results:");
        for r in &self.results {
            s.push(' ');
            s.push_str(&match r {
                None => "ok".into(),
                Some(e) => error_class(e),
            });
        }
        if !matches!(self.status, Status::Ok | Status::Err(_)) {
            s.push_str(&format!(" then {}", self.status.show()));
        }
        s
    }
}

/// Class name in the report of an uncaught error.
pub fn error_class(e: &str) -> String {
    let e = e.trim_start_matches("#<");
    let n = e.find(|c: char| !c.is_alphanumeric()).unwrap_or(e.len());
    if n == 0 { e.chars().take(40).collect() } else { e[..n].to_string() }
}

impl Outcome {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
}

/// One execution: a history of programs run one after another in one VM.
#[derive(Clone, Debug, Default)]
pub struct Req {
    pub scripts: Vec<String>,
    pub gc: Gc,
    /// after each script run a full GC and record the number of live objects
    pub live_probe: bool,
    /// evaluate in one REPL-like binding instead of as independent programs
    pub repl: bool,
    /// feed the inputs to the interactive shell through its standard input
    pub shell: bool,
    /// only hand each text to the front end: a raise in front of it ends its execution
    pub front: bool,
    pub cpu_s: u32,
    pub cwd: Option<String>,
}

fn put_u32(b: &mut Vec<u8>, v: u32) {
    b.extend_from_slice(&v.to_le_bytes())
}
fn put_bytes(b: &mut Vec<u8>, v: &[u8]) {
    put_u32(b, v.len() as u32);
    b.extend_from_slice(v)
}
struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn u32(&mut self) -> u32 {
        let v = u32::from_le_bytes(self.0[self.1..self.1 + 4].try_into().unwrap());
        self.1 += 4;
        v
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        let v = &self.0[self.1..self.1 + n];
        self.1 += n;
        v
    }
    fn left(&self) -> usize {
        self.0.len() - self.1
    }
}

fn encode(r: &Req) -> Vec<u8> {
    let mut b = vec![];
    let flags = r.gc.controlled as u32
        | (r.gc.every as u32) << 1
        | (r.gc.quarantine as u32) << 2
        | (r.live_probe as u32) << 3
        | (r.repl as u32) << 4
        | (r.gc.final_gc as u32) << 5
        | (r.shell as u32) << 6
        | (r.front as u32) << 7;
    put_u32(&mut b, flags);
    put_u32(&mut b, if r.cpu_s == 0 { 10 } else { r.cpu_s });
    put_u32(&mut b, r.gc.points.len() as u32);
    for p in &r.gc.points {
        put_u32(&mut b, *p);
    }
    put_bytes(&mut b, r.cwd.as_deref().unwrap_or("").as_bytes());
    put_u32(&mut b, r.scripts.len() as u32);
    for s in &r.scripts {
        put_bytes(&mut b, s.as_bytes());
    }
    b
}

fn decode(b: &[u8]) -> Req {
    let mut c = Cur(b, 0);
    let flags = c.u32();
    let cpu_s = c.u32();
    let n = c.u32();
    let points = (0..n).map(|_| c.u32()).collect();
    let cwd = String::from_utf8_lossy(c.bytes()).into_owned();
    let n = c.u32();
    let scripts = (0..n)
        .map(|_| String::from_utf8_lossy(c.bytes()).into_owned())
        .collect();
    Req {
        scripts,
        gc: Gc {
            controlled: flags & 1 != 0,
            every: flags & 2 != 0,
            quarantine: flags & 4 != 0,
            final_gc: flags & 32 != 0,
            points,
        },
        live_probe: flags & 8 != 0,
        repl: flags & 16 != 0,
        shell: flags & 64 != 0,
        front: flags & 128 != 0,
        cpu_s,
        cwd: if cwd.is_empty() { None } else { Some(cwd) },
    }
}

//---------------------------------------------------------------- worker side

fn memfd(name: &str) -> RawFd {
    let n = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), 0) };
    assert!(fd >= 0, "memfd_create");
    fd
}

fn read_all_fd(fd: RawFd) -> Vec<u8> {
    unsafe {
        let len = libc::lseek(fd, 0, libc::SEEK_END);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut buf = vec![0u8; len as usize];
        let mut off = 0;
        while off < buf.len() {
            let n = libc::read(fd, buf[off..].as_mut_ptr() as *mut _, buf.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        buf.truncate(off);
        buf
    }
}

fn write_all_fd(fd: RawFd, b: &[u8]) {
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}

pub fn worker_main() -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let (cin, cout) = unsafe {
        let cin = libc::dup(0);
        let cout = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        if std::env::var_os("MC_STDERR").is_none() {
            libc::dup2(null, 2);
        }
        (cin, cout)
    };
    let mut cin = unsafe { std::fs::File::from_raw_fd(cin) };
    let out_fd = memfd("mc_out");
    let res_fd = memfd("mc_res");
    let mut vm = ruruby::VM::new();
    loop {
        let mut len = [0u8; 4];
        if cin.read_exact(&mut len).is_err() {
            std::process::exit(0);
        }
        let mut buf = vec![0u8; u32::from_le_bytes(len) as usize];
        if cin.read_exact(&mut buf).is_err() {
            std::process::exit(0);
        }
        let req = decode(&buf);
        unsafe {
            libc::ftruncate(out_fd, 0);
            libc::lseek(out_fd, 0, libc::SEEK_SET);
            libc::ftruncate(res_fd, 0);
            libc::lseek(res_fd, 0, libc::SEEK_SET);
            let pid = libc::fork();
            if pid == 0 {
                child(&mut vm, &req, out_fd, res_fd);
            }
            if pid < 0 {
                std::process::exit(3);
            }
            let mut st: libc::c_int = 0;
            libc::waitpid(pid, &mut st, 0);
            let out = read_all_fd(out_fd);
            let res = read_all_fd(res_fd);
            let mut resp = vec![];
            put_u32(&mut resp, st as u32);
            put_bytes(&mut resp, &out);
            put_bytes(&mut resp, &res);
            let mut msg = (resp.len() as u32).to_le_bytes().to_vec();
            msg.extend_from_slice(&resp);
            write_all_fd(cout, &msg);
        }
    }
}

fn record(res_fd: RawFd, tag: u8, payload: &[u8]) {
    let mut b = vec![tag];
    put_bytes(&mut b, payload);
    write_all_fd(res_fd, &b);
}

fn child(vm: &mut ruruby::VM, req: &Req, out_fd: RawFd, res_fd: RawFd) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::dup2(out_fd, 1);
        let cpu = libc::rlimit {
            rlim_cur: req.cpu_s as u64,
            rlim_max: req.cpu_s as u64 + 1,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        let asl = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &asl);
        let fsz = libc::rlimit {
            rlim_cur: 64 << 20,
            rlim_max: 64 << 20,
        };
        libc::setrlimit(libc::RLIMIT_FSIZE, &fsz);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::alarm(120);
    }
    if let Some(d) = &req.cwd {
        std::env::set_current_dir(d).unwrap();
    }
    std::panic::set_hook(Box::new(move |info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let mut text = format!("{}: {}", loc, msg);
        if text.len() > 600 {
            let mut n = 600;
            while !text.is_char_boundary(n) {
                n -= 1;
            }
            text.truncate(n);
        }
        record(res_fd, b'P', text.as_bytes());
        unsafe { libc::_exit(101) }
    }));
    let set = |f: &mut dyn FnMut(&mut ruruby::mc::GcControl)| {
        ruruby::mc::GC_CONTROL.with(|c| f(&mut c.borrow_mut()))
    };
    set(&mut |c| {
        c.controlled = req.gc.controlled;
        c.every = req.gc.every;
        c.quarantine = req.gc.quarantine;
        c.points = req.gc.points.iter().map(|x| *x as u64).collect();
        c.count = 0;
        c.collected = 0;
    });
    let ctx = if req.repl {
        Some(ruruby::HeapCtxRef::new_binding(
            vm.globals.main_object,
            ruruby::ISeqRef::default(),
            None,
        ))
    } else {
        None
    };
    if req.shell {
        let fd = memfd("stdin");
        let mut text = req.scripts.join("\n");
        text.push('\n');
        unsafe {
            libc::write(fd, text.as_ptr() as *const libc::c_void, text.len());
            libc::lseek(fd, 0, libc::SEEK_SET);
            libc::dup2(fd, 0);
        }
        let ctx = ruruby::HeapCtxRef::new_binding(vm.globals.main_object, ruruby::ISeqRef::default(), None);
        match vm.invoke_repl(ctx) {
            Ok(_) => record(res_fd, b'O', b""),
            Err(e) => record(res_fd, b'E', format!("{:?}", e).as_bytes()),
        }
    }
    if req.front {
        for s in &req.scripts {
            front(vm, s, res_fd);
        }
    }
    for s in req.scripts.iter().filter(|_| !req.shell && !req.front) {
        let res = match ctx {
            // This is what the interactive shell does with each complete input.
            Some(ctx) => vm.eval_binding("REPL".to_string(), s.clone(), ctx),
            None => vm.run("mc.rb", s.clone()),
        };
        match res {
            Ok(_) => record(res_fd, b'O', b""),
            Err(e) => {
                let text = if e.is_exception() {
                    format!("{:?}", vm.globals.val)
                } else {
                    format!("{:?}", e)
                };
                record(res_fd, b'E', text.as_bytes());
                vm.clear();
            }
        }
        if req.live_probe {
            vm.gc();
            let live = ruruby::ALLOC.with(|a| a.borrow().live_count()) as u32;
            record(res_fd, b'L', &live.to_le_bytes());
        }
    }
    if req.gc.final_gc {
        vm.gc();
    }
    let _ = std::io::stdout().flush();
    set(&mut |c| {
        let mut b = vec![];
        put_u32(&mut b, c.count as u32);
        put_u32(&mut b, c.collected as u32);
        record(res_fd, b'G', &b);
    });
    unsafe { libc::_exit(0) }
}

pub const FRONT_PREFIX: &str = "raise(\"mc-compiled\")\nnil\n";

/// Compile `text`; what is recorded is "ok", "rejected", "incomplete" or what went wrong.
fn front(vm: &mut ruruby::VM, text: &str, res_fd: RawFd) {
    let code = format!("{FRONT_PREFIX}{text}");
    let len = code.len();
    let verdict = match vm.run("mc.rb", code) {
        Ok(_) => "executed to the end".to_string(),
        Err(e) => {
            let name = format!("{:?}", e);
            if e.is_exception() {
                let v = format!("{:?}", vm.globals.val);
                vm.clear();
                if v.contains("mc-compiled") {
                    "ok".to_string()
                } else {
                    format!("raised {v}")
                }
            } else if name.starts_with("SyntaxError") {
                match e.info.first() {
                    None => "SyntaxError without a position".to_string(),
                    Some((_, loc)) if loc.0 > loc.1 || loc.1 > len => format!("SyntaxError at {}..{} in a text of {}", loc.0, loc.1, len),
                    Some(_) => {
                        let _ = e.get_location(0);
                        if name.contains("Unexpected EOF") { "incomplete" } else { "rejected" }.to_string()
                    }
                }
            } else {
                format!("failed with {name}")
            }
        }
    };
    record(res_fd, b'E', verdict.as_bytes());
}

//---------------------------------------------------------------- driver side

pub struct Worker {
    child: Child,
}

impl Worker {
    pub fn spawn() -> Worker {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new(exe);
        c.arg("--worker").stdin(Stdio::piped()).stdout(Stdio::piped());
        Worker {
            child: c.spawn().expect("spawn worker"),
        }
    }

    pub fn run(&mut self, req: &Req) -> Outcome {
        let b = encode(req);
        let mut msg = (b.len() as u32).to_le_bytes().to_vec();
        msg.extend_from_slice(&b);
        let stdin = self.child.stdin.as_mut().unwrap();
        if stdin.write_all(&msg).and_then(|_| stdin.flush()).is_err() {
            crate::report::engine_error("worker died (write)");
        }
        let so = self.child.stdout.as_mut().unwrap();
        let mut len = [0u8; 4];
        if so.read_exact(&mut len).is_err() {
            crate::report::engine_error("worker died (read)");
        }
        let mut buf = vec![0u8; u32::from_le_bytes(len) as usize];
        if so.read_exact(&mut buf).is_err() {
            crate::report::engine_error("worker died (read body)");
        }
        let mut c = Cur(&buf, 0);
        let st = c.u32() as i32;
        let out = c.bytes().to_vec();
        let res = c.bytes().to_vec();
        let mut status = Status::Ok;
        let mut gc_points = 0;
        let mut gc_done = 0;
        let mut live = vec![];
        let mut results = vec![];
        let mut r = Cur(&res, 0);
        while r.left() > 0 {
            let tag = r.0[r.1];
            r.1 += 1;
            let p = r.bytes();
            match tag {
                b'O' => results.push(None),
                b'E' => {
                    results.push(Some(String::from_utf8_lossy(p).into_owned()));
                    if status == Status::Ok {
                        status = Status::Err(String::from_utf8_lossy(p).into_owned())
                    }
                }
                b'P' => status = Status::Panic(String::from_utf8_lossy(p).into_owned()),
                b'L' => live.push(u32::from_le_bytes(p.try_into().unwrap()) as u64),
                b'G' => {
                    let mut c = Cur(p, 0);
                    gc_points = c.u32() as u64;
                    gc_done = c.u32() as u64;
                }
                _ => {}
            }
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            status = if s == libc::SIGXCPU || s == libc::SIGALRM || s == libc::SIGKILL {
                Status::Timeout
            } else {
                Status::Signal(s)
            };
        } else if libc::WIFEXITED(st) {
            let code = libc::WEXITSTATUS(st);
            if code != 0 && !matches!(status, Status::Panic(_)) {
                status = Status::Panic(format!("process exited with {}", code));
            }
        }
        Outcome {
            status,
            out,
            gc_points,
            gc_done,
            live,
            results,
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn n_workers() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(8)
}

/// Run all requests produced by `next` on the workers; `done` is called (serialised) for each.
pub fn run_pool<T: Send>(
    next: impl FnMut() -> Option<(T, Req)> + Send,
    done: impl FnMut(T, &Req, Outcome) + Send,
) {
    let next = std::sync::Mutex::new(next);
    let done = std::sync::Mutex::new(done);
    std::thread::scope(|s| {
        for _ in 0..n_workers() {
            s.spawn(|| {
                let mut w = Worker::spawn();
                loop {
                    let j = {
                        let mut n = next.lock().unwrap();
                        (*n)()
                    };
                    let Some((t, req)) = j else { break };
                    let o = w.run(&req);
                    let mut d = done.lock().unwrap();
                    (*d)(t, &req, o);
                }
            });
        }
    });
}
