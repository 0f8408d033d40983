//! Accounting, verdicts, known findings, replay files and evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::PathBuf;
use std::time::Instant;

pub fn engine_error(msg: &str) -> ! {
    println!("ENGINE-ERROR: {}", msg);
    std::process::exit(2)
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

pub struct Violation {
    pub key: String,
    pub replay: PathBuf,
}

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    start: Instant,
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    /// (case, comparison) pairs compared with the model
    pub validated: u64,
    pub skipped: u64,
    outcomes: HashSet<u64>,
    pub samples: Vec<(String, String, String)>,
    sample_stride: u64,
    known: BTreeMap<String, String>,
    known_hit: BTreeMap<String, String>,
    pub violations: Vec<Violation>,
    pub viol_total: u64,
    pub bounds: Vec<(String, String)>,
    pub sections: Vec<(String, u64)>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}... ({} bytes)", t, s.len())
    }
}

impl Ctx {
    pub fn new(prop: &'static str, thorough: bool) -> Ctx {
        let mut known = BTreeMap::new();
        let path = verif_dir().join("known-findings.txt");
        if let Ok(t) = std::fs::read_to_string(path) {
            for l in t.lines() {
                let l = l.trim();
                if let Some(rest) = l.strip_prefix("property=") {
                    let (p, rest) = rest.split_once(' ').unwrap_or((rest, ""));
                    if p != prop {
                        continue;
                    }
                    if let Some(rest) = rest.strip_prefix("key=") {
                        let (k, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                        known.insert(k.trim().to_string(), what.trim().to_string());
                    }
                }
            }
        }
        Ctx {
            prop,
            thorough,
            start: Instant::now(),
            states: 0,
            transitions: 0,
            executions: 0,
            validated: 0,
            skipped: 0,
            outcomes: HashSet::new(),
            samples: vec![],
            sample_stride: 1,
            known,
            known_hit: BTreeMap::new(),
            violations: vec![],
            viol_total: 0,
            bounds: vec![],
            sections: vec![],
            assumptions: vec![],
            exhaustive: true,
        }
    }

    pub fn quick(&self) -> bool {
        !self.thorough
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn bound(&mut self, k: &str, v: impl std::fmt::Display) {
        self.bounds.push((k.to_string(), v.to_string()));
    }

    pub fn section(&mut self, name: &str) {
        self.sections.push((name.to_string(), self.validated));
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("[{:7.2}s] {} ({} so far)", self.elapsed(), name, self.validated);
        }
    }

    /// Account one case that agreed with the model.
    pub fn agree(&mut self, key: &str, expect: &str, got: &str) {
        self.validated += 1;
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(fnv(got.as_bytes()));
        }
        if self.validated % self.sample_stride == 0 {
            self.samples
                .push((clip(key, 200), clip(expect, 160), clip(got, 160)));
            if self.samples.len() >= 24 {
                let mut i = 0;
                self.samples.retain(|_| {
                    i += 1;
                    i % 2 == 0
                });
                self.sample_stride *= 2;
            }
        }
    }

    /// Account one case that disagreed; `script` is the full program to replay.
    pub fn disagree(&mut self, key: &str, script: &str, setup: &str, expect: &str, got: &str) {
        self.validated += 1;
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(fnv(got.as_bytes()));
        }
        if let Some(w) = self.known.get(key) {
            self.known_hit.insert(key.to_string(), w.clone());
            return;
        }
        self.viol_total += 1;
        if let Some(p) = std::env::var_os("MC_ALL") {
            // development aid: list every disagreement
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
            let _ = writeln!(
                f,
                "{}\t{}\t{}",
                key.replace('\n', "\\n").replace('\t', "\\t"),
                expect.replace('\n', "\\n").replace('\t', "\\t"),
                got.replace('\n', "\\n").replace('\t', "\\t")
            );
        }
        if self.violations.len() >= 20 {
            return;
        }
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!(
            "{}-{:016x}.txt",
            self.prop,
            fnv(format!("{}\0{}", key, setup).as_bytes())
        ));
        let mut f = match std::fs::File::create(&path) {
            Ok(f) => f,
            Err(e) => engine_error(&format!("cannot write {}: {}", path.display(), e)),
        };
        let _ = write!(
            f,
            "property {}\nkey {}\nsetup {}\n=== script\n{}\n=== expected\n{}\n=== observed\n{}\n=== end\n",
            self.prop,
            key.replace('\n', "\\n"),
            setup,
            script,
            expect,
            got
        );
        println!(
            "  disagreement: {}\n    expected: {}\n    observed: {}",
            clip(key, 300),
            clip(expect, 300),
            clip(got, 300)
        );
        self.violations.push(Violation {
            key: key.to_string(),
            replay: path,
        });
    }

    pub fn finish(mut self) -> ! {
        self.section("end");
        let tier = if self.thorough { "thorough" } else { "quick" };
        let seed: i64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(0);
        for (k, w) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, w, k);
        }
        for (k, w) in &self.known {
            if !self.known_hit.contains_key(k) {
                println!("note: listed finding did not fail in this run: {} [{}]", w, k);
            }
        }
        if self.validated == 0 {
            engine_error("no case was executed");
        }
        if self.outcomes.len() < 2 && self.violations.is_empty() {
            engine_error("vacuous exploration: only one distinct outcome");
        }
        let mut j = String::from("{\n");
        let mut put = |k: &str, v: String| {
            j.push_str(&format!("  {}: {},\n", json_str(k), v));
        };
        put("property", json_str(self.prop));
        put("tier", json_str(tier));
        put("seed", seed.to_string());
        put("level", json_str("model_checking"));
        let samples: Vec<String> = self
            .samples
            .iter()
            .map(|(k, e, g)| {
                format!(
                    "{{\"case\": {}, \"model\": {}, \"implementation\": {}}}",
                    json_str(k),
                    json_str(e),
                    json_str(g)
                )
            })
            .collect();
        let mut secs = vec![];
        for w in self.sections.windows(2) {
            secs.push(format!("{}: {}", json_str(&w[0].0), w[1].1 - w[0].1));
        }
        let bounds: Vec<String> = self
            .bounds
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), json_str(v)))
            .collect();
        put(
            "coverage",
            format!(
                "{{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"interpreter_executions\": {},\n    \"distinct_outcomes\": {},\n    \"cases_outside_model\": {},\n    \"exhaustive\": {},\n    \"bounds\": {{{}}},\n    \"cases_per_section\": {{{}}},\n    \"samples\": [{}]\n  }}",
                self.states.max(1),
                self.transitions.max(1),
                self.validated,
                self.executions,
                self.outcomes.len(),
                self.skipped,
                self.exhaustive,
                bounds.join(", "),
                secs.join(", "),
                samples.join(",\n      ")
            ),
        );
        let a: Vec<String> = self.assumptions.iter().map(|s| json_str(s)).collect();
        put("assumptions", format!("[{}]", a.join(", ")));
        put("wall_s", format!("{:.2}", self.elapsed()));
        put("known_findings_hit", self.known_hit.len().to_string());
        j.push_str(&format!("  \"violations\": {}\n}}\n", self.viol_total));
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), j) {
            engine_error(&format!("evidence: {}", e));
        }
        println!(
            "{} {}: states={} transitions={} compared={} executions={} distinct_outcomes={} wall={:.1}s",
            self.prop,
            tier,
            self.states.max(1),
            self.transitions.max(1),
            self.validated,
            self.executions,
            self.outcomes.len(),
            self.elapsed()
        );
        if self.violations.is_empty() {
            println!("{}: held on everything explored", self.prop);
            std::process::exit(0)
        }
        println!("{} disagreements", self.viol_total);
        for v in &self.violations {
            println!("VIOLATION property={} replay={}", self.prop, v.replay.display());
        }
        std::process::exit(1)
    }
}
