//! Runner: deterministic cases, shard children, watchdog, verdicts, evidence.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x5851_f42d_4c95_7f2d);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// inclusive range
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.next() ^ r.next().rotate_left(17)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- cases
pub struct Case<'x> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    verbose: bool,
    st: &'x mut Stats,
    wl: &'static str,
    viol_here: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    sampled: BTreeMap<String, u32>,
    pub viol: Vec<Viol>,
    pub truncated: bool,
}
#[derive(Clone)]
pub struct Viol {
    pub wl: String,
    pub idx: u64,
    pub sig: String,
    pub detail: String,
}

impl Case<'_> {
    /// count something a monitor observed
    pub fn ev(&mut self, name: &str) {
        self.evn(name, 1)
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        match self.st.events.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.st.events.insert(name.to_string(), n);
            }
        }
    }
    /// this case is non-trivial; `h` identifies its content
    pub fn nontrivial(&mut self, h: u64) {
        self.st.distinct.insert(h);
    }
    /// an actual case, written out (at most two per kind and shard are kept)
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        let c = self.st.sampled.entry(kind.to_string()).or_insert(0);
        if *c < 1 {
            *c += 1;
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.st.samples.push(format!("[{}#{}] {}: {}", self.wl, self.idx, kind, s));
        }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("  note: {}", f());
        }
    }
    pub fn fail(&mut self, sig: &str, detail: impl FnOnce() -> String) {
        self.viol_here += 1;
        if self.viol_here > 3 {
            return;
        }
        let d = detail();
        if self.verbose {
            eprintln!("  FAIL {}: {}", sig, d);
        }
        self.st.viol.push(Viol {
            wl: self.wl.to_string(),
            idx: self.idx,
            sig: sig.to_string(),
            detail: d,
        });
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig, detail);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        self.viol_here > 0
    }
}

pub type CaseFn = fn(&mut Case);

pub struct Workload {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    /// the outcome may depend on how threads interleave
    pub schedules: bool,
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub workloads: &'static [Workload],
    /// counters that must be at least this large in a complete quick run
    pub min_events: &'static [(&'static str, u64)],
}

// ---------------------------------------------------------------- shard child
fn run_one(wl: &Workload, prop: &str, seed: u64, idx: u64, st: &mut Stats, thorough: bool, verbose: bool) {
    let rng = Rng::new(mix(mix(hash_str(prop), hash_str(wl.name)), mix(seed, idx)));
    let before = st.viol.len();
    let mut c = Case { rng, idx, thorough, verbose, st, wl: wl.name, viol_here: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| (wl.f)(&mut c)));
    st.evaluations += 1;
    if let Err(p) = r {
        let msg = if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".into()
        };
        let loc = LAST_PANIC.with(|l| l.borrow().clone());
        // a panic inside the checking code means the library handed back something no
        // correct answer looks like (an index out of range, a degenerate triangle)
        let own = loc.contains("/verif/harness") || loc.starts_with("src/") && HARNESS_FILES.iter().any(|f| loc.starts_with(f));
        if own { *st.events.entry("harness_panic".into()).or_insert(0) += 1; }
        if st.viol.len() == before || st.viol.len() < before + 3 {
            if verbose {
                eprintln!("  PANIC {} at {}", msg, loc);
            }
            st.viol.push(Viol {
                wl: wl.name.into(),
                idx,
                sig: if own { "unusable-answer" } else { "library-panic" }.into(),
                detail: format!("panicked at {}: {}", loc, msg),
            });
        }
    }
}
const HARNESS_FILES: &[&str] = &["src/core.rs", "src/main.rs", "src/w_", "src/oracle", "src/gen", "src/zoo"];
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        if std::env::var_os("CGARV_BACKTRACE").is_some() { eprintln!("{} {}", i, std::backtrace::Backtrace::force_capture()); }
        LAST_PANIC.with(|c| *c.borrow_mut() = l);
    }));
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
// tab separated private record format between shard and parent
fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', " ")
}
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub struct ShardArgs {
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub wall_cap: f64,
    pub progress: PathBuf,
    pub result: PathBuf,
    pub skip: Vec<(usize, u64)>,
    /// resume at this point of the enumeration (count of cases of this shard)
    pub start: u64,
    pub scale: f64,
}

fn counts(p: &Prop, thorough: bool, scale: f64) -> Vec<u64> {
    p.workloads
        .iter()
        .map(|w| (((if thorough { w.thorough } else { w.quick }) as f64) * scale).ceil() as u64)
        .collect()
}

/// the fixed interleaving of the workloads' cases
fn schedule(ns: &[u64]) -> impl Iterator<Item = (usize, u64)> + '_ {
    const STEPS: u64 = 200;
    (0..STEPS).flat_map(move |s| {
        ns.iter().enumerate().flat_map(move |(w, &n)| {
            let a = n * s / STEPS;
            let b = n * (s + 1) / STEPS;
            (a..b).map(move |i| (w, i))
        })
    })
}

pub fn run_shard(p: &Prop, a: &ShardArgs) {
    let ns = counts(p, a.thorough, a.scale);
    let t0 = Instant::now();
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(&a.progress).expect("progress file");
    let mut st = Stats::default();
    let mut k = 0u64;
    let mut mine = 0u64;
    for (w, i) in schedule(&ns) {
        let turn = k % a.nshards == a.shard;
        k += 1;
        if !turn {
            continue;
        }
        mine += 1;
        if mine <= a.start {
            continue;
        }
        if t0.elapsed().as_secs_f64() > a.wall_cap {
            st.truncated = true;
            break;
        }
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&mine.to_le_bytes());
        b[8..16].copy_from_slice(&(w as u64).to_le_bytes());
        b[16..].copy_from_slice(&i.to_le_bytes());
        prog.write_all_at(&b, 0).expect("progress");
        if a.skip.contains(&(w, i)) {
            continue;
        }
        run_one(&p.workloads[w], p.id, a.seed, i, &mut st, a.thorough, false);
        if st.viol.len() >= 12 {
            st.truncated = true;
            break;
        }
        if mine % 512 == 0 {
            write_result(&a.result, &st, false);
        }
    }
    write_result(&a.result, &st, true);
}

fn write_result(path: &Path, st: &Stats, done: bool) {
    let mut s = String::new();
    let _ = writeln!(s, "E\t{}", st.evaluations);
    let _ = writeln!(s, "T\t{}", st.truncated as u8);
    for (k, v) in &st.events {
        let _ = writeln!(s, "C\t{}\t{}", enc(k), v);
    }
    for h in &st.distinct {
        let _ = writeln!(s, "H\t{:x}", h);
    }
    for x in &st.samples {
        let _ = writeln!(s, "S\t{}", enc(x));
    }
    for v in &st.viol {
        let _ = writeln!(s, "V\t{}\t{}\t{}\t{}", enc(&v.wl), v.idx, enc(&v.sig), enc(&v.detail));
    }
    if done {
        s.push_str("DONE\n");
    }
    let tmp = path.with_extension("tmp");
    std::fs::write(&tmp, s).expect("result");
    std::fs::rename(&tmp, path).expect("result rename");
}

fn read_result(path: &Path, st: &mut Stats) -> bool {
    let Ok(s) = std::fs::read_to_string(path) else { return false };
    let mut done = false;
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "E" => st.evaluations += f[1].parse::<u64>().unwrap(),
            "T" => st.truncated |= f[1] == "1",
            "C" => *st.events.entry(dec(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "H" => {
                st.distinct.insert(u64::from_str_radix(f[1], 16).unwrap());
            }
            "S" => st.samples.push(dec(f[1])),
            "V" => st.viol.push(Viol { wl: dec(f[1]), idx: f[2].parse().unwrap(), sig: dec(f[3]), detail: dec(f[4]) }),
            "DONE" => done = true,
            _ => {}
        }
    }
    done
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

/// every thread of the process waits for another one
fn asleep(pid: u32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    let mut n = 0;
    for t in d.flatten() {
        let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { return false };
        let Some(k) = s.rfind(')') else { return false };
        if !s[k + 1..].trim_start().starts_with('S') {
            return false;
        }
        n += 1;
    }
    n > 0
}
const STALL: Duration = Duration::from_secs(15);

fn read_progress(p: &Path) -> Option<(u64, usize, u64)> {
    let b = std::fs::read(p).ok()?;
    if b.len() < 24 {
        return None;
    }
    let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    Some((g(0), g(8) as usize, g(16)))
}

// ---------------------------------------------------------------- parent
pub struct RunArgs {
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    pub wall_cap: f64,
    pub case_cpu: f64,
    pub shards: u64,
    pub scale: f64,
}

enum Solo {
    Ok,
    Violated,
    Died(String),
    Hung,
    Stalled,
}

fn solo(p: &Prop, a: &RunArgs, w: usize, i: u64, scratch: &Path) -> Solo {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["case", p.id, p.workloads[w].name, &i.to_string(), &a.seed.to_string(), if a.thorough { "thorough" } else { "quick" }])
        .env("TMPDIR", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(scratch.join("solo.err")).map(Stdio::from).unwrap_or(Stdio::null()))
        .spawn()
        .expect("spawn");
    let mut quiet = Instant::now();
    loop {
        if !asleep(c.id()) {
            quiet = Instant::now();
        } else if quiet.elapsed() > STALL {
            let _ = c.kill();
            let _ = c.wait();
            return Solo::Stalled;
        }
        if let Some(s) = c.try_wait().unwrap() {
            return match (s.code(), s.signal()) {
                (Some(0), _) => Solo::Ok,
                (Some(1), _) => Solo::Violated,
                (c, sg) => Solo::Died(format!("exit {:?} signal {:?}", c, sg)),
            };
        }
        if cpu_seconds(c.id()).unwrap_or(0.0) > a.case_cpu {
            let _ = c.kill();
            let _ = c.wait();
            return Solo::Hung;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn known_findings(verif: &Path, prop: &str) -> Vec<(String, String)> {
    // KNOWN property=P01 sig=<signature> text...
    let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) else { return vec![] };
    let mut out = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix("KNOWN ") else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(pr), Some(sg), Some(tx)) = (it.next(), it.next(), it.next()) else { continue };
        if pr.strip_prefix("property=") == Some(prop) {
            if let Some(sg) = sg.strip_prefix("sig=") {
                out.push((sg.to_string(), tx.to_string()));
            }
        }
    }
    out
}

/// returns exit code; prints verdict lines to `out`
pub fn run_parent(p: &Prop, a: &RunArgs, level: &str) -> i32 {
    let t0 = Instant::now();
    let scratch = a.verif.join("harness").join("target").join("runs").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let exe = std::env::current_exe().unwrap();
    struct Sh {
        child: Option<Child>,
        prog: PathBuf,
        results: Vec<PathBuf>,
        start: u64,
        skip: Vec<(usize, u64)>,
        last: (u64, usize, u64),
        cpu0: f64,
        quiet: Instant,
        respawns: u32,
    }
    let spawn = |s: u64, sh: &mut Sh| {
        let res = scratch.join(format!("r{}_{}", s, sh.results.len()));
        let left = (a.wall_cap - t0.elapsed().as_secs_f64()).max(1.0);
        let sk: Vec<String> = sh.skip.iter().map(|(w, i)| format!("{}:{}", w, i)).collect();
        let c = Command::new(&exe)
            .env("TMPDIR", &scratch)
            .args([
                "shard",
                p.id,
                if a.thorough { "thorough" } else { "quick" },
                &a.seed.to_string(),
                &s.to_string(),
                &a.shards.to_string(),
                &left.to_string(),
                sh.prog.to_str().unwrap(),
                res.to_str().unwrap(),
                &sh.start.to_string(),
                &sk.join(","),
                &a.scale.to_string(),
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn shard");
        sh.results.push(res);
        sh.child = Some(c);
        sh.cpu0 = 0.0;
        sh.quiet = Instant::now();
    };
    let mut shs: Vec<Sh> = vec![];
    for s in 0..a.shards {
        let mut sh = Sh { child: None, prog: scratch.join(format!("p{}", s)), results: vec![], start: 0, skip: vec![], last: (0, 0, 0), cpu0: 0.0, quiet: Instant::now(), respawns: 0 };
        spawn(s, &mut sh);
        shs.push(sh);
    }
    let mut extra: Vec<Viol> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    loop {
        let mut alive = 0;
        for s in 0..shs.len() {
            let sh = &mut shs[s];
            let Some(ch) = sh.child.as_mut() else { continue };
            alive += 1;
            let mut dead: Option<String> = None;
            let mut stalled = false;
            if let Some(stt) = ch.try_wait().unwrap() {
                if stt.success() {
                    sh.child = None;
                    continue;
                }
                dead = Some(format!("code {:?} signal {:?}", stt.code(), stt.signal()));
            } else {
                let pr = read_progress(&sh.prog).unwrap_or((0, 0, 0));
                let cpu = cpu_seconds(ch.id()).unwrap_or(sh.cpu0);
                if pr != sh.last || !asleep(ch.id()) {
                    sh.quiet = Instant::now();
                }
                if pr != sh.last {
                    sh.last = pr;
                    sh.cpu0 = cpu;
                } else if pr.0 > 0 && sh.quiet.elapsed() > STALL {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    stalled = true;
                    dead = Some("all of its threads wait for each other".into());
                } else if pr.0 > 0 && cpu - sh.cpu0 > a.case_cpu {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    dead = Some("no progress within the CPU budget".into());
                }
            }
            if let Some(why) = dead {
                let pr = read_progress(&sh.prog).unwrap_or((0, 0, 0));
                sh.child = None;
                if pr.0 == 0 {
                    inconclusive.push(format!("shard {} died before its first case: {}", s, why));
                    continue;
                }
                let (w, i) = (pr.1, pr.2);
                // a schedule may have to come round again
                let mut again = solo(p, a, w, i, &scratch);
                for _ in 0..if p.schedules { 40 } else { 0 } {
                    if !matches!(again, Solo::Ok) {
                        break;
                    }
                    again = solo(p, a, w, i, &scratch);
                }
                match again {
                    Solo::Stalled => extra.push(Viol { wl: p.workloads[w].name.into(), idx: i, sig: "deadlock".into(), detail: "all threads of the case wait for each other".into() }),
                    Solo::Ok if stalled && p.schedules => extra.push(Viol { wl: p.workloads[w].name.into(), idx: i, sig: "deadlock".into(), detail: "all threads of the case waited for each other; not seen again when repeated".into() }),
                    Solo::Ok => inconclusive.push(format!("shard {} died ({}) on {} #{} but the case alone completes", s, why, p.workloads[w].name, i)),
                    Solo::Violated => extra.push(Viol { wl: p.workloads[w].name.into(), idx: i, sig: "violated".into(), detail: "see replay".into() }),
                    Solo::Died(d) => extra.push(Viol { wl: p.workloads[w].name.into(), idx: i, sig: "process-died".into(), detail: format!("the case killed its process twice: {} / {}", why, d) }),
                    Solo::Hung => extra.push(Viol { wl: p.workloads[w].name.into(), idx: i, sig: "no-termination".into(), detail: format!("the case used more than {} s of CPU twice", a.case_cpu) }),
                }
                sh.skip.push((w, i));
                sh.start = pr.0.saturating_sub(1) / 512 * 512;
                sh.respawns += 1;
                // results flushed before `start` are kept; later ones are re-run
                if sh.respawns <= 2 && extra.len() < 3 && t0.elapsed().as_secs_f64() < a.wall_cap {
                    spawn(s as u64, sh);
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(25));
    }
    let mut st = Stats::default();
    for sh in &shs {
        for (k, r) in sh.results.iter().enumerate() {
            let done = read_result(r, &mut st);
            if !done && k + 1 == sh.results.len() && sh.skip.is_empty() {
                inconclusive.push(format!("incomplete result {}", r.display()));
            }
        }
    }
    st.viol.extend(extra);
    if let Some(n) = st.events.get("harness_panic") {
        inconclusive.push(format!("{} harness panics", n));
        for s in st.samples.iter().filter(|s| s.starts_with("HARNESS-PANIC")).take(3) {
            inconclusive.push(s.clone());
        }
    }
    // ---- verdict
    let known = known_findings(&a.verif, p.id);
    let mut kf_seen = HashSet::new();
    let mut new: Vec<&Viol> = vec![];
    for v in &st.viol {
        let key = format!("{}/{}", v.wl, v.sig);
        if let Some((sg, _)) = known.iter().find(|(sg, _)| *sg == key) {
            kf_seen.insert(sg.clone());
        } else {
            new.push(v);
        }
    }
    let mut stdout = String::new();
    for (sg, tx) in &known {
        if kf_seen.contains(sg) {
            let _ = writeln!(stdout, "KNOWN-FINDING: property={} {}", p.id, tx);
        }
    }
    let mut missing = vec![];
    if new.is_empty() && !st.truncated {
        for (name, min) in p.min_events {
            let min = if a.scale < 1.0 { 1 } else { *min };
            if st.events.get(*name).copied().unwrap_or(0) < min {
                missing.push(format!("{} observed {} < {}", name, st.events.get(*name).copied().unwrap_or(0), min));
            }
        }
    }
    if st.evaluations == 0 {
        missing.push("no case ran".into());
    }
    // ---- replay files
    let rdir = a.verif.join("evidence").join("replay");
    std::fs::create_dir_all(&rdir).ok();
    let mut reported = HashSet::new();
    let mut shown = 0;
    for v in &new {
        let key = format!("{}/{}", v.wl, v.sig);
        if !reported.insert(key) || shown >= 5 {
            continue;
        }
        shown += 1;
        let path = rdir.join(format!("{}-{}-{}-{}.json", p.id, v.wl, a.seed, v.idx));
        let js = format!(
            "{{\n \"property\": \"{}\",\n \"workload\": \"{}\",\n \"case\": {},\n \"seed\": {},\n \"tier\": \"{}\",\n \"signature\": \"{}\",\n \"detail\": \"{}\",\n \"rerun\": \"{} case {} {} {} {} {}\"\n}}\n",
            p.id, esc(&v.wl), v.idx, a.seed, if a.thorough { "thorough" } else { "quick" }, esc(&v.sig), esc(&v.detail),
            "/verif/harness/target/debug/cgarv", p.id, v.wl, v.idx, a.seed, if a.thorough { "thorough" } else { "quick" }
        );
        std::fs::write(&path, js).ok();
        let _ = writeln!(stdout, "VIOLATION property={} replay={}", p.id, path.display());
        let mut d = v.detail.replace('\n', " ");
        if d.len() > 1500 {
            let mut k = 1500;
            while !d.is_char_boundary(k) {
                k -= 1;
            }
            d.truncate(k);
        }
        let _ = writeln!(stdout, "  {} #{} {}: {}", v.wl, v.idx, v.sig, d);
    }
    let wall = t0.elapsed().as_secs_f64();
    // ---- evidence
    let mut ev = String::new();
    let _ = writeln!(ev, "{{");
    let _ = writeln!(ev, " \"property\": \"{}\",", p.id);
    let _ = writeln!(ev, " \"tier\": \"{}\",", if a.thorough { "thorough" } else { "quick" });
    let _ = writeln!(ev, " \"seed\": {},", a.seed as i64);
    let _ = writeln!(ev, " \"level\": \"{}\",", level);
    let _ = writeln!(ev, " \"coverage\": {{");
    let _ = writeln!(ev, "  \"evaluations\": {},", st.evaluations);
    let _ = writeln!(ev, "  \"distinct_nontrivial\": {},", st.distinct.len());
    let _ = writeln!(ev, "  \"rule\": \"{}\",", esc(p.rule));
    let _ = writeln!(ev, "  \"stopped_by_cap\": {},", st.truncated);
    let _ = writeln!(ev, "  \"observed\": {{");
    let n = st.events.len();
    for (k, (name, v)) in st.events.iter().enumerate() {
        let _ = writeln!(ev, "   \"{}\": {}{}", esc(name), v, if k + 1 < n { "," } else { "" });
    }
    let _ = writeln!(ev, "  }},");
    st.samples.sort();
    // one sample per (workload, kind)
    let mut seen = HashSet::new();
    let smp: Vec<&String> = st
        .samples
        .iter()
        .filter(|s| {
            let k = s.split('#').next().unwrap_or("").to_string() + s.split("] ").nth(1).and_then(|x| x.split(':').next()).unwrap_or("");
            seen.insert(k)
        })
        .take(24)
        .collect();
    let _ = writeln!(ev, "  \"samples\": [");
    for (k, s) in smp.iter().enumerate() {
        let _ = writeln!(ev, "   \"{}\"{}", esc(s), if k + 1 < smp.len() { "," } else { "" });
    }
    let _ = writeln!(ev, "  ]");
    let _ = writeln!(ev, " }},");
    let asm: Vec<String> = p.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let _ = writeln!(ev, " \"assumptions\": [{}],", asm.join(", "));
    let _ = writeln!(ev, " \"wall_s\": {:.2},", wall);
    let _ = writeln!(ev, " \"violations\": {}", new.len());
    let _ = writeln!(ev, "}}");
    std::fs::create_dir_all(a.verif.join("evidence")).ok();
    std::fs::write(a.verif.join("evidence").join(format!("{}.json", p.id)), ev).expect("evidence");
    let _ = std::fs::remove_dir_all(&scratch);
    let code = if !new.is_empty() {
        1
    } else if !inconclusive.is_empty() || !missing.is_empty() {
        2
    } else {
        0
    };
    let _ = writeln!(
        stdout,
        "{} {} seed={} cases={} distinct={} violations={} wall={:.1}s{}",
        p.id,
        match code {
            0 => "HELD",
            1 => "VIOLATED",
            _ => "INCONCLUSIVE",
        },
        a.seed,
        st.evaluations,
        st.distinct.len(),
        new.len(),
        wall,
        if st.truncated { " (stopped by cap)" } else { "" }
    );
    for m in missing.iter().chain(inconclusive.iter()) {
        let _ = writeln!(stdout, "  INCONCLUSIVE: {}", m);
    }
    print!("{}", stdout);
    std::io::stdout().flush().ok();
    code
}

/// one case by itself: 0 held, 1 violated
pub fn run_case(p: &Prop, wl: &str, idx: u64, seed: u64, thorough: bool) -> i32 {
    let w = p.workloads.iter().find(|w| w.name == wl).expect("workload");
    let mut st = Stats::default();
    run_one(w, p.id, seed, idx, &mut st, thorough, true);
    for (k, v) in &st.events {
        eprintln!("  {} = {}", k, v);
    }
    for v in &st.viol {
        eprintln!("VIOLATED {} {}", v.sig, v.detail);
    }
    if st.viol.is_empty() { 0 } else { 1 }
}
