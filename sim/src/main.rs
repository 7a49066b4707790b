//! Deterministic simulation of the parser library: driver, minimisation, replay, evidence.
mod ctx;
mod gram;
mod model;
mod proc;
mod props;
mod reader;
mod sched;
mod seams;
mod tape;
mod vm;

use ctx::{Ctx, Violation};
use props::Prop;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use tape::Src;

#[global_allocator]
static ALLOC: seams::YieldingAlloc = seams::YieldingAlloc;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const WORKERS: usize = 8;
/// A run that makes no progress for this long is taken to hang.
const HANG: Duration = Duration::from_secs(60);

fn die(msg: &str) -> ! {
    eprintln!("sim: {msg}");
    std::process::exit(3)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn seed_of_run(seed: u64, prop: &str, i: u64) -> u64 {
    tape::mix(tape::mix(seed ^ ctx::fnv(0, prop.as_bytes())) ^ i)
}

enum End {
    Ok,
    Violated(Violation),
    /// The harness itself panicked.
    Broken(String),
}

/// One simulated run.
fn one(p: &Prop, src: &Src, ctx: &mut Ctx) -> End {
    let r = vm::guard(|| (p.run)(src, ctx));
    match r {
        Ok(Ok(())) => End::Ok,
        Ok(Err(v)) => End::Violated(v),
        Err(m) => {
            // "(file)" at the end says where the panic came from
            if m.ends_with("(src/main.rs)") || m.contains("(src/") || m.contains("sim/src/") {
                End::Broken(m)
            } else {
                End::Violated(Violation {
                    kind: "library_panic".into(),
                    msg: format!("panic outside any call that may panic: {m}"),
                })
            }
        }
    }
}

fn limits() {
    // an allocation storm is a failure of that run, not of the machine
    let lim = [6u64 << 30, 6u64 << 30];
    unsafe {
        setrlimit(9, &lim);
        let zero = [0u64, 0];
        setrlimit(4, &zero); // no core files
    }
}

#[derive(Default, Clone)]
struct Tally {
    runs: u64,
    nontrivial: HashSet<u64>,
    inter: HashSet<u64>,
    seen: HashSet<u64>,
    steps: u64,
    no_verdict: u64,
    rerun: u64,
    rerun_diff: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<String>,
    choices: u64,
}

impl Tally {
    fn save(&self) -> String {
        let mut s = String::new();
        s += &format!(
            "n {} {} {} {} {} {}\n",
            self.runs, self.steps, self.no_verdict, self.rerun, self.rerun_diff, self.choices
        );
        for x in &self.nontrivial {
            s += &format!("d {x:x}\n");
        }
        for x in &self.inter {
            s += &format!("i {x:x}\n");
        }
        for x in &self.seen {
            s += &format!("o {x:x}\n");
        }
        for (k, v) in &self.faults {
            s += &format!("f {v} {k}\n");
        }
        for (k, v) in &self.probes {
            s += &format!("p {v} {k}\n");
        }
        for x in &self.samples {
            s += &format!("s {}\n", x.replace('\\', "\\\\").replace('\n', "\\n"));
        }
        s
    }
    fn load(&mut self, t: &str) {
        for l in t.lines() {
            let Some((k, r)) = l.split_once(' ') else { continue };
            match k {
                "n" => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    self.runs += v[0];
                    self.steps += v[1];
                    self.no_verdict += v[2];
                    self.rerun += v[3];
                    self.rerun_diff += v[4];
                    self.choices += v[5];
                }
                "d" | "i" | "o" => {
                    let x = u64::from_str_radix(r, 16).unwrap_or(0);
                    match k {
                        "d" => self.nontrivial.insert(x),
                        "i" => self.inter.insert(x),
                        _ => self.seen.insert(x),
                    };
                }
                "f" | "p" => {
                    if let Some((n, name)) = r.split_once(' ') {
                        let m = if k == "f" { &mut self.faults } else { &mut self.probes };
                        *m.entry(name.into()).or_default() += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "s" => self.samples.push(r.replace("\\n", "\n").replace("\\\\", "\\")),
                _ => {}
            }
        }
    }
}

fn find_prop(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| die(&format!("no property {id}")))
}

/// worker PROP SEED WORKER TOTAL SECONDS DIR SKIP...
fn worker(a: &[String]) {
    limits();
    let p = find_prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let w: u64 = a[2].parse().unwrap();
    let total: u64 = a[3].parse().unwrap();
    let cap = Duration::from_secs(a[4].parse().unwrap());
    let dir = PathBuf::from(&a[5]);
    let from: u64 = a[6].parse().unwrap();
    let known = known(&p);
    let t0 = Instant::now();
    let mut prog = fs::File::create(dir.join(format!("progress{w}"))).expect("progress file");
    let mut t = Tally::default();
    let mut i = w;
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    while i < total {
        if i < from {
            i += WORKERS as u64;
            continue;
        }
        if t0.elapsed() > cap {
            break;
        }
        let _ = prog.seek(SeekFrom::Start(0));
        let _ = prog.write_all(format!("{i:020}").as_bytes());
        let src = Src::from_seed(seed_of_run(seed, p.id, i));
        let mut c = Ctx::default();
        let end = one(&p, &src, &mut c);
        t.runs += 1;
        t.choices += src.used() as u64;
        t.steps += c.steps;
        if c.no_verdict {
            t.no_verdict += 1;
        }
        if c.nontrivial && t.nontrivial.len() < 3_000_000 {
            t.nontrivial.insert(c.case);
        }
        if t.seen.len() < 3_000_000 {
            t.seen.insert(c.seen);
        }
        if let Some(x) = c.inter {
            t.inter.insert(x);
        }
        for (k, v) in std::mem::take(&mut c.faults) {
            *t.faults.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut c.probes) {
            *t.probes.entry(k).or_default() += v;
        }
        if t.samples.len() < 2 && c.nontrivial {
            t.samples.push(format!("run {i}: {}", ctx::clip(&c.sample, 700)));
        }
        match end {
            End::Ok => {}
            End::Broken(m) => {
                let _ = fs::write(dir.join(format!("broken{w}")), format!("run {i}: {m}"));
                break;
            }
            End::Violated(v) => {
                if let Some(k) = known.iter().find(|k| k.matches(&v)) {
                    *knowns.entry(k.id.clone()).or_default() += 1;
                } else {
                    let tape: Vec<String> = src.tape().iter().map(|x| x.to_string()).collect();
                    let _ = fs::write(
                        dir.join(format!("violation{w}")),
                        format!("{i}\n{}\n{}\n{}", v.kind, tape.join(" "), v.msg),
                    );
                    break;
                }
            }
        }
        // same tape, same behaviour: checked on a sample of the runs
        if i % 256 < WORKERS as u64 {
            let s2 = Src::from_tape(src.tape());
            let mut c2 = Ctx::default();
            let _ = one(&p, &s2, &mut c2);
            t.rerun += 1;
            if c2.seen != c.seen || c2.case != c.case || c2.inter != c.inter {
                t.rerun_diff += 1;
            }
        }
        i += WORKERS as u64;
    }
    for (k, n) in knowns {
        t.probes.insert(format!("known_finding:{k}"), n);
    }
    let _ = fs::write(dir.join(format!("tally{w}")), t.save());
    let _ = fs::write(dir.join(format!("done{w}")), "");
}

// ------------------------------------------------------------------ known findings

#[derive(Clone)]
struct Known {
    id: String,
    what: String,
    kind: String,
    needle: String,
}

impl Known {
    fn matches(&self, v: &Violation) -> bool {
        self.kind == v.kind && v.msg.contains(&self.needle)
    }
}

/// Lines `known: property=C02 id=x kind=k match=TEXT what=...` of known_findings.txt.
fn known(p: &Prop) -> Vec<Known> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix(&format!("known: property={} ", p.id)) else { continue };
        let part = |k: &str, end: &str| -> Option<String> {
            let a = r.find(&format!("{k}="))? + k.len() + 1;
            let r = &r[a..];
            Some(if end.is_empty() { r.to_string() } else { r[..r.find(end)?].to_string() })
        };
        if let (Some(id), Some(kind), Some(needle), Some(what)) = (
            part("id", " "),
            part("kind", " "),
            part("match", " what="),
            part("what", ""),
        ) {
            out.push(Known { id, kind, needle, what });
        }
    }
    out
}

// ------------------------------------------------------------------ isolated runs

#[derive(Debug, Clone, PartialEq)]
enum Iso {
    Ok,
    Violated(String, String),
    Crashed(String),
    Hung,
    Broken(String),
}

impl Iso {
    fn kind(&self) -> Option<String> {
        match self {
            Iso::Violated(k, _) => Some(k.clone()),
            Iso::Crashed(_) => Some("crash".into()),
            Iso::Hung => Some("hang".into()),
            _ => None,
        }
    }
}

fn me() -> PathBuf {
    std::env::current_exe().expect("own path")
}

fn wait_for(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    let mut pause = 1;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {}
            Err(_) => return None,
        }
        if t0.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(50);
    }
}

/// Run one seed or tape in a process of its own.
fn isolated(prop: &str, args: &[String], limit: Duration, tape_out: Option<&Path>) -> Iso {
    let mut cmd = Command::new(me());
    if let Some(d) = tape_out.and_then(|t| t.parent()) {
        cmd.env("TMPDIR", d);
    }
    cmd.arg("run").arg(prop).args(args).stdout(Stdio::piped()).stderr(Stdio::null());
    if let Some(t) = tape_out {
        cmd.env("SIM_TAPE_OUT", t);
    }
    let mut c = cmd.spawn().unwrap_or_else(|e| die(&format!("cannot start: {e}")));
    let mut out = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let st = wait_for(&mut c, limit);
    let text = reader.join().unwrap_or_default();
    let Some(st) = st else { return Iso::Hung };
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = st.signal() {
        return Iso::Crashed(format!("signal {s}"));
    }
    match st.code() {
        Some(0) => Iso::Ok,
        Some(1) => {
            let l = text.lines().find_map(|l| l.strip_prefix("END "));
            let (k, m) = l.and_then(|l| l.split_once(' ')).unwrap_or(("unknown", ""));
            Iso::Violated(k.into(), m.replace("\\n", "\n"))
        }
        _ => Iso::Broken(text),
    }
}

/// run PROP seed N | run PROP tape FILE [trace] | run PROP runs FILE
fn run_cmd(a: &[String]) -> i32 {
    limits();
    let p = find_prop(&a[0]);
    let src = match a[1].as_str() {
        "seed" => Src::from_seed(a[2].parse().unwrap()),
        "runs" => {
            let n = read_tape(Path::new(&a[2]));
            let (seed, last) = (n[0], *n.last().unwrap());
            for i in &n[1..n.len() - 1] {
                let _ = one(&p, &Src::from_seed(seed_of_run(seed, p.id, *i)), &mut Ctx::default());
            }
            Src::from_seed(seed_of_run(seed, p.id, last))
        }
        _ => Src::from_tape(
            fs::read_to_string(&a[2])
                .unwrap_or_else(|e| die(&format!("tape: {e}")))
                .split_whitespace()
                .filter_map(|x| x.parse().ok())
                .collect(),
        ),
    };
    let mut c = Ctx {
        trace: if a.len() > 3 { Some(vec![]) } else { None },
        ..Ctx::default()
    };
    let end = one(&p, &src, &mut c);
    if let Some(t) = &c.trace {
        for l in t {
            println!("  {l}");
        }
        println!("  faults fired: {:?}", c.faults);
        println!("  choices: {} digest: {:016x}", src.used(), c.seen);
    }
    match end {
        End::Ok => 0,
        End::Violated(v) => {
            println!("END {} {}", v.kind, v.msg.replace('\n', "\\n"));
            1
        }
        End::Broken(m) => {
            println!("harness: {m}");
            3
        }
    }
}

// ------------------------------------------------------------------ minimisation

/// minimise PROP KIND TAPEFILE OUTFILE SECONDS: in-process, writes every improvement.
fn minimise_cmd(a: &[String]) -> i32 {
    limits();
    let p = find_prop(&a[0]);
    let kind = a[1].clone();
    let tape = read_tape(Path::new(&a[2]));
    let out = PathBuf::from(&a[3]);
    let cap = Duration::from_secs(a[4].parse().unwrap());
    let known = known(&p);
    let mut test = |t: &[u64]| -> Option<Vec<u64>> {
        let src = Src::from_tape(t.to_vec());
        let mut c = Ctx::default();
        match one(&p, &src, &mut c) {
            End::Violated(v) if v.kind == kind && !known.iter().any(|k| k.matches(&v)) => {
                Some(t[..src.used().min(t.len())].to_vec())
            }
            _ => None,
        }
    };
    minimise(tape, &mut test, cap, &mut |t| save_tape(&out, t));
    0
}

fn read_tape(p: &Path) -> Vec<u64> {
    fs::read_to_string(p)
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect()
}

fn save_tape(p: &Path, t: &[u64]) {
    let s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
    let tmp = p.with_extension("tmp");
    let _ = fs::write(&tmp, s.join(" "));
    let _ = fs::rename(&tmp, p);
}

/// Shrink a tape: drop ranges, zero and lower choices, as long as the same kind of violation remains.
fn minimise(
    tape: Vec<u64>,
    test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
    cap: Duration,
    found: &mut dyn FnMut(&[u64]),
) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut try_it = |best: &mut Vec<u64>, t: Vec<u64>| -> bool {
        if t0.elapsed() > cap || t == *best {
            return false;
        }
        if let Some(mut t) = test(&t) {
            while t.last() == Some(&0) {
                t.pop();
            }
            let better = (t.len(), t.iter().sum::<u64>()) < (best.len(), best.iter().sum::<u64>());
            if better {
                *best = t;
                found(best);
            }
            return better;
        }
        false
    };
    let same = best.clone();
    let _ = try_it(&mut best, same);
    // drop the tail
    let mut k = best.len() / 2;
    while k > 0 {
        let n = best.len();
        let cut = best[..n.saturating_sub(k)].to_vec();
        if n <= k || !try_it(&mut best, cut) {
            k /= 2;
        }
    }
    for _ in 0..6 {
        let before = best.clone();
        let mut len = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > cap {
                    return;
                }
                let e = (i + len).min(best.len());
                let mut t = best[..i].to_vec();
                t.extend(&best[e..]);
                if try_it(&mut best, t) {
                    continue;
                }
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    try_it(&mut best, t);
                }
                i += len;
            }
            if len == 1 {
                break;
            }
            len /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                if t0.elapsed() > cap {
                    return;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if !try_it(&mut best, t) {
                    if mid == lo {
                        break;
                    }
                    lo = mid + 1;
                }
            }
        }
        if best == before || t0.elapsed() > cap {
            break;
        }
    }
}

// ------------------------------------------------------------------ check

struct Found {
    run: u64,
    kind: String,
    tape: Vec<u64>,
    msg: String,
}

fn check(a: &[String]) -> i32 {
    let p = find_prop(&a[0]);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let (mut total, cap) = if thorough { (p.quick * 25, 3000u64) } else { (p.quick, 240) };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        total = n;
    }
    self_check();
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("scratch: {e}")));
    let r = check_in(&p, &dir, seed, &tier, total, cap, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

/// The seams must be in force: the same key gives the same map order, another key another one.
fn self_check() {
    let order = |k: u64| {
        vm::in_thread(k, || {
            let s: HashSet<u32> = (0..200).collect();
            (s.into_iter().collect::<Vec<_>>(), seams::key_calls())
        })
    };
    let (a, n) = order(1001);
    let (b, _) = order(1001);
    let (c, _) = order(2001);
    if n == 0 || a != b || a == c {
        die("the hash-seed seam is not in force");
    }
    let ((), cap) = seams::capture(vec![0], || println!("seam"));
    if cap.data != b"seam\n" {
        die("the standard-output seam is not in force");
    }
}

fn check_in(p: &Prop, dir: &Path, seed: u64, tier: &str, total: u64, cap: u64, t0: Instant) -> i32 {
    let mut found: Vec<Found> = vec![];
    let mut kids: Vec<Option<(Child, u64, Instant)>> = vec![];
    let start = |w: usize, from: u64| -> Child {
        let mut c = Command::new(me());
        let left = cap.saturating_sub(t0.elapsed().as_secs()).max(1);
        c.arg("worker")
            .args([p.id, &seed.to_string(), &w.to_string(), &total.to_string(), &left.to_string()])
            .arg(dir)
            .arg(from.to_string())
            .env("TMPDIR", dir)
            .stderr(Stdio::null())
            .stdout(Stdio::null());
        c.spawn().unwrap_or_else(|e| die(&format!("cannot start: {e}")))
    };
    for w in 0..WORKERS {
        kids.push(Some((start(w, 0), u64::MAX, Instant::now())));
    }
    let mut lost: Vec<String> = vec![];
    let mut tally = Tally::default();
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..WORKERS {
            let Some((c, at, since)) = kids[w].as_mut() else { continue };
            let ended = c.try_wait().ok().flatten();
            let now: u64 = fs::read_to_string(dir.join(format!("progress{w}")))
                .ok()
                .and_then(|s| s.trim().parse().ok())
                .unwrap_or(u64::MAX);
            if now != *at {
                *at = now;
                *since = Instant::now();
            }
            if ended.is_none() && (now == u64::MAX || since.elapsed() < HANG) {
                continue;
            }
            let clean = ended.is_some() && dir.join(format!("done{w}")).exists();
            if ended.is_none() {
                let _ = c.kill();
                let _ = c.wait();
            }
            kids[w] = None;
            if clean {
                continue;
            }
            // crash or hang in run `now`: try it alone
            if now == u64::MAX {
                die("a worker died before its first run");
            }
            let tp = dir.join(format!("lost{now}"));
            let r = isolated(
                p.id,
                &["seed".into(), seed_of_run(seed, p.id, now).to_string()],
                HANG,
                Some(&tp),
            );
            match r {
                Iso::Crashed(_) | Iso::Hung | Iso::Violated(..) => found.push(Found {
                    run: now,
                    kind: r.kind().unwrap(),
                    tape: read_tape(&tp),
                    msg: format!("{r:?}"),
                }),
                _ => {
                    // not repeatable alone (for instance a machine under load): go on behind it
                    lost.push(format!("run {now}: worker ended {ended:?}, alone: {r:?}"));
                    if lost.len() > 5 {
                        die(&format!("workers keep dying: {lost:?}"));
                    }
                    kids[w] = Some((start(w, now + 1), u64::MAX, Instant::now()));
                    continue;
                }
            }
        }
        // one worker found something: the others need not go on for long
        if !found.is_empty() || (0..WORKERS).any(|w| dir.join(format!("violation{w}")).exists()) {
            for k in kids.iter_mut() {
                if let Some((c, ..)) = k.as_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                *k = None;
            }
        }
    }
    for w in 0..WORKERS {
        if let Ok(m) = fs::read_to_string(dir.join(format!("broken{w}"))) {
            die(&format!("harness failure: {m}"));
        }
        if let Ok(t) = fs::read_to_string(dir.join(format!("tally{w}"))) {
            tally.load(&t);
        }
        if let Ok(t) = fs::read_to_string(dir.join(format!("violation{w}"))) {
            let mut l = t.splitn(4, '\n');
            let run = l.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let kind = l.next().unwrap_or("").to_string();
            let tape = l
                .next()
                .unwrap_or("")
                .split_whitespace()
                .filter_map(|x| x.parse().ok())
                .collect();
            found.push(Found {
                run,
                kind,
                tape,
                msg: l.next().unwrap_or("").to_string(),
            });
        }
    }
    // fixed probes: inputs too large for the random runs
    let mut probes_said = vec![];
    let known = known(p);
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    if found.is_empty() {
        for (name, limit) in props::fixed(p.id) {
            let r = isolated(p.id, &["fixed".into(), name.to_string()], Duration::from_secs(*limit), None);
            tally.runs += 1;
            probes_said.push(format!("{name}: {}", if r == Iso::Ok { "held" } else { "failed" }));
            if let Some(k) = r.kind() {
                let v = Violation {
                    kind: k.clone(),
                    msg: format!("fixed probe {name}: {r:?}"),
                };
                match known.iter().find(|k| k.matches(&v)) {
                    Some(k) => {
                        known_seen.insert(k.id.clone(), k.what.clone());
                    }
                    None => {
                        found.push(Found {
                            run: u64::MAX,
                            kind: k,
                            tape: vec![],
                            msg: v.msg,
                        });
                        break;
                    }
                }
            } else if let Iso::Broken(m) = r {
                die(&format!("probe {name}: {m}"));
            }
        }
    }
    for (k, _) in tally.probes.iter().filter(|(k, _)| k.starts_with("known_finding:")) {
        let id = &k["known_finding:".len()..];
        if let Some(k) = known.iter().find(|k| k.id == id) {
            known_seen.insert(id.to_string(), k.what.clone());
        }
    }
    for (_, w) in &known_seen {
        println!("KNOWN-FINDING: property={} {w}", p.id);
    }
    found.sort_by_key(|f| f.run);
    let mut code = 0;
    let mut verified = String::new();
    if let Some(f) = found.first() {
        code = 1;
        let (path, ok) = write_replay(p, dir, seed, f);
        verified = ok;
        println!("{} {}", p.id, ctx::printable(&ctx::clip(&f.msg, 1500)));
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    evidence(p, seed, tier, total, &tally, t0, found.len() as u64, &probes_said, &lost, &verified);
    println!(
        "{}: {} runs, {} distinct non-trivial, {} faults, {:.1} s{}",
        p.id,
        tally.runs,
        tally.nontrivial.len(),
        tally.faults.values().sum::<u64>(),
        t0.elapsed().as_secs_f64(),
        if code == 0 { "" } else { ", violated" }
    );
    code
}

/// The runs that must go before the failing one in the same process, and that one.
fn history(p: &Prop, dir: &Path, seed: u64, f: &Found) -> Option<Vec<u64>> {
    let w = f.run % WORKERS as u64;
    let all: Vec<u64> = (w..f.run).step_by(WORKERS).collect();
    let t0 = Instant::now();
    let file = dir.join("history");
    let fails = |h: &[u64]| -> bool {
        let v: Vec<String> = [seed].iter().chain(h).chain([&f.run]).map(|x| x.to_string()).collect();
        let _ = fs::write(&file, v.join(" "));
        let r = isolated(p.id, &["runs".into(), file.display().to_string()], Duration::from_secs(120), None);
        r.kind().as_deref() == Some(&f.kind)
    };
    // the shortest stretch before it, by doubling
    let mut n = 1;
    let mut h = loop {
        let h = all[all.len().saturating_sub(n)..].to_vec();
        if fails(&h) {
            break h;
        }
        if n >= all.len() {
            return None;
        }
        n *= 4;
    };
    // then without what is not needed
    let mut size = h.len() / 2;
    while size > 0 && t0.elapsed() < Duration::from_secs(90) {
        let mut k = 0;
        while k < h.len() && t0.elapsed() < Duration::from_secs(90) {
            let mut g = h.clone();
            g.drain(k..(k + size).min(h.len()));
            if fails(&g) {
                h = g;
            } else {
                k += size;
            }
        }
        size /= 2;
    }
    h.push(f.run);
    Some(h)
}

fn write_replay(p: &Prop, dir: &Path, seed: u64, f: &Found) -> (PathBuf, String) {
    let rdir = root().join("replays");
    let _ = fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-{}-{}.replay", p.id, f.kind, seed));
    if f.run == u64::MAX {
        let _ = fs::write(
            &path,
            format!("property {}\nkind {}\nfixed {}\n---\n{}\n", p.id, f.kind, f.msg.split(':').next().unwrap_or("").rsplit(' ').next().unwrap_or(""), f.msg),
        );
        return (path, "fixed probe".into());
    }
    let tfile = dir.join("tape");
    let best = dir.join("best");
    save_tape(&tfile, &f.tape);
    save_tape(&best, &f.tape);
    if f.kind == "crash" || f.kind == "hang" {
        let lim = if f.kind == "hang" { 20 } else { 30 };
        let cap = Duration::from_secs(if f.kind == "hang" { 60 } else { 45 });
        let kind = f.kind.clone();
        let probe = dir.join("probe");
        let mut test = |t: &[u64]| -> Option<Vec<u64>> {
            save_tape(&probe, t);
            let r = isolated(
                p.id,
                &["tape".into(), probe.display().to_string()],
                Duration::from_secs(lim),
                None,
            );
            if r.kind().as_deref() == Some(&kind) {
                Some(t.to_vec())
            } else {
                None
            }
        };
        minimise(f.tape.clone(), &mut test, cap, &mut |t| save_tape(&best, t));
    } else {
        let mut c = Command::new(me());
        c.arg("minimise")
            .args([p.id, &f.kind])
            .arg(&tfile)
            .arg(&best)
            .arg("40")
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        if let Ok(mut c) = c.spawn() {
            wait_for(&mut c, Duration::from_secs(60));
        }
    }
    let mut tape = read_tape(&best);
    let again = |t: &[u64]| -> (Iso, String) {
        let q = dir.join("again");
        save_tape(&q, t);
        let r = isolated(p.id, &["tape".into(), q.display().to_string()], HANG, None);
        let out = Command::new(me())
            .arg("run")
            .arg(p.id)
            .arg("tape")
            .arg(&q)
            .arg("trace")
            .stderr(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .ok()
            .map(|mut c| {
                let mut out = c.stdout.take().unwrap();
                let h = std::thread::spawn(move || {
                    let mut s = vec![];
                    let _ = out.read_to_end(&mut s);
                    s
                });
                wait_for(&mut c, HANG);
                String::from_utf8_lossy(&h.join().unwrap_or_default()).into_owned()
            })
            .unwrap_or_default();
        (r, out)
    };
    let (mut r, mut trace) = again(&tape);
    if r.kind().as_deref() != Some(&f.kind) {
        tape = f.tape.clone();
        (r, trace) = again(&tape);
        if r.kind().as_deref() == Some(&f.kind) {
            // earlier runs misled the minimiser: every attempt in a process of its own
            let probe = dir.join("probe");
            let mut test = |t: &[u64]| -> Option<Vec<u64>> {
                save_tape(&probe, t);
                let r = isolated(p.id, &["tape".into(), probe.display().to_string()], HANG, None);
                (r.kind().as_deref() == Some(&f.kind)).then(|| t.to_vec())
            };
            minimise(tape.clone(), &mut test, Duration::from_secs(40), &mut |t| tape = t.to_vec());
            (r, trace) = again(&tape);
        } else if let Some(h) = history(p, dir, seed, f) {
            let runs: Vec<String> = h.iter().map(|x| x.to_string()).collect();
            let _ = fs::write(
                &path,
                format!(
                    "property {}\nkind {}\nseed {seed} run {}\nruns {seed} {}\n---\nrun {} fails only in a process that has made the runs before it ({} of them needed)\n{}\n",
                    p.id,
                    f.kind,
                    f.run,
                    runs.join(" "),
                    f.run,
                    h.len() - 1,
                    f.msg
                ),
            );
            return (path, format!("reproduced from the replay file (a history of {} runs)", h.len()));
        }
    }
    let ok = if r.kind().as_deref() == Some(&f.kind) {
        format!("reproduced from the replay file ({} choices)", tape.len())
    } else {
        format!("NOT reproduced from its tape: {r:?}")
    };
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let _ = fs::write(
        &path,
        format!(
            "property {}\nkind {}\nseed {seed} run {}\ntape {}\n---\n{}\n\nchoices: {} (before minimisation: {})\n{ok}\nhistory of the minimised run:\n{}\noriginal run:\n{}\n",
            p.id,
            f.kind,
            f.run,
            t.join(" "),
            match &r {
                Iso::Violated(k, m) => format!("{k}: {m}"),
                x => format!("{x:?}"),
            },
            tape.len(),
            f.tape.len(),
            trace.replace("\\n", "\n      "),
            f.msg
        ),
    );
    (path, ok)
}

/// replay FILE: 1 if the same violation is reproduced, 0 if not.
fn replay(a: &[String]) -> i32 {
    let t = fs::read_to_string(&a[0]).unwrap_or_else(|e| die(&format!("replay: {e}")));
    let get = |k: &str| t.lines().take_while(|l| *l != "---").find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let (prop, kind, tape) = (get("property "), get("kind "), get("tape "));
    let fixed = get("fixed ");
    let tmp = std::env::temp_dir().join(format!("sim-replay-{}", std::process::id()));
    let _ = fs::write(&tmp, &tape);
    let runs = get("runs ");
    let args = if !runs.is_empty() {
        let _ = fs::write(&tmp, &runs);
        vec!["runs".to_string(), tmp.display().to_string()]
    } else if fixed.is_empty() {
        vec!["tape".to_string(), tmp.display().to_string()]
    } else {
        vec!["fixed".to_string(), fixed.clone()]
    };
    let r = isolated(&prop, &args, if runs.is_empty() { HANG } else { Duration::from_secs(120) }, None);
    if fixed.is_empty() && runs.is_empty() {
        let _ = Command::new(me()).arg("run").arg(&prop).args(&args).arg("trace").status();
    }
    let _ = fs::remove_file(&tmp);
    println!("replay of {prop} {kind}: {r:?}");
    if r.kind().as_deref() == Some(kind.as_str()) {
        println!("VIOLATION property={prop} replay={}", a[0]);
        1
    } else {
        0
    }
}

// ------------------------------------------------------------------ evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    seed: u64,
    tier: &str,
    total: u64,
    t: &Tally,
    t0: Instant,
    violations: u64,
    probes: &[String],
    lost: &[String],
    verified: &str,
) {
    let wall = t0.elapsed().as_secs_f64();
    let edir = root().join("evidence");
    let _ = fs::create_dir_all(&edir);
    let mut samples = t.samples.clone();
    samples.truncate(6);
    if samples.is_empty() {
        samples.push("none (stopped at a violation before a worker reported)".into());
    }
    let inter = if t.inter.is_empty() {
        "null".to_string()
    } else {
        t.inter.len().to_string()
    };
    let s = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {runs},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": {samples},\n  \
         \"planned_runs\": {total},\n  \"simulated_runs_per_hour\": {rph:.0},\n  \"seeds_per_hour\": {rph:.0},\n  \
         \"simulated_steps\": {steps},\n  \"simulated_time\": {simtime},\n  \"choices_drawn\": {choices},\n  \
         \"faults_fired\": {faults},\n  \"situations_reached\": {probes},\n  \"distinct_interleavings\": {inter},\n  \
         \"distinct_behaviours_observed\": {seen},\n  \"measure\": {measure},\n  \"runs_without_verdict\": {nv},\n  \
         \"same_tape_reruns\": {rr},\n  \"same_tape_reruns_that_differed\": {rd},\n  \"fixed_probes\": {fixed},\n  \
         \"workers_restarted\": {lost},\n  \"replay\": {ver},\n  \"real_components\": {real},\n  \"simulated_components\": {stub}\n }},\n \
         \"assumptions\": {assume},\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        id = js(p.id),
        tier = js(if tier == "thorough" { "thorough" } else { "quick" }),
        runs = t.runs,
        dn = t.nontrivial.len(),
        rule = js(p.rule),
        samples = jarr(&samples),
        rph = t.runs as f64 / wall.max(0.001) * 3600.0,
        steps = t.steps,
        simtime = js("no clock in the system: simulated time is counted in steps (library calls, VM calls and scheduling points)"),
        choices = t.choices,
        faults = jmap(&t.faults),
        probes = jmap(&t.probes),
        seen = t.seen.len(),
        measure = js("interleavings: digest of the scheduler's decisions; behaviours: digest of everything the run observed"),
        nv = t.no_verdict,
        rr = t.rerun,
        rd = t.rerun_diff,
        fixed = jarr(probes),
        lost = jarr(lost),
        ver = js(verified),
        real = js(p.real),
        stub = js(p.stub),
        assume = jarr(&[
            "the reference model in /verif/sim/src (gram.rs, reader.rs, model.rs and the property's own file) is right".into(),
            "bounded input sizes: see DESIGN.md".into(),
            "the library is built with overflow and debug checks on, as its own tests build it".into(),
        ]),
    );
    let path = edir.join(format!("{}.json", p.id));
    if fs::write(&path, s).is_err() {
        die("cannot write evidence");
    }
}

/// selftest PROP N: the same seeds twice, in different processes and orders, byte-identical digests.
fn selftest(a: &[String]) -> i32 {
    let n: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(200);
    let list: Vec<Prop> = props::all().into_iter().filter(|p| a[0] == "all" || p.id == a[0]).collect();
    let mut bad = 0;
    for p in list {
        let go = |rev: bool| -> BTreeMap<u64, (u64, u64, Option<u64>, usize)> {
            let mut m = BTreeMap::new();
            for k in 0..n {
                let i = if rev { n - 1 - k } else { k };
                let src = Src::from_seed(seed_of_run(77, p.id, i));
                let mut c = Ctx::default();
                let _ = one(&p, &src, &mut c);
                m.insert(i, (c.case, c.seen, c.inter, src.used()));
            }
            m
        };
        let (x, y) = (go(false), go(true));
        let d = x.iter().filter(|(k, v)| y[k] != **v).count();
        println!("{}: {n} seeds run twice in opposite orders, {d} differ", p.id);
        if d > 0 {
            for (k, v) in x.iter().filter(|(k, v)| y[k] != **v).take(3) {
                println!("   run {k}: {v:x?} / {:x?}", y[k]);
            }
        }
        bad += d;
    }
    (bad > 0) as i32
}

fn main() {
    vm::install_panic_hook();
    seams::find_image();
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.is_empty() {
        die("usage: sim check|run|replay|selftest ...");
    }
    let code = match a[0].as_str() {
        "check" => check(&a[1..]),
        "worker" => {
            worker(&a[1..]);
            0
        }
        "run" if a[2] == "fixed" => {
            limits();
            match vm::guard(|| props::run_fixed(&a[1], &a[3])) {
                Ok(Ok(())) => 0,
                Ok(Err(v)) => {
                    println!("END {} {}", v.kind, v.msg.replace('\n', "\\n"));
                    1
                }
                Err(m) => {
                    println!("END library_panic {m}");
                    1
                }
            }
        }
        "run" => run_cmd(&a[1..]),
        "minimise" => minimise_cmd(&a[1..]),
        "replay" => replay(&a[1..]),
        "selftest" => selftest(&a[1..]),
        x => die(&format!("unknown command {x}")),
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
