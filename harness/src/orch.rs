//! Runs the cases of one property in worker processes and judges the outcome.
use crate::props;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static PANICS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

static UB_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn panics() -> u64 {
    PANICS.load(Ordering::SeqCst)
}
pub fn last_panic() -> Option<(String, bool)> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn install_panic_hook() {
    let loud = std::env::var("TSV_LOUD").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let ours = loc.starts_with("src/") && !loc.contains("/repo/");
        if loud {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if is_ub_panic(&msg) && !ours {
            // some of these cannot be caught: leave a note behind
            eprintln!("UB-PANIC at {loc}: {msg}");
            *UB_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{msg} (at {loc})"));
        }
        PANICS.fetch_add(1, Ordering::SeqCst);
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((format!("panic at {loc}: {}", msg.chars().take(300).collect::<String>()), ours));
    }));
}

pub fn scratch_base() -> PathBuf {
    if let Ok(p) = std::env::var("TSV_SCRATCH") {
        return PathBuf::from(p);
    }
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d);
        let probe = p.join(format!("tsverif-probe-{}", std::process::id()));
        if std::fs::create_dir(&probe).is_ok() {
            let _ = std::fs::remove_dir(&probe);
            return p.to_path_buf();
        }
    }
    PathBuf::from("/tmp")
}

fn make_rt() -> Arc<tokio::runtime::Runtime> {
    Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(3).max_blocking_threads(24).enable_all().build().unwrap())
}

fn setup_process() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    std::env::set_var("TOKIO_WORKER_THREADS", "2");
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        if std::env::var("TSV_SAN").is_err() {
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
}

/// Runs one case; panics of the code under test become violations.
fn run_case(p: &props::Prop, ctx: &mut Ctx) -> R<()> {
    let before = panics();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(ctx)));
    match r {
        Ok(Ok(())) => {
            if panics() != before && !p.tolerates_panics {
                let (m, ours) = last_panic().unwrap_or_default();
                if ours {
                    return Err(Fail::Harness(m));
                }
                return Err(Fail::Viol(format!("the library panicked on a background thread: {m}")));
            }
            Ok(())
        }
        Ok(Err(e)) => Err(match e {
            Fail::Viol(m) if panics() != before => Fail::Viol(format!("{m} [last panic: {}]", last_panic().unwrap_or_default().0)),
            e => e,
        }),
        Err(_) => {
            let (m, ours) = last_panic().unwrap_or_default();
            Err(if ours { Fail::Harness(m) } else { Fail::Viol(format!("the library panicked: {m}")) })
        }
    }
}

pub fn mkctx_for(id: &str, seed: u64, rt: Arc<tokio::runtime::Runtime>, scratch: PathBuf) -> Ctx {
    let p = props::Prop { id: Box::leak(id.to_string().into_boxed_str()), ..props::BASE };
    mkctx(&p, seed, 0, rt, scratch)
}

fn mkctx(p: &props::Prop, seed: u64, worker: usize, rt: Arc<tokio::runtime::Runtime>, scratch: PathBuf) -> Ctx {
    Ctx {
        prop: p.id.to_string(),
        seed,
        rng: Rng::new(seed),
        rt,
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        scratch,
        trace: vec![],
        stats: Stats::default(),
        nontrivial: true,
        shape: None,
        worker,
        case_no: 0,
    }
}

fn clear_scratch(scratch: &Path) {
    if let Ok(rd) = std::fs::read_dir(scratch) {
        for e in rd.flatten() {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
}

/// Panics that only checked builds raise, in place of undefined or wrong behaviour.
fn is_ub_panic(m: &str) -> bool {
    (m.contains("attempt to ") && m.contains("overflow")) || m.contains("unsafe precondition") || m.contains("misaligned pointer") || m.contains("null pointer dereference")
}

pub fn worker(id: &str, idx: usize, budget_ms: u64, out: &str) -> i32 {
    setup_process();
    // several properties take turns when a sanitizer watches
    let turns: Vec<props::Prop> = id.split(',').map(|i| props::find(i).expect("property")).collect();
    let sanitized = std::env::var("TSV_SAN").is_ok();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    let rt = make_rt();
    let scratch = PathBuf::from(std::env::var("TSV_WORKDIR").unwrap()).join(format!("w{idx}"));
    std::fs::create_dir_all(&scratch).unwrap();
    let start = Instant::now();
    let mut n = 0u64;
    let mut total = Stats::default();
    let mut cases = 0u64;
    let mut code = 0;
    while start.elapsed().as_millis() < budget_ms as u128 || n == 0 {
        let p = &turns[(idx + n as usize) % turns.len()];
        if p.max_cases > 0 && n >= p.max_cases {
            break;
        }
        let seed = hash64(format!("{id}/{base}/{idx}/{n}").as_bytes());
        let _ = writeln!(f, "{}", json!({"t":"start","seed":seed,"n":n,"p":p.id}));
        let mut ctx = mkctx(p, seed, idx, rt.clone(), scratch.clone());
        ctx.case_no = n;
        n += 1;
        let r = run_case(p, &mut ctx);
        if sanitized {
            // only what this run is about counts: other properties are judged elsewhere
            total.add(&format!("cases_{}", p.id), 1);
            if let Some(m) = UB_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone() {
                let _ = writeln!(f, "{}", json!({"t":"viol","seed":seed,"p":p.id,"msg":m,"trace":ctx.trace}));
                code = 1;
                break;
            }
            match r {
                Ok(()) => cases += 1,
                Err(e) => {
                    total.add("~cases_failed_otherwise", 1);
                    let _ = writeln!(f, "{}", json!({"t":"other","seed":seed,"p":p.id,"msg":format!("{e:?}")}));
                }
            }
            total.hashes.insert(ctx.shape.unwrap_or_else(|| hash64(ctx.trace.join("\n").as_bytes())));
            for (k, v) in &ctx.stats.counts {
                total.add(k, *v);
            }
            clear_scratch(&scratch);
            continue;
        }
        for (k, v) in &ctx.stats.counts {
            total.add(k, *v);
        }
        for (k, v) in &ctx.stats.maxes {
            total.max(k, *v);
        }
        total.hashes.extend(ctx.stats.hashes.iter());
        match r {
            Ok(()) => {
                cases += 1;
                if ctx.nontrivial {
                    let h = ctx.shape.unwrap_or_else(|| hash64(ctx.trace.join("\n").as_bytes()));
                    total.hashes.insert(h);
                }
                if total.samples.len() < 3 {
                    let s: String = ctx.trace.join(" | ").chars().take(1500).collect();
                    total.samples.push(format!("seed {seed}: {s}"));
                }
            }
            Err(Fail::Viol(m)) => {
                let _ = writeln!(f, "{}", json!({"t":"viol","seed":seed,"msg":m,"trace":ctx.trace}));
                code = 1;
                break;
            }
            Err(Fail::Harness(m) | Fail::Io(m)) => {
                let _ = writeln!(f, "{}", json!({"t":"harness","seed":seed,"msg":m}));
                code = 2;
                break;
            }
        }
        clear_scratch(&scratch);
    }
    let hashes: Vec<u64> = total.hashes.iter().cloned().collect();
    let _ = writeln!(f, "{}", json!({"t":"summary","cases":cases,"counts":total.counts,"maxes":total.maxes,"hashes":hashes,"samples":total.samples}));
    let _ = f.flush();
    // do not wait for stray threads
    unsafe { libc::_exit(code) }
}

pub fn case(id: &str, seed: u64, idx: usize) -> i32 {
    setup_process();
    let p = props::find(id).expect("property");
    let rt = make_rt();
    let scratch = scratch_base().join(format!("tsverif-case-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut ctx = mkctx(&p, seed, idx, rt, scratch.clone());
    let r = run_case(&p, &mut ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    for t in &ctx.trace {
        println!("  {t}");
    }
    println!("{:?}", ctx.stats.counts);
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(Fail::Viol(m)) => {
            println!("VIOLATED: {m}");
            1
        }
        Err(Fail::Harness(m) | Fail::Io(m)) => {
            println!("HARNESS: {m}");
            2
        }
    }
}

fn thread_states(pid: u32) -> Option<(bool, u64)> {
    // (any thread running or in disk wait, cpu ticks)
    let mut active = false;
    let mut cpu = 0;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()?.flatten() {
        let s = std::fs::read_to_string(e.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        if f[0] != "S" && f[0] != "Z" {
            active = true;
        }
        cpu += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
    }
    Some((active, cpu))
}

struct W {
    child: Child,
    out: PathBuf,
    pos: u64,
    buf: String,
    cur: Option<(u64, Instant, u64)>, // seed, since, cpu at start
    idle: u32,
    done: bool,
    lines: Vec<Value>,
}

impl W {
    fn poll_lines(&mut self) {
        if let Ok(mut f) = std::fs::File::open(&self.out) {
            let _ = f.seek(SeekFrom::Start(self.pos));
            let mut s = Vec::new();
            if let Ok(n) = f.read_to_end(&mut s) {
                self.pos += n as u64;
                self.buf.push_str(&String::from_utf8_lossy(&s));
            }
        }
        while let Some(i) = self.buf.find('\n') {
            let l: String = self.buf.drain(..=i).collect();
            if let Ok(v) = serde_json::from_str::<Value>(&l) {
                if v["t"] == "start" {
                    let cpu = thread_states(self.child.id()).map(|x| x.1).unwrap_or(0);
                    self.cur = Some((v["seed"].as_u64().unwrap_or(0), Instant::now(), cpu));
                    self.idle = 0;
                } else {
                    self.cur = None;
                    self.lines.push(v);
                }
            }
        }
    }
}

struct Outcome {
    kind: &'static str, // viol, inconclusive
    seed: u64,
    worker: usize,
    msg: String,
    trace: Vec<String>,
}

fn kill_tree(c: &mut Child) {
    unsafe {
        libc::kill(-(c.id() as i32), libc::SIGKILL);
    }
    let _ = c.kill();
    let _ = c.wait();
}

fn spawn(args: &[String], workdir: &Path, log: &Path) -> Child {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().unwrap();
    let logf = std::fs::OpenOptions::new().create(true).append(true).open(log).unwrap();
    Command::new(exe)
        .args(args)
        .env("TSV_WORKDIR", workdir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(logf)
        .process_group(0)
        .spawn()
        .expect("spawning a worker")
}

/// Re-runs one case by itself; true if it ends abnormally or spins again.
fn confirm(id: &str, seed: u64, idx: usize, workdir: &Path, cpu_limit_ticks: u64) -> bool {
    let log = workdir.join("confirm.log");
    let mut c = spawn(&["case".into(), id.into(), seed.to_string(), idx.to_string()], workdir, &log);
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                return st.signal().map(|s| s != libc::SIGKILL).unwrap_or(st.code() == Some(1));
            }
            Ok(None) => {}
            Err(_) => return false,
        }
        if let Some((_, cpu)) = thread_states(c.id()) {
            if cpu > cpu_limit_ticks {
                kill_tree(&mut c);
                return true;
            }
        }
        if t0.elapsed() > Duration::from_secs(150) {
            kill_tree(&mut c);
            return false;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
}

pub fn check(id: &str) -> i32 {
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property {id}");
            return 2;
        }
    };
    let t0 = Instant::now();
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = if tier == "thorough" { p.thorough_s } else { p.quick_s };
    let budget = std::env::var("TSV_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(budget);
    let workdir = scratch_base().join(format!("tsverif-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&workdir).unwrap();
    let san_log = workdir.join("stderr.log");
    let mut ws: Vec<W> = vec![];
    for i in 0..p.workers {
        let out = workdir.join(format!("out{i}.jsonl"));
        let child = spawn(
            &["worker".into(), id.into(), i.to_string(), (budget * 1000).to_string(), out.to_string_lossy().to_string()],
            &workdir,
            &san_log,
        );
        ws.push(W { child, out, pos: 0, buf: String::new(), cur: None, idle: 0, done: false, lines: vec![] });
    }
    let mut outcome: Option<Outcome> = None;
    let tick = Duration::from_millis(250);
    while ws.iter().any(|w| !w.done) && outcome.as_ref().map(|o| o.kind != "viol").unwrap_or(true) {
        std::thread::sleep(tick);
        for i in 0..ws.len() {
            let w = &mut ws[i];
            if w.done {
                continue;
            }
            w.poll_lines();
            let st = w.child.try_wait().ok().flatten();
            if let Some(st) = st {
                w.poll_lines();
                w.done = true;
                use std::os::unix::process::ExitStatusExt;
                if let Some(v) = w.lines.iter().find(|v| v["t"] == "viol") {
                    outcome = Some(Outcome {
                        kind: "viol",
                        seed: v["seed"].as_u64().unwrap_or(0),
                        worker: i,
                        msg: v["msg"].as_str().unwrap_or("").to_string(),
                        trace: v["trace"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
                    });
                    break;
                }
                if let Some(v) = w.lines.iter().find(|v| v["t"] == "harness") {
                    outcome.get_or_insert(Outcome { kind: "inconclusive", seed: v["seed"].as_u64().unwrap_or(0), worker: i, msg: v["msg"].as_str().unwrap_or("").to_string(), trace: vec![] });
                    continue;
                }
                if !w.lines.iter().any(|v| v["t"] == "summary") {
                    let s = w.cur.map(|c| c.0).unwrap_or(0);
                    let sig = st.signal();
                    let tail = tail_of(&san_log);
                    if sig == Some(libc::SIGKILL) {
                        outcome.get_or_insert(Outcome { kind: "inconclusive", seed: s, worker: i, msg: "a worker was killed (out of memory?)".into(), trace: vec![] });
                    } else if p.san && tail.contains("Sanitizer") {
                        outcome = Some(Outcome { kind: "viol", seed: s, worker: i, msg: format!("sanitizer report: {}", san_summary(&san_log)), trace: vec![tail] });
                        break;
                    } else if confirm(id, s, i, &workdir, 6000) || (p.concurrent && sig.is_some()) {
                        outcome = Some(Outcome { kind: "viol", seed: s, worker: i, msg: format!("the process died: {st}: {}", tail.lines().rev().take(3).collect::<Vec<_>>().join(" / ")), trace: vec![tail] });
                        break;
                    } else {
                        outcome.get_or_insert(Outcome { kind: "inconclusive", seed: s, worker: i, msg: format!("a worker ended with {st}, not reproduced: {tail}"), trace: vec![] });
                    }
                }
                continue;
            }
            if let Some((s, since, cpu0)) = w.cur {
                if since.elapsed() > Duration::from_secs(25) {
                    if let Some((active, cpu)) = thread_states(w.child.id()) {
                        if active {
                            w.idle = 0;
                        } else {
                            w.idle += 1;
                        }
                        if w.idle >= 80 {
                            kill_tree(&mut w.child);
                            w.done = true;
                            outcome = Some(Outcome { kind: "viol", seed: s, worker: i, msg: "an operation never completes: every thread of the process has been asleep for 20 seconds".into(), trace: vec![] });
                            break;
                        }
                        let limit = p.cpu_limit_s * 100;
                        if cpu.saturating_sub(cpu0) > limit {
                            kill_tree(&mut w.child);
                            w.done = true;
                            if confirm(id, s, i, &workdir, limit) {
                                outcome = Some(Outcome { kind: "viol", seed: s, worker: i, msg: format!("an operation does not complete: more than {} s of processor time spent on one case", p.cpu_limit_s), trace: vec![] });
                                break;
                            } else {
                                outcome.get_or_insert(Outcome { kind: "inconclusive", seed: s, worker: i, msg: "a case ran too long once".into(), trace: vec![] });
                            }
                        } else if since.elapsed() > Duration::from_secs(400) {
                            kill_tree(&mut w.child);
                            w.done = true;
                            outcome.get_or_insert(Outcome { kind: "inconclusive", seed: s, worker: i, msg: "a case took over 400 s".into(), trace: vec![] });
                        }
                    }
                }
            }
        }
    }
    for w in ws.iter_mut() {
        w.poll_lines();
        kill_tree(&mut w.child);
    }
    // aggregate
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut cases = 0;
    for w in &ws {
        for v in w.lines.iter().filter(|v| v["t"] == "summary") {
            cases += v["cases"].as_u64().unwrap_or(0);
            for (k, x) in v["counts"].as_object().into_iter().flatten() {
                *counts.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
            for (k, x) in v["maxes"].as_object().into_iter().flatten() {
                let e = maxes.entry(k.clone()).or_insert(0);
                *e = (*e).max(x.as_u64().unwrap_or(0));
            }
            hashes.extend(v["hashes"].as_array().into_iter().flatten().filter_map(|h| h.as_u64()));
            samples.extend(v["samples"].as_array().into_iter().flatten().filter_map(|h| h.as_str().map(|s| s.to_string())));
        }
    }
    samples.truncate(4);
    let _ = std::fs::remove_dir_all(&workdir);
    let viol = outcome.as_ref().map(|o| o.kind == "viol").unwrap_or(false);
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(cases));
    cov.insert("distinct_nontrivial".into(), json!(hashes.len()));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("observed".into(), json!(counts));
    cov.insert("maxima".into(), json!(maxes));
    let ev = json!({
        "property": id, "tier": if tier == "thorough" {"thorough"} else {"quick"}, "seed": seed, "level": p.level,
        "coverage": cov, "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": if viol {1} else {0},
    });
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let evp = verif.join("evidence").join(format!("{}.json", p.evidence_id()));
    if let Err(e) = std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write {}: {e}", evp.display());
        return 2;
    }
    match outcome {
        Some(o) if o.kind == "viol" => {
            let dir = verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let rp = dir.join(format!("{}-{}.json", id, o.seed));
            let r = json!({"property": id, "tier": tier, "verif_seed": seed, "case_seed": o.seed, "worker": o.worker, "violation": o.msg, "history": o.trace,
                "replay": format!("VERIF_TIER={tier} {} case {id} {} {}", std::env::current_exe().unwrap().display(), o.seed, o.worker)});
            let _ = std::fs::write(&rp, serde_json::to_string_pretty(&r).unwrap());
            println!("{}: {}", id, o.msg);
            println!("VIOLATION property={} replay={}", p.evidence_id(), rp.display());
            1
        }
        Some(o) => {
            println!("{id}: inconclusive: {} (case {})", o.msg, o.seed);
            2
        }
        None => {
            for k in p.must_observe {
                if counts.get(*k).copied().unwrap_or(0) == 0 {
                    println!("{id}: inconclusive: nothing observed for '{k}' in {cases} cases: {counts:?}");
                    return 2;
                }
            }
            counts.retain(|k, _| !k.starts_with('~'));
            println!("{id}: held on {cases} cases ({} distinct), {:.1} s; observed {}", hashes.len(), t0.elapsed().as_secs_f64(), serde_json::to_string(&counts).unwrap());
            0
        }
    }
}

fn tail_of(p: &Path) -> String {
    let s = std::fs::read(p).unwrap_or_default();
    let n = s.len().saturating_sub(6000);
    String::from_utf8_lossy(&s[n..]).to_string()
}
fn san_summary(p: &Path) -> String {
    let s = std::fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).to_string();
    s.lines().find(|l| l.contains("SUMMARY:")).or_else(|| s.lines().find(|l| l.contains("WARNING: ThreadSanitizer") || l.contains("ERROR: AddressSanitizer"))).unwrap_or("(no summary)").to_string()
}
