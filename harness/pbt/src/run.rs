use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fs,
    hash::{DefaultHasher, Hash, Hasher},
    os::unix::{fs::FileExt, process::ExitStatusExt},
    panic::{AssertUnwindSafe, catch_unwind},
    path::{Path, PathBuf},
    process::{Command, ExitCode},
    sync::{
        Mutex, Once, OnceLock,
        atomic::{AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case failed.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Self { msg: msg.into() }
    }
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Self { msg }
    }
}

pub type Ret = Result<(), Fail>;

/// Per-case record: classification, the rendered input, known findings that were hit.
#[derive(Default)]
pub struct Case {
    nontrivial: bool,
    labels: Vec<&'static str>,
    shown: Option<String>,
    want_show: bool,
    key: Option<u64>,
    known: Vec<&'static str>,
    counts: Vec<(&'static str, u64)>,
    weight: u64,
}

impl Case {
    /// The case exercises something beyond the trivial (by the rule stated by the check).
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }

    pub fn label(&mut self, label: &'static str) {
        if !self.labels.contains(&label) {
            self.labels.push(label);
        }
    }

    pub fn label_if(&mut self, cond: bool, label: &'static str) {
        if cond {
            self.label(label);
        }
    }

    /// Add to a named total reported in the evidence.
    pub fn count(&mut self, what: &'static str, n: u64) {
        self.counts.push((what, n));
    }

    /// This case stood for `n` evaluations instead of one.
    pub fn evaluations(&mut self, n: u64) {
        self.weight = n;
    }

    /// Identity of the input for distinctness (defaults to the hash of the choices).
    pub fn key(&mut self, value: impl Hash) {
        let mut h = DefaultHasher::new();
        value.hash(&mut h);
        self.key = Some(h.finish());
    }

    /// Describe the input; only evaluated for samples and failures.
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.want_show {
            self.shown = Some(f());
        }
    }

    /// The deviation with this signature is a listed finding: tolerate it, or fail.
    pub fn known(&mut self, id: &'static str, msg: impl FnOnce() -> String) -> Ret {
        if known(id).is_some() {
            if !self.known.contains(&id) {
                self.known.push(id);
            }
            Ok(())
        } else {
            Err(Fail::new(msg()))
        }
    }
}

type PartFn = Box<dyn Fn(&mut Src, &mut Case) -> Ret + Sync + Send>;
type ProbeFn = Box<dyn Fn() -> Result<(), String> + Sync + Send>;

struct Part {
    name: &'static str,
    quick: u64,
    thorough: u64,
    threads: usize,
    f: PartFn,
}

struct Probe {
    id: &'static str,
    f: ProbeFn,
}

pub struct CheckOpts {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// All the machinery deciding one property.
pub struct Check {
    opts: CheckOpts,
    parts: Vec<Part>,
    probes: Vec<Probe>,
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        Self { opts: CheckOpts { id, rule, assumptions: &[] }, parts: vec![], probes: vec![] }
    }

    pub fn assume(mut self, a: &'static [&'static str]) -> Self {
        self.opts.assumptions = a;
        self
    }

    /// Generated search: `quick`/`thorough` cases.
    pub fn part(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src, &mut Case) -> Ret + Sync + Send + 'static,
    ) -> Self {
        self.parts.push(Part { name, quick, thorough, threads: threads(), f: Box::new(f) });
        self
    }

    /// Like [`Check::part`], on a single thread.
    pub fn part_serial(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: impl Fn(&mut Src, &mut Case) -> Ret + Sync + Send + 'static,
    ) -> Self {
        self.parts.push(Part { name, quick, thorough, threads: 1, f: Box::new(f) });
        self
    }

    /// Fixed input of a recorded finding: `Err` while the defect is present.
    pub fn probe(
        mut self,
        id: &'static str,
        f: impl Fn() -> Result<(), String> + Sync + Send + 'static,
    ) -> Self {
        self.probes.push(Probe { id, f: Box::new(f) });
        self
    }
}

fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, usize::from).min(8)
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

struct Finding {
    id: String,
    property: String,
    what: String,
}

fn findings() -> &'static [Finding] {
    static F: OnceLock<Vec<Finding>> = OnceLock::new();
    F.get_or_init(|| {
        let text = fs::read_to_string(root().join("known_findings.json")).expect("known_findings.json");
        let v: Value = serde_json::from_str(&text).expect("known_findings.json is valid");
        v["findings"]
            .as_array()
            .expect("findings")
            .iter()
            .map(|f| Finding {
                id: f["id"].as_str().unwrap().to_owned(),
                property: f["property"].as_str().unwrap().to_owned(),
                what: f["what"].as_str().unwrap().to_owned(),
            })
            .collect()
    })
}

/// Description of a listed (unfixed) finding.
pub fn known(id: &str) -> Option<&'static str> {
    findings().iter().find(|f| f.id == id).map(|f| f.what.as_str())
}

/// IDs of the findings listed for a property.
pub fn known_ids(property: &str) -> Vec<&'static str> {
    findings().iter().filter(|f| f.property == property).map(|f| f.id.as_str()).collect()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Route panic messages into the case result instead of stderr.
pub fn quiet_panics() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_owned())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        }));
    });
}

/// Run a closure, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    quiet_panics();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(part: &Part, src: &mut Src, want_show: bool) -> (Case, Ret) {
    let mut case = Case { want_show, weight: 1, ..Case::default() };
    let ret = match no_panic(|| (part.f)(src, &mut case)) {
        Ok(r) => r,
        Err(msg) => Err(Fail::new(format!("panicked: {msg}"))),
    };
    (case, ret)
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    samples: BTreeMap<u64, String>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

struct Args {
    id: String,
    tier: Tier,
    seed: u64,
    child: bool,
    replay: Option<PathBuf>,
    only: Option<(usize, u64)>,
    progress: Option<PathBuf>,
    scale: f64,
}

fn parse_args() -> Args {
    let mut it = std::env::args().skip(1);
    let mut args = Args {
        id: String::new(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        child: false,
        replay: None,
        only: None,
        progress: None,
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    while let Some(a) = it.next() {
        match a.as_str() {
            "--child" => args.child = true,
            "--tier" => {
                args.tier = if it.next().as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            }
            "--seed" => args.seed = it.next().and_then(|s| s.parse().ok()).expect("seed"),
            "--replay" => args.replay = it.next().map(Into::into),
            "--only" => {
                let v = it.next().expect("part:case");
                let (p, c) = v.split_once(':').expect("part:case");
                args.only = Some((p.parse().unwrap(), c.parse().unwrap()));
            }
            "--progress" => args.progress = it.next().map(Into::into),
            _ => args.id = a,
        }
    }
    args
}

unsafe extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit(resource: i32, value: u64) {
    let rlim = [value, value];
    // SAFETY: plain libc call on a properly sized struct rlimit.
    unsafe {
        setrlimit(resource, &raw const rlim);
    }
}

/// Entry point of a check binary.
pub fn main_with(checks: impl FnOnce(&str) -> Option<Check>) -> ExitCode {
    let args = parse_args();
    let Some(check) = checks(&args.id) else {
        eprintln!("unknown property {:?}", args.id);
        return ExitCode::from(2);
    };
    quiet_panics();

    if let Some(file) = &args.replay {
        return replay(&check, file);
    }
    if args.child {
        // 9 = RLIMIT_AS: an allocation explosion ends this process, not the machine.
        limit(9, 20 << 30);
        if let Some((p, c)) = args.only {
            // 0 = RLIMIT_CPU
            limit(0, 60);
            let part = &check.parts[p];
            let (_, ret) = big_stack(|| run_case(part, &mut Src::seeded(seed_of(args.seed, p), c), false));
            return ExitCode::from(u8::from(ret.is_err()));
        }
        return child(&check, &args);
    }
    parent(&check, &args)
}

fn big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

fn seed_of(seed: u64, part: usize) -> u64 {
    seed.wrapping_mul(1_000_003).wrapping_add(part as u64)
}

fn parent(check: &Check, args: &Args) -> ExitCode {
    let exe = std::env::current_exe().unwrap();
    let progress = std::env::temp_dir().join(format!("pbt-{}-{}", check.opts.id, std::process::id()));
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let base = |cmd: &mut Command| {
        cmd.arg(&args.id).arg("--child").args(["--tier", tier, "--seed", &args.seed.to_string()]);
    };
    let mut cmd = Command::new(&exe);
    base(&mut cmd);
    cmd.arg("--progress").arg(&progress);
    let status = cmd.status().expect("spawn child");
    let slots = fs::read(&progress).unwrap_or_default();
    let _ = fs::remove_file(&progress);
    match status.code() {
        Some(0) => return ExitCode::SUCCESS,
        Some(1) => return ExitCode::from(1),
        _ => {}
    }
    eprintln!("check process ended abnormally ({status}); re-running the cases in flight one by one");
    for slot in slots.chunks_exact(16) {
        let p = u64::from_le_bytes(slot[..8].try_into().unwrap());
        let c = u64::from_le_bytes(slot[8..].try_into().unwrap());
        if p == 0 {
            continue;
        }
        let p = p as usize - 1;
        let mut cmd = Command::new(&exe);
        base(&mut cmd);
        cmd.args(["--only", &format!("{p}:{c}")]);
        let st = cmd.status().expect("spawn child");
        if st.code() == Some(0) {
            continue;
        }
        let why = match (st.code(), st.signal()) {
            (Some(1), _) => "the case fails".to_owned(),
            (_, Some(24)) => "the case does not terminate (60 s of CPU time used)".to_owned(),
            (_, Some(s)) => format!("the case ends the process with signal {s} (stack overflow, abort or memory exhaustion)"),
            _ => format!("the case ends the process: {st}"),
        };
        let replay = write_replay(check, args.seed, p, c, None, "", &why);
        println!("{}: {}", check.opts.id, printable(&why));
        println!("VIOLATION property={} replay={}", check.opts.id, replay.display());
        return ExitCode::from(1);
    }
    eprintln!("the abnormal end did not reproduce: no verdict");
    ExitCode::from(2)
}

fn write_replay(
    check: &Check,
    seed: u64,
    part: usize,
    case: u64,
    choices: Option<&[u64]>,
    input: &str,
    msg: &str,
) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-{}-{seed}-{case}.json", check.opts.id, check.parts[part].name));
    let v = json!({
        "property": check.opts.id,
        "part": check.parts[part].name,
        "seed": seed,
        "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        "case": case,
        "choices": choices,
        "input": input,
        "failure": msg,
        "replay_with": format!("/verif/check.sh {} --replay <this file>", check.opts.id),
    });
    let _ = fs::write(&file, serde_json::to_string_pretty(&v).unwrap());
    file
}

fn replay(check: &Check, file: &Path) -> ExitCode {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).unwrap();
    let name = v["part"].as_str().unwrap();
    let (p, part) = check.parts.iter().enumerate().find(|(_, p)| p.name == name).expect("part");
    let mut src = match v["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|v| v.as_u64().unwrap()).collect()),
        None => Src::seeded(seed_of(v["seed"].as_u64().unwrap(), p), v["case"].as_u64().unwrap()),
    };
    let (case, ret) = big_stack(|| run_case(part, &mut src, true));
    println!("input:\n{}", printable(&case.shown.unwrap_or_default()));
    match ret {
        Ok(()) => {
            println!("passes");
            ExitCode::SUCCESS
        }
        Err(f) => {
            println!("fails: {}", printable(&f.msg));
            println!("VIOLATION property={} replay={}", check.opts.id, file.display());
            ExitCode::from(1)
        }
    }
}

const HANG: Duration = Duration::from_secs(150);

fn run_part(
    check: &Check,
    p: usize,
    n: u64,
    args: &Args,
    progress: Option<&fs::File>,
) -> (Stats, Option<(u64, Vec<u64>, Fail)>) {
    let part = &check.parts[p];
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(n);
    let failures = Mutex::new(Vec::<(u64, Vec<u64>, Fail)>::new());
    let stats = Mutex::new(Stats::default());
    let beat: Vec<AtomicU64> = (0..part.threads).map(|_| AtomicU64::new(0)).collect();
    let live = AtomicU64::new(part.threads as u64);
    let started = Instant::now();

    std::thread::scope(|s| {
        for t in 0..part.threads {
            let (next, stop_at, failures, stats, beat, live) = (&next, &stop_at, &failures, &stats, &beat, &live);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        beat[t].store(started.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        if let Some(f) = progress {
                            let mut slot = [0u8; 16];
                            slot[..8].copy_from_slice(&(p as u64 + 1).to_le_bytes());
                            slot[8..].copy_from_slice(&i.to_le_bytes());
                            let _ = f.write_at(&slot, t as u64 * 16);
                        }
                        let mut src = Src::seeded(seed_of(args.seed, p), i);
                        let want = i < 400 && i % 133 == 7 || n < 40 && i < 3;
                        let (case, ret) = run_case(part, &mut src, want);
                        local.evaluations += case.weight;
                        if case.nontrivial {
                            local.nontrivial += 1;
                            local.distinct.insert(case.key.unwrap_or_else(|| hash_choices(src.choices())));
                        }
                        for l in &case.labels {
                            *local.labels.entry(l).or_default() += 1;
                        }
                        for (l, c) in &case.counts {
                            *local.counts.entry(l).or_default() += c;
                        }
                        for k in &case.known {
                            *local.known.entry(k).or_default() += 1;
                        }
                        if let Some(s) = case.shown {
                            local.samples.insert(i, s);
                        }
                        if let Err(f) = ret {
                            stop_at.fetch_min(i, Ordering::Relaxed);
                            failures.lock().unwrap().push((i, src.choices().to_vec(), f));
                        }
                    }
                    beat[t].store(0, Ordering::Relaxed);
                    if let Some(f) = progress {
                        let _ = f.write_at(&[0; 16], t as u64 * 16);
                    }
                    stats.lock().unwrap().merge(local);
                    live.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // watchdog
        while live.load(Ordering::Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            let now = started.elapsed().as_millis() as u64;
            for b in &beat {
                let v = b.load(Ordering::Relaxed);
                if v != 0 && now.saturating_sub(v) > HANG.as_millis() as u64 {
                    eprintln!("{}: a case of {} makes no progress", check.opts.id, part.name);
                    std::process::exit(3);
                }
            }
        }
    });

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.0);
    (stats.into_inner().unwrap(), failures.into_iter().next())
}

fn shrink(part: &Part, mut best: Vec<u64>, mut fail: Fail) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let mut evals = 0u32;
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, fail: &mut Fail| -> bool {
        if evals > 20_000 || start.elapsed() > Duration::from_secs(25) {
            return false;
        }
        evals += 1;
        let mut src = Src::replay(cand);
        let (_, ret) = run_case(part, &mut src, false);
        if let Err(f) = ret {
            let used = src.choices().to_vec();
            let smaller = used.len() < best.len() || used.len() == best.len() && used < *best;
            if smaller {
                *best = used;
                *fail = f;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = best.len().next_power_of_two();
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !try_one(cand, &mut best, &mut fail) {
                    i += size.div_ceil(2);
                }
            }
            size /= 2;
        }
        // delete with a preceding length decremented
        for i in 0..best.len() {
            for w in 1..=8usize {
                if i >= best.len() || best[i] == 0 || i + w >= best.len() {
                    break;
                }
                let mut cand = best.clone();
                cand[i] -= 1;
                cand.drain(i + 1..=i + w);
                try_one(cand, &mut best, &mut fail);
            }
        }
        // zero blocks
        for size in [32usize, 8, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].fill(0);
                    try_one(cand, &mut best, &mut fail);
                }
                i += size;
            }
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                if !try_one(cand, &mut best, &mut fail) {
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        if i >= cand.len() {
                            break;
                        }
                        cand[i] = mid;
                        if try_one(cand, &mut best, &mut fail) { hi = mid } else { lo = mid }
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > Duration::from_secs(25) {
            return (best, fail);
        }
    }
}

fn child(check: &Check, args: &Args) -> ExitCode {
    let start = Instant::now();
    let id = check.opts.id;
    let progress = args.progress.as_ref().map(|p| fs::File::create(p).expect("progress file"));
    let mut total = Stats::default();
    let mut parts = serde_json::Map::new();
    let mut samples = Vec::<Value>::new();
    let mut violation = None;
    let mut findings = BTreeMap::<&str, String>::new();

    for probe in &check.probes {
        let res = no_panic(&probe.f).unwrap_or_else(|e| Err(format!("panicked: {e}")));
        if let Err(msg) = res {
            if known(probe.id).is_some() {
                findings.insert(probe.id, msg);
            } else {
                let dir = root().join("replays");
                let _ = fs::create_dir_all(&dir);
                let file = dir.join(format!("{id}-{}.json", probe.id));
                let _ = fs::write(&file, serde_json::to_string_pretty(&json!({"property": id, "probe": probe.id, "failure": msg})).unwrap());
                println!("{id}: fixed input {} fails: {}", probe.id, printable(&msg));
                violation.get_or_insert(file);
            }
        }
        total.evaluations += 1;
    }

    for (p, part) in check.parts.iter().enumerate() {
        let t0 = Instant::now();
        let n = if args.tier == Tier::Quick { part.quick } else { part.thorough };
        let n = ((n as f64 * args.scale) as u64).max(1);
        let (mut stats, failure) = run_part(check, p, n, args, progress.as_ref());
        for k in stats.known.keys() {
            findings.entry(k).or_default();
        }
        parts.insert(
            part.name.to_owned(),
            json!({
                "cases": n,
                "evaluations": stats.evaluations,
                "nontrivial": stats.nontrivial,
                "distinct_nontrivial": stats.distinct.len(),
                "labels": stats.labels,
                "counts": stats.counts,
                "known_findings_hit": stats.known,
                "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
            }),
        );
        for (i, s) in std::mem::take(&mut stats.samples).into_iter().take(4) {
            let s: String = s.chars().take(1500).collect();
            samples.push(json!({"part": part.name, "case": i, "input": s}));
        }
        total.merge(stats);
        if let Some((i, choices, fail)) = failure {
            println!("{id}/{}: case {i} fails: {}", part.name, printable(&fail.msg));
            let first = fail.msg.clone();
            let (choices, fail) = big_stack(|| shrink(part, choices, fail));
            let mut src = Src::replay(choices);
            let (case, ret) = big_stack(|| run_case(part, &mut src, true));
            let fail = ret.err().unwrap_or(fail);
            let input = case.shown.unwrap_or_default();
            println!("shrunk input:\n{}\nfailure: {}", printable(&input), printable(&fail.msg));
            let _ = first;
            let file = write_replay(check, args.seed, p, i, Some(src.choices()), &input, &fail.msg);
            violation = Some(file);
            break;
        }
    }

    for (k, msg) in &findings {
        let what = known(k).unwrap_or("?");
        let msg: String = msg.lines().next().unwrap_or("").chars().take(200).collect();
        if msg.is_empty() {
            println!("KNOWN-FINDING: property={id} {k}: {what}");
        } else {
            println!("KNOWN-FINDING: property={id} {k}: {what} [observed: {}]", printable(&msg).replace('\n', " "));
        }
    }

    if samples.is_empty() {
        samples.push(json!("no sample was rendered"));
    }
    let evidence = json!({
        "property": id,
        "tier": if args.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": total.distinct.len(),
            "rule": check.opts.rule,
            "samples": samples,
            "parts": parts,
            "known_findings": findings.keys().collect::<Vec<_>>(),
        },
        "assumptions": check.opts.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": u8::from(violation.is_some()),
    });
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).expect("write evidence");

    if let Some(file) = violation {
        println!("VIOLATION property={id} replay={}", file.display());
        return ExitCode::from(1);
    }
    println!(
        "{id}: held on {} evaluations ({} distinct non-trivial) in {:.1}s",
        total.evaluations,
        total.distinct.len(),
        start.elapsed().as_secs_f32()
    );
    ExitCode::SUCCESS
}

/// Text without control characters that could garble the output of the check.
fn printable(text: &str) -> String {
    text.chars().fold(String::with_capacity(text.len()), |mut s, c| {
        if c.is_control() && c != '\n' { s.extend(c.escape_default()) } else { s.push(c) }
        s
    })
}
