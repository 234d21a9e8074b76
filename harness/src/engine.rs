//! Runner: shards groups over threads, catches panics, shrinks, writes replays and evidence.
use crate::src::{shrink, splitmix, Rng, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const SLOT: usize = 8 << 20;

pub type CheckResult = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    pub evals: u64,
    pub thread: usize,
}
impl Ctx {
    pub fn nt(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push(t);
    }
}

pub struct RunOut {
    pub result: CheckResult,
    pub hash: u64,
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    pub evals: u64,
    pub desc: Option<String>,
}

pub trait Group: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn count(&self, tier: Tier) -> u64;
    fn run(&self, src: &mut Src, thread: usize, want_desc: bool, before: &mut dyn FnMut(&[u64])) -> RunOut;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct G<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(&mut Src) -> C,
    pub check: fn(&C, &mut Ctx) -> CheckResult,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        crate::alloc::disarm();
        if QUIET.with(|q| *q.borrow()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        } else {
            old(info);
        }
    }));
}

/// Run a closure, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = (self.0 ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        }
    }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

impl<C: Debug + Hash> Group for G<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn count(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn run(&self, src: &mut Src, thread: usize, want_desc: bool, before: &mut dyn FnMut(&[u64])) -> RunOut {
        let case = (self.gen)(src);
        before(&src.rec);
        let mut ctx = Ctx { thread, ..Ctx::default() };
        let result = match no_panic(|| (self.check)(&case, &mut ctx)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        let hash = hash_of(&(self.name, &case));
        RunOut {
            result,
            hash,
            nontrivial: ctx.nontrivial,
            tags: ctx.tags,
            evals: ctx.evals,
            desc: want_desc.then(|| format!("{case:?}")),
        }
    }
}

/// A listed finding: a fixed input with a function telling whether it still fails.
pub struct Known {
    pub key: &'static str,
    pub still_fails: fn() -> bool,
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub groups: Vec<Box<dyn Group>>,
    pub known: Vec<Known>,
    pub needs_cli: bool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || c == '\u{2028}' || c == '\u{2029}' => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

#[derive(Default)]
struct GroupStats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    planned: u64,
}

pub struct Failure {
    pub group: usize,
    pub choices: Vec<u64>,
    pub msg: String,
    pub desc: String,
}

pub struct Env {
    pub verif: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    pub scratch: PathBuf,
    pub budget: Duration,
    pub only_group: Option<String>,
    pub scale: f64,
}

static START: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];

struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn open(path: &Path) -> Option<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len((SLOT * THREADS) as u64).ok()?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * THREADS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        (p != libc::MAP_FAILED).then_some(Slots { base: p.cast() })
    }
    fn put(&self, t: usize, group: usize, choices: &[u64]) {
        let n = choices.len().min((SLOT - 24) / 8);
        unsafe {
            let b = self.base.add(t * SLOT).cast::<u64>();
            b.write(0);
            b.add(1).write(group as u64);
            std::ptr::copy_nonoverlapping(choices.as_ptr(), b.add(3), n);
            b.add(2).write(n as u64);
            b.write(1);
        }
    }
    fn clear(&self, t: usize) {
        unsafe { self.base.add(t * SLOT).cast::<u64>().write(0) }
    }
    fn get(&self, t: usize) -> Option<(usize, Vec<u64>)> {
        unsafe {
            let b = self.base.add(t * SLOT).cast::<u64>();
            if b.read() != 1 {
                return None;
            }
            let n = b.add(2).read() as usize;
            Some((b.add(1).read() as usize, std::slice::from_raw_parts(b.add(3), n.min((SLOT - 24) / 8)).to_vec()))
        }
    }
}

const CPU_LIMIT_S: u64 = 40;

fn watchdog(tids: &Mutex<Vec<(usize, libc::pthread_t)>>, done: &AtomicBool) {
    let mut last: Vec<(u64, f64)> = vec![(0, 0.0); THREADS];
    while !done.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(100));
        // A thread leaves the list (under the lock) before it ends, so every id here is live.
        let v = tids.lock().unwrap();
        for &(i, t) in v.iter() {
            let seq = START[i].load(Ordering::Relaxed);
            let mut clk: libc::clockid_t = 0;
            let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe {
                if libc::pthread_getcpuclockid(t, &mut clk) != 0 || libc::clock_gettime(clk, &mut ts) != 0 {
                    continue;
                }
            }
            let cpu = ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9;
            if last[i].0 != seq {
                last[i] = (seq, cpu);
            } else if seq != 0 && cpu - last[i].1 > CPU_LIMIT_S as f64 {
                eprintln!("watchdog: one case used more than {CPU_LIMIT_S} s of CPU time on thread {i}");
                unsafe { libc::abort() };
            }
        }
    }
}

fn group_seed(env: &Env, prop: &str, group: &str, shard: u64) -> u64 {
    hash_of(&(env.seed, prop, group, shard, 0x5eed_u64))
}

pub fn run_worker(prop: &Property, env: &Env) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let slots = Slots::open(&env.scratch.join("slots"));
    let groups: Vec<usize> = (0..prop.groups.len())
        .filter(|&i| env.only_group.as_deref().is_none_or(|g| g == prop.groups[i].name()))
        .collect();
    const SHARDS: u64 = 16;
    let mut jobs: Vec<(usize, u64, u64)> = Vec::new();
    let stats: Vec<Mutex<GroupStats>> = prop.groups.iter().map(|_| Mutex::new(GroupStats::default())).collect();
    for s in 0..SHARDS {
        for &g in &groups {
            let total = ((prop.groups[g].count(env.tier) as f64) * env.scale).ceil() as u64;
            stats[g].lock().unwrap().planned = total;
            let n = total / SHARDS + u64::from(s < total % SHARDS);
            if n > 0 {
                jobs.push((g, s, n));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let failed: Vec<AtomicBool> = prop.groups.iter().map(|_| AtomicBool::new(false)).collect();
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let capped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let tids: Mutex<Vec<(usize, libc::pthread_t)>> = Mutex::new(vec![]);
    let deadline = t0 + env.budget;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..THREADS {
            let (next, failed, failures, capped, stats, jobs, slots, tids) =
                (&next, &failed, &failures, &capped, &stats, &jobs, &slots, &tids);
            let b = std::thread::Builder::new().stack_size(8 << 20).name(format!("w{t}"));
            hs.push(
                b.spawn_scoped(sc, move || {
                    tids.lock().unwrap().push((t, unsafe { libc::pthread_self() }));
                    loop {
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        let Some(&(g, shard, n)) = jobs.get(j) else { break };
                        let group = &prop.groups[g];
                        let mut seed = group_seed(env, prop.id, group.name(), shard);
                        let mut local = GroupStats::default();
                        for i in 0..n {
                            if failed[g].load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let mut src = Src::random(Rng::new(splitmix(&mut seed)));
                            START[t].fetch_add(1, Ordering::Relaxed);
                            let want = shard == 0 && (i == 3 || i == 11 || i == 29);
                            let out = group.run(&mut src, t, want, &mut |c| {
                                if let Some(s) = slots {
                                    s.put(t, g, c)
                                }
                            });
                            local.evaluations += 1 + out.evals;
                            if out.nontrivial {
                                local.nontrivial.insert(out.hash);
                            }
                            for tag in out.tags {
                                *local.tags.entry(tag).or_default() += 1;
                            }
                            if let (true, Some(d)) = (out.nontrivial, out.desc) {
                                local.samples.push(clip(&d, 700));
                            }
                            if let Err(msg) = out.result {
                                if msg.starts_with("scratch:") {
                                    // The machine, not the code under test: no verdict.
                                    eprintln!("{msg}");
                                    std::process::exit(2);
                                }
                                if failed[g].swap(true, Ordering::SeqCst) {
                                    break;
                                }
                                START[t].store(0, Ordering::Relaxed);
                                let f = shrink_failure(group.as_ref(), g, src.rec.clone(), msg, t, slots.as_ref());
                                failures.lock().unwrap().push(f);
                                break;
                            }
                        }
                        if let Some(s) = slots {
                            s.clear(t)
                        }
                        let mut st = stats[g].lock().unwrap();
                        st.evaluations += local.evaluations;
                        st.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.tags {
                            *st.tags.entry(k).or_default() += v;
                        }
                        st.samples.extend(local.samples);
                    }
                    START[t].store(0, Ordering::Relaxed);
                    tids.lock().unwrap().retain(|x| x.0 != t);
                })
                .expect("spawn"),
            );
        }
        let (done, tids) = (&done, &tids);
        sc.spawn(move || watchdog(tids, done));
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.group);
    let mut lines = vec![];
    for f in &failures {
        lines.push(write_replay(prop, env, f));
    }
    lines.extend(known_findings(prop, env));
    write_evidence(prop, env, &stats, t0, lines.iter().filter(|l| l.starts_with("VIOLATION")).count(), capped.load(Ordering::Relaxed));
    let mut evals = 0;
    let mut nt = 0;
    for &g in &groups {
        let st = stats[g].lock().unwrap();
        evals += st.evaluations;
        nt += st.nontrivial.len();
        eprintln!(
            "  {:<28} {:>8} cases {:>8} distinct non-trivial {}",
            prop.groups[g].name(),
            st.evaluations,
            st.nontrivial.len(),
            st.tags.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s", prop.id, evals, nt, t0.elapsed().as_secs_f64());
    for f in &failures {
        println!("FAILED {}/{}: {}", prop.id, prop.groups[f.group].name(), clip(&f.msg, 3000));
        println!("  minimal case: {}", clip(&f.desc, 3000));
    }
    let mut bad = false;
    for l in &lines {
        println!("{l}");
        bad |= l.starts_with("VIOLATION");
    }
    i32::from(bad)
}

fn shrink_failure(group: &dyn Group, g: usize, rec: Vec<u64>, msg: String, t: usize, slots: Option<&Slots>) -> Failure {
    let until = Instant::now() + Duration::from_secs(25);
    let best = shrink(rec, 6000, |cand| {
        if Instant::now() > until {
            return None;
        }
        START[t].fetch_add(1, Ordering::Relaxed);
        let mut s = Src::replay(cand.to_vec());
        let out = group.run(&mut s, t, false, &mut |c| {
            if let Some(sl) = slots {
                sl.put(t, g, c)
            }
        });
        out.result.is_err().then(|| s.rec.clone())
    });
    let mut s = Src::replay(best.clone());
    let out = group.run(&mut s, t, true, &mut |_| {});
    Failure {
        group: g,
        choices: best,
        msg: out.result.err().unwrap_or(format!("(not reproduced after shrinking) {msg}")),
        desc: out.desc.unwrap_or_default(),
    }
}

fn write_replay(prop: &Property, env: &Env, f: &Failure) -> String {
    let dir = env.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let gname = prop.groups[f.group].name();
    let path = dir.join(format!("{}-{}-{:016x}.json", prop.id, gname, hash_of(&f.choices)));
    let body = format!(
        "{{\"property\":{},\"group\":{},\"seed\":{},\"message\":{},\"case\":{},\n\"choices\":[{}]}}\n",
        jstr(prop.id),
        jstr(gname),
        env.seed,
        jstr(&clip(&f.msg, 8000)),
        jstr(&clip(&f.desc, 60000)),
        f.choices.iter().map(u64::to_string).collect::<Vec<_>>().join(",")
    );
    let _ = std::fs::write(&path, body);
    format!("VIOLATION property={} replay={}", prop.id, path.display())
}

fn known_findings(prop: &Property, env: &Env) -> Vec<String> {
    let mut out = vec![];
    let text = std::fs::read_to_string(env.verif.join("known_findings.txt")).unwrap_or_default();
    for k in &prop.known {
        let tag = format!("known: property={} finding={} ", prop.id, k.key);
        let listed = text.lines().find_map(|l| l.strip_prefix(&tag));
        let fails = no_panic(k.still_fails).unwrap_or(true);
        match (listed, fails) {
            (Some(what), true) => out.push(format!("KNOWN-FINDING: property={} {}", prop.id, what)),
            (None, true) => {
                let dir = env.verif.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{}.json", prop.id, k.key));
                let _ = std::fs::write(&p, format!("{{\"property\":{},\"known\":{}}}\n", jstr(prop.id), jstr(k.key)));
                out.push(format!("VIOLATION property={} replay={}", prop.id, p.display()));
            }
            (_, false) => {}
        }
    }
    out
}

fn write_evidence(prop: &Property, env: &Env, stats: &[Mutex<GroupStats>], t0: Instant, violations: usize, capped: bool) {
    let mut evals = 0u64;
    let mut nt = 0u64;
    let mut samples = vec![];
    let mut gs = vec![];
    let mut rules = vec![];
    for (g, st) in prop.groups.iter().zip(stats) {
        let st = st.lock().unwrap();
        if st.planned == 0 {
            continue;
        }
        evals += st.evaluations;
        nt += st.nontrivial.len() as u64;
        for s in st.samples.iter().take(2) {
            samples.push(format!("{{\"group\":{},\"case\":{}}}", jstr(g.name()), jstr(s)));
        }
        rules.push(format!("{}: {}", g.name(), g.rule()));
        gs.push(format!(
            "{}:{{\"planned\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"classes\":{{{}}}}}",
            jstr(g.name()),
            st.planned,
            st.evaluations,
            st.nontrivial.len(),
            st.tags.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")
        ));
    }
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\n\"rule\":{},\n\"samples\":[{}],\n\"groups\":{{{}}},\"time_capped\":{}}},\n\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(prop.id),
        if env.tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        env.seed,
        jstr(prop.level),
        evals,
        nt,
        jstr(&format!("Cases are generated from a seeded choice sequence, one generator per group; distinct = distinct case values. Non-trivial, per group: {}", rules.join(" | "))),
        samples.join(",\n"),
        gs.join(",\n"),
        capped,
        prop.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", prop.id));
    let tmp = dir.join(format!(".{}.tmp", prop.id));
    if std::fs::write(&tmp, body).is_ok() {
        let _ = std::fs::rename(&tmp, &p);
    }
}

/// Parent process: run the worker, and turn a crash of the worker into a violation.
pub fn supervise(prop: &Property, env: &Env, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    install_hook();
    let exe = std::env::current_exe().expect("current_exe");
    let t0 = Instant::now();
    let st = std::process::Command::new(&exe)
        .args(args)
        .env("VH_WORKER", "1")
        .env("VH_SCRATCH", &env.scratch)
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot run worker: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        if c == 0 || c == 1 {
            return c;
        }
    }
    eprintln!("worker ended abnormally: {st}; looking for the case");
    if st.signal() == Some(libc::SIGKILL) {
        // Ended from outside (out of memory on the machine): no verdict.
        return 2;
    }
    let Some(slots) = Slots::open(&env.scratch.join("slots")) else { return 2 };
    let crashes = |g: usize, c: &[u64]| -> bool {
        let f = env.scratch.join("cand");
        let body: Vec<u8> = c.iter().flat_map(|x| x.to_le_bytes()).collect();
        if std::fs::write(&f, body).is_err() {
            return false;
        }
        let st = std::process::Command::new(&exe)
            .args([prop.id, "--raw", prop.groups[g].name()])
            .arg(&f)
            .env("VH_WORKER", "1")
            .env("VH_SCRATCH", &env.scratch)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        st.is_ok_and(|s| s.signal().is_some_and(|x| x != libc::SIGKILL))
    };
    for t in 0..THREADS {
        let Some((g, c)) = slots.get(t) else { continue };
        if g >= prop.groups.len() || !crashes(g, &c) {
            continue;
        }
        let until = Instant::now() + Duration::from_secs(30);
        let best = shrink(c, 600, |cand| (Instant::now() < until && crashes(g, cand)).then(|| cand.to_vec()));
        // Describe the case without running the check.
        let f = Failure {
            group: g,
            desc: String::new(),
            msg: "the process is ended by a signal (stack overflow, unbounded allocation or endless computation)".into(),
            choices: best,
        };
        let line = write_replay(prop, env, &f);
        let stats: Vec<Mutex<GroupStats>> = prop
            .groups
            .iter()
            .enumerate()
            .map(|(i, _)| Mutex::new(GroupStats { planned: 1, evaluations: u64::from(i == g), ..Default::default() }))
            .collect();
        write_evidence(prop, env, &stats, t0, 1, false);
        println!("FAILED {}/{}: {}", prop.id, prop.groups[g].name(), f.msg);
        println!("{line}");
        return 1;
    }
    eprintln!("the crash did not reproduce");
    2
}

/// Run one choice sequence once; exit 1 when it fails.
pub fn run_raw(prop: &Property, group: &str, choices: Vec<u64>, verbose: bool) -> i32 {
    install_hook();
    let Some(g) = prop.groups.iter().find(|g| g.name() == group) else {
        eprintln!("no such group");
        return 2;
    };
    unsafe {
        let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S + 5, rlim_max: CPU_LIMIT_S + 10 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                let mut src = Src::replay(choices);
                let out = g.run(&mut src, 0, verbose, &mut |_| {});
                if verbose {
                    println!("case: {}", out.desc.unwrap_or_default());
                    match &out.result {
                        Ok(()) => println!("holds"),
                        Err(e) => println!("FAILS: {e}"),
                    }
                }
                i32::from(out.result.is_err())
            })
            .expect("spawn")
            .join()
            .unwrap_or(2)
    })
}
