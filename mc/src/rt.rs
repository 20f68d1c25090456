//! Harness runtime: exhaustive case execution, counting, replay, evidence.
use rustc_hash::FxHashSet;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Statistics gathered by one worker; merged into the context at the end
#[derive(Default)]
pub struct Tally {
    pub states: FxHashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
}

impl Tally {
    /// Records a state of the reference model (hashed)
    pub fn state<H: Hash>(&mut self, h: H) {
        let mut s = rustc_hash::FxHasher::default();
        h.hash(&mut s);
        self.states.insert(s.finish());
    }
    /// Records `n` compared transitions (operations / verdicts compared)
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(c) = self.outcomes.get_mut(k) {
            *c += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
}

struct Viol {
    count: u64,
    group: String,
    case: String,
    msg: String,
}

pub struct Known {
    pub property: String,
    pub group: String,
    pub case: String,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: i64,
    pub root: String,
    replay: Option<(String, String)>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<usize, u64>>,
    total: Mutex<Tally>,
    samples: Mutex<Vec<Value>>,
    viol: Mutex<BTreeMap<String, Viol>>,
    nviol: AtomicU64,
    start: Instant,
    groups: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    bounds: Mutex<BTreeMap<String, Value>>,
}

static SLOTS: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());
static QUIET: AtomicBool = AtomicBool::new(true);
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if !QUIET.load(Ordering::Relaxed) {
            default(info);
        }
    }));
}

/// Runs a closure, mapping a panic to an error message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

impl Ctx {
    pub fn new(prop: &str, root: &str, thorough: bool, seed: i64, replay: Option<(String, String)>) -> Self {
        let mut known = vec![];
        if let Ok(txt) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for line in txt.lines() {
                // known: property=P01 || group || case || description
                if let Some(rest) = line.strip_prefix("known: property=") {
                    let parts: Vec<&str> = rest.split(" || ").collect();
                    if parts.len() == 4 && parts[0] == prop {
                        known.push(Known {
                            property: parts[0].into(),
                            group: parts[1].into(),
                            case: parts[2].into(),
                            what: parts[3].into(),
                        });
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            root: root.into(),
            replay,
            known,
            known_hit: Mutex::default(),
            total: Mutex::default(),
            samples: Mutex::default(),
            viol: Mutex::default(),
            nviol: AtomicU64::new(0),
            start: Instant::now(),
            groups: Mutex::default(),
            assumptions: Mutex::default(),
            bounds: Mutex::default(),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn bound(&self, k: &str, v: impl Into<Value>) {
        self.bounds.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.into());
    }

    fn record(&self, group: &str, case: &str, msg: &str) {
        // a finding identified by a history pattern, which the case recognised and named
        let pattern = msg.strip_prefix("[known:").and_then(|m| m.split_once(']')).map(|m| format!("pattern:{}", m.0));
        for (i, k) in self.known.iter().enumerate() {
            if (k.group == group && k.case == case) || pattern.as_ref() == Some(&k.case) {
                *self.known_hit.lock().unwrap().entry(i).or_default() += 1;
                return;
            }
        }
        self.nviol.fetch_add(1, Ordering::Relaxed);
        // violations are grouped by (group, message without digits) to keep the report readable
        let norm: String = msg.chars().take(160).filter(|c| !c.is_ascii_digit()).collect();
        let mut v = self.viol.lock().unwrap();
        let e = v.entry(format!("{group}|{norm}")).or_insert_with(|| Viol {
            count: 0,
            group: group.into(),
            case: case.into(),
            msg: msg.into(),
        });
        e.count += 1;
        // prefer the smallest case as the witness
        if case.len() < e.case.len() {
            e.case = case.into();
            e.msg = msg.into();
        }
    }

    pub fn sample(&self, group: &str, v: String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 60 {
            s.push(json!({"group": group, "case": v}));
        }
    }

    /// Runs every case on all cores. A returned error or a panic is a violation.
    pub fn run<C: Debug + Sync>(&self, group: &str, cases: &[C], f: impl Fn(&mut Tally, &C) -> Result<(), String> + Sync) {
        self.run_idx(group, cases.len(), |i| &cases[i], |t, c| f(t, c));
    }

    /// As `run`, but with cases made from an index
    pub fn run_idx<C: Debug>(
        &self,
        group: &str,
        n: usize,
        make: impl Fn(usize) -> C + Sync,
        f: impl Fn(&mut Tally, &C) -> Result<(), String> + Sync,
    ) {
        if let Some((g, _)) = &self.replay {
            if g != group {
                return;
            }
        }
        *self.groups.lock().unwrap().entry(group.into()).or_default() += n as u64;
        if n > 0 && self.replay.is_none() {
            self.sample(group, format!("{:?}", make(0)));
            self.sample(group, format!("{:?}", make(n / 2)));
        }
        let next = AtomicUsize::new(0);
        let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
        let viol_limit = self.nviol.load(Ordering::Relaxed) + 3000;
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let done = &done;
        let chunk = (n / (nthreads * 64)).clamp(1, 256);
        {
            let mut s = SLOTS.lock().unwrap();
            s.clear();
            s.resize(nthreads, None);
        }
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..nthreads {
                let next = &next;
                let f = &f;
                let make = &make;
                let stop = &stop;
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                hs.push(builder.spawn_scoped(sc, move || {
                    let mut t = Tally::default();
                    loop {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            let c = make(i);
                            if let Some((_, lab)) = &self.replay {
                                if format!("{c:?}") != *lab {
                                    continue;
                                }
                            }
                            SLOTS.lock().unwrap()[w] = Some((Instant::now(), String::new()));
                            // the label is only computed when it is needed by the watchdog
                            let res = watched(w, || format!("{c:?}"), || catch_unwind(AssertUnwindSafe(|| f(&mut t, &c))));
                            SLOTS.lock().unwrap()[w] = None;
                            t.traces += 1;
                            match res {
                                Ok(Ok(())) => (),
                                Ok(Err(m)) => self.record(group, &format!("{c:?}"), &m),
                                Err(_) => {
                                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                                    self.record(group, &format!("{c:?}"), &format!("panic: {m}"));
                                }
                            }
                            if self.nviol.load(Ordering::Relaxed) > viol_limit {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let mut tot = self.total.lock().unwrap();
                    tot.transitions += t.transitions;
                    tot.traces += t.traces;
                    tot.states.extend(t.states);
                    for (k, v) in t.outcomes {
                        *tot.outcomes.entry(format!("{group}: {k}")).or_default() += v;
                    }
                }).unwrap());
            }
            // watchdog
            let wd = sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let hung = {
                        let s = SLOTS.lock().unwrap();
                        s.iter().position(|x| matches!(x, Some((t0, _)) if t0.elapsed().as_secs() > 90))
                    };
                    if let Some(w) = hung {
                        let lab = LABELS.lock().unwrap().get(&w).map(|p| {
                            // SAFETY: the closure lives on the stack of the hung worker
                            unsafe { (*p.0)() }
                        });
                        self.record(group, &lab.unwrap_or_default(), "case does not terminate within 90s");
                        let rc = self.finish();
                        std::process::exit(rc);
                    }
                }
            });
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, Ordering::Relaxed);
            wd.join().unwrap();
        });
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("{:8.2}s after {group} ({n} cases)", self.start.elapsed().as_secs_f64());
        }
    }

    /// Writes evidence and reports; returns the exit code
    pub fn finish(&self) -> i32 {
        let tot = self.total.lock().unwrap();
        let viol = self.viol.lock().unwrap();
        let hits = self.known_hit.lock().unwrap();
        for (i, k) in self.known.iter().enumerate() {
            if hits.contains_key(&i) {
                println!("KNOWN-FINDING: property={} {} [{} {}]", k.property, k.what, k.group, k.case);
            }
        }
        let mut rc = 0;
        std::fs::create_dir_all(format!("{}/replay", self.root)).ok();
        for (i, v) in viol.values().enumerate() {
            rc = 1;
            if i >= 12 && std::env::var("MC_ALL").is_err() {
                break;
            }
            let path = format!("{}/replay/{}-{}-{}.json", self.root, self.prop, bin_name(), i);
            let j = json!({"property": self.prop, "group": v.group, "case": v.case, "message": v.msg, "count": v.count, "bin": bin_name(), "thorough": self.thorough});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
            let short: String = v.msg.chars().take(600).collect();
            println!("  {} [{}] {} ({} cases)", v.group, v.case.chars().take(300).collect::<String>(), short, v.count);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        let wall = self.start.elapsed().as_secs_f64();
        let groups = self.groups.lock().unwrap().clone();
        let mut ev = json!({
            "property": self.prop,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": tot.states.len(),
                "transitions": tot.transitions,
                "traces_validated_against_impl": tot.traces,
                "samples": *self.samples.lock().unwrap(),
                "cases_per_group": groups,
                "distinct_outcomes": tot.outcomes,
                "bounds": *self.bounds.lock().unwrap(),
                "exhaustive": viol.is_empty(),
                "rule": "every case of the enumerated space is executed on the real code and each observation compared with the reference model; states = distinct reference-model states, transitions = compared observations/operations, traces = executions of the real code",
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall,
            "violations": self.nviol.load(Ordering::Relaxed),
        });
        if std::env::var("MC_MERGE").is_ok() {
            if let Ok(txt) = std::fs::read_to_string(format!("{}/evidence/{}.json", self.root, self.prop)) {
                merge(&mut ev, serde_json::from_str(&txt).unwrap_or(Value::Null));
            }
        }
        if self.replay.is_none() {
            std::fs::create_dir_all(format!("{}/evidence", self.root)).ok();
            std::fs::write(
                format!("{}/evidence/{}.json", self.root, self.prop),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("evidence must be writable");
        }
        println!(
            "{} {}: states={} transitions={} traces={} outcomes={} violations={} wall={:.1}s",
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            tot.states.len(),
            tot.transitions,
            tot.traces,
            tot.outcomes.len(),
            self.nviol.load(Ordering::Relaxed),
            wall
        );
        if self.replay.is_none() && tot.traces == 0 {
            println!("no case was executed");
            return 2;
        }
        rc
    }
}

/// Shared memory of forked workers: next index, stop flag and for each worker the case it executes
#[cfg(feature = "fork")]
struct Shared {
    p: *mut AtomicU64,
}

#[cfg(feature = "fork")]
impl Shared {
    const WORDS: usize = 2 + 2 * 64;
    fn new() -> Self {
        // SAFETY: anonymous shared mapping of zeros
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                Self::WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Self { p: p.cast() }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < Self::WORDS);
        // SAFETY: in bounds of the mapping
        unsafe { &*self.p.add(i) }
    }
}

#[cfg(feature = "fork")]
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p.cast(), Self::WORDS * 8) };
    }
}

#[cfg(feature = "fork")]
fn millis() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

#[cfg(feature = "fork")]
impl Ctx {
    /// As `run_idx`, but the cases are executed by forked single-threaded processes: a case that
    /// kills or hangs its process is a violation as any other one
    pub fn run_forked<C: Debug>(
        &self,
        group: &str,
        n: usize,
        make: impl Fn(usize) -> C,
        f: impl Fn(&mut Tally, &C) -> Result<(), String>,
    ) {
        use std::io::Write;
        use std::os::fd::FromRawFd;
        if let Some((g, _)) = &self.replay {
            if g != group {
                return;
            }
        }
        *self.groups.lock().unwrap().entry(group.into()).or_default() += n as u64;
        if n > 0 && self.replay.is_none() {
            self.sample(group, format!("{:?}", make(0)));
            self.sample(group, format!("{:?}", make(n / 2)));
        }
        let k = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1)).min(60);
        let chunk = (n / (k * 64)).clamp(1, 64);
        let sh = Shared::new();
        let viol_limit = self.nviol.load(Ordering::Relaxed) + 3000;
        let child = |w: usize, fd: i32| -> ! {
            unsafe {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
            }
            let mut out = std::io::BufWriter::new(unsafe { std::fs::File::from_raw_fd(fd) });
            let mut msg = |kind: u8, b: &[u8]| {
                let _ = out.write_all(&[kind]);
                let _ = out.write_all(&(b.len() as u64).to_le_bytes());
                let _ = out.write_all(b);
                let _ = out.flush();
            };
            let mut t = Tally::default();
            'outer: loop {
                let lo = sh.at(0).fetch_add(chunk as u64, Ordering::SeqCst) as usize;
                if lo >= n {
                    break;
                }
                for i in lo..(lo + chunk).min(n) {
                    if sh.at(1).load(Ordering::Relaxed) != 0 {
                        break 'outer;
                    }
                    let c = make(i);
                    if let Some((_, lab)) = &self.replay {
                        if format!("{c:?}") != *lab {
                            continue;
                        }
                    }
                    sh.at(3 + 2 * w).store(millis(), Ordering::SeqCst);
                    sh.at(2 + 2 * w).store(i as u64 + 1, Ordering::SeqCst);
                    let res = catch_unwind(AssertUnwindSafe(|| f(&mut t, &c)));
                    sh.at(2 + 2 * w).store(0, Ordering::SeqCst);
                    t.traces += 1;
                    let m = match res {
                        Ok(Ok(())) => continue,
                        Ok(Err(m)) => m,
                        Err(_) => format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())),
                    };
                    msg(b'V', json!([format!("{c:?}"), m]).to_string().as_bytes());
                }
                // the rest of a chunk that an earlier process of this slot left behind is re-run by nobody
            }
            let st: Vec<u8> = t.states.iter().flat_map(|x| x.to_le_bytes()).collect();
            msg(b'S', &st);
            msg(b'T', json!([t.transitions, t.traces, t.outcomes]).to_string().as_bytes());
            unsafe { libc::_exit(0) }
        };
        struct Worker {
            pid: i32,
            fd: i32,
            buf: Vec<u8>,
            killed: bool,
        }
        let spawn = |w: usize| -> Worker {
            let mut p = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
                let _ = std::io::stdout().flush();
                let pid = libc::fork();
                assert!(pid >= 0, "fork failed");
                if pid == 0 {
                    libc::close(p[0]);
                    child(w, p[1]);
                }
                libc::close(p[1]);
                Worker { pid, fd: p[0], buf: vec![], killed: false }
            }
        };
        let mut ws: Vec<Option<Worker>> = (0..k).map(|w| Some(spawn(w))).collect();
        let mut chunk_buf = vec![0u8; 1 << 16];
        // indices whose chunk was cut short by a dying process
        let mut lost: u64 = 0;
        while ws.iter().any(|w| w.is_some()) {
            let mut fds: Vec<libc::pollfd> = vec![];
            let mut idx = vec![];
            for (i, w) in ws.iter().enumerate() {
                if let Some(w) = w {
                    fds.push(libc::pollfd { fd: w.fd, events: libc::POLLIN, revents: 0 });
                    idx.push(i);
                }
            }
            unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, 200) };
            for (j, pf) in fds.iter().enumerate() {
                let i = idx[j];
                let slot = sh.at(2 + 2 * i).load(Ordering::SeqCst);
                if pf.revents == 0 {
                    let w = ws[i].as_mut().unwrap();
                    if slot != 0 && !w.killed && millis().saturating_sub(sh.at(3 + 2 * i).load(Ordering::SeqCst)) > 60_000 {
                        w.killed = true;
                        unsafe { libc::kill(w.pid, libc::SIGKILL) };
                    }
                    continue;
                }
                let w = ws[i].as_mut().unwrap();
                let r = unsafe { libc::read(w.fd, chunk_buf.as_mut_ptr().cast(), chunk_buf.len()) };
                if r > 0 {
                    w.buf.extend_from_slice(&chunk_buf[..r as usize]);
                    while w.buf.len() >= 9 {
                        let len = u64::from_le_bytes(w.buf[1..9].try_into().unwrap()) as usize;
                        if w.buf.len() < 9 + len {
                            break;
                        }
                        let kind = w.buf[0];
                        let body: Vec<u8> = w.buf[9..9 + len].to_vec();
                        w.buf.drain(..9 + len);
                        match kind {
                            b'V' => {
                                let v: Value = serde_json::from_slice(&body).unwrap();
                                self.record(group, v[0].as_str().unwrap(), v[1].as_str().unwrap());
                            }
                            b'S' => {
                                let mut tot = self.total.lock().unwrap();
                                tot.states.extend(body.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                            }
                            _ => {
                                let v: Value = serde_json::from_slice(&body).unwrap();
                                let mut tot = self.total.lock().unwrap();
                                tot.transitions += v[0].as_u64().unwrap();
                                tot.traces += v[1].as_u64().unwrap();
                                for (k, c) in v[2].as_object().unwrap() {
                                    *tot.outcomes.entry(format!("{group}: {k}")).or_default() += c.as_u64().unwrap();
                                }
                            }
                        }
                    }
                } else {
                    let mut st = 0;
                    unsafe {
                        libc::close(w.fd);
                        libc::waitpid(w.pid, &mut st, 0);
                    }
                    let killed = w.killed;
                    ws[i] = None;
                    let slot = sh.at(2 + 2 * i).swap(0, Ordering::SeqCst);
                    if slot != 0 {
                        let c = make(slot as usize - 1);
                        let how = if killed {
                            "case does not terminate within 60s".to_string()
                        } else if libc::WIFSIGNALED(st) {
                            format!("process killed by signal {}", libc::WTERMSIG(st))
                        } else {
                            format!("process exited with status {}", libc::WEXITSTATUS(st))
                        };
                        self.record(group, &format!("{c:?}"), &how);
                        self.total.lock().unwrap().traces += 1;
                        lost += 1;
                        if lost < 40 {
                            ws[i] = Some(spawn(i));
                        }
                    }
                }
            }
            if self.nviol.load(Ordering::Relaxed) > viol_limit {
                sh.at(1).store(1, Ordering::SeqCst);
            }
        }
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("{:8.2}s after {group} ({n} cases)", self.start.elapsed().as_secs_f64());
        }
    }
}

fn bin_name() -> String {
    std::env::current_exe().ok().and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned())).unwrap_or_default()
}

/// Adds the evidence another binary of the same check has written
fn merge(ev: &mut Value, old: Value) {
    match (ev, old) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                match a.get_mut(&k) {
                    Some(x) => match k.as_str() {
                        "seed" => (),
                        "wall_s" => *x = json!(x.as_f64().unwrap_or(0.0) + v.as_f64().unwrap_or(0.0)),
                        "exhaustive" => *x = json!(x == &json!(true) && v == json!(true)),
                        _ => merge(x, v),
                    },
                    None => {
                        a.insert(k, v);
                    }
                }
            }
        }
        (Value::Array(a), Value::Array(b)) => {
            for v in b {
                if !a.contains(&v) {
                    a.push(v);
                }
            }
        }
        (x, Value::Number(b)) if x.is_u64() => *x = json!(x.as_u64().unwrap() + b.as_u64().unwrap_or(0)),
        _ => (),
    }
}

type LabelFn = *const (dyn Fn() -> String);
struct SendPtr(LabelFn);
unsafe impl Send for SendPtr {}
static LABELS: Mutex<BTreeMap<usize, SendPtr>> = Mutex::new(BTreeMap::new());

fn watched<T>(w: usize, lab: impl Fn() -> String, f: impl FnOnce() -> T) -> T {
    let p: *const (dyn Fn() -> String + '_) = &lab;
    // SAFETY: removed again before `lab` goes out of scope
    let p: LabelFn = unsafe { std::mem::transmute(p) };
    LABELS.lock().unwrap().insert(w, SendPtr(p));
    let r = f();
    LABELS.lock().unwrap().remove(&w);
    r
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => {{ if !$c { return Err(format!($($arg)*)); } }};
}

/// All sequences over `alphabet` of length `lo..=hi`
pub fn seqs<T: Clone>(alphabet: &[T], lo: usize, hi: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    if lo == 0 {
        out.push(vec![]);
    }
    for len in 1..=hi {
        let mut nxt = Vec::with_capacity(cur.len() * alphabet.len());
        for c in &cur {
            for a in alphabet {
                let mut d = c.clone();
                d.push(a.clone());
                nxt.push(d);
            }
        }
        if len >= lo {
            out.extend(nxt.iter().cloned());
        }
        cur = nxt;
    }
    out
}

/// All cartesian products
pub fn product<T: Clone>(sets: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for s in sets {
        let mut nxt = vec![];
        for c in &cur {
            for a in s {
                let mut d = c.clone();
                d.push(a.clone());
                nxt.push(d);
            }
        }
        cur = nxt;
    }
    cur
}
