//! Stateless exhaustive exploration of a bounded choice space, with counters,
//! replay, crash and hang detection, known findings and evidence output.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Enumerates every sequence of choices of the closure it is handed to.
pub struct Chooser {
    fixed: usize,
    path: Vec<(u32, u32)>,
    pos: usize,
}

impl Chooser {
    fn new(prefix: &[(u32, u32)]) -> Self {
        Self {
            fixed: prefix.len(),
            path: prefix.to_vec(),
            pos: 0,
        }
    }

    /// picks 0..n, exhaustively over the whole exploration
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice");
        if self.pos == self.path.len() {
            self.path.push((0, n as u32));
        }
        let (c, mut m) = self.path[self.pos];
        if m == 0 {
            // a replayed choice: the arity was not recorded
            m = n as u32;
            self.path[self.pos].1 = m;
        }
        assert_eq!(m as usize, n, "harness: nondeterministic choice arity");
        self.pos += 1;
        c as usize
    }

    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }

    fn advance(&mut self) -> bool {
        self.path.truncate(self.pos.max(self.fixed));
        while self.path.len() > self.fixed {
            let last = self.path.last_mut().unwrap();
            if last.0 + 1 < last.1 {
                last.0 += 1;
                self.pos = 0;
                return true;
            }
            self.path.pop();
        }
        false
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// identifies the failing input; what a known finding is matched against
    pub key: String,
    pub detail: String,
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail {
            key: s.clone(),
            detail: s,
        }
    }
}

impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        s.to_owned().into()
    }
}

pub fn fail<T>(key: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        key: key.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::util::Fail::from(format!($($arg)*))); }
    };
}

/// per-execution counters
#[derive(Default)]
pub struct Cx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    sample: Option<String>,
    want_sample: bool,
    pub label: String,
    pub verbose: bool,
}

impl Cx {
    pub fn state(&mut self) {
        self.states += 1;
    }
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// names the case, so that a panic in it is reported with its input
    pub fn case(&mut self, f: impl FnOnce() -> String) {
        self.label = f();
    }
}

pub struct Section {
    name: String,
    states: u64,
    transitions: u64,
    traces: u64,
    executions: u64,
    samples: Vec<String>,
    wall: f64,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    sections: Mutex<Vec<Section>>,
    violations: Mutex<Vec<(String, Vec<u32>, Fail)>>,
    known_hit: Mutex<HashSet<String>>,
    known: Vec<(String, String, String)>, // section, key, what
    replay: Option<(String, Vec<u32>)>,
    crumbs: Crumbs,
    start: Instant,
    pub assumptions: Mutex<Vec<String>>,
    threads: usize,
    beats: Arc<Vec<Mutex<Option<Beat>>>>,
}

type Beat = (Instant, String, Vec<(u32, u32)>);

const SLOT: usize = 1 << 16;

/// A shared file that survives the death of this process and says what each
/// worker was doing.
struct Crumbs {
    ptr: *mut u8,
    slots: usize,
}
unsafe impl Sync for Crumbs {}
unsafe impl Send for Crumbs {}

impl Crumbs {
    fn open(path: &Path, slots: usize) -> Self {
        use std::os::fd::AsRawFd;
        let file = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("crumbs");
        file.set_len((SLOT * slots) as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * slots,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Self { ptr: ptr.cast(), slots }
    }
    fn put(&self, slot: usize, section: &str, path: &[(u32, u32)]) {
        assert!(slot < self.slots);
        // [busy u32][section len u32][path len u32][section][path u32s]
        unsafe {
            let p = self.ptr.add(slot * SLOT);
            let n = path.len().min((SLOT - 512) / 4);
            let s = &section.as_bytes()[..section.len().min(255)];
            p.cast::<u32>().write_volatile(1);
            p.add(4).cast::<u32>().write(s.len() as u32);
            p.add(8).cast::<u32>().write(n as u32);
            std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(12), s.len());
            let q = p.add(272).cast::<u32>();
            for (i, (c, _)) in path[..n].iter().enumerate() {
                q.add(i).write(*c);
            }
        }
    }
    fn idle(&self, slot: usize) {
        unsafe { self.ptr.add(slot * SLOT).cast::<u32>().write_volatile(0) }
    }
}

pub fn read_crumbs(path: &Path) -> Vec<(String, Vec<u32>)> {
    let Ok(data) = std::fs::read(path) else { return vec![] };
    let u = |b: &[u8]| u32::from_le_bytes(b[..4].try_into().unwrap());
    let mut out = vec![];
    for slot in data.chunks(SLOT) {
        if slot.len() == SLOT && u(slot) == 1 {
            let sl = u(&slot[4..]) as usize;
            let pl = u(&slot[8..]) as usize;
            let section = String::from_utf8_lossy(&slot[12..12 + sl]).into_owned();
            let p = (0..pl).map(|i| u(&slot[272 + 4 * i..])).collect();
            out.push((section, p));
        }
    }
    out
}

fn out_dir() -> PathBuf {
    std::env::var_os("VERIF_OUT").map_or_else(|| PathBuf::from("/verif/evidence"), PathBuf::from)
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(std::cell::Cell::get) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            old(info);
        }
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        LAST_PANIC.with(|p| {
            let s = p.borrow().clone();
            s.replace('\n', " ")
        })
    })
}

pub fn replay_path(id: &str, n: usize) -> PathBuf {
    out_dir().join("replay").join(format!("{id}-{n}.txt"))
}

pub fn write_replay(id: &str, n: usize, section: &str, path: &[u32], key: &str, detail: &str) -> PathBuf {
    let p = replay_path(id, n);
    std::fs::create_dir_all(p.parent().unwrap()).ok();
    let choices = path.iter().map(u32::to_string).collect::<Vec<_>>().join(" ");
    let text = format!(
        "property={id}\nsection={section}\nchoices={choices}\nkey={key}\n\n{detail}\n\nreplay: {} {id} --replay {}\n",
        std::env::args().next().unwrap_or_default(),
        p.display()
    );
    std::fs::write(&p, text).ok();
    p
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, known: Vec<(String, String, String)>, replay: Option<(String, Vec<u32>)>) -> Self {
        let dir = out_dir();
        std::fs::create_dir_all(dir.join("replay")).ok();
        let threads = if replay.is_some() {
            1
        } else {
            std::thread::available_parallelism().map_or(4, usize::from).min(16)
        };
        let ctx = Self {
            id: id.into(),
            tier,
            sections: Mutex::default(),
            violations: Mutex::default(),
            known_hit: Mutex::default(),
            known,
            replay,
            crumbs: Crumbs::open(&dir.join(format!("{id}.crumbs")), threads + 1),
            start: Instant::now(),
            assumptions: Mutex::default(),
            threads,
            beats: Arc::new((0..=threads).map(|_| Mutex::new(None)).collect()),
        };
        ctx.watch();
        ctx
    }

    /// A thread that ends the run when one execution does not terminate.
    fn watch(&self) {
        if self.replay.is_some() {
            return;
        }
        let limit = Duration::from_secs(if self.tier == Tier::Quick { 60 } else { 240 });
        let (beats, id, tier) = (self.beats.clone(), self.id.clone(), self.tier);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            for b in beats.iter() {
                let hung = match &*b.lock().unwrap() {
                    Some((t, section, path)) if t.elapsed() > limit => Some((section.clone(), path.clone())),
                    _ => None,
                };
                if let Some((section, path)) = hung {
                    let p: Vec<u32> = path.iter().map(|c| c.0).collect();
                    let what = format!("one execution did not finish within {limit:?}");
                    let rp = write_replay(&id, 0, &section, &p, "hang", &what);
                    println!("  {section}: {what}");
                    println!("VIOLATION property={id} replay={}", rp.display());
                    crash_evidence(&id, tier, &what);
                    std::process::exit(1);
                }
            }
        });
    }

    fn beat(&self, slot: usize, section: &str, path: &[(u32, u32)]) {
        self.crumbs.put(slot, section, path);
        let mut b = self.beats[slot].lock().unwrap();
        match &mut *b {
            Some((t, s, p)) => {
                *t = Instant::now();
                if s != section {
                    *s = section.to_owned();
                }
                p.clear();
                p.extend_from_slice(path);
            }
            None => *b = Some((Instant::now(), section.to_owned(), path.to_vec())),
        }
    }

    fn idle(&self, slot: usize) {
        self.crumbs.idle(slot);
        *self.beats[slot].lock().unwrap() = None;
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// whether something has been found
    pub fn failing(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// the section that is to be replayed
    pub fn replaying(&self) -> Option<&str> {
        self.replay.as_ref().map(|(s, _)| s.as_str())
    }

    /// Runs every execution of `f` for its effects alone, in order.
    pub fn each(&self, mut f: impl FnMut(&mut Chooser, &mut Cx)) {
        let (mut ch, mut cx) = (Chooser::new(&[]), Cx::default());
        loop {
            ch.pos = 0;
            let _ = guarded(|| f(&mut ch, &mut cx));
            if !ch.advance() {
                break;
            }
        }
    }

    fn is_known(&self, section: &str, f: &Fail) -> bool {
        for (s, k, what) in &self.known {
            if s == section && *k == f.key {
                self.known_hit.lock().unwrap().insert(what.clone());
                return true;
            }
        }
        false
    }

    /// Explores every execution of `f` (every sequence of choices it makes).
    pub fn explore<F>(&self, section: &str, f: F)
    where
        F: Fn(&mut Chooser, &mut Cx) -> Result<(), Fail> + Sync,
    {
        if let Some((rs, path)) = &self.replay {
            if rs != section {
                return;
            }
            let fixed: Vec<(u32, u32)> = vec![];
            let mut ch = Chooser::new(&fixed);
            ch.path = path.iter().map(|c| (*c, 0)).collect();
            // arities are unknown in a replay: take the recorded choices as they are
            let mut cx = Cx {
                want_sample: true,
                verbose: true,
                ..Cx::default()
            };
            let r = guarded(|| f(&mut ch, &mut cx));
            println!("replay of section {section}, choices {path:?}");
            if !cx.label.is_empty() {
                println!("case: {}", cx.label);
            }
            match r {
                Ok(Ok(())) => println!("holds"),
                Ok(Err(e)) => println!("FAILS: {}\n{}", e.key, e.detail),
                Err(p) => println!("PANIC: {p}"),
            }
            return;
        }
        if std::env::var("MC_ONLY").is_ok_and(|o| !section.contains(&o)) {
            return;
        }
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        // split into prefixes
        let mut prefixes: Vec<Vec<(u32, u32)>> = vec![vec![]];
        let target = self.threads * 12;
        let mut depth = 0;
        while prefixes.len() < target && depth < 4 {
            let mut next = vec![];
            let mut grew = false;
            for p in &prefixes {
                let mut ch = Chooser::new(p);
                let mut cx = Cx::default();
                self.beat(self.threads, section, &ch.path);
                let _ = guarded(|| f(&mut ch, &mut cx));
                if ch.path.len() > p.len() {
                    grew = true;
                    let n = ch.path[p.len()].1;
                    for c in 0..n {
                        let mut q = p.clone();
                        q.push((c, n));
                        next.push(q);
                    }
                } else {
                    next.push(p.clone());
                }
            }
            prefixes = next;
            depth += 1;
            if !grew {
                break;
            }
        }
        self.idle(self.threads);
        let next = AtomicUsize::new(0);
        let (st, tr, tc, ex) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let viol = AtomicUsize::new(0);
        std::thread::scope(|scope| {
            for w in 0..self.threads {
                let (f, prefixes, next, stop) = (&f, &prefixes, &next, &stop);
                let (st, tr, tc, ex, samples, viol) = (&st, &tr, &tc, &ex, &samples, &viol);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(scope, move || {
                        let mut cx = Cx::default();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= prefixes.len() || stop.load(Relaxed) {
                                break;
                            }
                            let mut ch = Chooser::new(&prefixes[i]);
                            let mut n = 0u64;
                            loop {
                                if stop.load(Relaxed) {
                                    break;
                                }
                                ch.pos = 0;
                                self.beat(w, section, &ch.path);
                                cx.want_sample = n == 0 && i % (prefixes.len() / 6 + 1) == 0;
                                cx.sample = None;
                                cx.label.clear();
                                let r = guarded(|| f(&mut ch, &mut cx));
                                n += 1;
                                if let Some(s) = cx.sample.take() {
                                    let mut v = samples.lock().unwrap();
                                    if v.len() < 8 {
                                        v.push(s);
                                    }
                                }
                                let bad = match r {
                                    Ok(Ok(())) => None,
                                    Ok(Err(e)) => Some(e),
                                    Err(p) => Some(Fail {
                                        key: format!("panic: {}", cx.label),
                                        detail: format!("panicked: {p}\ncase: {}", cx.label),
                                    }),
                                };
                                if let Some(e) = bad {
                                    if !self.is_known(section, &e) {
                                        let mut vs = self.violations.lock().unwrap();
                                        let path = ch.path[..ch.pos.min(ch.path.len())].iter().map(|c| c.0).collect();
                                        vs.push((section.to_owned(), path, e));
                                        if viol.fetch_add(1, Relaxed) >= 24 && std::env::var_os("MC_ALL").is_none() {
                                            stop.store(true, Relaxed);
                                        }
                                    }
                                }
                                if !ch.advance() {
                                    break;
                                }
                            }
                            ex.fetch_add(n, Relaxed);
                        }
                        self.idle(w);
                        st.fetch_add(cx.states, Relaxed);
                        tr.fetch_add(cx.transitions, Relaxed);
                        tc.fetch_add(cx.traces, Relaxed);
                    })
                    .unwrap();
            }
        });
        let sec = Section {
            name: section.into(),
            states: st.into_inner(),
            transitions: tr.into_inner(),
            traces: tc.into_inner(),
            executions: ex.into_inner(),
            samples: samples.into_inner().unwrap(),
            wall: t0.elapsed().as_secs_f64(),
        };
        println!(
            "[{}] {section}: executions={} states={} transitions={} traces={} violations={} ({:.1}s)",
            self.id,
            sec.executions,
            sec.states,
            sec.transitions,
            sec.traces,
            viol.load(Relaxed),
            sec.wall
        );
        std::io::stdout().flush().ok();
        self.sections.lock().unwrap().push(sec);
    }

    /// Adds the result of a search done outside `explore`.
    pub fn record(&self, name: &str, states: u64, transitions: u64, traces: u64, samples: Vec<String>, wall: f64) {
        println!("[{}] {name}: states={states} transitions={transitions} traces={traces} ({wall:.1}s)", self.id);
        self.sections.lock().unwrap().push(Section {
            name: name.into(),
            states,
            transitions,
            traces,
            executions: traces,
            samples,
            wall,
        });
    }

    pub fn violation(&self, section: &str, f: Fail) {
        if !self.is_known(section, &f) {
            self.violations.lock().unwrap().push((section.into(), vec![], f));
        }
    }

    pub fn evidence(&self, violations: usize) {
        let secs = self.sections.lock().unwrap();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut o = String::new();
        let sum = |f: fn(&Section) -> u64| secs.iter().map(f).sum::<u64>();
        let samples: Vec<String> = secs
            .iter()
            .flat_map(|s| s.samples.iter().take(3).map(move |x| format!("{}: {x}", s.name)))
            .map(|s| js(&s.chars().take(400).collect::<String>()))
            .collect();
        let per: Vec<String> = secs
            .iter()
            .map(|s| {
                format!(
                    "{{\"name\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"wall_s\":{:.2}}}",
                    js(&s.name),
                    s.executions,
                    s.states,
                    s.transitions,
                    s.traces,
                    s.wall
                )
            })
            .collect();
        let assumptions: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect();
        write!(
            o,
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"executions\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"sections\": [{}],\n  \"known_findings_hit\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
            js(&self.id),
            if self.tier == Tier::Quick { "quick" } else { "thorough" },
            sum(|s| s.states),
            sum(|s| s.transitions),
            sum(|s| s.traces),
            sum(|s| s.executions),
            violations == 0,
            samples.join(", "),
            per.join(", "),
            self.known_hit.lock().unwrap().len(),
            assumptions.join(", "),
            self.start.elapsed().as_secs_f64(),
        )
        .unwrap();
        std::fs::write(out_dir().join(format!("{}.json", self.id)), o).expect("evidence");
    }

    /// Reports; returns the exit code.
    pub fn finish(&self) -> i32 {
        if self.replay.is_some() {
            return 0;
        }
        let mut hits: Vec<String> = self.known_hit.lock().unwrap().iter().cloned().collect();
        hits.sort();
        for what in &hits {
            println!("KNOWN-FINDING: property={} {what}", self.id);
        }
        let vs = self.violations.lock().unwrap();
        self.evidence(vs.len());
        let secs = self.sections.lock().unwrap();
        if vs.is_empty() && secs.iter().map(|s| s.traces).sum::<u64>() == 0 {
            println!("harness error: nothing was explored");
            return 2;
        }
        for (n, (section, path, f)) in vs.iter().enumerate().take(std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(12)) {
            let rp = write_replay(&self.id, n, section, path, &f.key, &f.detail);
            println!("  {section}: {}", f.detail.lines().next().unwrap_or("").chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, rp.display());
        }
        i32::from(!vs.is_empty())
    }
}

/// The evidence of a run that the implementation ended.
pub fn crash_evidence(id: &str, tier: Tier, what: &str) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let o = format!(
        "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [{}], \"exhaustive\": false}}, \"wall_s\": 0, \"violations\": 1}}\n",
        js(id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        js(what)
    );
    std::fs::write(out_dir().join(format!("{id}.json")), o).ok();
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known findings: lines `known|<property>|<section>|<key>|<what>`; `fixed: ...` lines and
/// comments are ignored (a fixed entry suppresses nothing).
pub fn load_known(path: &Path, id: &str) -> Vec<(String, String, String)> {
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    text.lines()
        .filter_map(|l| {
            let mut it = l.strip_prefix("known|")?.splitn(4, '|');
            let (p, s, k, w) = (it.next()?, it.next()?, it.next()?, it.next()?);
            (p == id).then(|| (s.to_owned(), k.to_owned(), w.to_owned()))
        })
        .collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
