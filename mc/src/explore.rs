//! Stateless exhaustive explorer: a check body draws every choice from a `Chooser`; the explorer
//! runs the body once per complete choice sequence, in depth-first order, until none is left.
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};

/// FNV-1a with fixed parameters: hashes must not depend on process-random seeds.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z ^ (z >> 27)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub type FnvSet<T> = HashSet<T, BuildHasherDefault<Fnv>>;
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

pub struct Chooser {
    /// choices to take first (a prefix of an execution, or a whole one when replaying)
    script: Vec<u32>,
    /// (choice, number of alternatives) taken so far in this execution
    pub log: Vec<(u32, u32)>,
    /// remaining departures from the default answer, see `dev`
    pub budget: u32,
    leaf: u64,
    shard: (u64, u64),
    pub diverged: Option<String>,
}

impl Chooser {
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "pick from nothing");
        if n == 1 {
            return 0;
        }
        let i = self.log.len();
        let c = if i < self.script.len() { self.script[i] as usize } else { 0 };
        if c >= n {
            self.diverged = Some(format!("choice {} at point {} but only {} alternatives", c, i, n));
            panic!("explorer divergence");
        }
        self.log.push((c as u32, n as u32));
        c
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// A choice whose alternative 0 is the default; other alternatives use up one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 || n <= 1 {
            return 0;
        }
        let c = self.pick(n);
        if c > 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn devof<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.dev(xs.len())]
    }
    pub fn choices(&self) -> Vec<u32> {
        self.log.iter().map(|x| x.0).collect()
    }
}

#[derive(Debug)]
pub enum Stop {
    /// this leaf belongs to another worker
    NotMine,
    /// the choices do not denote a case (counted, not executed)
    Prune,
    Fail { msg: String, finding: Option<String> },
}
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail { msg: msg.into(), finding: None })
}
pub type R = Result<(), Stop>;

#[derive(Default)]
pub struct Stats {
    pub leaves: u64,
    pub pruned: u64,
    pub executed: u64,
    pub nodes: u64,
    pub states: FnvSet<u64>,
    pub outcomes: FnvSet<u64>,
    pub impl_calls: u64,
    pub samples: Vec<String>,
    pub extra: std::collections::BTreeMap<String, u64>,
    pub known: std::collections::BTreeMap<String, (u64, String)>,
}

pub struct Ctx {
    pub thorough: bool,
    pub stats: Stats,
    pub scratch: std::path::PathBuf,
    pub worker: usize,
    /// last input given to the implementation, for samples and replay artefacts
    pub last_input: Vec<u8>,
    pub progress: Option<*mut u32>,
    pub replaying: bool,
    pub known_ids: Vec<String>,
    pub tick: u32,
}

pub const PROGRESS_WORDS: usize = 4096;

impl Ctx {
    /// To be called once per execution, after all choices that shape the case and before the
    /// implementation is called: lets the other shards skip it, and records it as the current case.
    pub fn go(&mut self, c: &Chooser) -> R {
        if !self.replaying && c.leaf % c.shard.1 != c.shard.0 {
            return Err(Stop::NotMine);
        }
        self.mark(c);
        Ok(())
    }
    pub fn mark(&mut self, c: &Chooser) {
        if let Some(p) = self.progress {
            unsafe {
                let n = c.log.len().min(PROGRESS_WORDS - 4);
                self.tick = self.tick.wrapping_add(1);
                p.add(1).write_volatile(0);
                for (i, x) in c.log.iter().take(n).enumerate() {
                    p.add(2 + i).write_volatile(x.0);
                }
                p.add(1).write_volatile(n as u32 + 1);
                p.write_volatile(self.tick);
            }
        }
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.stats.states.insert(hash_of(t));
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.stats.outcomes.insert(hash_of(t));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.extra.entry(k.into()).or_insert(0) += n;
    }
}

pub struct Failure {
    pub leaf: u64,
    pub choices: Vec<u32>,
    pub msg: String,
    pub input: Vec<u8>,
}

pub type Body = fn(&mut Chooser, &mut Ctx) -> R;

fn run_one(body: Body, ch: &mut Chooser, x: &mut Ctx) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(ch, x))) {
        Ok(r) => Ok(r),
        Err(p) => Err(panic_text(p)),
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

/// Explores everything. Ok(None): no violation; Ok(Some): first violation of this shard;
/// Err: the harness itself went wrong.
pub fn explore(body: Body, x: &mut Ctx, shard: (u64, u64), budget: u32, stop_at: Option<u64>) -> Result<Option<Failure>, String> {
    let mut script: Vec<u32> = Vec::new();
    let mut leaf = 0u64;
    let mut prev_len = 0usize;
    loop {
        let mut ch = Chooser { script: std::mem::take(&mut script), log: Vec::with_capacity(32), budget, leaf, shard, diverged: None };
        let r = run_one(body, &mut ch, x).map_err(|m| format!("harness panic: {} choices {:?} {:?}", m, ch.choices(), ch.diverged))?;
        x.stats.leaves += 1;
        // nodes of the choice tree that this execution was the first to reach (plus the root, once)
        x.stats.nodes += (ch.log.len() - prev_len) as u64 + (leaf == 0) as u64;
        match r {
            Ok(()) => {
                x.stats.executed += 1;
                let k = x.stats.executed;
                if x.stats.samples.len() < 3 && (k == 1 || k == 50 || k == 700) {
                    let s = String::from_utf8_lossy(&x.last_input).chars().take(600).collect();
                    x.stats.samples.push(s);
                }
            }
            Err(Stop::NotMine) => {}
            Err(Stop::Prune) => x.stats.pruned += (leaf % shard.1 == shard.0) as u64,
            Err(Stop::Fail { msg, finding }) => {
                x.stats.executed += 1;
                match finding {
                    Some(id) if x.known_ids.contains(&id) => {
                        let e = x.stats.known.entry(id).or_insert((0, msg));
                        e.0 += 1;
                    }
                    _ => {
                        return Ok(Some(Failure { leaf, choices: ch.choices(), msg, input: x.last_input.clone() }));
                    }
                }
            }
        }
        if Some(leaf) == stop_at {
            return Ok(None);
        }
        leaf += 1;
        let mut log = ch.log;
        loop {
            match log.pop() {
                None => return Ok(None),
                Some((c, n)) if c + 1 < n => {
                    prev_len = log.len();
                    script = log.iter().map(|x| x.0).collect();
                    script.push(c + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}

pub fn replay(body: Body, x: &mut Ctx, choices: &[u32], budget: u32) -> Result<Option<Failure>, String> {
    let mut ch = Chooser { script: choices.to_vec(), log: Vec::new(), budget, leaf: 0, shard: (0, 1), diverged: None };
    x.replaying = true;
    match run_one(body, &mut ch, x) {
        Err(m) => Err(format!("harness panic: {} {:?}", m, ch.diverged)),
        Ok(Err(Stop::Fail { msg, .. })) => Ok(Some(Failure { leaf: 0, choices: choices.to_vec(), msg, input: x.last_input.clone() })),
        Ok(_) => Ok(None),
    }
}
