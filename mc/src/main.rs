#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod explore;
mod lib_run;
mod map;
mod names;
mod poly;
mod props;
mod sys;
mod wadgen;

use explore::{Ctx, Failure, Stats};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: sys::PointAlloc = sys::PointAlloc;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, ...) -> i32;
}

fn map_shared(path: &Path) -> *mut u32 {
    use std::os::unix::io::AsRawFd;
    let len = explore::PROGRESS_WORDS * 4;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut u32
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn nums(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn joined(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_ids(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.txt");
    let mut v = Vec::new();
    for l in fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let prop = it.next().unwrap_or("").trim_start_matches("property=");
            let fid = it.next().unwrap_or("").trim_start_matches("id=");
            if prop == id {
                v.push((fid.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(d).join(format!("mc-probe-{}", std::process::id()));
        if fs::write(&p, b"x").is_ok() {
            let _ = fs::remove_file(&p);
            return PathBuf::from(d);
        }
    }
    std::env::temp_dir()
}

fn new_ctx(id: &str, thorough: bool, scratch: &Path, worker: usize) -> Ctx {
    Ctx {
        thorough,
        stats: Stats::default(),
        scratch: scratch.to_path_buf(),
        worker,
        last_input: Vec::new(),
        progress: None,
        replaying: false,
        known_ids: known_ids(id).into_iter().map(|x| x.0).collect(),
        tick: 0,
    }
}

fn write_failure(p: &Path, f: &Failure) {
    let t = format!("leaf={}\nchoices={}\nmsg={}\ninput={}\n", f.leaf, joined(&f.choices), hex(f.msg.as_bytes()), hex(&f.input));
    fs::write(p, t).unwrap();
}
fn read_kv(p: &Path) -> BTreeMap<String, String> {
    fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}
fn read_failure(p: &Path) -> Option<Failure> {
    let m = read_kv(p);
    Some(Failure {
        leaf: m.get("leaf")?.parse().ok()?,
        choices: nums(m.get("choices")?),
        msg: String::from_utf8_lossy(&unhex(m.get("msg")?)).into_owned(),
        input: unhex(m.get("input")?),
    })
}

/// exit codes of workers and of one-case runs: 0 fine, 10 violation, 3 harness error
fn worker(id: &str, thorough: bool, w: u64, k: u64, scratch: &Path, stop_at: Option<u64>) -> i32 {
    unsafe {
        prctl(1, 9); // die with the parent
    }
    sys::init();
    let spec = props::spec(id).expect("unknown property");
    let mut x = new_ctx(id, thorough, scratch, w as usize);
    x.progress = Some(map_shared(&scratch.join(format!("prog.{}", w))));
    let budget = if thorough { spec.budget.1 } else { spec.budget.0 };
    let code = match explore::explore(spec.body, &mut x, (w, k), budget, stop_at) {
        Ok(None) => 0,
        Ok(Some(f)) => {
            write_failure(&scratch.join(format!("fail.{}", w)), &f);
            10
        }
        Err(m) => {
            fs::write(scratch.join(format!("err.{}", w)), m).unwrap();
            3
        }
    };
    let s = &x.stats;
    let mut o = String::new();
    o += &format!("leaves={}\npruned={}\nexecuted={}\nnodes={}\ncalls={}\n", s.leaves, s.pruned, s.executed, s.nodes, s.impl_calls);
    for (i, t) in s.samples.iter().enumerate() {
        o += &format!("sample.{}={}\n", i, hex(t.as_bytes()));
    }
    for (a, b) in &s.extra {
        o += &format!("x.{}={}\n", a, b);
    }
    for (a, (n, m)) in &s.known {
        o += &format!("known.{}={} {}\n", a, n, hex(m.as_bytes()));
    }
    fs::write(scratch.join(format!("stat.{}", w)), o).unwrap();
    let dump = |n: &str, h: &explore::FnvSet<u64>| {
        let mut b = Vec::with_capacity(h.len() * 8);
        for v in h {
            b.extend_from_slice(&v.to_le_bytes());
        }
        fs::write(scratch.join(format!("{}.{}", n, w)), b).unwrap();
    };
    dump("states", &s.states);
    dump("outcomes", &s.outcomes);
    code
}

/// Runs one given case in this process: 0 holds, 10 violation (failure written to `out`)
fn one(id: &str, thorough: bool, choices: &[u32], scratch: &Path, out: &Path) -> i32 {
    unsafe {
        prctl(1, 9);
    }
    sys::init();
    let spec = props::spec(id).expect("unknown property");
    let mut x = new_ctx(id, thorough, scratch, 90);
    let budget = if thorough { spec.budget.1 } else { spec.budget.0 };
    match explore::replay(spec.body, &mut x, choices, budget) {
        Ok(None) => 0,
        Ok(Some(f)) => {
            write_failure(out, &f);
            10
        }
        Err(m) => {
            let _ = fs::write(out, format!("err={}\n", m));
            3
        }
    }
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}
fn tier(thorough: bool) -> &'static str {
    if thorough {
        "thorough"
    } else {
        "quick"
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Code(i32),
    Signal(i32),
    Hang,
}

fn wait_end(ch: &mut std::process::Child, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match st.code() {
                Some(c) => End::Code(c),
                None => End::Signal(st.signal().unwrap_or(0)),
            };
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn run_one_case(id: &str, thorough: bool, choices: &[u32], scratch: &Path) -> (End, Option<Failure>) {
    let cf = scratch.join("one.choices");
    fs::write(&cf, joined(choices)).unwrap();
    let out = scratch.join("one.out");
    let _ = fs::remove_file(&out);
    let mut ch = Command::new(exe())
        .args(["one", id, tier(thorough)])
        .arg(&cf)
        .arg(scratch)
        .arg(&out)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let e = wait_end(&mut ch, Duration::from_secs(HANG_S + 20));
    (e, read_failure(&out))
}

const HANG_S: u64 = 60;

fn abnormal_text(e: End) -> String {
    match e {
        End::Signal(6) => "the process was aborted (signal 6)".into(),
        End::Signal(11) => "the process crashed (signal 11, e.g. stack overflow)".into(),
        End::Signal(s) => format!("the process was ended by signal {}", s),
        End::Hang => format!("no answer within {} s", HANG_S),
        End::Code(c) => format!("the process exited with {}", c),
    }
}

fn save_violation(id: &str, thorough: bool, f: &Failure, note: &str, shard: Option<(u64, u64)>) -> PathBuf {
    let d = verif_dir().join("out").join(id).join(format!("{:016x}", explore::hash_of(&(f.choices.clone(), f.msg.clone()))));
    fs::create_dir_all(&d).unwrap();
    fs::write(d.join("message.txt"), format!("property {}\n{}\n{}\n", id, note, f.msg)).unwrap();
    fs::write(d.join("input.bin"), &f.input).unwrap();
    let mut s = format!("property={}\ntier={}\nchoices={}\n", id, tier(thorough), joined(&f.choices));
    if let Some((w, k)) = shard {
        s += &format!("shard={}/{}\nleaf={}\n", w, k, f.leaf);
    }
    fs::write(d.join("case.txt"), s).unwrap();
    fs::write(d.join("replay.sh"), "#!/bin/bash\n# replays this one case on the current /repo tree\nexec bash /verif/check.sh replay \"$(cd \"$(dirname \"$0\")\" && pwd)\"\n").unwrap();
    d
}

fn check(id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let spec = match props::spec(id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let scratch = scratch_root().join(format!("mc-{}-{}", id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let code = check_in(id, thorough, &spec, &scratch, t0);
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn check_in(id: &str, thorough: bool, spec: &props::Spec, scratch: &Path, t0: Instant) -> i32 {
    let cpus = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let k: u64 = (cpus as u64).clamp(1, spec.workers);
    let mut kids = Vec::new();
    for w in 0..k {
        let prog = map_shared(&scratch.join(format!("prog.{}", w)));
        let ch = Command::new(exe())
            .args(["worker", id, tier(thorough), &w.to_string(), &k.to_string()])
            .arg(scratch)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        kids.push((w, ch, prog, 0u32, Instant::now(), None::<End>));
    }
    let mut first_bad: Option<(u64, End)> = None;
    loop {
        let mut live = 0;
        for (w, ch, prog, last, since, end) in kids.iter_mut() {
            if end.is_some() {
                continue;
            }
            use std::os::unix::process::ExitStatusExt;
            if let Some(st) = ch.try_wait().unwrap() {
                let e = match st.code() {
                    Some(c) => End::Code(c),
                    None => End::Signal(st.signal().unwrap_or(0)),
                };
                *end = Some(e);
                if e != End::Code(0) && first_bad.is_none() {
                    first_bad = Some((*w, e));
                }
                continue;
            }
            live += 1;
            let t = unsafe { prog.read_volatile() };
            if t != *last {
                *last = t;
                *since = Instant::now();
            } else if t != 0 && since.elapsed().as_secs() > HANG_S {
                *end = Some(End::Hang);
                if first_bad.is_none() {
                    first_bad = Some((*w, End::Hang));
                }
            }
        }
        if live == 0 || first_bad.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    for (_, ch, _, _, _, end) in kids.iter_mut() {
        if end.is_none() || *end == Some(End::Hang) {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }

    let mut violations = 0;
    let mut code = 0;
    if let Some((w, e)) = first_bad {
        let f = match e {
            End::Code(10) => read_failure(&scratch.join(format!("fail.{}", w))),
            End::Code(3) => {
                eprintln!("harness error: {}", fs::read_to_string(scratch.join(format!("err.{}", w))).unwrap_or_default());
                None
            }
            _ => {
                let prog = kids[w as usize].2;
                let n = unsafe { prog.add(1).read_volatile() } as usize;
                if n == 0 {
                    None
                } else {
                    let ch: Vec<u32> = (0..n - 1).map(|i| unsafe { prog.add(2 + i).read_volatile() }).collect();
                    Some(Failure { leaf: 0, choices: ch, msg: abnormal_text(e), input: Vec::new() })
                }
            }
        };
        match f {
            None => {
                eprintln!("worker {} ended with {:?}: no verdict", w, e);
                return 2;
            }
            Some(f) => {
                // a violation must show again on its own, in fresh processes
                let (e1, f1) = run_one_case(id, thorough, &f.choices, scratch);
                let (e2, _) = run_one_case(id, thorough, &f.choices, scratch);
                let again = |e: End| matches!(e, End::Code(10) | End::Signal(6) | End::Signal(11) | End::Hang);
                let (note, shard, fin) = if again(e1) && again(e2) {
                    let m = f1.unwrap_or(Failure { leaf: f.leaf, choices: f.choices.clone(), msg: abnormal_text(e1), input: f.input.clone() });
                    ("reproduced twice in fresh processes".to_string(), None, Some(m))
                } else if e == End::Code(10) {
                    // depends on what ran before in the same process: replay the whole shard up to it
                    let again = rerun_shard(id, thorough, w, k, f.leaf, scratch);
                    if again {
                        ("shows only after the preceding cases of the same process; the replay runs them all".to_string(), Some((w, k)), Some(Failure { leaf: f.leaf, choices: f.choices.clone(), msg: f.msg.clone(), input: f.input.clone() }))
                    } else {
                        // a wrong result is wrong, even where it takes luck to see it again
                        ("seen once, not in two replays: depends on timing or on state outside the case".to_string(), None, Some(Failure { leaf: f.leaf, choices: f.choices.clone(), msg: f.msg.clone(), input: f.input.clone() }))
                    }
                } else {
                    (String::new(), None, None)
                };
                match fin {
                    None => {
                        eprintln!("case {:?} of worker {} ended with {:?} ({}) but not again ({:?}, {:?}): no verdict", f.choices, w, e, f.msg, e1, e2);
                        return 2;
                    }
                    Some(f) => {
                        let d = save_violation(id, thorough, &f, &note, shard);
                        println!("{}", f.msg);
                        println!("VIOLATION property={} replay={}", id, d.display());
                        violations = 1;
                        code = 1;
                    }
                }
            }
        }
    }

    // merge
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut states: explore::FnvSet<u64> = Default::default();
    let mut outcomes: explore::FnvSet<u64> = Default::default();
    let mut tree = (0u64, 0u64, 0u64);
    for w in 0..k {
        let m = read_kv(&scratch.join(format!("stat.{}", w)));
        for (a, b) in &m {
            if let Some(n) = a.strip_prefix("known.") {
                let (c, t) = b.split_once(' ').unwrap();
                let e = known.entry(n.to_string()).or_insert((0, String::from_utf8_lossy(&unhex(t)).into_owned()));
                e.0 += c.parse::<u64>().unwrap();
            } else if a.starts_with("sample.") {
                if samples.len() < 4 {
                    samples.push(String::from_utf8_lossy(&unhex(b)).into_owned());
                }
            } else if let Ok(v) = b.parse::<u64>() {
                match a.as_str() {
                    // every worker walks the same tree
                    "leaves" => tree.0 = tree.0.max(v),
                    "nodes" => tree.1 = tree.1.max(v),
                    "pruned" => tree.2 += v,
                    _ => *sum.entry(a.clone()).or_insert(0) += v,
                }
            }
        }
        for (n, set) in [("states", &mut states), ("outcomes", &mut outcomes)] {
            let b = fs::read(scratch.join(format!("{}.{}", n, w))).unwrap_or_default();
            for c in b.chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let executed = *sum.get("executed").unwrap_or(&0);
    let calls = *sum.get("calls").unwrap_or(&0);
    let mut e = String::new();
    e += "{\n";
    e += &format!(" \"property\": {},\n \"tier\": \"{}\",\n", jstr(id), tier(thorough));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    e += &format!(" \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n", seed, jstr(spec.level));
    if spec.level == "model_checking" {
        e += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", states.len(), tree.1.saturating_sub(1), executed);
    } else {
        e += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", executed, states.len());
    }
    e += &format!("  \"rule\": {},\n", jstr(spec.rule));
    e += &format!("  \"choice_sequences\": {},\n  \"pruned_sequences\": {},\n  \"choice_tree_nodes\": {},\n  \"implementation_calls\": {},\n  \"distinct_outcomes\": {},\n", tree.0, tree.2, tree.1, calls, outcomes.len());
    for (a, b) in &sum {
        if let Some(n) = a.strip_prefix("x.") {
            e += &format!("  {}: {},\n", jstr(n), b);
        }
    }
    let b = if thorough { spec.budget.1 } else { spec.budget.0 };
    e += &format!("  \"bounds\": {},\n", jstr(&format!("{} (deviation budget {})", if thorough { spec.bounds.1 } else { spec.bounds.0 }, if b == u32::MAX { "unbounded".into() } else { b.to_string() })));
    e += &format!("  \"exhaustive\": {},\n", code == 0);
    e += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"assumptions\": [{}],\n", spec.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    e += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations);
    let ed = verif_dir().join("evidence");
    fs::create_dir_all(&ed).unwrap();
    fs::write(ed.join(format!("{}.json", id)), e).unwrap();

    if code == 0 {
        for (fid, text) in known_ids(id) {
            if let Some((n, ex)) = known.get(&fid) {
                println!("KNOWN-FINDING: property={} {} {} ({} cases, e.g. {})", id, fid, text, n, ex.lines().next().unwrap_or(""));
            }
        }
        println!("{} {}: {} cases executed ({} choice sequences, {} tree nodes), {} distinct states, {} distinct outcomes, {:.1} s", id, tier(thorough), executed, tree.0, tree.1, states.len(), outcomes.len(), t0.elapsed().as_secs_f64());
        if executed == 0 {
            eprintln!("nothing was executed");
            return 2;
        }
    }
    let _ = std::io::stdout().flush();
    code
}

fn rerun_shard(id: &str, thorough: bool, w: u64, k: u64, leaf: u64, scratch: &Path) -> bool {
    let _ = fs::remove_file(scratch.join(format!("fail.{}", w)));
    let mut ch = Command::new(exe())
        .args(["worker", id, tier(thorough), &w.to_string(), &k.to_string()])
        .arg(scratch)
        .arg(leaf.to_string())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let e = wait_end(&mut ch, Duration::from_secs(600));
    e == End::Code(10) && read_failure(&scratch.join(format!("fail.{}", w))).map(|f| f.leaf) == Some(leaf)
}

fn replay_dir(d: &Path) -> i32 {
    let m = read_kv(&d.join("case.txt"));
    let id = m["property"].clone();
    let thorough = m["tier"] == "thorough";
    let choices = nums(&m["choices"]);
    let scratch = scratch_root().join(format!("mc-replay-{}", std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let code = if let Some(s) = m.get("shard") {
        let (w, k) = s.split_once('/').unwrap();
        let leaf = m["leaf"].parse().unwrap();
        if rerun_shard(&id, thorough, w.parse().unwrap(), k.parse().unwrap(), leaf, &scratch) {
            println!("VIOLATION property={} replay={}", id, d.display());
            1
        } else {
            println!("holds on this case");
            0
        }
    } else {
        match run_one_case(&id, thorough, &choices, &scratch) {
            (End::Code(0), _) => {
                println!("holds on this case");
                0
            }
            (End::Code(3), _) => {
                eprintln!("harness error {}", fs::read_to_string(scratch.join("one.out")).unwrap_or_default());
                2
            }
            (e, f) => {
                println!("{}", f.map(|f| f.msg).unwrap_or_else(|| abnormal_text(e)));
                println!("VIOLATION property={} replay={}", id, d.display());
                1
            }
        }
    };
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(3).map(|x| x == "thorough").unwrap_or(false);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], thorough),
        Some("worker") => worker(&a[2], thorough, a[4].parse().unwrap(), a[5].parse().unwrap(), Path::new(&a[6]), a.get(7).map(|x| x.parse().unwrap())),
        Some("one") => one(&a[2], thorough, &nums(fs::read_to_string(&a[4]).unwrap().trim()), Path::new(&a[5]), Path::new(&a[6])),
        Some("replay") => replay_dir(Path::new(&a[2])),
        Some("c19base") => {
            sys::init();
            let k: usize = a[2].parse().unwrap();
            let before: Vec<usize> = a.get(4).map(|s| s.split(',').map(|k| k.parse().unwrap()).collect()).unwrap_or_default();
            let b = props::p_tree::alone(k, &format!("{}.map", a[3]), &before);
            let _ = fs::remove_file(format!("{}.map", a[3]));
            fs::write(&a[3], b).unwrap();
            0
        }
        Some("list") => {
            for id in props::ids() {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | replay DIR | list");
            2
        }
    };
    std::process::exit(code);
}
