//! Properties about the calls themselves rather than their results: several at a time (C35), and
//! what they leave behind (C36). Every execution takes place in a process of its own.
use super::corpus::gallery;
use crate::explore::{fail, panic_text, Chooser, Ctx, Stop, R};
use crate::lib_run::*;
use crate::map::*;
use crate::poly::*;
use crate::sys::{self, Fault};
use crate::wadgen::{plain, Tex, Wad};
use quarchitect::game_data::forge;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

extern "C" {
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// Runs `f` in a child process and returns what it produced.
fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut p = [0i32; 2];
    unsafe {
        assert!(pipe(p.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, 9); // die with the parent
            sys::close(p[0]);
            let null = sys::open64(c"/dev/null".as_ptr() as *const u8, 1, 0);
            dup2(null, 1);
            dup2(null, 2);
            sys::close(null);
            println!();
            let v = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(v) => v,
                Err(e) => {
                    eprintln!("in the child: {}", panic_text(e));
                    _exit(8)
                }
            };
            let mut o = 0;
            while o < v.len() {
                let k = sys::write(p[1], v.as_ptr().add(o), v.len() - o);
                if k <= 0 {
                    _exit(9);
                }
                o += k as usize;
            }
            _exit(0);
        }
        sys::close(p[1]);
        let mut v = Vec::new();
        let mut b = vec![0u8; 65536];
        loop {
            let k = sys::read(p[0], b.as_mut_ptr(), b.len());
            if k <= 0 {
                break;
            }
            v.extend_from_slice(&b[..k as usize]);
        }
        sys::close(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        assert!(st != 0x800 && st != 0x900, "the child went wrong");
        if st != 0 {
            return Err(format!("the process ended abnormally (status {:#x})", st));
        }
        Ok(v)
    }
}
fn put_part(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    o.extend_from_slice(b);
}
fn parts(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + 4 <= b.len() {
        let n = u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
        v.push(b[i + 4..i + 4 + n].to_vec());
        i += 4 + n;
    }
    v
}
fn pool() {
    rayon::ThreadPoolBuilder::new().num_threads(1).start_handler(|i| sys::register_pool_thread(2 + i)).build_global().unwrap();
    rayon::broadcast(|_| ());
}

// ------------------------------------------------------------------------------------------ calls
const CALLS: usize = 15;
const NAMES: [&str; CALLS] = ["map", "other map", "malformed map", "map without worldspawn", "WAD3", "WAD2 with a list", "damaged WAD", "missing WAD", "palette", "short palette", "save", "other save", "diff", "WAD2 to RGB", "missing map"];
const EXT: [&str; CALLS] = ["map", "map", "map", "map", "wad", "wad", "wad", "wad", "lmp", "lmp", "fgd", "fgd", "map", "wad", "map"];

fn small(k: usize) -> (Cfg, String) {
    let g = gallery();
    let at = |s: usize, p: P3, t: [&'static str; 2]| Brush::of(&moved(&g[s].1, p), move |i| t[i % 2].into());
    let props = |d: i32, n: &str| {
        vec![
            forge::Property::new("n", "", "", forge::PropertyData::Integer(d)),
            forge::Property::new("s", "", "", forge::PropertyData::String(n.into())),
            forge::Property::new("c", "", "", forge::PropertyData::Choices(vec![forge::Choice::integer("a", d), forge::Choice::integer("b", 7)], 0)),
        ]
    };
    let mut cfg = Cfg::default();
    let layer = |name: &str, c: Coll| LayerDef { name: name.into(), texture: "lay".into(), etype: EType::Class(name.into()), script: None, visual: true, coll: c };
    if k == 0 {
        cfg = cfg.tex("a", 64, 32).tex("lay", 16, 16).tex("clip", 8, 8);
        cfg.bl_face = vec!["clip".into()];
        cfg.ents = vec![EntDef::solid("worldspawn", true, Coll::Convex), EntDef::solid("func", true, Coll::Concave), EntDef::point("light")];
        cfg.layers = vec![layer("one", Coll::Convex)];
        cfg.forge = vec![forge::Entity::new(forge::ClassType::SolidClass, vec![], "func", "", props(1, "first"))];
        let v = [
            Ent::new("worldspawn").kv("message", "m").brush(at(0, [0, 0, 0], ["a", "clip"])).brush(at(2, [256, 0, 0], ["lay", "lay"])),
            Ent::new("func").kv("n", "41").kv("c", "7").kv("_tb_id", "3").brush(at(1, [0, 256, 0], ["a", "zz"])),
            Ent::new("light").kv("origin", "1 2 3").kv("_tb_group", "3"),
        ];
        (cfg, text(&v))
    } else {
        cfg = cfg.tex("a", 128, 8).tex("lay", 32, 64).tex("clip", 16, 4);
        cfg.bl_brush = vec!["lay".into()];
        cfg.bl_face = vec!["zz".into()];
        let mut d = EntDef::solid("func", true, Coll::Convex);
        d.etype = EType::Prefab("other".into());
        d.script = Some("script".into());
        d.apply = Apply::Metadata;
        cfg.ents = vec![d, EntDef::point("worldspawn"), EntDef::solid("light", true, Coll::None)];
        cfg.layers = vec![layer("two", Coll::None)];
        cfg.forge = vec![forge::Entity::new(forge::ClassType::SolidClass, vec![], "func", "", props(2, "second")), forge::Entity::new(forge::ClassType::PointClass, vec![], "light", "", props(3, "third"))];
        let v = [
            Ent::new("light").kv("origin", "4 5 6").kv("_tb_id", "3").kv("_phong", "1").brush(at(4, [0, 0, 256], ["clip", "a"])),
            Ent::new("func").kv("n", "x").kv("c", "2").kv("_tb_group", "3").brush(at(3, [64, 256, 0], ["clip", "a"])),
            Ent::new("worldspawn").kv("message", "w").brush(at(0, [32, 0, 0], ["clip", "a"])).brush(at(1, [256, 64, 0], ["lay", "lay"])),
        ];
        (cfg, text(&v))
    }
}
fn fgd(k: usize) -> forge::GameData {
    use forge::*;
    let e = |n: &str, d: i32| Entity::new(ClassType::PointClass, vec![Metadata::Base(vec!["B".into()])], n, "words", vec![Property::new("p", "q", "r", PropertyData::Integer(d)), Property::new("f", "", "", PropertyData::Flags(vec!["x".into(), "y".into()], 2))]);
    if k == 10 {
        GameData::new("one".into(), vec!["base.fgd".into()], vec![e("a", 1), e("b", 2)])
    } else {
        GameData::new("another".into(), vec![], vec![e("a", 5), e("c", 6), e("d", 7)])
    }
}
fn content(k: usize) -> Vec<u8> {
    let wad2 = || Wad::of(false, vec![Tex::new("t0", 8, 8, 9), Tex::new("t1", 16, 8, 7)]).bytes();
    match k {
        0 | 1 => small(k).1.into_bytes(),
        2 => {
            let t = small(0).1;
            t[..t.trim_end().len() - 1].into()
        }
        3 => small(0).1.replace("worldspawn", "world").into_bytes(),
        4 => Wad::of(true, vec![Tex::new("t0", 16, 16, 5), Tex::new("t1", 8, 8, 6)]).bytes(),
        5 => wad2(),
        6 => {
            let b = content(4);
            b[..b.len() - 40].into()
        }
        8 => (0..768u32).map(|i| (i * 11 + 3) as u8).collect(),
        9 => vec![1; 700],
        12 => small(0).1.into_bytes(),
        13 => wad2(),
        _ => vec![],
    }
}
/// puts what the call reads where it looks for it
fn prepare(k: usize, path: &str) {
    let _ = std::fs::remove_file(path);
    match k {
        7 | 14 => {}
        10 | 11 => std::fs::write(path, b"earlier").expect("scratch file"),
        _ => std::fs::write(path, content(k)).expect("scratch file"),
    }
    if k == 13 {
        std::fs::write(format!("{}.p", path), content(8)).expect("scratch file");
    }
    if k == 12 {
        std::fs::write(format!("{}.b", path), content(1)).expect("scratch file");
    }
}
/// The call and its result in bytes. The returned closure does nothing but the library's call
/// until it calls `sys::leave`.
fn act(k: usize, path: &str) -> Box<dyn FnOnce() -> Vec<u8> + Send> {
    let path = path.to_string();
    fn end<T>(r: std::thread::Result<T>, f: impl FnOnce(T) -> Vec<u8>) -> Vec<u8> {
        match r {
            Ok(v) => f(v),
            Err(p) => format!("P {}", panic_text(p)).into_bytes(),
        }
    }
    match k {
        0..=3 | 14 => {
            let c = config(&path, &small(k & 1).0);
            Box::new(move || exact_out(&run_config_then(c, sys::leave)))
        }
        4..=7 => {
            let (list, levels) = if k == 5 { (Some(vec!["t1".to_string()]), 2) } else { (None, 4) };
            Box::new(move || {
                let r = catch_unwind(|| quarchitect::wad::read_textures(&path, list, levels));
                sys::leave();
                end(r, |r| format!("{:?}", r.map(|v| v.iter().map(plain).collect::<Vec<_>>())).into_bytes())
            })
        }
        8 | 9 => Box::new(move || {
            let r = catch_unwind(|| quarchitect::wad::palette::read_palette(&path));
            sys::leave();
            end(r, |r| match r {
                Ok(p) => p.0.iter().flat_map(|c| [c.0, c.1, c.2]).collect(),
                Err(e) => format!("E {}", e).into_bytes(),
            })
        }),
        10 | 11 => {
            let g = fgd(k);
            Box::new(move || {
                let to = path.clone();
                let r = catch_unwind(AssertUnwindSafe(|| g.save(to).map_err(|e| e.to_string())));
                sys::leave();
                let file = std::fs::read(&path).unwrap_or_default();
                end(r, |r| [format!("{:?} ", r).into_bytes(), file].concat())
            })
        }
        12 => Box::new(move || {
            let b = format!("{}.b", path);
            let r = catch_unwind(|| quarchitect::run_diff(&path, &b).map_err(|e| e.to_string()));
            sys::leave();
            end(r, |r| format!("{:?}", r).into_bytes())
        }),
        _ => {
            let p = format!("{}.p", path);
            Box::new(move || {
                let r = catch_unwind(|| -> Result<Vec<_>, String> {
                    let mut v = Vec::new();
                    for t in quarchitect::wad::read_textures(&path, None, 1)? {
                        let pal = quarchitect::wad::palette::read_palette(&p).map_err(|e| e.to_string())?;
                        v.push(t.into_rgb(Some(pal))?);
                    }
                    Ok(v)
                });
                sys::leave();
                end(r, |r| format!("{:?}", r.map(|v| v.iter().map(|t| (t.mip_texture.name.clone(), t.mip_data.mip0.iter().map(|c| [c.0, c.1, c.2]).collect::<Vec<_>>())).collect::<Vec<_>>())).into_bytes())
            })
        }
    }
}

// ------------------------------------------------------------------------------------------ C35
// The hosts work in folders of their own, and name their files relative to the working directory.
fn host_path(k: usize, host: usize) -> String {
    format!("h{}/in.{}", host, EXT[k])
}
fn duo_root(x: &Ctx) -> PathBuf {
    let r = x.scratch.join(format!("{}-duo", x.worker));
    for d in ["h0", "h1", "tmp"] {
        std::fs::create_dir_all(r.join(d)).expect("scratch folder");
    }
    r
}
fn settle(root: &Path) {
    std::env::set_current_dir(root).unwrap();
    std::env::set_var("TMPDIR", root.join("tmp"));
    pool();
}
/// result and number of points (coarse, fine) of the call alone
fn alone(x: &Ctx, k: usize, host: usize) -> (Vec<u8>, [usize; 2]) {
    static A: Mutex<BTreeMap<(usize, usize), (Vec<u8>, [usize; 2])>> = Mutex::new(BTreeMap::new());
    if let Some(r) = A.lock().unwrap().get(&(k, host)) {
        return r.clone();
    }
    let path = host_path(k, host);
    let root = duo_root(x);
    prepare(k, root.join(&path).to_str().unwrap());
    let mut counts = [0; 2];
    let mut res = Vec::new();
    for fine in 0..2 {
        let v = in_child(|| {
            settle(&root);
            let (r, d) = sys::two_callers(0, [&[], &[]], fine == 1, [act(k, &path), Box::new(Vec::new)]);
            let mut o = Vec::new();
            put_part(&mut o, r[0].as_ref().unwrap());
            put_part(&mut o, &(d.counts[0] as u64).to_le_bytes());
            o
        })
        .unwrap_or_else(|e| panic!("{} alone: {}", NAMES[k], e));
        let p = parts(&v);
        counts[fine] = u64::from_le_bytes(p[1][..].try_into().unwrap()) as usize;
        if fine == 1 {
            assert!(res == p[0], "{} alone gives two results", NAMES[k]);
        }
        res = p[0].clone();
    }
    A.lock().unwrap().insert((k, host), (res.clone(), counts));
    (res, counts)
}

pub fn c35(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let mode = c.pick(3);
    let a = c.pick(CALLS);
    let b = c.pick(CALLS);
    // calls that only read may be about the same file
    let same = if mode == 0 && a == b && a != 10 && a != 11 { c.flag() } else { false };
    let (fine, stops): (bool, [Vec<usize>; 2]) = match mode {
        // one is stopped anywhere, the other runs from start to end, the first goes on
        0 => (true, [vec![c.pick(2500)], vec![]]),
        // stopped and stopped again, at file operations and output
        1 => {
            let n = if th { 60 } else { 30 };
            let s = c.pick(n);
            let t = c.pick(n);
            let u = if th { s + 1 + c.pick(n) } else { usize::MAX };
            (false, [vec![s, u], vec![t]])
        }
        // both stopped once, anywhere
        _ => {
            let n = if th { 400 } else { 64 };
            (true, [vec![c.pick(n)], vec![c.pick(n)]])
        }
    };
    x.go(c)?;
    let hosts = [0, 1 - same as usize];
    let ra = alone(x, a, hosts[0]);
    let rb = alone(x, b, hosts[1]);
    let n = [ra.1[fine as usize], rb.1[fine as usize]];
    if stops[0][0] >= n[0] || stops[1].first().is_some_and(|t| *t >= n[1]) || stops[0].get(1).is_some_and(|u| *u != usize::MAX && *u >= n[0]) {
        return Err(Stop::Prune);
    }
    if mode == 2 {
        // every pair of places only where both calls are short; elsewhere mode 0 and 1
        let most = if th { 400 } else { 64 };
        if n[0] > most || n[1] > most {
            return Err(Stop::Prune);
        }
    }
    x.state(&(a, b, same, &stops));
    let paths = [host_path(a, hosts[0]), host_path(b, hosts[1])];
    let root = duo_root(x);
    prepare(a, root.join(&paths[0]).to_str().unwrap());
    prepare(b, root.join(&paths[1]).to_str().unwrap());
    x.last_input = format!("{} ({} points) and {} ({} points){}, stopped at {:?}", NAMES[a], n[0], NAMES[b], n[1], if same { " of the same file" } else { "" }, stops).into_bytes();
    x.stats.impl_calls += 2;
    let v = in_child(|| {
        settle(&root);
        let (r, d) = sys::two_callers(0, [&stops[0], &stops[1]], fine, [act(a, &paths[0]), act(b, &paths[1])]);
        let mut o = Vec::new();
        put_part(&mut o, &[d.stuck as u8, d.stops as u8, d.forced as u8]);
        for r in r {
            put_part(&mut o, &r.unwrap_or_default());
        }
        o
    });
    let p = match v {
        Err(e) => return fail(format!("{}: {}", String::from_utf8_lossy(&x.last_input), e)),
        Ok(v) => parts(&v),
    };
    if p[0][0] == 1 {
        return fail(format!("no call can go on: {}", String::from_utf8_lossy(&x.last_input)));
    }
    x.count("stops applied", p[0][1] as u64);
    x.count("stops given up because the other call waited", p[0][2] as u64);
    x.outcome(&(&p[1], &p[2]));
    for (h, (got, want, k)) in [(&p[1], &ra.0, a), (&p[2], &rb.0, b)].iter().enumerate() {
        if got != want {
            let s = |b: &[u8]| String::from_utf8_lossy(b).chars().take(300).collect::<String>();
            return fail(format!("the {} call ({}) gives another result than alone: {:?}, alone {:?}; {}", ["first", "second"][h], NAMES[*k], s(got), s(want), String::from_utf8_lossy(&x.last_input)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C36
#[derive(PartialEq, Clone)]
struct World {
    cwd: PathBuf,
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    umask: String,
    std: Vec<(u64, u64)>,
    files: BTreeMap<PathBuf, (u64, u64, i64, i64, Vec<u8>)>,
}
#[derive(Clone, Debug)]
struct Held {
    fds: Vec<String>,
    threads: usize,
}
fn tree_of(d: &Path, out: &mut BTreeMap<PathBuf, (u64, u64, i64, i64, Vec<u8>)>) {
    use std::os::unix::fs::MetadataExt;
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        let m = std::fs::symlink_metadata(&p).unwrap();
        if m.is_dir() {
            out.insert(p.clone(), (m.mode() as u64, m.ino(), 0, 0, vec![]));
            tree_of(&p, out);
        } else {
            out.insert(p.clone(), (m.mode() as u64, m.ino(), m.mtime(), m.mtime_nsec(), std::fs::read(&p).unwrap_or_default()));
        }
    }
}
fn world(root: &Path) -> World {
    use std::os::unix::fs::MetadataExt;
    let mut files = BTreeMap::new();
    tree_of(root, &mut files);
    let mut env: Vec<_> = std::env::vars_os().collect();
    env.sort();
    World {
        cwd: std::env::current_dir().unwrap_or_default(),
        env,
        umask: std::fs::read_to_string("/proc/self/status").unwrap().lines().find(|l| l.starts_with("Umask")).unwrap_or("").into(),
        std: (0..3).map(|i| std::fs::metadata(format!("/proc/self/fd/{}", i)).map(|m| (m.dev(), m.ino())).unwrap_or((0, 0))).collect(),
        files,
    }
}
fn held() -> Held {
    let mut fds: Vec<String> = std::fs::read_dir("/proc/self/fd").unwrap().map(|e| e.unwrap().path()).map(|p| format!("{} {}", p.display(), std::fs::read_link(&p).map(|p| p.display().to_string()).unwrap_or_default())).filter(|s| !s.contains("/proc/")  || !s.ends_with("/fd")).collect();
    fds.sort();
    Held { fds, threads: std::fs::read_dir("/proc/self/task").unwrap().count() }
}
/// what is different, other than the given file
fn differs(a: &World, b: &World, but: Option<&Path>) -> Option<String> {
    if a.cwd != b.cwd {
        return Some(format!("the working directory is now {:?}", b.cwd));
    }
    if a.env != b.env {
        return Some("the environment has changed".into());
    }
    if a.umask != b.umask || a.std != b.std {
        return Some("the umask or a standard stream has changed".into());
    }
    for (p, m) in &a.files {
        if Some(p.as_path()) == but {
            continue;
        }
        match b.files.get(p) {
            None => return Some(format!("{} is gone", p.display())),
            Some(n) if n != m => return Some(format!("{} has been changed, touched or replaced", p.display())),
            _ => {}
        }
    }
    b.files.keys().find(|p| !a.files.contains_key(*p) && Some(p.as_path()) != but).map(|p| format!("{} is new", p.display()))
}

const TROUBLE: [Fault; 5] = [Fault::Errno(sys::EIO), Fault::Errno(sys::EINTR), Fault::Zero, Fault::Short(1), Fault::Errno(sys::ENOSPC)];

pub fn c36(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    // calls, each with a fault at one of its file operations or none
    let (grow, calls): (bool, Vec<(usize, Option<(usize, usize)>)>) = if c.flag() {
        let k = c.pick(CALLS);
        let f = if c.flag() { Some((c.pick(24), if th { c.pick(3) } else { 0 })) } else { None };
        (true, vec![(k, f)])
    } else {
        let n = 1 + c.pick(if th { 3 } else { 2 });
        let at = c.pick(n);
        let v = (0..n)
            .map(|i| {
                let k = c.pick(CALLS);
                let f = if i == at && (n < 3 || !th) && c.flag() { Some((c.pick(if n == 1 { 40 } else { 12 }), if n == 1 || th { c.pick(5) } else { 0 })) } else { None };
                (k, f)
            })
            .collect();
        (false, v)
    };
    x.go(c)?;
    x.last_input = format!("{}{:?}", if grow { "again and again " } else { "" }, calls.iter().map(|(k, f)| (NAMES[*k], f.map(|(i, t)| (i, TROUBLE[t])))).collect::<Vec<_>>()).into_bytes();
    x.stats.impl_calls += calls.len() as u64;
    let root = x.scratch.join(format!("{}-live", x.worker));
    let file = |k: usize| root.join("in").join(format!("{}.{}", k, EXT[k])).to_str().unwrap().to_string();
    let v = in_child(|| {
        let _ = std::fs::remove_dir_all(&root);
        for d in ["in", "cwd", "tmp", "home"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        std::env::set_current_dir(root.join("cwd")).unwrap();
        std::env::set_var("TMPDIR", root.join("tmp"));
        std::env::set_var("HOME", root.join("home"));
        for v in ["XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR", "XDG_CONFIG_HOME", "XDG_STATE_HOME"] {
            std::env::set_var(v, root.join("home"));
        }
        std::fs::write(root.join("cwd").join("0.map"), b"mine").unwrap();
        std::fs::write(root.join("tmp").join("mine"), b"mine").unwrap();
        pool();
        for k in 0..CALLS {
            prepare(k, &file(k));
        }
        let done = |m: Option<String>, n: u64| {
            let mut o = Vec::new();
            put_part(&mut o, m.unwrap_or_default().as_bytes());
            put_part(&mut o, &n.to_le_bytes());
            o
        };
        // what a process does once (a pool, a table) is not left behind by a call
        let before = world(&root);
        for k in 0..CALLS {
            if k == 10 || k == 11 {
                continue;
            }
            act(k, &file(k))();
        }
        if let Some(m) = differs(&before, &world(&root), None) {
            return done(Some(format!("after one call of each kind {}", m)), 0);
        }
        act(10, &file(10))();
        act(11, &file(11))();
        let base = held();
        let prefix = root.join("in").to_str().unwrap().to_string();
        let mut applied = 0;
        if grow {
            let (k, f) = calls[0];
            let plan: Vec<(usize, Fault)> = f.iter().map(|(i, t)| (*i, TROUBLE[*t])).collect();
            let wad = matches!(k, 4..=7 | 13);
            let n = if wad { 768 } else { 128 };
            let many = |n: usize| {
                let mut fired = 0;
                for _ in 0..n {
                    // an interrupted call may be made to go on for ever only by the fault, never by its repetition
                    fired += sys::with_faults(&prefix, &plan, act(k, &file(k))).2;
                }
                fired
            };
            let mut fired = many(n / 2);
            let l0 = sys::live_bytes();
            fired += many(n);
            let l1 = sys::live_bytes();
            fired += many(n);
            let l2 = sys::live_bytes();
            let least = if wad { 4 * n as i64 } else { n as i64 };
            if l1 - l0 >= least && l2 - l1 >= least {
                return done(Some(format!("{} calls hold on to {} bytes, {} more to {} more", n, l1 - l0, n, l2 - l1)), 0);
            }
            applied = fired as u64;
        } else {
            for (k, f) in &calls {
                let plan: Vec<(usize, Fault)> = f.iter().map(|(i, t)| (*i, TROUBLE[*t])).collect();
                let target = file(*k);
                let before = world(&root);
                let call = act(*k, &target);
                let ((_, _, fired), written) = sys::with_audit(|| sys::with_faults(&prefix, &plan, call));
                applied += fired as u64;
                let save = *k == 10 || *k == 11;
                let but = if save { Some(Path::new(&target)) } else { None };
                if let Some(m) = differs(&before, &world(&root), but) {
                    return done(Some(format!("after the call \"{}\" {}", NAMES[*k], m)), 0);
                }
                for w in written {
                    let p = PathBuf::from(String::from_utf8_lossy(&w).to_string());
                    if Some(p.as_path()) != but && !p.starts_with("/dev") && !p.starts_with("/proc") && p.exists() {
                        return done(Some(format!("the call \"{}\" wrote to {}", NAMES[*k], p.display())), 0);
                    }
                }
            }
        }
        let now = held();
        if now.fds.len() > base.fds.len() {
            let extra: Vec<&String> = now.fds.iter().filter(|f| !base.fds.contains(f)).take(3).collect();
            return done(Some(format!("left open: {:?}", extra)), 0);
        }
        if now.threads > base.threads {
            return done(Some(format!("{} threads instead of {}", now.threads, base.threads)), 0);
        }
        done(None, applied)
    });
    let p = match v {
        Err(e) => return fail(format!("{}: {}", String::from_utf8_lossy(&x.last_input), e)),
        Ok(v) => parts(&v),
    };
    if !p[0].is_empty() {
        return fail(format!("{} ({})", String::from_utf8_lossy(&p[0]), String::from_utf8_lossy(&x.last_input)));
    }
    let n = u64::from_le_bytes(p[1][..].try_into().unwrap());
    if n == 0 && calls.iter().any(|c| c.1.is_some()) {
        // fewer operations than that: the same as without a fault
        return Err(Stop::Prune);
    }
    x.state(&(grow, calls.iter().map(|(k, f)| (*k, *f)).collect::<Vec<_>>()));
    x.count("faults fired", n);
    Ok(())
}
