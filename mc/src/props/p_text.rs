//! C01 - C05: from the bytes of a map file to entities.
use super::corpus::*;
use super::p_geo::*;
use crate::explore::*;
use crate::lib_run::*;
use crate::map::*;
use crate::poly::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------ C01

#[derive(Clone, Default)]
struct RefEnt {
    kvs: BTreeMap<String, String>,
    /// face line numbers of each brush
    brushes: Vec<Vec<usize>>,
}

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    File,
    Ent,
    Brush,
    Bad,
}

fn place(line: usize) -> P3 {
    [line as i64 * 64, 0, -(line as i64) * 32]
}

pub fn c01(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    match c.pick(5) {
        4 => c01_masses(c, x),
        // long sequences, then shorter ones with comments and blank lines between, then damaged maps
        0 => c01_lines(c, x, if th { 12 } else { 9 }, false),
        1 => c01_lines(c, x, if th { 8 } else { 7 }, true),
        2 => c01_edits(c, x),
        _ => c01_sizes(c, x),
    }
}

fn c01_lines(c: &mut Chooser, x: &mut Ctx, depth: usize, trivia: bool) -> R {
    let mut scope = Scope::File;
    let mut after = 0;
    let mut sym: Vec<u8> = Vec::new();
    let mut triv: Vec<u8> = Vec::new();
    while sym.len() < depth {
        // 0: the file ends here
        let menu: &[u8] = match scope {
            Scope::File => b".{}kf",
            Scope::Ent => b".}{wtkf",
            Scope::Brush => b".f}{k",
            Scope::Bad => b".}{w",
        };
        if scope == Scope::Bad {
            after += 1;
            if after > 1 {
                break;
            }
        }
        let s = *c.of(menu);
        if s == b'.' {
            break;
        }
        triv.push(if trivia { c.dev(4) as u8 } else { 0 });
        sym.push(s);
        scope = step(scope, s);
    }
    c01_judge(c, x, &sym, &triv)
}

fn step(scope: Scope, s: u8) -> Scope {
    match (scope, s) {
        (Scope::File, b'{') => Scope::Ent,
        (Scope::Ent, b'{') => Scope::Brush,
        (Scope::Ent, b'}') => Scope::File,
        (Scope::Brush, b'}') => Scope::Ent,
        (Scope::Ent, b'w') | (Scope::Ent, b't') | (Scope::Ent, b'k') => Scope::Ent,
        (Scope::Brush, b'f') => Scope::Brush,
        _ => Scope::Bad,
    }
}

/// well-formed maps with one or two lines inserted, removed, moved or repeated anywhere
fn c01_edits(c: &mut Chooser, x: &mut Ctx) -> R {
    const BASES: [&str; 8] =
        ["{w}", "{w{ffff}}", "{w{}}", "{t}{w{ffff}}", "{{ffff}w}{tk}", "{wk{ffff}{ffff}k}{tk{ffff}}", "{tk{ffff}}{w{ffff}{ffff}}{tkk}", "{w}{t{ffff}k{ffff}}{t}{t{ffff}}"];
    let mut sym: Vec<u8> = c.of(&BASES).as_bytes().to_vec();
    let edits = 1 + c.pick(2);
    let mut from = 0;
    for _ in 0..edits {
        // the second edit comes at or after the place of the first
        let at = from + c.pick(sym.len() + 1 - from);
        match c.pick(4) {
            0 => sym.insert(at, *c.of(b"{}wtkf")),
            1 if at < sym.len() => {
                sym.remove(at);
            }
            2 if at + 1 < sym.len() && sym[at] != sym[at + 1] => sym.swap(at, at + 1),
            // cut the file off here
            3 if at > 0 && at < sym.len() => sym.truncate(at),
            _ => return Err(Stop::Prune),
        }
        from = at.min(sym.len());
    }
    let triv = vec![0; sym.len()];
    c01_judge(c, x, &sym, &triv)
}

/// loads the map of these lines; the reference automaton says what must come of it
fn c01_judge(c: &mut Chooser, x: &mut Ctx, sym: &[u8], triv: &[u8]) -> R {
    let depth = sym.len();
    let tetra = gallery()[1].1.clone();
    let mut lines: Vec<String> = Vec::new();
    let mut ents: Vec<RefEnt> = Vec::new();
    let mut scope = Scope::File;
    let mut brush_line = 0;
    for (n, s) in sym.iter().enumerate() {
        match triv[n] {
            1 => lines.push("// } {".into()),
            2 => lines.push(String::new()),
            3 => lines.push("// \"classname\" \"worldspawn\"".into()),
            _ => {}
        }
        lines.push(match s {
            b'{' => "{".into(),
            b'}' => "}".into(),
            b'w' => "\"classname\" \"worldspawn\"".into(),
            b't' => format!("\"classname\" \"t{}\"", n),
            b'k' => format!("\"k{}\" \"v{}\"", n % 3, n),
            _ => {
                let i = ents.last().and_then(|e| e.brushes.last()).map(|b| b.len()).unwrap_or(0);
                Face::new(&tetra[i % 4].moved(place(brush_line)), &ftex(n)).line()
            }
        });
        match (scope, s) {
            (Scope::File, b'{') => ents.push(RefEnt::default()),
            (Scope::Ent, b'{') => {
                ents.last_mut().unwrap().brushes.push(vec![]);
                brush_line = n;
            }
            (Scope::Ent, b'w') | (Scope::Ent, b't') | (Scope::Ent, b'k') => {
                let (k, v) = match s {
                    b'w' => ("classname".to_string(), "worldspawn".to_string()),
                    b't' => ("classname".to_string(), format!("t{}", n)),
                    _ => (format!("k{}", n % 3), format!("v{}", n)),
                };
                ents.last_mut().unwrap().kvs.insert(k, v);
            }
            (Scope::Brush, b'f') => ents.last_mut().unwrap().brushes.last_mut().unwrap().push(n),
            _ => {}
        }
        scope = step(scope, *s);
    }
    x.go(c)?;
    x.state(sym);
    let classes: Vec<String> = (0..depth).map(|n| format!("t{}", n)).chain(["worldspawn".to_string()]).collect();
    let mut cfg = Cfg::default();
    for k in &classes {
        cfg.ents.push(EntDef::solid(k, true, Coll::Convex));
        cfg = cfg.strings(k, &["k0", "k1", "k2"]);
    }
    cfg.tex = (0..depth).map(|n| (ftex(n), 64, 64)).collect();
    let out = run_map(x, &cfg, (lines.join("\n") + "\n").as_bytes());
    let worlds = ents.iter().filter(|e| e.kvs.get("classname").map(|s| s.as_str()) == Some("worldspawn")).count();
    let valid = scope == Scope::File && ents.iter().all(|e| e.kvs.contains_key("classname")) && worlds == 1;
    let tree = match (out, valid) {
        (Out::Panic(p), _) => return fail(format!("loading panicked: {}", p)),
        (Out::Err(_), false) => {
            x.count("rejected_line_sequences", 1);
            return Ok(());
        }
        (Out::Tree(_), false) => return fail(format!("an ill-formed map was accepted: {:?}", lines)),
        (Out::Err(e), true) => return fail(format!("a well-formed map was rejected ({}): {:?}", e, lines)),
        (Out::Tree(t), true) => t,
    };
    x.count("accepted_line_sequences", 1);
    let all = all_actors(&tree);
    let name = |e: &RefEnt| e.kvs["classname"].clone();
    let mut want: Vec<&RefEnt> = ents.iter().filter(|e| name(e) == "worldspawn").collect();
    want.extend(ents.iter().filter(|e| name(e) != "worldspawn"));
    if all.iter().map(|a| a.1.name.clone()).collect::<Vec<_>>() != want.iter().map(|e| name(e)).collect::<Vec<_>>() {
        return fail(format!("actors {:?} for entities {:?}", all.iter().map(|a| &a.1.name).collect::<Vec<_>>(), want.iter().map(|e| name(e)).collect::<Vec<_>>()));
    }
    let t = tol(1000.0);
    for (a, e) in all.iter().zip(&want) {
        for k in ["k0", "k1", "k2"] {
            let w = Prop::Str(e.kvs.get(k).cloned().unwrap_or("<absent>".into()));
            if a.1.props.get(k) != Some(&w) {
                return fail(format!("key {} of {} is {:?}, written {:?}", k, a.1.name, a.1.props.get(k), w));
            }
        }
        let shapes: &[(V3, Vec<V3>)] = a.2.iter().find_map(|n| if let Kind::Convex(v) = &n.kind { Some(&v[..]) } else { None }).unwrap_or(&[]);
        if shapes.len() != e.brushes.len() {
            return fail(format!("{} has {} brushes, {} written", a.1.name, shapes.len(), e.brushes.len()));
        }
        let whole: Vec<&Vec<usize>> = e.brushes.iter().filter(|b| b.len() == 4).collect();
        for (s, b) in shapes.iter().zip(&e.brushes) {
            if b.len() == 4 {
                let sh = shape(&moved(&tetra, place(b[0] - 1))).unwrap();
                check_points(&sh, &s.1, t, &format!("{} brush with faces of lines {:?}", a.1.name, b))?;
            }
        }
        if !whole.is_empty() {
            let v = visual(&tree, &a.1.name)?;
            for b in whole {
                for f in b {
                    if surf(v, &ftex(*f))?.verts.len() != 3 {
                        return fail(format!("face line {} is not shown as a triangle", f));
                    }
                }
            }
        }
    }
    Ok(())
}

/// more entities, keys or brushes than 16 bits can count
fn c01_masses(c: &mut Chooser, x: &mut Ctx) -> R {
    let kind = c.pick(3);
    let n = *c.of(if x.thorough { &[65535usize, 65536, 65537, 140000][..] } else { &[65537usize, 66000][..] });
    x.go(c)?;
    x.state(&(kind, n));
    let mut t = String::from("{\n\"classname\" \"worldspawn\"\n}\n");
    let mut cfg = Cfg::default().strings("a", &["k"]).strings("b", &["k"]).ent(EntDef::solid("c", false, Coll::Convex));
    match kind {
        0 => {
            for i in 0..n {
                t += &format!("{{\n\"classname\" \"{}\"\n\"k\" \"v{}\"\n}}\n", if i % 3 == 0 { "a" } else { "b" }, i);
            }
        }
        1 => {
            let keys: Vec<String> = (0..n).map(|i| format!("q{}", i)).collect();
            cfg = cfg.strings("d", &[&keys[0], &keys[n / 2], &keys[n - 1]]);
            t += "{\n\"classname\" \"d\"\n";
            for (i, k) in keys.iter().enumerate() {
                t += &format!("\"{}\" \"v{}\"\n", k, i);
            }
            t += "}\n";
        }
        _ => {
            // brushes without faces, and a solid as the last
            t += "{\n\"classname\" \"c\"\n";
            for _ in 0..n {
                t += "{\n}\n";
            }
            t += "{\n";
            for f in &gallery()[1].1 {
                t += &(Face::new(f, "t").line() + "\n");
            }
            t += "}\n}\n";
        }
    }
    let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
    let all = all_actors(&tree);
    let want = if kind == 0 { n + 1 } else { 2 };
    if all.len() != want {
        return fail(format!("{} actors for {} entities", all.len(), want));
    }
    let value = |a: &ActorN, k: &str, i: usize| if a.props.get(k) == Some(&Prop::Str(format!("v{}", i))) { Ok(()) } else { fail(format!("key {} of {} is {:?}", k, a.name, a.props.get(k))) };
    match kind {
        0 => {
            for (i, a) in all[1..].iter().enumerate() {
                if a.1.name != ["a", "b", "b"][i % 3] {
                    return fail(format!("entity {} is {}", i, a.1.name));
                }
                value(a.1, "k", i)?;
            }
        }
        1 => {
            for i in [0, n / 2, n - 1] {
                value(all[1].1, &format!("q{}", i), i)?;
            }
        }
        _ => {
            let shapes: &[(V3, Vec<V3>)] = all[1].2.iter().find_map(|n| if let Kind::Convex(v) = &n.kind { Some(&v[..]) } else { None }).unwrap_or(&[]);
            if shapes.len() != n + 1 || shapes[..n].iter().any(|s| !s.1.is_empty()) {
                return fail(format!("{} shapes for {} brushes, {} of them with corners", shapes.len(), n + 1, shapes.iter().filter(|s| !s.1.is_empty()).count()));
            }
            check_points(&shape(&gallery()[1].1).unwrap(), &shapes[n].1, tol(100.0), "the last brush")?;
        }
    }
    Ok(())
}

/// maps of many entities, brushes, faces and keys, some entities cut off at the end
fn c01_sizes(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let kind = c.pick(6);
    // counts of any size, then of a few large sizes
    let large = kind == 5;
    let kind = if large { c.pick(4) } else { kind };
    let n = if large {
        let sizes: &[usize] = match (kind, th) {
            (2, false) => &[62, 63, 100],
            (2, true) => &[61, 62, 63, 80, 100, 125, 126, 127, 128, 160, 200],
            (_, false) => &[255, 256, 257, 300],
            _ => &[127, 128, 129, 255, 256, 257, 300, 511, 512, 513],
        };
        *c.of(sizes)
    } else {
        1 + c.pick(if th { [130, 90, 64, 200, 40] } else { [70, 40, 36, 70, 20] }[kind])
    };
    let world = c.pick(3);
    // 0: whole; others: end of the file missing
    let cut = c.pick(3);
    x.go(c)?;
    x.state(&(kind, n, world, cut));
    let g = gallery();
    let solid = |e: usize, b: usize, f: usize| -> Vec<PlaneI> {
        let at = [b as i64 * 96 - 2000, e as i64 * 96 - 1500, 0];
        if f > 0 {
            moved(&prism(&ngon(f, if f > 50 { 8000 } else { 640 }), -16, 16), [e as i64 * 1500, b as i64 * 1500, 0])
        } else {
            moved(&g[(b + e) % 3].1, at)
        }
    };
    // (brushes, faces of the prisms or 0 for small solids, keys) of every entity
    let shape_of: Vec<(usize, usize, usize)> = match kind {
        0 => (0..n).map(|i| (i % 2, 0, i % 3)).collect(),
        1 => vec![(1, 0, 1), (n, 0, 1), (1, 0, 1)],
        2 => vec![(1, n + 2, 1), (1, n + 3, 0)],
        3 => vec![(0, 0, n), (1, 0, n), (0, 0, 1)],
        _ => (0..n).map(|i| (1 + (i * 7) % 5, 0, (i * 3) % 7)).collect(),
    };
    let mut ents = Vec::new();
    let mut solids: Vec<Vec<Vec<PlaneI>>> = Vec::new();
    for (i, (b, f, k)) in shape_of.iter().enumerate() {
        let mut e = Ent::new(&format!("e{}", i));
        for q in 0..*k {
            e = e.kv(&format!("k{}", q), &format!("v{}.{}", i, q));
        }
        let mut ss = Vec::new();
        for q in 0..*b {
            let s = solid(i, q, *f);
            e = e.brush(Brush::of(&s, |z| format!("x{}y{}z{}", i, q, z)));
            ss.push(s);
        }
        ents.push(e);
        solids.push(ss);
    }
    let w = [0, ents.len() / 2, ents.len()][world];
    ents.insert(w, Ent::new("worldspawn").kv("k0", "w"));
    let mut l = lines(&ents);
    for _ in 0..cut {
        l.pop();
    }
    let mut cfg = Cfg::default();
    let most = shape_of.iter().map(|s| s.2).max().unwrap();
    let keys: Vec<String> = (0..most.max(1)).map(|i| format!("k{}", i)).collect();
    let keys: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
    cfg = cfg.strings("worldspawn", &keys);
    for (i, ss) in solids.iter().enumerate() {
        cfg.ents.push(EntDef::solid(&format!("e{}", i), true, Coll::Convex));
        cfg = cfg.strings(&format!("e{}", i), &keys);
        for (q, s) in ss.iter().enumerate() {
            for z in 0..s.len() {
                cfg.tex.push((format!("x{}y{}z{}", i, q, z), 64, 64));
            }
        }
    }
    let out = run_map(x, &cfg, (l.join("\n") + "\n").as_bytes());
    let last_has = |e: &Ent| !e.brushes.is_empty() || e.kvs.len() > 0;
    if cut > 0 {
        let _ = last_has;
        return match out {
            Out::Err(_) => Ok(()),
            Out::Panic(p) => fail(format!("loading panicked: {}", p)),
            Out::Tree(_) => fail(format!("a map ending inside an entity was accepted ({} lines missing)", cut)),
        };
    }
    let tree = out.tree()?;
    let all = all_actors(&tree);
    if all.len() != shape_of.len() + 1 {
        return fail(format!("{} actors for {} entities", all.len(), shape_of.len() + 1));
    }
    if all[0].1.name != "worldspawn" || all[0].1.props.get("k0") != Some(&Prop::Str("w".into())) {
        return fail(format!("first actor {:?}", all[0].1));
    }
    for (i, (_, _, k)) in shape_of.iter().enumerate() {
        let (_, a, ch, _) = &all[i + 1];
        if a.name != format!("e{}", i) {
            return fail(format!("actor {} is {} instead of e{}", i + 1, a.name, i));
        }
        for (q, key) in keys.iter().enumerate() {
            let want = if q < *k { format!("v{}.{}", i, q) } else { "<absent>".into() };
            if a.props.get(*key) != Some(&Prop::Str(want.clone())) {
                return fail(format!("{} has {} = {:?}, written {:?}", a.name, key, a.props.get(*key), want));
            }
        }
        let shapes: &[(V3, Vec<V3>)] = ch.iter().find_map(|n| if let Kind::Convex(v) = &n.kind { Some(&v[..]) } else { None }).unwrap_or(&[]);
        if shapes.len() != solids[i].len() {
            return fail(format!("{} has {} brushes, {} written", a.name, shapes.len(), solids[i].len()));
        }
        for (q, s) in solids[i].iter().enumerate() {
            let (sh, t) = match shape(s) {
                Some(sh) => {
                    let t = tol(sh.extent());
                    (sh, t)
                }
                None => return Err(Stop::Prune),
            };
            check_points(&sh, &shapes[q].1, t, &format!("{} brush {}", a.name, q))?;
            let v = visual(&tree, &a.name)?;
            for z in 0..s.len() {
                check_face(&sh, z, surf(v, &format!("x{}y{}z{}", i, q, z))?, t)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

fn alive(o: Out) -> R {
    match o {
        Out::Panic(p) => fail(format!("loading panicked: {}", p)),
        _ => Ok(()),
    }
}

pub fn rich_cfg() -> Cfg {
    let mut cfg = Cfg::default();
    for (i, n) in ["a", "b", "lay", "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"].iter().enumerate() {
        cfg.tex.push((n.to_string(), 16 << (i % 4), 64));
    }
    cfg.bl_face = vec!["b".into()];
    cfg.bl_brush = vec!["f7".into()];
    for k in ["worldspawn", "func"] {
        cfg.ents.push(EntDef::solid(k, true, Coll::Concave));
    }
    cfg.ents.push(EntDef::solid("func_group", true, Coll::Convex));
    cfg.ents.push(EntDef::point("light"));
    cfg.layers.push(LayerDef { name: "Layer".into(), texture: "lay".into(), etype: EType::Placeholder, script: None, visual: true, coll: Coll::Convex });
    cfg.forge.extend(typed_class("light"));
    cfg.forge.extend(typed_class("func"));
    cfg
}

/// a class with one property of every kind, named after its kind
pub fn typed_class(class: &str) -> Option<quarchitect::game_data::forge::Entity> {
    use quarchitect::game_data::forge::*;
    use quarchitect::{Color, Vector3};
    let p = |n: &str, d: PropertyData| Property::new(n, "", "", d);
    Some(Entity::new(
        ClassType::PointClass,
        vec![],
        class,
        "",
        vec![
            p("int", PropertyData::Integer(3)),
            p("float", PropertyData::Float(0.5)),
            p("vec", PropertyData::Vector3(Vector3::new(1.0, 2.0, 3.0))),
            p("str", PropertyData::String("s".into())),
            p("color", PropertyData::Color(Color::new(0.2, 0.4, 0.6))),
            p("choice", PropertyData::Choices(vec![Choice::integer("four", 4), Choice::string("five", "five")], 1)),
            p("flags", PropertyData::Flags(vec!["x".into(), "y".into()], 2)),
            p("ts", PropertyData::TargetSource),
            p("td", PropertyData::TargetDestination),
        ],
    ))
}

/// representative maps: every dialect, groups, layers, phong, properties of all kinds
pub fn rich_maps() -> Vec<Vec<Ent>> {
    let g = gallery();
    let valve = |b: Brush| {
        let mut b = b;
        for f in b.faces.iter_mut() {
            f.uv = Uv::Valve { u: [1.0, 0.0, 0.0], uo: 8.0, v: [0.0, -1.0, 0.5], vo: -4.0 };
            f.rot = 30.0;
            f.scale = [0.5, -2.0];
        }
        b
    };
    let extra = |b: Brush, e: &[&str]| {
        let mut b = b;
        for f in b.faces.iter_mut() {
            f.extra = e.iter().map(|s| s.to_string()).collect();
        }
        b
    };
    let box0 = |k: &'static str| Brush::of(&g[0].1, |_| k.to_string());
    let tet = |t: P3| Brush::of(&moved(&g[1].1, t), |i| ftex(i));
    vec![
        vec![Ent::new("worldspawn").kv("mapversion", "220").brush(tet([0, 0, 0]))],
        vec![Ent::new("worldspawn").brush(valve(box0("lay"))).brush(extra(tet([100, 0, 0]), &["0", "1", "2.5"]))],
        vec![
            Ent::new("light").kv("origin", "1 2 3").kv("int", "7").kv("color", "255 128 0").kv("_tb_id", "1").kv("_tb_group", "2"),
            Ent::new("func_group").kv("_tb_id", "2").kv("_phong", "1").kv("_phong_angle", "60").brush(extra(tet([0, 64, 0]), &["0", "1", "2", "255", "0", "9"])),
            Ent::new("worldspawn").kv("_tb_id", "9"),
            Ent::new("func").kv("choice", "five").kv("flags", "3").kv("vec", "1 2 3").brush(extra(tet([0, 0, 80]), &["3"])),
        ],
        vec![Ent::new("worldspawn"), Ent::new("func").brush(valve(extra(Brush::of(&g[7].1, |i| if i % 3 == 0 { "b".into() } else { ftex(i) }), &["1"])))],
    ]
}

const BAD_TOKENS: [&str; 24] = [
    "", "x", "1e39", "-1e39", "3.4e38", "nan", "inf", "-inf", "1e-45", "0", "-0", "99999999999999999999", "(", ")", "[", "]", "\"", "//", "{", "}", "1,5", "é", "0x10", "1 2",
];

fn degenerate(c: &mut Chooser, x: &mut Ctx, cfg: &Cfg) -> Result<Vec<Ent>, Stop> {
    let _ = cfg;
    // points chosen so that many triples are collinear, coincident or parallel
    let th = x.thorough;
    let mut faces: Vec<[[f64; 3]; 3]> = Vec::new();
    let kind = c.pick(4);
    let mut uvk = 0;
    let phong;
    match kind {
        0 => {
            // planes from a pool with parallel, repeated, inverted and pointless ones
            let s = gallery()[0].1.clone();
            let mut pool: Vec<[P3; 3]> = s.iter().map(|p| p.pts).collect();
            pool.push([s[0].pts[0], s[0].pts[2], s[0].pts[1]]);
            pool.push([[0, 0, 0], [0, 0, 0], [0, 0, 0]]);
            pool.push([[0, 0, 0], [1, 1, 1], [2, 2, 2]]);
            pool.push([[0, 0, 0], [0, 0, 0], [0, 0, 16]]);
            pool.push([[0, 0, 0], [16, 0, 0], [0, 16, 0]]);
            pool.push([[1, 0, 0], [0, 1, 0], [0, 0, 1]]);
            let n = c.pick(if th { 5 } else { 4 } + 1);
            let mut from = 0;
            for _ in 0..n {
                from += c.pick(pool.len() - from);
                let p = pool[from];
                faces.push([f3(p[0]), f3(p[1]), f3(p[2])]);
            }
            uvk = c.pick(4);
            phong = c.pick(2);
        }
        1 => {
            // all point triples of a tiny grid for one plane of a box
            let s = gallery()[0].1.clone();
            for p in &s {
                faces.push([f3(p.pts[0]), f3(p.pts[1]), f3(p.pts[2])]);
            }
            let v: [P3; 6] = [[0, 0, 0], [16, 0, 0], [16, 24, 0], [16, 24, 32], [-16, -24, -32], [0, 0, 1]];
            let i = c.pick(6);
            faces[i] = [f3(*c.of(&v)), f3(*c.of(&v)), f3(*c.of(&v))];
            uvk = c.pick(4);
            phong = c.pick(2);
        }
        2 => {
            // extreme sizes
            let g = gallery();
            let k = *c.of(&[1e-30, 1e-6, 1e6, 1e12, 1e18, 1e30, 1e36, 1e37]);
            let at = *c.of(&[0.0, 1.0, 1e9, 1e37, 3e38]);
            let s = c.of(&g).1.clone();
            for p in &s {
                faces.push([0, 1, 2].map(|q| f3(p.pts[q]).map(|z| z * k + at)));
            }
            uvk = c.pick(4);
            phong = c.pick(2);
        }
        _ => {
            // big faces whose corners partly leave the range of the numbers
            let n = *c.of(&[24usize, 32, 40]);
            let k = *c.of(&[1.0, 1e20, 1e35, 4e35]);
            let at = *c.of(&[0.0, 1e38, 2e38]);
            for p in prism(&ngon(n, 640), -16, 16) {
                faces.push([0, 1, 2].map(|q| {
                    let v = f3(p.pts[q]);
                    [v[0] * k + at, v[1] * k, v[2]]
                }));
            }
            phong = c.pick(2);
        }
    }
    let coll = c.pick(2);
    x.go(c)?;
    let mut e = Ent::new(if coll == 0 { "func" } else { "func_group" });
    if phong == 1 {
        e = e.kv("_phong", "1").kv("_phong_angle", "45");
    }
    e.brushes.push(Brush::default());
    let mut out = vec![Ent::new("worldspawn"), e];
    let mut raw = Vec::new();
    for (i, f) in faces.iter().enumerate() {
        let mut s = String::new();
        for p in f {
            s += &format!("( {} {} {} ) ", p[0], p[1], p[2]);
        }
        s += &ftex(i % 8);
        s += match uvk {
            0 => " 0 0 0 1 1",
            1 => " 0 0 45 0 0",
            2 => " [ 0 0 0 0 ] [ 0 0 0 0 ] 0 1 1",
            _ => " [ 1 0 0 3e38 ] [ 0 1e38 0 0 ] 1e30 1e-40 -3e38",
        };
        raw.push(s);
    }
    // faces carry their text in the texture field of a stand-in
    out[1].brushes[0].faces = raw
        .iter()
        .map(|s| Face { pts: [[0; 3]; 3], div: 1, tex: s.clone(), uv: Uv::Std { u: 0.0, v: 0.0 }, rot: 0.0, scale: [1.0, 1.0], extra: vec!["RAW".into()] })
        .collect();
    Ok(out)
}

fn raw_text(ents: &[Ent]) -> String {
    let mut o = String::new();
    for e in ents {
        o += "{\n";
        for (k, v) in &e.kvs {
            o += &format!("\"{}\" \"{}\"\n", k, v);
        }
        for b in &e.brushes {
            o += "{\n";
            for f in &b.faces {
                o += &if f.extra.first().map(|s| s.as_str()) == Some("RAW") { f.tex.clone() } else { f.line() };
                o += "\n";
            }
            o += "}\n";
        }
        o += "}\n";
    }
    o
}

pub fn c02(c: &mut Chooser, x: &mut Ctx) -> R {
    let cfg = rich_cfg();
    let maps = rich_maps();
    let th = x.thorough;
    let kind = c.pick(11);
    match kind {
        0 => {
            // all short sequences of odd lines
            const L: [&str; 15] = [
                "{", "}", "\"classname\" \"worldspawn\"", "\"classname\" \"func\"", "\"", "\"\"", "\"a\" \"", "\"a\"", "(", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) f0 0 0 0 1 1",
                "/", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) f0 0 0 0 1 1 1 1", "\"origin\" \"x\"", " {", "\u{feff}{",
            ];
            let n = c.pick(if th { 6 } else { 5 });
            let mut s = String::new();
            for _ in 0..n {
                s += L[c.pick(L.len())];
                s.push('\n');
            }
            x.go(c)?;
            x.state(&s);
            alive(run_map(x, &cfg, s.as_bytes()))
        }
        1 => {
            // every truncation
            let m = c.pick(maps.len());
            let t = text(&maps[m]);
            let crlf = c.flag();
            let t = if crlf { t.replace('\n', "\r\n") } else { t };
            let n = c.pick(t.len() + 1);
            x.go(c)?;
            x.state(&(1, m, crlf, n));
            alive(run_map(x, &cfg, &t.as_bytes()[..n]))
        }
        2 => {
            // every single byte replaced, removed or inserted
            let m = c.pick(maps.len());
            let t = text(&maps[m]).into_bytes();
            let n = c.pick(t.len());
            const B: &[u8] = b" \"{}(/[-x\n\r\0.9";
            let how = c.pick(2 * B.len() + 3);
            x.go(c)?;
            x.state(&(2, m, n, how));
            let mut u = t.clone();
            if how < B.len() {
                u[n] = B[how];
            } else if how < 2 * B.len() {
                u.insert(n, B[how - B.len()]);
            } else if how == 2 * B.len() {
                u.remove(n);
            } else if how == 2 * B.len() + 1 {
                u[n] = 0xff;
            } else {
                u.insert(n, 0xc3);
            }
            alive(run_map(x, &cfg, &u))
        }
        3 => {
            // every field of a face line replaced, one or two at a time
            let b = &maps[1][0].brushes;
            let line = [maps[0][0].brushes[0].faces[0].line(), b[0].faces[0].line(), b[1].faces[0].line(), maps[2][1].brushes[0].faces[1].line()][c.pick(4)].clone();
            let mut tk: Vec<String> = line.split(' ').map(|s| s.to_string()).collect();
            let i = c.pick(tk.len());
            let a = c.pick(BAD_TOKENS.len() + 2);
            let j = if th || a < 4 { c.pick(tk.len()) } else { i };
            let z = if i == j { 0 } else { c.pick(if th { BAD_TOKENS.len() } else { 8 }) };
            x.go(c)?;
            x.state(&(3, &line, i, a, j, z));
            if i != j {
                tk[j] = BAD_TOKENS[z].into();
            }
            match a {
                a if a < BAD_TOKENS.len() => tk[i] = BAD_TOKENS[a].into(),
                a if a == BAD_TOKENS.len() => {
                    tk.remove(i);
                }
                _ => {
                    let q = tk[i].clone();
                    tk.insert(i, q);
                }
            }
            let mut l = lines(&maps[0]);
            let at = l.iter().position(|s| s.starts_with('(')).unwrap();
            l[at] = tk.join(" ");
            alive(run_map(x, &cfg, l.join("\n").as_bytes()))
        }
        4 => {
            let e = degenerate(c, x, &cfg)?;
            let t = raw_text(&e);
            x.state(&t);
            alive(run_map(x, &cfg, t.as_bytes()))
        }
        5 => {
            // ids and groups of all kinds
            const V: [Option<&str>; 6] = [None, Some("1"), Some("2"), Some("3"), Some("x"), Some("")];
            let n = 3;
            let mut q = Vec::new();
            for i in 0..n {
                q.push((V[c.pick(6)], V[c.pick(if i == 2 && !th { 5 } else { 6 })]));
            }
            x.go(c)?;
            x.state(&q);
            let mut e: Vec<Ent> = Vec::new();
            for (i, (id, gr)) in q.iter().enumerate() {
                let mut k = Ent::new(if i == 0 { "worldspawn" } else { "light" });
                if let Some(id) = id {
                    k = k.kv("_tb_id", id);
                }
                if let Some(g) = gr {
                    k = k.kv("_tb_group", g);
                }
                e.push(k);
            }
            alive(run_map(x, &cfg, text(&e).as_bytes()))
        }
        6 => {
            // long group chains, rings, stars; both orders
            let top = if th { 20000 } else { 5000 };
            let n = *c.of(&[2usize, 10, 50, 150, 1000, top]);
            let how = c.pick(5);
            x.go(c)?;
            x.state(&(6, n, how));
            let mut e = vec![Ent::new("worldspawn")];
            for i in 0..n {
                let g = match how {
                    0 => i + 1,
                    1 => (i + n - 1) % n,
                    2 => (i + 1) % n,
                    3 => 0,
                    _ => i / 2,
                };
                e.push(Ent::new("light").kv("_tb_id", &i.to_string()).kv("_tb_group", &g.to_string()));
            }
            let p = put(x, "in.map", text(&e).as_bytes());
            x.stats.impl_calls += 1;
            match std::panic::catch_unwind(|| quarchitect::run(config(&p, &cfg)).map(|t| t.len()).map_err(|e| e.to_string())) {
                Ok(r) => {
                    x.outcome(&r);
                    Ok(())
                }
                Err(p) => fail(format!("loading {} entities grouped by rule {} panicked: {}", n, how, crate::explore::panic_text(p))),
            }
        }
        7 => {
            // property and origin texts
            const T: [&str; 20] = [
                "", " ", "x", "1", "1 2", "1 2 3", "1 2 3 4", "nan nan nan", "inf", "1e99 1e99 1e99", "99999999999", "-1", "1.5", "é", "  1  2  3", "\t", "-", "+", "1e", "0x1",
            ];
            const K: [&str; 16] = ["int", "float", "vec", "str", "color", "choice", "flags", "ts", "td", "origin", "_tb_id", "_tb_group", "_tb_type", "_tb_name", "_phong", "_phong_angle"];
            let k = c.pick(K.len());
            let v = c.pick(T.len());
            let k2 = c.pick(K.len());
            let v2 = if th { c.pick(T.len()) } else { [0, 2, 5, 7, 9][c.pick(5)] };
            let cl = *c.of(&["light", "func", "worldspawn"]);
            x.go(c)?;
            x.state(&(7, k, v, k2, v2, cl));
            let mut e = vec![Ent::new(cl).kv(K[k], T[v]).kv(K[k2], T[v2]).brush(maps[0][0].brushes[0].clone())];
            if cl != "worldspawn" {
                e.push(Ent::new("worldspawn"));
            }
            alive(run_map(x, &cfg, text(&e).as_bytes()))
        }
        10 => {
            // names of all kinds: one character, two odd ones, three of the oddest
            const ODD: [&str; 26] = ["+", "*", "{", "}", "!", "~", "-", "$", "@", "#", "%", "^", "&", "/", "\\", ".", ":", "_", "0", "9", "a", "Z", "\u{e9}", "\u{4e16}", "(", "["];
            let place = c.pick(6);
            let name: String = match c.pick(4) {
                0 => char::from(33 + c.pick(94) as u8).to_string(),
                1 => format!("{}{}", c.of(&ODD), c.of(&ODD)),
                2 => {
                    let l = &ODD[..if th { 26 } else { 0 }];
                    let l = if l.is_empty() { &["+", "*", "{", "-", "/", ".", "0", "a", "\u{e9}"][..] } else { l };
                    format!("{}{}{}", c.of(l), c.of(l), c.of(l))
                }
                _ => c.of(&["\u{e9}", "\u{4e16}", "a\u{301}", "\u{1f600}", "\u{130}", "\u{df}", "\u{feff}", "\u{0}", "\u{7f}", "x".repeat(300).as_str(), "\u{4e16}".repeat(99).as_str(), "__TB_empty", "null", "clip", "skip"]).to_string(),
            };
            let known = c.pick(3);
            x.go(c)?;
            x.state(&(10, place, &name, known));
            let mut cf = cfg;
            let mut e = vec![Ent::new("worldspawn").brush(maps[0][0].brushes[0].clone()), Ent::new("func").brush(maps[0][0].brushes[0].clone())];
            match known {
                0 => {}
                1 => {
                    cf.tex.push((name.clone(), 64, 64));
                    cf.bl_face.push(name.clone());
                    cf.ents.push(EntDef::solid(&name, true, Coll::Convex));
                    cf.forge.extend(typed_class(&name));
                }
                _ => {
                    cf.tex.push((name.to_lowercase(), 64, 64));
                    cf.bl_brush.push(name.to_lowercase());
                    cf.layers.push(LayerDef { name: name.clone(), texture: name.to_lowercase(), etype: EType::Placeholder, script: None, visual: true, coll: Coll::Convex });
                }
            }
            match place {
                0 => e[0].brushes[0].faces.iter_mut().for_each(|f| f.tex = name.clone()),
                1 => e[1].brushes[0].faces[2].tex = name.clone(),
                2 => e[1].kvs[0].1 = name.clone(),
                3 => e[1].kvs.push((name.clone(), name.clone())),
                4 => ["_tb_id", "_tb_group", "_tb_name", "_tb_type", "origin", "_phong", "_phong_angle"].iter().for_each(|k| e[1].kvs.push((k.to_string(), name.clone()))),
                _ => e[1].kvs.extend([("int", &name), ("vec", &name), ("color", &name), ("choice", &name), ("flags", &name)].iter().map(|k| (k.0.to_string(), k.1.to_string()))),
            }
            alive(run_map(x, &cf, text(&e).as_bytes()))
        }
        8 => {
            // no file, a folder, odd whole files; odd configurations
            let k = c.pick(14);
            let conf = c.pick(4);
            x.go(c)?;
            x.state(&(8, k, conf));
            let mut cf = match conf {
                0 => cfg,
                1 => Cfg::default(),
                2 => Cfg { tex: vec![("f0".into(), 0, 0), ("lay".into(), 0, 7)], ..cfg },
                _ => Cfg { layers: (0..3).map(|_| cfg.layers[0].clone()).collect(), ..cfg },
            };
            cf.ents.push(EntDef::solid("func", false, Coll::Convex));
            let t = match k {
                0 => {
                    let p = x.scratch.join("no-such.map");
                    x.stats.impl_calls += 1;
                    return alive(run_config(config(p.to_str().unwrap(), &cf)));
                }
                1 => {
                    x.stats.impl_calls += 1;
                    let p = x.scratch.to_str().unwrap().to_string();
                    return alive(run_config(config(&p, &cf)));
                }
                2 => {
                    x.stats.impl_calls += 1;
                    return alive(run_config(config("", &cf)));
                }
                3 => vec![],
                4 => b"\n".to_vec(),
                5 => vec![0xff; 40],
                6 => vec![0; 1000],
                7 => [b"\xef\xbb\xbf".to_vec(), text(&maps[0]).into_bytes()].concat(),
                8 => "{".repeat(5000).into_bytes(),
                9 => "{\n".repeat(5000).into_bytes(),
                10 => "\"".repeat(5000).into_bytes(),
                11 => "( ".repeat(5000).into_bytes(),
                12 => text(&maps[2]).into_bytes(),
                _ => text(&maps[1]).into_bytes(),
            };
            alive(run_map(x, &cf, &t))
        }
        _ => {
            // two lines of a whole map dropped, repeated or swapped
            let m = c.pick(maps.len());
            let mut l = lines(&maps[m]);
            let i = c.pick(l.len());
            let j = c.pick(l.len());
            let how = c.pick(4);
            x.go(c)?;
            x.state(&(9, m, i, j, how));
            match how {
                0 => l.swap(i, j),
                1 => {
                    l.remove(i);
                    if j < l.len() {
                        l.remove(j);
                    }
                }
                2 => {
                    let q = l[i].clone();
                    l.insert(j, q);
                }
                _ => {
                    let q = l.remove(i);
                    l.insert(j, q);
                }
            }
            alive(run_map(x, &cfg, l.join("\n").as_bytes()))
        }
    }
}

// ------------------------------------------------------------------------------------------ C03

const TRIVIA: [&str; 18] = [
    "", "//", "// comment", "/", "/*", "// {", "// }", "//{", "/}", "// \"classname\" \"worldspawn\"", "// ( 0 0 0 ) ( 0 64 0 ) ( 0 0 64 ) f0 0 0 0 1 1", "// \u{fc}\u{4e16}", "//\t", "// entity 0", "// brush 0",
    "// Game: Quake", "/\"k\" \"v\"", " ",
];

const SIGNS: [char; 22] = ['/', '*', '\\', '"', '{', '}', '(', ')', '[', ']', ' ', '\t', 'a', '0', '!', '#', ';', '@', '\'', '%', '-', '\u{e9}'];
const REMARKS: [&str; 24] = [
    "// Game: Quake", "// Format: Valve", "// Format: Standard", "// Format: Quake2", "// Format: Quake2 (Valve)", "// Format: Hexen2", "// Format: Daikatana", "// entity 0", "// entity 7", "// brush 0", "// brush 3",
    "// hidden", "// disabled", "// end", "// EOF", "// worldspawn", "// \"mapversion\" \"220\"", "//$region", "// skip", "// }", "// {", "/* */", "// ( 0 0 0 )", "// TrenchBroom",
];

/// every text of up to n of these characters
pub fn short_text(c: &mut Chooser, n: usize, signs: &[char]) -> String {
    let l = c.pick(n + 1);
    (0..l).map(|_| *c.of(signs)).collect()
}

pub fn c03(c: &mut Chooser, x: &mut Ctx) -> R {
    let mut maps: Vec<Vec<String>> = rich_maps().iter().map(|m| lines(m)).collect();
    // short maps for the exhaustive parts, including rejected ones
    maps.push(["{", "\"classname\" \"worldspawn\"", "}"].map(String::from).to_vec());
    maps.push(["{", "\"classname\" \"func\"", "}", "{", "\"classname\" \"worldspawn\"", "\"k\" \"v\"", "}"].map(String::from).to_vec());
    maps.push(["{", "}"].map(String::from).to_vec());
    maps.push(["{", "\"classname\" \"worldspawn\"", "{", "}"].map(String::from).to_vec());
    maps.push(vec![]);
    maps.push(["{", "\"classname\" \"worldspawn\"", "{", "\"k\" \"v\"", "}", "}"].map(String::from).to_vec());
    let kind = c.pick(6);
    let m = if kind == 5 { *c.of(if x.thorough { &[1usize, 2, 5][..] } else { &[2, 5][..] }) } else { c.pick(maps.len()) };
    let base = maps[m].clone();
    let n = base.len();
    let mut out: Vec<(String, &'static str)> = base.iter().map(|l| (l.clone(), "\n")).collect();
    let mut fin = true;
    match kind {
        0 => {
            // up to k insertions anywhere
            let k = if x.thorough { 3 } else { 2 };
            let mut from = 0;
            let mut ins = Vec::new();
            let used = 1 + c.pick(if n > 20 { 2.min(k) } else { k });
            for q in 0..used {
                from += c.pick(n + 1 - from);
                let t = if used == 1 || (x.thorough && n < 10) { c.pick(TRIVIA.len()) } else { [7, 0, 1, 9][c.pick(if x.thorough || n < 20 { 3 } else { 1 + q })] };
                ins.push((from, TRIVIA[t]));
            }
            for (at, t) in ins.iter().rev() {
                out.insert(*at, (t.to_string(), "\n"));
            }
            if c.flag() {
                out.iter_mut().for_each(|l| l.1 = "\r\n");
            }
            fin = c.flag();
        }
        1 => {
            // every subset of insertion points and line endings of short maps
            if n > if x.thorough { 9 } else { 6 } {
                // in longer maps: all lines up to a point
                let p = c.pick(n + 1);
                let t = TRIVIA[c.pick(TRIVIA.len())];
                for i in (0..p).rev() {
                    out.insert(i, (t.to_string(), "\n"));
                }
            } else {
                let t = TRIVIA[c.pick(TRIVIA.len())];
                for i in (0..=n).rev() {
                    if c.flag() {
                        out.insert(i, (t.to_string(), "\n"));
                    }
                }
            }
            match c.pick(3) {
                1 => out.iter_mut().for_each(|l| l.1 = "\r\n"),
                2 => out.iter_mut().enumerate().for_each(|(i, l)| l.1 = ["\n", "\r\n"][i % 2]),
                _ => {}
            }
        }
        2 => {
            // line endings: all subsets of short maps, single departures and prefixes of long ones
            if n <= if x.thorough { 12 } else { 9 } {
                for l in out.iter_mut() {
                    if c.flag() {
                        l.1 = "\r\n";
                    }
                }
            } else {
                let (p, how) = (c.pick(n), c.pick(3));
                for (i, l) in out.iter_mut().enumerate() {
                    let cr = match how {
                        0 => i == p,
                        1 => i != p,
                        _ => i <= p,
                    };
                    if cr {
                        l.1 = "\r\n";
                    }
                }
            }
            fin = c.flag();
        }
        3 => {
            // many trivia lines
            let k = c.pick(if x.thorough { 300 } else { 70 });
            let p = c.pick((n + 1).min(if x.thorough { 12 } else { 7 }));
            let t = TRIVIA[if x.thorough { c.pick(TRIVIA.len()) } else { [0, 2, 5][c.pick(3)] }];
            for i in 0..k {
                out.insert(p, (if t.len() > 2 { format!("{} {}", t, i) } else { t.into() }, "\n"));
            }
            if c.flag() {
                out.iter_mut().for_each(|l| l.1 = "\r\n");
            }
        }
        5 => {
            // every short comment text, alone or at either end of words; then texts that tools write
            let text = if c.flag() {
                c.of(&REMARKS).to_string()
            } else {
                let s = short_text(c, if x.thorough { 3 } else { 2 }, &SIGNS);
                match c.pick(3) {
                    0 => format!("/{}", s),
                    1 => format!("// {} some words", s),
                    _ => format!("// some words {}", s),
                }
            };
            let at = [0, 1, n / 2, n - 1, n];
            out.insert(*c.of(if x.thorough { &at } else { &at[1..4] }), (text, "\n"));
        }
        _ => {
            // long comments
            let len = *c.of(&[10usize, 100, 1000, 8191, 8192, 70000]);
            let p = c.pick(n + 1);
            let ch = *c.of(&["x", "{", "\"", "( ", "\u{e9}"]);
            out.insert(p, (format!("//{}", ch.repeat(len)), "\n"));
        }
    }
    x.go(c)?;
    let mut t = String::new();
    let last = out.len();
    for (i, (l, e)) in out.iter().enumerate() {
        t += l;
        if i + 1 < last || fin {
            t += e;
        }
    }
    x.state(&(m, &t));
    let cfg = rich_cfg();
    let want = run_map(x, &cfg, (base.join("\n") + if base.is_empty() { "" } else { "\n" }).as_bytes());
    let got = run_map(x, &cfg, t.as_bytes());
    let same = match (&want, &got) {
        (Out::Err(_), Out::Err(_)) => true,
        (Out::Tree(a), Out::Tree(b)) => exact(a) == exact(b),
        _ => false,
    };
    if !same {
        return fail(format!("the same map with other comments, blank lines or line endings loads differently:\n{:?}\nwithout:\n{:?}", short(&got), short(&want)));
    }
    Ok(())
}
fn short(o: &Out) -> String {
    format!("{:?}", o).chars().take(500).collect()
}

// ------------------------------------------------------------------------------------------ C04

const KEYS: [&str; 8] = ["k", "K", "a b", "", "origin", "k/", "spawnflags", "\u{e9}{"];
const VALUES: [&str; 26] = [
    "v", "", " v ", "a/b", "//x", "{", "}", "( 1 2 3 )", "\u{e9} \u{4e16}", "\\", "\\n", "a\tb", "1 2 3", "'", "/", "classname", "<absent>", "a  b", "[ ]", "\u{2028}", "\u{85}x", "-0", "a\rb", "007", "V", "\u{1f600}",
];

pub fn c04(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    // entities as lists of key/value lines, written with the given separator
    let mut ents: Vec<(String, Vec<(String, String)>, bool)> = Vec::new();
    let mut sep = "\" \"";
    let mut tail = "";
    match c.pick(8) {
        7 => {
            // texts that mean something elsewhere, and their relatives
            let all = crate::names::texts();
            let s = c.of(&all).clone();
            let long = s.len() > 2000 && !th;
            let r = crate::names::relatives(&s);
            let some = if long { 3 } else if th { 4000 } else { 40 };
            let r: Vec<String> = r.iter().step_by(r.len() / some + 1).cloned().collect();
            let r = c.of(&r).clone();
            match c.pick(5) {
                // keys beside each other, in either order
                0 => {
                    let mut l = vec![(s, "first".to_string()), (r, "second".to_string())];
                    if c.flag() {
                        l.reverse();
                    }
                    if l.iter().any(|k| k.0 == "classname") {
                        return Err(Stop::Prune);
                    }
                    ents.push(("one".into(), l, false));
                }
                // values after each other
                1 => ents.push(("one".into(), vec![("k".into(), s), ("K".into(), "z".into()), ("k".into(), r)], c.flag())),
                // key and value
                2 => {
                    if s == "classname" || r == "worldspawn" {
                        return Err(Stop::Prune);
                    }
                    ents.push(("one".into(), vec![(s.clone(), r.clone()), ("o".into(), "x".into())], false));
                }
                // classnames
                3 => {
                    if r == "worldspawn" || s == "worldspawn" {
                        return Err(Stop::Prune);
                    }
                    ents.push((s, vec![("k".into(), "v".into())], c.flag()));
                    ents.push((r, vec![("k".into(), "w".into())], false));
                }
                // worldspawn's own keys
                _ => {
                    if s == "classname" || r == "classname" {
                        return Err(Stop::Prune);
                    }
                    ents.push(("worldspawn".into(), vec![(s.clone(), r.clone()), ("o".into(), s)], false));
                }
            }
        }
        6 => {
            // every short text, alone or at either end of a word, as value or key
            let signs: Vec<char> = SIGNS.iter().copied().filter(|s| *s != '"').chain(['\r', '$', '&', '<', '|', '\u{1}']).collect();
            let s = short_text(c, if th { 3 } else { 2 }, &signs);
            let s = match c.pick(3) {
                0 => s,
                1 => format!("{}word", s),
                _ => format!("word{}", s),
            };
            let kv = if c.flag() { (s, "v".to_string()) } else { ("k".to_string(), s) };
            if kv.0 == "classname" {
                return Err(Stop::Prune);
            }
            ents.push(("one".into(), vec![kv, ("o".into(), "x".into())], false));
        }
        0 => {
            // sequences of lines over few keys and values, two entities
            let n = c.pick(if th { 6 } else { 5 });
            let split = c.pick(n + 1);
            let mut e = vec![Vec::new(), Vec::new()];
            for i in 0..n {
                let k = ["k", "K", "a b"][c.pick(3)];
                let v = ["v", "", "//x"][c.pick(3)];
                e[(i >= split) as usize].push((k.to_string(), v.to_string()));
            }
            ents.push(("one".into(), e.remove(0), c.flag()));
            ents.push(("two".into(), e.remove(0), false));
        }
        1 => {
            // every key with every value, before or after another line, in either entity
            let k = c.pick(KEYS.len());
            let v = c.pick(VALUES.len());
            let k2 = c.pick(KEYS.len());
            let v2 = [0, 1, 2, 12, 14][c.pick(5)];
            let a = (KEYS[k].to_string(), VALUES[v].to_string());
            let b = (KEYS[k2].to_string(), VALUES[v2].to_string());
            sep = *c.of(&["\" \"", "\"\"", "\"  \"", "\"\t\""]);
            tail = *c.of(&["", " ", "\t"]);
            match c.pick(3) {
                0 => {
                    ents.push(("one".into(), vec![a, b], true));
                }
                1 => {
                    ents.push(("one".into(), vec![b], false));
                    ents.push(("two".into(), vec![a], false));
                }
                _ => {
                    ents.push(("worldspawn".into(), vec![a], false));
                    ents.push(("two".into(), vec![b], true));
                }
            }
        }
        2 => {
            // three values for one key with lines of other keys between
            let v: Vec<usize> = (0..3).map(|_| c.pick(if th { VALUES.len() } else { 10 })).collect();
            let k = KEYS[c.pick(KEYS.len())];
            let other = c.pick(3);
            let mut l = Vec::new();
            for (i, q) in v.iter().enumerate() {
                l.push((k.to_string(), VALUES[*q].to_string()));
                if i < other {
                    l.push((format!("o{}", i), "z".into()));
                }
            }
            ents.push(("one".into(), l, false));
        }
        3 => {
            // many keys, many entities
            let n = c.pick(if th { 300 } else { 70 });
            let e = 1 + c.pick(3);
            let rep = 1 + c.pick(3);
            for j in 0..e {
                ents.push((["one", "two", "three"][j].into(), (0..n * rep).map(|i| (format!("o{}", i % n.max(1)), format!("{}.{}", j, i))).collect(), j == 1));
            }
        }
        4 => {
            // long texts
            let n = *c.of(&[100usize, 255, 256, 1000, 1023, 1024, 4096, 8192, 70000]);
            let what = *c.of(&["x", " ", "/", "\u{e9}", "{"]);
            if c.flag() {
                ents.push(("one".into(), vec![("k".into(), what.repeat(n))], false));
            } else {
                ents.push(("one".into(), vec![(what.repeat(n), "v".into()), ("k".into(), "w".into())], false));
            }
        }
        _ => {
            // classnames
            let n = *c.of(&["a b", "\u{e9}", "Worldspawn", "WORLDSPAWN", "worldspawn ", "{x}", "a/b", "//x", "world", "", "func_group", "1"]);
            let m = *c.of(&["two", "a b", "worldspawn2"]);
            let v = c.pick(VALUES.len());
            let at = c.flag();
            let mut l = vec![("k".to_string(), VALUES[v].to_string())];
            // a repeated classname: the last one counts
            if c.flag() {
                l.push(("classname".into(), n.into()));
                ents.push(("nothing".into(), l, at));
            } else {
                ents.push((n.into(), l, at));
            }
            ents.push((m.into(), vec![("K".into(), "x".into())], false));
        }
    }
    let mid = c.pick(2);
    x.go(c)?;
    if !ents.iter().any(|e| e.0 == "worldspawn") {
        ents.insert(if mid == 0 { 0 } else { ents.len() / 2 + 1 }, ("worldspawn".into(), vec![("k".into(), "wv".into())], false));
    }
    let mut t = String::new();
    let mut all_keys: Vec<String> = KEYS.iter().map(|s| s.to_string()).collect();
    let g = gallery();
    for (class, l, late) in &ents {
        t += "{\n";
        if !late {
            t += &format!("\"classname\" \"{}\"\n", class);
        }
        let br = if class.len() % 2 == 0 { Some(Brush::of(&g[1].1, ftex)) } else { None };
        for (i, (k, v)) in l.iter().enumerate() {
            // keys may also follow a brush
            if i == 1 {
                if let Some(b) = &br {
                    t += "{\n";
                    for f in &b.faces {
                        t += &f.line();
                        t.push('\n');
                    }
                    t += "}\n";
                }
            }
            t += &format!("\"{}{}{}\"{}\n", k, sep, v, tail);
            if !all_keys.contains(k) {
                all_keys.push(k.clone());
            }
        }
        if *late && !l.iter().any(|q| q.0 == "classname") {
            t += &format!("\"classname\" \"{}\"\n", class);
        }
        t += "}\n";
    }
    x.state(&t);
    let mut want: Vec<(String, BTreeMap<String, String>)> = Vec::new();
    for (class, l, _) in &ents {
        let mut m: BTreeMap<String, String> = BTreeMap::new();
        m.insert("classname".into(), class.clone());
        for (k, v) in l {
            m.insert(k.clone(), v.clone());
        }
        let e = (m["classname"].clone(), m);
        if e.0 == "worldspawn" {
            want.insert(0, e);
        } else {
            want.push(e);
        }
    }
    if !all_keys.contains(&"classname".to_string()) {
        all_keys.push("classname".into());
    }
    let keys: Vec<&str> = all_keys.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::default();
    let mut names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
    names.sort();
    names.dedup();
    for n in &names {
        cfg = cfg.strings(n, &keys);
    }
    let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
    let all = all_actors(&tree);
    if all.len() != want.len() {
        return fail(format!("{} actors for {} entities", all.len(), want.len()));
    }
    for (a, (n, m)) in all.iter().zip(&want) {
        if a.1.name != *n {
            return fail(format!("an actor is named {:?}, its classname is {:?}", a.1.name, n));
        }
        for k in &keys {
            let w = m.get(*k).cloned().unwrap_or("<absent>".into());
            if a.1.props.get(*k) != Some(&Prop::Str(w.clone())) {
                return fail(format!("key {:?} of {} is {:?}, written {:?}", k, n, a.1.props.get(*k), w));
            }
        }
        if a.1.props.len() != keys.len() {
            return fail(format!("{} has the properties {:?}", n, a.1.props.keys().collect::<Vec<_>>()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05

/// one way to write a number
fn notation(v: f64, k: usize) -> Option<String> {
    let int = v.fract() == 0.0;
    Some(match k {
        0 => format!("{}", v),
        1 => format!("{:.1}", v).parse::<f64>().ok().filter(|w| *w == v).map(|_| format!("{:.1}", v))?,
        2 => if v >= 0.0 { format!("+{}", v) } else { return None },
        3 => if v >= 0.0 { format!("0{}", v) } else { format!("-0{}", -v) },
        4 => format!("{:e}", v),
        5 => format!("{:E}", v),
        6 => format!("{:.6}", v).parse::<f64>().ok().filter(|w| *w == v).map(|_| format!("{:.6}", v))?,
        7 => if int { format!("{}.", v) } else { return None },
        8 => format!("{}e1", v / 10.0).parse::<f64>().ok().filter(|w| *w == v).map(|_| format!("{}e1", v / 10.0))?,
        9 => if v.abs() < 1.0 && v > 0.0 { format!("{}", v).trim_start_matches('0').to_string() } else { return None },
        _ => format!("{:e}", v).replace('e', "e+").replace("e+-", "e-"),
    })
}
const NOTATIONS: usize = 11;

struct Variant {
    faces: Vec<Vec<String>>,
}
impl Variant {
    fn of(b: &Brush) -> Variant {
        Variant { faces: b.faces.iter().map(|f| f.line().split(' ').map(|s| s.to_string()).collect()).collect() }
    }
    fn text(&self, gap: impl Fn(usize, usize) -> &'static str) -> String {
        let mut t = String::from("{\n\"classname\" \"worldspawn\"\n}\n{\n\"classname\" \"func\"\n{\n");
        for (i, f) in self.faces.iter().enumerate() {
            for (j, w) in f.iter().enumerate() {
                if j > 0 {
                    t += gap(i, j);
                }
                t += w;
            }
            t += gap(i, usize::MAX);
            t.push('\n');
        }
        t + "}\n}\n"
    }
}

/// token positions of the numbers of a face line
fn number_positions(f: &Face) -> Vec<usize> {
    let mut v = vec![1, 2, 3, 6, 7, 8, 11, 12, 13];
    match f.uv {
        Uv::Std { .. } => v.extend(16..21),
        Uv::Valve { .. } => {
            v.extend(17..21);
            v.extend(23..27);
            v.extend(28..31);
        }
    }
    v
}

fn dialect_brush(shape_no: usize, dia: usize) -> (Vec<PlaneI>, Brush) {
    let s = moved(&gallery()[shape_no].1, [40, -72, 8]);
    let mut b = Brush::of(&s, |i| format!("t{}", i));
    for (i, f) in b.faces.iter_mut().enumerate() {
        f.rot = 10.5 * i as f64 - 20.0;
        f.scale = [0.5 + i as f64 * 0.25, if i % 2 == 0 { 2.0 } else { -1.5 }];
        let k = i as f64;
        f.uv = if dia == 0 || (dia == 2 && i % 2 == 0) {
            Uv::Std { u: 3.0 + k, v: -5.5 - k }
        } else {
            Uv::Valve { u: [0.5 + k, -0.25, 0.125 * k], uo: 7.0 + k, v: [-2.0, 1.5 * k, 3.25], vo: -11.0 - k }
        };
    }
    (s, b)
}

fn c05_oracle(tree: &[Node], s: &[PlaneI], b: &Brush, colors: &[Option<V3>]) -> R {
    let sh = shape(s).unwrap();
    let t = tol(sh.extent());
    let v = visual(tree, "func")?;
    for (i, f) in b.faces.iter().enumerate() {
        let q = surf(v, &f.tex.to_lowercase())?;
        check_face(&sh, i, q, t)?;
        let uvs = match &q.uvs {
            Some(u) => u,
            None => return fail(format!("face {} has no texture coordinates", i)),
        };
        for (p, uv) in q.verts.iter().zip(uvs) {
            let want = uv_oracle(f, s[i].n, d3(*p), 64.0, 32.0);
            for k in 0..2 {
                let ext = sh.extent() * 8.0 / 32.0 / f.scale[k].abs();
                if (uv[k] as f64 - want[k]).abs() > 1e-5 + 4e-6 * ext + 1e-5 * want[k].abs() {
                    return fail(format!("face {} {} at {:?}: texture coordinate {:?} instead of {:?}", i, f.line(), p, uv, want));
                }
            }
        }
        match (&q.colors, &colors[i]) {
            (None, None) => {}
            (Some(c), Some(w)) => {
                if c.len() != q.verts.len() || c.iter().any(|k| k != w) {
                    return fail(format!("face {}: vertex colours {:?} instead of {:?}", i, c, w));
                }
            }
            (c, w) => return fail(format!("face {}: vertex colours {:?} instead of {:?}", i, c, w)),
        }
    }
    Ok(())
}

fn c05_cfg() -> Cfg {
    let mut cfg = Cfg::default();
    for i in 0..12 {
        cfg.tex.push((format!("t{}", i), 64, 32));
    }
    cfg.ents.push(EntDef::solid("func", true, Coll::Convex));
    cfg
}

pub fn c05(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let dia = c.pick(3);
    let kind = c.pick(6);
    let shape_no = if th { [0, 1, 2, 4, 7][c.pick(5)] } else { [0, 2][c.pick(2)] };
    let (s, mut b) = dialect_brush(shape_no, dia);
    let n = s.len();
    let mut colors: Vec<Option<V3>> = vec![None; n];
    let mut cfg = c05_cfg();
    match kind {
        0 => {
            // trailing fields, counts per face, texts per field
            let count: Vec<usize> = match c.pick(3) {
                0 => {
                    let k = c.pick(10);
                    vec![k; n]
                }
                1 => {
                    let i = c.pick(n);
                    let k = c.pick(10);
                    let rest = *c.of(&[0usize, 1, 3, 6]);
                    (0..n).map(|q| if q == i { k } else { rest }).collect()
                }
                _ => {
                    let a = c.pick(4);
                    let st = 1 + c.pick(3);
                    (0..n).map(|q| [0, 1, 3, 6][(a + q * st) % 4]).collect()
                }
            };
            let texts: [&[&str]; 9] = [&["0", "1", "-5", "134217728"], &["7", "0", "-1"], &["2.5", "0", "100", "-3"], &["255", "0", "12.5"], &["128", "0.25", "-1"], &["3", "0", "1e2"], &["1"], &["2"], &["3"]];
            let pick: Vec<usize> = (0..6).map(|i| if count.iter().any(|k| *k > i && *k <= 6) { c.pick(if th || i >= 3 { texts[i].len() } else { 2 }) } else { 0 }).collect();
            x.go(c)?;
            for (i, f) in b.faces.iter_mut().enumerate() {
                f.extra = (0..count[i]).map(|k| texts[k][(pick.get(k).copied().unwrap_or(0) + if k >= 3 { i } else { 0 }) % texts[k].len()].to_string()).collect();
                if count[i] == 6 {
                    let p = |k: usize| f.extra[k].parse::<f32>().unwrap();
                    colors[i] = Some([p(3), p(4), p(5)]);
                }
            }
            let t = Variant::of(&b).text(|_, j| if j == usize::MAX { "" } else { " " });
            x.state(&t);
            let out = run_map(x, &cfg, t.as_bytes());
            if count.iter().all(|k| [0, 1, 3, 6].contains(k)) {
                c05_oracle(&out.tree()?, &s, &b, &colors)
            } else {
                rejected(out, &format!("faces with {:?} trailing fields", count))
            }
        }
        1 => {
            // numbers in other notations
            let k = 1 + c.pick(NOTATIONS - 1);
            let all = c.pick(2) == 0;
            let face = if all { 0 } else { c.pick(n) };
            let pos = number_positions(&b.faces[face]);
            let field = if all { 0 } else { c.pick(pos.len()) };
            x.go(c)?;
            let mut v = Variant::of(&b);
            let mut changed = 0;
            for (i, f) in v.faces.iter_mut().enumerate() {
                for (j, p) in number_positions(&b.faces[i]).iter().enumerate() {
                    if all || (i == face && j == field) {
                        if let Some(w) = notation(f[*p].parse().unwrap(), k) {
                            changed += (w != f[*p]) as u32;
                            f[*p] = w;
                        }
                    }
                }
            }
            if changed == 0 {
                return Err(Stop::Prune);
            }
            let t = v.text(|_, j| if j == usize::MAX { "" } else { " " });
            x.state(&t);
            let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
            c05_oracle(&tree, &s, &b, &colors)
        }
        2 => {
            // blank space
            let g = *c.of(&["  ", "\t", " \t ", "        "]);
            let all = c.pick(3);
            let face = if all == 0 { c.pick(n) } else { 0 };
            let len = Variant::of(&b).faces[face].len();
            let field = if all == 0 { c.pick(len) } else { 0 };
            x.go(c)?;
            let t = Variant::of(&b).text(|i, j| {
                let plain = if j == usize::MAX { "" } else { " " };
                match all {
                    0 => if i == face && (j == field || (field == 0 && j == usize::MAX)) { g } else { plain },
                    1 => g,
                    _ => if i.wrapping_add(j) % 2 == 0 { g } else { plain },
                }
            });
            x.state(&t);
            let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
            c05_oracle(&tree, &s, &b, &colors)
        }
        3 => {
            // texture names: every letter case, odd characters
            const NAMES: [&str; 14] = ["aBc", "*Water1", "+0Btn", "{Fence", "sky/Wall_1", "1", "#", "-1", "a.b-c", "[x", "(y", "\u{c9}cole", "e1M1", "nan1"];
            if c.flag() {
                // names that mean something elsewhere
                let odd = crate::names::odd();
                let name = c.of(&odd).clone();
                let name = if c.flag() { name.to_uppercase() } else { name };
                let face = c.pick(n);
                x.go(c)?;
                cfg.tex.push((name.to_lowercase(), 64, 32));
                b.faces[face].tex = name;
                let t = Variant::of(&b).text(|_, j| if j == usize::MAX { "" } else { " " });
                x.state(&t);
                let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
                return c05_oracle(&tree, &s, &b, &colors);
            }
            let k = c.pick(NAMES.len());
            let low = NAMES[k].to_lowercase();
            let chars: Vec<char> = low.chars().collect();
            let mut name = String::new();
            for ch in &chars {
                if ch.is_alphabetic() && chars.len() <= if th { 12 } else { 7 } && c.flag() {
                    name.extend(ch.to_uppercase());
                } else {
                    name.push(*ch);
                }
            }
            let face = c.pick(n);
            x.go(c)?;
            b.faces[face].tex = name;
            cfg.tex.push((low, 64, 32));
            let t = Variant::of(&b).text(|_, j| if j == usize::MAX { "" } else { " " });
            x.state(&t);
            let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
            c05_oracle(&tree, &s, &b, &colors)
        }
        4 => {
            // a non-numeric field
            let face = c.pick(n);
            let extra = *c.of(&[0usize, 1, 3, 6]);
            let mut pos = number_positions(&b.faces[face]);
            let base = b.faces[face].line().split(' ').count();
            pos.extend(base..base + extra);
            let p = *c.of(&pos);
            let w = *c.of(&["x", "--1", "1,5", "0x10", "1e", "1x", ")", "(", "a1", "1.2.3", "[", "]"]);
            x.go(c)?;
            b.faces[face].extra = (0..extra).map(|k| k.to_string()).collect();
            let mut v = Variant::of(&b);
            v.faces[face][p] = w.into();
            let t = v.text(|_, j| if j == usize::MAX { "" } else { " " });
            x.state(&t);
            let out = run_map(x, &cfg, t.as_bytes());
            rejected(out, &format!("a face line whose field {} is {}", p, w))
        }
        _ => {
            // every field has its own place: all numbers distinct, each changed alone
            let face = c.pick(n);
            let f = &b.faces[face];
            let pos = number_positions(f);
            let i = 9 + c.pick(pos.len() - 9);
            let d = *c.of(&[1.0, -0.5, 16.0, -100.0]);
            x.go(c)?;
            let f = &mut b.faces[face];
            match &mut f.uv {
                Uv::Std { u, v } => match i - 9 {
                    0 => *u += d,
                    1 => *v += d,
                    2 => f.rot += d,
                    3 => f.scale[0] += d * 0.03125,
                    _ => f.scale[1] += d * 0.03125,
                },
                Uv::Valve { u, uo, v, vo } => match i - 9 {
                    k if k < 3 => u[k] += d,
                    3 => *uo += d,
                    k if k < 7 => v[k - 4] += d,
                    7 => *vo += d,
                    8 => f.rot += d,
                    9 => f.scale[0] += d * 0.03125,
                    _ => f.scale[1] += d * 0.03125,
                },
            }
            let t = Variant::of(&b).text(|_, j| if j == usize::MAX { "" } else { " " });
            x.state(&t);
            let tree = run_map(x, &cfg, t.as_bytes()).tree()?;
            c05_oracle(&tree, &s, &b, &colors)
        }
    }
}

fn rejected(o: Out, what: &str) -> R {
    match o {
        Out::Err(_) => Ok(()),
        Out::Panic(p) => fail(format!("loading {} panicked: {}", what, p)),
        Out::Tree(_) => fail(format!("{} are accepted", what)),
    }
}
