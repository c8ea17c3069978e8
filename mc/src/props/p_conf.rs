//! C33, C34: what must make no difference.
use super::corpus::*;
use super::p_geo::ftex;
use super::p_text::{rich_cfg, rich_maps, typed_class};
use crate::explore::*;
use crate::lib_run::*;
use crate::map::*;
use crate::poly::*;

fn tet(t: P3, tex: impl Fn(usize) -> String) -> Brush {
    Brush::of(&moved(&gallery()[1].1, t), tex)
}
fn boxed(t: P3, tex: impl Fn(usize) -> String) -> Brush {
    Brush::of(&moved(&gallery()[0].1, t), tex)
}

/// maps with their configurations
fn scenes() -> Vec<(Cfg, Vec<Ent>)> {
    let base = || {
        let mut c = rich_cfg();
        for n in ["mill/water1", "mill/water2", "+0fan", "{fence", "sky", "hull"] {
            c.tex.push((n.into(), 128, 32));
        }
        c.bl_face.push("mill/water1".into());
        c.bl_brush.push("hull".into());
        c.layers.push(LayerDef { name: "Sky".into(), texture: "sky".into(), etype: EType::Class("TS".into()), script: Some("S".into()), visual: true, coll: Coll::Concave });
        for k in ["func_wall", "func_wall_toggle"] {
            c.ents.push(EntDef { script: Some(format!("S_{}", k)), ..EntDef::solid(k, true, Coll::Convex) });
            c.forge.extend(typed_class(k));
        }
        c
    };
    let first = vec![
        Ent::new("worldspawn")
            .brush(boxed([0, 0, 0], |_| "sky".into()))
            .brush(tet([100, 0, 0], |i| ["mill/water1", "mill/water2", "+0fan", "{fence"][i].into()))
            .brush(tet([200, 0, 0], |_| "lay".into()))
            .brush(tet([300, 0, 0], |_| "hull".into()))
            .brush(boxed([400, 0, 0], |i| if i == 0 { "sky".into() } else { "nosuch".into() }))
            .brush(boxed([500, 0, 0], |_| "nosuch".into())),
        Ent::new("func_wall").kv("int", "5").kv("str", "x y").kv("_tb_id", "4").brush(tet([0, 200, 0], ftex)).brush(boxed([0, 300, 0], |_| "sky".into())),
        Ent::new("func_wall_toggle").kv("choice", "five").kv("_tb_group", "4").kv("_phong", "1").brush(boxed([0, 400, 0], |i| ["hull", "a", "b"][i % 3].into())),
        Ent::new("light").kv("origin", "4 5 6").kv("color", "1 2 3"),
        Ent::new("mystery").kv("int", "5").brush(tet([0, 500, 0], |_| "a".into())),
    ];
    // names that nothing is known about
    const STRANGE: [&str; 6] = ["mill/deep/none_1.a", "+1none", "*lava", "e1m1/a", "a.tga", "Mill\\Water1"];
    let strange = vec![
        Ent::new("worldspawn").brush(boxed([0, 0, 0], |i| STRANGE[i % 6].into())).brush(tet([100, 0, 0], |_| "mill/deep/none_1.a".into())).brush(tet([200, 0, 0], |_| "+1none".into())),
        Ent::new("func_myst_door_2").kv("int", "5").kv("str", "x").kv("_tb_id", "4").brush(tet([0, 200, 0], |i| STRANGE[i].into())),
        Ent::new("monster.ogre").kv("origin", "1 2 3").kv("vec", "1 2 3").kv("_tb_group", "4"),
        Ent::new("trigger/once-more").kv("_phong", "1").brush(tet([0, 300, 0], |_| "*lava".into())),
        Ent::new("Func_Wall").kv("color", "1 2 3"),
    ];
    let mut m = rich_maps();
    vec![(base(), first), (base(), m.remove(2)), (base(), m.pop().unwrap()), (base(), strange)]
}

/// names that resemble `n`
fn resembling(n: &str) -> Vec<String> {
    let first: String = n.chars().take(1).collect();
    let less: String = n.chars().take(n.chars().count().saturating_sub(1)).collect();
    let rest: String = n.chars().skip(1).collect();
    let last = n.rsplit('/').next().unwrap_or("").to_string();
    let mut v = vec![
        format!("{}2", n),
        format!("{}_", n),
        format!("x{}", n),
        format!("{} ", n),
        format!(" {}", n),
        format!("{}/{}", n, n),
        format!("textures/{}", n),
        format!("{}.png", n),
        format!("{}\0", n),
        format!("+0{}", n),
        format!("{{{}", n),
        format!("{}*", n),
        less,
        rest,
        first,
        last,
        n.chars().rev().collect(),
    ];
    v.extend(crate::names::relatives(n));
    v
}

const KINDS: usize = 7;
fn add(c: &mut Cfg, kind: usize, name: &str, place: usize) {
    fn put<T>(v: &mut Vec<T>, place: usize, t: T) {
        let at = [0, v.len() / 2, v.len()][place];
        v.insert(at, t);
    }
    match kind {
        0 => put(&mut c.tex, place, (name.into(), 8, 512)),
        1 => put(&mut c.bl_brush, place, name.into()),
        2 => put(&mut c.bl_face, place, name.into()),
        3 => put(&mut c.layers, place, LayerDef { name: format!("L {}", name), texture: name.into(), etype: EType::Class("X".into()), script: Some("Y".into()), visual: true, coll: Coll::Convex }),
        4 => put(&mut c.ents, place, EntDef { script: Some("Y".into()), apply: Apply::Metadata, ..EntDef::solid(name, true, Coll::Concave) }),
        5 => put(&mut c.ents, place, EntDef { apply: Apply::Dictionary, ..EntDef::point(name) }),
        _ => {
            let mut d = typed_class(name).unwrap();
            d.properties.push(quarchitect::game_data::forge::Property::new("extra", "", "", quarchitect::game_data::forge::PropertyData::Integer(77)));
            put(&mut c.forge, place, d)
        }
    }
}

/// the names of a kind that the map uses
fn used(kind: usize, ents: &[Ent]) -> Vec<String> {
    let mut v: Vec<String> = if kind < 4 {
        ents.iter().flat_map(|e| e.brushes.iter()).flat_map(|b| b.faces.iter()).map(|f| f.tex.to_lowercase()).collect()
    } else {
        ents.iter().flat_map(|e| e.kvs.iter()).filter(|k| k.0 == "classname").map(|k| k.1.clone()).collect()
    };
    v.sort();
    v.dedup();
    v
}
fn unused(m: usize, kind: usize, cfg: &Cfg, ents: &[Ent]) -> &'static Vec<String> {
    static KNOWN: [std::sync::OnceLock<Vec<String>>; 4 * KINDS] = [const { std::sync::OnceLock::new() }; 4 * KINDS];
    KNOWN[m * KINDS + kind].get_or_init(|| find_unused(kind, cfg, ents))
}
fn find_unused(kind: usize, cfg: &Cfg, ents: &[Ent]) -> Vec<String> {
    let u = used(kind, ents);
    let mut v: Vec<String> = u.iter().flat_map(|n| resembling(n)).collect();
    // and names that are configured for something else, or in use for something else
    v.extend(used(if kind < 4 { 4 } else { 0 }, ents));
    v.extend(cfg.layers.iter().map(|l| l.name.to_lowercase()));
    v.push(String::new());
    v.extend(["__tb_empty", "default", "none", "any", "all", "*", "?", "null", "base", "other", "unknown", "fallback", "entity", "texture", "worldspawn", "func_group", "info_null", "clip", "skip", "origin", "trigger", ".", "/", "_", "-1", "0"].map(String::from));
    if kind >= 4 {
        v.extend(u.iter().map(|n| n.to_uppercase()));
        v.extend(["int", "origin", "_tb_id", "classname"].map(String::from));
    } else {
        v.retain(|n| *n == n.to_lowercase());
    }
    v.sort();
    v.dedup();
    v.retain(|n| !u.contains(n));
    v
}

/// the plain result, computed once per process
fn plain(x: &mut Ctx, key: (usize, usize, usize), cfg: &Cfg, t: &str) -> Result<Vec<u8>, Stop> {
    thread_local!(static KNOWN: std::cell::RefCell<std::collections::HashMap<(usize, usize, usize), Vec<u8>>> = Default::default());
    if let Some(v) = KNOWN.with(|k| k.borrow().get(&key).cloned()) {
        return Ok(v);
    }
    let v = exact(&run_map(x, cfg, t.as_bytes()).tree()?);
    KNOWN.with(|k| k.borrow_mut().insert(key, v.clone()));
    Ok(v)
}

pub fn c33(c: &mut Chooser, x: &mut Ctx) -> R {
    static ALL: std::sync::OnceLock<Vec<(Cfg, Vec<Ent>)>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(scenes);
    let m = c.pick(all.len());
    let (cfg, ents) = &all[m];
    // (kind, name, place)
    let mut adds: Vec<(usize, String, usize)> = Vec::new();
    match c.pick(3) {
        0 => {
            let k = c.pick(KINDS);
            let n = unused(m, k, cfg, ents);
            let i = c.pick(n.len());
            adds.push((k, n[i].clone(), c.pick(3)));
        }
        1 => {
            // two, often with the same name
            let k = c.pick(KINDS);
            let l = c.pick(KINDS);
            let (n, p) = (unused(m, k, cfg, ents), unused(m, l, cfg, ents));
            let few = |v: &Vec<String>| -> Vec<String> { v.iter().step_by(v.len() / if x.thorough { 80 } else { 24 } + 1).cloned().collect() };
            static SAME: [std::sync::OnceLock<Vec<String>>; 4 * KINDS * KINDS] = [const { std::sync::OnceLock::new() }; 4 * KINDS * KINDS];
            let same = SAME[(m * KINDS + k) * KINDS + l].get_or_init(|| {
                let q: std::collections::BTreeSet<&String> = p.iter().collect();
                n.iter().filter(|a| q.contains(a)).cloned().collect()
            });
            if c.flag() {
                let i = c.pick(same.len());
                let a = same[i].clone();
                let all = x.thorough || same.len() < 60;
                adds.push((k, a.clone(), if all { c.pick(3) } else { i % 3 }));
                adds.push((l, a, if all { c.pick(3) } else { (i + k + l) / 2 % 3 }));
            } else {
                let (n, p) = (few(n), few(p));
                adds.push((k, c.of(&n).clone(), 0));
                adds.push((l, c.of(&p).clone(), if x.thorough { 2 } else { c.pick(2) * 2 }));
            }
        }
        _ => {
            // very many, of one kind or of all
            let n = *c.of(&[10usize, 100, 300, 1000, 3000]);
            let k = c.pick(KINDS + 1);
            let place = c.pick(3);
            let style = c.pick(3);
            for i in 0..n {
                let name = match style {
                    0 => format!("zz{}", i),
                    1 => {
                        let kk = if k == KINDS { i % KINDS } else { k };
                        let u = used(kk, ents);
                        format!("{}_{}", u[i % u.len()], i)
                    }
                    _ => "same_name".into(),
                };
                adds.push((if k == KINDS { i % KINDS } else { k }, name, place));
            }
        }
    }
    x.go(c)?;
    x.state(&(m, &adds));
    let t = text(ents);
    let want = plain(x, (33, m, 0), cfg, &t)?;
    let mut more = cfg.clone();
    for (k, n, p) in &adds {
        add(&mut more, *k, n, *p);
    }
    let got = run_map(x, &more, t.as_bytes());
    let got = exact_out(&got);
    x.outcome(&got);
    if got != want {
        let s: Vec<String> = adds.iter().take(3).map(|a| format!("{} {:?} at {}", ["texture size", "brush blacklist", "face blacklist", "layer", "solid class", "point class", "FGD class"][a.0], a.1, ["the front", "the middle", "the end"][a.2])).collect();
        return fail(format!("the tree changes with {} unused entries: {}", adds.len(), s.join(", ")));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C34

/// an entity whose lines stand in the given order: keys 0.., then brushes
fn arranged(e: &Ent, order: &[usize]) -> Vec<String> {
    let mut v = vec!["{".to_string()];
    let mut b = e.brushes.iter();
    for i in order {
        match e.kvs.get(*i) {
            Some((k, t)) => v.push(format!("\"{}\" \"{}\"", k, t)),
            None => {
                v.push("{".into());
                v.extend(b.next().unwrap().faces.iter().map(|f| f.line()));
                v.push("}".into());
            }
        }
    }
    v.push("}".into());
    v
}

fn order_scene(keys: usize, brushes: usize) -> (Cfg, Vec<Ent>) {
    let mut cfg = rich_cfg();
    cfg.forge.extend(typed_class("worldspawn"));
    cfg.forge.extend(typed_class("func_group"));
    let solid = |t: P3, k: usize| -> Vec<Brush> { (0..k).map(|i| if i % 2 == 0 { tet([t[0], t[1], 80 * i as i64], ftex) } else { boxed([t[0], t[1], 80 * i as i64], |_| "lay".into()) }).collect() };
    let e = |kvs: &[(&str, &str)], b: Vec<Brush>| Ent { kvs: kvs.iter().take(keys).map(|k| (k.0.into(), k.1.into())).collect(), brushes: b };
    let ents = vec![
        e(&[("classname", "worldspawn"), ("mapversion", "220"), ("_phong", "1"), ("str", "the message"), ("_tb_id", "9"), ("int", "12"), ("origin", "1 0 0")], solid([0, 0, 0], brushes)),
        e(&[("classname", "func"), ("origin", "64 -32 8"), ("_phong", "1"), ("_phong_angle", "60"), ("int", "7"), ("_tb_group", "2"), ("str", "")], solid([200, 0, 0], brushes)),
        e(&[("classname", "func_group"), ("_tb_id", "2"), ("_tb_type", "_tb_group"), ("_tb_name", "A group"), ("_tb_group", "3"), ("_phong", "1"), ("color", "1 2 3")], solid([400, 0, 0], brushes)),
        e(&[("classname", "light"), ("_tb_group", "2"), ("origin", "1 2 3"), ("vec", "4 5 6"), ("choice", "five"), ("flags", "3"), ("str", "origin")], vec![]),
        e(&[("classname", "func_group"), ("_tb_id", "3"), ("str", "classname"), ("_phong_angle", "5"), ("_tb_name", "x"), ("vec", "9 9 9"), ("_phong", "1")], solid([600, 0, 0], brushes.min(1))),
        e(&[("classname", "mystery"), ("origin", "7 7 7"), ("_tb_group", "9"), ("k", "v"), ("_tb_id", "5"), ("", "empty"), ("v", "k")], solid([800, 0, 0], brushes)),
    ];
    (cfg, ents)
}

/// an arrangement by rule
fn ruled(keys: usize, brushes: usize, rule: usize) -> Vec<usize> {
    let n = keys + brushes;
    let mut k: Vec<usize> = (0..keys).collect();
    let b: Vec<usize> = (keys..n).collect();
    match rule {
        0..=5 => {
            k.rotate_left(rule % keys);
            k.into_iter().chain(b).collect()
        }
        6..=11 => {
            k.reverse();
            k.rotate_left(rule % keys);
            b.into_iter().chain(k).collect()
        }
        12..=17 => {
            // between the brushes
            k.rotate_left(rule % keys);
            let mut v = Vec::new();
            let mut b = b.into_iter();
            for (i, q) in k.into_iter().enumerate() {
                if i % 2 == 0 {
                    v.extend(b.next());
                }
                v.push(q);
            }
            v.extend(b);
            v
        }
        _ => {
            // all but one key in front, that one at the end
            let last = k.remove(rule % keys);
            k.into_iter().chain(b).chain([last]).collect()
        }
    }
}

pub fn c34(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let kind = c.pick(3);
    let (keys, brushes) = match kind {
        0 => *c.of(if th { &[(2, 1), (3, 2), (4, 3), (5, 2), (5, 3), (6, 2), (7, 2)][..] } else { &[(2, 1), (3, 2), (4, 2), (5, 2), (6, 1)][..] }),
        _ => (7, *c.of(&[1usize, 2, 4])),
    };
    let (cfg, ents) = order_scene(keys, brushes);
    let mut orders: Vec<Vec<usize>> = ents.iter().map(|e| (0..keys + e.brushes.len()).collect()).collect();
    match kind {
        0 => {
            // all arrangements of one entity
            let i = c.pick(ents.len());
            let nb = ents[i].brushes.len();
            // the brushes keep their order: choose a permutation of the keys and the brushes' places
            let mut left: Vec<usize> = (0..keys).collect();
            let mut o = Vec::new();
            let mut b = nb;
            while !left.is_empty() || b > 0 {
                let k = c.pick(left.len() + (b > 0) as usize);
                if k < left.len() {
                    o.push(left.remove(k));
                } else {
                    o.push(keys);
                    b -= 1;
                }
            }
            orders[i] = o;
        }
        1 => {
            // two entities by rule
            let i = c.pick(ents.len());
            let j = c.pick(ents.len() - 1);
            let j = if j >= i { j + 1 } else { j };
            let (r, s) = (c.pick(24), c.pick(24));
            orders[i] = ruled(keys, ents[i].brushes.len(), r);
            orders[j] = ruled(keys, ents[j].brushes.len(), s);
        }
        _ => {
            // all entities, each by its own rule
            let r = c.pick(24);
            let step = c.pick(24);
            for (i, o) in orders.iter_mut().enumerate() {
                *o = ruled(keys, ents[i].brushes.len(), (r + i * step) % 24);
            }
        }
    }
    x.go(c)?;
    x.state(&(keys, brushes, &orders));
    let want = plain(x, (34, keys, brushes), &cfg, &text(&ents))?;
    let mut l: Vec<String> = ents.iter().zip(&orders).flat_map(|(e, o)| arranged(e, o)).collect();
    l.push(String::new());
    let got = run_map(x, &cfg, l.join("\n").as_bytes());
    let got = exact(&got.tree()?);
    x.outcome(&got);
    if want != got {
        return fail(format!("the tree changes with the arrangements {:?} of the lines", orders));
    }
    Ok(())
}
