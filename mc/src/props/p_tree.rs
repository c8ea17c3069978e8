//! C06 - C10, C19, C20: the scene tree.
use super::corpus::*;
use super::p_geo::*;
use super::p_text::*;
use crate::explore::*;
use crate::lib_run::*;
use crate::map::*;
use crate::poly::*;
use std::collections::BTreeMap;

/// brush number j sits here, clear of the others
fn spot(j: usize) -> P3 {
    [(j as i64 % 5) * 256 - 256, (j as i64 / 5) * 256 - 96, (j as i64 % 3) * 160 - 64]
}

// ------------------------------------------------------------------------------------------ C06

/// what the statement allows for a list of entities (worldspawn is entry `world`), given as
/// (id text, group text); names are `name`0.. in file order and "worldspawn"
struct Groups<'a> {
    world: usize,
    /// entity i has this classname followed by i
    name: &'a str,
    /// but this one has exactly that classname
    exact: Option<usize>,
    ids: &'a [(Option<String>, Option<String>)],
}
impl Groups<'_> {
    fn parents(&self, i: usize) -> Vec<usize> {
        match &self.ids[i].1 {
            None => vec![],
            Some(g) => (0..self.ids.len()).filter(|&j| self.ids[j].0.as_ref() == Some(g)).collect(),
        }
    }
    /// entities that can reach themselves over group links
    fn circular(&self) -> Vec<bool> {
        let n = self.ids.len();
        let par: Vec<Vec<usize>> = (0..n).map(|i| if i == self.world { vec![] } else { self.parents(i) }).collect();
        (0..n)
            .map(|s| {
                let mut seen = vec![false; n];
                let mut todo = par[s].clone();
                while let Some(i) = todo.pop() {
                    if i == s {
                        return true;
                    }
                    if !std::mem::replace(&mut seen[i], true) {
                        todo.extend(&par[i]);
                    }
                }
                false
            })
            .collect()
    }
    fn check(&self, tree: &[Node], has_geometry: bool) -> R {
        let n = self.ids.len();
        let mut found: Vec<Option<Option<usize>>> = vec![None; n];
        // iteratively: (node, parent entity)
        let mut todo: Vec<(&Node, Option<usize>)> = Vec::new();
        for t in tree.iter().rev() {
            todo.push((t, None));
        }
        let index = |name: &str| -> Option<usize> {
            if name == "worldspawn" {
                Some(self.world)
            } else if name == self.name {
                self.exact
            } else {
                name.strip_prefix(self.name).and_then(|s| s.parse::<usize>().ok())
            }
        };
        let mut last: BTreeMap<Option<usize>, usize> = BTreeMap::new();
        let mut first = true;
        while let Some((t, parent)) = todo.pop() {
            let (a, ch) = match t.actor() {
                Some(a) => a,
                None => {
                    if parent.is_none() {
                        return fail("a top level node that is no actor");
                    }
                    continue;
                }
            };
            let i = match index(&a.name) {
                Some(i) if i < n => i,
                _ => return fail(format!("unknown actor {}", a.name)),
            };
            if first && i != self.world {
                return fail(format!("the first actor is {}, not worldspawn", a.name));
            }
            if found[i].is_some() {
                return fail(format!("{} appears twice", a.name));
            }
            found[i] = Some(parent);
            if !first {
                if let Some(l) = last.get(&parent) {
                    if *l > i {
                        return fail(format!("k{} comes after k{}", i, l));
                    }
                }
                last.insert(parent, i);
            }
            first = false;
            let geo = ch.iter().take_while(|n| n.actor().is_none()).count();
            if ch[geo..].iter().any(|n| n.actor().is_none()) {
                return fail(format!("geometry of {} after its children", a.name));
            }
            if geo != if has_geometry { 2 } else { 0 } {
                return fail(format!("{} has {} geometry nodes", a.name, geo));
            }
            for k in ch.iter().rev() {
                todo.push((k, Some(i)));
            }
        }
        let circ = self.circular();
        for i in 0..n {
            let p = match found[i] {
                None => return fail(format!("entity {} ({:?}) is missing", i, self.ids[i])),
                Some(p) => p,
            };
            let may = if i == self.world { vec![] } else { self.parents(i) };
            match p {
                Some(p) => {
                    if !may.contains(&p) {
                        return fail(format!("entity {} of group {:?} is under entity {} with id {:?}", i, self.ids[i].1, p, self.ids[p].0));
                    }
                }
                None => {
                    if !may.is_empty() && !circ[i] {
                        return fail(format!("entity {} of group {:?} is at the top level", i, self.ids[i].1));
                    }
                }
            }
        }
        Ok(())
    }
    fn ents(&self, brush: bool) -> Vec<Ent> {
        let b = boxb([-16, -16, -16], [16, 16, 16]);
        (0..self.ids.len())
            .map(|i| {
                let mut e = Ent::new(&if i == self.world { "worldspawn".into() } else if Some(i) == self.exact { self.name.to_string() } else { format!("{}{}", self.name, i) });
                // the keys in either order
                let mut kv = Vec::new();
                if let Some(s) = &self.ids[i].0 {
                    kv.push(("_tb_id".to_string(), s.clone()));
                }
                if let Some(s) = &self.ids[i].1 {
                    kv.push(("_tb_group".to_string(), s.clone()));
                }
                if i % 2 == 1 {
                    kv.reverse();
                }
                e.kvs.extend(kv);
                if brush {
                    e.brushes.push(Brush::of(&moved(&b, [i as i64 * 64, 0, 0]), |_| "a".into()));
                }
                e
            })
            .collect()
    }
}

fn group_cfg(n: usize, brush: bool) -> Cfg {
    let mut cfg = Cfg::default().tex("a", 64, 64);
    if brush {
        for i in 0..n {
            cfg.ents.push(EntDef::solid(&format!("k{}", i), true, Coll::Convex));
        }
        cfg.ents.push(EntDef::solid("worldspawn", true, Coll::Convex));
    }
    cfg
}

pub fn c06(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let kind = c.pick(5);
    let some = |s: &str| Some(s.to_string());
    match kind {
        0 => {
            // everything about ids and groups, repeated ids included
            let n = c.pick(if th { 5 } else { 4 });
            let world = c.pick(n + 1);
            let wid = if n > 0 { c.pick(3) } else { 0 };
            let mut ids = Vec::new();
            for i in 0..n + 1 {
                if i == world {
                    ids.push(match wid {
                        0 => (None, None),
                        1 => (some("1"), None),
                        _ => (some("2"), some("1")),
                    });
                } else {
                    let id = [None, some("1"), some("2"), some("3")][c.pick(4)].clone();
                    let gr = [None, some("1"), some("2"), some("3"), some("9")][c.pick(5)].clone();
                    ids.push((id, gr));
                }
            }
            x.go(c)?;
            x.state(&(&ids, world));
            let g = Groups { world, name: "k", exact: None, ids: &ids };
            let cfg = group_cfg(n + 1, false);
            let t = run_map(x, &cfg, text(&g.ents(false)).as_bytes()).tree()?;
            g.check(&t, false)
        }
        1 => {
            // entity i has id i: all group graphs of more entities, with geometry
            let n = c.pick(if th { 7 } else { 6 });
            let world = c.pick(n + 1);
            let brush = n < 5 && c.flag();
            let shift = c.pick(2) * 9; // ids of two digits share prefixes
            let mut ids = Vec::new();
            for i in 0..n + 1 {
                let id = some(&(i + 1 + shift).to_string());
                let g = if i == world { n + 2 } else { c.pick(n + 3) };
                ids.push((id, if g == n + 2 { None } else { some(&(g + 1 + shift).to_string()) }));
            }
            x.go(c)?;
            x.state(&(&ids, world, brush));
            let g = Groups { world, name: "k", exact: None, ids: &ids };
            let cfg = group_cfg(n + 1, brush);
            let t = run_map(x, &cfg, text(&g.ents(brush)).as_bytes()).tree()?;
            g.check(&t, brush)
        }
        2 => {
            // regular graphs of all sizes, in both file orders
            let top = if th { 150 } else { 80 };
            let n = 1 + c.pick(top);
            let how = c.pick(7);
            let rev = c.flag();
            let wat = c.pick(3);
            let brush = n < 24 && c.flag();
            x.go(c)?;
            x.state(&(n, how, rev, wat, brush));
            let world = [0, n, n / 2][wat];
            let mut ids: Vec<(Option<String>, Option<String>)> = Vec::new();
            for i in 0..n {
                let k = if rev { n - 1 - i } else { i };
                let g = match how {
                    0 => k as i64 - 1,              // chain
                    1 => (k as i64 - 1) / 2,        // binary tree with its root grouped under itself
                    2 => 0,                         // star whose hub is circular
                    3 => ((k + 1) % n) as i64,      // ring
                    4 => (k / 5 * 5 + (k + 1) % 5) as i64, // rings of five, the last one broken
                    5 => k as i64 - 3,              // three interleaved chains
                    _ => n as i64,                  // all in the worldspawn
                };
                ids.push((some(&k.to_string()), if g < 0 { None } else { some(&g.to_string()) }));
            }
            ids.insert(world, (some(&n.to_string()), None));
            let g = Groups { world, name: "k", exact: None, ids: &ids };
            let cfg = group_cfg(n + 1, brush);
            let t = run_map(x, &cfg, text(&g.ents(brush)).as_bytes()).tree()?;
            g.check(&t, brush)
        }
        4 => {
            // classnames that resemble worldspawn's or mean something elsewhere
            const N: [&str; 12] = ["worldspawn", "Worldspawn", "worldspawn_", "WORLDSPAWN", "world", "xworldspawn", " worldspawn", "func_group", "func_", "*", "_", "\u{e9}"];
            let mut names: Vec<String> = N.iter().map(|s| s.to_string()).collect();
            names.extend(crate::names::relatives("worldspawn"));
            names.extend(crate::names::relatives("func_group").into_iter().filter(|_| th));
            names.extend(crate::names::texts().into_iter().filter(|s| s != "worldspawn"));
            let at = c.pick(names.len());
            let name = &names[at][..];
            let n = if at < N.len() { c.pick(3) } else { 1 + c.pick(2) };
            let world = c.pick(n + 1);
            let exact = if at > 0 && n > 0 && (at >= N.len() || c.flag()) { Some(if world == 0 { n } else { 0 }) } else { None };
            // few ids with the many names
            let few = at >= N.len() && !th;
            let mut ids = Vec::new();
            for i in 0..n + 1 {
                let id = [None, some("1"), some("2")][if few { 1 - (exact == Some(i)) as usize + (n == 2 && i == 1) as usize } else { c.pick(3) }].clone();
                let gr = if i == world { None } else { [None, some("1"), some("2"), some("9")][c.pick(if few { 2 } else { 4 })].clone() };
                ids.push((id, gr));
            }
            x.go(c)?;
            x.state(&(4, name, &ids, world, exact));
            let g = Groups { world, name, exact, ids: &ids };
            let t = run_map(x, &group_cfg(0, false), text(&g.ents(false)).as_bytes()).tree()?;
            g.check(&t, false)
        }
        _ => {
            // which id texts denote which group
            const T: [&str; 12] = ["0", "1", "2", "10", "11", "12", "21", "100", "-1", "2147483647", "2147483646", "7"];
            let a = c.pick(T.len());
            let b = c.pick(T.len());
            let g = c.pick(T.len());
            let world = c.pick(4);
            let wid = c.pick(T.len());
            if th {
                x.state(&0);
            }
            x.go(c)?;
            x.state(&(a, b, g, world, wid));
            let mut ids = vec![(some(T[a]), None), (some(T[b]), some(T[g])), (None, some(T[a]))];
            ids.insert(world, (some(T[wid]), None));
            let g = Groups { world, name: "k", exact: None, ids: &ids };
            let cfg = group_cfg(4, false);
            let t = run_map(x, &cfg, text(&g.ents(false)).as_bytes()).tree()?;
            g.check(&t, false)
        }
    }
}

// ------------------------------------------------------------------------------------------ C07

/// an entity's placement: (origin text, number of brushes, position the text stands for)
const PLACES: [(Option<&str>, usize, Option<[f64; 3]>); 30] = [
    (None, 1, None),
    (Some("10 -20 30"), 0, Some([10.0, -20.0, 30.0])),
    (None, 0, Some([0.0, 0.0, 0.0])),
    (None, 2, None),
    (Some("-64 5 0.5"), 1, Some([-64.0, 5.0, 0.5])),
    (Some("1 2"), 1, Some([1.0, 2.0, 0.0])),
    (Some("x 7 -3"), 0, Some([0.0, 7.0, -3.0])),
    (Some(""), 1, Some([0.0, 0.0, 0.0])),
    (Some("0 0 0"), 1, Some([0.0, 0.0, 0.0])),
    (Some("5"), 0, Some([5.0, 0.0, 0.0])),
    (Some("4 y 6"), 1, Some([4.0, 0.0, 6.0])),
    (Some("4 5 z"), 1, Some([4.0, 5.0, 0.0])),
    (Some("words"), 2, Some([0.0, 0.0, 0.0])),
    (Some("1024.25 -4096 0.125"), 0, Some([1024.25, -4096.0, 0.125])),
    (None, 3, None),
    (Some("-1 -2 -3"), 3, Some([-1.0, -2.0, -3.0])),
    // from here on: numbers of all sizes and spellings
    (Some("32768 -32769 65535.5"), 0, Some([32768.0, -32769.0, 65535.5])),
    (Some("70000 0 -70000"), 1, Some([70000.0, 0.0, -70000.0])),
    (Some("131072.5 -200000 262144"), 0, Some([131072.5, -200000.0, 262144.0])),
    (Some("1e6 -2.5e6 1E-3"), 0, Some([1e6, -2.5e6, 1e-3])),
    (Some("16777216 -16777215 8388607"), 0, Some([16777216.0, -16777215.0, 8388607.0])),
    (Some("1e12 -1e20 3e30"), 0, Some([1e12, -1e20, 3e30])),
    (Some("4294967296 -2147483648 2147483647"), 0, Some([4294967296.0, -2147483648.0, 2147483647.0])),
    (Some("0.0625 -0.015625 0.33333"), 0, Some([0.0625, -0.015625, 0.33333])),
    (Some("-0 +7 .5"), 0, Some([0.0, 7.0, 0.5])),
    (Some("00012 5. -003.250"), 1, Some([12.0, 5.0, -3.25])),
    (Some("1000.0000001 -999.99999 123.4567890123456789"), 0, Some([1000.0, -999.99999, 123.456789])),
    (Some("4096.25 -4097 4095.75"), 1, Some([4096.25, -4097.0, 4095.75])),
    (Some("-8192 16384 -16385"), 1, Some([-8192.0, 16384.0, -16385.0])),
    (Some("1e-40 -1e-50 0e9"), 0, Some([0.0, 0.0, 0.0])),
];

pub fn c07(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let kind = c.pick(6);
    // per entity (first is worldspawn): place, parent (0: none), file order, brush shapes
    let mut places: Vec<usize> = Vec::new();
    let mut parents: Vec<Option<usize>> = vec![None];
    let mut order: Vec<usize> = Vec::new();
    let mut big = 1i64;
    let mut first_shape = 0;
    // number of brushes of the entity that has very many of them
    let mut many: Option<(usize, usize)> = None;
    match kind {
        0 => {
            // all trees of worldspawn and up to 2 (3) entities with all placements
            let n = c.pick(if th { 4 } else { 3 });
            for i in 0..n + 1 {
                places.push(c.pick(if th && n == 3 { 12 } else { 16 }));
                if i > 0 {
                    let p = c.pick(i + 1);
                    parents.push(if p == 0 { None } else { Some(p - 1) });
                }
            }
            order = if c.flag() { (0..n + 1).rev().collect() } else { (0..n + 1).collect() };
        }
        1 => {
            // deeper trees with fewer placements
            let n = if th { 5 } else { 4 };
            places.push(c.pick(2));
            for i in 1..n + 1 {
                places.push(c.pick(4));
                let p = c.pick(i + 1);
                parents.push(if p == 0 { None } else { Some(p - 1) });
            }
            order = if c.flag() { (0..n + 1).rev().collect() } else { (0..n + 1).collect() };
        }
        2 => {
            // chains of all depths
            let n = 1 + c.pick(if th { 40 } else { 16 });
            let p = c.pick(16);
            let q = c.pick(16);
            for i in 0..n + 1 {
                places.push(if i % 2 == 0 { p } else { q });
                if i > 0 {
                    parents.push(if i == 1 { None } else { Some(i - 1) });
                }
            }
            order = if c.flag() { (0..n + 1).rev().collect() } else { (0..n + 1).collect() };
        }
        5 => {
            // origins of all sizes, under and above others
            let (p, q) = (16 + c.pick(PLACES.len() - 16), c.pick(PLACES.len()));
            let swap = c.flag();
            places = vec![*c.of(&[0usize, 1, 17]), p, q];
            if swap {
                places.swap(1, 2);
            }
            parents.push(None);
            parents.push(*c.of(&[None, Some(1)]));
            order = vec![0, 1, 2];
        }
        4 => {
            let list: Vec<usize> = (4..if th { 400 } else { 70 }).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513]).collect();
            let n = *c.of(&list);
            many = Some((c.pick(3), n));
            places = vec![0, *c.of(&[0usize, 4, 14]), 0];
            parents.push(None);
            parents.push(*c.of(&[None, Some(1)]));
            order = vec![0, 1, 2];
            first_shape = n;
        }
        _ => {
            // every shape at every size and all permutations of the file order, parent and child
            first_shape = c.pick(gallery().len());
            big = *c.of(&[1i64, 3, 20]);
            places = vec![2, *c.of(&[0usize, 3, 4, 14, 15]), *c.of(&[0usize, 3, 4, 14, 15])];
            parents.push(None);
            parents.push(Some(1));
            order.extend(permutation(c, 3));
        }
    }
    x.go(c)?;
    x.state(&(&places, &parents, &order, big, first_shape, many));
    let count = |i: usize| match many {
        Some((k, n)) if k == i => n,
        _ => PLACES[places[i]].1,
    };
    let g = gallery();
    let mut at = 0;
    let mut shapes: Vec<Vec<Shape>> = Vec::new();
    let mut ents: Vec<Ent> = Vec::new();
    let mut cfg = Cfg::default().tex("a", 64, 64);
    for (i, p) in places.iter().enumerate() {
        let name = if i == 0 { "worldspawn".to_string() } else { format!("k{}", i) };
        cfg.ents.push(EntDef::solid(&name, true, if i % 2 == 0 { Coll::Convex } else { Coll::Concave }));
        let mut e = Ent::new(&name).kv("_tb_id", &(i + 1).to_string());
        if let Some(q) = parents[i] {
            e = e.kv("_tb_group", &(q + 1).to_string());
        }
        if let Some(o) = PLACES[*p].0 {
            e = e.kv("origin", o);
        }
        let mut ss = Vec::new();
        for _ in 0..count(i) {
            let pl = moved(&scaled(&g[(first_shape + at) % g.len()].1, big), scaled_p(spot(at), big));
            at += 1;
            ss.push(shape(&pl).unwrap());
            e.brushes.push(Brush::of(&pl, |_| "a".into()));
        }
        shapes.push(ss);
        ents.push(e);
    }
    let file: Vec<Ent> = order.iter().map(|i| ents[*i].clone()).collect();
    let tree = run_map(x, &cfg, text(&file).as_bytes()).tree()?;
    let all = all_actors(&tree);
    if all.len() != places.len() {
        return fail(format!("{} actors for {} entities", all.len(), places.len()));
    }
    // the largest coordinate of the map times the depth bounds the rounding of the sums
    let ext = shapes.iter().flatten().map(|s| s.extent()).fold(4096.0, f64::max);
    let t = tol(ext);
    for (depth, a, ch, sum) in &all {
        let i = if a.name == "worldspawn" { 0 } else { a.name[1..].parse::<usize>().unwrap() };
        let want = match PLACES[places[i]].2 {
            Some(p) => p,
            None => {
                let k = shapes[i].len() as f64;
                fmul(shapes[i].iter().fold([0.0; 3], |a, s| fadd(a, s.center())), 1.0 / k)
            }
        };
        // each component on its own: the sizes of the numbers on the way to this entity
        let mut way = [0.0f64; 3];
        let mut q = Some(i);
        while let Some(k) = q {
            if let Some(p) = PLACES[places[k]].2 {
                (0..3).for_each(|a| way[a] = way[a].max(p[a].abs()));
            }
            q = parents[k];
        }
        let tt = t * (1 + *depth) as f64;
        if (0..3).any(|k| !((sum[k] - want[k]).abs() <= tt.max(1e-6 * way[k] * (1 + *depth) as f64))) {
            return fail(format!("{} (depth {}) is at {:?} instead of {:?}", a.name, depth, sum, want));
        }
        for n in ch.iter() {
            if n.actor().is_some() {
                continue;
            }
            if (0..3).any(|k| !((n.origin[k] as f64 - want[k]).abs() <= tol(ext).max(1e-6 * way[k]))) {
                return fail(format!("a geometry node of {} has origin {:?} instead of {:?}", a.name, n.origin, want));
            }
            match &n.kind {
                Kind::Convex(v) => {
                    if v.len() != shapes[i].len() {
                        return fail(format!("{} convex shapes for {} brushes", v.len(), shapes[i].len()));
                    }
                    for (j, s) in shapes[i].iter().enumerate() {
                        check_points(s, &v[j].1, t, &a.name)?;
                    }
                }
                Kind::Concave(v) => {
                    let pts: Vec<V3> = v.iter().flat_map(|v| v.1.clone()).collect();
                    on_corners(&shapes[i], &pts, t, &a.name)?;
                }
                Kind::Visual(v) => {
                    let pts: Vec<V3> = v.iter().flat_map(|v| v.verts.clone()).collect();
                    on_corners(&shapes[i], &pts, t, &a.name)?;
                }
                _ => {}
            }
        }
        if !shapes[i].is_empty() && ch.iter().filter(|n| n.actor().is_none()).count() != 2 {
            return fail(format!("{} lacks geometry", a.name));
        }
    }
    Ok(())
}
fn scaled_p(p: P3, k: i64) -> P3 {
    [p[0] * k, p[1] * k, p[2] * k]
}
/// all points are corners and all corners are there
fn on_corners(shapes: &[Shape], pts: &[V3], t: f64, what: &str) -> R {
    for s in shapes {
        for v in &s.verts {
            if !pts.iter().any(|p| near3(*p, *v, t)) {
                return fail(format!("{}: no vertex at the corner {:?}", what, v));
            }
        }
    }
    for p in pts {
        if !shapes.iter().any(|s| s.verts.iter().any(|v| near3(*p, *v, t))) {
            return fail(format!("{}: vertex {:?} is at no corner", what, p));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C08

#[derive(Clone, Debug)]
struct Wanted {
    name: String,
    etype: EType,
    script: Option<String>,
    visual: bool,
    coll: Coll,
    /// the texture all its surfaces carry, if they all carry one
    only: Option<String>,
    /// indices into the brush list
    brushes: Vec<usize>,
}

/// the node holds exactly these brushes, in the form asked for
fn holds(node: &Node, w: &Wanted, planes: &[Vec<PlaneI>], shapes: &[Shape], t: f64) -> R {
    let (a, ch) = match node.actor() {
        Some(a) => a,
        None => return fail("a geometry node among the actors"),
    };
    if a.name != w.name {
        return fail(format!("actor {} where {} belongs", a.name, w.name));
    }
    if a.etype != w.etype || a.script != w.script {
        return fail(format!("{} has type {:?} and script {:?} instead of {:?} and {:?}", a.name, a.etype, a.script, w.etype, w.script));
    }
    let geo: Vec<&Node> = ch.iter().filter(|n| n.actor().is_none()).collect();
    let set: Vec<(Vec<PlaneI>, Shape)> = w.brushes.iter().map(|i| (planes[*i].clone(), shapes[*i].clone())).collect();
    let mut k = 0;
    if w.visual && !set.is_empty() {
        match geo.get(k).map(|n| &n.kind) {
            Some(Kind::Visual(v)) => {
                k += 1;
                let mut tris = Vec::new();
                for s in v {
                    if w.only.is_some() && s.texture != w.only {
                        return fail(format!("a surface of {} has texture {:?}", w.name, s.texture));
                    }
                    tris.extend(triangles(&s.verts, &s.indices)?);
                }
                check_mesh(&set, &tris, t)?;
            }
            q => return fail(format!("{} has no mesh but {:?}", w.name, q)),
        }
    }
    match (w.coll, geo.get(k).map(|n| &n.kind)) {
        (Coll::None, _) => {}
        (Coll::Convex, Some(Kind::Convex(v))) => {
            k += 1;
            if v.len() != set.len() {
                return fail(format!("{} has {} convex shapes for {} brushes", w.name, v.len(), set.len()));
            }
            for (j, s) in set.iter().enumerate() {
                check_points(&s.1, &v[j].1, t, &format!("convex shape {} of {}", j, w.name))?;
            }
        }
        (Coll::Concave, Some(Kind::Concave(v))) => {
            k += 1;
            let mut tris = Vec::new();
            for s in v {
                tris.extend(triangles(&s.1, &s.2)?);
            }
            check_mesh(&set, &tris, t)?;
        }
        (_, None) if set.is_empty() => {}
        (_, q) => return fail(format!("{} has {:?} instead of {:?} collision", w.name, q, w.coll)),
    }
    if geo.len() != k {
        return fail(format!("{} has {} geometry nodes instead of {}", w.name, geo.len(), k));
    }
    Ok(())
}

const LTEX: [&str; 4] = ["a", "b", "c", "zz"];
/// face textures of a brush with n faces
fn pattern(p: usize, i: usize, n: usize) -> &'static str {
    match p {
        0 => "a",
        1 => "b",
        2 => ["a", "b"][(i == n - 1) as usize],
        3 => ["a", "b"][(i > 0) as usize],
        4 => "zz",
        5 => ["a", "zz"][(i == 0) as usize],
        6 => "c",
        7 => "A",
        8 => "d",
        _ => ["b", "c", "a"][i % 3],
    }
}
fn pure(p: usize) -> Option<&'static str> {
    match p {
        0 | 7 => Some("a"),
        1 => Some("b"),
        6 => Some("c"),
        _ => None,
    }
}

/// texture names for the letters a, b, c, d and zz (the last not known)
pub const LNAMES: [[&str; 5]; 9] = [
    ["a", "b", "c", "d", "zz"],
    ["mill/water", "base/water", "water", "mill/lava", "mill/water2"],
    ["water", "water1", "*water", "wate", "ater"],
    ["sixteen_letters_", "sixteen_letters_1", "sixteen_letters_2", "sixteen_letters", "1sixteen_letters_"],
    ["\u{e9}t\u{e9}", "ete", "\u{e9}t\u{ea}", "\u{e9}", "t"],
    ["clip", "clip2", "noclip", "cl", "c"],
    ["{fence", "fence", "fence}", "+0fence", "+1fence"],
    ["a.b", "a_b", "a-b", "a", "b"],
    ["w\\x", "w/x", "w", "x", "w//x"],
];

fn layer_case(x: &mut Ctx, layers: &[LayerDef], brushes: &[usize], func: &[usize], wcoll: Coll, wfirst: bool) -> R {
    named_layer_case(x, &LNAMES[0], layers, brushes, func, wcoll, wfirst)
}
fn named_layer_case(x: &mut Ctx, names: &[&str; 5], layers: &[LayerDef], brushes: &[usize], func: &[usize], wcoll: Coll, wfirst: bool) -> R {
    blacklisted_layer_case(x, names, layers, brushes, func, wcoll, wfirst, (Vec::new(), Vec::new()))
}
#[allow(clippy::too_many_arguments)]
fn blacklisted_layer_case(x: &mut Ctx, names: &[&str; 5], layers: &[LayerDef], brushes: &[usize], func: &[usize], wcoll: Coll, wfirst: bool, (bl_brush, bl_face): (Vec<String>, Vec<String>)) -> R {
    let called = |l: &str| match l {
        "A" => names[0].to_uppercase(),
        l => names[["a", "b", "c", "d", "zz"].iter().position(|k| *k == l).unwrap()].to_string(),
    };
    let mut cfg = Cfg::default().tex(names[0], 64, 64).tex(names[1], 32, 32).tex(names[2], 16, 128).tex(names[3], 8, 8);
    cfg.layers = layers.iter().map(|l| LayerDef { texture: called(&l.texture), ..l.clone() }).collect();
    cfg.bl_brush = bl_brush;
    cfg.bl_face = bl_face;
    cfg.ents.push(EntDef::solid("worldspawn", true, wcoll));
    cfg.ents.push(EntDef::solid("func", true, Coll::Convex));
    let g = gallery();
    let mut planes = Vec::new();
    let mut shapes = Vec::new();
    let mut mk = |p: usize| {
        let j = planes.len();
        let pl: Vec<PlaneI> = moved(&g[j % g.len()].1, spot(j));
        let b = Brush::of(&pl, |i| called(pattern(p, i, pl.len())));
        shapes.push(shape(&pl).unwrap());
        planes.push(pl);
        b
    };
    let mut world = Ent::new("worldspawn");
    world.brushes = brushes.iter().map(|p| mk(*p)).collect();
    let mut fu = Ent::new("func");
    fu.brushes = func.iter().map(|p| mk(*p)).collect();
    let ents = if wfirst { vec![world, fu] } else { vec![fu, world] };
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    let mut left: Vec<usize> = (0..brushes.len()).collect();
    let mut wanted = Vec::new();
    for l in layers {
        let (mine, rest): (Vec<usize>, Vec<usize>) = left.iter().partition(|i| pure(brushes[**i]) == Some(&l.texture[..]) && l.texture != "zz");
        left = rest;
        if !mine.is_empty() {
            wanted.push(Wanted { name: l.name.clone(), etype: l.etype.clone(), script: l.script.clone(), visual: l.visual, coll: l.coll, only: Some(called(&l.texture)), brushes: mine });
        }
    }
    let w = |n: &str, coll: Coll, b: Vec<usize>| Wanted { name: n.into(), etype: EType::Class(format!("T_{}", n)), script: None, visual: true, coll, only: None, brushes: b };
    let ext = shapes.iter().map(|s| s.extent()).fold(1.0, f64::max);
    let t = tol(ext);
    let mut it = tree.iter();
    let next = |it: &mut std::slice::Iter<Node>| -> Result<Node, Stop> {
        match it.next() {
            Some(n) => Ok(n.clone()),
            None => fail("too few nodes at the top level"),
        }
    };
    holds(&next(&mut it)?, &w("worldspawn", wcoll, left), &planes, &shapes, t)?;
    for l in &wanted {
        if !l.visual && l.coll == Coll::None {
            // nothing to show: the node may be left out
            if it.as_slice().first().and_then(|n| n.actor()).map(|a| a.0.name == l.name) == Some(true) {
                holds(&next(&mut it)?, l, &planes, &shapes, t)?;
            }
            continue;
        }
        holds(&next(&mut it)?, l, &planes, &shapes, t)?;
    }
    let nb = brushes.len();
    holds(&next(&mut it)?, &w("func", Coll::Convex, (nb..nb + func.len()).collect()), &planes, &shapes, t)?;
    if it.next().is_some() {
        return fail("too many nodes at the top level");
    }
    Ok(())
}

fn ldef(t: &str, e: usize, s: usize, v: usize, k: usize) -> LayerDef {
    LayerDef {
        name: format!("L {}", t),
        texture: t.into(),
        etype: [EType::Placeholder, EType::Class(format!("C{}", t)), EType::Prefab(format!("P{}", t))][e].clone(),
        script: [None, Some(format!("S{}", t))][s].clone(),
        visual: v == 0,
        coll: [Coll::Convex, Coll::Concave, Coll::None][k],
    }
}

pub fn c08(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    match c.pick(9) {
        8 => {
            // layers whose textures are blacklisted: their look is the layer's, blacklists are about solid classes
            let nl = 1 + c.pick(3);
            let black: Vec<usize> = (0..nl).map(|_| c.pick(4)).collect();
            let (e, s, look) = (c.pick(3), c.pick(2), c.pick(3));
            let layers: Vec<LayerDef> = (0..nl).map(|i| ldef(LTEX[i], (e + i) % 3, (s + i) % 2, (look == 2) as usize, look % 2)).collect();
            // whole brushes of layers' textures, and of one that is neither in a layer nor blacklisted
            let nb = c.pick(4);
            let b: Vec<usize> = (0..nb).map(|_| [0usize, 1, 6, 8][c.pick(4)]).collect();
            let other = c.flag();
            if b.iter().any(|p| *p != 8 && [0, 1, 6].iter().position(|q| q == p).unwrap() >= nl) {
                return Err(Stop::Prune);
            }
            x.go(c)?;
            x.state(&(8, nl, &black, e, s, look, &b, other));
            let mut bl = (Vec::new(), Vec::new());
            for (l, k) in layers.iter().zip(&black) {
                if k & 1 != 0 {
                    bl.0.push(l.texture.clone());
                }
                if k & 2 != 0 {
                    bl.1.push(l.texture.clone());
                }
            }
            if other {
                bl.0.push("elsewhere".into());
                bl.1.push("else".into());
            }
            blacklisted_layer_case(x, &LNAMES[0], &layers, &b, &[8], Coll::Convex, true, bl)
        }
        7 => {
            // layers and textures with names and attributes that mean something elsewhere
            let odd = crate::names::odd();
            let txt = crate::names::texts();
            let nl = 1 + c.pick(2);
            let kind = c.pick(3);
            let (e, s, look) = (c.pick(3), c.pick(2), c.pick(3));
            let mut layers: Vec<LayerDef> = (0..nl).map(|i| ldef(LTEX[i], (e + i) % 3, (s + i) % 2, (look == 2) as usize, look % 2)).collect();
            let mut names: [String; 5] = ["a", "b", "c", "d", "zz"].map(String::from);
            let which;
            match kind {
                0 => {
                    // the texture
                    which = c.of(&odd).clone();
                    names[0] = which.clone();
                }
                1 => {
                    // the layer's name, also that of the next layer
                    which = c.of(&txt).clone();
                    let both = c.flag();
                    for l in layers.iter_mut().take(1 + both as usize) {
                        l.name = which.clone();
                    }
                }
                _ => {
                    // class, prefab path and script
                    which = c.of(&txt).clone();
                    let l = c.pick(nl);
                    if layers[l].etype == EType::Placeholder && layers[l].script.is_none() {
                        return Err(Stop::Prune);
                    }
                    match &mut layers[l].etype {
                        EType::Placeholder => {}
                        EType::Class(s) | EType::Prefab(s) => *s = which.clone(),
                    }
                    if let Some(s) = &mut layers[l].script {
                        *s = which.clone();
                    }
                }
            }
            let b = *c.of(&[&[0usize, 1, 4][..], &[2, 0, 0], &[1]]);
            x.go(c)?;
            x.state(&(7, &names, format!("{:?}", layers), b));
            named_layer_case(x, &[0, 1, 2, 3, 4].map(|i| &names[i][..]), &layers, b, &[0], Coll::Convex, true)
        }
        6 => {
            // many layers, a brush each; every `gap`-th has none
            let n = *c.of(&[1usize, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
            let gap = *c.of(&[usize::MAX, 2, 5]);
            let back = c.flag();
            let look = c.pick(3);
            x.go(c)?;
            x.state(&(6, n, gap, back, look));
            let name = |i: usize| format!("w{}", i);
            let layers: Vec<LayerDef> = (0..n).map(|i| LayerDef { name: format!("L {}", i), texture: name(i), ..ldef("a", i % 3, i % 2, 0, [i % 2, 0, 2][look]) }).collect();
            let mut cfg = Cfg::default().tex("a", 64, 64);
            cfg.tex.extend((0..n).map(|i| (name(i), 64, 64)));
            cfg.layers = layers.clone();
            cfg.ents.push(EntDef::solid("worldspawn", true, Coll::Convex));
            let tets = gallery()[1].1.clone();
            let mut order: Vec<usize> = (0..n).filter(|i| i % gap != 1).collect();
            if back {
                order.reverse();
            }
            let (mut planes, mut shapes) = (Vec::new(), Vec::new());
            let mut world = Ent::new("worldspawn");
            for i in order.iter().map(|i| Some(*i)).chain([None]) {
                let pl = moved(&tets, spot(planes.len()));
                world.brushes.push(Brush::of(&pl, |_| i.map(name).unwrap_or("a".into())));
                shapes.push(shape(&pl).unwrap());
                planes.push(pl);
            }
            let tree = run_map(x, &cfg, text(&[world]).as_bytes()).tree()?;
            if tree.len() != 1 + order.len() {
                return fail(format!("{} nodes for worldspawn and {} layers with brushes", tree.len(), order.len()));
            }
            let t = tol(shapes.iter().map(|s| s.extent()).fold(1.0, f64::max));
            let w = Wanted { name: "worldspawn".into(), etype: EType::Class("T_worldspawn".into()), script: None, visual: true, coll: Coll::Convex, only: None, brushes: vec![order.len()] };
            holds(&tree[0], &w, &planes, &shapes, t)?;
            let mut at = order.clone();
            at.sort();
            for (k, i) in at.iter().enumerate() {
                let l = &layers[*i];
                let b = order.iter().position(|q| q == i).unwrap();
                holds(&tree[k + 1], &Wanted { name: l.name.clone(), etype: l.etype.clone(), script: l.script.clone(), visual: true, coll: l.coll, only: Some(l.texture.clone()), brushes: vec![b] }, &planes, &shapes, t)?;
            }
            Ok(())
        }
        4 => {
            // textures with similar names
            let set = 1 + c.pick(LNAMES.len() - 1);
            let order = permutation(c, 4);
            let nl = 1 + c.pick(4);
            let nb = 1 + c.pick(if th { 3 } else { 2 });
            let b: Vec<usize> = (0..nb).map(|_| c.pick(10)).collect();
            x.go(c)?;
            x.state(&(4, set, &order, nl, &b));
            let layers: Vec<LayerDef> = order[..nl].iter().enumerate().map(|(i, t)| ldef(LTEX[*t], i % 3, i % 2, 0, i % 2)).collect();
            named_layer_case(x, &LNAMES[set], &layers, &b, &[0], Coll::Convex, true)
        }
        5 => {
            // more brushes and layers than fit small counters
            let n = *c.of(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
            let step = *c.of(&[1usize, 3, 7]);
            let nl = 1 + c.pick(4);
            x.go(c)?;
            x.state(&(5, n, step, nl));
            let layers: Vec<LayerDef> = (0..nl).map(|i| ldef(LTEX[i], i % 3, i % 2, 0, i % 2)).collect();
            let b: Vec<usize> = (0..n).map(|i| (i * step) % 10).collect();
            layer_case(x, &layers, &b, &[0, 1], Coll::Convex, true)
        }
        0 => {
            // all layer sequences x all texture patterns
            let nl = c.pick(4);
            let mut left: Vec<usize> = (0..4).collect();
            let mut layers = Vec::new();
            for i in 0..nl {
                let q = c.pick(left.len());
                let t = left.remove(q);
                layers.push(ldef(LTEX[t], i % 3, i % 2, 0, i % 2));
            }
            let nb = c.pick(if th { 5 } else { 4 });
            let np = if nb > 2 { 6 + (th && nb == 3) as usize * 4 } else { 10 };
            let b: Vec<usize> = (0..nb).map(|_| c.pick(np)).collect();
            let f: Vec<usize> = if nb < 3 { vec![c.pick(5)] } else { vec![0] };
            let wfirst = nb >= 3 || c.flag();
            x.go(c)?;
            x.state(&(0, format!("{:?}", layers), &b, &f, wfirst));
            layer_case(x, &layers, &b, &f, Coll::Convex, wfirst)
        }
        1 => {
            // all attributes of two layers
            let mut layers = Vec::new();
            let flip = c.flag();
            for t in if flip { ["b", "a"] } else { ["a", "b"] } {
                layers.push(ldef(t, c.pick(3), c.pick(2), c.pick(2), c.pick(3)));
            }
            let b: Vec<usize> = [vec![0, 1], vec![1, 0, 2], vec![0, 0], vec![1, 4, 1, 0, 1]][c.pick(if th { 4 } else { 3 })].clone();
            let wc = *c.of(&[Coll::None, Coll::Convex, Coll::Concave]);
            x.go(c)?;
            x.state(&(1, format!("{:?}", layers), &b, wc as u8));
            layer_case(x, &layers, &b, &[0], wc, true)
        }
        2 => {
            // one layer, all attributes, all brush lists
            let l = ldef(LTEX[c.pick(4)], c.pick(3), c.pick(2), c.pick(2), c.pick(3));
            let nb = c.pick(4);
            let b: Vec<usize> = (0..nb).map(|_| c.pick(if th { 9 } else { 6 })).collect();
            x.go(c)?;
            x.state(&(2, format!("{:?}", l), &b));
            layer_case(x, &[l], &b, &[1], Coll::Concave, true)
        }
        _ => {
            // many brushes in cyclic patterns
            let n = 1 + c.pick(if th { 60 } else { 30 });
            let step = 1 + c.pick(9);
            let nl = c.pick(4);
            let flip = c.flag();
            x.go(c)?;
            x.state(&(3, n, step, nl, flip));
            let mut layers: Vec<LayerDef> = (0..nl).map(|i| ldef(LTEX[i], i, i % 2, 0, i % 2)).collect();
            if flip {
                layers.reverse();
            }
            let b: Vec<usize> = (0..n).map(|i| (i * step) % 10).collect();
            layer_case(x, &layers, &b, &[0, 1], Coll::Convex, true)
        }
    }
}

// ------------------------------------------------------------------------------------------ C09

const NK: usize = 9;
const KINDS: [&str; NK] = ["int", "float", "vec", "str", "color", "choice", "flags", "ts", "td"];

/// the definition of property kind k in variant v (another default), and its default value
fn declare(k: usize, v: usize, name: &str) -> (quarchitect::game_data::forge::Property, Prop) {
    use quarchitect::game_data::forge::*;
    use quarchitect::{Color, Vector3};
    let (d, p) = match k {
        0 => {
            let i = [3, -40][v];
            (PropertyData::Integer(i), Prop::Int(i))
        }
        1 => {
            let f = [0.5, -3.25][v];
            (PropertyData::Float(f), Prop::Float(f))
        }
        2 => {
            let q = [[1.0, 2.0, 3.0], [-0.5, 0.0, 64.0]][v];
            (PropertyData::Vector3(Vector3::new(q[0], q[1], q[2])), Prop::V3(q))
        }
        3 => {
            let s = ["text", ""][v];
            (PropertyData::String(s.into()), Prop::Str(s.into()))
        }
        4 => {
            let q = [[0.25, 0.5, 1.0], [0.0, 0.0, 0.125]][v];
            (PropertyData::Color(Color::new(q[0], q[1], q[2])), Prop::Color(q))
        }
        5 => {
            let i = [1, 0][v];
            (PropertyData::Choices(vec![Choice::integer("Four", 4), Choice::string("Five", "five"), Choice::float("Half", 0.5), Choice::integer("Minus", -1)], i), Prop::Choices(i))
        }
        6 => {
            let i = [2, 5][v];
            (PropertyData::Flags(vec!["x".into(), "y".into(), "z".into()], i), Prop::Flags(i))
        }
        7 => (PropertyData::TargetSource, Prop::Source),
        _ => (PropertyData::TargetDestination, Prop::Dest),
    };
    (Property::new(name, "", "", d), p)
}

/// texts of each kind with the value they stand for; None: not a value of the kind
fn texts(k: usize) -> Vec<(&'static str, Option<Prop>)> {
    let f = |a: f32, b: f32, c: f32| Some(Prop::V3([a, b, c]));
    let col = |a: f32, b: f32, c: f32| Some(Prop::Color([a / 255.0, b / 255.0, c / 255.0]));
    match k {
        0 => vec![
            ("7", Some(Prop::Int(7))), ("-3", Some(Prop::Int(-3))), ("0", Some(Prop::Int(0))), ("2147483647", Some(Prop::Int(i32::MAX))), ("-2147483648", Some(Prop::Int(i32::MIN))),
            ("255", Some(Prop::Int(255))), ("2147483648", None), ("99999999999999999999", None), ("1.5", None), ("", None), ("x", None), ("1 2", None), ("7x", None), ("four", None), ("-", None),
        ],
        1 => vec![
            ("7", Some(Prop::Float(7.0))), ("-3.5", Some(Prop::Float(-3.5))), ("0", Some(Prop::Float(0.0))), ("0.1", Some(Prop::Float(0.1))), ("1e3", Some(Prop::Float(1000.0))), ("16777217.5", Some(Prop::Float(16777217.5))),
            ("", None), ("x", None), ("1 2", None), ("1,5", None), ("-", None), ("1.2.3", None),
        ],
        2 => vec![
            ("7 8 9", f(7.0, 8.0, 9.0)), ("-1.5 0 2e1", f(-1.5, 0.0, 20.0)), ("0 0 0", f(0.0, 0.0, 0.0)), ("0.1 -0.2 1000000", f(0.1, -0.2, 1000000.0)),
            ("1 2", None), ("1", None), ("", None), ("a 2 3", None), ("1 b 3", None), ("1 2 c", None), ("1,2,3", None), ("x", None),
        ],
        3 => vec![
            ("7", Some(Prop::Str("7".into()))), ("", Some(Prop::Str("".into()))), ("a b  c", Some(Prop::Str("a b  c".into()))), ("/{}()", Some(Prop::Str("/{}()".into()))), ("Ünï", Some(Prop::Str("Ünï".into()))), ("1 2 3", Some(Prop::Str("1 2 3".into()))),
        ],
        4 => vec![
            ("255 128 0", col(255.0, 128.0, 0.0)), ("0 0 0", col(0.0, 0.0, 0.0)), ("1 2 3", col(1.0, 2.0, 3.0)), ("255 255 255", col(255.0, 255.0, 255.0)), ("51 102 153", col(51.0, 102.0, 153.0)),
            ("127.5 0.25 254.875", col(127.5, 0.25, 254.875)), ("0.5 1e2 12.75", col(0.5, 100.0, 12.75)),
            ("1 2", None), ("", None), ("r 2 3", None), ("1 g 3", None), ("1 2 b", None), ("x", None),
        ],
        5 => vec![
            ("4", Some(Prop::Choices(0))), ("five", Some(Prop::Choices(1))), ("0.5", Some(Prop::Choices(2))), ("-1", Some(Prop::Choices(3))), ("9", Some(Prop::Choices(9))), ("-7", Some(Prop::Choices(-7))), ("0", Some(Prop::Choices(0))),
            ("2", Some(Prop::Choices(2))), ("3", Some(Prop::Choices(3))), ("x", None), ("", None), ("fiv", None), ("1.5", None), ("five ", None),
        ],
        6 => vec![
            ("3", Some(Prop::Flags(3))), ("0", Some(Prop::Flags(0))), ("7", Some(Prop::Flags(7))), ("4", Some(Prop::Flags(4))), ("2147483647", Some(Prop::Flags(i32::MAX))), ("-2147483648", Some(Prop::Flags(i32::MIN))),
            ("-1", Some(Prop::Flags(-1))), ("-2147483647", Some(Prop::Flags(-i32::MAX))), ("x", None), ("", None), ("1.5", None), ("1 2", None),
        ],
        7 => vec![("t1", Some(Prop::Source)), ("", Some(Prop::Source)), ("5", Some(Prop::Source))],
        _ => vec![("t1", Some(Prop::Dest)), ("", Some(Prop::Dest)), ("5", Some(Prop::Dest))],
    }
}

fn same(a: &Prop, b: &Prop) -> bool {
    let close = |a: f32, b: f32| (a - b).abs() <= 2.4e-7 * b.abs() + 1e-30;
    match (a, b) {
        (Prop::Color(a), Prop::Color(b)) => (0..3).all(|k| close(a[k], b[k])),
        (Prop::Float(a), Prop::Float(b)) => close(*a, *b),
        (Prop::V3(a), Prop::V3(b)) => (0..3).all(|k| close(a[k], b[k])),
        (a, b) => a == b,
    }
}

fn check_props(a: &ActorN, want: &BTreeMap<String, Prop>) -> R {
    for (k, w) in want {
        match a.props.get(k) {
            None => return fail(format!("{} has no property {}", a.name, k)),
            Some(p) if !same(p, w) => return fail(format!("property {} of {} is {:?} instead of {:?}", k, a.name, p, w)),
            _ => {}
        }
    }
    for k in a.props.keys() {
        if !want.contains_key(k) {
            return fail(format!("{} has the undeclared property {}: {:?}", a.name, k, a.props[k]));
        }
    }
    Ok(())
}

type Defs = Vec<(String, Vec<(usize, usize, String)>)>; // class -> (kind, variant, name)
fn defs_cfg(defs: &Defs) -> Cfg {
    use quarchitect::game_data::forge::*;
    let mut cfg = Cfg::default();
    for (i, (cl, ps)) in defs.iter().enumerate() {
        let ty = if i % 2 == 0 { ClassType::PointClass } else { ClassType::SolidClass };
        cfg.forge.push(Entity::new(ty, vec![], cl, "", ps.iter().map(|(k, v, n)| declare(*k, *v, n).0).collect()));
    }
    cfg
}
/// loads the entities (first one worldspawn) and compares every actor with the expected properties
fn props_case(x: &mut Ctx, defs: &Defs, ents: &[Ent], given: &[BTreeMap<String, Option<Prop>>]) -> R {
    let cfg = defs_cfg(defs);
    let tree = run_map(x, &cfg, text(ents).as_bytes()).tree()?;
    if tree.len() != ents.len() {
        return fail(format!("{} actors for {} entities", tree.len(), ents.len()));
    }
    for (i, e) in ents.iter().enumerate() {
        let (a, _) = match tree[i].actor() {
            Some(a) => a,
            None => return fail("a top level node that is no actor"),
        };
        let class = &e.kvs.iter().find(|k| k.0 == "classname").unwrap().1;
        let mut want = BTreeMap::new();
        if let Some((_, ps)) = defs.iter().find(|d| &d.0 == class) {
            for (k, v, n) in ps {
                let d = declare(*k, *v, n).1;
                want.insert(n.clone(), given[i].get(n).cloned().flatten().unwrap_or(d));
            }
            for (k, v) in e.kvs.iter().filter(|(k, _)| !ps.iter().any(|p| p.2 == *k)) {
                match &k[..] {
                    "_tb_id" | "_tb_group" => {
                        want.insert(k.clone(), Prop::Int(v.parse().unwrap()));
                    }
                    "_tb_type" | "_tb_name" => {
                        want.insert(k.clone(), Prop::Str(v.clone()));
                    }
                    _ => {}
                }
            }
        }
        check_props(a, &want)?;
    }
    Ok(())
}

/// an integer at or next to a power of two or ten, or with many digits, of either sign
pub fn some_integer(c: &mut Chooser) -> i32 {
    let m: i64 = match c.pick(3) {
        0 => (1i64 << c.pick(32)) + c.pick(3) as i64 - 1,
        1 => 10i64.pow(c.pick(10) as u32) + c.pick(3) as i64 - 1,
        _ => 1234567891i64 / 10i64.pow(c.pick(10) as u32),
    };
    let m = if c.flag() { -m } else { m };
    m.max(i32::MIN as i64).min(i32::MAX as i64) as i32
}
/// a decimal number and its value
pub fn some_decimal(c: &mut Chooser, more: bool) -> (String, f64) {
    const WHOLE: [&str; 9] = ["0", "1", "7", "10", "255", "1024", "65536", "1234567", "16777216"];
    const FRACTION: [&str; 12] = ["", ".0", ".5", ".1", ".25", ".75", ".125", ".333333", ".0001", ".000001", ".9999", ".123456789"];
    const POWER: [&str; 7] = ["", "e0", "e2", "e-3", "E1", "e+1", "e-10"];
    let mut s = String::new();
    if c.flag() {
        s.push('-');
    }
    s += c.of(&WHOLE);
    s += c.of(&FRACTION);
    s += c.of(if more { &POWER[..] } else { &POWER[..4] });
    let v = s.parse::<f64>().unwrap();
    (s, v)
}

pub fn c09(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let world = || Ent::new("worldspawn");
    match c.pick(9) {
        8 => {
            // texts, property names and class names that mean something elsewhere
            let txt: Vec<String> = crate::names::texts();
            let k = c.pick(4);
            let s = c.of(&txt).clone();
            let (mut class, mut name, mut kind, mut value) = ("thing".to_string(), "p".to_string(), 3, Some("v".to_string()));
            match k {
                0 => value = Some(s),
                1 => {
                    name = s;
                    if name == "classname" {
                        return Err(Stop::Prune);
                    }
                    kind = *c.of(&[0, 3, 4, 7]);
                    value = [None, Some(texts(kind)[0].0.to_string()), Some("x".to_string())][c.pick(3)].clone();
                }
                2 => {
                    class = s;
                    kind = *c.of(&[0, 3, 4, 7]);
                    value = [None, Some(texts(kind)[0].0.to_string())][c.pick(2)].clone();
                }
                _ => {
                    // the editor's own texts
                    name = (*c.of(&["_tb_type", "_tb_name"])).into();
                    value = Some(s);
                }
            }
            x.go(c)?;
            x.state(&(8, &class, &name, kind, &value));
            let mut e = Ent::new(&class);
            let mut g = BTreeMap::new();
            if let Some(v) = &value {
                e = e.kv(&name, v);
                let p = if kind == 3 { Some(Prop::Str(v.clone())) } else { texts(kind).iter().find(|t| t.0 == v).unwrap_or(&("", None)).1.clone() };
                g.insert(name.clone(), p);
            }
            let mut defs: Defs = vec![("other".into(), vec![(kind, 1, name.clone())])];
            let ps = if k == 3 { vec![] } else { vec![(kind, 0, name.clone())] };
            let mut ents = vec![world(), e];
            let mut given = vec![BTreeMap::new(), g];
            if class == "worldspawn" {
                ents.remove(0);
                given.remove(0);
            }
            defs.push((class, ps));
            props_case(x, &defs, &ents, &given)
        }
        7 => {
            // numbers of every magnitude and precision
            let k = c.pick(7);
            let (s, p) = match k {
                0 | 5 | 6 => {
                    let i = some_integer(c);
                    (i.to_string(), [Some(Prop::Int(i)), None, None, None, None, Some(Prop::Choices(i)), Some(Prop::Flags(i))][k].clone().unwrap())
                }
                1 => {
                    let (s, v) = some_decimal(c, th);
                    (s, Prop::Float(v as f32))
                }
                3 => {
                    let s = if c.flag() { some_decimal(c, th).0 } else { some_integer(c).to_string() };
                    (s.clone(), Prop::Str(s))
                }
                2 => {
                    let (s, v) = some_decimal(c, false);
                    let at = c.pick(3);
                    let mut t = ["1".to_string(), "-2.5".to_string(), "300".to_string()];
                    let mut q = [1.0, -2.5, 300.0];
                    t[at] = s;
                    q[at] = v as f32;
                    (t.join(" "), Prop::V3(q))
                }
                _ => {
                    let q = [c.pick(256), *c.of(&[0, 1, 127, 254, 255]), *c.of(&[0, 1, 100, 255])];
                    let at = c.pick(3);
                    // whole numbers, or quarters and eighths with them
                    let part = *c.of(&[0.0, 0.25, 0.5, 0.875]);
                    let q = [q[at] as f32 + part, q[(at + 1) % 3] as f32, q[(at + 2) % 3] as f32 + part];
                    let q = q.map(|v| v.min(255.0));
                    (format!("{} {} {}", q[0], q[1], q[2]), Prop::Color([q[0] / 255.0, q[1] / 255.0, q[2] / 255.0]))
                }
            };
            x.go(c)?;
            x.state(&(7, k, &s));
            // 4 is the value of a choice, not an index
            let p = match (k, &s[..]) {
                (5, "4") => Prop::Choices(0),
                (5, "-1") => Prop::Choices(3),
                _ => p,
            };
            let e = Ent::new("thing").kv("p", &s);
            let g: BTreeMap<String, Option<Prop>> = [("p".to_string(), Some(p))].into_iter().collect();
            props_case(x, &vec![("thing".into(), vec![(k, 0, "p".into())])], &[world(), e], &[BTreeMap::new(), g])
        }
        6 => {
            // properties declared under the names of the editor's keys: declared kind and value
            const ED: [(&str, &str); 4] = [("_tb_id", "5"), ("_tb_group", "77"), ("_tb_type", "x"), ("_tb_name", "7")];
            let n = c.pick(4);
            let k = c.pick(NK);
            let v = c.pick(2);
            let t = c.pick(texts(k).len() + 1);
            let others = c.pick(8);
            x.go(c)?;
            x.state(&(6, n, k, v, t, others));
            let mut e = Ent::new("thing");
            let mut g = BTreeMap::new();
            if let Some((s, p)) = texts(k).get(t) {
                e = e.kv(ED[n].0, s);
                g.insert(ED[n].0.to_string(), p.clone());
            }
            for (i, m) in (0..4).filter(|m| *m != n).enumerate() {
                if others >> i & 1 == 1 {
                    e = e.kv(ED[m].0, ED[m].1);
                }
            }
            props_case(x, &vec![("thing".into(), vec![(k, v, ED[n].0.into())])], &[world(), e], &[BTreeMap::new(), g])
        }
        0 => {
            // two properties of all kinds with all texts (or absent), in both declaration orders
            let k = c.pick(NK);
            let v = c.pick(2);
            let t = c.pick(texts(k).len() + 1);
            let k2 = c.pick(NK);
            let v2 = if th { c.pick(2) } else { 0 };
            let t2 = c.pick(texts(k2).len() + 1);
            let swap = c.flag();
            x.go(c)?;
            x.state(&(0, k, v, t, k2, v2, t2, swap));
            let mut ps = vec![(k, v, "p".to_string()), (k2, v2, "q".to_string())];
            if swap {
                ps.reverse();
            }
            let mut e = Ent::new("thing");
            let mut g = BTreeMap::new();
            if let Some((s, p)) = texts(k).get(t) {
                e = e.kv("p", s);
                g.insert("p".to_string(), p.clone());
            }
            if let Some((s, p)) = texts(k2).get(t2) {
                e = e.kv("q", s);
                g.insert("q".to_string(), p.clone());
            }
            props_case(x, &vec![("thing".into(), ps)], &[world(), e], &[BTreeMap::new(), g])
        }
        1 => {
            // every subset of declared kinds x every subset of present keys
            let mut ps = Vec::new();
            let mut e = Ent::new("thing");
            let mut g = BTreeMap::new();
            for k in 0..NK {
                let declared = c.flag();
                let present = c.pick(if k < 7 || th { 2 } else { 1 });
                if declared {
                    ps.push((k, k % 2, KINDS[k].to_string()));
                }
                if present > 0 {
                    let q = texts(k)[0].clone();
                    e = e.kv(KINDS[k], q.0);
                    g.insert(KINDS[k].to_string(), q.1);
                }
            }
            x.go(c)?;
            x.state(&(1, &ps, &e.kvs));
            props_case(x, &vec![("thing".into(), ps)], &[world(), e], &[BTreeMap::new(), g])
        }
        2 => {
            // classes: order of definitions and entities, missing definitions, same names of other kinds
            let perm = permutation(c, 3);
            let n = 1 + c.pick(if th { 4 } else { 3 });
            let k = c.pick(NK);
            let k2 = c.pick(NK);
            let cl = ["thing", "thin", "things", "Other", "worldspawn_x"];
            let mut seq = Vec::new();
            for _ in 0..n {
                seq.push((c.pick(cl.len()), c.flag()));
            }
            x.go(c)?;
            x.state(&(2, &perm, &seq, k, k2));
            let all: Defs = vec![("thing".into(), vec![(k, 0, "p".into()), (0, 0, "q".into())]), ("things".into(), vec![(k2, 1, "p".into())]), ("worldspawn".into(), vec![(3, 0, "p".into()), (0, 1, "message".into())])];
            let defs: Defs = perm.iter().map(|i| all[*i].clone()).collect();
            let mut ents = vec![world()];
            let mut given = vec![BTreeMap::new()];
            for (i, (q, p)) in seq.iter().enumerate() {
                let mut e = Ent::new(cl[*q]);
                let mut g = BTreeMap::new();
                if *p {
                    let kk = if *q == 2 { k2 } else { k };
                    let tt = texts(kk);
                    let t = &tt[i % tt.len()];
                    e = e.kv("p", t.0);
                    g.insert("p".to_string(), t.1.clone());
                }
                ents.push(e);
                given.push(g);
            }
            props_case(x, &defs, &ents, &given)
        }
        3 => {
            // the editor's keys and undeclared keys
            const ED: [(&str, [&str; 3]); 4] = [("_tb_id", ["1", "77", "-5"]), ("_tb_group", ["3", "400", "-6"]), ("_tb_type", ["_tb_group", "", "5"]), ("_tb_name", ["a name", "", "7"])];
            const UN: [&str; 6] = ["q", "P", "p ", "_tb_idx", "targetname", "origin"];
            let mut e = Ent::new(*c.of(&["thing", "nothing"]));
            for (k, v) in ED {
                let q = c.pick(4);
                if q > 0 {
                    e = e.kv(k, v[q - 1]);
                }
            }
            let un = c.pick(1 << UN.len());
            let k = c.pick(2) * 3;
            x.go(c)?;
            for (i, n) in UN.iter().enumerate() {
                if un >> i & 1 == 1 {
                    e = e.kv(n, "1 2 3");
                }
            }
            x.state(&(3, &e.kvs, k));
            props_case(x, &vec![("thing".into(), vec![(k, 0, "p".into())])], &[world(), e], &[BTreeMap::new(), BTreeMap::new()])
        }
        4 => {
            // declared names that are special elsewhere, on point and solid classes and worldspawn
            const N: [&str; 8] = ["origin", "_phong", "_phong_angle", "angle", "message", "spawnflags", "targetname", "x y"];
            let n = c.pick(N.len());
            let k = c.pick(NK);
            let t = c.pick(texts(k).len() + 1);
            let w = c.pick(2);
            let brush = c.flag();
            x.go(c)?;
            x.state(&(4, n, k, t, w, brush));
            let class = ["thing", "worldspawn"][w];
            let mut e = Ent::new(class);
            let mut g = BTreeMap::new();
            if let Some((s, p)) = texts(k).get(t) {
                e = e.kv(N[n], s);
                g.insert(N[n].to_string(), p.clone());
            }
            if brush {
                e.brushes.push(Brush::of(&gallery()[0].1, |_| "a".into()));
            }
            let (ents, given) = if w == 1 { (vec![e], vec![g]) } else { (vec![world(), e], vec![BTreeMap::new(), g]) };
            props_case(x, &vec![("other".into(), vec![]), (class.into(), vec![(k, 1, N[n].into())])], &ents, &given)
        }
        _ => {
            // many properties, many entities
            let np = 1 + c.pick(if th { 80 } else { 40 });
            let ne = 1 + c.pick(4);
            let off = c.pick(5);
            x.go(c)?;
            x.state(&(5, np, ne, off));
            let ps: Vec<(usize, usize, String)> = (0..np).map(|i| ((i + off) % NK, i % 2, format!("p{}", i))).collect();
            let mut ents = vec![world()];
            let mut given = vec![BTreeMap::new()];
            for j in 0..ne {
                let mut e = Ent::new("thing");
                let mut g = BTreeMap::new();
                for (i, (k, _, n)) in ps.iter().enumerate() {
                    if (i + j) % 3 != 0 {
                        let tt = texts(*k);
                        let t = &tt[(i / 9 + j) % tt.len()];
                        e = e.kv(n, t.0);
                        g.insert(n.clone(), t.1.clone());
                    }
                }
                ents.push(e);
                given.push(g);
            }
            props_case(x, &vec![("thing".into(), ps)], &ents, &given)
        }
    }
}

// ------------------------------------------------------------------------------------------ C10

/// any definition, with the given text for its class, prefab path and script
fn any_def_with(c: &mut Chooser, class: &str, s: &str) -> EntDef {
    let mut d = any_def(c, class);
    match &mut d.etype {
        EType::Placeholder => {}
        EType::Class(t) | EType::Prefab(t) => *t = s.into(),
    }
    if let Some(t) = &mut d.script {
        *t = s.into();
    }
    d
}
fn any_def(c: &mut Chooser, class: &str) -> EntDef {
    EntDef {
        class: class.into(),
        brush: match c.pick(7) {
            0 => None,
            k => Some(((k - 1) % 2 == 0, [Coll::None, Coll::Convex, Coll::Concave][(k - 1) / 2])),
        },
        etype: match c.pick(3) {
            0 => EType::Class(format!("C {}", class)),
            1 => EType::Placeholder,
            _ => EType::Prefab(format!("P {}", class)),
        },
        script: if c.flag() { Some(format!("S {}", class)) } else { None },
        apply: *c.of(&[Apply::Properties, Apply::Dictionary, Apply::Metadata]),
    }
}

fn follows(n: &Node, class: &str, d: Option<&EntDef>, brushes: usize) -> R {
    let (a, ch) = match n.actor() {
        Some(a) => a,
        None => return fail("a top level node that is no actor"),
    };
    if a.name != class {
        return fail(format!("actor {} where {} belongs", a.name, class));
    }
    let (et, sc) = match d {
        None => (EType::Placeholder, None),
        Some(d) => (d.etype.clone(), d.script.clone()),
    };
    if a.etype != et || a.script != sc {
        return fail(format!("{} has type {:?} and script {:?} instead of {:?} and {:?}", class, a.etype, a.script, et, sc));
    }
    if let Some(d) = d {
        if a.apply != d.apply {
            return fail(format!("{} has application mode {:?} instead of {:?}", class, a.apply, d.apply));
        }
    }
    let mut got: Vec<&str> = Vec::new();
    for k in ch {
        got.push(match &k.kind {
            Kind::Visual(s) => {
                if s.is_empty() {
                    return fail(format!("{} has a mesh without surfaces", class));
                }
                "mesh"
            }
            Kind::Convex(v) if v.is_empty() => "no convex",
            Kind::Convex(v) => {
                if v.len() != brushes {
                    return fail(format!("{} has {} convex shapes for {} brushes", class, v.len(), brushes));
                }
                "convex"
            }
            Kind::Concave(v) if v.iter().all(|s| s.1.is_empty()) => "no concave",
            Kind::Concave(_) => "concave",
            Kind::Nothing => "nothing",
            Kind::Actor(..) => "actor",
        });
    }
    let mut want: Vec<&str> = Vec::new();
    if let Some((v, k)) = d.and_then(|d| d.brush) {
        if brushes > 0 {
            if v {
                want.push("mesh");
            }
            match k {
                Coll::None => {}
                Coll::Convex => want.push("convex"),
                Coll::Concave => want.push("concave"),
            }
        } else if k == Coll::Convex {
            got.retain(|s| *s != "no convex");
        }
    }
    if got != want {
        return fail(format!("{} has geometry nodes {:?} instead of {:?}", class, got, want));
    }
    Ok(())
}

pub fn c10(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let g = gallery();
    let fill = |e: &mut Ent, n: usize, from: usize| {
        for j in 0..n {
            e.brushes.push(Brush::of(&moved(&g[(from + j) % g.len()].1, spot(from + j)), |i| ["a", "zz"][(i + j) % 2].into()));
        }
    };
    let mut cfg = Cfg::default().tex("a", 64, 64);
    // entities: class, number of brushes; the first is worldspawn
    let mut list: Vec<(String, usize)> = Vec::new();
    match c.pick(6) {
        5 => {
            // classes, class names, prefab paths and scripts that mean something elsewhere
            let txt = crate::names::texts();
            let s = c.of(&txt).clone();
            list.push(("worldspawn".into(), 1));
            let mine = c.pick(3);
            match mine {
                0 => {
                    cfg.ents.push(any_def_with(c, "func", &s));
                    list.push(("func".into(), 1));
                }
                1 => {
                    cfg.ents.push(any_def(c, &s));
                    list.push((s.clone(), 1));
                }
                _ => {
                    cfg.ents.push(any_def_with(c, "worldspawn", &s));
                    list.push((s.clone(), 1));
                }
            }
            if s == "worldspawn" && mine > 0 {
                return Err(Stop::Prune);
            }
            if th {
                cfg.ents.insert(c.pick(2), any_def(c, "light"));
                list.push(("light".into(), 1));
            }
        }
        0 => {
            // two definitions in either order, all attributes of both
            let a = any_def(c, "func");
            let b = any_def(c, "light");
            let flip = c.flag();
            let nb = c.pick(if th { 3 } else { 2 });
            list.push(("worldspawn".into(), 1));
            list.push(("func".into(), nb));
            list.push(("light".into(), 1));
            cfg.ents = if flip { vec![b, a] } else { vec![a, b] };
        }
        1 => {
            // worldspawn's own definition, and an entity without one
            if c.flag() {
                cfg.ents.push(any_def(c, "worldspawn"));
            }
            cfg.ents.push(any_def(c, "func"));
            list.push(("worldspawn".into(), c.pick(3)));
            list.push(("other".into(), c.pick(3)));
            list.push(("func".into(), c.pick(3)));
        }
        2 => {
            // all permutations of definitions with confusable names; all entity sequences
            let names = ["func", "func_", "fun", "Func", "unc"];
            let p = permutation(c, if th { 5 } else { 4 });
            let k = c.pick(3);
            for i in &p {
                cfg.ents.push(EntDef {
                    class: names[*i].into(),
                    brush: [None, Some((true, Coll::Convex)), Some((true, Coll::None)), Some((false, Coll::Concave)), Some((false, Coll::Convex))][(*i + k) % 5],
                    etype: EType::Class(format!("C{}", i)),
                    script: if i % 2 == 0 { Some(format!("S{}", i)) } else { None },
                    apply: [Apply::Properties, Apply::Dictionary, Apply::Metadata][(*i + k) % 3],
                });
            }
            list.push(("worldspawn".into(), 1));
            let n = c.pick(4);
            for _ in 0..n {
                list.push((names[c.pick(5)].into(), 1));
            }
        }
        3 => {
            // brush counts
            cfg.ents.push(EntDef { class: "func".into(), ..any_def(c, "func") });
            list.push(("worldspawn".into(), 0));
            list.push(("func".into(), c.pick(if th { 20 } else { 12 })));
            list.push(("func".into(), c.pick(3)));
        }
        _ => {
            // many definitions
            let n = 1 + c.pick(if th { 100 } else { 50 });
            let off = c.pick(21);
            for i in 0..n {
                let q = i + off;
                cfg.ents.push(EntDef {
                    class: format!("d{}", i),
                    brush: if q % 7 == 0 { None } else { Some((q % 2 == 0, [Coll::None, Coll::Convex, Coll::Concave][q % 3])) },
                    etype: [EType::Class(format!("C{}", i)), EType::Prefab(format!("P{}", i)), EType::Placeholder][q % 3].clone(),
                    script: if q % 5 < 2 { Some(format!("S{}", i)) } else { None },
                    apply: [Apply::Properties, Apply::Dictionary, Apply::Metadata][q / 3 % 3],
                });
            }
            list.push(("worldspawn".into(), 0));
            for i in 0..n + 1 {
                list.push((format!("d{}", (i * 7 + off) % (n + 1)), (i + off) % 2));
            }
        }
    }
    x.go(c)?;
    x.state(&(format!("{:?}", cfg.ents), &list));
    let mut from = 0;
    let mut ents = Vec::new();
    for (cl, n) in &list {
        let mut e = Ent::new(cl);
        fill(&mut e, *n, from);
        from += n;
        ents.push(e);
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    if tree.len() != list.len() {
        return fail(format!("{} actors for {} entities", tree.len(), list.len()));
    }
    for (i, (cl, n)) in list.iter().enumerate() {
        follows(&tree[i], cl, cfg.ents.iter().find(|d| &d.class == cl), *n)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C19

/// targets share class, texture, layer and file names, and differ in what stands behind them
pub const TARGETS: usize = 4;
fn target(k: usize) -> (Cfg, String) {
    let maps = rich_maps();
    let g = gallery();
    let many = |s: usize| Brush::of(&moved(&g[6].1, spot(s)), |i| ftex((i * 3 + s) % 8));
    let shift = |e: &Ent, s: usize| {
        let mut e = e.clone();
        for b in e.brushes.iter_mut() {
            for f in b.faces.iter_mut() {
                for p in f.pts.iter_mut() {
                    for j in 0..3 {
                        p[j] += spot(s)[j];
                    }
                }
            }
        }
        e
    };
    let mut cfg = rich_cfg();
    let layer = |t: &str, c: Coll| LayerDef { name: format!("L{}", t), texture: t.into(), etype: EType::Placeholder, script: None, visual: true, coll: c };
    match k {
        0 => {
            // many textures in one mesh, several layers
            cfg.layers = vec![layer("lay", Coll::Convex), layer("a", Coll::Concave), layer("f0", Coll::None), layer("f1", Coll::Convex)];
            let plain = |t: &'static str, s: usize| Brush::of(&moved(&g[s].1, spot(s)), |_| t.into());
            let w = Ent::new("worldspawn").brush(many(1)).brush(plain("f1", 2)).brush(plain("a", 3)).brush(plain("lay", 4)).brush(plain("f0", 5)).brush(many(7)).brush(plain("a", 8));
            let f = Ent::new("func").kv("int", "5").kv("flags", "1").brush(many(9)).brush(Brush::of(&moved(&g[0].1, spot(10)), |i| format!("unknown{}", i)));
            (cfg, text(&[f, w]))
        }
        1 => {
            // groups, missing groups, repeated ids
            let mut v = vec![Ent::new("worldspawn").brush(many(0))];
            for (id, gr) in [("1", "2"), ("2", ""), ("3", "1"), ("4", "77"), ("3", "2"), ("6", "7"), ("7", "6")] {
                let mut e = Ent::new("func_group").kv("_tb_id", id).kv("_tb_name", &format!("n{}", id)).brush(many(v.len()));
                if !gr.is_empty() {
                    e = e.kv("_tb_group", gr);
                }
                v.push(e);
            }
            v.push(maps[2][0].clone());
            (cfg, text(&v))
        }
        2 => {
            // the same names with other contents
            for t in cfg.tex.iter_mut() {
                *t = (t.0.clone(), t.2, t.1 * 2);
            }
            cfg.bl_face = vec!["a".into()];
            cfg.bl_brush = vec!["f3".into()];
            cfg.ents = vec![EntDef::point("worldspawn"), EntDef::solid("light", false, Coll::Convex)];
            let mut d = EntDef::solid("func", true, Coll::Convex);
            d.etype = EType::Prefab("other".into());
            d.script = Some("s".into());
            d.apply = Apply::Metadata;
            cfg.ents.push(d);
            cfg.layers = vec![layer("f1", Coll::Concave), layer("lay", Coll::None)];
            let w = &defs_cfg(&vec![("func".into(), vec![(5, 1, "choice".into()), (0, 1, "int".into())]), ("light".into(), vec![(3, 1, "int".into())])]);
            cfg.forge = w.forge.clone();
            let mut v = maps[2].clone();
            v.extend([shift(&maps[3][1], 4), shift(&maps[1][0], 7).brush(Brush::of(&g[2].1, |_| "lay".into()))]);
            v.remove(2);
            (cfg, text(&v))
        }
        _ => {
            // phong, dialects, text oddities
            let mut s = text(&[maps[3][1].clone(), maps[2][1].clone(), maps[2][3].clone(), shift(&maps[1][0], 6), Ent::new("func").kv("k\u{e9}", "\u{fc} {").kv("str", "a  b")]);
            s = s.replacen("{\n", "// comment\n{\n\n", 1);
            (cfg, s)
        }
    }
}
const ALL: usize = TARGETS + 5;
/// what the file of a target holds: maps, WADs and a palette; nothing for an FGD, which is written
fn content(k: usize) -> Vec<u8> {
    use crate::wadgen::{Tex, Wad};
    match k {
        0..=3 => target(k).1.into_bytes(),
        4 => Wad::of(true, vec![Tex::new("a", 16, 16, 5), Tex::new("f0", 8, 8, 6)]).bytes(),
        5 => Wad::of(false, vec![Tex::new("f0", 8, 8, 9), Tex::new("a", 16, 16, 7), Tex::new("b", 8, 8, 8)]).bytes(),
        6 => Wad::of(false, vec![Tex::new("b", 16, 16, 3)]).bytes(),
        7 => (0..768u32).map(|i| (i * 11 + 3) as u8).collect(),
        _ => vec![],
    }
}
/// the call the target stands for
fn call(k: usize, path: &str) -> Vec<u8> {
    let wad = |list: Option<&[String]>, levels| format!("{:?}", crate::wadgen::read(path, list, levels)).into_bytes();
    match k {
        0..=3 => exact_out(&run_config(config(path, &target(k).0))),
        4 => wad(None, 4),
        5 => wad(Some(&["a".into(), "b".into()]), 2),
        6 => wad(None, 1),
        7 => match std::panic::catch_unwind(|| quarchitect::wad::palette::read_palette(path)) {
            Ok(Ok(p)) => p.0.iter().flat_map(|c| [c.0, c.1, c.2]).collect(),
            Ok(Err(e)) => format!("E {}", e).into_bytes(),
            Err(e) => format!("P {}", panic_text(e)).into_bytes(),
        },
        _ => {
            let r = std::panic::catch_unwind(|| quarchitect::game_data::forge::GameData::new("n".into(), vec!["x.fgd".into()], target(3).0.forge).save(path.into()));
            format!("{} {}", matches!(r, Ok(Ok(()))), std::fs::read_to_string(path).unwrap_or_default()).into_bytes()
        }
    }
}
/// the result of a target alone, in a process of its own, after the calls given
pub fn alone(k: usize, path: &str, before: &[usize]) -> Vec<u8> {
    for b in before {
        let p = path.to_string();
        let name = move |_: &str| p.clone();
        history_op_at(*b, &name);
        let _ = std::fs::remove_file(path);
    }
    std::fs::write(path, content(k)).expect("scratch file");
    call(k, path)
}
fn baseline(x: &Ctx, k: usize) -> Vec<u8> {
    static B: [std::sync::OnceLock<Vec<u8>>; ALL] = [const { std::sync::OnceLock::new() }; ALL];
    B[k].get_or_init(|| apart(x, k, &[])).clone()
}
/// in a process of its own
fn apart(x: &Ctx, k: usize, before: &[usize]) -> Vec<u8> {
    let out = x.scratch.join(format!("{}-base{}", x.worker, k));
    let mut p = std::process::Command::new(std::env::current_exe().unwrap());
    p.args(["c19base", &k.to_string()]).arg(&out);
    if !before.is_empty() {
        p.arg(before.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
    }
    let st = p.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("subprocess");
    let b = std::fs::read(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    match st.success() {
        true => b,
        false => format!("P process ended with {:?}", st).into_bytes(),
    }
}

/// maps, WADs and FGDs with very many names of all kinds that no target has
fn crowd(n: usize, put: &dyn Fn(&str, &[u8]) -> String) {
    use crate::wadgen::{Tex, Wad};
    let g = gallery();
    let mut cfg = Cfg::default();
    let mut ents = vec![Ent::new("worldspawn")];
    for i in 0..n {
        let (t, k) = (format!("crowd{}", i), format!("c{}", i));
        if i % 3 != 2 {
            cfg.tex.push((t.clone(), 8 + i as u32, 16));
        }
        if i % 5 == 0 {
            cfg.layers.push(LayerDef { name: format!("CL{}", i), texture: t.clone(), etype: EType::Placeholder, script: Some(k.clone()), visual: true, coll: Coll::Convex });
        }
        if i % 4 == 0 {
            cfg.ents.push(EntDef::solid(&k, true, Coll::Concave));
            cfg.forge.extend(typed_class(&k));
        }
        ents[0].brushes.push(Brush::of(&moved(&g[1].1, spot(i % 400)), |_| t.clone()));
        ents.push(Ent::new(&k).kv("_tb_id", &(1000 + i).to_string()).kv(&format!("key{}", i), &format!("value{}", i)).kv("origin", &format!("{} 0 0", i)));
    }
    let p = put("in.map", text(&ents).as_bytes());
    let _ = run_config(config(&p, &cfg));
    let quiet = |f: &mut dyn FnMut()| {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    };
    let p = put("in.wad", &Wad::of(n % 2 == 0, (0..n).map(|i| Tex::new(&format!("crowd{}", i), 8, 8, i as u32)).collect()).bytes());
    quiet(&mut || {
        let _ = crate::wadgen::read(&p, None, 1);
    });
    let p = put("out.fgd", b"");
    quiet(&mut || {
        let _ = quarchitect::game_data::forge::GameData::new("n".into(), vec![], cfg.forge.clone()).save(p.clone());
    });
}

const HOPS: usize = 18;
/// more for processes of their own
const CROWDS: [usize; 5] = [70, 140, 300, 600, 1100];
/// something else that is done before, with the same file names where possible
fn history_op(k: usize, x: &Ctx) {
    history_op_at(k, &|name| put(x, name, b""))
}
fn history_op_at(k: usize, name: &dyn Fn(&str) -> String) {
    let x = ();
    let put = |_: (), n: &str, b: &[u8]| {
        let p = name(n);
        std::fs::write(&p, b).expect("scratch file");
        p
    };
    let map = |t: &str, cfg: &Cfg| {
        let p = put(x, "in.map", t.as_bytes());
        let _ = run_config(config(&p, cfg));
    };
    let quiet = |f: &mut dyn FnMut()| {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    };
    match k {
        0..=3 => {
            let (cfg, t) = target(k);
            map(&t, &cfg);
        }
        4 => map(&target(0).1, &target(2).0),
        5 => map(&target(2).1, &target(0).0),
        6 => {
            let p = put(x, "in.map", b"");
            let _ = std::fs::remove_file(&p);
            let _ = run_config(config(&p, &target(0).0));
        }
        7 => map(target(1).1.trim_end().trim_end_matches('}'), &target(1).0),
        8 => {
            let t = target(0).1;
            let cut = t.rfind("( ").unwrap();
            map(&format!("{}{}", &t[..cut], t[cut..].replacen("( ", "( x ", 1)), &target(0).0)
        }
        9 => {
            let mut w = crate::wadgen::Wad::of(true, vec![crate::wadgen::Tex::new("a", 16, 16, 1), crate::wadgen::Tex::new("f0", 8, 8, 2)]);
            w.wad3 = true;
            let p = put(x, "in.wad", &w.bytes());
            quiet(&mut || {
                let _ = crate::wadgen::read(&p, None, 4);
            });
        }
        10 => {
            let b = crate::wadgen::Wad::of(false, vec![crate::wadgen::Tex::new("a", 16, 16, 1)]).bytes();
            let p = put(x, "in.wad", &b[..b.len() / 2]);
            quiet(&mut || {
                let _ = crate::wadgen::read(&p, Some(&["a".to_string()]), 2);
            });
        }
        11 => {
            let a = put(x, "in.map", target(3).1.as_bytes());
            let b = put(x, "in2.map", target(1).1[..200].as_bytes());
            quiet(&mut || {
                let _ = quarchitect::run_diff(&a, &b);
            });
        }
        12 => {
            let p = put(x, "out.fgd", b"");
            quiet(&mut || {
                let _ = quarchitect::game_data::forge::GameData::new("n".into(), vec![], target(2).0.forge).save(p.clone());
            });
        }
        13 => {
            let p = put(x, "in.lmp", &[7; 768]);
            quiet(&mut || {
                let _ = quarchitect::wad::palette::read_palette(&p);
            });
        }
        // the files of other targets, and of targets in another way
        15 => {
            let p = put(x, "in.wad", &content(4));
            quiet(&mut || {
                let _ = crate::wadgen::read(&p, Some(&["f0".to_string()]), 1);
            });
        }
        16 => {
            let p = put(x, "in.wad", &content(5));
            quiet(&mut || {
                let _ = crate::wadgen::read(&p, None, 3);
            });
        }
        17 => {
            let p = put(x, "in.wad", &[content(6), vec![0; 50]].concat());
            quiet(&mut || {
                let _ = crate::wadgen::read(&p, None, 1);
            });
            let p = put(x, "in.lmp", &[0; 100]);
            quiet(&mut || {
                let _ = quarchitect::wad::palette::read_palette(&p);
            });
        }
        k if k >= HOPS => crowd(CROWDS[k - HOPS], &|n, b| put(x, n, b)),
        // the same file name with a text of the same length
        _ => map(&target(3).1.replace("func", "fund").replace("255", "254"), &target(3).0),
    }
}

pub fn c19(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let t = c.pick(ALL);
    let mode = c.pick(5);
    if mode == 4 {
        // in processes of their own: the first calls of a process, and calls with very many names
        let n = 1 + c.pick(if th { 3 } else { 2 });
        let hist: Vec<usize> = (0..n).map(|i| c.pick(if n == 1 || i == 0 { HOPS + if n == 1 || th { CROWDS.len() } else { 3 } } else { HOPS })).collect();
        x.go(c)?;
        x.state(&(t, "apart", &hist));
        let want = baseline(x, t);
        x.last_input = content(t);
        x.stats.impl_calls += n as u64 + 1;
        let got = apart(x, t, &hist);
        x.outcome(&got);
        if got != want {
            return fail(format!("target {} gives another result in a process of its own after the calls {:?} than without{}", t, hist, if got.first() == Some(&b'P') { format!(": {}", String::from_utf8_lossy(&got)) } else { String::new() }));
        }
        return Ok(());
    }
    // the file may be overwritten or replaced by a new one
    let fresh = if mode == 2 || (th && mode == 1) { false } else { c.flag() };
    let (hist, seed, name, repeat): (Vec<usize>, usize, usize, bool) = match mode {
        // histories of every kind, few seeds
        0 => {
            let n = c.pick(if th { 4 } else { 3 });
            let h = (0..n).map(|_| c.pick(HOPS)).collect();
            (h, c.pick(if th && n < 3 { 8 } else if th { 2 } else { 4 }), 0, false)
        }
        // longer ones, one seed
        1 => {
            let n = if th { 4 } else { 3 };
            ((0..n).map(|_| c.pick(HOPS)).collect(), 8 + t, 0, false)
        }
        // many seeds
        2 => (vec![], 16 + c.pick(if th { 4096 } else { 512 }), 0, false),
        // other file names, the load itself repeated
        _ => ((0..c.pick(4)).map(|_| t).collect(), c.pick(4), 1 + c.pick(15), true),
    };
    x.go(c)?;
    x.state(&(t, &hist, seed, name, fresh));
    let want = baseline(x, t);
    let txt = content(t);
    x.last_input = txt.clone();
    x.stats.impl_calls += hist.len() as u64 + 1;
    crate::sys::SEED.store(0x9e3779b97f4a7c15u64.wrapping_mul(2 * seed as u64 + 1) | 1, std::sync::atomic::Ordering::Relaxed);
    let xr: &Ctx = x;
    struct Share<'a>(&'a Ctx);
    unsafe impl Sync for Share<'_> {}
    unsafe impl Send for Share<'_> {}
    impl Share<'_> {
        fn get(&self) -> &Ctx {
            self.0
        }
    }
    let sh = Share(xr);
    let h = hist.clone();
    let got = std::thread::scope(|s| {
        s.spawn(move || {
            let x = sh.get();
            for k in h {
                history_op(k, x);
            }
            let own = ["in.map", "in.wad", "in.lmp", "out.fgd"][match t {
                0..=3 => 0,
                4..=6 => 1,
                7 => 2,
                _ => 3,
            }];
            let long = "n".repeat(200);
            let names = [own, "b c.txt", if t < 4 { "in.wad" } else { "in.map" }, "\u{e9}.map.map", "-x", "a\nb'\"$;%s{}", &long, ".hid"];
            let base = names[if name < 8 { name } else { 0 }];
            if fresh {
                let _ = std::fs::remove_file(put(x, base, b""));
            }
            let p = put(x, base, &txt);
            // other ways to the same file
            let (dir, leaf) = p.rsplit_once('/').unwrap();
            let link = format!("{}/{}-link", dir, x.worker);
            let _ = std::fs::remove_file(&link);
            let p = match name {
                8 => format!("{}/./{}", dir, leaf),
                9 => format!("{}/../{}/{}", dir, dir.rsplit_once('/').unwrap().1, leaf),
                10 => format!("{}//{}", dir, leaf),
                11 => {
                    let up = std::env::current_dir().unwrap().components().count() - 1;
                    format!("{}{}", "../".repeat(up), &p[1..])
                }
                12 => {
                    std::os::unix::fs::symlink(&p, &link).unwrap();
                    link.clone()
                }
                13 => {
                    std::os::unix::fs::symlink(leaf, &link).unwrap();
                    link.clone()
                }
                14 => {
                    std::fs::hard_link(&p, &link).unwrap();
                    link.clone()
                }
                15 => {
                    std::os::unix::fs::symlink(dir, &link).unwrap();
                    format!("{}/{}", link, leaf)
                }
                _ => p,
            };
            let mut r = call(t, &p);
            if repeat {
                for _ in 0..3 {
                    let q = call(t, &p);
                    if q != r {
                        r = q;
                        break;
                    }
                }
            }
            r
        })
        .join()
        .map_err(panic_text)
    });
    let got = match got {
        Ok(g) => g,
        Err(p) => panic!("{}", p),
    };
    x.outcome(&got);
    if want.first() == Some(&b'E') || want.first() == Some(&b'P') {
        return fail(format!("target {} does not load: {}", t, String::from_utf8_lossy(&want)));
    }
    if got != want {
        return fail(format!("target {} gives another result than in a process of its own, after the calls {:?}, with hash seed {}, file name {}, (repeated: {})", t, hist, seed, name, repeat));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C20

const NENT: usize = 10;
fn c20_cfg() -> Cfg {
    let mut cfg = rich_cfg();
    cfg.ents.push(EntDef::solid("solid", true, Coll::Concave));
    cfg
}
const NTWIN: usize = 20;
const NTWINB: usize = 10;
/// the same brush but for one thing
fn c20_twin_brush(k: usize) -> Brush {
    let g = gallery();
    let mut b = Brush::of(&g[0].1, |i| ftex(i));
    match k {
        0 => {}
        1 => b.faces[3].tex = "f0".into(),
        2 => b.faces[2].rot = 45.0,
        3 => b.faces[1].scale = [-1.0, 1.0],
        4 => b.faces[0].uv = Uv::Valve { u: [0.0, 1.0, 0.0], uo: 0.0, v: [0.0, 0.0, -1.0], vo: 0.0 },
        // a surface has colours when all its faces have: the coloured face has a texture of its own
        5 => {
            b.faces[0].tex = "f7".into();
            b.faces[0].extra = ["0", "0", "0", "10", "20", "30"].iter().map(|s| s.to_string()).collect();
        }
        6 => b.faces[5].uv = Uv::Std { u: 1.0, v: 0.0 },
        7 => b = Brush::of(&boxb([-16, -24, -32], [16, 24, 33]), |i| ftex(i)),
        8 => b.faces.reverse(),
        _ => b.faces[4].pts.rotate_left(1),
    }
    b
}
/// the same entity but for one thing
fn c20_twin(k: usize) -> Ent {
    let e = |class: &str, b: usize| Ent::new(class).brush(c20_twin_brush(b));
    match k {
        0..NTWINB => e("func", k),
        10 => e("func", 0).kv("_phong", "1"),
        11 => e("func", 0).kv("_phong", "1").kv("_phong_angle", "50"),
        12 => e("func", 0).kv("_phong", "1").kv("_phong_angle", "120"),
        13 => e("func", 0).kv("_phong", "0"),
        14 => e("func", 0).kv("origin", "1 2 3"),
        15 => e("solid", 0),
        16 => e("unknown", 0),
        17 => e("func", 0).kv("str", "twin"),
        18 => e("func", 0).brush(c20_twin_brush(0)),
        _ => e("func", 0).kv("_phong_angle", "50"),
    }
}
/// entities that look alike: shared classes, keys, textures, planes and corners
fn c20_ent(k: usize) -> Ent {
    let g = gallery();
    let val = |b: Brush, u: [f64; 3], s: f64| {
        let mut b = b;
        for f in b.faces.iter_mut() {
            f.uv = Uv::Valve { u, uo: 8.0, v: [0.0, -1.0, 0.5], vo: -4.0 };
            f.scale = [s, -2.0];
        }
        b
    };
    let at = |n: usize, p: P3| Brush::of(&moved(&g[n].1, p), |i| ftex(i % 8));
    let colored = |mut b: Brush, e: &[&str]| {
        for f in b.faces.iter_mut() {
            f.extra = e.iter().map(|s| s.to_string()).collect();
        }
        b
    };
    match k {
        NENT.. => c20_twin(k - NENT),
        0 => Ent::new("func").brush(at(0, [0, 0, 0])),
        1 => Ent::new("func").kv("_phong", "1").kv("_phong_angle", "100").kv("int", "9").brush(at(0, [0, 0, 0])).brush(at(1, [0, 0, 64])),
        2 => Ent::new("light").kv("origin", "10 20 -30").kv("int", "7").kv("color", "255 128 0").kv("choice", "five"),
        3 => Ent::new("solid").brush(val(at(7, [0, 0, 0]), [1.0, 0.0, 0.0], 0.5)).brush(at(7, [128, 0, 0])).brush(at(3, [0, 0, 0])),
        4 => Ent::new("unknown").kv("int", "8").brush(at(1, [32, 0, 0])),
        5 => Ent::new("func").kv("flags", "3").kv("str", "other").brush(val(at(0, [0, 0, 0]), [0.0, 1.0, 0.0], -1.0)),
        6 => Ent::new("solid").brush(colored(at(9, [0, 0, 0]), &["0", "1", "2", "255", "0", "9"])),
        7 => Ent::new("func").kv("origin", "1 2 3").kv("_tb_name", "x").kv("_tb_type", "y").brush(at(0, [0, 0, 0])),
        8 => Ent::new("light").kv("float", "0.25"),
        _ => Ent::new("solid").kv("_phong", "1").brush(at(6, [0, 0, 0])).brush(Brush::of(&moved(&g[0].1, [64, 0, 0]), |i| if i == 0 { "b".into() } else { "nowhere".into() })),
    }
}
fn c20_world(k: usize) -> Ent {
    let g = gallery();
    let mut w = Ent::new("worldspawn").kv("message", "m");
    if k > 0 {
        w = w.brush(Brush::of(&g[0].1, |_| "lay".into())).brush(Brush::of(&moved(&g[1].1, [0, 0, 64]), |i| ftex(i)));
    }
    w
}
const NBRUSH: usize = 10;
fn c20_brush(k: usize) -> Brush {
    if k >= NBRUSH {
        return c20_twin_brush(k - NBRUSH);
    }
    let g = gallery();
    let mut b = match k {
        0 => Brush::of(&g[0].1, |i| ftex(i)),
        1 => Brush::of(&moved(&g[0].1, [32, 0, 0]), |i| ftex(i)), // touches 0
        2 => Brush::of(&g[0].1, |i| ftex(i)),                     // in the same place
        3 => Brush::of(&moved(&g[1].1, [0, 0, 32]), |_| "a".into()),
        4 => Brush::of(&moved(&g[6].1, [0, 0, 0]), |i| ftex(i % 8)),
        5 => Brush::of(&moved(&g[7].1, [0, 48, 0]), |i| if i % 2 == 0 { "b".into() } else { "a".into() }),
        6 => Brush::of(&moved(&g[8].1, [0, 0, 0]), |_| "nowhere".into()),
        7 => Brush::of(&moved(&g[2].1, [-64, 0, 0]), |_| "f7".into()),
        8 => Brush::of(&moved(&g[9].1, [0, -80, 0]), |_| "lay".into()),
        _ => Brush::of(&moved(&g[11].1, [0, 0, 0]), |i| ftex(7 - i % 7)),
    };
    for f in b.faces.iter_mut() {
        match k {
            2 => f.rot = 45.0,
            4 => f.uv = Uv::Valve { u: [0.0, 1.0, 0.0], uo: 3.0, v: [0.0, 0.0, -1.0], vo: 1.0 },
            8 => f.extra = ["0", "0", "0", "10", "20", "30"].iter().map(|s| s.to_string()).collect(),
            9 => f.scale = [2.0, 0.25],
            _ => {}
        }
    }
    b
}

type Corner = Vec<u32>;
/// (visual triangles, convex shapes, concave triangles) of an actor, bit for bit
fn pieces(n: &Node) -> Result<(Vec<(String, [Corner; 3])>, Vec<Vec<Corner>>, Vec<[Corner; 3]>), Stop> {
    let bits = |v: &[f32]| v.iter().map(|x| x.to_bits()).collect::<Vec<u32>>();
    let (mut vis, mut convex, mut concave) = (Vec::new(), Vec::new(), Vec::new());
    for ch in n.actor().map(|a| a.1).unwrap_or(&[]) {
        match &ch.kind {
            Kind::Visual(v) => {
                for s in v {
                    for t in s.indices.chunks_exact(3) {
                        let one = |i: usize| -> Result<Corner, Stop> {
                            if i >= s.verts.len() || i >= s.normals.len() || i >= s.tangents.len() {
                                return fail("index out of range");
                            }
                            let mut o = bits(&s.verts[i]);
                            o.extend(bits(&s.normals[i]));
                            o.extend(bits(&s.tangents[i].0));
                            o.extend(bits(&[s.tangents[i].1]));
                            if let Some(u) = &s.uvs {
                                o.extend(bits(u.get(i).map(|u| &u[..]).unwrap_or(&[])));
                            }
                            o.push(7);
                            if let Some(u) = &s.colors {
                                o.extend(bits(u.get(i).map(|u| &u[..]).unwrap_or(&[])));
                            }
                            Ok(o)
                        };
                        // which corner a triangle starts with is not told apart
                        let mut q = [one(t[0])?, one(t[1])?, one(t[2])?];
                        let m = (0..3).min_by_key(|i| q[*i].clone()).unwrap();
                        q.rotate_left(m);
                        vis.push((s.texture.clone().unwrap_or_else(|| "<none>".into()), q));
                    }
                }
            }
            Kind::Convex(v) => convex.extend(v.iter().map(|(ce, p)| std::iter::once(bits(ce)).chain(p.iter().map(|p| bits(p))).collect::<Vec<_>>())),
            Kind::Concave(v) => {
                for (_, p, ix) in v {
                    for t in ix.chunks_exact(3) {
                        if t.iter().any(|i| *i >= p.len()) {
                            return fail("index out of range");
                        }
                        let mut q = [bits(&p[t[0]]), bits(&p[t[1]]), bits(&p[t[2]])];
                        let m = (0..3).min_by_key(|i| q[*i].clone()).unwrap();
                        q.rotate_left(m);
                        concave.push(q);
                    }
                }
            }
            _ => {}
        }
    }
    vis.sort();
    concave.sort();
    Ok((vis, convex, concave))
}

pub fn c20(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    static ALONE: std::sync::OnceLock<Result<Vec<(Vec<u8>, Vec<u8>)>, String>> = std::sync::OnceLock::new();
    if c.flag() {
        // entities
        let twins = c.flag();
        let n = if twins { 2 + c.pick(if th { 2 } else { 1 }) } else { 1 + c.pick(if th { 5 } else { 4 }) };
        let e: Vec<usize> = (0..n).map(|_| if twins { NENT + c.pick(NTWIN) } else { c.pick(NENT) }).collect();
        let w = c.pick(2);
        let at = if n <= 3 { c.pick(n + 1) } else { (e[0] + e[n - 1]) % (n + 1) };
        x.go(c)?;
        x.state(&(0, &e, w, at));
        let cfg = c20_cfg();
        let ask = |x: &mut Ctx, v: &[Ent]| -> Result<Vec<Node>, Stop> { run_map(x, &cfg, text(v).as_bytes()).tree() };
        if ALONE.get().is_none() {
            let mut v = Vec::new();
            for k in 0..NENT + NTWIN {
                let t = ask(x, &[c20_world(0), c20_ent(k)])?;
                let u = ask(x, &[c20_ent(k), c20_world(0)])?;
                if t.len() != 2 || u.len() != 2 {
                    return fail(format!("{} nodes for two entities", t.len()));
                }
                v.push((exact(&t[1..]), exact(&u[1..])));
            }
            for k in 0..2 {
                let t = ask(x, &[c20_world(k)])?;
                v.push((exact(&t), vec![t.len() as u8]));
            }
            let _ = ALONE.set(Ok(v));
        }
        let al = match ALONE.get().unwrap() {
            Ok(a) => a,
            Err(e) => return fail(e.clone()),
        };
        let mut v: Vec<Ent> = e.iter().map(|k| c20_ent(*k)).collect();
        v.insert(at, c20_world(w));
        let t = ask(x, &v)?;
        let first = al[NENT + NTWIN + w].1[0] as usize;
        if t.len() != first + n {
            return fail(format!("{} top level nodes instead of {}", t.len(), first + n));
        }
        if exact(&t[..first]) != al[NENT + NTWIN + w].0 {
            return fail("worldspawn or a layer differs from what it is alone");
        }
        for (i, k) in e.iter().enumerate() {
            let g = exact(&t[first + i..first + i + 1]);
            if g != al[*k].0 {
                return fail(format!("entity {} ({:?}) differs from what it is alone", i, c20_ent(*k).kvs));
            }
            if g != al[*k].1 {
                return fail(format!("entity {} ({:?}) alone differs after and before worldspawn", i, c20_ent(*k).kvs));
            }
        }
        Ok(())
    } else {
        // brushes of one entity
        let twins = c.flag();
        let n = if twins { 2 + c.pick(if th { 2 } else { 1 }) } else { 1 + c.pick(if th { 5 } else { 4 }) };
        let b: Vec<usize> = (0..n).map(|_| if twins { NBRUSH + c.pick(NTWINB) } else { c.pick(NBRUSH) }).collect();
        let class = if n <= 3 || th { c.pick(3) } else { b[0] % 3 };
        let phong = if n <= 2 { c.pick(3) } else { b[n - 1] % 3 };
        x.go(c)?;
        x.state(&(1, &b, class, phong));
        let mut cfg = c20_cfg();
        cfg.bl_brush.clear();
        let ask = |x: &mut Ctx, v: &[usize]| -> Result<_, Stop> {
            let mut e = Ent::new(["worldspawn", "func_group", "solid"][class]).kv("origin", "1 2 3");
            if phong > 0 {
                e = e.kv("_phong", "1");
            }
            if phong > 1 {
                e = e.kv("_phong_angle", "50");
            }
            for k in v {
                // a layer would take it away from worldspawn
                let mut q = c20_brush(*k);
                if *k == 8 && class == 0 {
                    q.faces[0].tex = "a".into();
                    for f in q.faces.iter_mut() {
                        f.extra.clear();
                    }
                }
                e = e.brush(q);
            }
            let mut v = vec![e];
            if class > 0 {
                v.insert(0, Ent::new("worldspawn"));
            }
            let t = run_map(x, &cfg, text(&v).as_bytes()).tree()?;
            let want = if class > 0 { 2 } else { 1 };
            if t.len() != want {
                return fail(format!("{} top level nodes", t.len()));
            }
            pieces(&t[want - 1])
        };
        type P = (Vec<(String, [Corner; 3])>, Vec<Vec<Corner>>, Vec<[Corner; 3]>);
        thread_local! {
            static ONE: std::cell::RefCell<BTreeMap<(usize, usize, usize), P>> = const { std::cell::RefCell::new(BTreeMap::new()) };
        }
        let mut want: P = Default::default();
        for k in &b {
            let key = (class, phong, *k);
            let got = ONE.with(|o| o.borrow().get(&key).cloned());
            let p = match got {
                Some(p) => p,
                None => {
                    let p = ask(x, &[*k])?;
                    ONE.with(|o| o.borrow_mut().insert(key, p.clone()));
                    p
                }
            };
            want.0.extend(p.0);
            want.1.extend(p.1);
            want.2.extend(p.2);
        }
        want.0.sort();
        want.2.sort();
        let got = ask(x, &b)?;
        if got.1 != want.1 {
            return fail(format!("convex shapes of the brushes {:?} are not those of each brush alone", b));
        }
        if got.2 != want.2 {
            return fail(format!("concave triangles of the brushes {:?} are not those of each brush alone", b));
        }
        if got.0 != want.0 {
            let d = got.0.iter().find(|t| !want.0.contains(t));
            return fail(format!("visual triangles of the brushes {:?} are not those of each brush alone: {:?}", b, d));
        }
        Ok(())
    }
}
