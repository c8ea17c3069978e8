//! C11 - C18: geometry.
use super::corpus::*;
use crate::explore::*;
use crate::lib_run::*;
use crate::map::*;
use crate::poly::*;
use crate::props::p_tree::LNAMES;

pub fn ftex(i: usize) -> String {
    format!("f{}", i)
}

/// the one visual / collision node of the given kind of the actor with this name
pub fn visual<'a>(t: &'a [Node], class: &str) -> Result<&'a [Surf], Stop> {
    for (_, a, ch, _) in all_actors(t) {
        if a.name == class {
            let v: Vec<&Vec<Surf>> = ch.iter().filter_map(|n| if let Kind::Visual(v) = &n.kind { Some(v) } else { None }).collect();
            if v.len() != 1 {
                return fail(format!("{} visual nodes on actor {}", v.len(), class));
            }
            return Ok(v[0]);
        }
    }
    fail(format!("no actor {}", class))
}
pub fn convex<'a>(t: &'a [Node], class: &str) -> Result<&'a [(V3, Vec<V3>)], Stop> {
    for (_, a, ch, _) in all_actors(t) {
        if a.name == class {
            for n in ch {
                if let Kind::Convex(v) = &n.kind {
                    return Ok(v);
                }
            }
        }
    }
    fail(format!("no convex collision on {}", class))
}
pub fn concave<'a>(t: &'a [Node], class: &str) -> Result<&'a [(V3, Vec<V3>, Vec<usize>)], Stop> {
    for (_, a, ch, _) in all_actors(t) {
        if a.name == class {
            for n in ch {
                if let Kind::Concave(v) = &n.kind {
                    return Ok(v);
                }
            }
        }
    }
    fail(format!("no concave collision on {}", class))
}

pub fn surf<'a>(v: &'a [Surf], tex: &str) -> Result<&'a Surf, Stop> {
    let m: Vec<&Surf> = v.iter().filter(|s| s.texture.as_deref() == Some(tex)).collect();
    if m.len() != 1 {
        return fail(format!("{} surfaces with texture {}", m.len(), tex));
    }
    Ok(m[0])
}

/// index of the polygon corner a vertex stands for
fn corner(sh: &Shape, among: &[usize], v: V3, tol: f64) -> Option<usize> {
    among.iter().copied().find(|&i| near3(v, sh.verts[i], tol))
}

/// one face alone in a surface: exactly the corners of the polygon, and its triangles tile it
pub fn check_face(sh: &Shape, i: usize, s: &Surf, tol: f64) -> R {
    let f = &sh.faces[i];
    let mut seen = vec![0usize; f.len()];
    for v in &s.verts {
        match corner(sh, f, *v, tol) {
            None => return fail(format!("face {}: {:?} is not a corner of the face, corners are {:?}", i, v, f.iter().map(|&k| sh.verts[k]).collect::<Vec<_>>())),
            Some(k) => seen[f.iter().position(|x| *x == k).unwrap()] += 1,
        }
    }
    if let Some(k) = seen.iter().position(|n| *n == 0) {
        return fail(format!("face {}: corner {:?} is missing, got {:?}", i, sh.verts[f[k]], s.verts));
    }
    if let Some(k) = seen.iter().position(|n| *n > 1) {
        return fail(format!("face {}: corner {:?} occurs {} times, got {:?}", i, sh.verts[f[k]], seen[k], s.verts));
    }
    check_tiling(sh, i, &s.verts, &s.indices, tol)
}

/// the triangles cover the polygon exactly once: they are all wound the same way, every polygon edge
/// is used once, every inner edge twice
pub fn check_tiling(sh: &Shape, i: usize, verts: &[V3], idx: &[usize], tol: f64) -> R {
    let f = &sh.faces[i];
    if idx.len() % 3 != 0 {
        return fail(format!("face {}: {} indices", i, idx.len()));
    }
    if idx.len() != 3 * (f.len() - 2) {
        return fail(format!("face {}: {} triangles for a polygon of {} corners", i, idx.len() / 3, f.len()));
    }
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for t in idx.chunks(3) {
        let mut q = [0; 3];
        for k in 0..3 {
            let v = match verts.get(t[k]) {
                Some(v) => *v,
                None => return fail(format!("face {}: index {} of {} vertices", i, t[k], verts.len())),
            };
            q[k] = match corner(sh, f, v, tol) {
                Some(c) => f.iter().position(|x| *x == c).unwrap(),
                None => return fail(format!("face {}: stray vertex {:?}", i, v)),
            };
        }
        // clockwise seen from outside: positions in the counter-clockwise polygon must run down
        let n = f.len();
        let a = (q[0] + n - q[1]) % n;
        let b = (q[0] + n - q[2]) % n;
        if !(a > 0 && b > 0 && a < b) {
            return fail(format!("face {}: triangle over corners {:?} of {} is degenerate or wound the wrong way", i, q, n));
        }
        for k in 0..3 {
            edges.push((q[k], q[(k + 1) % 3]));
        }
    }
    let n = f.len();
    for k in 0..n {
        let e = ((k + 1) % n, k);
        if edges.iter().filter(|x| **x == e).count() != 1 || edges.contains(&(e.1, e.0)) {
            return fail(format!("face {}: border edge {:?} not covered exactly once", i, e));
        }
    }
    for e in &edges {
        let border = (e.1 + 1) % n == e.0;
        if edges.iter().filter(|x| *x == e).count() != 1 || (!border && !edges.contains(&(e.1, e.0))) {
            return fail(format!("face {}: inner edge {:?} not shared by two triangles", i, e));
        }
    }
    Ok(())
}

pub fn solid_cfg(class: &str, n: usize, visual: bool, coll: Coll) -> Cfg {
    let mut c = Cfg::default();
    for i in 0..n {
        c.tex.push((ftex(i), 64, 64));
    }
    if class != "worldspawn" {
        c.ents.push(EntDef::point("worldspawn"));
    }
    c.ents.push(EntDef::solid(class, visual, coll));
    c
}

pub fn solid_map(class: &str, brushes: Vec<Brush>) -> Vec<Ent> {
    let mut v = Vec::new();
    if class != "worldspawn" {
        v.push(Ent::new("worldspawn"));
    }
    let mut e = Ent::new(class);
    e.brushes = brushes;
    v.push(e);
    v
}

const PLACES: [P3; 7] = [[0, 0, 0], [104, -200, 304], [-1000, 16, 512], [2048, -2048, 1024], [-4000, 3900, -3800], [20000, -40000, 30000], [-90000, 70000, 65536]];

/// corners whose best determinant is smaller are not judged
const WELL: f64 = 2e-5;

/// edge lengths in sixteenths of a unit
const FINE: [i64; 10] = [1, 3, 8, 16, 35, 1600, 32000, 2, 7, 4801];

fn family(c: &mut Chooser, x: &mut Ctx) -> Result<Vec<PlaneI>, Stop> {
    let th = x.thorough;
    // all choices first, work after go()
    match c.pick(12) {
        10 => {
            // very many sides
            let n = *c.of(if th { &[47usize, 62, 63, 64, 65, 80, 99, 126, 127, 128, 129, 160, 200, 254, 255, 256][..] } else { &[63, 64, 65, 80, 127, 130][..] });
            let p = c.pick(if th { 6 } else { 2 });
            let kind = c.pick(2);
            x.go(c)?;
            let g = ngon(n, 8000);
            Ok(turned(&if kind == 0 { prism(&g, -512, 512) } else { pyramid(&g, 0, [0, 0, 4000]) }, p))
        }
        11 => {
            // balls: planes tangent to a sphere in all lattice directions
            let most = *c.of(if th { &[1i64, 2, 3][..] } else { &[1, 2][..] });
            let r = *c.of(&[64i64, 500, 2000, 4000]);
            let t = *c.of(&PLACES[..2]);
            x.go(c)?;
            let mut v = Vec::new();
            for a in -most..=most {
                for b in -most..=most {
                    for d in -most..=most {
                        let g = |mut a: i64, mut b: i64| {
                            while b != 0 {
                                let k = a % b;
                                a = b;
                                b = k;
                            }
                            a.abs()
                        };
                        if g(g(a, b), d) == 1 {
                            let l = ((a * a + b * b + d * d) as f64).sqrt();
                            v.push(PlaneI::new([a, b, d], (r as f64 * l).round() as i64));
                        }
                    }
                }
            }
            Ok(moved(&v, t))
        }
        6 => {
            // boxes from a sixteenth of a unit thin to 2000 units long
            let e = if th { &FINE[..] } else { &FINE[..7] };
            let d = [*c.of(e), *c.of(e), *c.of(e)];
            let t = *c.of(&PLACES[..3]);
            let p = if th { c.pick(6) } else { 0 };
            x.go(c)?;
            Ok(moved(&turned(&finer(&boxb([0, 0, 0], d), 16), p), t))
        }
        7 => {
            // small solids: the gallery and cut boxes at 1/4 to 1/64 of their size
            let div = *c.of(&[4, 16, 64, 256]);
            let t = *c.of(&PLACES[..2]);
            let s = if c.flag() {
                let g = gallery();
                c.of(&g).1.clone()
            } else {
                cut_box(c, if th { 2 } else { 1 }, &[1, 4, 12])
            };
            x.go(c)?;
            Ok(moved(&finer(&s, div), t))
        }
        9 => {
            // shallow roofs: pyramids and wedges whose faces are nearly level
            let w = *c.of(&[16i64, 64, 128, 256, 1024]);
            let h = *c.of(&[1i64, 2, 4, 8]);
            let kind = c.pick(4);
            let p = c.pick(6);
            let t = *c.of(&PLACES[..if th { 4 } else { 2 }]);
            x.go(c)?;
            let q = [[-w, -w], [w, -w], [w, w], [-w, w]];
            let s = match kind {
                0 => pyramid(&q, 0, [0, 0, h]),
                1 => pyramid(&q, 0, [w / 2, -w / 4, h]),
                2 => pyramid(&q[..3], 0, [w / 4, -w / 4, h]),
                _ => hull_planes(&[[-w, -w, 0], [w, -w, 0], [w, w, 0], [-w, w, 0], [0, -w, h], [0, w, h]], 1).ok_or(Stop::Prune)?,
            };
            Ok(moved(&turned(&s, p), t))
        }
        8 => {
            // long thin prisms and needles, along each axis
            let n = 3 + c.pick(if th { 10 } else { 4 });
            let r = *c.of(&[20i64, 40, 160]);
            let h = *c.of(&[16i64, 1600, 16000, 32000]);
            let kind = c.pick(2);
            let p = c.pick(6);
            let t = *c.of(&PLACES[..2]);
            x.go(c)?;
            let g = ngon(n, r);
            let s = if kind == 0 { prism(&g, 0, h) } else { pyramid(&g, 0, [0, 0, h]) };
            Ok(moved(&turned(&finer(&s, 16), p), t))
        }
        0 => {
            let v = cut_box(c, if th { 3 } else { 2 }, if th { &[4, 8, 12] } else { &[4, 12] });
            x.go(c)?;
            Ok(v)
        }
        1 => {
            let p = lattice_points(c, 3, 4);
            x.go(c)?;
            hull_planes(&p, 16).ok_or(Stop::Prune)
        }
        2 => {
            let p = lattice_points(c, 3, 5);
            if th && c.flag() {
                x.go(c)?;
                return Ok(moved(&hull_planes(&p, 24).ok_or(Stop::Prune)?, [1000, -1500, 700]));
            }
            x.go(c)?;
            hull_planes(&p, 16).ok_or(Stop::Prune)
        }
        3 => {
            let p = lattice_points(c, if th { 3 } else { 2 }, 6);
            x.go(c)?;
            hull_planes(&p, 16).ok_or(Stop::Prune)
        }
        4 => {
            let n = 3 + c.pick(if th { 46 } else { 30 });
            let h = *c.of(&[1i64, 16, 512]);
            let r = *c.of(&[128i64, 640]);
            let t = *c.of(&PLACES[..4]);
            let kind = c.pick(2);
            x.go(c)?;
            let g = ngon(n, if n > 24 { 640.max(r) } else { r });
            let s = if kind == 0 { prism(&g, -h, h) } else { pyramid(&g, 0, [0, 0, r]) };
            Ok(moved(&s, t))
        }
        _ => {
            let g = gallery();
            let (_, s) = c.of(&g).clone();
            let k = *c.of(&[1i64, 2, 7, 16, 100, 700]);
            let t = *c.of(&PLACES);
            let m = c.pick(6);
            x.go(c)?;
            // the six axis orders and a mirror
            Ok(moved(&turned(&scaled(&s, k), m), t))
        }
    }
}

/// axis permutation number m applied to the solid
pub fn turned(s: &[PlaneI], m: usize) -> Vec<PlaneI> {
    const P: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];
    let p = P[m];
    let odd = m >= 3;
    let f = |v: P3| {
        let w = [v[p[0]], v[p[1]], v[p[2]]];
        if odd {
            [-w[0], w[1], w[2]]
        } else {
            w
        }
    };
    s.iter().map(|q| PlaneI { n: f(q.n), d: q.d, pts: [f(q.pts[0]), f(q.pts[1]), f(q.pts[2])], div: q.div }).collect()
}

fn ready(s: &[PlaneI]) -> Result<(Shape, f64), Stop> {
    let sh = shape(s).ok_or(Stop::Prune)?;
    if sh.faces.iter().any(|f| f.len() < 3) {
        return Err(Stop::Prune);
    }
    let t = tol(sh.extent());
    if sh.separation() < 4.0 * t || sh.conditioning(s) < WELL {
        return Err(Stop::Prune);
    }
    Ok((sh, t))
}

pub fn c13(c: &mut Chooser, x: &mut Ctx) -> R {
    let s = match c.pick(3) {
        0 => family(c, x)?,
        1 => {
            // plane orders
            let g = gallery();
            let n = if x.thorough { 3 } else { 2 };
            let small: Vec<Vec<PlaneI>> = g.iter().map(|q| q.1.clone()).filter(|q| q.len() <= 4 + n).collect();
            let q = c.of(&small).clone();
            let p = permutation(c, q.len());
            x.go(c)?;
            p.iter().map(|&i| q[i].clone()).collect()
        }
        _ => {
            // other points for the same plane: one plane at a time gets every ordered corner triple
            let g = gallery();
            let (_, q) = c.of(&g).clone();
            let i = c.pick(q.len());
            let sh = shape(&q).unwrap();
            let f = &sh.faces[i];
            let n = f.len();
            let a = c.pick(n);
            let b = c.pick(n - 2);
            let d = c.pick(n - 2 - b);
            let t = *c.of(&PLACES);
            x.go(c)?;
            let at = |k: usize| {
                let v = sh.verts[f[(a + n - k) % n]];
                [v[0].round() as i64, v[1].round() as i64, v[2].round() as i64]
            };
            let pl = PlaneI::through([at(0), at(b + 1), at(b + 2 + d)]);
            // only where the corners are integers
            if shape(&q).unwrap().verts.iter().any(|v| v.iter().any(|k| k.fract() != 0.0)) || dot(pl.n, q[i].n) <= 0 {
                return Err(Stop::Prune);
            }
            let mut q = q;
            q[i] = pl;
            moved(&q, t)
        }
    };
    let (sh, t) = ready(&s)?;
    x.state(&format!("{:?}", s.iter().map(|p| (p.n, p.d, p.pts, p.div)).collect::<Vec<_>>()));
    let cfg = solid_cfg("worldspawn", s.len(), true, Coll::None);
    let txt = text(&solid_map("worldspawn", vec![Brush::of(&s, ftex)]));
    let tree = run_map(x, &cfg, txt.as_bytes()).tree()?;
    let v = visual(&tree, "worldspawn")?;
    for i in 0..s.len() {
        check_face(&sh, i, surf(v, &ftex(i))?, t)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C14

/// splits the triangles of a mesh among the faces of the brushes and checks that each face is tiled
pub fn check_mesh(shapes: &[(Vec<PlaneI>, Shape)], tris: &[[V3; 3]], t: f64) -> R {
    let mut per: Vec<Vec<Vec<[V3; 3]>>> = shapes.iter().map(|s| vec![Vec::new(); s.0.len()]).collect();
    'tri: for tr in tris {
        let q: Vec<[f64; 3]> = tr.iter().map(|v| d3(*v)).collect();
        let n = fcross(fsub(q[2], q[0]), fsub(q[1], q[0]));
        if flen(n) < 1e-9 {
            return fail(format!("degenerate triangle {:?}", tr));
        }
        let n = fnorm(n);
        for (b, (pl, sh)) in shapes.iter().enumerate() {
            for (f, poly) in sh.faces.iter().enumerate() {
                if fdot(n, pl[f].unit()) > 0.99 && tr.iter().all(|v| corner(sh, poly, *v, t).is_some()) {
                    per[b][f].push(*tr);
                    continue 'tri;
                }
            }
        }
        return fail(format!("triangle {:?} (clockwise normal {:?}) lies on no face of any brush", tr, n));
    }
    for (b, (_, sh)) in shapes.iter().enumerate() {
        for f in 0..sh.faces.len() {
            let verts: Vec<V3> = per[b][f].iter().flatten().copied().collect();
            let idx: Vec<usize> = (0..verts.len()).collect();
            if let Err(Stop::Fail { msg, .. }) = check_tiling(sh, f, &verts, &idx, t) {
                return fail(format!("brush {}: {}", b, msg));
            }
        }
    }
    // closed: every directed edge has its reverse; encloses the volume
    let key = |v: V3| -> (usize, usize) {
        for (b, (_, sh)) in shapes.iter().enumerate() {
            for (i, c) in sh.verts.iter().enumerate() {
                if near3(v, *c, t) {
                    return (b, i);
                }
            }
        }
        (usize::MAX, 0)
    };
    let mut edges: std::collections::BTreeMap<((usize, usize), (usize, usize)), i64> = Default::default();
    let mut vol = 0.0;
    for tr in tris {
        let k = [key(tr[0]), key(tr[1]), key(tr[2])];
        for i in 0..3 {
            let (a, b) = (k[i], k[(i + 1) % 3]);
            if a < b {
                *edges.entry((a, b)).or_insert(0) += 1;
            } else {
                *edges.entry((b, a)).or_insert(0) -= 1;
            }
        }
        let q: Vec<[f64; 3]> = tr.iter().map(|v| d3(*v)).collect();
        vol -= fdot(q[0], fcross(q[1], q[2])) / 6.0;
    }
    if let Some((e, n)) = edges.iter().find(|e| *e.1 != 0) {
        return fail(format!("edge {:?} is open ({})", e, n));
    }
    let want: f64 = shapes.iter().map(|s| s.1.volume).sum();
    let ext = shapes.iter().map(|s| s.1.extent()).fold(1.0, f64::max);
    if (vol - want).abs() > want * 1e-3 + 1e-5 * ext * ext * ext {
        return fail(format!("the mesh encloses {} instead of {}", vol, want));
    }
    Ok(())
}

pub fn triangles(verts: &[V3], idx: &[usize]) -> Result<Vec<[V3; 3]>, Stop> {
    if idx.len() % 3 != 0 {
        return fail(format!("{} indices are no triangles", idx.len()));
    }
    let mut out = Vec::new();
    for t in idx.chunks(3) {
        for i in t {
            if *i >= verts.len() {
                return fail(format!("index {} of {} vertices", i, verts.len()));
            }
        }
        out.push([verts[t[0]], verts[t[1]], verts[t[2]]]);
    }
    Ok(out)
}

/// brush number j of an entity goes here, so that brushes do not touch
fn apart(j: usize) -> P3 {
    [(j as i64) * 320 - 640, (j as i64 % 3) * 48, -(j as i64) * 16]
}

/// several brushes of one entity: solids with their exact shapes
fn several(c: &mut Chooser, x: &mut Ctx) -> Result<(Vec<(Vec<PlaneI>, Shape)>, f64), Stop> {
    let g = gallery();
    let mut v = Vec::new();
    match c.pick(4) {
        0 => {
            // all sequences of gallery solids
            let n = 1 + c.pick(if x.thorough { 3 } else { 2 });
            for j in 0..n {
                let s = c.of(&g).1.clone();
                v.push(moved(&s, apart(j)));
            }
        }
        1 => {
            // many brushes
            let n = 1 + c.pick(if x.thorough { 48 } else { 26 });
            let k = c.pick(3);
            for j in 0..n {
                let s = if k == 0 { g[0].1.clone() } else { g[(j * k) % g.len()].1.clone() };
                v.push(moved(&s, apart(j)));
            }
        }
        2 => {
            // neighbours sharing a face, an edge or a corner, or overlapping
            let d = *c.of(&[[32, 0, 0], [0, 48, 0], [32, 48, 0], [32, 48, 64], [8, 12, 16], [0, 0, -64], [32, 8, 8]]);
            let n = 2 + c.pick(3);
            for j in 0..n as i64 {
                v.push(moved(&boxb([-16, -24, -32], [16, 24, 32]), [d[0] * j, d[1] * j, d[2] * j]));
            }
        }
        _ => {
            let n = 3 + c.pick(if x.thorough { 40 } else { 20 });
            let k = c.pick(2);
            let gon = ngon(n, 640);
            v.push(if k == 0 { prism(&gon, -16, 48) } else { pyramid(&gon, 0, [0, 0, 640]) });
        }
    }
    x.go(c)?;
    let mut out = Vec::new();
    let mut t: f64 = 0.0;
    for s in v {
        let (sh, tt) = ready(&s)?;
        t = t.max(tt);
        out.push((s, sh));
    }
    Ok((out, t))
}

/// Very many boxes in one mesh: every triangle is a face's, every face has its two, and the winding is outwards.
/// `what`: 0 one surface, 1 two surfaces, 2 the concave mesh, 3 smoothed surface
fn mass(c: &mut Chooser, x: &mut Ctx, what: &[usize]) -> R {
    let what = *c.of(what);
    let n = *c.of(if x.thorough { &[2730usize, 2731, 8191, 8192, 8193, 11000][..] } else { &[2760usize, 8200][..] });
    if !x.thorough && (n > 8000) != (what >= 2) {
        return Err(Stop::Prune);
    }
    x.go(c)?;
    x.state(&("mass", what, n));
    let at = |j: usize| -> [i64; 3] { [(j % 100) as i64 * 32 - 1600, (j / 100) as i64 * 32 - 1600, (j % 7) as i64 * 8] };
    let class = "func";
    let cfg = solid_cfg(class, 2, what != 2, if what == 2 { Coll::Concave } else { Coll::None });
    let brushes = (0..n).map(|j| Brush::of(&boxb(at(j), { let p = at(j); [p[0] + 16, p[1] + 16, p[2] + 16] }), |i| ftex(if what == 1 { (i == 0 && j % 100 == 0) as usize } else { 0 }))).collect();
    let mut ents = solid_map(class, brushes);
    if what == 3 {
        ents.last_mut().unwrap().kvs.push(("_phong".into(), "1".into()));
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    let mut seen = vec![[0u8; 6]; n];
    let mut verts = 0;
    let mut soup = |v: &[V3], idx: &[usize], normals: Option<&[V3]>, uvs: Option<&[[f32; 2]]>| -> R {
        verts += v.len();
        for t in triangles(v, idx)?.iter().zip(idx.chunks(3)) {
            let (tr, ix) = t;
            // the box and the face the triangle is on
            let q: Vec<[f64; 3]> = tr.iter().map(|v| d3(*v)).collect();
            let nrm = fnorm(fcross(fsub(q[2], q[0]), fsub(q[1], q[0])));
            let axis = match (0..3).find(|a| nrm[*a].abs() > 0.999) {
                Some(a) => a,
                None => return fail(format!("triangle {:?} is on no box", tr)),
            };
            let up = nrm[axis] > 0.0;
            let lo: Vec<f64> = (0..3).map(|a| q.iter().map(|p| p[a]).fold(f64::MAX, f64::min)).collect();
            let mut b = [lo[0], lo[1], lo[2]];
            if up {
                b[axis] -= 16.0;
            }
            let (gx, gy) = (((b[0] + 1600.0) / 32.0).round(), ((b[1] + 1600.0) / 32.0).round());
            let j = (gy * 100.0 + gx) as usize;
            let own = gx >= 0.0 && gx < 100.0 && gy >= 0.0 && j < n && (0..3).all(|a| q.iter().all(|p| { let d = p[a] - at(j)[a] as f64; d.abs() < 0.01 || (d - 16.0).abs() < 0.01 }));
            if !own {
                return fail(format!("triangle {:?} is on no box", tr));
            }
            seen[j][axis * 2 + up as usize] += 1;
            for (p, k) in q.iter().zip(ix) {
                if let Some(m) = normals {
                    let want = if what == 3 { fnorm(fsub(*p, { let z = at(j); [z[0] as f64 + 8.0, z[1] as f64 + 8.0, z[2] as f64 + 8.0] })) } else { nrm };
                    if !near3(m[*k], want, 1e-3) {
                        return fail(format!("box {}: normal {:?} at {:?} instead of {:?}", j, m[*k], p, want));
                    }
                }
                if let Some(u) = uvs {
                    // a standard texture without offset, 64 units wide: the coordinates are two of the position's
                    let w: Vec<f64> = (0..3).filter(|a| *a != axis).map(|a| p[a] / 64.0).collect();
                    let g = u[*k];
                    if !((g[0] as f64).abs() - w[0].abs()).abs().lt(&1e-3) || !((g[1] as f64).abs() - w[1].abs()).abs().lt(&1e-3) {
                        return fail(format!("box {}: texture coordinates {:?} at {:?}", j, g, p));
                    }
                }
            }
        }
        Ok(())
    };
    if what == 2 {
        for m in concave(&tree, class)? {
            soup(&m.1, &m.2, None, None)?;
        }
    } else {
        for s in visual(&tree, class)? {
            soup(&s.verts, &s.indices, Some(&s.normals), s.uvs.as_deref())?;
        }
    }
    if let Some(j) = seen.iter().position(|f| *f != [2; 6]) {
        return fail(format!("box {} of {}: triangles per face {:?}", j, n, seen[j]));
    }
    if what == 2 && verts != 8 * n {
        return fail(format!("{} vertices for {} boxes", verts, n));
    }
    Ok(())
}

fn key_of(v: &[(Vec<PlaneI>, Shape)]) -> String {
    format!("{:?}", v.iter().map(|s| s.0.iter().map(|p| (p.n, p.d, p.pts, p.div)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

pub fn c14(c: &mut Chooser, x: &mut Ctx) -> R {
    if c.flag() {
        return mass(c, x, &[0, 2]);
    }
    let class = *c.of(&["func", "worldspawn"]);
    let mode = c.pick(6);
    let phong = c.pick(3);
    let (v, t) = if mode < 2 && phong == 0 && c.flag() {
        let s = family(c, x)?;
        let (sh, t) = ready(&s)?;
        (vec![(s, sh)], t)
    } else {
        several(c, x)?
    };
    x.state(&(class, mode, phong, key_of(&v)));
    let mut cfg = solid_cfg(class, 3, mode != 1, if mode == 1 || mode == 5 { Coll::Concave } else { Coll::None });
    cfg.tex.push(("big".into(), 512, 16));
    let brushes = v
        .iter()
        .enumerate()
        .map(|(j, s)| {
            Brush::of(&s.0, |i| match mode {
                0 | 1 => "f0".into(),
                2 => ftex(i % 2),
                3 => "nosuch".into(),
                4 => if (i + j) % 3 == 0 { "nosuch".into() } else { ftex((i + j) % 3) },
                _ => if j % 2 == 0 { "big".into() } else { "f1".into() },
            })
        })
        .collect();
    let mut ents = solid_map(class, brushes);
    if phong > 0 {
        let e = ents.last_mut().unwrap();
        e.kvs.push(("_phong".into(), "1".into()));
        if phong == 2 {
            e.kvs.push(("_phong_angle".into(), "60".into()));
        }
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    if mode != 1 {
        let mut tris = Vec::new();
        for s in visual(&tree, class)? {
            tris.extend(triangles(&s.verts, &s.indices)?);
        }
        check_mesh(&v, &tris, t)?;
    }
    if mode == 1 || mode == 5 {
        let m = concave(&tree, class)?;
        let mut tris = Vec::new();
        for s in m {
            tris.extend(triangles(&s.1, &s.2)?);
        }
        check_mesh(&v, &tris, t)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C12

#[derive(Clone, Debug, PartialEq)]
struct Attr {
    pos: V3,
    normal: V3,
    tangent: (V3, f32),
    uv: Option<[f32; 2]>,
    color: Option<V3>,
}
fn attrs(s: &Surf) -> Result<Vec<Attr>, Stop> {
    let n = s.verts.len();
    if s.normals.len() != n || s.tangents.len() != n || s.uvs.as_ref().map(|u| u.len() != n).unwrap_or(false) || s.colors.as_ref().map(|u| u.len() != n).unwrap_or(false) {
        return fail(format!(
            "surface {:?}: {} vertices, {} normals, {} tangents, {:?} uvs, {:?} colours",
            s.texture,
            n,
            s.normals.len(),
            s.tangents.len(),
            s.uvs.as_ref().map(|u| u.len()),
            s.colors.as_ref().map(|u| u.len())
        ));
    }
    Ok((0..n)
        .map(|i| Attr { pos: s.verts[i], normal: s.normals[i], tangent: s.tangents[i], uv: s.uvs.as_ref().map(|u| u[i]), color: s.colors.as_ref().map(|u| u[i]) })
        .collect())
}

fn valve_axes(k: usize) -> Uv {
    match k {
        0 => Uv::Valve { u: [1.0, 0.0, 0.0], uo: 3.0, v: [0.0, -1.0, 0.0], vo: -5.0 },
        1 => Uv::Valve { u: [0.6, 0.8, 0.0], uo: 0.0, v: [0.0, 0.0, -1.0], vo: 0.0 },
        _ => Uv::Valve { u: [0.0, 0.0, 0.0], uo: 0.0, v: [0.0, 0.0, 0.0], vo: 0.0 },
    }
}

pub fn c12(c: &mut Chooser, x: &mut Ctx) -> R {
    match c.pick(3) {
        0 => c12_faces(c, x),
        1 => c12_near(c, x),
        _ => mass(c, x, &[0, 1, 3]),
    }
}

/// face attributes that differ, but hardly
fn c12_near(c: &mut Chooser, x: &mut Ctx) -> R {
    let g = gallery();
    let phong = c.pick(3);
    let by: f64 = *c.of(if x.thorough { &[0.0001, 0.002, 0.01, 0.1, 0.5, 1.0, 0.0005, 0.03, 0.25, 0.75][..] } else { &[0.0001, 0.002, 0.01, 0.1, 0.5, 1.0][..] });
    let field = c.pick(9);
    let every = 2 + c.pick(2);
    let axes = c.pick(2);
    let split = *c.of(&[0usize, 2]);
    let s = match c.pick(4) {
        0 => {
            let k = c.pick(g.len());
            x.go(c)?;
            moved(&g[k].1, [0, 0, 0])
        }
        1 => {
            let m = c.pick(6);
            x.go(c)?;
            turned(&g[0].1, m)
        }
        2 => {
            // faces at small angles
            let n = *c.of(if x.thorough { &[12usize, 24, 48, 60][..] } else { &[12usize, 36][..] });
            let k = c.pick(2);
            x.go(c)?;
            let gon = ngon(n, 640);
            if k == 0 { prism(&gon, -16, 48) } else { pyramid(&gon, 0, [0, 0, 64]) }
        }
        _ => {
            // a low roof
            let h = *c.of(&[1i64, 2, 4, 8]);
            x.go(c)?;
            let gon: Vec<_> = vec![[-512, -512], [512, -512], [512, 512], [-512, 512]];
            pyramid(&gon, 0, [0, 0, h])
        }
    };
    let (sh, t) = ready(&s)?;
    let v = vec![(s, sh)];
    x.state(&("near", phong, by.to_bits(), field, every, axes, split, key_of(&v)));
    let make = |distinct: bool| -> Vec<Ent> {
        let mut b = Brush::of(&v[0].0, |i| {
            if distinct {
                format!("b0f{}", i)
            } else if split == 0 {
                "m0".into()
            } else {
                "nosuch".into()
            }
        });
        for (i, f) in b.faces.iter_mut().enumerate() {
            let d = if i % every == 0 { by } else { 0.0 };
            let (mut u, mut w) = if axes == 0 { ([1.0, 0.0, 0.0, 3.0], [0.0, -1.0, 0.0, -5.0]) } else { ([0.6, 0.8, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0]) };
            let mut colour = [12.0, 120.0, 200.0];
            match field {
                0 => u[3] += d,
                1 => w[3] -= d,
                2 => u[2] += d,
                3 => w[0] -= d,
                4 => f.rot += d,
                5 => f.scale[0] += d,
                6 => f.scale[1] -= d / 2.0,
                7 => colour[i % 3] += d,
                _ => {
                    u[3] += d;
                    colour[2] -= d;
                }
            }
            f.uv = Uv::Valve { u: [u[0], u[1], u[2]], uo: u[3], v: [w[0], w[1], w[2]], vo: w[3] };
            f.extra = ["0", "0", "0"].iter().map(|s| s.to_string()).chain(colour.iter().map(|k| format!("{}", k))).collect();
        }
        let mut e = solid_map("func", vec![b]);
        if phong > 0 {
            e[1].kvs.push(("_phong".into(), "1".into()));
            e[1].kvs.push(("_phong_angle".into(), if phong == 1 { "120" } else { "5" }.into()));
        }
        e
    };
    c12_judge(x, &v, split, &make, t)
}

fn c12_faces(c: &mut Chooser, x: &mut Ctx) -> R {
    // attribute coincidences between the faces of a brush
    let dialect = c.pick(4); // standard, same Valve axes, other same axes, alternating
    let phong = c.pick(4);
    let color = c.pick(6); // none, same, per face, white, black, on some faces
    let split = c.pick(4); // textures: one, two alternating, unknown, two blocks
    let rot = if color >= 3 && !x.thorough { 0 } else { c.pick(2) };
    let (v, _) = several(c, x)?;
    x.state(&(dialect, phong, color, split, rot, key_of(&v)));
    let make = |distinct: bool| -> Vec<Ent> {
        let brushes = v
            .iter()
            .enumerate()
            .map(|(j, s)| {
                let mut b = Brush::of(&s.0, |i| {
                    if distinct {
                        format!("b{}f{}", j, i)
                    } else {
                        match split {
                            0 => "m0".into(),
                            1 => format!("m{}", i % 2),
                            2 => "nosuch".into(),
                            _ => format!("m{}", (i >= s.0.len() / 2) as u8),
                        }
                    }
                });
                for (i, f) in b.faces.iter_mut().enumerate() {
                    f.uv = match dialect {
                        0 => Uv::Std { u: 0.0, v: 0.0 },
                        1 => valve_axes(0),
                        2 => valve_axes(1),
                        _ => valve_axes(i % 3),
                    };
                    if rot == 1 {
                        f.rot = 30.0 * (i % 2) as f64;
                    }
                    f.extra = match color {
                        0 => vec![],
                        1 => ["0", "0", "0", "255", "128", "0"].iter().map(|s| s.to_string()).collect(),
                        3 => ["0", "0", "0", "255", "255", "255"].iter().map(|s| s.to_string()).collect(),
                        4 => vec!["0".to_string(); 6],
                        5 if i % 3 == 1 => vec![],
                        _ => vec!["0".into(), "0".into(), "0".into(), format!("{}", i * 10), "7".into(), format!("{}", i % 2)],
                    };
                }
                b
            })
            .collect();
        let mut e = solid_map("func", brushes);
        match phong {
            0 => {}
            1 => e[1].kvs.push(("_phong".into(), "1".into())),
            k => {
                e[1].kvs.push(("_phong".into(), "1".into()));
                e[1].kvs.push(("_phong_angle".into(), if k == 2 { "46" } else { "120" }.into()));
            }
        }
        e
    };
    c12_judge(x, &v, split, &make, 0.0)
}

fn c12_judge(x: &mut Ctx, v: &[(Vec<PlaneI>, Shape)], split: usize, make: &dyn Fn(bool) -> Vec<Ent>, _t: f64) -> R {
    let mut cfg = solid_cfg("func", 0, true, Coll::None);
    for (j, s) in v.iter().enumerate() {
        for i in 0..s.0.len() {
            cfg.tex.push((format!("b{}f{}", j, i), 64, 32));
        }
    }
    cfg.tex.push(("m0".into(), 64, 32));
    cfg.tex.push(("m1".into(), 64, 32));
    let plain = make(true);
    let rt = run_map(x, &cfg, text(&plain).as_bytes()).tree()?;
    let mt = run_map(x, &cfg, text(&make(false)).as_bytes()).tree()?;
    // reference: the attributes of every face corner where nothing can be merged across faces
    let rv = visual(&rt, "func")?;
    let mut refs: Vec<(usize, usize, Vec<Attr>, usize)> = Vec::new();
    for (j, s) in v.iter().enumerate() {
        for i in 0..s.0.len() {
            let q = surf(rv, &format!("b{}f{}", j, i))?;
            triangles(&q.verts, &q.indices)?;
            let a = attrs(q)?;
            // colours are those of the face's line, known textures have coordinates
            let line = &plain.last().unwrap().brushes[j].faces[i];
            let colour: Option<[f32; 3]> = if line.extra.len() == 6 { Some([3, 4, 5].map(|k: usize| line.extra[k].parse().unwrap())) } else { None };
            if let Some(b) = a.iter().find(|b| b.color != colour || b.uv.is_none()) {
                return fail(format!("face {} of brush {} on its own has colour {:?} and coordinates {:?}, its line {}", i, j, b.color, b.uv, line.line()));
            }
            refs.push((j, i, a, q.indices.len() / 3));
        }
    }
    let mut used = vec![0usize; refs.len()];
    for s in visual(&mt, "func")? {
        let a = attrs(s)?;
        triangles(&s.verts, &s.indices)?;
        let mut coloured = true;
        let mut pairs: Vec<(usize, usize)> = Vec::new();
        for t in s.indices.chunks(3) {
            let p = [a[t[0]].pos, a[t[1]].pos, a[t[2]].pos];
            let q: Vec<[f64; 3]> = p.iter().map(|v| d3(*v)).collect();
            let n = fnorm(fcross(fsub(q[2], q[0]), fsub(q[1], q[0])));
            let r = match refs.iter().position(|r| {
                fdot(n, v[r.0].0[r.1].unit()) > 0.99 && p.iter().all(|v| r.2.iter().any(|b| b.pos == *v))
            }) {
                Some(r) => r,
                None => return fail(format!("triangle {:?} of surface {:?} belongs to no face", p, s.texture)),
            };
            used[r] += 1;
            for &k in t {
                let b = refs[r].2.iter().find(|b| b.pos == a[k].pos).unwrap();
                let uv_ok = if split == 2 { a[k].uv.is_none() } else { a[k].uv == b.uv };
                coloured &= b.color.is_some();
                pairs.push((k, r));
                if a[k].normal != b.normal || a[k].tangent != b.tangent || !uv_ok {
                    return fail(format!("a corner of face {} of brush {} has {:?} in surface {:?} but {:?} on its own", refs[r].1, refs[r].0, a[k], s.texture, b));
                }
            }
        }
        // a surface has colours when all of its faces have them
        let mut own_colour = vec![None; a.len()];
        for (k, r) in pairs {
            let b = refs[r].2.iter().find(|b| b.pos == a[k].pos).unwrap();
            own_colour[k] = b.color;
            if a[k].color != b.color.filter(|_| coloured) {
                return fail(format!("a corner of face {} of brush {} has colour {:?} in surface {:?} but {:?} on its own", refs[r].1, refs[r].0, a[k].color, s.texture, b.color));
            }
        }
        for i in 0..a.len() {
            for k in i + 1..a.len() {
                if a[i] == a[k] && own_colour[i] == own_colour[k] {
                    // brushes that touch may share corners; within one brush they must not
                    let owners = v.iter().filter(|b| b.1.verts.iter().any(|q| near3(a[i].pos, *q, 0.01))).count();
                    if owners == 1 {
                        return fail(format!("vertices {} and {} of surface {:?} are both {:?}", i, k, s.texture, a[i]));
                    }
                }
            }
        }
        // no vertex without a triangle
        if let Some(i) = (0..a.len()).find(|i| !s.indices.contains(i)) {
            return fail(format!("vertex {} of surface {:?} is in no triangle", i, s.texture));
        }
    }
    for (r, n) in refs.iter().zip(used) {
        if r.3 != n {
            return fail(format!("face {} of brush {} has {} triangles merged, {} alone", r.1, r.0, n, r.3));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15

/// the texture axis of a standard face: 0 x, 1 y, 2 z
pub fn base_axis(n: P3) -> usize {
    let a = [n[0].abs(), n[1].abs(), n[2].abs()];
    if a[2] >= a[0] && a[2] >= a[1] {
        2
    } else if a[0] >= a[1] {
        0
    } else {
        1
    }
}

pub fn uv_oracle(f: &Face, n: P3, p: [f64; 3], w: f64, h: f64) -> [f64; 2] {
    match &f.uv {
        Uv::Std { u, v } => {
            let (a, b) = match base_axis(n) {
                2 => (p[0], -p[1]),
                0 => (p[1], -p[2]),
                _ => (p[0], -p[2]),
            };
            let (s, k) = f.rot.to_radians().sin_cos();
            let (a, b) = (a * k - b * s, a * s + b * k);
            [a / w / f.scale[0] + u / w, b / h / f.scale[1] + v / h]
        }
        Uv::Valve { u, uo, v, vo } => [fdot(*u, p) / w / f.scale[0] + uo / w, fdot(*v, p) / h / f.scale[1] + vo / h],
    }
}

fn texturings(th: bool) -> (Vec<f64>, Vec<[f64; 2]>, Vec<[f64; 2]>, Vec<(u32, u32)>, Vec<Uv>) {
    let rots: &[f64] = if th { &[0.0, 30.0, -45.0, 90.0, -90.0, 180.0, 270.5, 123.25, -180.0, 270.0, -359.0, 360.0, -270.0, 450.0] } else { &[0.0, 30.0, -45.0, 90.0, 180.0, 270.5, -90.0, 450.0] };
    let scales: &[[f64; 2]] = if th {
        &[[1.0, 1.0], [0.5, 2.25], [-1.0, 1.0], [1.0, -0.25], [-2.0, -3.0], [0.125, 8.0], [100.0, -0.0625], [0.03125, -0.01], [4096.0, 0.001]]
    } else {
        &[[1.0, 1.0], [0.5, 2.25], [-1.0, 1.0], [1.0, -0.25], [-2.0, -3.0], [0.03125, 100.0], [-4096.0, 0.001]]
    };
    let offs: &[[f64; 2]] = &[[0.0, 0.0], [16.0, -7.5], [-300.25, 1000.0], [65536.5, -0.03125]];
    let sizes: &[(u32, u32)] = &[(64, 64), (16, 128), (1, 1), (300, 7), (1024, 4096), (65536, 2)];
    let axes = vec![
        Uv::Valve { u: [1.0, 0.0, 0.0], uo: 0.0, v: [0.0, -1.0, 0.0], vo: 0.0 },
        Uv::Valve { u: [0.0, 1.0, 0.0], uo: 0.0, v: [0.0, 0.0, -1.0], vo: 0.0 },
        Uv::Valve { u: [0.6, 0.8, 0.0], uo: 0.0, v: [0.0, 0.28, -0.96], vo: 0.0 },
        Uv::Valve { u: [-0.5, 0.25, 2.0], uo: 0.0, v: [3.0, -0.125, 0.75], vo: 0.0 },
    ];
    (rots.to_vec(), scales.to_vec(), offs.to_vec(), sizes.to_vec(), axes)
}

/// boxes cut by a plane whose normal nearly has two or three leading axes
fn near_ties() -> Vec<Vec<PlaneI>> {
    let mut v = Vec::new();
    for k in [20i64, 100, 500, 2000] {
        for q in [[[k + 1, 0, -k], [0, 64, 0]], [[k, 0, -k - 1], [0, 64, 0]], [[64, -64, 0], [k + 1, 0, -k]], [[64, -64, 0], [k, 0, -k - 1]]] {
            let o = [33, 31, 30];
            let a = PlaneI::through([o, [o[0] + q[0][0], o[1] + q[0][1], o[2] + q[0][2]], [o[0] + q[1][0], o[1] + q[1][1], o[2] + q[1][2]]]);
            let a = if a.n[2] > 0 { a } else { PlaneI::through([a.pts[0], a.pts[2], a.pts[1]]) };
            let mut b = boxb([0, 0, 0], [64, 64, 64]);
            b.push(a);
            v.push(b);
        }
    }
    v
}

pub fn c15(c: &mut Chooser, x: &mut Ctx) -> R {
    let mut g: Vec<Vec<PlaneI>> = gallery().into_iter().map(|g| g.1).collect();
    let (rots, scales, offs, sizes, axes) = texturings(x.thorough);
    let valve = c.pick(3); // standard, Valve, mixed
    if valve == 0 {
        g.extend(near_ties());
    }
    let gi = c.pick(g.len());
    let (r0, s0, o0, z0) = (c.pick(rots.len()), c.pick(scales.len()), c.pick(offs.len()), c.pick(sizes.len()));
    let ax = if valve > 0 { c.pick(axes.len()) } else { 0 };
    let m = if x.thorough || valve == 0 { c.pick(6) } else { 0 };
    let place = if x.thorough { c.pick(2) * 2 } else { 0 };
    let unknown = if ax == 0 && o0 == 0 && r0 < 2 { c.pick(3) } else { 0 };
    x.go(c)?;
    let s = moved(&turned(&g[gi], m), PLACES[place]);
    let (sh, _) = ready(&s)?;
    x.state(&(valve, gi, r0, s0, o0, z0, ax, m, place, unknown));
    let mut b = Brush::of(&s, ftex);
    let mut cfg = solid_cfg("func", 0, true, Coll::None);
    let mut size = Vec::new();
    // neighbouring faces get neighbouring parameters, so that a mix-up between faces shows
    for (i, f) in b.faces.iter_mut().enumerate() {
        f.rot = rots[(r0 + i) % rots.len()];
        f.scale = scales[(s0 + i) % scales.len()];
        let o = offs[(o0 + i) % offs.len()];
        f.uv = if valve == 1 || (valve == 2 && i % 2 == 0) {
            match axes[(ax + i) % axes.len()].clone() {
                Uv::Valve { u, v, .. } => Uv::Valve { u, uo: o[0], v, vo: o[1] },
                q => q,
            }
        } else {
            Uv::Std { u: o[0], v: o[1] }
        };
        let z = sizes[(z0 + i) % sizes.len()];
        size.push(z);
        if unknown == 0 || (i + unknown) % 3 != 0 {
            cfg.tex.push((ftex(i), z.0, z.1));
        }
    }
    let txt = text(&solid_map("func", vec![b.clone()]));
    let tree = run_map(x, &cfg, txt.as_bytes()).tree()?;
    let v = visual(&tree, "func")?;
    for q in v.iter().filter(|q| q.texture.is_none()) {
        if q.uvs.is_some() {
            return fail("faces whose texture is not known have texture coordinates".to_string());
        }
        if unknown == 0 {
            return fail("a surface without texture although all textures are known".to_string());
        }
    }
    for (i, f) in b.faces.iter().enumerate() {
        if !cfg.tex.iter().any(|t| t.0 == ftex(i)) {
            continue;
        }
        let q = surf(v, &ftex(i))?;
        let (w, h) = (size[i].0 as f64, size[i].1 as f64);
        let uvs = match &q.uvs {
            Some(u) if u.len() == q.verts.len() => u,
            u => return fail(format!("face {}: texture coordinates {:?} for {} vertices", i, u.as_ref().map(|u| u.len()), q.verts.len())),
        };
        for (p, uv) in q.verts.iter().zip(uvs) {
            // at the exact corner
            let want = uv_oracle(f, s[i].n, d3(*p), w, h);
            for k in 0..2 {
                let ext = sh.extent() * 4.0 / [w, h][k] / f.scale[k].abs();
                let tol = 1e-5 + 4e-6 * ext + 1e-5 * want[k].abs();
                if (uv[k] as f64 - want[k]).abs() > tol {
                    return fail(format!("face {} {} at {:?}: texture coordinate {:?}, formula gives {:?}", i, f.line(), p, uv, want));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16

pub fn c16(c: &mut Chooser, x: &mut Ctx) -> R {
    if c.flag() {
        c16_hosts(c, x)
    } else {
        c16_solids(c, x)
    }
}

/// several brushes, in entities, worldspawn and layers, beside entities with other phong settings
fn c16_hosts(c: &mut Chooser, x: &mut Ctx) -> R {
    const SETS: [(Option<&str>, Option<&str>); 8] =
        [(None, None), (Some("1"), None), (Some("1"), Some("50")), (Some("1"), Some("91")), (Some("1"), Some("130")), (Some("1"), Some("0")), (Some("0"), Some("91")), (Some("1"), Some("270"))];
    // the entity, worldspawn, a layer of worldspawn, the entity beside one of the same class
    let host = c.pick(4);
    let own = SETS[c.pick(8)];
    let other = SETS[c.pick(if x.thorough { 8 } else { 5 })];
    let first = c.flag();
    let (v, t) = several(c, x)?;
    let limit = own.1.and_then(|a| a.parse::<f64>().ok());
    if let (Some(a), Some("1")) = (limit, own.0) {
        for (s, _) in &v {
            for i in 0..s.len() {
                for k in 0..s.len() {
                    if i != k && (fdot(s[i].unit(), s[k].unit()).clamp(-1.0, 1.0).acos().to_degrees() - a).abs() < 0.05 {
                        return Err(Stop::Prune);
                    }
                }
            }
        }
    }
    x.state(&("hosts", host, own, other, first, key_of(&v)));
    let class = if host == 1 || host == 2 { "worldspawn" } else { "func" };
    let name = if host == 2 { "thelayer" } else { class };
    let mut cfg = Cfg::default().tex("f0", 64, 64).tex("lay", 32, 32);
    cfg.ents = vec![EntDef::solid("worldspawn", true, Coll::None), EntDef::solid("func", true, Coll::None)];
    cfg.layers.push(LayerDef { name: "thelayer".into(), texture: "lay".into(), etype: EType::Placeholder, script: None, visual: true, coll: Coll::None });
    let brushes: Vec<Brush> = v.iter().map(|s| Brush::of(&s.0, |_| if host == 2 { "lay".into() } else { "f0".into() })).collect();
    let dress = |mut e: Ent, p: (Option<&str>, Option<&str>)| {
        e.kvs.extend(p.0.map(|p| ("_phong".to_string(), p.to_string())));
        e.kvs.extend(p.1.map(|p| ("_phong_angle".to_string(), p.to_string())));
        e
    };
    let far = || Brush::of(&boxb([9000, 9000, 9000], [9064, 9064, 9064]), |_| "f0".into());
    let mut me = dress(Ent::new(class).kv("targetname", "me"), own);
    me.brushes = brushes;
    let mut ents = if class == "worldspawn" { vec![me] } else { vec![dress(Ent::new("worldspawn"), other), me] };
    let neighbour = dress(Ent::new("func"), other).brush(far());
    if class == "worldspawn" || !first {
        ents.push(neighbour);
    } else {
        ents.insert(1, neighbour);
    }
    if host == 3 {
        ents.push(dress(Ent::new("func"), other).brush(far()));
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    let all = all_actors(&tree);
    let mut tris = Vec::new();
    let mut count = 0;
    for (_, a, ch, _) in all {
        if a.name != name {
            continue;
        }
        for s in ch.iter().filter_map(|n| if let Kind::Visual(v) = &n.kind { Some(v) } else { None }).flatten() {
            if s.verts.iter().all(|p| p.iter().all(|q| *q > 8000.0)) {
                continue;
            }
            count += 1;
            if s.normals.len() != s.verts.len() {
                return fail(format!("{} normals for {} vertices", s.normals.len(), s.verts.len()));
            }
            for (k, tr) in triangles(&s.verts, &s.indices)?.into_iter().enumerate() {
                let i = &s.indices[3 * k..3 * k + 3];
                tris.push((tr, [s.normals[i[0]], s.normals[i[1]], s.normals[i[2]]]));
            }
        }
    }
    let soup: Vec<[V3; 3]> = tris.iter().map(|t| t.0).collect();
    if count == 0 {
        return fail("no mesh");
    }
    check_mesh(&v, &soup, t)?;
    for (tr, ns) in &tris {
        let q: Vec<[f64; 3]> = tr.iter().map(|v| d3(*v)).collect();
        let n = fnorm(fcross(fsub(q[2], q[0]), fsub(q[1], q[0])));
        // faces of overlapping brushes: one of them has to explain the normals
        let mut why = None;
        let mut explained = false;
        for (s, sh) in &v {
            for (f, poly) in sh.faces.iter().enumerate() {
                if fdot(n, s[f].unit()) < 0.99 || !tr.iter().all(|p| corner(sh, poly, *p, t).is_some()) {
                    continue;
                }
                let bad = tr.iter().zip(ns).find_map(|(p, have)| {
                    let mut want = s[f].unit();
                    if own.0 == Some("1") {
                        let k = corner(sh, poly, *p, t).unwrap();
                        if sh.tight[k].len() != 3 {
                            return None;
                        }
                        for &o in sh.tight[k].iter().filter(|o| **o != f) {
                            let d = fdot(s[f].unit(), s[o].unit()).clamp(-1.0, 1.0).acos().to_degrees();
                            if limit.map(|a| d <= a + 0.005).unwrap_or(true) {
                                want = fadd(want, s[o].unit());
                            }
                        }
                        want = fnorm(want);
                    }
                    if near3(*have, want, 2e-4) { None } else { Some(format!("face {} at {:?}: normal {:?} instead of {:?} (phong {:?}, host {})", f, p, have, want, own, host)) }
                });
                match bad {
                    None => explained = true,
                    Some(m) => why = Some(m),
                }
            }
        }
        if !explained {
            return fail(why.unwrap_or_else(|| format!("triangle {:?} is on no face", tr)));
        }
    }
    Ok(())
}

fn c16_solids(c: &mut Chooser, x: &mut Ctx) -> R {
    let phong = *c.of(&[None, Some("1"), Some("0"), Some("2"), Some(""), Some("true")]);
    let angle = if phong == Some("1") {
        *c.of(&[None, Some("0"), Some("1"), Some("30"), Some("44"), Some("45"), Some("46"), Some("54"), Some("55.5"), Some("89"), Some("90"), Some("91"), Some("120"), Some("180"), Some("abc"), Some(""), Some("-1"), Some("45.0"), Some("1e2"), Some("-45"), Some("200"), Some("360"), Some("720"), Some("inf")])
    } else {
        *c.of(&[None, Some("91")])
    };
    let class = *c.of(&["func", "worldspawn"]);
    let s = if c.flag() {
        let g = gallery();
        let gi = c.pick(g.len());
        let m = c.pick(6);
        let t = *c.of(&PLACES);
        x.go(c)?;
        moved(&turned(&g[gi].1, m), t)
    } else if x.thorough {
        family(c, x)?
    } else {
        match c.pick(2) {
            0 => {
                let s = cut_box(c, 1, &[4, 12]);
                x.go(c)?;
                s
            }
            _ => {
                let p = lattice_points(c, 2, 5);
                x.go(c)?;
                hull_planes(&p, 24).ok_or(Stop::Prune)?
            }
        }
    };
    let (sh, t) = ready(&s)?;
    // no neighbour angle so close to the phong angle that rounding would decide
    let limit = angle.and_then(|a| a.trim().parse::<f64>().ok());
    if let (Some(a), Some("1")) = (limit, phong) {
        for i in 0..s.len() {
            for k in 0..s.len() {
                let d = fdot(s[i].unit(), s[k].unit()).clamp(-1.0, 1.0).acos().to_degrees();
                let exact = (d - a).abs() < 1e-9;
                if i != k && !exact && (d - a).abs() < 0.05 {
                    return Err(Stop::Prune);
                }
            }
        }
    }
    x.state(&(phong, angle, class, s.iter().map(|p| (p.n, p.d, p.div)).collect::<Vec<_>>()));
    let cfg = solid_cfg(class, s.len(), true, Coll::None);
    let mut ents = solid_map(class, vec![Brush::of(&s, ftex)]);
    if let Some(p) = phong {
        ents.last_mut().unwrap().kvs.push(("_phong".into(), p.into()));
    }
    if let Some(a) = angle {
        ents.last_mut().unwrap().kvs.push(("_phong_angle".into(), a.into()));
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    let v = visual(&tree, class)?;
    for i in 0..s.len() {
        let q = surf(v, &ftex(i))?;
        if q.normals.len() != q.verts.len() {
            return fail(format!("face {}: {} normals for {} vertices", i, q.normals.len(), q.verts.len()));
        }
        for (p, n) in q.verts.iter().zip(&q.normals) {
            let want = if phong != Some("1") {
                s[i].unit()
            } else {
                let k = match corner(&sh, &sh.faces[i], *p, t) {
                    Some(k) => k,
                    None => return fail(format!("face {}: stray vertex {:?}", i, p)),
                };
                if sh.tight[k].len() != 3 {
                    continue; // the statement speaks of corners of three faces
                }
                let mut sum = s[i].unit();
                for &o in &sh.tight[k] {
                    if o == i {
                        continue;
                    }
                    let d = fdot(s[i].unit(), s[o].unit()).clamp(-1.0, 1.0).acos().to_degrees();
                    if limit.map(|a| d <= a + 0.005).unwrap_or(true) {
                        sum = fadd(sum, s[o].unit());
                    }
                }
                fnorm(sum)
            };
            if !near3(*n, want, 2e-4) {
                return fail(format!("face {} at {:?}: normal {:?} instead of {:?} (phong {:?} angle {:?})", i, p, n, want, phong, angle));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C17

/// Valve axes: lengths of U and V and the angle between them
const SKEWS: [(f64, f64, f64); 12] = [
    (1.0, 1.0, -90.0),
    (1.0, 1.0, 90.0),
    (1.0, 2.5, 60.0),
    (0.25, 1.0, -130.0),
    (0.1, 0.1, 90.0),
    (0.1, 0.1, -90.0),
    (1.0, 1.0, 10.0),
    (1.0, 1.0, -10.0),
    (1.0, 1.0, 170.0),
    (40.0, 0.05, -172.0),
    (0.05, 40.0, 5.0),
    (300.0, 200.0, -45.0),
];

pub fn c17(c: &mut Chooser, x: &mut Ctx) -> R {
    let g = gallery();
    let (rots, scales, _, _, _) = texturings(true);
    let valve = c.flag();
    let gi = if valve { c.pick(g.len()) } else { *c.of(&[0usize, 5, 7, 8]) };
    let m = c.pick(6);
    let r0 = c.pick(rots.len());
    let s0 = c.pick(scales.len());
    let skew = if valve { c.pick(SKEWS.len()) } else { 0 };
    let known = c.pick(3);
    let place = if x.thorough { c.pick(PLACES.len()) } else { 0 };
    x.go(c)?;
    let s = moved(&turned(&g[gi].1, m), PLACES[place]);
    ready(&s)?;
    x.state(&(valve, gi, m, r0, s0, skew, known, place));
    let mut b = Brush::of(&s, ftex);
    let mut cfg = solid_cfg("func", 0, true, Coll::None);
    for (i, f) in b.faces.iter_mut().enumerate() {
        f.scale = scales[(s0 + i) % scales.len()];
        if valve {
            let n = s[i].unit();
            let a = fnorm(fsub(f3(s[i].pts[1]), f3(s[i].pts[0])));
            let w = fcross(n, a);
            let turn = |deg: f64| {
                let (q, k) = (deg as f64).to_radians().sin_cos();
                fadd(fmul(a, k), fmul(w, q))
            };
            let base = rots[(r0 + i) % rots.len()];
            let (ul, vl, between) = SKEWS[skew];
            let (u, v) = (fmul(turn(base), ul), fmul(turn(base + between), vl));
            let rd = |v: [f64; 3]| [(v[0] * 1e6).round() / 1e6, (v[1] * 1e6).round() / 1e6, (v[2] * 1e6).round() / 1e6];
            f.uv = Uv::Valve { u: rd(u), uo: 5.0 * i as f64, v: rd(v), vo: -3.0 };
            // editors repeat the angle here; Valve axes already include it
            f.rot = base;
        } else {
            f.rot = rots[(r0 + i) % rots.len()];
        }
        if known != 1 {
            cfg.tex.push((ftex(i), 64, if known == 2 { 16 } else { 64 }));
        }
    }
    let tree = run_map(x, &cfg, text(&solid_map("func", vec![b.clone()])).as_bytes()).tree()?;
    let v = visual(&tree, "func")?;
    let (sh, t) = ready(&s)?;
    for (i, f) in b.faces.iter().enumerate() {
        let n = s[i].unit();
        let axial = s[i].n.iter().filter(|k| **k != 0).count() == 1;
        if !valve && !axial {
            continue;
        }
        // gradients of the texture coordinates over the plane, from the formula itself
        let p = f3(s[i].pts[0]);
        let a = fnorm(fsub(f3(s[i].pts[1]), f3(s[i].pts[0])));
        let w = fcross(n, a);
        let at = |q: [f64; 3]| uv_oracle(f, s[i].n, q, 64.0, 64.0);
        let (o, ua, uw) = (at(p), at(fadd(p, a)), at(fadd(p, w)));
        let gu = fnorm(fadd(fmul(a, ua[0] - o[0]), fmul(w, uw[0] - o[0])));
        let gv = fnorm(fadd(fmul(a, ua[1] - o[1]), fmul(w, uw[1] - o[1])));
        let sign = if fdot(fcross(n, gu), gv) > 0.0 { -1.0 } else { 1.0 };
        let check = |tg: &(V3, f32), p: &V3| -> R {
            let d = d3(tg.0);
            if !(flen(d) > 1e-6) || fdot(fnorm(d), gu) < 1.0 - 1e-4 {
                return fail(format!("face {} {} at {:?}: tangent {:?}, U grows along {:?}", i, f.line(), p, tg.0, gu));
            }
            if (tg.1 as f64 - sign).abs() > 1e-6 {
                return fail(format!("face {} {} at {:?}: tangent sign {} instead of {}", i, f.line(), p, tg.1, sign));
            }
            Ok(())
        };
        if known != 1 {
            let q = surf(v, &ftex(i))?;
            if q.tangents.len() != q.verts.len() {
                return fail(format!("face {}: {} tangents for {} vertices", i, q.tangents.len(), q.verts.len()));
            }
            for (p, tg) in q.verts.iter().zip(&q.tangents) {
                check(tg, p)?;
            }
        } else {
            // all faces are in the surface without texture: judge the triangles of this face
            for q in v {
                for tr in q.indices.chunks(3) {
                    let pts: Vec<V3> = tr.iter().filter_map(|k| q.verts.get(*k).copied()).collect();
                    if pts.len() < 3 || q.tangents.len() != q.verts.len() {
                        return fail("surface without texture is badly indexed".to_string());
                    }
                    let e: Vec<[f64; 3]> = pts.iter().map(|v| d3(*v)).collect();
                    let nn = fnorm(fcross(fsub(e[2], e[0]), fsub(e[1], e[0])));
                    if fdot(nn, n) > 0.99 && pts.iter().all(|p| corner(&sh, &sh.faces[i], *p, t).is_some()) {
                        for k in tr {
                            check(&q.tangents[*k], &q.verts[*k])?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18

pub fn check_points(sh: &Shape, pts: &[V3], t: f64, what: &str) -> R {
    let mut n = vec![0; sh.verts.len()];
    for p in pts {
        match (0..n.len()).find(|&k| near3(*p, sh.verts[k], t)) {
            None => return fail(format!("{}: {:?} is not a corner of the brush", what, p)),
            Some(k) => n[k] += 1,
        }
    }
    for (k, n) in n.iter().enumerate() {
        if *n != 1 {
            return fail(format!("{}: corner {:?} occurs {} times", what, sh.verts[k], n));
        }
    }
    Ok(())
}

pub fn c18(c: &mut Chooser, x: &mut Ctx) -> R {
    if c.flag() {
        return mass(c, x, &[2]);
    }
    let coll = *c.of(&[Coll::Convex, Coll::Concave]);
    let host = c.pick(3); // solid entity, worldspawn, worldspawn layer
    let look = c.pick(4); // textures: one, several, unknown, blacklisted
    let extra = c.pick(3); // plain, phong, visual mesh as well
    let (v, t) = if look < 2 && extra == 0 && host == 0 && c.flag() {
        let s = family(c, x)?;
        let (sh, t) = ready(&s)?;
        (vec![(s, sh)], t)
    } else {
        several(c, x)?
    };
    x.state(&(coll as u8, host, look, extra, key_of(&v)));
    let class = if host == 0 { "func" } else { "worldspawn" };
    let mut cfg = solid_cfg(class, 4, extra == 2, coll);
    let name = if host == 2 { "thelayer" } else { class };
    if host == 2 {
        cfg.ents = vec![EntDef::point("worldspawn")];
        cfg.tex.push(("lay".into(), 32, 32));
        cfg.layers.push(LayerDef { name: name.into(), texture: "lay".into(), etype: EType::Placeholder, script: None, visual: extra == 2, coll });
    }
    if look == 3 {
        cfg.bl_brush = vec!["f0".into(), "lay".into()];
        cfg.bl_face = vec!["f0".into(), "f1".into(), "lay".into()];
    }
    let brushes = v
        .iter()
        .enumerate()
        .map(|(j, s)| {
            Brush::of(&s.0, |i| match (host, look) {
                (2, _) => "lay".into(),
                (_, 0) => "f0".into(),
                (_, 1) => ftex((i + j) % 4),
                (_, 2) => if i % 2 == 0 { "nosuch".into() } else { "f1".into() },
                _ => if j % 2 == 0 { "f0".into() } else { ftex(i % 3) },
            })
        })
        .collect();
    let mut ents = solid_map(class, brushes);
    if extra == 1 {
        ents.last_mut().unwrap().kvs.push(("_phong".into(), "1".into()));
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    if coll == Coll::Convex {
        let m = convex(&tree, name)?;
        if m.len() != v.len() {
            return fail(format!("{} convex shapes for {} brushes", m.len(), v.len()));
        }
        for (j, (s, (ctr, pts))) in v.iter().zip(m).enumerate() {
            check_points(&s.1, pts, t, &format!("convex shape {}", j))?;
            if !near3(*ctr, s.1.center(), t) {
                return fail(format!("convex shape {}: centre {:?}, the brush's is {:?}", j, ctr, s.1.center()));
            }
        }
    } else {
        let m = concave(&tree, name)?;
        if m.len() != 1 {
            return fail(format!("{} concave meshes", m.len()));
        }
        let (_, verts, idx) = &m[0];
        // vertices are in brush order, or at least each brush's corners are there once
        let total: usize = v.iter().map(|s| s.1.verts.len()).sum();
        if verts.len() != total {
            return fail(format!("{} vertices for {} corners of {} brushes", verts.len(), total, v.len()));
        }
        for (j, s) in v.iter().enumerate() {
            for q in &s.1.verts {
                let have = verts.iter().filter(|p| near3(**p, *q, t)).count();
                let want = v.iter().filter(|o| o.1.verts.iter().any(|z| flen(fsub(*z, *q)) < t)).count();
                if have != want {
                    return fail(format!("corner {:?} of brush {} occurs {} times, {} brushes have it", q, j, have, want));
                }
            }
        }
        check_mesh(&v, &triangles(verts, idx)?, t)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C11

pub fn c11(c: &mut Chooser, x: &mut Ctx) -> R {
    const NAMES: [&str; 5] = ["a", "b", "u1", "u2", "A"];
    let kind = c.pick(7);
    let mut solids: Vec<Vec<PlaneI>> = Vec::new();
    let mut tex: Vec<Vec<String>> = Vec::new();
    let mut bb = 0;
    let mut bf = 0;
    let mut known = vec!["a".to_string(), "b".to_string()];
    let mut bl_all: Vec<String> = vec!["a".into(), "b".into()];
    let g = gallery();
    match kind {
        0 => {
            // one box, every texture assignment
            solids.push(g[0].1.clone());
            tex.push((0..6).map(|_| NAMES[c.pick(if x.thorough { 5 } else { 4 })].to_string()).collect());
            bb = c.pick(4);
            bf = c.pick(4);
        }
        1 => {
            // several tetrahedra
            let n = 2 + if x.thorough { c.pick(2) } else { 0 };
            for j in 0..n {
                solids.push(moved(&g[1].1, apart(j)));
                tex.push((0..4).map(|i| if n == 3 && i == 3 { "b".into() } else { NAMES[c.pick(3)].to_string() }).collect());
            }
            bb = c.pick(4);
            bf = c.pick(4);
        }
        2 => {
            // names that resemble each other: which are known, which are blacklisted
            let set = LNAMES[c.pick(LNAMES.len())];
            let two = c.flag();
            // 0: unknown, 1: known, 2: known and blacklisted
            let st: Vec<usize> = (0..5).map(|_| c.pick(3)).collect();
            known = (0..5).filter(|i| st[*i] > 0).map(|i| set[i].to_string()).collect();
            let bl: Vec<String> = (0..5).filter(|i| st[*i] == 2).map(|i| set[i].to_string()).collect();
            bl_all = bl.into_iter().rev().collect();
            if c.flag() {
                bb = usize::MAX;
            } else {
                bf = usize::MAX;
            }
            for j in 0..1 + two as usize {
                solids.push(moved(&g[0].1, apart(j)));
                tex.push((0..6).map(|i| set[if j == 1 { 0 } else { i % 5 }].to_string()).collect());
            }
        }
        6 => {
            // names that mean something elsewhere beside their relatives
            let mut all = crate::names::odd();
            all.extend(["mill/water1", "+0fan_2", "*lava", "{fence.a"].map(String::from));
            let s = c.of(&all).clone();
            let r: Vec<String> = crate::names::relatives(&s).into_iter().filter(|r| !r.is_empty() && !r.contains(char::is_whitespace) && *r == r.to_lowercase()).collect();
            let some = if s.len() > 2000 { 1 } else if x.thorough { 400 } else { 12 };
            let r: Vec<String> = r.iter().step_by(r.len() / some + 1).cloned().collect();
            if r.is_empty() {
                return Err(Stop::Prune);
            }
            let r = c.of(&r).clone();
            // 0: unknown, 1: known, 2: known and blacklisted
            let st = [c.pick(3), c.pick(3)];
            let set = [s, r];
            known = (0..2).filter(|i| st[*i] > 0).map(|i| set[i].clone()).collect();
            bl_all = (0..2).filter(|i| st[*i] == 2).map(|i| set[i].clone()).collect();
            if c.flag() {
                bb = usize::MAX;
            } else {
                bf = usize::MAX;
            }
            for j in 0..2 {
                solids.push(moved(&g[0].1, apart(j)));
                tex.push((0..6).map(|i| set[if j == 1 { 0 } else { i % 2 }].clone()).collect());
            }
        }
        5 => {
            // solids of every number of faces: one or two faces (or all but those) have another texture
            let s = match c.pick(g.len() + 4) {
                k if k < g.len() => g[k].1.clone(),
                k => prism(&ngon([12, 20, 33, 64][k - g.len()], 640), -16, 16),
            };
            let n = s.len();
            let i = if n <= 22 { c.pick(n) } else { [0, 8, 15, 16, 17, 31, 32, 33, n - 3, n - 1][c.pick(10)] };
            let j = if n <= 9 { c.pick(n) } else { i };
            let inverse = c.flag();
            let (p, q) = *c.of(&[("a", "b"), ("b", "a"), ("u1", "a"), ("a", "u1")]);
            tex.push((0..n).map(|k| if (k == i || k == j) != inverse { p } else { q }.to_string()).collect());
            solids.push(s);
            bb = 1 + c.pick(3);
            bf = c.pick(2) * bb;
        }
        _ => {
            // many textures and many brushes; some of them blacklisted
            let (nt, nb) = if kind == 3 {
                (1 + c.pick(if x.thorough { 40 } else { 24 }), 1 + c.pick(if x.thorough { 16 } else { 8 }))
            } else {
                // more than fit a mask or a byte
                let nt = *c.of(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
                (nt, (nt + 5) / 6 + c.pick(3))
            };
            let step = 1 + c.pick(3);
            let bl = c.pick(4);
            known = (0..nt).map(|i| format!("t{}", i)).collect();
            bl_all = known.iter().enumerate().filter(|(i, _)| bl > 0 && i % (bl + 1) == 0).map(|q| q.1.clone()).collect();
            if bl == 2 {
                bf = usize::MAX;
            } else if bl > 0 {
                bb = usize::MAX;
            }
            for j in 0..nb {
                solids.push(moved(&g[0].1, apart(j)));
                // every third brush has one texture all over
                tex.push((0..6).map(|i| format!("t{}", (if j % 3 == 2 { j } else { i + j * step }) % nt)).collect());
            }
        }
    }
    let class = *c.of(&["func", "worldspawn"]);
    let coll = *c.of(&[Coll::None, Coll::Concave]);
    x.go(c)?;
    let pickset = |m: usize| -> Vec<String> { bl_all.iter().enumerate().filter(|(i, _)| m == usize::MAX || m.checked_shr(*i as u32).unwrap_or(0) & 1 == 1).map(|q| q.1.clone()).collect() };
    let (bb, bf) = (pickset(bb), pickset(bf));
    x.state(&(&tex, &bb, &bf, class, coll as u8));
    let mut cfg = solid_cfg(class, 0, true, coll);
    cfg.tex = known.iter().map(|n| (n.clone(), 64, 64)).collect();
    cfg.bl_brush = bb.clone();
    cfg.bl_face = bf.clone();
    let brushes: Vec<Brush> = solids.iter().zip(&tex).map(|(s, t)| Brush::of(s, |i| t[i].clone())).collect();
    let tree = run_map(x, &cfg, text(&solid_map(class, brushes)).as_bytes()).tree()?;
    // expected visible faces
    let mut want: Vec<(usize, usize, Option<String>)> = Vec::new();
    let mut shapes = Vec::new();
    for (j, s) in solids.iter().enumerate() {
        let low: Vec<String> = tex[j].iter().map(|t| t.to_lowercase()).collect();
        let hidden = low.iter().all(|t| known.contains(t) && bb.contains(t));
        for (i, t) in low.iter().enumerate() {
            if !hidden && !(known.contains(t) && bf.contains(t)) {
                want.push((j, i, if known.contains(t) { Some(t.clone()) } else { None }));
            }
        }
        shapes.push((s.clone(), shape(s).unwrap()));
    }
    let empty: Vec<Surf> = Vec::new();
    let v = match visual(&tree, class) {
        Ok(v) => v,
        Err(e) => {
            if want.is_empty() {
                &empty[..]
            } else {
                return Err(e);
            }
        }
    };
    let mut names: Vec<Option<String>> = v.iter().map(|s| s.texture.clone()).collect();
    names.sort();
    let mut wn: Vec<Option<String>> = want.iter().map(|w| w.2.clone()).collect();
    wn.sort();
    wn.dedup();
    if names != wn {
        return fail(format!("surfaces for {:?}, visible faces carry {:?}", names, wn));
    }
    let mut seen = vec![0usize; want.len()];
    let t = tol(4000.0);
    for s in v {
        for tr in triangles(&s.verts, &s.indices)? {
            let e: Vec<[f64; 3]> = tr.iter().map(|v| d3(*v)).collect();
            let n = fnorm(fcross(fsub(e[2], e[0]), fsub(e[1], e[0])));
            match want.iter().position(|w| {
                w.2 == s.texture && fdot(n, shapes[w.0].0[w.1].unit()) > 0.99 && tr.iter().all(|p| corner(&shapes[w.0].1, &shapes[w.0].1.faces[w.1], *p, t).is_some())
            }) {
                Some(k) => seen[k] += 1,
                None => return fail(format!("surface {:?} shows a triangle {:?} of no visible face of that texture", s.texture, tr)),
            }
        }
    }
    for (w, n) in want.iter().zip(seen) {
        if n != shapes[w.0].1.faces[w.1].len() - 2 {
            return fail(format!("face {} of brush {} (texture {:?}) is shown with {} triangles", w.1, w.0, w.2, n));
        }
    }
    if coll == Coll::Concave {
        let m = concave(&tree, class)?;
        let mut tris = Vec::new();
        for s in m {
            tris.extend(triangles(&s.1, &s.2)?);
        }
        check_mesh(&shapes, &tris, t)?;
    }
    Ok(())
}
