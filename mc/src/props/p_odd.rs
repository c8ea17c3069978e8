//! C31, C32: brushes that are not what an editor would write.
use super::corpus::*;
use super::p_geo::*;
use crate::explore::*;
use crate::lib_run::*;
use crate::map::*;
use crate::poly::*;

// ------------------------------------------------------------------------------------------ C31

/// planes that leave the solid as it is: through its edges and corners, and outside
fn idle(s: &[PlaneI], sh: &Shape) -> Vec<PlaneI> {
    let mut v: Vec<PlaneI> = Vec::new();
    let mut add = |n: P3, d: i64| {
        let g = gcd3(n);
        if g > 0 && d % g == 0 && n.iter().any(|k| (1..40).contains(&(k / g).abs())) {
            let p = PlaneI::new([n[0] / g, n[1] / g, n[2] / g], d / g);
            if !v.iter().any(|q| q.n == p.n && q.d == p.d) {
                v.push(p);
            }
        }
    };
    for a in 0..s.len() {
        for b in a + 1..s.len() {
            let shared = sh.faces[a].iter().filter(|k| sh.faces[b].contains(k)).count();
            if shared == 2 {
                for (k, l) in [(1, 1), (1, 3), (2, 1)] {
                    add([0, 1, 2].map(|i| k * s[a].n[i] + l * s[b].n[i]), k * s[a].d + l * s[b].d);
                }
            }
        }
    }
    for t in &sh.tight {
        let n = t.iter().fold([0; 3], |n, i| [0, 1, 2].map(|k| n[k] + s[*i].n[k]));
        add(n, t.iter().map(|i| s[*i].d).sum());
    }
    for (k, p) in s.iter().enumerate() {
        let m = dot(p.n, p.n);
        add(p.n, p.d + m * [1, 16, 1000][k % 3]);
    }
    if let [a, b, ..] = s {
        let n = [0, 1, 2].map(|i| a.n[i] + 2 * b.n[i]);
        add(n, a.d + 2 * b.d + dot(n, n) * 8);
    }
    v
}
fn gcd3(n: P3) -> i64 {
    let g = |mut a: i64, mut b: i64| {
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a.abs()
    };
    g(g(n[0], n[1]), n[2])
}

pub fn c31(c: &mut Chooser, x: &mut Ctx) -> R {
    let g = gallery();
    let (_, base) = c.of(&g).clone();
    let base_shape = shape(&base).unwrap();
    if base.iter().any(|p| gcd3(p.n) == 0) {
        return Err(Stop::Prune);
    }
    let pool = idle(&base, &base_shape);
    // one, two or all of them, at every place among the faces
    let mut planes: Vec<(bool, PlaneI)> = base.iter().map(|p| (true, p.clone())).collect();
    let how = c.pick(4);
    let mut pair = 0;
    match how {
        0 => {
            let k = c.pick(pool.len());
            let at = if x.thorough { c.pick(planes.len() + 1) } else { *c.of(&[0, 1 + k % planes.len(), planes.len()]) };
            planes.insert(at, (false, pool[k].clone()));
        }
        1 => {
            let a = c.pick(pool.len());
            let b = c.pick(pool.len() - 1);
            let b = if b >= a { b + 1 } else { b };
            pair = a + b;
            let at = if x.thorough { *c.of(&[0, 3, planes.len()]) } else { (a * 3 + b) % (planes.len() + 1) };
            planes.insert(at, (false, pool[a].clone()));
            planes.insert((a + b) % (planes.len() + 1), (false, pool[b].clone()));
        }
        2 => {
            let from = c.pick(3);
            for (i, p) in pool.iter().enumerate().filter(|(i, _)| from == 0 || i % 3 == from) {
                planes.insert(i * 7 % (planes.len() + 1), (false, p.clone()));
            }
        }
        _ => {
            // the same idle plane several times
            let k = c.pick(pool.len());
            let n = 2 + c.pick(3);
            for i in 0..n {
                planes.insert(i * 2 % (planes.len() + 1), (false, pool[k].clone()));
            }
        }
    }
    let host = if how == 1 && !x.thorough { pair % 3 } else { c.pick(3) }; // own textures and convex; one texture and concave; a layer
    let second = if how == 1 && !x.thorough { false } else { c.flag() };
    // a brush that encloses nothing beside it
    let hollow = if how == 1 { 0 } else { c.pick(if how == 0 && !x.thorough { 2 } else { 8 }) };
    let place = *c.of(if how == 1 && !x.thorough { &[[0, 0, 0]][..] } else { &[[0, 0, 0], [104, -200, 304], [-3000, 16, 512]][..] });
    x.go(c)?;
    let planes: Vec<(bool, PlaneI)> = planes.into_iter().map(|(r, p)| (r, p.moved(place))).collect();
    let real: Vec<PlaneI> = planes.iter().filter(|p| p.0).map(|p| p.1.clone()).collect();
    let sh = shape(&real).unwrap();
    let t = tol(sh.extent() + 400.0);
    x.state(&(host, second, hollow, planes.iter().map(|p| (p.0, p.1.n, p.1.d, p.1.pts)).collect::<Vec<_>>()));
    let class = if host == 2 { "worldspawn" } else { "func" };
    let name = if host == 2 { "thelayer" } else { class };
    let mut cfg = solid_cfg(class, 0, true, [Coll::Convex, Coll::Concave, Coll::None][host]);
    cfg.tex = (0..planes.len()).map(|i| (ftex(i), 64, 64)).collect();
    cfg.tex.push(("lay".into(), 64, 64));
    cfg.layers.push(LayerDef { name: "thelayer".into(), texture: "lay".into(), etype: EType::Placeholder, script: None, visual: true, coll: Coll::Convex });
    let all: Vec<PlaneI> = planes.iter().map(|p| p.1.clone()).collect();
    let mut brushes = vec![Brush::of(&all, |i| match host {
        0 => ftex(i),
        1 => "f0".into(),
        _ => "lay".into(),
    })];
    let far: Vec<PlaneI> = moved(&g[0].1, [place[0] + 400, place[1], place[2]]);
    let mut set = vec![(real.clone(), sh.clone())];
    if second {
        brushes.push(Brush::of(&far, |_| if host == 2 { "lay".into() } else { "nosuch".into() }));
        set.push((far.clone(), shape(&far).unwrap()));
    }
    if hollow > 0 {
        let b = &g[0].1;
        let some: Vec<PlaneI> = match hollow {
            1 => vec![b[0].clone(), b[1].clone()], // two planes
            2 => vec![],
            3 => vec![b[2].clone()],
            4 => b.iter().chain(b).cloned().filter(|p| p.n[2] == 0).collect(), // an open tube
            5 => vec![PlaneI::new([1, 0, 0], -64), PlaneI::new([-1, 0, 0], 0), b[2].clone(), b[3].clone(), b[4].clone(), b[5].clone()], // contradictory
            6 => b.iter().map(|p| PlaneI::through([p.pts[0], p.pts[2], p.pts[1]])).collect(), // inside out
            _ => vec![b[0].clone(), b[2].clone(), PlaneI::new([1, 1, 0], -100)], // a single corner or none
        };
        let some: Vec<PlaneI> = some.into_iter().map(|p| p.moved(place)).collect();
        let at = if hollow % 2 == 0 { 0 } else { brushes.len() };
        brushes.insert(at, Brush::of(&some, |i| match host {
            0 => ftex(i),
            1 => "f0".into(),
            _ => "lay".into(),
        }));
    }
    let tree = run_map(x, &cfg, text(&solid_map(class, brushes)).as_bytes()).tree()?;
    let v = visual(&tree, name)?;
    if host == 0 {
        let mut k = 0;
        for (i, (is_face, _)) in planes.iter().enumerate() {
            let own = v.iter().filter(|s| s.texture == Some(ftex(i))).count();
            if *is_face {
                check_face(&sh, k, surf(v, &ftex(i))?, t)?;
                for n in &surf(v, &ftex(i))?.normals {
                    if !near3(*n, real[k].unit(), 1e-4) {
                        return fail(format!("face {}: normal {:?} instead of {:?}", i, n, real[k].unit()));
                    }
                }
                k += 1;
            } else if own > 0 {
                return fail(format!("plane {} touches the brush in less than a face, but has a surface {:?}", i, surf(v, &ftex(i))?));
            }
        }
        if v.len() != k + second as usize {
            return fail(format!("{} surfaces", v.len()));
        }
    } else {
        let mut tris = Vec::new();
        for s in v {
            tris.extend(triangles(&s.verts, &s.indices)?);
            if let Some(i) = (0..s.verts.len()).find(|i| !s.indices.contains(i)) {
                return fail(format!("vertex {} of a surface is in no triangle", i));
            }
        }
        check_mesh(&set, &tris, t)?;
    }
    if host == 1 {
        let mut tris = Vec::new();
        for m in concave(&tree, name)? {
            tris.extend(triangles(&m.1, &m.2)?);
            let want: usize = set.iter().map(|s| s.1.verts.len()).sum();
            if m.1.len() != want {
                return fail(format!("{} vertices for {} corners", m.1.len(), want));
            }
        }
        check_mesh(&set, &tris, t)?;
    } else {
        let m: Vec<_> = convex(&tree, name)?.iter().filter(|s| hollow == 0 || !s.1.is_empty()).collect();
        if m.len() != set.len() {
            return fail(format!("{} convex shapes for {} brushes", m.len(), set.len()));
        }
        for (j, (s, (ctr, pts))) in set.iter().zip(m).enumerate() {
            check_points(&s.1, pts, t, &format!("convex shape {}", j))?;
            if !near3(*ctr, s.1.center(), t) {
                return fail(format!("convex shape {}: centre {:?}, the brush's is {:?}", j, ctr, s.1.center()));
            }
        }
    }
    if host < 2 {
        let mut want = [0.0; 3];
        for s in &set {
            want = fadd(want, fmul(s.1.center(), 1.0 / set.len() as f64));
        }
        let (_, _, _, at) = all_actors(&tree).into_iter().find(|a| a.1.name == name).unwrap();
        if (0..3).any(|k| (at[k] - want[k]).abs() > t) {
            return fail(format!("the entity is at {:?} instead of {:?}", at, want));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C32

fn finite(v: &[f32]) -> bool {
    v.iter().all(|k| k.is_finite())
}
/// what every mesh and shape has to satisfy whatever the brushes are
pub fn well_formed(tree: &[Node]) -> R {
    for (_, a, ch, at) in all_actors(tree) {
        if at.iter().any(|k| !k.is_finite()) {
            return fail(format!("{} is at {:?}", a.name, at));
        }
        for n in ch {
            if !finite(&n.origin) {
                return fail(format!("a node of {} is at {:?}", a.name, n.origin));
            }
            match &n.kind {
                Kind::Visual(v) => {
                    for (k, s) in v.iter().enumerate() {
                        let what = format!("surface {:?} of {}", s.texture, a.name);
                        if v[..k].iter().any(|o| o.texture == s.texture) {
                            return fail(format!("two surfaces {:?}", s.texture));
                        }
                        let n = s.verts.len();
                        if s.normals.len() != n || s.tangents.len() != n || s.uvs.as_ref().is_some_and(|u| u.len() != n) || s.colors.as_ref().is_some_and(|u| u.len() != n) {
                            return fail(format!("{}: attribute counts differ", what));
                        }
                        mesh_ok(&what, n, &s.indices)?;
                        let fine = s.verts.iter().all(|q| finite(q))
                            && s.normals.iter().all(|q| finite(q) && (q.iter().map(|k| k * k).sum::<f32>() - 1.0).abs() < 1e-3)
                            && s.tangents.iter().all(|q| finite(&q.0) && q.1.is_finite())
                            && s.uvs.iter().flatten().all(|q| finite(q))
                            && s.colors.iter().flatten().all(|q| finite(q));
                        if !fine {
                            return fail(format!("{}: numbers that are none, or normals that are not of length 1: {:?}", what, s));
                        }
                    }
                }
                Kind::Convex(v) => {
                    for (c, p) in v {
                        if !finite(c) || !p.iter().all(|q| finite(q)) {
                            return fail(format!("convex shape of {}: {:?} {:?}", a.name, c, p));
                        }
                    }
                }
                Kind::Concave(v) => {
                    for (c, p, i) in v {
                        if !finite(c) || !p.iter().all(|q| finite(q)) {
                            return fail(format!("concave shape of {}: {:?} {:?}", a.name, c, p));
                        }
                        mesh_ok(&format!("concave shape of {}", a.name), p.len(), i)?;
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}
fn mesh_ok(what: &str, n: usize, idx: &[usize]) -> R {
    if n == 0 || idx.is_empty() {
        return fail(format!("{}: {} vertices, {} indices", what, n, idx.len()));
    }
    let mut used = vec![false; n];
    for t in idx.chunks(3) {
        if t.len() < 3 || t.iter().any(|i| *i >= n) || t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            return fail(format!("{}: triangle {:?} of {} vertices", what, t, n));
        }
        t.iter().for_each(|i| used[*i] = true);
    }
    match used.iter().position(|u| !u) {
        Some(i) => fail(format!("{}: vertex {} of {} is in no triangle", what, i, n)),
        None => Ok(()),
    }
}

/// Points of faces: box faces, a second box, bevels, cuts, inverted and degenerate ones
fn odd_faces() -> Vec<[P3; 3]> {
    let mut v: Vec<[P3; 3]> = boxb([-16, -24, -32], [16, 24, 32]).iter().map(|p| p.pts).collect();
    let rev = |p: [P3; 3]| [p[0], p[2], p[1]];
    v.push(rev(v[0])); // inverted
    v.push(v[2]); // repeated
    v.push(PlaneI::new([1, 1, 0], 40).pts); // touches an edge
    v.push(PlaneI::new([1, 1, 1], 60).pts); // cuts a corner
    v.push(PlaneI::new([1, 0, 0], 8).pts); // cuts, parallel to a face
    v.push([[0, 0, 0], [8, 8, 8], [16, 16, 16]]); // collinear
    v.push([[5, 5, 5], [5, 5, 5], [0, 0, 9]]); // two points the same
    v.push([[7, 7, 7]; 3]); // one point
    v.push(PlaneI::new([-1, 2, 0], 0).pts); // through the middle
    v.push(PlaneI::new([0, 1, 1], 4000).pts); // far away
    v
}

pub fn c32(c: &mut Chooser, x: &mut Ctx) -> R {
    let pool = odd_faces();
    let mut faces: Vec<[P3; 3]> = Vec::new();
    let kind = c.pick(2);
    match kind {
        0 => {
            for p in &pool {
                if c.flag() {
                    faces.push(*p);
                }
            }
        }
        _ => {
            // short sequences with repetition, in every order
            let n = 1 + c.pick(if x.thorough { 5 } else { 4 });
            for _ in 0..n {
                faces.push(*c.of(&pool));
            }
        }
    }
    let mode = c.pick(5); // own textures, one texture, phong, a layer, mixed trailing fields
    let coll = if mode % 2 == 0 { Coll::Convex } else { Coll::Concave };
    let uv = match (kind, mode) {
        _ if x.thorough => c.pick(5),
        (0, 0) => [0, 2, 3, 4][c.pick(4)],
        (0, _) => 0,
        (_, 1) => c.pick(5),
        _ => c.pick(2),
    };
    x.go(c)?;
    x.state(&(&faces, mode, uv));
    let class = if mode == 3 { "worldspawn" } else { "func" };
    let mut cfg = solid_cfg(class, faces.len(), true, coll);
    cfg.tex.push(("lay".into(), 64, 64));
    if mode == 3 {
        cfg.layers.push(LayerDef { name: "thelayer".into(), texture: "lay".into(), etype: EType::Placeholder, script: None, visual: true, coll });
    }
    let mut b = Brush::default();
    for (i, p) in faces.iter().enumerate() {
        let mut f = Face::new(&PlaneI { n: [0; 3], d: 0, pts: *p, div: 1 }, &match mode {
            0 => ftex(i),
            3 => "lay".into(),
            _ => "f0".into(),
        });
        if uv == 1 {
            f.uv = Uv::Valve { u: [1.0, 0.0, 0.0], uo: 3.0, v: [0.0, -1.0, 0.0], vo: 0.5 };
            f.rot = 30.0;
        }
        if uv > 1 {
            // axes without a length, very long and very short ones, alike ones
            const AXES: [[f64; 3]; 6] = [[0.0; 3], [1e6, 0.0, -1e6], [1e-9, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, -1.0, 0.0], [0.0; 3]];
            f.uv = Uv::Valve { u: AXES[(uv + i) % 6], uo: 3.0, v: AXES[(uv * 3 + 2 * i) % 6], vo: 1e6 };
            f.rot = [1e6, -0.0, 360.0][uv - 2];
            f.scale = [[1e-4, 1.0], [-1e6, 1e-4], [1.0, 1.0]][(uv + i) % 3];
        }
        if mode == 4 {
            f.extra = [&[][..], &["1", "2", "3"], &["1", "2", "3", "255", "0", "7"]][i % 3].iter().map(|s| s.to_string()).collect();
        }
        b.faces.push(f);
    }
    let mut ents = solid_map(class, vec![b]);
    if mode == 2 {
        ents.last_mut().unwrap().kvs.push(("_phong".into(), "1".into()));
    }
    let tree = run_map(x, &cfg, text(&ents).as_bytes()).tree()?;
    well_formed(&tree)?;
    // nothing sticks out of the half-spaces
    let halves: Vec<([f64; 3], f64)> = faces
        .iter()
        .map(|p| PlaneI::through(*p))
        .filter(|p| p.n != [0; 3])
        .map(|p| (p.unit(), fdot(p.unit(), f3(p.pts[0]))))
        .collect();
    for (_, a, ch, _) in all_actors(&tree) {
        let mut pts: Vec<V3> = Vec::new();
        for n in ch {
            match &n.kind {
                Kind::Visual(v) => pts.extend(v.iter().flat_map(|s| s.verts.iter())),
                Kind::Convex(v) => pts.extend(v.iter().flat_map(|s| s.1.iter())),
                Kind::Concave(v) => pts.extend(v.iter().flat_map(|s| s.1.iter())),
                _ => {}
            }
        }
        for p in &pts {
            if let Some(h) = halves.iter().find(|h| fdot(h.0, d3(*p)) > h.1 + 0.05) {
                return fail(format!("{:?} of {} lies {} in front of a plane of the brush", p, a.name, fdot(h.0, d3(*p)) - h.1));
            }
        }
    }
    Ok(())
}
