//! Exact geometry of convex brushes: the oracle for everything the geometry builder computes in
//! floating point. Planes are integer, vertices are exact rationals.

pub type P3 = [i64; 3];

#[derive(Clone, Debug, PartialEq)]
pub struct PlaneI {
    /// outward normal (any positive multiple), interior is n.x <= d
    pub n: P3,
    pub d: i64,
    /// three points on the plane with (p2-p0) x (p1-p0) a positive multiple of n
    pub pts: [P3; 3],
    /// all coordinates above are in units of 1/div
    pub div: i64,
}

pub fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot(a: P3, b: P3) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn fdot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn fsub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn fadd(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn fmul(a: [f64; 3], k: f64) -> [f64; 3] {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn fcross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn flen(a: [f64; 3]) -> f64 {
    fdot(a, a).sqrt()
}
pub fn fnorm(a: [f64; 3]) -> [f64; 3] {
    fmul(a, 1.0 / flen(a))
}
pub fn f3(a: P3) -> [f64; 3] {
    [a[0] as f64, a[1] as f64, a[2] as f64]
}

impl PlaneI {
    /// plane through three points, outward side given by their rotation
    pub fn through(p: [P3; 3]) -> PlaneI {
        let n = cross(sub(p[2], p[0]), sub(p[1], p[0]));
        PlaneI { n, d: dot(n, p[0]), pts: p, div: 1 }
    }
    /// plane n.x = d for an integer normal with gcd 1
    pub fn new(n: P3, d: i64) -> PlaneI {
        // an integer point, then two integer directions in the plane
        let mut p0 = None;
        'o: for r in 0..40i64 {
            for a in -r..=r {
                for b in -r..=r {
                    if a.abs() != r && b.abs() != r {
                        continue;
                    }
                    for k in 0..3 {
                        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
                        let rest = d - n[i] * a - n[j] * b;
                        if n[k] != 0 && rest % n[k] == 0 {
                            let mut p = [0; 3];
                            p[k] = rest / n[k];
                            p[i] = a;
                            p[j] = b;
                            p0 = Some(p);
                            break 'o;
                        }
                    }
                }
            }
        }
        let p0 = p0.expect("no integer point");
        // directions e_i * n_j - e_j * n_i span the plane
        let k = (0..3).max_by_key(|&k| n[k].abs()).unwrap();
        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
        let mut u = [0; 3];
        u[i] = n[k];
        u[k] = -n[i];
        let mut v = [0; 3];
        v[j] = n[k];
        v[k] = -n[j];
        let m = 16;
        let u = [u[0] * m, u[1] * m, u[2] * m];
        let v = [v[0] * m, v[1] * m, v[2] * m];
        let p1 = [p0[0] + u[0], p0[1] + u[1], p0[2] + u[2]];
        let p2 = [p0[0] + v[0], p0[1] + v[1], p0[2] + v[2]];
        let a = PlaneI::through([p0, p1, p2]);
        let a = if dot(a.n, n) > 0 { a } else { PlaneI::through([p0, p2, p1]) };
        debug_assert!(dot(a.n, n) > 0);
        PlaneI { n, d, pts: a.pts, div: 1 }
    }
    pub fn unit(&self) -> [f64; 3] {
        fnorm(f3(self.n))
    }
    pub fn moved(&self, t: P3) -> PlaneI {
        let t = [t[0] * self.div, t[1] * self.div, t[2] * self.div];
        let m = |p: P3| [p[0] + t[0], p[1] + t[1], p[2] + t[2]];
        PlaneI { n: self.n, d: self.d + dot(self.n, t), pts: [m(self.pts[0]), m(self.pts[1]), m(self.pts[2])], div: self.div }
    }
    /// scaled about the origin
    pub fn scaled(&self, k: i64) -> PlaneI {
        let m = |p: P3| [p[0] * k, p[1] * k, p[2] * k];
        PlaneI { n: self.n, d: self.d * k, pts: [m(self.pts[0]), m(self.pts[1]), m(self.pts[2])], div: self.div }
    }
}

pub fn moved(s: &[PlaneI], t: P3) -> Vec<PlaneI> {
    s.iter().map(|p| p.moved(t)).collect()
}
pub fn scaled(s: &[PlaneI], k: i64) -> Vec<PlaneI> {
    s.iter().map(|p| p.scaled(k)).collect()
}

/// the same solid with its coordinates read in units of 1/div
pub fn finer(s: &[PlaneI], div: i64) -> Vec<PlaneI> {
    s.iter().map(|p| PlaneI { div: p.div * div, ..p.clone() }).collect()
}

pub fn boxb(lo: P3, hi: P3) -> Vec<PlaneI> {
    let mut v = Vec::new();
    for k in 0..3 {
        let mut n = [0; 3];
        n[k] = 1;
        v.push(PlaneI::new(n, hi[k]));
        n[k] = -1;
        v.push(PlaneI::new(n, -lo[k]));
    }
    // points within the faces, as editors write them
    for p in v.iter_mut() {
        let k = (0..3).find(|&k| p.n[k] != 0).unwrap();
        let at = if p.n[k] > 0 { hi[k] } else { lo[k] };
        let (i, j) = ((k + 1) % 3, (k + 2) % 3);
        let mk = |a: i64, b: i64| {
            let mut q = [0; 3];
            q[k] = at;
            q[i] = a;
            q[j] = b;
            q
        };
        let pts = [mk(lo[i], lo[j]), mk(hi[i], lo[j]), mk(lo[i], hi[j])];
        let q = PlaneI::through(pts);
        let pts = if dot(q.n, p.n) > 0 { pts } else { [pts[0], pts[2], pts[1]] };
        p.pts = pts;
        debug_assert!(dot(PlaneI::through(pts).n, p.n) > 0);
    }
    v
}

/// convex polygon (counter-clockwise seen from +z) extruded from z0 to z1
pub fn prism(poly: &[[i64; 2]], z0: i64, z1: i64) -> Vec<PlaneI> {
    let mut v = Vec::new();
    let n = poly.len();
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        let p = [[a[0], a[1], z0], [a[0], a[1], z1], [b[0], b[1], z0]];
        v.push(PlaneI::through(p));
    }
    let l = |i: usize, z: i64| [poly[i][0], poly[i][1], z];
    v.push(PlaneI::through([l(0, z1), l(2, z1), l(1, z1)]));
    v.push(PlaneI::through([l(0, z0), l(1, z0), l(2, z0)]));
    v
}
/// apex over a convex polygon
pub fn pyramid(poly: &[[i64; 2]], z0: i64, apex: P3) -> Vec<PlaneI> {
    let mut v = Vec::new();
    let n = poly.len();
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        v.push(PlaneI::through([[a[0], a[1], z0], apex, [b[0], b[1], z0]]));
    }
    let l = |i: usize| [poly[i][0], poly[i][1], z0];
    v.push(PlaneI::through([l(0), l(1), l(2)]));
    v
}

/// strictly convex lattice n-gon of about radius r
pub fn ngon(n: usize, r: i64) -> Vec<[i64; 2]> {
    let mut out: Vec<[i64; 2]> = Vec::new();
    for i in 0..n {
        let t = 2.0 * std::f64::consts::PI * (i as f64 + 0.17) / n as f64;
        out.push([(r as f64 * t.cos()).round() as i64, (r as f64 * t.sin()).round() as i64]);
    }
    // rounding must not have spoilt convexity
    for i in 0..n {
        let (a, b, c) = (out[i], out[(i + 1) % n], out[(i + 2) % n]);
        assert!((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) > 0, "ngon {} {}", n, r);
    }
    out
}

/// facets of the convex hull of a few integer points; None unless every point is a vertex of a
/// full-dimensional hull
pub fn hull(pts: &[P3]) -> Option<Vec<(PlaneI, Vec<usize>)>> {
    let m = pts.len();
    let mut out: Vec<(PlaneI, Vec<usize>)> = Vec::new();
    for a in 0..m {
        for b in a + 1..m {
            for c in b + 1..m {
                let mut pl = PlaneI::through([pts[a], pts[b], pts[c]]);
                if pl.n == [0, 0, 0] {
                    continue;
                }
                let mut pos = false;
                let mut neg = false;
                let mut on = Vec::new();
                for (i, q) in pts.iter().enumerate() {
                    let s = dot(pl.n, *q) - pl.d;
                    if s > 0 {
                        pos = true
                    } else if s < 0 {
                        neg = true
                    } else {
                        on.push(i)
                    }
                }
                if pos && neg {
                    continue;
                }
                if !pos && !neg {
                    return None; // flat
                }
                if pos {
                    pl = PlaneI::through([pts[a], pts[c], pts[b]]);
                }
                if !out.iter().any(|o| o.1 == on) {
                    out.push((pl, on));
                }
            }
        }
    }
    if out.len() < 4 {
        return None;
    }
    // every given point must be a vertex: in at least three facets with independent normals and
    // not in the middle of an edge or face
    for i in 0..m {
        let fs: Vec<&PlaneI> = out.iter().filter(|o| o.1.contains(&i)).map(|o| &o.0).collect();
        let mut ok = false;
        for a in 0..fs.len() {
            for b in a + 1..fs.len() {
                for c in b + 1..fs.len() {
                    if dot(cross(fs[a].n, fs[b].n), fs[c].n) != 0 {
                        ok = true;
                    }
                }
            }
        }
        if !ok {
            return None;
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub verts: Vec<[f64; 3]>,
    /// per vertex the planes through it
    pub tight: Vec<Vec<usize>>,
    /// per plane its polygon (indices into verts), counter-clockwise seen from outside; empty if the
    /// plane touches the body in less than a polygon
    pub faces: Vec<Vec<usize>>,
    pub volume: f64,
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

/// the body cut out by the half-spaces, exactly; None if it has fewer than four vertices
pub fn shape(pl: &[PlaneI]) -> Option<Shape> {
    let m = pl.len();
    let div = pl.first()?.div;
    assert!(pl.iter().all(|p| p.div == div));
    let mut vs: Vec<([i128; 3], i128)> = Vec::new();
    let mut tight: Vec<Vec<usize>> = Vec::new();
    let w = |v: P3| [v[0] as i128, v[1] as i128, v[2] as i128];
    let ns: Vec<[i128; 3]> = pl.iter().map(|p| w(p.n)).collect();
    let ds: Vec<i128> = pl.iter().map(|p| p.d as i128).collect();
    let cr = |a: [i128; 3], b: [i128; 3]| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let dt = |a: [i128; 3], b: [i128; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    for a in 0..m {
        for b in a + 1..m {
            let ab = cr(ns[a], ns[b]);
            if ab == [0, 0, 0] {
                continue;
            }
            for c in b + 1..m {
                let det = dt(ab, ns[c]);
                if det == 0 {
                    continue;
                }
                let bc = cr(ns[b], ns[c]);
                let ca = cr(ns[c], ns[a]);
                let mut num = [0i128; 3];
                for k in 0..3 {
                    num[k] = bc[k] * ds[a] + ca[k] * ds[b] + ab[k] * ds[c];
                }
                let mut den = det;
                if den < 0 {
                    den = -den;
                    num = [-num[0], -num[1], -num[2]];
                }
                if (0..m).any(|l| dt(ns[l], num) > ds[l] * den) {
                    continue;
                }
                let g = gcd(gcd(num[0], num[1]), gcd(num[2], den)).max(1);
                let v = ([num[0] / g, num[1] / g, num[2] / g], den / g);
                if vs.contains(&v) {
                    continue;
                }
                tight.push((0..m).filter(|&l| dt(ns[l], v.0) == ds[l] * v.1).collect());
                vs.push(v);
            }
        }
    }
    if vs.len() < 4 {
        return None;
    }
    let verts: Vec<[f64; 3]> = vs.iter().map(|(n, d)| [n[0] as f64 / (*d * div as i128) as f64, n[1] as f64 / (*d * div as i128) as f64, n[2] as f64 / (*d * div as i128) as f64]).collect();
    let mut faces = Vec::new();
    let mut volume = 0.0;
    for (i, p) in pl.iter().enumerate() {
        let mut f: Vec<usize> = (0..verts.len()).filter(|&v| tight[v].contains(&i)).collect();
        if f.len() < 3 {
            faces.push(Vec::new());
            continue;
        }
        let n = p.unit();
        let c = fmul(f.iter().fold([0.0; 3], |a, &v| fadd(a, verts[v])), 1.0 / f.len() as f64);
        let u = fnorm(fsub(verts[f[0]], c));
        let w = fcross(n, u);
        let ang = |v: usize| {
            let q = fsub(verts[v], c);
            fdot(q, w).atan2(fdot(q, u))
        };
        f.sort_by(|a, b| ang(*a).partial_cmp(&ang(*b)).unwrap());
        for k in 1..f.len() - 1 {
            let (a, b, cc) = (verts[f[0]], verts[f[k]], verts[f[k + 1]]);
            volume += fdot(a, fcross(b, cc)) / 6.0;
        }
        faces.push(f);
    }
    Some(Shape { verts, tight, faces, volume })
}

impl Shape {
    /// how well the corners are determined: for the worst corner of a face, the determinant of the best
    /// three unit normals that meet there
    pub fn conditioning(&self, pl: &[PlaneI]) -> f64 {
        let n: Vec<[f64; 3]> = pl.iter().map(|p| p.unit()).collect();
        let mut worst = f64::MAX;
        for t in &self.tight {
            for &a in t {
                let mut best: f64 = 0.0;
                for &b in t {
                    let ab = fcross(n[a], n[b]);
                    for &c in t {
                        best = best.max(fdot(ab, n[c]));
                    }
                }
                worst = worst.min(best);
            }
        }
        worst
    }
    pub fn extent(&self) -> f64 {
        self.verts.iter().flat_map(|v| v.iter()).fold(0.0, |a: f64, b| a.max(b.abs()))
    }
    pub fn face_center(&self, i: usize) -> [f64; 3] {
        let f = &self.faces[i];
        fmul(f.iter().fold([0.0; 3], |a, &v| fadd(a, self.verts[v])), 1.0 / f.len().max(1) as f64)
    }
    /// average of the face averages
    pub fn center(&self) -> [f64; 3] {
        let n = self.faces.len();
        fmul((0..n).fold([0.0; 3], |a, i| fadd(a, self.face_center(i))), 1.0 / n as f64)
    }
    /// smallest distance between two vertices
    pub fn separation(&self) -> f64 {
        let mut m = f64::MAX;
        for a in 0..self.verts.len() {
            for b in a + 1..self.verts.len() {
                m = m.min(flen(fsub(self.verts[a], self.verts[b])));
            }
        }
        m
    }
}

/// tolerance for coordinates of this size computed in f32
pub fn tol(extent: f64) -> f64 {
    0.004 + 2e-5 * extent
}
