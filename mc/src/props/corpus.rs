//! Bounded families of convex brushes, enumerated through the chooser.
use crate::explore::Chooser;
use crate::poly::*;

/// cut directions of a box: 8 corners, then 12 edges
pub fn cut_dirs() -> Vec<P3> {
    let mut corners = Vec::new();
    let mut edges = Vec::new();
    for a in -1..=1i64 {
        for b in -1..=1i64 {
            for c in -1..=1i64 {
                match a.abs() + b.abs() + c.abs() {
                    3 => corners.push([a, b, c]),
                    2 => edges.push([a, b, c]),
                    _ => {}
                }
            }
        }
    }
    corners.extend(edges);
    corners
}

/// box of half sizes h about the origin with up to `max` cuts in increasing direction order
pub fn cut_box(c: &mut Chooser, max: usize, depths: &[i64]) -> Vec<PlaneI> {
    let h = [16, 24, 32];
    let dirs = cut_dirs();
    let mut v = boxb([-h[0], -h[1], -h[2]], h);
    let n = c.pick(max + 1);
    let mut from = 0;
    for k in 0..n {
        let left = n - k - 1;
        let i = from + c.pick(dirs.len() - left - from);
        from = i + 1;
        let d = dirs[i];
        let reach: i64 = (0..3).map(|k| d[k].abs() * h[k]).sum();
        let depth = *c.of(depths);
        v.push(PlaneI::new(d, reach - depth));
    }
    v
}

pub fn grid(n: i64) -> Vec<P3> {
    let mut v = Vec::new();
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                v.push([a, b, c]);
            }
        }
    }
    v
}

/// k points of the n-grid in increasing order (the hull is to be taken after `go`)
pub fn lattice_points(c: &mut Chooser, n: i64, k: usize) -> Vec<P3> {
    let g = grid(n);
    let mut out = Vec::new();
    let mut from = 0;
    for j in 0..k {
        let left = k - j - 1;
        let i = from + c.pick(g.len() - left - from);
        out.push(g[i]);
        from = i + 1;
    }
    out
}
pub fn hull_planes(p: &[P3], k: i64) -> Option<Vec<PlaneI>> {
    let q: Vec<P3> = p.iter().map(|p| [p[0] * k, p[1] * k, p[2] * k]).collect();
    Some(hull(&q)?.into_iter().map(|x| x.0).collect())
}

/// a fixed list of differently shaped solids (all well conditioned), about 32-64 units big
pub fn gallery() -> Vec<(&'static str, Vec<PlaneI>)> {
    static G: std::sync::OnceLock<Vec<(&'static str, Vec<PlaneI>)>> = std::sync::OnceLock::new();
    G.get_or_init(make_gallery).clone()
}
fn make_gallery() -> Vec<(&'static str, Vec<PlaneI>)> {
    let dirs = cut_dirs();
    let b = || boxb([-16, -24, -32], [16, 24, 32]);
    let mut v: Vec<(&'static str, Vec<PlaneI>)> = Vec::new();
    v.push(("box", b()));
    v.push(("tetra", hull_planes(&[[0, 0, 0], [2, 0, 0], [0, 2, 0], [0, 0, 2]], 16).unwrap()));
    v.push(("wedge", hull_planes(&[[0, 0, 0], [3, 0, 0], [0, 2, 0], [3, 2, 0], [0, 0, 2], [0, 2, 2]], 16).unwrap()));
    v.push(("pyramid4", pyramid(&[[-32, -32], [32, -32], [32, 32], [-32, 32]], 0, [0, 0, 48])));
    v.push(("prism3", prism(&[[0, 0], [48, 0], [16, 40]], -8, 24)));
    v.push(("prism5", prism(&ngon(5, 64), -16, 16)));
    v.push(("prism8", prism(&ngon(8, 64), -16, 16)));
    let mut c = b();
    c.push(PlaneI::new(dirs[7], 16 + 24 + 32 - 8));
    v.push(("corner-cut box", c));
    let mut c = b();
    c.push(PlaneI::new([1, 1, 0], 16 + 24 - 8));
    c.push(PlaneI::new([-1, 1, 0], 16 + 24 - 8));
    v.push(("edge-cut box", c));
    v.push(("octahedron", hull_planes(&[[1, 1, 0], [1, 1, 2], [1, 0, 1], [1, 2, 1], [0, 1, 1], [2, 1, 1]], 16).unwrap()));
    v.push(("skewed box", hull_planes(&[[0, 0, 0], [2, 0, 0], [1, 2, 0], [3, 2, 0], [0, 1, 2], [2, 1, 2], [1, 3, 2], [3, 3, 2]], 16).unwrap()));
    v.push(("frustum", hull_planes(&[[0, 0, 0], [4, 0, 0], [0, 4, 0], [4, 4, 0], [1, 1, 2], [3, 1, 2], [1, 3, 2], [3, 3, 2]], 12).unwrap()));
    v
}

pub fn permutation(c: &mut Chooser, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    while !left.is_empty() {
        let i = c.pick(left.len());
        out.push(left.remove(i));
    }
    out
}
