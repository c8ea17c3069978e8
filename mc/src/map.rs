//! Map text as an abstract syntax: what the checks generate and what their oracles reason about.
use crate::poly::{PlaneI, P3};

#[derive(Clone, Debug, PartialEq)]
pub enum Uv {
    Std { u: f64, v: f64 },
    Valve { u: [f64; 3], uo: f64, v: [f64; 3], vo: f64 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Face {
    pub pts: [P3; 3],
    /// the points are in units of 1/div
    pub div: i64,
    pub tex: String,
    pub uv: Uv,
    pub rot: f64,
    pub scale: [f64; 2],
    /// trailing fields, as text
    pub extra: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Brush {
    pub faces: Vec<Face>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ent {
    pub kvs: Vec<(String, String)>,
    pub brushes: Vec<Brush>,
}

impl Face {
    pub fn new(pl: &PlaneI, tex: &str) -> Face {
        Face { pts: pl.pts, div: pl.div, tex: tex.into(), uv: Uv::Std { u: 0.0, v: 0.0 }, rot: 0.0, scale: [1.0, 1.0], extra: vec![] }
    }
    pub fn line(&self) -> String {
        let mut s = String::with_capacity(120);
        for p in &self.pts {
            if self.div == 1 {
                s += &format!("( {} {} {} ) ", p[0], p[1], p[2]);
            } else {
                let d = self.div as f64;
                s += &format!("( {} {} {} ) ", p[0] as f64 / d, p[1] as f64 / d, p[2] as f64 / d);
            }
        }
        s += &self.tex;
        match &self.uv {
            Uv::Std { u, v } => s += &format!(" {} {}", u, v),
            Uv::Valve { u, uo, v, vo } => {
                s += &format!(" [ {} {} {} {} ] [ {} {} {} {} ]", u[0], u[1], u[2], uo, v[0], v[1], v[2], vo)
            }
        }
        s += &format!(" {} {} {}", self.rot, self.scale[0], self.scale[1]);
        for e in &self.extra {
            s.push(' ');
            s += e;
        }
        s
    }
}

impl Brush {
    /// every face with texture `tex(i)`
    pub fn of(planes: &[PlaneI], tex: impl Fn(usize) -> String) -> Brush {
        Brush { faces: planes.iter().enumerate().map(|(i, p)| Face::new(p, &tex(i))).collect() }
    }
}

impl Ent {
    pub fn new(class: &str) -> Ent {
        Ent { kvs: vec![("classname".into(), class.into())], brushes: vec![] }
    }
    pub fn kv(mut self, k: &str, v: &str) -> Ent {
        self.kvs.push((k.into(), v.into()));
        self
    }
    pub fn brush(mut self, b: Brush) -> Ent {
        self.brushes.push(b);
        self
    }
    pub fn lines(&self) -> Vec<String> {
        let mut v = vec!["{".to_string()];
        for (k, x) in &self.kvs {
            v.push(format!("\"{}\" \"{}\"", k, x));
        }
        for b in &self.brushes {
            v.push("{".into());
            v.extend(b.faces.iter().map(|f| f.line()));
            v.push("}".into());
        }
        v.push("}".into());
        v
    }
}

pub fn lines(ents: &[Ent]) -> Vec<String> {
    ents.iter().flat_map(|e| e.lines()).collect()
}
pub fn text(ents: &[Ent]) -> String {
    let mut s = lines(ents).join("\n");
    s.push('\n');
    s
}
