//! Calls of the real library, and its results in a comparable form.
use crate::explore::Ctx;
use quarchitect::game_data as gd;
use quarchitect::game_data::forge;
use quarchitect::scene_tree::{CollisionGeometry, SceneTreeNode, SceneTreeType, VisualGeometry};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum EType {
    Placeholder,
    Class(String),
    Prefab(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Apply {
    Properties,
    Dictionary,
    Metadata,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Coll {
    None,
    Convex,
    Concave,
}

#[derive(Clone, Debug)]
pub struct EntDef {
    pub class: String,
    /// None: point class
    pub brush: Option<(bool, Coll)>,
    pub etype: EType,
    pub script: Option<String>,
    pub apply: Apply,
}
impl EntDef {
    pub fn solid(class: &str, visual: bool, coll: Coll) -> EntDef {
        EntDef { class: class.into(), brush: Some((visual, coll)), etype: EType::Class(format!("T_{}", class)), script: None, apply: Apply::Properties }
    }
    pub fn point(class: &str) -> EntDef {
        EntDef { class: class.into(), brush: None, etype: EType::Class(format!("T_{}", class)), script: None, apply: Apply::Properties }
    }
}
#[derive(Clone, Debug)]
pub struct LayerDef {
    pub name: String,
    pub texture: String,
    pub etype: EType,
    pub script: Option<String>,
    pub visual: bool,
    pub coll: Coll,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub tex: Vec<(String, u32, u32)>,
    pub bl_brush: Vec<String>,
    pub bl_face: Vec<String>,
    pub forge: Vec<forge::Entity>,
    pub ents: Vec<EntDef>,
    pub layers: Vec<LayerDef>,
}

impl Cfg {
    pub fn tex(mut self, n: &str, w: u32, h: u32) -> Cfg {
        self.tex.push((n.into(), w, h));
        self
    }
    pub fn ent(mut self, e: EntDef) -> Cfg {
        self.ents.push(e);
        self
    }
    /// FGD definition with only string properties
    pub fn strings(mut self, class: &str, keys: &[&str]) -> Cfg {
        let ps = keys.iter().map(|k| forge::Property::new(k, "", "", forge::PropertyData::String("<absent>".into()))).collect();
        self.forge.push(forge::Entity::new(forge::ClassType::PointClass, vec![], class, "", ps));
        self
    }
}

fn etype(e: &EType) -> gd::EntityType {
    match e {
        EType::Placeholder => gd::EntityType::Placeholder,
        EType::Class(s) => gd::EntityType::Class(s.clone()),
        EType::Prefab(s) => gd::EntityType::Prefab(s.clone()),
    }
}
fn comp(s: &Option<String>) -> gd::ComponentType {
    match s {
        None => gd::ComponentType::None,
        Some(s) => gd::ComponentType::Script(s.clone()),
    }
}
fn apply(a: Apply) -> gd::PropertyApplicationType {
    match a {
        Apply::Properties => gd::PropertyApplicationType::Properties,
        Apply::Dictionary => gd::PropertyApplicationType::Dictionary,
        Apply::Metadata => gd::PropertyApplicationType::Metadata,
    }
}
fn vis(b: bool) -> gd::VisualType {
    if b {
        gd::VisualType::Mesh
    } else {
        gd::VisualType::None
    }
}
fn coll(c: Coll) -> gd::CollisionType {
    match c {
        Coll::None => gd::CollisionType::None,
        Coll::Convex => gd::CollisionType::Convex,
        Coll::Concave => gd::CollisionType::Concave,
    }
}

pub fn config(map_file: &str, c: &Cfg) -> quarchitect::Config {
    let tex: HashMap<String, quarchitect::Texture> = c.tex.iter().map(|(n, w, h)| (n.clone(), quarchitect::Texture::new(*w, *h))).collect();
    let ents = c
        .ents
        .iter()
        .map(|e| match e.brush {
            None => gd::Entity::point(e.class.clone(), etype(&e.etype), comp(&e.script), apply(e.apply), gd::Properties::default()),
            Some((v, k)) => gd::Entity::brush(e.class.clone(), etype(&e.etype), comp(&e.script), apply(e.apply), gd::Properties::default(), vis(v), coll(k)),
        })
        .collect();
    let layers = c
        .layers
        .iter()
        .map(|l| gd::WorldspawnLayer::new(l.name.clone(), l.texture.clone(), etype(&l.etype), comp(&l.script), vis(l.visual), coll(l.coll)))
        .collect();
    quarchitect::Config::new(
        map_file,
        quarchitect::TextureInfo(tex),
        quarchitect::TextureBlacklist::new(c.bl_brush.clone(), c.bl_face.clone()),
        forge::GameData::new("g".into(), vec![], c.forge.clone()),
        gd::GameData { entities: ents, worldspawn_layers: layers },
    )
}

pub type V3 = [f32; 3];
#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    Int(i32),
    Float(f32),
    V3(V3),
    Str(String),
    Color(V3),
    Choices(i32),
    Flags(i32),
    Source,
    Dest,
}
#[derive(Clone, Debug)]
pub struct ActorN {
    pub name: String,
    pub etype: EType,
    pub script: Option<String>,
    pub apply: Apply,
    pub props: BTreeMap<String, Prop>,
}
#[derive(Clone, Debug)]
pub struct Surf {
    pub texture: Option<String>,
    pub verts: Vec<V3>,
    pub normals: Vec<V3>,
    pub tangents: Vec<(V3, f32)>,
    pub uvs: Option<Vec<[f32; 2]>>,
    pub colors: Option<Vec<V3>>,
    pub indices: Vec<usize>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Actor(ActorN, Vec<Node>),
    Visual(Vec<Surf>),
    Convex(Vec<(V3, Vec<V3>)>),
    Concave(Vec<(V3, Vec<V3>, Vec<usize>)>),
    /// a geometry node without geometry
    Nothing,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub origin: V3,
    pub kind: Kind,
}

fn v3(v: &quarchitect::Vector3) -> V3 {
    [v.x(), v.y(), v.z()]
}
fn col(c: &quarchitect::Color) -> V3 {
    [c.r, c.g, c.b]
}
fn node(n: &SceneTreeNode) -> Node {
    let kind = match &n.data {
        SceneTreeType::Actor(a, ch) => {
            let props = a
                .properties
                .0
                .iter()
                .map(|(k, p)| {
                    let p = match p {
                        gd::Property::Integer(i) => Prop::Int(*i),
                        gd::Property::Float(f) => Prop::Float(*f),
                        gd::Property::Vector3(v) => Prop::V3(v3(v)),
                        gd::Property::String(s) => Prop::Str(s.clone()),
                        gd::Property::Color(c) => Prop::Color(col(c)),
                        gd::Property::Choices(i) => Prop::Choices(*i),
                        gd::Property::Flags(i) => Prop::Flags(*i),
                        gd::Property::TargetSource => Prop::Source,
                        gd::Property::TargetDestination => Prop::Dest,
                    };
                    (k.clone(), p)
                })
                .collect();
            Kind::Actor(
                ActorN {
                    name: a.name.clone(),
                    etype: match &a.entity_type {
                        gd::EntityType::Placeholder => EType::Placeholder,
                        gd::EntityType::Class(s) => EType::Class(s.clone()),
                        gd::EntityType::Prefab(s) => EType::Prefab(s.clone()),
                    },
                    script: a.component_class.clone(),
                    apply: match a.property_application_type {
                        gd::PropertyApplicationType::Properties => Apply::Properties,
                        gd::PropertyApplicationType::Dictionary => Apply::Dictionary,
                        gd::PropertyApplicationType::Metadata => Apply::Metadata,
                    },
                    props,
                },
                ch.iter().map(node).collect(),
            )
        }
        SceneTreeType::VisualGeometry(VisualGeometry::None) => Kind::Nothing,
        SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) => Kind::Visual(
            m.surfaces
                .iter()
                .map(|s| Surf {
                    texture: s.texture.clone(),
                    verts: s.vertices.iter().map(v3).collect(),
                    normals: s.normals.iter().map(v3).collect(),
                    tangents: s.tangents.iter().map(|(t, w)| (v3(t), *w)).collect(),
                    uvs: s.uvs.as_ref().map(|u| u.iter().map(|p| [p.x(), p.y()]).collect()),
                    colors: s.colors.as_ref().map(|c| c.iter().map(col).collect()),
                    indices: s.indices.clone(),
                })
                .collect(),
        ),
        SceneTreeType::CollisionGeometry(CollisionGeometry::None) => Kind::Nothing,
        SceneTreeType::CollisionGeometry(CollisionGeometry::Convex(c)) => {
            Kind::Convex(c.iter().map(|s| (v3(&s.center), s.points.iter().map(v3).collect())).collect())
        }
        SceneTreeType::CollisionGeometry(CollisionGeometry::Concave(c)) => {
            Kind::Concave(c.iter().map(|s| (v3(&s.center), s.vertices.iter().map(v3).collect(), s.indices.clone())).collect())
        }
    };
    Node { origin: v3(&n.origin), kind }
}

pub type Tree = Vec<Node>;

#[derive(Clone, Debug)]
pub enum Out {
    Tree(Tree),
    Err(String),
    Panic(String),
}
impl Out {
    pub fn tree(self) -> Result<Tree, crate::explore::Stop> {
        match self {
            Out::Tree(t) => Ok(t),
            Out::Err(e) => crate::explore::fail(format!("loading failed on a well-formed map: {}", e)),
            Out::Panic(p) => crate::explore::fail(format!("loading panicked: {}", p)),
        }
    }
}

/// exact (bit for bit) rendering, with properties in key order
pub fn exact(t: &[Node]) -> Vec<u8> {
    let mut o = Vec::with_capacity(256);
    fn f(o: &mut Vec<u8>, v: &[f32]) {
        for x in v {
            o.extend_from_slice(&x.to_bits().to_le_bytes());
        }
    }
    fn s(o: &mut Vec<u8>, t: &str) {
        o.extend_from_slice(&(t.len() as u32).to_le_bytes());
        o.extend_from_slice(t.as_bytes());
    }
    fn u(o: &mut Vec<u8>, v: &[usize]) {
        o.extend_from_slice(&(v.len() as u32).to_le_bytes());
        for x in v {
            o.extend_from_slice(&(*x as u32).to_le_bytes());
        }
    }
    fn n(o: &mut Vec<u8>, t: &Node) {
        f(o, &t.origin);
        match &t.kind {
            Kind::Actor(a, c) => {
                o.push(b'A');
                s(o, &a.name);
                s(o, &format!("{:?} {:?} {:?}", a.etype, a.script, a.apply));
                for (k, p) in &a.props {
                    s(o, k);
                    match p {
                        Prop::Float(x) => f(o, &[*x]),
                        Prop::V3(v) | Prop::Color(v) => f(o, v),
                        p => s(o, &format!("{:?}", p)),
                    }
                }
                o.push(b'[');
                for k in c {
                    n(o, k);
                }
                o.push(b']');
            }
            Kind::Visual(v) => {
                o.push(b'V');
                for k in v {
                    s(o, &format!("{:?}", k.texture));
                    u(o, &[k.verts.len(), k.normals.len(), k.tangents.len()]);
                    k.verts.iter().for_each(|x| f(o, x));
                    k.normals.iter().for_each(|x| f(o, x));
                    k.tangents.iter().for_each(|x| {
                        f(o, &x.0);
                        f(o, &[x.1])
                    });
                    o.push(k.uvs.is_some() as u8);
                    k.uvs.iter().flatten().for_each(|x| f(o, x));
                    o.push(k.colors.is_some() as u8);
                    k.colors.iter().flatten().for_each(|x| f(o, x));
                    u(o, &k.indices);
                }
            }
            Kind::Convex(v) => {
                o.push(b'X');
                for (c, p) in v {
                    f(o, c);
                    u(o, &[p.len()]);
                    p.iter().for_each(|x| f(o, x));
                }
            }
            Kind::Concave(v) => {
                o.push(b'C');
                for (c, p, i) in v {
                    f(o, c);
                    u(o, &[p.len()]);
                    p.iter().for_each(|x| f(o, x));
                    u(o, i);
                }
            }
            Kind::Nothing => o.push(b'0'),
        }
    }
    for x in t {
        n(&mut o, x);
    }
    o
}
pub fn exact_out(o: &Out) -> Vec<u8> {
    match o {
        Out::Tree(t) => exact(t),
        Out::Err(e) => format!("E {}", e).into_bytes(),
        Out::Panic(e) => format!("P {}", e).into_bytes(),
    }
}

pub fn run_config(c: quarchitect::Config) -> Out {
    run_config_then(c, || ())
}
/// `after` is called between the library's return and the conversion of its result
pub fn run_config_then(c: quarchitect::Config, after: impl FnOnce()) -> Out {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| quarchitect::run(c)));
    after();
    match r {
        Ok(Ok(t)) => Out::Tree(t.iter().map(node).collect::<Vec<Node>>()),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => Out::Panic(crate::explore::panic_text(p)),
    }
}

pub fn put(x: &Ctx, name: &str, data: &[u8]) -> String {
    let p = x.scratch.join(format!("{}-{}", x.worker, name));
    std::fs::write(&p, data).expect("scratch file");
    p.to_str().unwrap().to_string()
}

/// writes the text to a scratch file and loads it
pub fn run_map(x: &mut Ctx, c: &Cfg, text: &[u8]) -> Out {
    x.last_input = text.to_vec();
    let p = put(x, "in.map", text);
    x.stats.impl_calls += 1;
    let o = run_config(config(&p, c));
    x.outcome(&exact_out(&o));
    o
}

impl Node {
    pub fn actor(&self) -> Option<(&ActorN, &[Node])> {
        match &self.kind {
            Kind::Actor(a, c) => Some((a, c)),
            _ => None,
        }
    }
}
pub fn d3(v: V3) -> [f64; 3] {
    [v[0] as f64, v[1] as f64, v[2] as f64]
}
pub fn near3(a: V3, b: [f64; 3], tol: f64) -> bool {
    (0..3).all(|k| ((a[k] as f64) - b[k]).abs() <= tol)
}
/// number of actors in a tree
pub fn actors(t: &[Node]) -> usize {
    t.iter().map(|n| n.actor().map(|(_, c)| 1 + actors(c)).unwrap_or(0)).sum()
}
/// all actors with their paths, depth first: (depth, actor, children, origin sum)
pub fn walk<'a>(t: &'a [Node], depth: usize, base: [f64; 3], out: &mut Vec<(usize, &'a ActorN, &'a [Node], [f64; 3])>) {
    for n in t {
        if let Kind::Actor(a, c) = &n.kind {
            let o = crate::poly::fadd(base, d3(n.origin));
            out.push((depth, a, c, o));
            walk(c, depth + 1, o, out);
        }
    }
}
pub fn all_actors(t: &[Node]) -> Vec<(usize, &ActorN, &[Node], [f64; 3])> {
    let mut v = Vec::new();
    walk(t, 0, [0.0; 3], &mut v);
    v
}
