//! C27 - C30: the generated FGD, saving it, its agreement with map decoding, and the map diff.
use crate::explore::*;
use crate::lib_run::*;
use crate::map::*;
use crate::sys::{self, Fault, Op};
use quarchitect::game_data::forge::*;
use quarchitect::{Color, Vector3};
use std::collections::{BTreeMap, HashSet};

// ------------------------------------------------------------------------- an FGD reader of our own

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Word(String),
    Str(String),
    P(char),
}
fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let mut v = Vec::new();
    let ch: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        match ch[i] {
            c if c.is_whitespace() => i += 1,
            '/' if ch.get(i + 1) == Some(&'/') => {
                while i < ch.len() && ch[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let e = ch[i + 1..].iter().position(|c| *c == '"').ok_or("unclosed string")?;
                v.push(Tok::Str(ch[i + 1..i + 1 + e].iter().collect()));
                i += e + 2;
            }
            c if "()[]=:,".contains(c) => {
                v.push(Tok::P(c));
                i += 1;
            }
            _ => {
                let a = i;
                while i < ch.len() && !ch[i].is_whitespace() && !"()[]=:,\"".contains(ch[i]) {
                    i += 1;
                }
                v.push(Tok::Word(ch[a..i].iter().collect()));
            }
        }
    }
    Ok(v)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    None,
    Bare(String),
    Quoted(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct FProp {
    pub name: String,
    pub ty: String,
    pub short: Option<String>,
    pub default: Val,
    pub long: Option<String>,
    /// entries of a list: value, label, mark
    pub list: Option<Vec<(Val, String, Option<String>)>>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum FMeta {
    Base(Vec<String>),
    Color(Vec<String>),
    Size(Vec<String>),
}
#[derive(Debug, Clone, PartialEq)]
pub struct FClass {
    pub kind: String,
    pub meta: Vec<FMeta>,
    pub name: String,
    pub desc: String,
    pub props: Vec<FProp>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Fgd {
    pub name: Option<String>,
    pub includes: Vec<String>,
    pub classes: Vec<FClass>,
}
struct Rd {
    t: Vec<Tok>,
    i: usize,
}
type Pr<T> = Result<T, String>;
impl Rd {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Pr<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn is(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            return true;
        }
        false
    }
    fn want(&mut self, c: char) -> Pr<()> {
        match self.next()? {
            Tok::P(d) if c == d => Ok(()),
            t => Err(format!("{:?} where {} belongs (token {})", t, c, self.i)),
        }
    }
    fn word(&mut self) -> Pr<String> {
        match self.next()? {
            Tok::Word(w) => Ok(w),
            t => Err(format!("{:?} where a word belongs (token {})", t, self.i)),
        }
    }
    fn string(&mut self) -> Pr<String> {
        match self.next()? {
            Tok::Str(w) => Ok(w),
            t => Err(format!("{:?} where a string belongs (token {})", t, self.i)),
        }
    }
    fn val(&mut self) -> Val {
        match self.peek().cloned() {
            Some(Tok::Word(w)) => {
                self.i += 1;
                Val::Bare(w)
            }
            Some(Tok::Str(w)) => {
                self.i += 1;
                Val::Quoted(w)
            }
            _ => Val::None,
        }
    }
    fn prop(&mut self) -> Pr<FProp> {
        let name = self.word()?;
        self.want('(')?;
        let ty = self.word()?;
        self.want(')')?;
        let mut p = FProp { name, ty, short: None, default: Val::None, long: None, list: None };
        if self.is(':') {
            p.short = Some(self.string()?);
            if self.is(':') {
                p.default = self.val();
                if self.is(':') {
                    p.long = Some(self.string()?);
                }
            }
        }
        if self.is('=') {
            self.want('[')?;
            let mut v = Vec::new();
            while !self.is(']') {
                let val = self.val();
                if val == Val::None {
                    return Err(format!("no value in a list (token {})", self.i));
                }
                self.want(':')?;
                let label = self.string()?;
                let mark = if self.is(':') { Some(self.word()?) } else { None };
                v.push((val, label, mark));
            }
            p.list = Some(v);
        }
        Ok(p)
    }
    fn class(&mut self, kind: String) -> Pr<FClass> {
        let mut meta = Vec::new();
        while !self.is('=') {
            let w = self.word()?;
            self.want('(')?;
            let mut args = Vec::new();
            let mut commas = 0;
            while !self.is(')') {
                if self.is(',') {
                    commas += 1;
                    if args.len() != commas {
                        return Err("misplaced comma".into());
                    }
                } else {
                    args.push(self.word()?);
                }
            }
            meta.push(match &w[..] {
                "base" if commas + 1 == args.len() || args.is_empty() && commas == 0 => FMeta::Base(args),
                "color" if commas == 0 => FMeta::Color(args),
                "size" if commas + 1 == args.len() => FMeta::Size(args),
                _ => return Err(format!("metadata {} {:?}", w, args)),
            });
        }
        let name = self.word()?;
        self.want(':')?;
        let desc = self.string()?;
        self.want('[')?;
        let mut props = Vec::new();
        while !self.is(']') {
            props.push(self.prop()?);
        }
        Ok(FClass { kind, meta, name, desc, props })
    }
}
pub fn parse_fgd(s: &str) -> Pr<Fgd> {
    let name = s.lines().next().and_then(|l| l.strip_prefix("// ")).map(|l| l.to_string());
    let mut r = Rd { t: tokens(s)?, i: 0 };
    let mut g = Fgd { name, includes: vec![], classes: vec![] };
    while r.peek().is_some() {
        let w = r.word()?;
        if w == "@include" {
            if !g.classes.is_empty() {
                return Err("an include after a class".into());
            }
            g.includes.push(r.string()?);
        } else {
            g.classes.push(r.class(w)?);
        }
    }
    Ok(g)
}

// ------------------------------------------------------------------------------------------ C27

fn num_is(t: &str, f: f32) -> bool {
    !t.contains(['e', 'E']) && t.parse::<f32>().map(|v| v.to_bits() == f.to_bits()) == Ok(true)
}
/// components 0-255; a component between two of them may be shown as either
fn color_is(t: &[&str], c: &Color) -> bool {
    t.len() == 3
        && [c.r, c.g, c.b].iter().zip(t).all(|(c, t)| match t.parse::<i64>() {
            Ok(k) => {
                let e = *c as f64 * 255.0;
                let near = (e - e.round()).abs() < 1e-3;
                if near {
                    k as f64 == e.round()
                } else {
                    (k as f64 - e).abs() < 1.0
                }
            }
            _ => false,
        })
}
fn choice_text(c: &ChoiceData) -> (String, bool) {
    match c {
        ChoiceData::Integer(i) => (i.to_string(), false),
        ChoiceData::Float(f) => (f.to_string(), false),
        ChoiceData::String(s) => (s.clone(), true),
    }
}
fn text_is(c: &ChoiceData, t: &str) -> bool {
    match c {
        ChoiceData::Integer(i) => t == i.to_string(),
        ChoiceData::Float(f) => num_is(t, *f),
        ChoiceData::String(s) => t == s,
    }
}

fn same_prop(p: &FProp, d: &Property) -> R {
    let bad = |what: &str| fail(format!("property {}: {} is not that of {:?}: {:?}", d.name, what, d, p));
    if p.name != d.name {
        return bad("the name");
    }
    let plain = |ty: &str| -> R {
        if p.ty != ty {
            return bad("the type");
        }
        if p.short.as_ref() != Some(&d.short_description) || p.long.as_ref() != Some(&d.long_description) {
            return bad("a description");
        }
        if p.list.is_some() {
            return bad("the list");
        }
        Ok(())
    };
    match &d.data {
        PropertyData::Integer(i) => {
            plain("integer")?;
            if p.default != Val::Bare(i.to_string()) {
                return bad("the default");
            }
        }
        PropertyData::Float(f) => {
            plain("float")?;
            match &p.default {
                Val::Bare(t) if num_is(t, *f) => {}
                _ => return bad("the default"),
            }
        }
        PropertyData::Vector3(v) => {
            plain("string")?;
            match &p.default {
                Val::Quoted(t) => {
                    let q: Vec<&str> = t.split(' ').collect();
                    if q.len() != 3 || !num_is(q[0], v.x()) || !num_is(q[1], v.y()) || !num_is(q[2], v.z()) {
                        return bad("the default");
                    }
                }
                _ => return bad("the default"),
            }
        }
        PropertyData::String(s) => {
            plain("string")?;
            if p.default != Val::Quoted(s.clone()) {
                return bad("the default");
            }
        }
        PropertyData::Color(c) => {
            plain("color255")?;
            match &p.default {
                Val::Quoted(t) if color_is(&t.split(' ').collect::<Vec<_>>(), c) => {}
                _ => return bad("the default"),
            }
        }
        PropertyData::TargetSource | PropertyData::TargetDestination => {
            plain(if matches!(d.data, PropertyData::TargetSource) { "target_source" } else { "target_destination" })?;
            if p.default != Val::None {
                return bad("the default");
            }
        }
        PropertyData::Choices(ch, def) => {
            if p.ty != "choices" {
                return bad("the type");
            }
            if p.short.as_ref() != Some(&d.short_description) || p.long.as_ref().map(|l| l != &d.long_description) == Some(true) {
                return bad("a description");
            }
            match &p.default {
                Val::Quoted(t) | Val::Bare(t) if text_is(&ch[*def as usize].value, t) => {}
                _ => return bad("the default"),
            }
            let l = match &p.list {
                Some(l) if l.len() == ch.len() => l,
                _ => return bad("the number of choices"),
            };
            for (a, b) in l.iter().zip(ch) {
                let (_, quoted) = choice_text(&b.value);
                let ok = match &a.0 {
                    Val::Quoted(t) => quoted && text_is(&b.value, t),
                    Val::Bare(t) => !quoted && text_is(&b.value, t),
                    Val::None => false,
                };
                if !ok || a.1 != b.name || a.2.is_some() {
                    return bad("a choice");
                }
            }
        }
        PropertyData::Flags(fl, def) => {
            if p.ty != "flags" {
                return bad("the type");
            }
            if p.short.as_ref().map(|s| s != &d.short_description) == Some(true) || p.long.as_ref().map(|s| s != &d.long_description) == Some(true) {
                return bad("a description");
            }
            let l = match &p.list {
                Some(l) if l.len() == fl.len() => l,
                _ => return bad("the number of flags"),
            };
            for (i, (a, b)) in l.iter().zip(fl).enumerate() {
                let on = *def as u32 >> i & 1;
                if a.0 != Val::Bare((1u64 << i).to_string()) || &a.1 != b || a.2 != Some(on.to_string()) {
                    return bad("a flag");
                }
            }
        }
    }
    Ok(())
}

fn same_class(p: &FClass, d: &Entity) -> R {
    let bad = |what: String| fail(format!("class {}: {}: {:?}", d.class_name, what, p));
    let kind = match d.class_type {
        ClassType::BaseClass => "@BaseClass",
        ClassType::PointClass => "@PointClass",
        ClassType::SolidClass => "@SolidClass",
    };
    if p.kind != kind || p.name != d.class_name || p.desc != d.description {
        return bad(format!("not {} {} {}", kind, d.class_name, d.description));
    }
    if p.meta.len() != d.metadata.len() || p.props.len() != d.properties.len() {
        return bad(format!("not {} metadata and {} properties", d.metadata.len(), d.properties.len()));
    }
    for (a, b) in p.meta.iter().zip(&d.metadata) {
        let ok = match (a, b) {
            (FMeta::Base(a), Metadata::Base(b)) => a == b,
            (FMeta::Color(a), Metadata::Color(b)) => color_is(&a.iter().map(|s| &s[..]).collect::<Vec<_>>(), b),
            (FMeta::Size(a), Metadata::Size(b, c)) => a.len() == 6 && [b.x(), b.y(), b.z(), c.x(), c.y(), c.z()].iter().zip(a).all(|(n, t)| num_is(t, *n)),
            _ => false,
        };
        if !ok {
            return bad(format!("{:?} is not {:?}", a, b));
        }
    }
    for (a, b) in p.props.iter().zip(&d.properties) {
        same_prop(a, b)?;
    }
    Ok(())
}

fn generated(x: &mut Ctx, g: &GameData) -> Result<String, Stop> {
    x.stats.impl_calls += 1;
    match std::panic::catch_unwind(|| g.to_string()) {
        Ok(t) => {
            x.last_input = t.clone().into_bytes();
            x.outcome(&t);
            Ok(t)
        }
        Err(p) => fail(format!("generating the FGD panicked: {}\n{:?}", panic_text(p), g)),
    }
}
fn round_trip(x: &mut Ctx, g: &GameData) -> R {
    let t = generated(x, g)?;
    let f = match parse_fgd(&t) {
        Ok(f) => f,
        Err(e) => return fail(format!("the FGD cannot be read: {}\n{}", e, t)),
    };
    let inner = || -> R {
        if f.name.as_ref() != Some(&g.name) {
            return fail(format!("the name is {:?} instead of {:?}", f.name, g.name));
        }
        if f.includes != g.includes {
            return fail(format!("the includes are {:?} instead of {:?}", f.includes, g.includes));
        }
        if f.classes.len() != g.definitions.len() {
            return fail(format!("{} classes instead of {}", f.classes.len(), g.definitions.len()));
        }
        for (a, b) in f.classes.iter().zip(&g.definitions) {
            same_class(a, b)?;
        }
        Ok(())
    };
    match inner() {
        Err(Stop::Fail { msg, .. }) => fail(format!("{}\n{}", msg, t)),
        r => r,
    }
}

const STRS: [&str; 9] = ["", "Plain", "with : colon", "[ = ] ( )", "a/b // c", "\u{dc}n\u{ef} \u{2603}", " spaces  ", "it's @PointClass", "1 : 2, {}"];
const IDS: [&str; 4] = ["foo", "info_player_start", "f2", "Worldspawn"];
const INTS: [i32; 8] = [0, 1, -1, 10, 255, -32768, i32::MAX, i32::MIN];
const FLOATS: [f32; 14] = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1234.5678, 1e-7, 1e20, 16777217.0, f32::MAX, f32::MIN_POSITIVE, 1.0e-45, -3.25];

fn metadata(k: usize) -> Metadata {
    match k {
        0 => Metadata::Base(vec!["Origin".into()]),
        1 => Metadata::Base(vec!["A".into(), "B_2".into(), "c".into()]),
        2 => Metadata::Base(vec![]),
        3 => Metadata::Color(Color::new(0.25, 0.5, 0.75)),
        4 => Metadata::Color(Color::new(1.0, 0.0, 51.0 / 255.0)),
        5 => Metadata::Size(Vector3::new(-4.0, -5.5, -6.0), Vector3::new(7.0, 8.0, 9.25)),
        _ => Metadata::size(Vector3::new(0.0, -0.0, 1e7), Vector3::new(1e-3, 2.0, 0.1)),
    }
}
fn ch(k: usize) -> ChoiceData {
    match k {
        0 => ChoiceData::Integer(4),
        1 => ChoiceData::Integer(-1),
        2 => ChoiceData::Integer(0),
        3 => ChoiceData::Float(1.234),
        4 => ChoiceData::Float(-0.5),
        5 => ChoiceData::Float(1e10),
        6 => ChoiceData::String("five".into()),
        7 => ChoiceData::String("".into()),
        8 => ChoiceData::String("a : b [".into()),
        9 => ChoiceData::String("7".into()),
        _ => ChoiceData::Integer(i32::MIN),
    }
}
fn data(k: usize, v: usize) -> PropertyData {
    match k {
        0 => PropertyData::Integer(INTS[v % 8]),
        1 => PropertyData::Float(FLOATS[v % 14]),
        2 => PropertyData::Vector3(Vector3::new(FLOATS[v % 14], FLOATS[(v + 4) % 14], FLOATS[(v * 3 + 5) % 14])),
        3 => PropertyData::String(STRS[v % 9].into()),
        4 => PropertyData::Color([Color::new(0.2, 0.4, 0.6), Color::new(0.0, 1.0, 0.5), Color::new(1.0 / 255.0, 254.0 / 255.0, 128.0 / 255.0), Color::default()][v % 4]),
        5 => {
            let n = 1 + v % 3;
            PropertyData::Choices((0..n).map(|i| Choice { name: STRS[(v + i) % 9].into(), value: ch((v + i * 3) % 11) }).collect(), (v / 2 % n) as i32)
        }
        6 => PropertyData::Flags((0..v % 4).map(|i| STRS[(v + i) % 9].into()).collect(), (v * 5) as i32),
        7 => PropertyData::TargetSource,
        _ => PropertyData::TargetDestination,
    }
}
fn game(props: Vec<Property>) -> GameData {
    GameData::new("Game".into(), vec![], vec![Entity::new(ClassType::PointClass, vec![], "cls", "A class", props)])
}

pub fn c27(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let g = match c.pick(9) {
        8 => {
            // texts and names that mean something elsewhere, in every place
            let place = c.pick(13);
            let all = if place < 9 { crate::names::texts() } else { crate::names::words() };
            let s = c.of(&all).clone();
            // where a text could be taken for nothing, also beside others
            let with = c.pick(2);
            x.go(c)?;
            let at = |k: usize, d: &str| if k == place { s.clone() } else { d.to_string() };
            let o = |d: &str| if with == 1 { d.to_string() } else { String::new() };
            let mut flags = vec![at(6, "flag")];
            let mut list = vec![Choice { name: at(4, "one"), value: ChoiceData::Integer(1) }, Choice { name: o("two"), value: ChoiceData::String(at(5, "second")) }];
            let mut inc = vec![at(8, "base.fgd")];
            if with == 1 {
                flags.insert(0, "zeroth".into());
                list.reverse();
                inc.push("other.fgd".into());
            }
            let ps = vec![
                Property::new(&at(9, "first"), &at(1, &o("short")), &at(2, &o("long")), PropertyData::String(at(3, &o("default")))),
                Property::new("list", "s", &o("l"), PropertyData::Choices(list, with as i32)),
                Property::new(&at(10, "marks"), &o("s"), "l", PropertyData::Flags(flags, 1)),
                Property::new("goal", &at(1, ""), &at(2, ""), PropertyData::TargetDestination),
            ];
            let base = Entity::new(ClassType::BaseClass, vec![], &at(12, "Origin"), "", vec![]);
            let cls = Entity::new(ClassType::PointClass, vec![Metadata::Base(vec!["Origin".into(), at(12, "Other")]), metadata(3)], &at(11, "cls"), &at(0, &o("A class")), ps);
            GameData::new(at(7, "Game"), inc, if with == 1 { vec![base, cls] } else { vec![cls] })
        }
        0 => {
            // one class
            let ty = *c.of(&[ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass]);
            let n = c.pick(if th { 5 } else { 4 });
            let m: Vec<usize> = (0..n).map(|_| c.pick(7)).collect();
            let name = *c.of(&IDS);
            let d = *c.of(&STRS[..if n > 2 { 2 } else { 9 }]);
            let np = c.pick(2);
            x.go(c)?;
            let ps = (0..np).map(|i| Property::new("p", "s", "l", data(i, 3))).collect();
            GameData::new("Game".into(), vec![], vec![Entity::new(ty, m.iter().map(|k| metadata(*k)).collect(), name, d, ps)])
        }
        1 => {
            // one property
            let k = c.pick(9);
            let v = c.pick([8, 14, 14, 9, 4, 12, 8, 1, 1][k]);
            let name = *c.of(&IDS);
            let s = *c.of(&STRS);
            let l = *c.of(&STRS);
            x.go(c)?;
            game(vec![Property::new(name, s, l, data(k, v))])
        }
        2 => {
            // choice lists
            let n = 1 + c.pick(if th { 4 } else { 3 });
            let v: Vec<usize> = (0..n).map(|_| c.pick(11)).collect();
            let d = c.pick(n);
            let s = c.pick(2);
            x.go(c)?;
            game(vec![
                Property::new("p", ["Short", ""][s], "Long", PropertyData::Choices(v.iter().enumerate().map(|(i, k)| Choice { name: STRS[(i * 2 + s) % 9].into(), value: ch(*k) }).collect(), d as i32)),
                Property::new("q", "s", "l", PropertyData::Integer(1)),
            ])
        }
        3 => {
            // flags: every length, patterns of marks
            let n = c.pick(33);
            let p = c.pick(69);
            x.go(c)?;
            let d: u32 = match p {
                0..=31 => 1 << p,
                32..=63 => !(1 << (p - 32)),
                64 => 0,
                65 => u32::MAX,
                66 => 0x55555555,
                67 => 0xaaaaaaaa,
                _ => 0x80000001,
            };
            game(vec![Property::new("p", "s", "l", PropertyData::Flags((0..n).map(|i| format!("flag {}", i)).collect(), d as i32)), Property::new("q", "s", "l", PropertyData::TargetSource)])
        }
        4 => {
            // flags: every mark combination
            let n = c.pick(if th { 13 } else { 9 });
            let d = c.pick(1 << n);
            x.go(c)?;
            game(vec![Property::new("p", "", "", PropertyData::Flags((0..n).map(|i| STRS[i % 9].into()).collect(), d as i32))])
        }
        5 => {
            // property sequences
            let n = c.pick(if th { 6 } else { 5 });
            let k: Vec<usize> = (0..n).map(|_| c.pick(9)).collect();
            x.go(c)?;
            game(k.iter().enumerate().map(|(i, k)| Property::new(&format!("p{}", if i == 3 { 0 } else { i }), STRS[(i + 1) % 9], STRS[(i * 5 + 2) % 9], data(*k, i + 2))).collect())
        }
        6 => {
            // names, includes, class sequences
            let name = *c.of(&["Game", "", "My // game: \u{e9}", "a \"quoted\" game"]);
            let inc = ["base.fgd", "dir/o ther.fgd", "", "base.fgd "];
            let ni = c.pick(4);
            let ii: Vec<usize> = (0..ni).map(|_| c.pick(4)).collect();
            let nc = c.pick(if th { 5 } else { 4 });
            let cs: Vec<usize> = (0..nc).map(|_| c.pick(5)).collect();
            x.go(c)?;
            GameData::new(
                name.into(),
                ii.iter().map(|i| inc[*i].into()).collect(),
                cs.iter()
                    .enumerate()
                    .map(|(i, k)| {
                        let ty = [ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass, ClassType::PointClass, ClassType::SolidClass][*k];
                        let meta = (0..*k % 3).map(|j| metadata(j * 3 + i)).collect();
                        let props = (0..*k).map(|j| Property::new(&format!("p{}", j), "s", "l", data((j * 2 + k) % 9, i + j))).collect();
                        // the same class name may be declared twice
                        Entity::new(ty, meta, IDS[k % 4], STRS[(k + i) % 9], props)
                    })
                    .collect(),
            )
        }
        _ => {
            // numbers and colours everywhere
            let what = c.pick(4);
            let (a, b, d) = if what == 3 { (c.pick(256), c.pick(3), 0) } else { (c.pick(14), c.pick(14), c.pick(14)) };
            x.go(c)?;
            let col = |b: usize, a: usize| {
                let v = a as f32 / 255.0;
                match b {
                    0 => Color::new(v, 0.0, 1.0),
                    1 => Color::new(1.0, v, 0.0),
                    _ => Color::new(0.25, 0.0, v),
                }
            };
            match what {
                0 => game(vec![Property::new("v", "s", "l", PropertyData::Vector3(Vector3::new(FLOATS[a], FLOATS[b], FLOATS[d])))]),
                1 => GameData::new("G".into(), vec![], vec![Entity::new(ClassType::PointClass, vec![Metadata::Size(Vector3::new(FLOATS[a], FLOATS[b], FLOATS[d]), Vector3::new(1.0, 2.0, 3.0))], "c", "", vec![])]),
                2 => GameData::new("G".into(), vec![], vec![Entity::new(ClassType::PointClass, vec![Metadata::Size(Vector3::new(1.0, 2.0, 3.0), Vector3::new(FLOATS[a], FLOATS[b], FLOATS[d]))], "c", "", vec![])]),
                _ => GameData::new("G".into(), vec![], vec![Entity::new(ClassType::PointClass, vec![Metadata::Color(col(b, a))], "c", "", vec![Property::new("p", "s", "l", PropertyData::Color(col(b, 255 - a)))])]),
            }
        }
    };
    x.state(&format!("{:?}", g));
    round_trip(x, &g)
}

// ------------------------------------------------------------------------------------------ C28

const FAULTS: [Fault; 9] = [
    Fault::Errno(sys::EIO),
    Fault::Errno(sys::ENOSPC),
    Fault::Errno(sys::EINTR),
    Fault::Errno(sys::EACCES),
    Fault::Errno(sys::EMFILE),
    Fault::Short(1),
    Fault::Half,
    Fault::AllButOne,
    Fault::Zero,
];
fn saved_game(k: usize) -> GameData {
    let p = |n: usize| (0..n).map(|i| Property::new(&format!("prop{}", i), "Short description", "A long description of the property", data(i % 9, i))).collect::<Vec<_>>();
    match k {
        0 => GameData::default(),
        1 => game(p(5)),
        // more than the buffers in use hold (8 KiB; 64 KiB)
        2 => game(p(150)),
        _ => game(p(1500)),
    }
}

pub fn c28(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let size = c.pick(4);
    let old = c.pick(13);
    let mut plan: Vec<(usize, Fault)> = Vec::new();
    if old < 6 {
        match c.pick(5) {
            0 => {}
            1 => plan.push((c.pick(24), *c.of(&FAULTS))),
            2 => {
                let n = if th { 24 } else { 12 };
                let a = c.pick(n - 1);
                let b = a + 1 + c.pick(n - 1 - a);
                plan.push((a, *c.of(&FAULTS)));
                plan.push((b, *c.of(&FAULTS)));
            }
            3 => {
                // three faults in a row, or with one operation between
                let a = c.pick(4);
                let gap = 1 + c.pick(2);
                for i in 0..3 {
                    plan.push((a + i * gap, *c.of(&FAULTS)));
                }
            }
            _ => {
                // the same at every operation
                let every = 1 + c.pick(3);
                let f = *c.of(&[Fault::Short(1), Fault::Half, Fault::AllButOne, Fault::Short(100), Fault::Errno(sys::EINTR)]);
                if f == Fault::Short(1) && size > 1 || f == Fault::AllButOne && every == 1 && size > 1 {
                    x.go(c)?;
                    return Err(Stop::Prune);
                }
                for k in (0..3000).step_by(every) {
                    plan.push((k, f));
                }
                if matches!(f, Fault::Errno(_)) {
                    plan.retain(|p| p.0 % 7 != 3 && p.0 < 200);
                }
            }
        }
    }
    x.go(c)?;
    // how many operations a save without faults takes
    thread_local! {
        static OPS: std::cell::RefCell<BTreeMap<(usize, usize), usize>> = const { std::cell::RefCell::new(BTreeMap::new()) };
    }
    let known = OPS.with(|o| o.borrow().get(&(size, old)).copied());
    if let (Some(n), Some(f)) = (known, plan.first()) {
        if f.0 >= n {
            return Err(Stop::Prune);
        }
    }
    static GAMES: [std::sync::OnceLock<(GameData, String)>; 4] = [const { std::sync::OnceLock::new() }; 4];
    let (g, text) = GAMES[size].get_or_init(|| {
        let g = saved_game(size);
        let t = g.to_string();
        (g, t)
    });
    x.last_input = format!("{} bytes, earlier content {}, faults {:?}", text.len(), old, &plan[..plan.len().min(4)]).into_bytes();
    let p = put(x, "out.fgd", b"");
    let mut reachable = true;
    let mut limit = None;
    let mut path = p.clone();
    match old {
        0 => std::fs::remove_file(&p).unwrap(),
        1 => {}
        2 => std::fs::write(&p, &text.as_bytes()[..text.len() / 2]).unwrap(),
        3 => std::fs::write(&p, vec![b'z'; text.len() + 1000]).unwrap(),
        4 => std::fs::write(&p, vec![b'z'; text.len()]).unwrap(),
        5 => std::fs::write(&p, format!("{}\n{}", text, text)).unwrap(),
        6 => {
            // a directory
            path = x.scratch.join(format!("{}-dir", x.worker)).to_str().unwrap().into();
            let _ = std::fs::create_dir(&path);
            reachable = false;
        }
        7 => {
            path = x.scratch.join(format!("{}-nodir", x.worker)).join("out.fgd").to_str().unwrap().into();
            reachable = false;
        }
        8 | 9 => {
            // no room: the kernel takes a part of the file and refuses the rest (or takes nothing)
            limit = Some(if old == 8 { text.len() as u64 / 2 } else { 0 });
            reachable = text.is_empty();
        }
        10 => {
            // a name that is too long
            path = format!("{}{}", p, "x".repeat(300));
            reachable = false;
        }
        11 => {
            // a name that cannot be passed on
            path = format!("{}\0a", p);
            reachable = false;
        }
        _ => {
            // a path through a file
            path = format!("{}/out.fgd", p);
            reachable = false;
        }
    }
    let prefix = x.scratch.to_str().unwrap().to_string();
    if known.is_none() && reachable {
        let old_bytes = std::fs::read(&path).ok();
        let q = path.clone();
        let (_, tr, _) = sys::with_faults(&prefix, &[], || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.save(q).is_ok())));
        OPS.with(|o| o.borrow_mut().insert((size, old), tr.len()));
        match old_bytes {
            Some(b) => std::fs::write(&path, b).unwrap(),
            None => {
                let _ = std::fs::remove_file(&path);
            }
        }
    }
    x.stats.impl_calls += 1;
    let q = path.clone();
    if let Some(n) = limit {
        sys::limit_file_size(n);
    }
    let (r, trace, _) = sys::with_faults(&prefix, &plan, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.save(q).map_err(|e| e.to_string()))).map_err(panic_text));
    if limit.is_some() {
        sys::limit_file_size(u64::MAX);
    }
    x.count("file operations", trace.len() as u64);
    if plan.len() < 4 && plan.iter().any(|f| f.0 >= trace.len()) {
        return Err(Stop::Prune);
    }
    x.state(&(size, old, format!("{:?}", &plan[..plan.len().min(4)])));
    let show = || format!("{} bytes, earlier content {}, faults {:?} at operations {:?}", text.len(), old, &plan[..plan.len().min(4)], plan.iter().take(4).map(|f| trace.get(f.0)).collect::<Vec<_>>());
    let r = match r {
        Err(m) => return fail(format!("saving panicked: {}\n{}", m, show())),
        Ok(r) => r,
    };
    x.outcome(&(r.is_ok(), trace.len(), old));
    if !reachable {
        return match r {
            // unless it found a way to write it after all
            Ok(()) if std::fs::metadata(&path).is_ok_and(|m| m.is_file()) && std::fs::read(&path).unwrap_or_default() == text.as_bytes() => Ok(()),
            Ok(()) => fail(format!("success reported for a target that cannot be written\n{}", show())),
            Err(_) => Ok(()),
        };
    }
    let (mut must, mut may) = (false, false);
    for (k, f) in &plan {
        match (trace.get(*k).map(|o| o.0), f) {
            (None, _) => {}
            (Some(Op::Write), Fault::Errno(sys::EINTR)) => {}
            (Some(_), Fault::Errno(sys::EINTR)) => may = true,
            (Some(Op::Open), Fault::Errno(_)) | (Some(Op::Write), Fault::Errno(_)) => must = true,
            (Some(_), Fault::Errno(_)) => may = true,
            (Some(Op::Write), Fault::Zero) => may = true,
            _ => {}
        }
    }
    match r {
        Ok(()) if must => fail(format!("success reported although an operation failed\n{}", show())),
        Ok(()) => {
            let b = std::fs::read(&p).unwrap_or_default();
            if b != text.as_bytes() {
                return fail(format!("success reported, but the file holds {} bytes instead of {}, or others\n{}", b.len(), text.len(), show()));
            }
            Ok(())
        }
        Err(e) if !must && !may => fail(format!("saving failed: {}\n{}", e, show())),
        Err(_) => Ok(()),
    }
}

// ------------------------------------------------------------------------------------------ C29

/// loads one entity of the class without and with the given texts for its properties
fn decoded(x: &mut Ctx, cls: &Entity, kvs: &[(String, String)]) -> Result<BTreeMap<String, Prop>, Stop> {
    let mut cfg = Cfg::default();
    cfg.forge.push(cls.clone());
    let mut e = Ent::new(&cls.class_name);
    for (k, v) in kvs {
        e = e.kv(k, v);
    }
    let t = run_map(x, &cfg, text(&[Ent::new("worldspawn"), e]).as_bytes()).tree()?;
    match t.get(1).and_then(|n| n.actor()) {
        Some((a, _)) => Ok(a.props.clone()),
        None => fail("no actor"),
    }
}
fn bits(p: &Prop) -> String {
    match p {
        Prop::Float(f) => format!("f{:x}", f.to_bits()),
        Prop::V3(v) => format!("v{:x} {:x} {:x}", v[0].to_bits(), v[1].to_bits(), v[2].to_bits()),
        Prop::Color(v) => {
            // to a millionth
            format!("c{:?}", v.iter().map(|f| (*f as f64 * 1e5).round() as i64).collect::<Vec<_>>())
        }
        p => format!("{:?}", p),
    }
}
/// the text that an editor shows as default of this property
fn shown_default(p: &FProp) -> Option<String> {
    if p.ty == "flags" {
        let mut sum = 0u64;
        for (v, _, m) in p.list.iter().flatten() {
            if let (Val::Bare(b), Some("1")) = (v, m.as_deref()) {
                sum += b.parse::<u64>().unwrap_or(0);
            }
        }
        return Some(sum.to_string());
    }
    match &p.default {
        Val::Bare(t) | Val::Quoted(t) => Some(t.clone()),
        Val::None => None,
    }
}
fn distinct(v: &[usize]) -> bool {
    (0..v.len()).all(|i| (0..i).all(|j| choice_text(&ch(v[i])).0 != choice_text(&ch(v[j])).0))
}

pub fn c29(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let mode = c.pick(8);
    let mut picks: Vec<(String, String, String)> = Vec::new(); // property, text, wanted value
    let props: Vec<Property> = match mode {
        // texts that mean something elsewhere
        7 => {
            let s = c.of(&crate::names::texts()).clone();
            let sel = c.pick(3);
            let d = c.pick(3);
            x.go(c)?;
            picks.push(("p".into(), String::new(), format!("sel{}", sel)));
            let ch = |n: &str, v: &str| Choice { name: n.into(), value: ChoiceData::String(v.into()) };
            vec![
                Property::new("p", "s", "l", PropertyData::Choices(vec![ch("one", "first one"), ch(&s, &s), ch("three", &format!("{}~", s))], d as i32)),
                Property::new("q", &s, &s, PropertyData::String(s.clone())),
            ]
        }
        // single properties of every kind and default
        0 => {
            let k = c.pick(9);
            let v = c.pick([8, 14, 14, 9, 4, 12, 8, 1, 1][k]);
            x.go(c)?;
            vec![Property::new("p", "s", "l", legal(data(k, v)))]
        }
        // several properties
        1 => {
            let n = 1 + c.pick(if th { 5 } else { 4 });
            let k: Vec<usize> = (0..n).map(|_| c.pick(9)).collect();
            let s = c.pick(if th { 12 } else { 3 });
            x.go(c)?;
            k.iter().enumerate().map(|(i, k)| Property::new(&format!("p{}", i), "s", "l", legal(data(*k, s + i * 2)))).collect()
        }
        // every vector over the floats
        2 => {
            let f = [*c.of(&FLOATS), *c.of(&FLOATS), *c.of(&FLOATS)];
            x.go(c)?;
            vec![Property::new("p", "s", "l", PropertyData::Vector3(Vector3::new(f[0], f[1], f[2]))), Property::new("q", "s", "l", PropertyData::Float(f[0]))]
        }
        // colours: as default, and chosen
        3 => {
            let a = c.pick(256);
            let w = c.pick(3);
            let o = *c.of(&[0usize, 255, 128, 1]);
            x.go(c)?;
            let mut k = [o, 255 - o, o / 2];
            k[w] = a;
            let f: Vec<f32> = k.iter().map(|k| *k as f32 / 255.0).collect();
            picks.push(("q".into(), format!("{} {} {}", k[0], k[1], k[2]), bits(&Prop::Color([f[0], f[1], f[2]]))));
            vec![Property::new("p", "s", "l", PropertyData::Color(Color::new(f[0], f[1], f[2]))), Property::new("q", "s", "l", PropertyData::Color(Color::new(0.2, 0.4, 0.6)))]
        }
        // choices: every list of distinct values, default and selection
        4 => {
            let n = 1 + c.pick(if th { 4 } else { 3 });
            let v: Vec<usize> = (0..n).map(|_| c.pick(11)).collect();
            let d = c.pick(n);
            let sel = c.pick(n);
            x.go(c)?;
            if !distinct(&v) {
                return Err(Stop::Prune);
            }
            picks.push(("p".into(), String::new(), format!("sel{}", sel)));
            vec![Property::new("p", "s", "l", PropertyData::Choices(v.iter().map(|k| Choice { name: "c".into(), value: ch(*k) }).collect(), d as i32)), Property::new("q", "s", "l", PropertyData::Integer(3))]
        }
        // flags: every default and selection
        5 => {
            let n = c.pick(if th { 8 } else { 6 });
            let d = c.pick(1 << n);
            let s = c.pick(1 << n);
            x.go(c)?;
            picks.push(("p".into(), s.to_string(), bits(&Prop::Flags(s as i32))));
            vec![Property::new("p", "s", "l", PropertyData::Flags((0..n).map(|i| format!("f{}", i)).collect(), d as i32))]
        }
        // flags: every number of them, single marks
        _ => {
            let n = 1 + c.pick(31);
            let d = c.pick(n);
            let s = c.pick(n);
            let inv = c.flag();
            x.go(c)?;
            let all = ((1u64 << n) - 1) as i64;
            let (d, s) = ((1i64 << d), (1i64 << s));
            let (d, s) = if inv { (all & !d, all & !s) } else { (d, s) };
            picks.push(("p".into(), s.to_string(), bits(&Prop::Flags(s as i32))));
            vec![Property::new("p", "s", "l", PropertyData::Flags((0..n).map(|i| format!("f{}", i)).collect(), d as i32))]
        }
    };
    x.state(&(format!("{:?}", props), &picks));
    let cls = Entity::new(if mode % 2 == 0 { ClassType::PointClass } else { ClassType::SolidClass }, vec![], "cls", "d", props);
    let g = GameData::new("G".into(), vec![], vec![cls.clone()]);
    let t = generated(x, &g)?;
    let f = match parse_fgd(&t) {
        Ok(f) if f.classes.len() == 1 => f.classes[0].clone(),
        r => return fail(format!("the FGD cannot be read: {:?}\n{}", r.err(), t)),
    };
    let without = decoded(x, &cls, &[])?;
    let mut kvs = Vec::new();
    for p in &f.props {
        if let Some(d) = shown_default(p) {
            kvs.push((p.name.clone(), d));
        }
    }
    let with = decoded(x, &cls, &kvs)?;
    let show = |m: &BTreeMap<String, Prop>| m.iter().map(|(k, v)| (k.clone(), bits(v))).collect::<Vec<_>>();
    if show(&without) != show(&with) {
        return fail(format!("defaults {:?}: {:?} when written, {:?} when left out\n{}", kvs, with, without, t));
    }
    if without.len() != cls.properties.len() {
        return fail(format!("properties {:?} instead of {} declared ones", without, cls.properties.len()));
    }
    for (n, v, w) in picks {
        let (v, w) = match w.strip_prefix("sel") {
            Some(s) => {
                let s: usize = s.parse().unwrap();
                let l = f.props[0].list.clone().unwrap_or_default();
                match l.get(s) {
                    Some((Val::Bare(t), ..)) | Some((Val::Quoted(t), ..)) => (t.clone(), bits(&Prop::Choices(s as i32))),
                    _ => return fail(format!("choice {} is not in the FGD\n{}", s, t)),
                }
            }
            None => (v, w),
        };
        let got = decoded(x, &cls, &[(n.clone(), v.clone())])?;
        match got.get(&n) {
            Some(p) if bits(p) == w => {}
            p => return fail(format!("\"{}\" \"{}\" gives {:?} instead of {}\n{}", n, v, p, w, t)),
        }
    }
    Ok(())
}
/// choices with distinct values; flags only where a flag exists
fn legal(d: PropertyData) -> PropertyData {
    match d {
        PropertyData::Choices(mut v, d) => {
            let mut i = 0;
            while i < v.len() {
                if (0..i).any(|j| choice_text(&v[j].value).0 == choice_text(&v[i].value).0) {
                    v.remove(i);
                } else {
                    i += 1;
                }
            }
            let d = d.min(v.len() as i32 - 1);
            PropertyData::Choices(v, d)
        }
        PropertyData::Flags(v, d) => {
            let m = (1i64 << v.len()) - 1;
            PropertyData::Flags(v, (d as i64 & m) as i32)
        }
        // what the FGD can show are multiples of 1/255
        PropertyData::Color(q) => {
            let f = |v: f32| (v * 255.0).round() / 255.0;
            PropertyData::Color(Color::new(f(q.r), f(q.g), f(q.b)))
        }
        d => d,
    }
}

// ------------------------------------------------------------------------------------------ C30

/// one entry of a printed diff, in a canonical form
fn canon(line: &str) -> String {
    match line.chars().next() {
        Some('/') => format!("Comment {:?}", line),
        Some('{') => "OpenBrace".into(),
        Some('}') => "CloseBrace".into(),
        Some('(') => format!("BrushPlane {:?}", line),
        Some('"') => {
            let q: Vec<&str> = line.split('"').collect();
            if q.len() >= 5 {
                format!("Property {:?} {:?}", q[1], q[3])
            } else {
                format!("Unrecognized {:?}", line)
            }
        }
        _ => format!("Unrecognized {:?}", line),
    }
}

/// words, string literals (decoded) and punctuation of Rust's debug notation
fn debug_tokens(s: &str) -> Result<Vec<Tok>, String> {
    let ch: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < ch.len() {
        let c = ch[i];
        if c.is_whitespace() || c == ',' {
            i += 1;
        } else if c == '"' {
            let mut o = String::new();
            i += 1;
            loop {
                match ch.get(i) {
                    None => return Err("unclosed string".into()),
                    Some('"') => break,
                    Some('\\') => {
                        i += 1;
                        match ch.get(i) {
                            Some('n') => o.push('\n'),
                            Some('t') => o.push('\t'),
                            Some('r') => o.push('\r'),
                            Some('0') => o.push('\0'),
                            Some('u') => {
                                let e = ch[i..].iter().position(|c| *c == '}').ok_or("bad escape")?;
                                let h: String = ch[i + 2..i + e].iter().collect();
                                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                                i += e;
                            }
                            Some(c) => o.push(*c),
                            None => return Err("bad escape".into()),
                        }
                        i += 1;
                    }
                    Some(c) => {
                        o.push(*c);
                        i += 1;
                    }
                }
            }
            i += 1;
            v.push(Tok::Str(o));
        } else if "[](){}:".contains(c) {
            v.push(Tok::P(c));
            i += 1;
        } else {
            let a = i;
            while i < ch.len() && !ch[i].is_whitespace() && !"[](){}:,\"".contains(ch[i]) {
                i += 1;
            }
            v.push(Tok::Word(ch[a..i].iter().collect()));
        }
    }
    Ok(v)
}
/// (removed, added)
fn parse_diff(out: &str) -> Result<(Vec<String>, Vec<String>), String> {
    let at = out.rfind("Diff {").ok_or("no diff in the output")?;
    let t = debug_tokens(&out[at..])?;
    let mut lists: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut i = 2;
    let w = |i: usize| match t.get(i) {
        Some(Tok::Word(w)) => w.clone(),
        _ => String::new(),
    };
    let p = |i: usize, c: char| t.get(i) == Some(&Tok::P(c));
    while !p(i, '}') {
        let name = w(i);
        if name.is_empty() || !p(i + 1, ':') || !p(i + 2, '[') {
            return Err(format!("no list at token {} of {:?}", i, t));
        }
        i += 3;
        let l = lists.entry(name).or_default();
        while !p(i, ']') {
            let kind = w(i);
            i += 1;
            let mut s = kind.clone();
            match &kind[..] {
                "" => return Err(format!("no entry at token {} of {:?}", i, t)),
                _ if !p(i, '(') => {}
                _ => {
                    // all string literals up to the matching parenthesis
                    let mut depth = 0;
                    loop {
                        match t.get(i) {
                            None => return Err("unexpected end".into()),
                            Some(Tok::P('(')) => depth += 1,
                            Some(Tok::P(')')) => depth -= 1,
                            Some(Tok::Str(q)) => s += &format!(" {:?}", q),
                            _ => {}
                        }
                        i += 1;
                        if depth == 0 {
                            break;
                        }
                    }
                }
            }
            l.push(s);
        }
        i += 1;
    }
    match (lists.remove("removed"), lists.remove("added")) {
        (Some(r), Some(a)) => Ok((r, a)),
        _ => Err("lists missing".into()),
    }
}

fn lcs(a: &[String], b: &[String]) -> usize {
    let mut l = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            l[i + 1][j + 1] = if a[i] == b[j] { l[i][j] + 1 } else { l[i][j + 1].max(l[i + 1][j]) };
        }
    }
    l[a.len()][b.len()]
}
/// is there a common rest: a is a shuffle of it and r, b of it and d
fn edits(a: &[String], b: &[String], r: &[String], d: &[String]) -> bool {
    let mut seen: HashSet<(usize, usize, usize)> = HashSet::new();
    let mut todo = vec![(0usize, 0usize, 0usize)];
    while let Some((i, j, k)) = todo.pop() {
        if !seen.insert((i, j, k)) {
            continue;
        }
        let m = j + k - i; // additions used
        if i == a.len() && j == b.len() && k == r.len() && m == d.len() {
            return true;
        }
        if i < a.len() && k < r.len() && a[i] == r[k] {
            todo.push((i + 1, j, k + 1));
        }
        if j < b.len() && m < d.len() && b[j] == d[m] {
            todo.push((i, j + 1, k));
        }
        if i < a.len() && j < b.len() && a[i] == b[j] {
            todo.push((i + 1, j + 1, k));
        }
    }
    false
}

const LINES: [&str; 10] = ["{", "}", "// c", "\"k\" \"v\"", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t 0 0 0 1 1", "\"k\" \"w\"", "", "text", "// d \"q\" \\", "\"\" \"\u{fc}\t\""];

fn diff_case(x: &mut Ctx, ta: &str, tb: &str) -> R {
    let la: Vec<String> = ta.lines().map(canon).collect();
    let lb: Vec<String> = tb.lines().map(canon).collect();
    x.last_input = format!("--- first\n{}\n--- second\n{}\n", ta, tb).into_bytes();
    let a = put(x, "a.map", ta.as_bytes());
    let b = put(x, "b.map", tb.as_bytes());
    x.stats.impl_calls += 1;
    let (r, out) = sys::capture_stdout(|| std::panic::catch_unwind(|| quarchitect::run_diff(&a, &b).map_err(|e| e.to_string())).map_err(panic_text));
    let out = String::from_utf8_lossy(&out).into_owned();
    x.outcome(&out);
    match r {
        Err(p) => return fail(format!("comparing panicked: {}", p)),
        Ok(Err(e)) => return fail(format!("comparing failed: {}", e)),
        Ok(Ok(())) => {}
    }
    let (rem, add) = match parse_diff(&out) {
        Ok(d) => d,
        Err(e) => return fail(format!("{}\n{}", e, out)),
    };
    let n = lcs(&la, &lb);
    let show = || format!("first {:?}\nsecond {:?}\nremoved {:?}\nadded {:?}", la, lb, rem, add);
    if rem.len() + n != la.len() || add.len() + n != lb.len() {
        return fail(format!("{} lines removed and {} added, but {} of {} and {} lines are common\n{}", rem.len(), add.len(), n, la.len(), lb.len(), show()));
    }
    if !edits(&la, &lb, &rem, &add) {
        return fail(format!("the lines reported do not turn the first file into the second\n{}", show()));
    }
    Ok(())
}

pub fn c30(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let seq = |c: &mut Chooser, max: usize, k: usize| -> Vec<usize> {
        let n = c.pick(max + 1);
        (0..n).map(|_| c.pick(k)).collect()
    };
    let join = |v: &[usize]| v.iter().map(|i| format!("{}\n", LINES[*i])).collect::<String>();
    match c.pick(10) {
        9 => {
            // lines of texts that mean something elsewhere, and of their relatives
            let all = crate::names::texts();
            let s = c.of(&all).clone();
            let mut r = crate::names::relatives(&s);
            r.insert(0, s.clone());
            let step = if th { 1 } else { 4 };
            let r = r[c.pick(r.len().div_ceil(step)) * step].clone();
            let form = c.pick(5);
            let frame = c.flag();
            x.go(c)?;
            x.state(&(9, &s, &r, form, frame));
            let line = |s: &str| match form {
                0 => format!("\"k\" \"{}\"", s),
                1 => format!("\"{}\" \"v\"", s),
                2 => format!("// {}", s),
                3 => format!("( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) {} 0 0 0 1 1", s),
                _ => s.to_string(),
            };
            let wrap = |s: &str| if frame { format!("{{\n{}\n}}\n", line(s)) } else { format!("{}\n", line(s)) };
            diff_case(x, &wrap(&s), &wrap(&r))
        }
        8 => {
            // long files: runs of lines removed, added, doubled, replaced or moved
            let n = *c.of(if th { &[60usize, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513, 700][..] } else { &[60usize, 127, 129, 140, 257, 300][..] });
            let per = *c.of(&[usize::MAX, 1, 2, 6, 50]);
            let what = c.pick(6);
            let at = c.pick(7);
            // by long runs common lines come to lie far apart
            let run = *c.of(if n < 100 || th { &[1usize, 2, 3, 40, 150, 300, 1100][..] } else { &[1usize, 2, 3, 40, 150][..] });
            let swap = c.flag();
            x.go(c)?;
            x.state(&(8, n, per, what, at, run, swap));
            let line = |i: usize| if i % per % 5 == 4 { format!("\"k{}\" \"v\"", i % per) } else { format!("// {}", i % per) };
            let base: Vec<String> = (0..n).map(line).collect();
            let at = [0, 1, n / 3, n / 2, n - 3, n - 1, n][at];
            let end = (at + run).min(n);
            let mut v = base.clone();
            match what {
                0 => drop(v.drain(at..end)),
                1 => drop(v.splice(at..at, (0..run).map(|i| format!("// new {}", i)))),
                2 => drop(v.splice(at..at, base[at..end].to_vec())),
                3 => drop(v.splice(at..end, (0..run).map(|i| format!("// new {}", i % 2)))),
                4 => {
                    let r: Vec<String> = v.drain(at..end).collect();
                    v.extend(r);
                }
                _ => {
                    v.drain(at..end);
                    v.insert(0, "// first".into());
                    v.push("// last".into());
                }
            }
            let (a, b) = (base.join("\n"), v.join("\n"));
            if swap { diff_case(x, &b, &a) } else { diff_case(x, &a, &b) }
        }
        7 => {
            // lines that are nearly the same, alone and among others
            const NEAR: [&str; 30] = [
                "\"k\" \"v\"", "\"k\" \"v \"", "\"k\" \" v\"", "\"k\" \"V\"", "\"K\" \"v\"", "\"k \" \"v\"", "\"k\" \"v\" \"w\"", "\"k\"", "\"v\" \"k\"", "\"k\" \"\"",
                "\"k\" \"1\"", "\"k\" \"1.0\"", "\"k\" \"01\"", "\"k\"  \"v\"", "\"kv\" \"\"", "\"\" \"kv\"",
                "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t 0 0 0 1 1", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) T 0 0 0 1 1", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t 0 0 0 1 1 ", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t 0 0 0 1 1.0", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t 0 0 0 1 2",
                "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) t 0 0 0 1 1", "// c", "// c ", "//c", "// C", "// \"k\" \"v\"", "k v", " k v", "K v",
            ];
            let a = c.pick(NEAR.len());
            let b = c.pick(NEAR.len());
            let frame = c.pick(3);
            let both = c.pick(3);
            x.go(c)?;
            x.state(&(7, a, b, frame, both));
            let wrap = |v: &[&str]| match frame {
                0 => v.iter().map(|l| format!("{}\n", l)).collect::<String>(),
                1 => format!("{{\n{}\n}}\n", v.join("\n")),
                _ => format!("{{\n\"classname\" \"x\"\n{}\n{}\n}}\n", v.join("\n"), NEAR[(a + b) % NEAR.len()]),
            };
            let (a, b) = (NEAR[a], NEAR[b]);
            let (va, vb) = match both {
                0 => (vec![a], vec![b]),
                1 => (vec![a, b], vec![b, a]),
                _ => (vec![a, b, a], vec![b]),
            };
            diff_case(x, &wrap(&va), &wrap(&vb))
        }
        0 => {
            let (n, k) = if th { (4, 6) } else { (3, 6) };
            let a = seq(c, n, k);
            let b = seq(c, n, k);
            x.go(c)?;
            x.state(&(&a, &b));
            diff_case(x, &join(&a), &join(&b))
        }
        1 => {
            let (n, k) = if th { (7, 2) } else { (5, 2) };
            let a = seq(c, n, k);
            let b = seq(c, n, k);
            let from = *c.of(&[2usize, 6]);
            x.go(c)?;
            let a: Vec<usize> = a.iter().map(|i| i + from).collect();
            let b: Vec<usize> = b.iter().map(|i| i + from).collect();
            x.state(&(&a, &b));
            diff_case(x, &join(&a), &join(&b))
        }
        2 => {
            let (n, k) = if th { (5, 3) } else { (4, 3) };
            let a = seq(c, n, k);
            let b = seq(c, n, k);
            x.go(c)?;
            let a: Vec<usize> = a.iter().map(|i| i * 2 + 3).collect();
            let b: Vec<usize> = b.iter().map(|i| i * 2 + 3).collect();
            x.state(&(&a, &b));
            diff_case(x, &join(&a), &join(&b))
        }
        3 => {
            // every alphabet pair, line ends
            let a = seq(c, 2, 10);
            let b = seq(c, 2, 10);
            let e = (*c.of(&["\n", "\r\n"]), c.flag());
            let f = (*c.of(&["\n", "\r\n"]), c.flag());
            x.go(c)?;
            x.state(&(&a, &b, &e, &f));
            let j = |v: &[usize], e: (&str, bool)| {
                let mut s = v.iter().map(|i| LINES[*i]).collect::<Vec<_>>().join(e.0);
                if e.1 && !v.is_empty() {
                    s += e.0;
                }
                s
            };
            diff_case(x, &j(&a, e), &j(&b, f))
        }
        4 => {
            // one or two edits at every place of a longer file
            let n = [1usize, 2, 3, 8, 21, if th { 60 } else { 40 }][c.pick(6)];
            let per = 1 + c.pick(4);
            let distinct = c.flag();
            let base: Vec<String> = (0..n).map(|i| if distinct { format!("// {}", i) } else { LINES[i % per.max(1)].into() }).collect();
            let e1 = (c.pick(4), c.pick(n + 1));
            let two = n <= 21 && c.flag();
            let e2 = if two { (c.pick(4), c.pick(n + 1)) } else { (9, 0) };
            x.go(c)?;
            x.state(&(n, per, distinct, e1, e2));
            let mut v = base.clone();
            for (k, p) in [e1, e2] {
                let p = p.min(v.len());
                match k {
                    0 => v.insert(p, "new".into()),
                    1 if p < v.len() => {
                        v.remove(p);
                    }
                    2 if p < v.len() => v[p] = "new".into(),
                    3 if p < v.len() => {
                        let l = v.remove(p);
                        v.push(l);
                    }
                    _ => {}
                }
            }
            diff_case(x, &base.join("\n"), &v.join("\n"))
        }
        5 => {
            // whole maps against each other
            let maps = super::p_text::rich_maps();
            let a = c.pick(5);
            let b = c.pick(5);
            let cut = c.pick(4);
            x.go(c)?;
            x.state(&(5, a, b, cut));
            let t = |k: usize| if k == 4 { String::new() } else { text(&maps[k]) };
            let (ta, tb) = (t(a), t(b));
            let tb: String = tb.lines().skip(cut).map(|l| format!("{}\n", l)).collect();
            diff_case(x, &ta, &tb)
        }
        _ => {
            // files that cannot be read
            let what = c.pick(3);
            let side = c.pick(3);
            x.go(c)?;
            x.state(&(6, what, side));
            let good = put(x, "a.map", b"{\n}\n");
            let bad = match what {
                0 => x.scratch.join(format!("{}-missing.map", x.worker)).to_str().unwrap().to_string(),
                1 => x.scratch.to_str().unwrap().to_string(),
                _ => put(x, "b.map", &[b'{', b'\n', 0xff, 0xfe, b'\n']),
            };
            let (a, b) = [(bad.clone(), good.clone()), (good.clone(), bad.clone()), (bad.clone(), bad.clone())][side].clone();
            x.last_input = format!("{} {}", a, b).into_bytes();
            x.stats.impl_calls += 1;
            let (r, _) = sys::capture_stdout(|| std::panic::catch_unwind(|| quarchitect::run_diff(&a, &b).map_err(|e| e.to_string())).map_err(panic_text));
            match r {
                Err(p) => fail(format!("comparing panicked: {}", p)),
                Ok(Ok(())) => fail("success reported although a file cannot be read"),
                Ok(Err(_)) => Ok(()),
            }
        }
    }
}
