//! C21 - C26: WAD files and palettes; C23 also covers maps.
use super::corpus::*;
use super::p_text::*;
use crate::explore::*;
use crate::lib_run::*;
use crate::map;
use crate::sys::{self, Fault, Op};
use crate::wadgen::*;
use std::sync::OnceLock;

fn brief(t: &RefTex) -> String {
    let h: Vec<String> = t.mips.iter().map(|m| format!("{}:{:08x}", m.len(), hash_of(m) as u32)).collect();
    format!("{} {}x{} offsets {:?} levels {:?} palette {}", t.name, t.w, t.h, t.off, h, t.palette.as_ref().map(|p| format!("{:08x}", hash_of(p) as u32)).unwrap_or("none".into()))
}
fn compare(got: &[RefTex], want: &[RefTex], offsets: bool) -> R {
    if got.len() != want.len() {
        return fail(format!("{} textures instead of {}: {:?}", got.len(), want.len(), got.iter().map(|t| &t.name).collect::<Vec<_>>()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let mut g = g.clone();
        if !offsets {
            g.off = w.off;
        }
        if &g != w {
            return fail(format!("texture {} is\n {}\ninstead of\n {}", i, brief(&g), brief(w)));
        }
    }
    Ok(())
}
fn read_ok(x: &mut Ctx, bytes: &[u8], list: Option<&[String]>, levels: usize) -> Result<Vec<RefTex>, Stop> {
    x.last_input = bytes.to_vec();
    let p = put(x, "in.wad", bytes);
    x.stats.impl_calls += 1;
    match read(&p, list, levels) {
        Ok(Ok(v)) => {
            x.outcome(&v);
            Ok(v)
        }
        Ok(Err(e)) => fail(format!("reading a well-formed WAD failed: {}", e)),
        Err(p) => fail(format!("reading a well-formed WAD panicked: {}", p)),
    }
}

const SIDES: [u32; 6] = [16, 8, 32, 24, 64, 40];

fn other(i: usize) -> Lump {
    let ty = [b'B', b'@', b'E', 0, 0xff, b'c'][i % 6];
    Lump::Other(ty, format!("lump{}", i).into_bytes(), (0..(i * 37 % 90)).map(|k| k as u8).collect())
}

// ------------------------------------------------------------------------------------------ C21

pub fn c21(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let levels;
    let wad = match c.pick(7) {
        6 => return c21_far(c, x),
        5 => {
            // names beyond ASCII: every byte is a character of Latin-1
            let wad3 = c.flag();
            let b = 0x80 + c.pick(128) as u8;
            let at = c.pick(3);
            let other = *c.of(&[b'A', 0xc9, 0xe9, 0xff]);
            levels = 1;
            let mut name = vec![other; 3];
            name[at] = b;
            let mut t = Tex::new("", 16, 8, 5);
            t.name = name;
            Wad::of(wad3, vec![t, Tex::new("b", 8, 8, 6)])
        }
        0 => {
            // one texture in every layout
            let wad3 = c.flag();
            let mut t = Tex::new(*c.of(&["t", "BIG_Name15chars", "{Fence~+0!"]), SIDES[c.pick(6)], SIDES[c.pick(6)], c.pick(2) as u32);
            t.layout = c.pick(4);
            let mut w = Wad::of(wad3, vec![t]);
            w.dir = c.pick(3);
            w.gap = *c.of(&[0usize, 1, 7]);
            w.dirt = c.flag();
            levels = 1 + c.pick(4);
            w
        }
        1 => {
            // several lumps of both kinds in every order
            let wad3 = c.flag();
            let n = c.pick(if th { 5 } else { 4 });
            let mut lumps = Vec::new();
            for i in 0..n {
                if c.pick(3) == 2 {
                    lumps.push(other(i + 1));
                } else {
                    let mut t = Tex::new(&format!("tex{}", i), SIDES[i], SIDES[(i + 1) % 4], i as u32);
                    t.layout = i % 4;
                    lumps.push(Lump::Tex(t));
                }
            }
            let order = permutation(c, n);
            let mut w = Wad::new(wad3, lumps);
            w.order = order;
            w.dir = c.pick(3);
            w.gap = c.pick(2) * 5;
            levels = 1 + c.pick(4);
            w
        }
        2 => {
            // all types of other lumps, between textures
            let ty = c.pick(256) as u8;
            let wad3 = c.flag();
            let at = c.pick(3);
            let content = c.pick(2);
            levels = 1 + c.pick(4);
            if ty == b'C' || ty == b'D' {
                x.go(c)?;
                return Err(Stop::Prune);
            }
            let mut w = Wad::of(wad3, vec![Tex::new("aa", 16, 16, 1), Tex::new("bb", 8, 32, 2)]);
            // even one that looks like a texture inside
            let data = if content == 0 { vec![1, 2, 3] } else { Wad::of(wad3, vec![Tex::new("cc", 16, 16, 3)]).bytes()[12..].to_vec() };
            w.lumps.insert(at, Lump::Other(ty, b"cc".to_vec(), data));
            w.order = vec![0, 1, 2];
            w
        }
        3 => {
            // names
            const CH: [&str; 8] = ["a", "Z", "0", "_", "-", "+", "{", "~"];
            let wad3 = c.flag();
            let len = 1 + c.pick(16);
            let k = c.pick(8);
            let k2 = c.pick(8);
            let dirt = c.flag();
            levels = 1 + c.pick(2) * 3;
            let name: String = (0..len).map(|i| CH[if i == len - 1 { k2 } else { (k + i * (k % 3)) % 8 }]).collect();
            let mut w = Wad::of(wad3, vec![Tex::new(&name, 16, 8, 5), Tex::new("b", 8, 8, 6)]);
            w.dirt = dirt;
            w
        }
        _ => {
            // many entries, and big textures
            let wad3 = c.flag();
            levels = 1 + c.pick(4);
            if c.flag() {
                let n = c.pick(if th { 200 } else { 72 });
                let mut w = Wad::of(wad3, (0..n).map(|i| Tex::new(&format!("t{}", i), 8 << (i % 3), 8 << (i / 3 % 2), i as u32)).collect());
                if n % 2 == 0 {
                    w.order.reverse();
                }
                w.dir = n % 3;
                w
            } else {
                let side = [64, 128, 200, 256, 512, 1024];
                let a = c.pick(if th { 6 } else { 5 });
                let b = c.pick(if th { 6 } else { 4 });
                let (a, b) = if b == 3 && a == 4 { (5, 5) } else { (a, b) };
                Wad::of(wad3, vec![Tex::new("big", side[a], side[b], 3), Tex::new("next", 16, 16, 4)])
            }
        }
    };
    x.go(c)?;
    x.state(&(&wad, levels));
    let got = read_ok(x, &wad.bytes(), None, levels)?;
    compare(&got, &wad.expect(None, levels), true)
}

/// WADs of gigabytes: parts of the file lie behind 2 GiB, up to 4 GiB
fn c21_far(c: &mut Chooser, x: &mut Ctx) -> R {
    use std::os::unix::fs::FileExt;
    let wad3 = c.flag();
    // which parts: all, the directory, the first texture, the last level of the second
    let part = c.pick(if wad3 { 4 } else { 1 });
    let at = if wad3 && part == 0 { c.pick(3) } else { 2 };
    x.go(c)?;
    x.state(&("far", wad3, part, at));
    let mut w = Wad::of(wad3, vec![Tex::new("aa", 16, 16, 1), Tex::new("bb", 8, 32, 2)]);
    w.dir = 2;
    let (mut b, p) = w.build();
    let len = b.len() as u64;
    let by = [(1u64 << 31) - 200, 1 << 31, (1 << 32) - len - 1][at];
    let mut want = w.expect(None, 4);
    // (bytes, where)
    let mut parts: Vec<(Vec<u8>, u64)> = Vec::new();
    let move_by = |b: &mut [u8], i: usize, by: u64| {
        let old = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        b[i..i + 4].copy_from_slice(&((old as u64 + by) as u32).to_le_bytes());
    };
    match part {
        0 => {
            for i in [8, p.dir, p.dir + 32] {
                move_by(&mut b, i, by);
            }
            parts.push((b.split_off(12), 12 + by));
        }
        1 => {
            move_by(&mut b, 8, by);
            parts.push((b.split_off(p.dir), p.dir as u64 + by));
        }
        2 => {
            move_by(&mut b, p.dir, by);
            let l = b[p.lump[0]..p.lump[0] + p.len[0]].to_vec();
            b[p.lump[0]..p.lump[0] + p.len[0]].fill(0x55);
            parts.push((l, p.lump[0] as u64 + by));
        }
        _ => {
            let l = p.lump[1];
            let from = want[1].off[3] as usize + l;
            let to = l + p.len[1];
            let s = b[from..to].to_vec();
            b[from..to].fill(0x55);
            move_by(&mut b, l + 36, by);
            move_by(&mut b, p.dir + 36, by);
            move_by(&mut b, p.dir + 40, by);
            want[1].off[3] = want[1].off[3].wrapping_add(by as u32);
            parts.push((s, from as u64 + by));
        }
    }
    parts.push((b, 0));
    x.last_input = parts.last().unwrap().0.clone();
    let name = put(x, "far.wad", b"");
    {
        let f = std::fs::OpenOptions::new().write(true).open(&name).expect("scratch file");
        for (b, at) in &parts {
            f.write_all_at(b, *at).expect("scratch file");
        }
    }
    x.stats.impl_calls += 1;
    // one at a time: a reader may well hold the whole file
    let lock = x.scratch.join("far.lock");
    let got = crate::sys::alone_with_space(&lock, || read(&name, None, 4));
    let _ = std::fs::remove_file(&name);
    match got {
        Ok(Ok(v)) => {
            x.outcome(&v);
            compare(&v, &want, true)
        }
        Ok(Err(e)) => fail(format!("reading a WAD with parts behind {} failed: {}", by, e)),
        Err(p) => fail(format!("reading a WAD with parts behind {} panicked: {}", by, p)),
    }
}

// ------------------------------------------------------------------------------------------ C25

pub fn c25(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    const NAMES: [&str; 5] = ["aa", "aab", "b", "Wall1", "sixteen_chars_xy"];
    let wad3 = c.flag();
    let levels = [1, 4][c.pick(2)];
    let (wad, list) = match c.pick(5) {
        4 => {
            // names that mean something elsewhere, and their relatives
            let fits = |s: &String| s.is_ascii() && s.len() <= 15 && !s.is_empty();
            let mut odd: Vec<String> = crate::names::odd().into_iter().filter(fits).collect();
            odd.extend(["+0Fan_wall/1", "*Water1", "{FENCE_2", "a b", " a", "a "].map(String::from));
            let n = c.of(&odd).clone();
            let rel: Vec<String> = crate::names::relatives(&n).into_iter().filter(fits).collect();
            let r = c.of(&rel).clone();
            let flip = c.flag();
            let ask = c.pick(3);
            let mut l = vec![Tex::new(&n, 16, 8, 1), Tex::new(&r, 8, 24, 2)];
            if flip {
                l.reverse();
            }
            (Wad::of(wad3, l), [vec![n.clone()], vec![r.clone()], vec![r, n]][ask].clone())
        }
        3 => {
            // names that resemble each other
            const NEAR: [&str; 14] = ["wall1", "WALL1", "Wall1", "wall1 ", " wall1", "wall", "wall12", "wal1", "{wall1", "+0wall1", "*wall1", "wall_1", "sixteen_letters", "sixteen_letters_"];
            let (a, b) = (c.pick(14), c.pick(14));
            let d = c.pick(if th { 14 } else { 1 });
            let (p, q) = (c.pick(14), c.pick(15));
            let lumps = [a, b, d].iter().take(if th { 3 } else { 2 }).enumerate().map(|(i, k)| Tex::new(NEAR[*k], SIDES[i], SIDES[i + 1], i as u32)).collect();
            let mut list = vec![NEAR[p].to_string()];
            list.extend(NEAR.get(q).map(|n| n.to_string()));
            (Wad::of(wad3, lumps), list)
        }
        0 => {
            // all directories x all lists
            let n = c.pick(if th { 5 } else { 4 });
            let mut lumps = Vec::new();
            for i in 0..n {
                match c.pick(if n < 4 { 6 } else { 4 }) {
                    // names may repeat
                    k if k < 3 => lumps.push(Lump::Tex(Tex::new(NAMES[[0, 1, 3][k]], SIDES[i % 4], 16, i as u32))),
                    3 => lumps.push(Lump::Other(b'B', b"aa".to_vec(), vec![0; 50])),
                    4 => lumps.push(Lump::Other(b'@', b"b".to_vec(), vec![])),
                    _ => lumps.push(Lump::Tex(Tex::new(NAMES[4], 8, 8, i as u32))),
                }
            }
            const ASK: [&str; 8] = ["aa", "aab", "Wall1", "sixteen_chars_xy", "b", "a", "", "sixteen_chars_xyz"];
            let m = c.pick(if th && n < 4 { 4 } else { 3 });
            let list: Vec<String> = (0..m).map(|_| ASK[c.pick(8)].to_string()).collect();
            (Wad::new(wad3, lumps), list)
        }
        1 => {
            // every subset of five stored names, in both list orders, over every layout
            let set = c.pick(32);
            let rev = c.flag();
            let dirt = c.flag();
            let dir = c.pick(3);
            let turn = c.pick(5);
            let mut lumps: Vec<Lump> = (0..5).map(|i| Lump::Tex(Tex::new(NAMES[i], SIDES[i % 5], SIDES[(i + 2) % 5], i as u32))).collect();
            lumps.rotate_left(turn);
            lumps.insert(2, other(3));
            let mut w = Wad::new(wad3, lumps);
            w.order.reverse();
            w.dirt = dirt;
            w.dir = dir;
            let mut list: Vec<String> = (0..5).filter(|i| set >> i & 1 == 1).map(|i| NAMES[i].to_string()).collect();
            if rev {
                list.reverse();
            }
            (w, list)
        }
        _ => {
            // long lists over long directories
            let n = 1 + c.pick(if th { 120 } else { 60 });
            let step = 1 + c.pick(6);
            let from = c.pick(3);
            let w = Wad::of(wad3, (0..n).map(|i| Tex::new(&format!("n{}", i), 8, 8, i as u32)).collect());
            let list: Vec<String> = (0..n + 3).filter(|i| i % step == from.min(step - 1)).map(|i| format!("n{}", i)).collect();
            (w, list)
        }
    };
    x.go(c)?;
    x.state(&(&wad, &list, levels));
    let b = wad.bytes();
    let want = wad.expect(Some(&list), levels);
    let got = read_ok(x, &b, Some(&list), levels)?;
    compare(&got, &want, true)?;
    // as without a list
    let all = read_ok(x, &b, None, levels)?;
    let stored: Vec<&Tex> = wad.lumps.iter().filter_map(|l| if let Lump::Tex(t) = l { Some(t) } else { None }).collect();
    let sel: Vec<RefTex> = all.into_iter().zip(&stored).filter(|(_, t)| list.iter().any(|n| n.as_bytes() == &t.name[..])).map(|p| p.0).collect();
    compare(&got, &sel, true)
}

// ------------------------------------------------------------------------------------------ C24

fn damaged(k: usize) -> Wad {
    let t = |n: &str, w, h, s| Tex::new(n, w, h, s);
    match k {
        0 => Wad::of(true, vec![t("aa", 8, 8, 1), t("bb", 16, 8, 2)]),
        1 => Wad::of(false, vec![t("aa", 8, 8, 1), t("bb", 16, 8, 2)]),
        2 => {
            let mut w = Wad::of(true, vec![t("aa", 16, 8, 1), t("bb", 8, 8, 2)]);
            w.lumps.insert(1, other(2));
            w.order = vec![2, 0, 1];
            w.dir = 0;
            w
        }
        3 => {
            let mut w = Wad::of(false, vec![t("aa", 8, 16, 1)]);
            w.lumps.push(other(1));
            w.order = vec![1, 0];
            w.dir = 1;
            w
        }
        4 => Wad::of(true, vec![]),
        _ => {
            let mut a = t("aa", 8, 8, 3);
            a.layout = 2;
            let mut w = Wad::of(true, vec![a]);
            w.gap = 3;
            w
        }
    }
}

fn limit_memory() {
    static DONE: std::sync::Once = std::sync::Once::new();
    // address space: an allocation sized by a bogus field must not go through
    DONE.call_once(|| crate::sys::limit_space(3 << 30));
}

fn judge(x: &mut Ctx, b: &[u8], list: Option<&[String]>, levels: usize) -> R {
    limit_memory();
    x.last_input = b.to_vec();
    let p = put(x, "in.wad", b);
    x.stats.impl_calls += 1;
    let got = match read(&p, list, levels) {
        Ok(g) => g,
        Err(p) => return fail(format!("reading a damaged WAD panicked: {}", p)),
    };
    x.outcome(&got.as_ref().map_err(|_| ()));
    match (decode(b, list, levels), got) {
        (Verdict::Ok(w), Ok(g)) => compare(&g, &w, true),
        (Verdict::Ok(_), Err(e)) => fail(format!("everything is in place but reading failed: {}", e)),
        (Verdict::Err, Err(_)) => Ok(()),
        (Verdict::Err, Ok(g)) => fail(format!("{} textures of a WAD that lacks the data for them", g.len())),
        (Verdict::Either(w), Ok(g)) => compare(&g, &w, true),
        (Verdict::Either(_), Err(_)) | (Verdict::Any, _) => Ok(()),
    }
}

/// positions of the 4-byte integer fields, and of the type bytes
fn fields(w: &Wad) -> (Vec<usize>, Vec<usize>) {
    let (_, p) = w.build();
    let mut f = vec![4, 8];
    let mut t = vec![];
    for (i, l) in w.lumps.iter().enumerate() {
        let e = p.dir + 32 * i;
        f.extend([e, e + 4, e + 8]);
        t.push(e + 12);
        if let Lump::Tex(_) = l {
            f.extend((0..6).map(|k| p.lump[i] + 16 + 4 * k));
        }
    }
    (f, t)
}
const NVAL: usize = 30;
fn value(k: usize, old: u32, len: u32) -> u32 {
    match k {
        0 => 0,
        1 => 0xffff_ffff,
        2 => len,
        3 => old.wrapping_add(1),
        4 => 0x8000_0000,
        5 => old.wrapping_add(8),
        6 => len.wrapping_sub(1),
        7 => len + 1,
        8 => 0x7fff_ffff,
        9 => old.wrapping_sub(1),
        10 => 1,
        11 => 8,
        12 => 16,
        13 => 64,
        14 => 65536,
        15 => 0xffff_fff8,
        16 => old.wrapping_mul(2),
        17 => old / 2,
        18 => 0u32.wrapping_sub(old),
        19 => len.saturating_sub(12),
        20 => len.saturating_sub(40),
        21 => len.saturating_sub(768),
        22 => 0x4000_0000,
        23 => 0x0001_0000 + old,
        24 => old.swap_bytes(),
        25 => 24,
        26 => 40,
        27 => 12,
        28 => len.saturating_sub(32),
        _ => 4,
    }
}

pub fn c24(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    let kind = c.pick(8);
    let nw = 6;
    let lists: [Option<Vec<String>>; 3] = [None, Some(vec!["aa".into()]), Some(vec!["bb".into()])];
    match kind {
        0 => {
            // every truncation
            let k = c.pick(nw);
            let w = damaged(k);
            let b = w.bytes();
            let levels = [1, 4, 2, 3][c.pick(if th { 4 } else { 2 })];
            let l = c.pick(3);
            let n = c.pick(b.len());
            x.go(c)?;
            x.state(&(0, k, levels, l, n));
            judge(x, &b[..n], lists[l].as_deref(), levels)
        }
        1 => {
            // one field wrong
            let k = c.pick(nw);
            let w = damaged(k);
            let mut b = w.bytes();
            let (f, _) = fields(&w);
            let at = f[c.pick(f.len())];
            let v = c.pick(NVAL);
            let levels = 1 + c.pick(4);
            let l = c.pick(3);
            x.go(c)?;
            x.state(&(1, k, at, v, levels, l));
            let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            let nv = value(v, old, b.len() as u32);
            b[at..at + 4].copy_from_slice(&nv.to_le_bytes());
            judge(x, &b, lists[l].as_deref(), levels)
        }
        2 => {
            // two fields wrong
            let k = c.pick(nw);
            let w = damaged(k);
            let mut b = w.bytes();
            let (f, _) = fields(&w);
            let i = c.pick(f.len());
            let nv = if th { NVAL } else { 12 };
            let v = c.pick(nv);
            let left = f.len() - i - 1;
            if left == 0 {
                x.go(c)?;
                return Err(Stop::Prune);
            }
            let j = i + 1 + c.pick(left);
            let v2 = c.pick(nv);
            let levels = [1, 4][c.pick(2)];
            x.go(c)?;
            x.state(&(2, k, i, v, j, v2, levels));
            let len = b.len() as u32;
            for (q, v) in [(i, v), (j, v2)] {
                let at = f[q];
                let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let nv = value(v, old, len);
                b[at..at + 4].copy_from_slice(&nv.to_le_bytes());
            }
            judge(x, &b, None, levels)
        }
        3 => {
            // any byte outside the pixels wrong
            let k = c.pick(nw);
            let w = damaged(k);
            let (mut b, p) = w.build();
            let mut pos: Vec<usize> = (0..12).collect();
            pos.extend(p.dir..p.dir + 32 * w.lumps.len());
            for (i, l) in w.lumps.iter().enumerate() {
                if let Lump::Tex(_) = l {
                    pos.extend(p.lump[i]..p.lump[i] + 40);
                }
            }
            let at = pos[c.pick(pos.len())];
            let v = c.pick(8);
            let levels = [1, 4][c.pick(2)];
            let l = c.pick(3);
            x.go(c)?;
            x.state(&(3, k, at, v, levels, l));
            b[at] = match v {
                0 => 0,
                1 => 1,
                2 => 0x7f,
                3 => 0x80,
                4 => 0xff,
                5 => b[at] ^ 1,
                6 => b[at].wrapping_add(8),
                _ => b'3',
            };
            judge(x, &b, lists[l].as_deref(), levels)
        }
        4 => {
            // a field wrong in a truncated file
            let k = c.pick(nw);
            let w = damaged(k);
            let mut b = w.bytes();
            let (f, _) = fields(&w);
            let at = f[c.pick(f.len())];
            let v = c.pick(if th { NVAL } else { 8 });
            let cut = c.pick(if th { 60 } else { 16 });
            x.go(c)?;
            x.state(&(4, k, at, v, cut));
            let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            let nv = value(v, old, b.len() as u32);
            b[at..at + 4].copy_from_slice(&nv.to_le_bytes());
            let n = b.len() * (cut + 1) / (if th { 61 } else { 17 });
            judge(x, &b[..n], None, 4)
        }
        5 => {
            // magics
            const M: [&[u8; 4]; 12] = [b"WAD2", b"WAD3", b"WAD1", b"WAD4", b"wad3", b"WAD ", b"PACK", b"\0\0\0\0", b"3DAW", b"WA3D", b"\xff\xff\xff\xff", b"IWAD"];
            let m = c.pick(15);
            let k = c.pick(nw);
            let mut magic = [0; 4];
            match m {
                // one byte changed, or two
                12 | 13 => {
                    magic = *[b"WAD2", b"WAD3"][m - 12];
                    let at = c.pick(4);
                    magic[at] = c.pick(256) as u8;
                    if c.flag() {
                        let at = c.pick(4);
                        magic[at] = *c.of(b"\0 23wad");
                    }
                }
                // letter case, and other orders
                14 => {
                    let o = permutation(c, 4);
                    let up = c.pick(8);
                    let s = [*b"wad2", *b"wad3"][c.pick(2)];
                    for i in 0..4 {
                        magic[i] = if i < 3 && up >> i & 1 == 1 { s[o[i]].to_ascii_uppercase() } else { s[o[i]] };
                    }
                }
                _ => magic = *M[m],
            }
            let levels = if m < 12 { 1 + c.pick(4) } else { 1 };
            x.go(c)?;
            x.state(&(5, magic, k, levels));
            let w = damaged(k);
            let mut b = w.bytes();
            b[..4].copy_from_slice(&magic);
            judge(x, &b, None, levels)
        }
        6 => {
            // palettes of every length
            let n = c.pick(if th { 4000 } else { 1600 });
            x.go(c)?;
            x.state(&(6, n));
            let b: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            let p = put(x, "in.lmp", &b);
            x.stats.impl_calls += 1;
            match std::panic::catch_unwind(|| quarchitect::wad::palette::read_palette(&p)) {
                Err(p) => fail(format!("reading a palette of {} bytes panicked: {}", n, panic_text(p))),
                Ok(Ok(p)) if n >= 768 => {
                    let got: Vec<u8> = p.0.iter().flat_map(|c| [c.0, c.1, c.2]).collect();
                    if got != b[..768] {
                        return fail(format!("a palette of {} bytes has wrong entries", n));
                    }
                    Ok(())
                }
                Ok(Ok(_)) => fail(format!("a palette of {} bytes was accepted", n)),
                Ok(Err(_)) if n == 768 => fail("a palette of 768 bytes was refused"),
                Ok(Err(_)) => Ok(()),
            }
        }
        _ => {
            // no such file, a directory, an empty file
            let what = c.pick(3);
            let pal = c.flag();
            x.go(c)?;
            x.state(&(7, what, pal));
            let p = match what {
                0 => x.scratch.join("no-such-file.wad").to_str().unwrap().to_string(),
                1 => x.scratch.to_str().unwrap().to_string(),
                _ => put(x, "empty.wad", b""),
            };
            x.stats.impl_calls += 1;
            let r = if pal {
                std::panic::catch_unwind(|| quarchitect::wad::palette::read_palette(&p).map(|_| 0)).map_err(panic_text)
            } else {
                read(&p, None, 1).map(|r| r.map(|v| v.len()))
            };
            match r {
                Err(p) => fail(format!("panicked: {}", p)),
                Ok(Ok(_)) => fail("read something from nothing"),
                Ok(Err(_)) => Ok(()),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ C26

pub fn c26(c: &mut Chooser, x: &mut Ctx) -> R {
    use quarchitect::wad::mip_level::MipLevel;
    use quarchitect::wad::palette::{read_palette, Palette};
    use quarchitect::wad::{Color, MipDataIndexed, MipTexture, TextureIndexed};
    let th = x.thorough;
    let pal_bytes = |k: usize| -> Vec<u8> {
        (0..768)
            .map(|i| match k {
                0 => (i / 3 + i % 3 * 80) as u8,
                1 => 255 - (i / 3) as u8 ^ (i % 3) as u8,
                2 => (i * 11 + i / 256) as u8,
                3 => 0,
                // dark: no more than the low bits
                5 => (i * 7 % 64) as u8,
                6 => (i * 5 % 16) as u8,
                7 => (i % 2) as u8,
                8 => 255,
                _ => [(i / 3) as u8, 0, 255][i % 3],
            })
            .collect()
    };
    let pal = |k: usize| {
        let b = pal_bytes(k);
        let mut p = Palette([Color(0, 0, 0); 256]);
        for i in 0..256 {
            p.0[i] = Color(b[3 * i], b[3 * i + 1], b[3 * i + 2]);
        }
        p
    };
    match c.pick(3) {
        0 => {
            // every index at every level
            let have = c.pick(4); // levels beyond the first
            let own = c.pick(if th { 10 } else { 7 });
            let given = if th || own < 2 { c.pick(10) } else { c.pick(6) };
            let size = c.pick(if th { 6 } else { 4 });
            let pat = c.pick(if th { 8 } else { 4 });
            let name = *c.of(&["some name", "{fence", "+0anim", "*water", "!lava", "~light", "-0rnd", "sky1", ""]);
            x.go(c)?;
            x.state(&(0, have, own, given, size, pat, name));
            let (w, h) = [(16u32, 16u32), (64, 32), (128, 128), (8, 256), (256, 256), (512, 64)][size];
            let level = |i: usize| -> Vec<u8> {
                let n = ((w >> i) * (h >> i)) as usize;
                (0..n)
                    .map(|k| match pat {
                        0 => k as u8,
                        1 => 255 - k as u8,
                        2 => (k * 3 + i) as u8,
                        3 => (k / 2) as u8,
                        4 => 0,
                        5 => 255,
                        6 => (k * 129) as u8,
                        _ => (k / 256 + k) as u8,
                    })
                    .collect()
            };
            let opt = |i: usize| if have >= i { Some(MipLevel::new(level(i))) } else { None };
            let t = TextureIndexed::new(
                MipTexture { name: name.into(), width: w, height: h, offset1: 40, offset2: 41, offset4: 42, offset8: 43 },
                MipDataIndexed { mip0: MipLevel::new(level(0)), mip1: opt(1), mip2: opt(2), mip3: opt(3) },
                if own > 0 { Some(pal(own - 1)) } else { None },
            );
            let supplied = if given > 0 { Some(pal(given - 1)) } else { None };
            x.stats.impl_calls += 1;
            let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.into_rgb(supplied))) {
                Err(p) => return fail(format!("conversion panicked: {}", panic_text(p))),
                Ok(r) => r,
            };
            let use_pal = if own > 0 {
                pal(own - 1)
            } else if given > 0 {
                pal(given - 1)
            } else {
                return match r {
                    Ok(_) => fail("converted without any palette"),
                    Err(_) => Ok(()),
                };
            };
            let t = match r {
                Ok(t) => t,
                Err(e) => return fail(format!("conversion failed: {}", e)),
            };
            let m = &t.mip_texture;
            if (m.name.as_str(), m.width, m.height) != (name, w, h) {
                return fail(format!("{:?}", m));
            }
            let got = [Some(&t.mip_data.mip0), t.mip_data.mip1.as_ref(), t.mip_data.mip2.as_ref(), t.mip_data.mip3.as_ref()];
            for i in 0..4 {
                match (got[i], i <= have) {
                    (None, false) => {}
                    (Some(g), true) => {
                        let l = level(i);
                        if g.len() != l.len() {
                            return fail(format!("level {} has {} pixels instead of {}", i, g.len(), l.len()));
                        }
                        for (k, (a, b)) in g.iter().zip(&l).enumerate() {
                            let w = use_pal.0[*b as usize];
                            if (a.0, a.1, a.2) != (w.0, w.1, w.2) {
                                return fail(format!("level {} pixel {} with index {} is {:?} instead of {:?}", i, k, b, a, w));
                            }
                        }
                        x.outcome(&(i, l.len(), own, given));
                    }
                    (g, w) => return fail(format!("level {} present: {} instead of {}", i, g.is_some(), w)),
                }
            }
            Ok(())
        }
        1 => {
            // palette files
            let k = c.pick(9);
            let extra = *c.of(&[0usize, 1, 2, 3, 256, 768]);
            x.go(c)?;
            x.state(&(1, k, extra));
            let mut b = pal_bytes(k);
            b.extend(std::iter::repeat(0x5a).take(extra));
            let p = put(x, "in.lmp", &b);
            x.stats.impl_calls += 1;
            match std::panic::catch_unwind(|| read_palette(&p)) {
                Err(p) => fail(format!("panicked: {}", panic_text(p))),
                Ok(Err(e)) if extra == 0 => fail(format!("failed: {}", e)),
                Ok(Err(_)) => Ok(()),
                Ok(Ok(q)) => {
                    for i in 0..256 {
                        let g = q.0[i];
                        if [g.0, g.1, g.2] != b[3 * i..3 * i + 3] {
                            return fail(format!("entry {} is {:?} instead of {:?}", i, g, &b[3 * i..3 * i + 3]));
                        }
                    }
                    Ok(())
                }
            }
        }
        _ => {
            // from file to RGB: several textures, each with its own palette
            let wad3 = c.flag();
            let n = 1 + c.pick(if th { 6 } else { 4 });
            let levels = 1 + c.pick(4);
            let given = c.pick(10);
            x.go(c)?;
            x.state(&(2, wad3, n, levels, given));
            let w = Wad::of(wad3, (0..n).map(|i| Tex::new(&format!("t{}", i), SIDES[i % 5], SIDES[(i + 1) % 5], i as u32)).collect());
            let want = w.expect(None, levels);
            let p = put(x, "in.wad", &w.bytes());
            let t = match quarchitect::wad::read_textures(&p, None, levels) {
                Ok(t) => t,
                Err(e) => return fail(e),
            };
            for (i, t) in t.into_iter().enumerate() {
                x.stats.impl_calls += 1;
                let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.into_rgb(if given > 0 { Some(pal(given - 1)) } else { None }))) {
                    Err(p) => return fail(format!("conversion panicked: {}", panic_text(p))),
                    Ok(r) => r,
                };
                let pb = match (&want[i].palette, given) {
                    (Some(p), _) => p.clone(),
                    (None, 0) => {
                        if r.is_ok() {
                            return fail("converted without any palette");
                        }
                        continue;
                    }
                    (None, k) => pal_bytes(k - 1),
                };
                let r = match r {
                    Ok(r) => r,
                    Err(e) => return fail(e),
                };
                if r.mip_texture.name != want[i].name || r.mip_texture.width != want[i].w || r.mip_texture.height != want[i].h {
                    return fail(format!("{:?}", r.mip_texture));
                }
                let got = [Some(&r.mip_data.mip0), r.mip_data.mip1.as_ref(), r.mip_data.mip2.as_ref(), r.mip_data.mip3.as_ref()];
                for k in 0..4 {
                    match (got[k], want[i].mips.get(k)) {
                        (None, None) => {}
                        (Some(g), Some(m)) => {
                            let g: Vec<u8> = g.iter().flat_map(|c| [c.0, c.1, c.2]).collect();
                            let m: Vec<u8> = m.iter().flat_map(|j| pb[3 * *j as usize..3 * *j as usize + 3].to_vec()).collect();
                            if g != m {
                                return fail(format!("texture {} level {} has wrong colours", i, k));
                            }
                        }
                        _ => return fail(format!("texture {} level {} appeared or vanished", i, k)),
                    }
                }
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------ C22

fn pool(n: usize) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 9] = [const { OnceLock::new() }; 9];
    P[n].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())
}
fn scheduled_pool() -> &'static rayon::ThreadPool {
    static P: OnceLock<rayon::ThreadPool> = OnceLock::new();
    P.get_or_init(|| {
        let p = rayon::ThreadPoolBuilder::new().num_threads(3).start_handler(sys::register_pool_thread).build().unwrap();
        p.broadcast(|_| ());
        p
    })
}

pub fn c22(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    // controlled schedules first: what fails there fails again under the same schedule
    if c.pick(2) == 1 {
        // real threads, all pool sizes
        let size = 1 + c.pick(8);
        let wad3 = c.flag();
        let n = *c.of(&[1usize, 2, 3, 5, 8, 17, 40]);
        let levels = 1 + c.pick(4);
        let bad = c.pick(5);
        x.go(c)?;
        x.state(&(0, size, wad3, n, levels, bad));
        let w = Wad::of(wad3, (0..n).map(|i| Tex::new(&format!("t{}", i), SIDES[i % 5], SIDES[(i / 2) % 5], i as u32)).collect());
        let (mut b, p) = w.build();
        if bad > 0 {
            // the first, last or every texture lies outside
            for i in 0..n {
                if bad == 3 || (bad != 2 && i == 0) || (bad != 1 && i == n - 1) {
                    let at = p.lump[i] + 24;
                    b[at..at + 4].copy_from_slice(&0x00ff_ffffu32.to_le_bytes());
                }
            }
        }
        x.last_input = b.clone();
        let path = put(x, "in.wad", &b);
        // a replay goes on until it shows
        for _ in 0..if x.replaying { 2000 } else if th { 8 } else { 2 } {
            x.stats.impl_calls += 1;
            match pool(size).install(|| read(&path, None, levels)) {
                Err(p) => return fail(format!("panicked: {}", p)),
                Ok(Ok(v)) if bad == 0 => compare(&v, &w.expect(None, levels), true)?,
                Ok(Err(e)) if bad == 0 => return fail(format!("failed with {} threads: {}", size, e)),
                Ok(Ok(_)) => return fail("read a damaged WAD"),
                // which damaged texture it names may depend on the schedule
                Ok(Err(_)) => {}
            }
        }
        return Ok(());
    }
    // controlled schedules: choices first, then one run under that schedule
    let n = 2 + c.pick(2);
    let kind = c.pick(5); // WAD3, WAD2, first texture damaged, last texture damaged, both
    let levels = [1, 4][c.pick(2)];
    let order = c.pick(2);
    let allocs = c.flag();
    let steps = match (allocs, th) {
        (false, false) => 36,
        (false, true) => 60,
        (true, false) => 100,
        (true, true) => 160,
    };
    // up to two preemptions among the file operations, (one, thorough: two) with allocations
    let most = if allocs && !th { 1 } else { 2 };
    let k = c.pick(most + 1);
    let mut plan = Vec::new();
    let mut from = 0;
    for j in 0..k {
        let left = k - j - 1;
        let s = from + c.pick(steps - left - from);
        from = s + 1;
        plan.push(sys::Preemption { step: s, other: c.pick(n - 1) });
    }
    x.go(c)?;
    let w = Wad::of(kind != 1, (0..n).map(|i| Tex::new(&format!("t{}", i), 8 * (i as u32 + 1), 8, i as u32)).collect());
    let (mut b, p) = w.build();
    for i in 0..n {
        if (kind >= 2 && kind != 3 && i == 0) || (kind >= 3 && i == n - 1) {
            // the last level asked for lies outside
            let at = p.lump[i] + 20 + 4 * levels;
            b[at..at + 4].copy_from_slice(&0x00ff_ffffu32.to_le_bytes());
        }
    }
    x.last_input = b.clone();
    let path = put(x, "in.wad", &b);
    let pl = scheduled_pool();
    x.stats.impl_calls += 1;
    let (r, tr) = sys::with_schedule(&plan, order, allocs, || pl.install(|| read(&path, None, levels)));
    x.count("scheduling points granted", tr.grants.len() as u64);
    x.count("preemptions applied", tr.applied as u64);
    let r = match r {
        Err(p) => return fail(format!("panicked: {}", p)),
        Ok(r) => r,
    };
    x.outcome(&(n, kind, levels, r.as_ref().map_err(|_| ())));
    let res: R = match (kind >= 2, r) {
        (false, Ok(v)) => compare(&v, &w.expect(None, levels), true),
        (false, Err(e)) => fail(format!("failed: {}", e)),
        (true, Ok(_)) => fail("read a damaged WAD"),
        (true, Err(_)) => Ok(()),
    };
    if let Err(Stop::Fail { msg, .. }) = res {
        return fail(format!("{}\nschedule (thread, operation): {:?}", msg, tr.grants));
    }
    if tr.stuck {
        return fail("no thread could go on");
    }
    x.state(&(n, kind, levels, &tr.grants));
    if tr.applied < plan.len() {
        // the run was shorter, or only one thread could go on: the same as a smaller plan
        return Err(Stop::Prune);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ill {
    Err(i32),
    Short,
    Half,
    AllButOne,
    Zero,
}
const ILLS: [Ill; 9] = [Ill::Err(sys::EIO), Ill::Err(sys::EINTR), Ill::Short, Ill::Half, Ill::AllButOne, Ill::Zero, Ill::Err(sys::EACCES), Ill::Err(sys::EMFILE), Ill::Err(sys::ENOSPC)];

fn to_fault(i: Ill) -> Fault {
    match i {
        Ill::Err(e) => Fault::Errno(e),
        Ill::Short => Fault::Short(1),
        Ill::Half => Fault::Half,
        Ill::AllButOne => Fault::AllButOne,
        Ill::Zero => Fault::Zero,
    }
}

pub fn c23(c: &mut Chooser, x: &mut Ctx) -> R {
    let th = x.thorough;
    // what is loaded: maps, WADs at some levels, palettes; two maps to compare
    let target = c.pick(11);
    let steps = if target < 4 { 12 } else if target < 8 { 64 } else if target == 8 { 12 } else { 20 };
    let nill = if th { 9 } else { 6 };
    let mode = c.pick(4);
    let mut plan: Vec<(usize, Ill)> = Vec::new();
    match mode {
        0 => plan.push((c.pick(steps), ILLS[c.pick(9)])),
        1 => {
            let a = c.pick(steps - 1);
            let b = a + 1 + c.pick(steps - a - 1);
            plan.push((a, ILLS[c.pick(nill)]));
            plan.push((b, ILLS[c.pick(nill)]));
        }
        3 => {
            // interrupted several times on end
            let from = c.pick(steps);
            let run = *c.of(if th { &[2usize, 3, 4, 5, 6, 8, 9, 10, 11, 16, 17, 33, 65, 101, 200][..] } else { &[4usize, 11, 33, 101][..] });
            let then = c.pick(3);
            for k in from..from + run {
                plan.push((k, Ill::Err(sys::EINTR)));
            }
            match then {
                0 => {}
                1 => plan.push((from + run, Ill::Short)),
                _ => plan.push((from + run, Ill::Half)),
            }
        }
        _ => {
            // the same at every operation of a kind of positions
            let every = 1 + c.pick(3);
            let from = c.pick(every);
            let ill = *c.of(&[Ill::Short, Ill::Err(sys::EINTR), Ill::Half, Ill::AllButOne]);
            for k in 0..4000 {
                if k % every == from {
                    plan.push((k, ill));
                }
            }
            if matches!(ill, Ill::Err(_)) && every == 1 {
                // interrupted for ever is not a fault to be absorbed
                plan.truncate(300);
                plan.retain(|p| p.0 % 7 != 3);
            }
        }
    }
    x.go(c)?;
    x.state(&(target, mode, format!("{:?}", &plan[..plan.len().min(3)])));
    // short deliveries as of one byte at a time make loading slow; keep the inputs small
    let prefix = x.scratch.to_str().unwrap().to_string();
    let faults: Vec<(usize, Fault)> = plan.iter().map(|p| (p.0, to_fault(p.1))).collect();
    x.stats.impl_calls += 1;
    let desc;
    let is_map = target < 4 || target > 8;
    type Ans = Result<Result<Vec<u8>, String>, String>;
    let (got, want, trace): (Ans, Vec<u8>, Vec<(Op, usize)>);
    if target < 4 {
        let cfg = rich_cfg();
        let text = map::text(&rich_maps()[target]);
        desc = format!("map {}", target);
        let path = put(x, "in.map", text.as_bytes());
        x.last_input = text.into_bytes();
        want = match base(target + 2, || match run_config(config(&path, &cfg)) {
            Out::Tree(t) => Ok(exact(&t)),
            Out::Err(e) => Err(e),
            Out::Panic(p) => Err(p),
        }) {
            Ok(w) => w,
            Err(e) => return fail(e),
        };
        let q = config(&path, &cfg);
        let (r, t, _) = sys::with_faults(&prefix, &faults, || run_config(q));
        got = match r {
            Out::Tree(t) => Ok(Ok(exact(&t))),
            Out::Err(e) => Ok(Err(e)),
            Out::Panic(p) => Err(p),
        };
        trace = t;
    } else if target < 8 {
        let levels = [4, 1, 4, 3][target - 4];
        let w = match target {
            4 => Wad::of(true, vec![Tex::new("aa", 8, 8, 1), Tex::new("bb", 16, 8, 2)]),
            5 => Wad::of(true, vec![Tex::new("aa", 8, 8, 1), Tex::new("bb", 16, 8, 2)]),
            6 => damaged(3),
            _ => damaged(2),
        };
        desc = format!("WAD {:?}", w);
        let b = w.bytes();
        let path = put(x, "in.wad", &b);
        x.last_input = b;
        let code = |v: &[RefTex]| format!("{:?}", v).into_bytes();
        want = code(&w.expect(None, levels));
        let pl = pool(1);
        pl.install(|| ());
        let (r, t, _) = sys::with_faults(&prefix, &faults, || pl.install(|| read(&path, None, levels)));
        got = r.map(|r| r.map(|v| code(&v)));
        trace = t;
    } else if target > 8 {
        let m = rich_maps();
        let (a, b) = if target == 9 { (map::text(&m[0]), map::text(&m[1])) } else { (map::text(&m[2]), map::text(&m[2])) };
        desc = "comparison".to_string();
        let (pa, pb) = (put(x, "in.map", a.as_bytes()), put(x, "in2.map", b.as_bytes()));
        x.last_input = a.into_bytes();
        let diff = || std::panic::catch_unwind(|| quarchitect::run_diff(&pa, &pb).map_err(|e| e.to_string())).map_err(panic_text);
        want = match base(target - 9, || match sys::capture_stdout(diff) {
            (Ok(Ok(())), t) => Ok(t),
            (e, _) => Err(format!("{:?}", e)),
        }) {
            Ok(w) => w,
            Err(e) => return fail(e),
        };
        let ((r, t, _), out) = sys::capture_stdout(|| sys::with_faults(&prefix, &faults, diff));
        if !matches!(r, Ok(Ok(()))) && !out.is_empty() {
            return fail(format!("a comparison that failed printed {:?}", String::from_utf8_lossy(&out).chars().take(300).collect::<String>()));
        }
        got = r.map(|r| r.map(|_| out));
        trace = t;
    } else {
        desc = "palette".into();
        let b: Vec<u8> = (0..768).map(|i| (i * 7 + i / 256) as u8).collect();
        let path = put(x, "in.lmp", &b);
        x.last_input = b.clone();
        want = b;
        let (r, t, _) = sys::with_faults(&prefix, &faults, || std::panic::catch_unwind(|| quarchitect::wad::palette::read_palette(&path)).map_err(panic_text));
        got = r.map(|r| r.map(|p| p.0.iter().flat_map(|c| [c.0, c.1, c.2]).collect()));
        trace = t;
    }
    x.count("file operations", trace.len() as u64);
    if mode < 2 && plan.iter().any(|p| p.0 >= trace.len()) {
        return Err(Stop::Prune);
    }
    let mut must_fail = false;
    let mut may_fail = false;
    for (k, i) in &plan {
        let op = match trace.get(*k) {
            Some(o) => o.0,
            None => continue,
        };
        match (op, i) {
            (_, Ill::Err(sys::EINTR)) => may_fail |= op != Op::Read,
            // what a seek's failure means depends on what it was for
            (Op::Seek, Ill::Err(_)) => may_fail = true,
            (_, Ill::Err(_)) => must_fail = true,
            (Op::Read, Ill::Zero) => {
                if is_map {
                    // the same as a shorter file
                    return Err(Stop::Prune);
                }
                may_fail = true;
            }
            _ => {}
        }
    }
    x.outcome(&(target, got.is_ok(), got.as_ref().map(|g| g.is_ok()).unwrap_or(false)));
    let show = || format!("{} with faults {:?} at operations {:?}", desc, &plan[..plan.len().min(4)], plan.iter().take(4).map(|p| trace.get(p.0)).collect::<Vec<_>>());
    match got {
        Err(p) => fail(format!("panicked: {}\n{}", p, show())),
        Ok(Ok(_)) if must_fail => fail(format!("no error was returned\n{}", show())),
        Ok(Ok(g)) if g != want => fail(format!("wrong data was returned\n{}", show())),
        Ok(Err(e)) if !must_fail && !may_fail => fail(format!("an error was returned: {}\n{}", e, show())),
        _ => Ok(()),
    }
}

/// results without faults, computed once per process
fn base(k: usize, f: impl FnOnce() -> Result<Vec<u8>, String>) -> Result<Vec<u8>, String> {
    static B: [OnceLock<Result<Vec<u8>, String>>; 6] = [const { OnceLock::new() }; 6];
    B[k].get_or_init(f).clone()
}
