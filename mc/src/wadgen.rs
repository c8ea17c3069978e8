//! WAD files: a generator of well-formed ones and an independent reference decoder.

#[derive(Clone, Debug, Hash)]
pub struct Tex {
    pub name: Vec<u8>,
    pub w: u32,
    pub h: u32,
    /// what the pixels and the palette look like
    pub salt: u32,
    /// 0 contiguous, 1 gaps everywhere, 2 levels stored smallest first, 3 levels in order 1 0 2 3
    pub layout: usize,
}
#[derive(Clone, Debug, Hash)]
pub enum Lump {
    Tex(Tex),
    /// another kind of lump: type, name, bytes
    Other(u8, Vec<u8>, Vec<u8>),
}
#[derive(Clone, Debug, Hash)]
pub struct Wad {
    pub wad3: bool,
    /// in directory order
    pub lumps: Vec<Lump>,
    /// order of the lumps in the file
    pub order: Vec<usize>,
    /// directory before (0), among (1) or after (2) the lumps
    pub dir: usize,
    /// filler bytes between parts
    pub gap: usize,
    /// bytes after the terminating zero of names
    pub dirt: bool,
}

impl Tex {
    pub fn new(name: &str, w: u32, h: u32, salt: u32) -> Tex {
        Tex { name: name.as_bytes().to_vec(), w, h, salt, layout: 0 }
    }
    pub fn level(&self, i: usize) -> Vec<u8> {
        let n = (self.w >> i) * (self.h >> i);
        (0..n).map(|k| (k.wrapping_mul(7 + 2 * self.salt).wrapping_add(k >> 8).wrapping_add(self.salt * 29 + 64 * i as u32 + 1)) as u8).collect()
    }
    pub fn palette(&self) -> Vec<u8> {
        (0..768u32).map(|k| (k.wrapping_mul(5).wrapping_add(k / 256 * 3).wrapping_add(self.salt * 37 + 11)) as u8).collect()
    }
    /// the lump and the offsets of its levels
    fn bytes(&self, wad3: bool, dirt: bool) -> (Vec<u8>, [u32; 4]) {
        let mut b = vec![0u8; 40];
        b[..16].copy_from_slice(&name16(&self.name, dirt, 0x41));
        let mut off = [0u32; 4];
        let seq: [usize; 4] = match self.layout {
            0 | 1 => [0, 1, 2, 3],
            2 => [3, 2, 1, 0],
            _ => [1, 0, 2, 3],
        };
        for i in seq {
            if self.layout == 1 {
                b.extend(std::iter::repeat(0xee).take(3 + i));
            }
            off[i] = b.len() as u32;
            b.extend(self.level(i));
            if i == 3 && wad3 {
                b.extend([0, 1]);
                b.extend(self.palette());
            }
        }
        b[16..20].copy_from_slice(&self.w.to_le_bytes());
        b[20..24].copy_from_slice(&self.h.to_le_bytes());
        for i in 0..4 {
            b[24 + 4 * i..28 + 4 * i].copy_from_slice(&off[i].to_le_bytes());
        }
        (b, off)
    }
}

/// names are 8-bit characters
fn latin1_lower(n: &[u8]) -> String {
    n.iter().map(|b| *b as char).collect::<String>().to_lowercase()
}
pub fn name16(n: &[u8], dirt: bool, with: u8) -> [u8; 16] {
    let mut r = [0u8; 16];
    r[..n.len()].copy_from_slice(n);
    if dirt {
        for (i, q) in r.iter_mut().enumerate().skip(n.len() + 1) {
            *q = with + (i as u8 % 20);
        }
    }
    r
}

/// where things ended up in the file
#[derive(Clone, Debug, Default)]
pub struct Places {
    pub dir: usize,
    /// per lump in directory order
    pub lump: Vec<usize>,
    pub len: Vec<usize>,
}

impl Wad {
    pub fn new(wad3: bool, lumps: Vec<Lump>) -> Wad {
        let order = (0..lumps.len()).collect();
        Wad { wad3, lumps, order, dir: 2, gap: 0, dirt: false }
    }
    pub fn of(wad3: bool, t: Vec<Tex>) -> Wad {
        Wad::new(wad3, t.into_iter().map(Lump::Tex).collect())
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.build().0
    }
    pub fn build(&self) -> (Vec<u8>, Places) {
        let n = self.lumps.len();
        let mut b: Vec<u8> = if self.wad3 { b"WAD3".to_vec() } else { b"WAD2".to_vec() };
        b.extend((n as u32).to_le_bytes());
        b.extend([0; 4]);
        let mut p = Places { dir: 0, lump: vec![0; n], len: vec![0; n] };
        let fill = |b: &mut Vec<u8>| b.extend(std::iter::repeat(0xdd).take(self.gap));
        let when = [0, n / 2, n][self.dir];
        for k in 0..n + 1 {
            if k == when {
                fill(&mut b);
                p.dir = b.len();
                b.extend(std::iter::repeat(0).take(32 * n));
            }
            if k < n {
                fill(&mut b);
                let i = self.order[k];
                p.lump[i] = b.len();
                let data = match &self.lumps[i] {
                    Lump::Tex(t) => t.bytes(self.wad3, self.dirt).0,
                    Lump::Other(_, _, d) => d.clone(),
                };
                p.len[i] = data.len();
                b.extend(data);
            }
        }
        fill(&mut b);
        b[8..12].copy_from_slice(&(p.dir as u32).to_le_bytes());
        for i in 0..n {
            let e = p.dir + 32 * i;
            let (ty, name) = match &self.lumps[i] {
                Lump::Tex(t) => (if self.wad3 { b'C' } else { b'D' }, &t.name),
                Lump::Other(t, n, _) => (*t, n),
            };
            b[e..e + 4].copy_from_slice(&(p.lump[i] as u32).to_le_bytes());
            b[e + 4..e + 8].copy_from_slice(&(p.len[i] as u32).to_le_bytes());
            b[e + 8..e + 12].copy_from_slice(&(p.len[i] as u32).to_le_bytes());
            b[e + 12] = ty;
            b[e + 16..e + 32].copy_from_slice(&name16(name, self.dirt, 0x61));
        }
        (b, p)
    }
    /// what reading it must give, from the description (not from the bytes)
    pub fn expect(&self, list: Option<&[String]>, levels: usize) -> Vec<RefTex> {
        self.lumps
            .iter()
            .filter_map(|l| match l {
                Lump::Tex(t) => Some(t),
                _ => None,
            })
            .filter(|t| list.map(|l| l.iter().any(|n| n.as_bytes() == &t.name[..])).unwrap_or(true))
            .map(|t| RefTex {
                name: latin1_lower(&t.name),
                w: t.w,
                h: t.h,
                off: t.bytes(self.wad3, false).1,
                mips: (0..levels).map(|i| t.level(i)).collect(),
                palette: if self.wad3 { Some(t.palette()) } else { None },
            })
            .collect()
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RefTex {
    pub name: String,
    pub w: u32,
    pub h: u32,
    pub off: [u32; 4],
    pub mips: Vec<Vec<u8>>,
    pub palette: Option<Vec<u8>>,
}

/// what the bytes of a possibly damaged file allow
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// everything is in place: this must be returned
    Ok(Vec<RefTex>),
    /// something asked for is not there
    Err,
    /// something not asked for is out of place: an error, or this
    Either(Vec<RefTex>),
    /// sizes that no mip chain can have: an error, or anything that is not a crash
    Any,
}

/// reads the bytes by the format's rules, all arithmetic in u64
pub fn decode(b: &[u8], list: Option<&[String]>, levels: usize) -> Verdict {
    let len = b.len() as u64;
    let u32at = |o: u64| -> u64 { u32::from_le_bytes(b[o as usize..o as usize + 4].try_into().unwrap()) as u64 };
    let inside = |o: u64, n: u64| o + n <= len;
    let zname = |o: u64| -> Vec<u8> { b[o as usize..o as usize + 16].iter().copied().take_while(|c| *c != 0).collect() };
    if !inside(0, 12) {
        return Verdict::Err;
    }
    let wad3 = match &b[..4] {
        b"WAD2" => false,
        b"WAD3" => true,
        _ => return Verdict::Err,
    };
    let (n, dir) = (u32at(4), u32at(8));
    if n > 0 && !inside(dir, 32 * n) {
        return Verdict::Err;
    }
    let mut odd = n == 0 && dir > len;
    let mut any = false;
    let mut out = Vec::new();
    for i in 0..n {
        let e = dir + 32 * i;
        let off = u32at(e);
        if !inside(off, u32at(e + 4)) || !inside(off, u32at(e + 8)) || b[e as usize + 13] != 0 {
            odd = true;
        }
        let ty = b[e as usize + 12];
        if ty != b'C' && ty != b'D' {
            continue;
        }
        if ty != if wad3 { b'C' } else { b'D' } {
            any = true;
        }
        let stored = zname(e + 16);
        let asked = list.map(|l| l.iter().any(|q| q.as_bytes() == &stored[..])).unwrap_or(true);
        if stored.iter().any(|c| *c >= 128) {
            any = true;
        }
        let need = |ok: bool, odd: &mut bool| -> bool {
            if !ok {
                *odd = true;
            }
            ok || !asked
        };
        if !need(inside(off, 40), &mut odd) {
            return Verdict::Err;
        }
        if !inside(off, 40) {
            continue;
        }
        let (w, h) = (u32at(off + 16), u32at(off + 20));
        if w % 8 != 0 || h % 8 != 0 {
            any |= asked;
            odd = true;
        }
        let size = |k: usize| (w >> k) * (h >> k);
        let mut mips = Vec::new();
        let mut offs = [0u32; 4];
        for k in 0..4 {
            let o = u32at(off + 24 + 4 * k as u64);
            offs[k] = o as u32;
            let ok = inside(off + o, size(k));
            if !ok && (size(k) == 0 || k >= levels) {
                odd = true;
            } else if !need(ok, &mut odd) {
                return if any { Verdict::Any } else { Verdict::Err };
            }
            if k < levels && asked && ok {
                mips.push(b[(off + o) as usize..(off + o + size(k)) as usize].to_vec());
            } else if k < levels {
                mips.push(vec![]);
            }
        }
        let mut palette = None;
        if wad3 {
            let p = off + offs[3] as u64 + size(3) + 2;
            if !need(inside(p, 768), &mut odd) {
                return if any { Verdict::Any } else { Verdict::Err };
            }
            if inside(p, 768) {
                palette = Some(b[p as usize..p as usize + 768].to_vec());
            }
        }
        if asked {
            let nm = zname(off);
            if nm.iter().any(|c| *c >= 128) {
                any = true;
            }
            out.push(RefTex { name: latin1_lower(&nm), w: w as u32, h: h as u32, off: offs, mips, palette });
        }
    }
    if any {
        Verdict::Any
    } else if odd {
        Verdict::Either(out)
    } else {
        Verdict::Ok(out)
    }
}

// ---------------------------------------------------------------- the implementation's answer

pub type Read = Result<Vec<RefTex>, String>;

pub fn plain(t: &quarchitect::wad::TextureIndexed) -> RefTex {
    let m = &t.mip_texture;
    let d = &t.mip_data;
    let mut mips = vec![d.mip0.0.clone()];
    for l in [&d.mip1, &d.mip2, &d.mip3] {
        if let Some(l) = l {
            mips.push(l.0.clone());
        }
    }
    // a hole in the chain must not look like a shorter chain
    let holes = [d.mip1.is_some(), d.mip2.is_some(), d.mip3.is_some()];
    if holes.windows(2).any(|w| !w[0] && w[1]) {
        mips.push(b"hole".to_vec());
    }
    RefTex {
        name: m.name.clone(),
        w: m.width,
        h: m.height,
        off: [m.offset1, m.offset2, m.offset4, m.offset8],
        mips,
        palette: t.palette.as_ref().map(|p| p.0.iter().flat_map(|c| [c.0, c.1, c.2]).collect()),
    }
}

/// Err(text) inside Ok: an error was reported; outer Err: it panicked
pub fn read(path: &str, list: Option<&[String]>, levels: usize) -> Result<Read, String> {
    let l = list.map(|l| l.to_vec());
    std::panic::catch_unwind(|| quarchitect::wad::read_textures(path, l, levels).map(|v| v.iter().map(plain).collect::<Vec<_>>())).map_err(crate::explore::panic_text)
}
