//! Reference model of metadata values, and conversions to and from the library's public types.
use crate::mp4::PNode;
use mp4ameta::{Data, DataIdent, Fourcc, FreeformIdent, Tag};

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Id {
    F([u8; 4]),
    Free(String, String),
}

impl std::fmt::Debug for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Id::F(c) => write!(f, "{:?}", crate::mp4::show(c)),
            Id::Free(m, n) => write!(f, "----:{m:?}:{n:?}"),
        }
    }
}

impl Id {
    pub fn to_lib(&self) -> DataIdent {
        match self {
            Id::F(c) => DataIdent::Fourcc(Fourcc(*c)),
            Id::Free(m, n) => DataIdent::Freeform { mean: m.clone(), name: n.clone() },
        }
    }
    pub fn of(i: &DataIdent) -> Id {
        match i {
            DataIdent::Fourcc(Fourcc(c)) => Id::F(*c),
            DataIdent::Freeform { mean, name } => Id::Free(mean.clone(), name.clone()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    Utf8,
    Reserved,
    Signed,
    Jpeg,
    Png,
    Bmp,
    Utf16,
}

pub const TYS: [Ty; 7] = [Ty::Utf8, Ty::Reserved, Ty::Signed, Ty::Jpeg, Ty::Png, Ty::Bmp, Ty::Utf16];

impl Ty {
    /// Well-known type code of the QuickTime metadata specification.
    pub fn code(self) -> u32 {
        match self {
            Ty::Reserved => 0,
            Ty::Utf8 => 1,
            Ty::Utf16 => 2,
            Ty::Jpeg => 13,
            Ty::Png => 14,
            Ty::Signed => 21,
            Ty::Bmp => 27,
        }
    }
    pub fn from_code(c: u32) -> Option<Ty> {
        TYS.into_iter().find(|t| t.code() == c)
    }
    pub fn is_string(self) -> bool {
        matches!(self, Ty::Utf8 | Ty::Utf16)
    }
    pub fn is_bytes(self) -> bool {
        matches!(self, Ty::Reserved | Ty::Signed)
    }
    pub fn is_image(self) -> bool {
        matches!(self, Ty::Jpeg | Ty::Png | Ty::Bmp)
    }
}

/// A typed value. Strings hold text, everything else bytes.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Val {
    pub ty: Ty,
    pub s: String,
    pub b: Vec<u8>,
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.ty.is_string() {
            if self.s.len() > 40 {
                write!(f, "{:?}(text of {} bytes)", self.ty, self.s.len())
            } else {
                write!(f, "{:?}({:?})", self.ty, self.s)
            }
        } else if self.b.len() > 16 {
            write!(f, "{:?}({} bytes, h={:x})", self.ty, self.b.len(), crate::engine::hash_of(&self.b) as u32)
        } else {
            write!(f, "{:?}({:?})", self.ty, self.b)
        }
    }
}

impl Val {
    pub fn bytes(ty: Ty, b: Vec<u8>) -> Val {
        Val { ty, s: String::new(), b }
    }
    pub fn text(ty: Ty, s: &str) -> Val {
        Val { ty, s: s.into(), b: vec![] }
    }
    pub fn to_lib(&self) -> Data {
        match self.ty {
            Ty::Reserved => Data::Reserved(self.b.clone()),
            Ty::Signed => Data::BeSigned(self.b.clone()),
            Ty::Jpeg => Data::Jpeg(self.b.clone()),
            Ty::Png => Data::Png(self.b.clone()),
            Ty::Bmp => Data::Bmp(self.b.clone()),
            Ty::Utf8 => Data::Utf8(self.s.clone()),
            Ty::Utf16 => Data::Utf16(self.s.clone()),
        }
    }
    pub fn of(d: &Data) -> Val {
        match d {
            Data::Reserved(b) => Val::bytes(Ty::Reserved, b.clone()),
            Data::BeSigned(b) => Val::bytes(Ty::Signed, b.clone()),
            Data::Jpeg(b) => Val::bytes(Ty::Jpeg, b.clone()),
            Data::Png(b) => Val::bytes(Ty::Png, b.clone()),
            Data::Bmp(b) => Val::bytes(Ty::Bmp, b.clone()),
            Data::Utf8(s) => Val::text(Ty::Utf8, s),
            Data::Utf16(s) => Val::text(Ty::Utf16, s),
        }
    }
    /// The bytes the metadata format stores for this value.
    pub fn encoded(&self) -> Vec<u8> {
        match self.ty {
            Ty::Utf8 => self.s.as_bytes().to_vec(),
            Ty::Utf16 => self.s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
            _ => self.b.clone(),
        }
    }
    pub fn decode(code: u32, raw: &[u8]) -> Result<Val, String> {
        let ty = Ty::from_code(code).ok_or(format!("unknown type code {code}"))?;
        Ok(match ty {
            Ty::Utf8 => Val::text(ty, std::str::from_utf8(raw).map_err(|e| e.to_string())?),
            Ty::Utf16 => {
                if raw.len() % 2 != 0 {
                    return Err("odd utf-16 length".into());
                }
                let u: Vec<u16> = raw.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
                Val::text(ty, &String::from_utf16(&u).map_err(|e| e.to_string())?)
            }
            _ => Val::bytes(ty, raw.to_vec()),
        })
    }
}

pub type Items = Vec<(Id, Vec<Val>)>;

/// Builds a tag through the public API.
pub fn to_tag(items: &Items) -> Tag {
    let mut t = Tag::default();
    add_to_tag(&mut t, items);
    t
}

pub fn add_to_tag(t: &mut Tag, items: &Items) {
    for (id, vals) in items {
        for v in vals {
            match id {
                Id::F(c) => t.add_data(Fourcc(*c), v.to_lib()),
                Id::Free(m, n) => t.add_data(FreeformIdent::new(m, n), v.to_lib()),
            }
        }
    }
}

/// Flat content of a tag.
pub fn of_tag(t: &Tag) -> Vec<(Id, Val)> {
    t.data().map(|(i, d)| (Id::of(i), Val::of(d))).collect()
}

pub fn flat(items: &Items) -> Vec<(Id, Val)> {
    items.iter().flat_map(|(i, v)| v.iter().map(move |x| (i.clone(), x.clone()))).collect()
}

fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}

/// Children of a parsed ilst item, generically.
fn sub(b: &[u8]) -> Result<Vec<([u8; 4], Vec<u8>)>, String> {
    let mut p = 0;
    let mut o = vec![];
    while p < b.len() {
        if b.len() - p < 8 {
            return Err("stray bytes in item".into());
        }
        let mut l = be32(&b[p..]) as usize;
        let cc: [u8; 4] = b[p + 4..p + 8].try_into().unwrap();
        let mut h = 8;
        if l == 1 {
            if b.len() - p < 16 {
                return Err("cut header in item".into());
            }
            l = u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize;
            h = 16;
        }
        if l < h || l > b.len() - p {
            return Err(format!("sub atom {:?} length {l} of {}", crate::mp4::show(&cc), b.len() - p));
        }
        o.push((cc, b[p + h..p + l].to_vec()));
        p += l;
    }
    Ok(o)
}

/// Strictly decodes a parsed item list as the iTunes metadata format defines it (no merging).
pub fn decode_ilst(file: &[u8], ilst: &PNode) -> Result<Items, String> {
    let mut out = vec![];
    for it in ilst.kids() {
        if &it.cc == b"free" {
            continue;
        }
        let mut mean = None;
        let mut name = None;
        let mut vals = vec![];
        for (cc, c) in sub(it.content(file))? {
            match &cc {
                b"data" => {
                    if c.len() < 8 {
                        return Err("data atom too short".into());
                    }
                    if c[0] != 0 {
                        return Err("data version".into());
                    }
                    vals.push(Val::decode(be32(&c), &c[8..])?);
                }
                b"mean" | b"name" => {
                    if c.len() < 4 || c[0] != 0 {
                        return Err("mean/name head".into());
                    }
                    let s = String::from_utf8(c[4..].to_vec()).map_err(|e| e.to_string())?;
                    *(if &cc == b"mean" { &mut mean } else { &mut name }) = Some(s);
                }
                _ => {}
            }
        }
        let id = match (&it.cc, mean, name) {
            (b"----", Some(m), Some(n)) => Id::Free(m, n),
            (c, _, _) => Id::F(*c),
        };
        out.push((id, vals));
    }
    Ok(out)
}

/// Merges items of equal identifier at the position of the first.
pub fn merge(items: &Items) -> Items {
    let mut o: Items = vec![];
    for (id, v) in items {
        match o.iter_mut().find(|x| &x.0 == id) {
            Some(x) => x.1.extend(v.iter().cloned()),
            None => o.push((id.clone(), v.clone())),
        }
    }
    o
}

/// First differing position of two flat lists, for messages.
pub fn diff(a: &[(Id, Val)], b: &[(Id, Val)]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Some(format!(
        "at {i}: expected {:?}, got {:?} (lengths {} and {})",
        a.get(i),
        b.get(i),
        a.len(),
        b.len()
    ))
}
