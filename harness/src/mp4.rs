//! Independent model of the MPEG-4 atom tree: an encoder (with symbolic chunk offsets and optional
//! lies about lengths) and a strict parser. Shares no code with the library under test.
use std::collections::BTreeMap;

pub type Cc = [u8; 4];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ChunkRef {
    /// Points into the content of media data atom `id` at `rel`.
    At(u32, u64),
    /// A literal value.
    Raw(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Leaf(Vec<u8>),
    Kids(Vec<Node>),
    /// Chunk offset table (stco or co64).
    Chunks { wide: bool, version: u8, flags: [u8; 3], entries: Vec<ChunkRef>, count: Option<u32> },
    /// Media data with an id that chunk references use.
    Media(u32, Vec<u8>),
    /// That many zeros (huge files, see `big`).
    Hole(u64),
}

/// Where an encoded file goes to.
pub trait Sink {
    fn put(&mut self, b: &[u8]);
    fn hole(&mut self, n: u64);
}
impl Sink for Vec<u8> {
    fn put(&mut self, b: &[u8]) {
        self.extend_from_slice(b);
    }
    fn hole(&mut self, n: u64) {
        assert!(n < 1 << 24, "hole in a file held in memory");
        self.resize(self.len() + n as usize, 0);
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub cc: Cc,
    /// 64-bit header form.
    pub ext: bool,
    /// Bytes between the header and the children (full-atom head and the like).
    pub prefix: Vec<u8>,
    pub body: Body,
    /// Declared total length instead of the true one (hostile files).
    pub lie: Option<u64>,
    /// Bytes written after the children that are covered by the length (hostile files).
    pub suffix: Vec<u8>,
}

pub fn leaf(cc: &Cc, b: Vec<u8>) -> Node {
    Node { cc: *cc, ext: false, prefix: vec![], body: Body::Leaf(b), lie: None, suffix: vec![] }
}
pub fn cont(cc: &Cc, kids: Vec<Node>) -> Node {
    Node { cc: *cc, ext: false, prefix: vec![], body: Body::Kids(kids), lie: None, suffix: vec![] }
}
pub fn full(cc: &Cc, prefix: Vec<u8>, kids: Vec<Node>) -> Node {
    Node { cc: *cc, ext: false, prefix, body: Body::Kids(kids), lie: None, suffix: vec![] }
}

impl Node {
    pub fn head_len(&self) -> u64 {
        if self.ext { 16 } else { 8 }
    }
    pub fn body_len(&self) -> u64 {
        match &self.body {
            Body::Leaf(b) => b.len() as u64,
            Body::Media(_, b) => b.len() as u64,
            Body::Kids(k) => k.iter().map(Node::len).sum(),
            Body::Hole(n) => *n,
            Body::Chunks { wide, entries, .. } => 8 + entries.len() as u64 * if *wide { 8 } else { 4 },
        }
    }
    pub fn len(&self) -> u64 {
        self.head_len() + self.prefix.len() as u64 + self.body_len() + self.suffix.len() as u64
    }
    pub fn kids(&self) -> &[Node] {
        match &self.body {
            Body::Kids(k) => k,
            _ => &[],
        }
    }
    pub fn kids_mut(&mut self) -> Option<&mut Vec<Node>> {
        match &mut self.body {
            Body::Kids(k) => Some(k),
            _ => None,
        }
    }
    pub fn find(&self, cc: &Cc) -> Option<&Node> {
        self.kids().iter().find(|k| &k.cc == cc)
    }
    pub fn find_mut(&mut self, cc: &Cc) -> Option<&mut Node> {
        self.kids_mut()?.iter_mut().find(|k| &k.cc == cc)
    }
    fn layout(&self, pos: u64, m: &mut BTreeMap<u32, u64>) {
        let mut p = pos + self.head_len() + self.prefix.len() as u64;
        match &self.body {
            Body::Media(id, _) => {
                m.insert(*id, p);
            }
            Body::Kids(k) => {
                for c in k {
                    c.layout(p, m);
                    p += c.len();
                }
            }
            _ => {}
        }
    }
    fn emit(&self, o: &mut dyn Sink, m: &BTreeMap<u32, u64>) {
        let len = self.lie.unwrap_or(self.len());
        if self.ext {
            o.put(&1u32.to_be_bytes());
            o.put(&self.cc);
            o.put(&len.to_be_bytes());
        } else {
            o.put(&(len as u32).to_be_bytes());
            o.put(&self.cc);
        }
        o.put(&self.prefix);
        match &self.body {
            Body::Leaf(b) | Body::Media(_, b) => o.put(b),
            Body::Hole(n) => o.hole(*n),
            Body::Kids(k) => k.iter().for_each(|c| c.emit(o, m)),
            Body::Chunks { wide, version, flags, entries, count } => {
                o.put(&[*version]);
                o.put(flags);
                o.put(&count.unwrap_or(entries.len() as u32).to_be_bytes());
                for e in entries {
                    let v = match e {
                        ChunkRef::At(id, rel) => m.get(id).copied().unwrap_or(0) + rel,
                        ChunkRef::Raw(v) => *v,
                    };
                    if *wide {
                        o.put(&v.to_be_bytes());
                    } else {
                        o.put(&(v as u32).to_be_bytes());
                    }
                }
            }
        }
        o.put(&self.suffix);
    }
    /// Visits every node of the subtree.
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Node)) {
        f(self);
        if let Body::Kids(k) = &mut self.body {
            for c in k {
                c.walk_mut(f);
            }
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        if let Body::Kids(k) = &self.body {
            for c in k {
                c.walk(f);
            }
        }
    }
}

/// Content positions of the media data atoms.
pub fn layout(top: &[Node]) -> BTreeMap<u32, u64> {
    let mut m = BTreeMap::new();
    let mut p = 0;
    for n in top {
        n.layout(p, &mut m);
        p += n.len();
    }
    m
}

pub fn encode(top: &[Node]) -> Vec<u8> {
    let mut o = Vec::new();
    encode_to(top, &mut o);
    o
}

pub fn encode_to(top: &[Node], o: &mut dyn Sink) {
    let m = layout(top);
    for n in top {
        n.emit(o, &m);
    }
}

// ---------------------------------------------------------------------------------------------
// strict parser

/// A parsed atom.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PNode {
    pub cc: Cc,
    pub pos: usize,
    pub len: usize,
    pub head: usize,
    pub prefix: Vec<u8>,
    /// Present for containers the metadata format defines at this place.
    pub kids: Option<Vec<PNode>>,
}

impl PNode {
    pub fn end(&self) -> usize {
        self.pos + self.len
    }
    pub fn content<'a>(&self, b: &'a [u8]) -> &'a [u8] {
        &b[self.pos + self.head..self.end()]
    }
    pub fn raw<'a>(&self, b: &'a [u8]) -> &'a [u8] {
        &b[self.pos..self.end()]
    }
    pub fn kids(&self) -> &[PNode] {
        self.kids.as_deref().unwrap_or(&[])
    }
    pub fn find(&self, cc: &Cc) -> Option<&PNode> {
        self.kids().iter().find(|k| &k.cc == cc)
    }
    pub fn all(&self, cc: &Cc) -> Vec<&PNode> {
        self.kids().iter().filter(|k| &k.cc == cc).collect()
    }
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// Where we are in the tree; decides which atoms are containers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    Top,
    Moov,
    Udta,
    Meta,
    Ilst,
    Trak,
    Mdia,
    Minf,
    Stbl,
    Item,
}

fn child(at: At, cc: &Cc) -> Option<(At, usize)> {
    Some(match (at, cc) {
        (At::Top, b"moov") => (At::Moov, 0),
        (At::Moov, b"udta") => (At::Udta, 0),
        (At::Moov, b"trak") => (At::Trak, 0),
        (At::Udta, b"meta") => (At::Meta, 4),
        (At::Meta, b"ilst") => (At::Ilst, 0),
        (At::Ilst, b"free") => return None,
        (At::Ilst, _) => (At::Item, 0),
        (At::Trak, b"mdia") => (At::Mdia, 0),
        (At::Mdia, b"minf") => (At::Minf, 0),
        (At::Minf, b"stbl") => (At::Stbl, 0),
        _ => return None,
    })
}

fn parse_at(b: &[u8], start: usize, end: usize, at: At) -> Result<Vec<PNode>, String> {
    let mut p = start;
    let mut out = Vec::new();
    while p < end {
        if end - p < 8 {
            return Err(format!("{} stray bytes at {p} in {at:?}", end - p));
        }
        let mut len = be(&b[p..p + 4]);
        let cc: Cc = b[p + 4..p + 8].try_into().unwrap();
        let mut head = 8;
        if len == 1 {
            if end - p < 16 {
                return Err(format!("extended header cut at {p}"));
            }
            len = be(&b[p + 8..p + 16]);
            head = 16;
        }
        if len < head as u64 || len > (end - p) as u64 {
            return Err(format!("atom {:?} at {p} in {at:?} declares length {len}, {} bytes available", show(&cc), end - p));
        }
        let len = len as usize;
        let mut prefix = vec![];
        let kids = match child(at, &cc) {
            Some((sub, pl)) => {
                if len < head + pl {
                    return Err(format!("atom {:?} at {p} too short", show(&cc)));
                }
                prefix = b[p + head..p + head + pl].to_vec();
                Some(parse_at(b, p + head + pl, p + len, sub)?)
            }
            None => None,
        };
        out.push(PNode { cc, pos: p, len, head, prefix, kids });
        p += len;
    }
    Ok(out)
}

pub fn parse(b: &[u8]) -> Result<Vec<PNode>, String> {
    parse_at(b, 0, b.len(), At::Top)
}

pub fn show(cc: &Cc) -> String {
    cc.iter().map(|b| char::from(*b)).collect()
}

/// Outline of a file for descriptions.
pub fn outline(n: &Node) -> String {
    let mut s = show(&n.cc);
    if n.ext {
        s.push('+');
    }
    match &n.body {
        Body::Kids(k) => {
            s.push('[');
            s.push_str(&k.iter().map(outline).collect::<Vec<_>>().join(" "));
            s.push(']');
        }
        Body::Leaf(b) => s.push_str(&format!("({})", b.len())),
        Body::Hole(n) => s.push_str(&format!("(hole of {n})")),
        Body::Media(id, b) => s.push_str(&format!("#{id}({})", b.len())),
        Body::Chunks { entries, .. } => s.push_str(&format!("{{{}}}", entries.len())),
    }
    if let Some(l) = n.lie {
        s.push_str(&format!("!len={l}"));
    }
    s
}
pub fn outlines(top: &[Node]) -> String {
    top.iter().map(outline).collect::<Vec<_>>().join(" ")
}
