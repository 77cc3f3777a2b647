//! Files beyond 2 and 4 GiB: sparse files whose holes cost nothing.
use crate::engine::{fail, Fail, Src};
use crate::gen::fill;
use crate::{alloc, fault};
use crate::mp4::{encode_to, layout, leaf, Body, Cc, ChunkRef, Node, Sink};
use crate::util::Mem;
use std::io::{self, Read, Seek, SeekFrom};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

/// Bytes with holes of zeros.
#[derive(Default, Clone)]
pub struct Sparse {
    /// (position, bytes), in order.
    pub segs: Vec<(u64, Vec<u8>)>,
    pub len: u64,
}

impl Sink for Sparse {
    fn put(&mut self, b: &[u8]) {
        match self.segs.last_mut() {
            Some((p, v)) if *p + v.len() as u64 == self.len => v.extend_from_slice(b),
            _ => self.segs.push((self.len, b.to_vec())),
        }
        self.len += b.len() as u64;
    }
    fn hole(&mut self, n: u64) {
        self.len += n;
    }
}

impl Sparse {
    pub fn new(top: &[Node]) -> Sparse {
        let mut s = Sparse::default();
        encode_to(top, &mut s);
        s
    }
    pub fn mem(&self) -> Mem {
        raise(self.len);
        let m = Mem::new(&[]);
        m.0.set_len(self.len).expect("set_len of a memory file");
        for (p, b) in &self.segs {
            m.0.write_all_at(b, *p).expect("write to a memory file");
        }
        m
    }
    pub fn reader(&self) -> Reader {
        Reader { s: self, pos: 0, len: self.len }
    }
    /// Of the first `len` bytes.
    pub fn prefix(&self, len: u64) -> Reader {
        Reader { s: self, pos: 0, len: len.min(self.len) }
    }
}

pub struct Reader<'a> {
    s: &'a Sparse,
    pos: u64,
    len: u64,
}
impl Read for Reader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(b.len() as u64);
        let b = &mut b[..n as usize];
        b.fill(0);
        for (p, v) in &self.s.segs {
            let from = (*p).max(self.pos);
            let to = (p + v.len() as u64).min(self.pos + n);
            if from < to {
                b[(from - self.pos) as usize..(to - self.pos) as usize].copy_from_slice(&v[(from - p) as usize..(to - p) as usize]);
            }
        }
        self.pos += n;
        Ok(n as usize)
    }
}
impl Seek for Reader<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if !(0..=u64::MAX as i128).contains(&n) {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

static RAISED: AtomicBool = AtomicBool::new(true);
const MEMORY: u64 = 6 << 30;
const FILE: u64 = 512 << 20;

fn set(memory: u64, file: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: memory, rlim_max: 1 << 40 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let f = libc::rlimit { rlim_cur: file, rlim_max: 1 << 40 };
        libc::setrlimit(libc::RLIMIT_FSIZE, &f);
    }
}

/// The usual limits of memory and file size (for this process).
pub fn limits() {
    if RAISED.swap(false, Relaxed) {
        set(MEMORY, FILE);
    }
}

/// Limits for a file of `n` bytes, mapped a few times.
fn raise(n: u64) {
    RAISED.store(true, Relaxed);
    set(MEMORY + 4 * n, n + FILE);
}

/// Writes to a huge file within bounded memory; far too many operations fail.
pub fn write(tag: &mp4ameta::Tag, m: &Mem) -> mp4ameta::Result<()> {
    let mut f = &m.0;
    f.rewind()?;
    fault::arm(m.fd(), fault::Kind::None, -1, 1, 100_000);
    alloc::arm();
    let r = tag.write_to(f);
    alloc::disarm();
    fault::disarm();
    r
}

/// Does a movie, user data or metadata atom with a 32-bit length not fit any more when the metadata
/// grows by `d`?
pub fn overflows(top: &[Node], d: i64) -> bool {
    let mut v = top;
    for c in [b"moov", b"udta", b"meta"] {
        let Some(n) = v.iter().find(|x| &x.cc == c) else { break };
        if !n.ext && n.len() as i64 + d > u32::MAX as i64 {
            return true;
        }
        let Body::Kids(k) = &n.body else { break };
        v = k;
    }
    false
}

/// A write that `overflows` has to be refused and leaves the file; any other has to succeed.
/// Whether it was written.
pub fn outcome(r: &mp4ameta::Result<()>, overflows: bool, old: &[u8], new: &[u8]) -> std::result::Result<bool, Fail> {
    match r {
        Ok(()) if overflows => fail("wrapped-length", "the new length of an atom does not fit its header but the write succeeded"),
        Ok(()) => Ok(true),
        Err(e) if !overflows => fail("write-refused", format!("writing to a valid huge file failed: {}", crate::util::kind(e))),
        Err(_) => match same(old, new) {
            true => Ok(false),
            false => fail("refused-but-changed", format!("the write was refused but the file changed: {}", crate::util::bdiff(old, new))),
        },
    }
}

/// The content of a file mapped into memory (holes stay holes as long as nobody looks into them).
pub struct Map {
    p: *mut libc::c_void,
    n: usize,
}
impl Map {
    pub fn new(m: &Mem) -> Map {
        let n = m.0.metadata().expect("metadata").len() as usize;
        if n == 0 {
            return Map { p: std::ptr::null_mut(), n };
        }
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_NORESERVE, m.fd(), 0) };
        assert!(p != libc::MAP_FAILED, "mmap failed");
        Map { p, n }
    }
}
impl std::ops::Deref for Map {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        if self.n == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.p as *const u8, self.n) }
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        if self.n > 0 {
            unsafe { libc::munmap(self.p, self.n) };
        }
    }
}

/// Equality that does not look through all of a hole.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    const LIMIT: usize = 1 << 28;
    const EDGE: usize = 1 << 16;
    if a.len() != b.len() || a.len() < LIMIT {
        return a == b;
    }
    let n = a.len();
    a[..EDGE] == b[..EDGE] && a[n - EDGE..] == b[n - EDGE..] && (0..n).step_by(1 << 26).all(|i| a[i] == b[i])
}

fn widen(n: &mut Node) {
    if let Body::Kids(k) = &mut n.body {
        k.iter_mut().for_each(widen);
    }
    if n.len() > u32::MAX as u64 {
        n.ext = true;
    }
}

const PATHS: &[&[Cc]] = &[
    &[],
    &[*b"moov"],
    &[*b"moov", *b"udta"],
    &[*b"moov", *b"udta", *b"meta"],
    &[*b"moov", *b"udta", *b"meta", *b"ilst"],
    &[*b"moov", *b"trak"],
    &[*b"moov", *b"trak", *b"mdia"],
    &[*b"moov", *b"trak", *b"mdia", *b"minf"],
    &[*b"moov", *b"trak", *b"mdia", *b"minf", *b"stbl"],
];

/// Inserts a huge atom that has no meaning. With `write` only where a write does not have to move
/// it, and only the chunk references remain that fit their tables.
pub fn stretch(s: &mut Src, top: &[Node], write: bool) -> Vec<Node> {
    let mut path = if s.bool() { PATHS[0] } else { *s.pick(PATHS) };
    if write && path.len() > 1 && (path[1] != *b"udta" || path.len() > 3) {
        path = &[];
    }
    let n = match s.below(6) {
        0 => (1 << 31) - 64 + s.below(128),
        1 => (1 << 32) - 2048 + s.below(4096),
        2 => (1 << 32) + s.below(1 << 20),
        _ if write && !path.is_empty() => (1 << 32) - 16,
        3 => 5 << 30,
        4 => (1 << 33) + s.below(1 << 33),
        _ if write => (1 << 32) - 8,
        _ => 1 << 40,
    };
    let mut top = top.to_vec();
    // the container, as far as it exists
    let mut v = &mut top;
    for c in path {
        let Some(i) = v.iter().position(|x| &x.cc == c && matches!(x.body, Body::Kids(_))) else { break };
        v = v[i].kids_mut().unwrap();
    }
    let cc = match path.len() {
        0 => *s.pick(&[*b"mdat", *b"free", *b"skip", *b"wide", *b"uuid"]),
        4 if path[3] == *b"ilst" => *b"free",
        _ => *s.pick(&[*b"free", *b"skip", *b"uuid", *b"zzzz"]),
    };
    let mut h = leaf(&cc, vec![]);
    h.body = Body::Hole(n);
    h.ext = s.chance(1, 3);
    // a write may move what follows the metadata
    let metadata: Cc = match path.len() {
        0 => *b"moov",
        1 => *b"udta",
        2 => *b"meta",
        _ => *b"ilst",
    };
    let first = path.is_empty() as usize;
    let last = v.iter().position(|x| write && x.cc == metadata).unwrap_or(v.len());
    let p = first + s.idx(last - first + 1);
    v.insert(p, h);
    finish(top, write)
}

fn finish(mut top: Vec<Node>, write: bool) -> Vec<Node> {
    top.iter_mut().for_each(widen);
    if write {
        let m = layout(&top);
        for n in top.iter_mut() {
            n.walk_mut(&mut |x| {
                if let Body::Chunks { wide: false, entries, .. } = &mut x.body {
                    entries.retain(|e| match e {
                        ChunkRef::At(i, rel) => m.get(i).copied().unwrap_or(0) + rel < (u32::MAX - (1 << 26)) as u64,
                        ChunkRef::Raw(_) => true,
                    });
                }
            });
        }
    }
    top
}

/// Inserts an atom of up to a few hundred MiB behind the metadata, so that a write has to move it.
pub fn behind(s: &mut Src, top: &[Node]) -> Vec<Node> {
    let path = *s.pick(&PATHS[..4]);
    let n = match s.weighted(&[300, 100, 30, 3]) {
        0 => (1 << 16) + s.below(1 << 20),
        1 => (1 << 20) + s.below(1 << 23),
        2 => (1 << 23) + s.below(1 << 25),
        _ => (1 << 25) + s.below(1 << 27),
    };
    let mut top = top.to_vec();
    let mut v = &mut top;
    for c in path {
        let Some(i) = v.iter().position(|x| &x.cc == c && matches!(x.body, Body::Kids(_))) else { break };
        v = v[i].kids_mut().unwrap();
    }
    let mut b = vec![0; n as usize];
    if n < 1 << 23 {
        b = fill(s.below(256), n as usize);
    } else {
        for (i, x) in b.chunks_mut(1000).enumerate() {
            x[0] = i as u8;
            x[x.len() - 1] = (i >> 8) as u8;
        }
    }
    v.push(leaf(s.pick(&[*b"free", *b"skip", *b"uuid", *b"zzzz"]), b));
    v.push(leaf(b"last", b"the end".to_vec()));
    top
}

/// Values of zeros by identifier: the lengths, and whether one of them is a freeform item with
/// parts of that length instead.
pub struct Zeros {
    pub items: Vec<(Option<[u8; 4]>, Vec<u64>)>,
}

impl Zeros {
    /// Length of the items.
    pub fn lens(&self) -> Vec<u64> {
        self.items
            .iter()
            .map(|(i, v)| 8 + if i.is_some() { v.iter().map(|n| 16 + n).sum::<u64>() } else { v.iter().map(|n| 12 + n).sum::<u64>() + 16 })
            .collect()
    }

    /// The tag, whose values take no memory as long as nobody looks into them; raises the limits.
    pub fn tag(&self) -> mp4ameta::Tag {
        use mp4ameta::{Data, DataIdent, Fourcc, Tag};
        let n: u64 = self.lens().iter().sum();
        RAISED.store(true, Relaxed);
        set(MEMORY + 8 * n, FILE + 2 * n);
        let z = |n: u64| {
            let v = vec![0u8; n as usize];
            if let Ok(mut r) = fault::ZEROS.lock() {
                r.push((v.as_ptr() as usize, v.len()));
            }
            v
        };
        if let Ok(mut r) = fault::ZEROS.lock() {
            r.clear();
        }
        let t = |n: u64| unsafe { String::from_utf8_unchecked(z(n)) };
        let mut tag = Tag::default();
        for (i, v) in &self.items {
            match i {
                None => tag.set_all_data(DataIdent::freeform(t(v[0]), t(v[1])), vec![Data::Bmp(vec![])]),
                Some(i) => tag.set_all_data(
                    Fourcc(*i),
                    v.iter().enumerate().map(|(k, n)| match k % 3 {
                        0 => Data::Reserved(z(*n)),
                        1 => Data::Utf8(t(*n)),
                        _ => Data::Jpeg(z(*n)),
                    }),
                ),
            }
        }
        tag
    }

    /// The metadata in `m` (`udta` to `ilst` or `moov` to `ilst`) between `from` and `to` has exact lengths.
    pub fn walk(&self, m: &Mem, path: &[&Cc], from: u64, to: u64) -> std::result::Result<(), String> {
        let (mut from, mut to) = (from, to);
        for cc in path {
            let kids = atoms(m, from, to)?;
            let v: Vec<_> = kids.iter().filter(|a| &a.0 == *cc).collect();
            let [a] = v[..] else { return Err(format!("{} atoms {}", v.len(), crate::mp4::show(*cc))) };
            if *cc == b"meta" && atoms(m, a.1 + 4, a.2)?.iter().filter(|k| &k.0 == b"hdlr").count() != 1 {
                return Err("no or several handlers".into());
            }
            (from, to) = (a.1 + if *cc == b"meta" { 4 } else { 0 }, a.2);
        }
        let items = atoms(m, from, to)?;
        if items.len() != self.items.len() {
            return Err(format!("{} items instead of {}", items.len(), self.items.len()));
        }
        for (a, (i, v)) in items.iter().zip(&self.items) {
            let kids: Vec<(Cc, u64)> = atoms(m, a.1, a.2)?.iter().map(|k| (k.0, k.2 - k.1)).collect();
            let want: Vec<(Cc, u64)> = match i {
                None => vec![(*b"mean", 4 + v[0]), (*b"name", 4 + v[1]), (*b"data", 8)],
                Some(_) => v.iter().map(|n| (*b"data", 8 + n)).collect(),
            };
            if a.0 != i.unwrap_or(*b"----") || kids != want {
                return Err(format!("item {} of {kids:?} instead of {:?} of {want:?}", crate::mp4::show(&a.0), i.map(|i| crate::mp4::show(&i))));
            }
        }
        Ok(())
    }
}

/// Atoms between `from` and `to`: identifier, start of the content and end.
pub fn atoms(m: &Mem, from: u64, to: u64) -> std::result::Result<Vec<(Cc, u64, u64)>, String> {
    let mut v = vec![];
    let mut p = from;
    while p < to {
        let mut h = [0; 16];
        let k = if to - p < 16 { 8 } else { 16 };
        m.0.read_exact_at(&mut h[..k], p).map_err(|_| format!("no atom at {p}"))?;
        let cc = [h[4], h[5], h[6], h[7]];
        let (head, len) = match u32::from_be_bytes([h[0], h[1], h[2], h[3]]) {
            1 => (16, u64::from_be_bytes([h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]])),
            n => (8, n as u64),
        };
        if len < head || len > to - p {
            return Err(format!("length {len} of {} at {p}, {} left", crate::mp4::show(&cc), to - p));
        }
        v.push((cc, p + head, p + len));
        p += len;
    }
    Ok(v)
}

/// Lists of values of zeros around the limit of 32-bit lengths.
pub fn zeros(overhead: u64) -> Vec<Zeros> {
    const M: u64 = u32::MAX as u64;
    let one = |n: u64| Zeros { items: vec![(Some(*b"covr"), vec![n])] };
    // items of half the limit each, `n` in total
    let two = |n: u64| Zeros { items: vec![(Some(*b"covr"), vec![n / 2 - 24]), (Some(*b"\xa9nam"), vec![n - n / 2 - 24])] };
    let several = |n: u64| Zeros { items: vec![(Some(*b"covr"), vec![0, n / 2, 5, n - n / 2])] };
    let free = |n: u64| Zeros { items: vec![(None, vec![n / 3, n - n / 3])] };
    vec![
        // the longest item, and too long ones
        one(M - 24),
        one(M - 23),
        one(M + 1),
        one(2 * M),
        several(M - 77),
        several(M - 76),
        free(M - 48),
        free(M - 47),
        // the atoms around them need a 64-bit length one after the other
        two(M - overhead),
        two(M - overhead + 1),
        two(M - 20),
        two(M - 8),
        two(M - 7),
        two(M + 1),
    ]
}
