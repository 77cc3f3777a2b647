//! Reading and writing cost what the metadata costs, not what the file costs.
use crate::engine::*;
use crate::fault::{self, Cost};
use crate::model;
use crate::mp4::{self, leaf, Body, Cc, Node};
use crate::{alloc, big, gen, util};
use mp4ameta::Tag;
use std::io::{self, BufReader, Read, Seek, SeekFrom, Write};

pub const PROP: Prop = Prop {
    id: "C26",
    run,
    fixed: no_fixed,
    enumerated: None,
    quick: 200_000,
    thorough: 1_000_000,
    level: "exploration",
    rule: "a random valid container into which a few atoms of 64 MiB to 256 GiB or many of 128 KiB to 8 MiB are inserted that reading or writing has no \
           use for: media data, padding, sample tables, unknown atoms at any level, for writes in front of the metadata. Bytes \
           transferred, operations and memory are counted while it is read through a reader, a buffered reader, a file and by \
           path, or written to, and compared with a budget computed from the file without these atoms. Dumps: the writer gets \
           every byte once. Non-trivial: the operation went through on the stretched file. Distinct by outline and tag.",
    assumptions: &["an implementation may read up to 32 KiB per atom more than it needs"],
};

/// Counts what is transferred; fails beyond a budget.
struct Meter<T> {
    t: T,
    cost: Cost,
    budget: u64,
}
impl<T> Meter<T> {
    fn new(t: T, budget: u64) -> Self {
        Meter { t, cost: Cost::default(), budget }
    }
    fn step(&mut self) -> io::Result<()> {
        self.cost.ops += 1;
        if self.cost.read + self.cost.written + self.cost.ops > self.budget {
            return Err(io::Error::new(io::ErrorKind::Other, "beyond the budget"));
        }
        Ok(())
    }
}
impl<T: Read> Read for Meter<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        let n = self.t.read(b)?;
        self.cost.read += n as u64;
        Ok(n)
    }
}
impl<T: Seek> Seek for Meter<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step()?;
        self.t.seek(p)
    }
}
impl<T: Write> Write for Meter<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.step()?;
        let n = self.t.write(b)?;
        self.cost.written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.t.flush()
    }
}

/// Where atoms without a meaning for reading go, and their names.
const PLACES: &[(&[Cc], &[&Cc])] = &[
    (&[], &[b"mdat", b"free", b"skip", b"wide", b"uuid", b"moof", b"mdat"]),
    (&[*b"moov"], &[b"free", b"iods", b"uuid", b"mvex"]),
    (&[*b"moov", *b"trak"], &[b"free", b"edts", b"tref", b"udta", b"meta"]),
    (&[*b"moov", *b"trak", *b"mdia"], &[b"free", b"elng", b"uuid"]),
    (&[*b"moov", *b"trak", *b"mdia", *b"minf"], &[b"free", b"dinf", b"uuid"]),
    (&[*b"moov", *b"trak", *b"mdia", *b"minf", *b"stbl"], &[b"stts", b"stsc", b"stsz", b"stz2", b"ctts", b"stss", b"sdtp", b"free"]),
    (&[*b"moov", *b"udta"], &[b"free", b"Xtra", b"chpl", b"uuid"]),
    (&[*b"moov", *b"udta", *b"meta"], &[b"free", b"xml ", b"ID32"]),
    (&[*b"moov", *b"udta", *b"meta", *b"ilst"], &[b"free"]),
];

fn widen(n: &mut Node) {
    if let Body::Kids(k) = &mut n.body {
        k.iter_mut().for_each(widen);
    }
    if n.len() > u32::MAX as u64 {
        n.ext = true;
    }
}

/// Inserts a huge atom that reading has no use for.
fn stretch(s: &mut Src, top: &mut Vec<Node>, n: u64, ext: bool) {
    let (path, names) = match s.chance(1, 3) {
        true => PLACES[0],
        false => *s.pick(PLACES),
    };
    let mut v = &mut *top;
    let mut deep = 0;
    for c in path {
        let all: Vec<usize> = (0..v.len()).filter(|i| &v[*i].cc == c && matches!(v[*i].body, Body::Kids(_))).collect();
        if all.is_empty() {
            break;
        }
        let i = all[s.idx(all.len())];
        v = v[i].kids_mut().unwrap();
        deep += 1;
    }
    let names = if deep == path.len() { names } else { &[b"free" as &Cc][..] };
    let mut h = leaf(*s.pick::<&Cc>(names), vec![]);
    h.body = Body::Hole(n);
    h.ext = ext;
    let first = (deep == 0) as usize;
    let p = first + s.idx(v.len() + 1 - first);
    v.insert(p, h);
}

/// Few huge atoms, or many that are only big.
fn sizes(s: &mut Src) -> Vec<u64> {
    if s.bool() {
        let k = 1 + s.weighted(&[4, 2, 1]);
        return (0..k)
            .map(|_| match s.below(4) {
                0 => (64 << 20) + s.below(1 << 20),
                1 => (64 << 20) + s.below(4 << 30),
                2 => (1 << 32) + s.below(1 << 20),
                _ => 1 << s.range(27, 38),
            })
            .collect();
    }
    many(s)
}

fn many(s: &mut Src) -> Vec<u64> {
    let n = (1u64 << 17) << s.below(7);
    let k = ((16 << 20) / n).max(3);
    (0..k).map(|i| n + i % 7).collect()
}

/// Inserts big atoms where a write doesn't have to move them.
fn before(s: &mut Src, top: &[Node]) -> Vec<Node> {
    let mut top = top.to_vec();
    let all = many(s);
    // how far to descend towards the metadata
    let max = s.below(4) as usize;
    for n in all {
        let mut v = &mut top;
        let deep = s.below(max as u64 + 1) as usize;
        let mut here = 0;
        for c in [b"moov", b"udta", b"meta"].iter().take(deep) {
            let Some(i) = v.iter().position(|x| &x.cc == *c && matches!(x.body, Body::Kids(_))) else { break };
            v = v[i].kids_mut().unwrap();
            here += 1;
        }
        let next: Cc = [*b"moov", *b"udta", *b"meta", *b"ilst"][here];
        let first = (here == 0) as usize;
        let last = v.iter().position(|x| x.cc == next).unwrap_or(v.len()).max(first);
        // the tracks in front of the metadata
        let traks: Vec<usize> = (0..last).filter(|i| v[*i].cc == *b"trak" && matches!(v[*i].body, Body::Kids(_))).collect();
        let names: &[&Cc] = if here == 0 { &[b"mdat", b"free", b"uuid"] } else { &[b"free", b"uuid"] };
        let mut h = leaf(*s.pick::<&Cc>(names), vec![]);
        h.body = Body::Hole(n);
        if !traks.is_empty() && s.bool() {
            v = v[traks[s.idx(traks.len())]].kids_mut().unwrap();
            let p = s.idx(v.len() + 1);
            h.cc = *b"free";
            v.insert(p, h);
        } else {
            let p = first + s.idx(last + 1 - first);
            v.insert(p, h);
        }
    }
    top
}

fn count(top: &[Node]) -> u64 {
    let mut n = 0;
    top.iter().for_each(|t| t.walk(&mut |_| n += 1));
    n
}

struct Budget {
    bytes: u64,
    memory: u64,
}

/// From the encoded length and the number of atoms of what matters.
fn budget(len: u64, atoms: u64) -> Budget {
    Budget { bytes: 4 * len + 32 * 1024 * (atoms + 16), memory: 32 * len + 32 * 1024 * (atoms + 16) + (1 << 20) }
}

fn within(cost: Cost, peak: u64, b: &Budget, what: &str) -> Res {
    if cost.read + cost.written > b.bytes || cost.ops > b.bytes {
        return fail("transfers", format!("{what}: {} bytes read and {} written in {} operations, more than {}", cost.read, cost.written, cost.ops, b.bytes));
    }
    if peak > b.memory {
        return fail("memory", format!("{what}: {peak} bytes of memory, more than {}", b.memory));
    }
    Ok(())
}

fn guarded<T>(f: impl FnOnce() -> T) -> (T, u64) {
    alloc::arm();
    let r = f();
    (r, alloc::disarm().0)
}

fn reads(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::STD);
    let small = f.bytes();
    let want = match util::read(&small) {
        Ok(t) => t,
        Err(e) => return fail("refused", format!("a valid file is refused: {}", util::kind(&e))),
    };
    let mut top = f.top.clone();
    for n in sizes(s) {
        let ext = s.chance(1, 3);
        stretch(s, &mut top, n, ext);
    }
    top.iter_mut().for_each(widen);
    let b = budget(small.len() as u64, count(&top));
    let sparse = big::Sparse::new(&top);
    let how = s.below(4);
    c.key(&(mp4::outlines(&top), how));
    c.describe(|| format!("reading ({how}) {}", mp4::outlines(&top)));
    let (r, cost, peak, what);
    match how {
        0 => {
            what = "reading through a reader";
            let mut m = Meter::new(sparse.reader(), 2 * b.bytes);
            (r, peak) = guarded(|| Tag::read_from(&mut m));
            cost = m.cost;
        }
        1 => {
            what = "reading through a buffered reader";
            let mut m = Meter::new(sparse.reader(), 2 * b.bytes);
            (r, peak) = guarded(|| Tag::read_from(&mut BufReader::new(&mut m)));
            cost = m.cost;
        }
        2 => {
            what = "reading a file";
            let m = sparse.mem();
            let mut f = &m.0;
            f.rewind().expect("rewind");
            ((r, peak), cost) = fault::metered(2 * b.bytes, || guarded(|| Tag::read_from(&mut f)));
        }
        _ => {
            what = "reading by path";
            let m = sparse.mem();
            let p = m.path();
            ((r, peak), cost) = fault::metered(2 * b.bytes, || guarded(|| Tag::read_from_path(&p)));
        }
    }
    c.label(what);
    within(cost, peak, &b, what)?;
    match r {
        Ok(t) if t == want => {}
        Ok(_) => return fail("differs", format!("{what}: the tag is another one than without the skipped atoms")),
        Err(e) => return fail("refused", format!("{what}: {e}")),
    }
    c.nontrivial = true;
    Ok(())
}

fn writes(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::STD);
    let small = f.bytes();
    let items = gen::related(s, &f.items, 5, false);
    let tag = model::to_tag(&items);
    let (r, after) = util::write(&tag, &small);
    if let Err(e) = r {
        return fail("refused", format!("writing to a valid file failed: {}", util::kind(&e)));
    }
    let d = after.len() as i64 - small.len() as i64;
    let top = match s.bool() {
        true => before(s, &f.top),
        false => big::stretch(s, &f.top, true),
    };
    let b = budget((small.len() + after.len()) as u64, count(&top));
    let sparse = big::Sparse::new(&top);
    let by_path = s.bool();
    c.key(&(mp4::outlines(&top), by_path, &items));
    c.describe(|| format!("writing {items:?} to {}", mp4::outlines(&top)));
    let m = sparse.mem();
    let mut f = &m.0;
    f.rewind().expect("rewind");
    let p = m.path();
    let ((r, peak), cost) = fault::metered(2 * b.bytes, || {
        guarded(|| match by_path {
            true => tag.write_to_path(&p),
            false => tag.write_to(f),
        })
    });
    let what = if by_path { "writing by path" } else { "writing to a file" };
    c.label(what);
    within(cost, peak, &b, what)?;
    match r {
        Ok(()) => {}
        Err(_) if big::overflows(&top, d) => {
            c.label("length overflow");
            return Ok(());
        }
        Err(e) => return fail("refused", format!("{what}: {e}")),
    }
    c.nontrivial = true;
    Ok(())
}

fn dumps(s: &mut Src, c: &mut Ctx) -> Res {
    let items = gen::items(s, 12, true);
    let tag = model::to_tag(&items);
    c.key(&items);
    c.label("dumping");
    c.describe(|| format!("dumping {items:?}"));
    let mut m = Meter::new(vec![], u64::MAX);
    let (r, peak) = guarded(|| tag.dump_to(&mut m));
    if let Err(e) = r {
        return fail("refused", format!("dumping: {e}"));
    }
    let n = m.t.len() as u64;
    // the vector itself grows while it is written to
    within(m.cost, peak, &budget(n, items.len() as u64), "dumping")?;
    c.nontrivial = true;
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[6, 5, 1]) {
        0 => reads(s, c),
        1 => writes(s, c),
        _ => dumps(s, c),
    }
}
