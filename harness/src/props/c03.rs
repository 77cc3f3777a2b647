//! Chunk offsets keep addressing the same media.
use super::c02::{huge, writes};
use crate::engine::*;
use crate::gen;
use crate::model::{self, Id, Items, Ty, Val};
use crate::mp4::{self, Body, ChunkRef, PNode};
use crate::util;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    fixed,
    enumerated: None,
    quick: 500_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a random valid container whose tables point into top-level media atoms before and after the movie (tables of up to \
           3000 entries), and one to three tags written one after the other; every entry is resolved to (media atom, position \
           in it) before and after. One case in eight has an entry near the limit of its table instead: then success needs an \
           entry that was not wrapped, and refusal an unchanged file. Non-trivial: at least one entry and the file length \
           changed, or an entry near the limit. Distinct by (container bytes, tags).",
    assumptions: &["one movie atom per file", "chunk data lies outside the movie atom"],
};

/// All tables in file order with their entries.
pub fn tables(b: &[u8]) -> Result<Vec<(bool, Vec<u64>)>, String> {
    let t = mp4::parse(b)?;
    let mut out = vec![];
    fn walk(b: &[u8], n: &PNode, path: &mut Vec<mp4::Cc>, out: &mut Vec<(bool, Vec<u64>)>) -> Result<(), String> {
        path.push(n.cc);
        let p: Vec<&mp4::Cc> = path.iter().collect();
        if p[..p.len() - 1] == [b"moov", b"trak", b"mdia", b"minf", b"stbl"] && (&n.cc == b"stco" || &n.cc == b"co64") {
            let wide = &n.cc == b"co64";
            let w = if wide { 8 } else { 4 };
            let c = n.content(b);
            if c.len() < 8 || (c.len() - 8) % w != 0 {
                return Err("table length".into());
            }
            let k = u32::from_be_bytes(c[4..8].try_into().unwrap()) as usize;
            let e: Vec<u64> = c[8..].chunks(w).map(|x| x.iter().fold(0, |a, y| a << 8 | *y as u64)).collect();
            if k != e.len() {
                return Err(format!("table declares {k} entries and has {}", e.len()));
            }
            out.push((wide, e));
        }
        for k in n.kids() {
            walk(b, k, path, out)?;
        }
        path.pop();
        Ok(())
    }
    for n in &t {
        walk(b, n, &mut vec![], &mut out)?;
    }
    Ok(out)
}

/// (index of top-level atom, position inside its content) of a file offset.
fn resolve(t: &[PNode], off: u64) -> Option<(usize, u64)> {
    let i = t.iter().position(|n| off >= (n.pos + n.head) as u64 && off < n.end() as u64)?;
    Some((i, off - (t[i].pos + t[i].head) as u64))
}

pub fn same_media(b0: &[u8], b1: &[u8]) -> Result<(), String> {
    let (a, b) = (tables(b0)?, tables(b1).map_err(|e| format!("after the write: {e}"))?);
    let (t0, t1) = (mp4::parse(b0)?, mp4::parse(b1)?);
    if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.0 != y.0 || x.1.len() != y.1.len()) {
        return Err("number of tables or entries changed".into());
    }
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        for (j, (p, q)) in x.1.iter().zip(&y.1).enumerate() {
            let w = resolve(&t0, *p);
            if w.is_some() && w != resolve(&t1, *q) {
                return Err(format!(
                    "table {i} entry {j} pointed at {w:?} (atom, position) by offset {p} and points at {:?} by offset {q}; the file grew by {}",
                    resolve(&t1, *q),
                    b1.len() as i64 - b0.len() as i64
                ));
            }
        }
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::STD;
    o.big_tables = true;
    let mut f = gen::file(s, &o);
    let limit = s.chance(1, 8);
    let n = if limit { 1 } else { 1 + s.weighted(&[4, 2, 1]) };
    if limit {
        // replace one entry by a value near the limit of its table
        let k = s.idx(f.chunks.max(1));
        let back = s.below(40);
        let far = s.below(4000);
        let mut i = 0;
        for t in f.top.iter_mut() {
            t.walk_mut(&mut |x| {
                if let Body::Chunks { wide, entries, .. } = &mut x.body {
                    for e in entries.iter_mut() {
                        if i == k {
                            let max = if *wide { u64::MAX } else { u32::MAX as u64 };
                            *e = ChunkRef::Raw(max - if back < 30 { back } else { far });
                        }
                        i += 1;
                    }
                }
            });
        }
    }
    let mut tags: Vec<Items> = vec![];
    for _ in 0..n {
        let t = gen::related(s, tags.last().unwrap_or(&f.items), 6, true);
        tags.push(t);
    }
    let b = f.bytes();
    f.label(c);
    c.key(&(&b, &tags));
    c.describe(|| format!("file {} tags {:?}{}", mp4::outlines(&f.top), tags, if limit { " entry near the limit" } else { "" }));
    c.evals = n as u64;
    if limit && f.chunks > 0 {
        c.label("entry near the limit");
        c.nontrivial = true;
        return near_limit(&b, &tags[0], c);
    }
    let mut moved = false;
    writes(&b, &tags, |x, y| {
        moved |= x.len() != y.len();
        same_media(x, y).map_err(|m| Fail { sig: "wrong-offset".into(), msg: m })
    })?;
    c.label_if(moved && f.chunks > 16, "large table");
    c.nontrivial = moved && f.chunks > 0;
    if s.chance(1, 64) {
        c.evals += 1;
        huge(s, &f.top, &tags[0], same_media, "wrong-offset", c)?;
    }
    if let Some(b) = util::sample(s, c) {
        writes(b, &tags, |x, y| same_media(x, y).map_err(|m| Fail { sig: "wrong-offset".into(), msg: m }))?;
    }
    Ok(())
}

fn near_limit(b: &[u8], items: &Items, c: &mut Ctx) -> Res {
    let (r, after) = util::write(&model::to_tag(items), b);
    match r {
        Err(_) => {
            c.label("refused");
            if after != b {
                return fail("refused-but-changed", format!("the write was refused but the file changed: {}", util::bdiff(b, &after)));
            }
            Ok(())
        }
        Ok(()) => {
            let (x, y) = (tables(b).unwrap(), tables(&after).map_err(|e| Fail { sig: "malformed".into(), msg: e })?);
            let d = (after.len() as u64).wrapping_sub(b.len() as u64);
            for (p, q) in x.iter().zip(&y) {
                for (v, w) in p.1.iter().zip(&q.1) {
                    let wraps = *w != *v && (*w != v.wrapping_add(d) || (*w < *v) != (after.len() < b.len()));
                    if wraps {
                        return fail("wrapped-offset", format!("the offset {v} of a {}-bit table became {w}; the file grew by {}", if p.0 { 64 } else { 32 }, d as i64));
                    }
                }
            }
            same_media(b, &after).map_err(|m| Fail { sig: "wrong-offset".into(), msg: m })
        }
    }
}

fn fixed(c: &mut Ctx) -> Res {
    use mp4::{cont, leaf, Node};
    let media = |i: u32| Node { cc: *b"mdat", ext: false, prefix: vec![], body: Body::Media(i, vec![i as u8 + 1; 8]), lie: None, suffix: vec![] };
    let table = |wide: bool, e: Vec<ChunkRef>| Node {
        cc: if wide { *b"co64" } else { *b"stco" },
        ext: false,
        prefix: vec![],
        body: Body::Chunks { wide, version: 0, flags: [0; 3], entries: e, count: None },
        lie: None,
        suffix: vec![],
    };
    let trak = |t: Node| cont(b"trak", vec![cont(b"mdia", vec![cont(b"minf", vec![cont(b"stbl", vec![t])])])]);
    let ft = || leaf(b"ftyp", b"M4A ".to_vec());
    let tag: Items = vec![(Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf8, "a title")])];
    let go = |top: &[Node]| -> Res {
        writes(&mp4::encode(top), &[tag.clone(), vec![]], |x, y| {
            same_media(x, y).map_err(|m| Fail { sig: "wrong-offset".into(), msg: m })
        })
        .map(|_| ())
    };
    for wide in [false, true] {
        let e = || vec![ChunkRef::At(0, 0), ChunkRef::At(1, 7)];
        // media on both sides; user data before the track
        for udta_first in [false, true] {
            let mut k = vec![trak(table(wide, e())), cont(b"udta", vec![])];
            if udta_first {
                k.reverse();
            }
            for (x, y) in [(0, 1), (1, 0)] {
                go(&[ft(), media(x), cont(b"moov", k.clone()), media(y)])?;
            }
            go(&[ft(), media(0), media(1), cont(b"moov", k.clone())])?;
            go(&[ft(), cont(b"moov", k.clone()), media(0), media(1)])?;
        }
        // a table that cannot hold the new offsets
        let max = if wide { u64::MAX } else { u32::MAX as u64 };
        let b = mp4::encode(&[ft(), cont(b"moov", vec![trak(table(wide, vec![ChunkRef::Raw(max)]))]), media(0)]);
        near_limit(&b, &tag, c)?;
    }
    Ok(())
}
