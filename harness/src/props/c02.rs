//! A write preserves everything but the metadata.
use crate::engine::*;
use crate::gen;
use crate::model::Items;
use crate::mp4::{self, Cc, PNode};
use crate::{big, fault, util};
use std::os::unix::fs::FileExt;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    fixed,
    enumerated: None,
    quick: 500_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a random valid container (random atom order and decoys at every level, 32/64-bit headers, sizes up to and around \
           the I/O buffer size) and one to three tags written one after the other; the atom trees before and after, parsed by a \
           strict independent parser, are compared atom by atom. Non-trivial: the metadata length changed and the movie \
           contains at least one other atom. Distinct by (container bytes, tags).",
    assumptions: &["one movie atom per file", "atom lengths explicit (no length 0 meaning to the end of the file)"],
};

type R = Result<(), String>;

/// Compares the trees of a file before and after a write.
pub fn preserved(b0: &[u8], b1: &[u8]) -> R {
    let t0 = mp4::parse(b0).map_err(|e| format!("the original is malformed: {e}"))?;
    let t1 = mp4::parse(b1).map_err(|e| format!("the written file is malformed: {e}"))?;
    same_list(b0, &t0.iter().collect::<Vec<_>>(), b1, &t1.iter().collect::<Vec<_>>(), b"top ")
}

fn same_list(b0: &[u8], a: &[&PNode], b1: &[u8], b: &[&PNode], at: &Cc) -> R {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.cc != y.cc {
            return Err(format!("child {i} of {} was {:?} and is {:?}", mp4::show(at), mp4::show(&x.cc), mp4::show(&y.cc)));
        }
        same(b0, x, b1, y, at)?;
    }
    if a.len() != b.len() {
        return Err(format!("{} had {} other children and has {}", mp4::show(at), a.len(), b.len()));
    }
    Ok(())
}

fn others<'a>(n: &'a PNode, skip: &[&Cc]) -> Vec<&'a PNode> {
    n.kids().iter().filter(|k| !skip.contains(&&k.cc)).collect()
}

fn same(b0: &[u8], x: &PNode, b1: &[u8], y: &PNode, at: &Cc) -> R {
    if x.prefix != y.prefix {
        return Err(format!("version and flags of {} changed", mp4::show(&x.cc)));
    }
    match (at, &x.cc) {
        (b"top ", b"moov") => match x.find(b"udta") {
            Some(_) => same_list(b0, &others(x, &[]), b1, &others(y, &[]), &x.cc),
            None => {
                let u = y.all(b"udta");
                if u.len() != 1 {
                    return Err(format!("{} user data atoms after the write", u.len()));
                }
                created_udta(b1, u[0])?;
                same_list(b0, &others(x, &[b"udta"]), b1, &others(y, &[b"udta"]), &x.cc)
            }
        },
        (b"moov", b"udta") => match x.find(b"meta") {
            Some(_) => same_list(b0, &others(x, &[]), b1, &others(y, &[]), &x.cc),
            None => {
                let u = y.all(b"meta");
                if u.len() != 1 {
                    return Err(format!("{} metadata atoms after the write", u.len()));
                }
                created_meta(b1, u[0])?;
                same_list(b0, &others(x, &[b"meta"]), b1, &others(y, &[b"meta"]), &x.cc)
            }
        },
        (b"udta", b"meta") => {
            if y.all(b"ilst").len() != 1 {
                return Err(format!("{} item lists after the write", y.all(b"ilst").len()));
            }
            if x.find(b"hdlr").is_none() {
                one_hdlr(b1, y)?;
                same_list(b0, &others(x, &[b"ilst"]), b1, &others(y, &[b"ilst", b"hdlr"]), &x.cc)
            } else {
                same_list(b0, &others(x, &[b"ilst"]), b1, &others(y, &[b"ilst"]), &x.cc)
            }
        }
        (b"moov", b"trak") | (b"trak", b"mdia") | (b"mdia", b"minf") | (b"minf", b"stbl") => {
            if (x.head, x.len) != (y.head, y.len) {
                return Err(format!("header of {} changed", mp4::show(&x.cc)));
            }
            same_list(b0, &others(x, &[]), b1, &others(y, &[]), &x.cc)
        }
        (b"stbl", b"stco" | b"co64") => {
            // the entries are C03's business
            let n = (x.head + 8).min(x.len);
            if x.len != y.len || x.head != y.head || x.raw(b0)[..n] != y.raw(b1)[..n] {
                return Err(format!("header of {} changed", mp4::show(&x.cc)));
            }
            Ok(())
        }
        _ => {
            if !big::same(x.raw(b0), y.raw(b1)) {
                return Err(format!("{} in {} changed: {}", mp4::show(&x.cc), mp4::show(at), util::bdiff(x.raw(b0), y.raw(b1))));
            }
            Ok(())
        }
    }
}

fn created_udta(b1: &[u8], u: &PNode) -> R {
    if u.kids().len() != 1 || u.all(b"meta").len() != 1 {
        return Err("created user data should hold exactly the metadata".into());
    }
    created_meta(b1, u.all(b"meta")[0])
}

fn created_meta(b1: &[u8], m: &PNode) -> R {
    if m.prefix != [0; 4] {
        return Err("created metadata atom with version or flags".into());
    }
    one_hdlr(b1, m)?;
    if m.kids().len() != 2 || m.all(b"ilst").len() != 1 {
        return Err("created metadata should hold exactly a handler and the item list".into());
    }
    Ok(())
}

/// The handler of iTunes metadata: type `mdir`, manufacturer `appl`, nothing else, an empty name.
pub fn itunes(c: &[u8]) -> bool {
    c.len() >= 24 && c[..8] == [0; 8] && &c[8..16] == b"mdirappl" && c[16..].iter().all(|b| *b == 0)
}

/// Exactly one handler, that of iTunes metadata.
pub fn one_hdlr(b: &[u8], m: &PNode) -> R {
    let h = m.all(b"hdlr");
    if h.len() != 1 {
        return Err(format!("{} handler atoms after the write", h.len()));
    }
    let c = h[0].content(b);
    if !itunes(c) {
        return Err(format!("created handler atom is not that of iTunes metadata: {}", util::hex(c)));
    }
    Ok(())
}

/// Writes the tags one after the other, checking every step against the file before.
pub fn writes(b: &[u8], tags: &[Items], mut f: impl FnMut(&[u8], &[u8]) -> Res) -> Result<Vec<u8>, Fail> {
    let mut cur = b.to_vec();
    for t in tags {
        let (r, after) = util::write(&crate::model::to_tag(t), &cur);
        if let Err(e) = r {
            return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
        }
        f(&cur, &after)?;
        cur = after;
    }
    Ok(cur)
}

/// The same for one tag and the file stretched by a huge atom.
pub fn huge(s: &mut Src, small: &[mp4::Node], tag: &Items, f: impl FnOnce(&[u8], &[u8]) -> Result<(), String>, sig: &'static str, c: &mut Ctx) -> Res {
    let b = mp4::encode(small);
    let d = util::write(&crate::model::to_tag(tag), &b).1.len() as i64 - b.len() as i64;
    let behind = s.chance(1, 8);
    let top = if behind { big::behind(s, small) } else { big::stretch(s, small, true) };
    let sparse = big::Sparse::new(&top);
    c.label(if behind { "moves at least 64 KiB" } else { "file beyond 2 GiB" });
    c.key(&(mp4::outlines(&top), tag));
    c.describe(|| format!("stretched {} tag {tag:?}", mp4::outlines(&top)));
    let (old, new) = (sparse.mem(), sparse.mem());
    let r = big::write(&crate::model::to_tag(tag), &new);
    let (x, y) = (big::Map::new(&old), big::Map::new(&new));
    if big::outcome(&r, big::overflows(&top, d), &x, &y)? {
        f(&x, &y).map_err(|m| Fail { sig: sig.into(), msg: m })?;
    } else {
        c.label("length overflow");
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::STD);
    let n = 1 + s.weighted(&[4, 2, 1]);
    let mut tags: Vec<Items> = vec![];
    for _ in 0..n {
        let t = gen::related(s, tags.last().unwrap_or(&f.items), 6, true);
        tags.push(t);
    }
    let b = f.bytes();
    f.label(c);
    c.key(&(&b, &tags));
    c.describe(|| format!("file {} tags {:?}", mp4::outlines(&f.top), tags));
    c.evals = n as u64;
    c.label_if(n > 1, "several writes");
    let mut grown = false;
    let mut shrunk = false;
    writes(&b, &tags, |x, y| {
        grown |= y.len() > x.len();
        shrunk |= y.len() < x.len();
        preserved(x, y).map_err(|m| Fail { sig: "not-preserved".into(), msg: m })
    })?;
    c.label_if(grown, "metadata grew");
    c.label_if(shrunk, "metadata shrank");
    let movie = f.top.iter().find(|n| &n.cc == b"moov").unwrap();
    c.nontrivial = (grown || shrunk) && movie.kids().iter().any(|k| &k.cc != b"udta");
    if s.chance(1, 64) {
        c.evals += 1;
        huge(s, &f.top, &tags[0], preserved, "not-preserved", c)?;
    }
    if let Some(b) = util::sample(s, c) {
        writes(b, &tags, |x, y| preserved(x, y).map_err(|m| Fail { sig: "not-preserved".into(), msg: m }))?;
    }
    Ok(())
}

/// Items too long for 32-bit lengths are refused, even if the atoms around them have 64-bit ones;
/// several items may be longer together.
fn fixed(c: &mut Ctx) -> Res {
    let ext = |mut n: mp4::Node| {
        n.ext = true;
        n
    };
    let meta = |kids| ext(mp4::full(b"meta", vec![0; 4], kids));
    let hdlr = || mp4::leaf(b"hdlr", b"\0\0\0\0\0\0\0\0mdirappl\0\0\0\0\0\0\0\0\0".to_vec());
    let ilst = || mp4::cont(b"ilst", vec![]);
    let udta: Vec<Vec<mp4::Node>> = vec![
        vec![],
        vec![ext(mp4::cont(b"udta", vec![]))],
        vec![ext(mp4::cont(b"udta", vec![meta(vec![])]))],
        vec![ext(mp4::cont(b"udta", vec![meta(vec![hdlr()])]))],
        vec![ext(mp4::cont(b"udta", vec![meta(vec![hdlr(), ilst()])]))],
        vec![ext(mp4::cont(b"udta", vec![meta(vec![hdlr(), ext(ilst())])]))],
    ];
    for (k, u) in udta.into_iter().enumerate() {
        let b = mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), ext(mp4::cont(b"moov", u)), mp4::leaf(b"mdat", vec![1; 9])]);
        for z in big::zeros(90) {
            let (t, lens) = (z.tag(), z.lens());
            let m = util::Mem::new(&b);
            c.evals += 1;
            fault::arm(m.fd(), fault::Kind::Holes, -1, 1, 100_000);
            let r = t.write_to(&m.0);
            fault::disarm();
            drop(t);
            big::limits();
            let n = m.0.metadata().map_or(0, |x| x.len());
            let what = format!("writing items of {lens:?} bytes to file {k}");
            match (r, lens.iter().any(|n| *n > u32::MAX as u64)) {
                (Err(e), false) => return fail("write-refused", format!("{what} failed: {}", util::kind(&e))),
                (Ok(()), true) => return fail("wrapped-length", format!("{what} succeeded")),
                (Err(_), true) if n == b.len() as u64 && m.get() == b => {}
                (Err(_), true) => return fail("refused-but-changed", format!("{what} was refused but changed it")),
                (Ok(()), false) => {
                    let bad = |e: String| Fail { sig: "not-preserved".into(), msg: format!("{what}: {e}") };
                    z.walk(&m, &[b"moov", b"udta", b"meta", b"ilst"], 0, n).map_err(bad)?;
                    let top = big::atoms(&m, 0, n).map_err(bad)?;
                    let names: Vec<String> = top.iter().map(|a| mp4::show(&a.0)).collect();
                    let mut end = [0; 17];
                    let _ = m.0.read_exact_at(&mut end, n.saturating_sub(17));
                    if names != ["ftyp", "moov", "mdat"] || end != *b"\0\0\0\x11mdat\x01\x01\x01\x01\x01\x01\x01\x01\x01" {
                        return Err(bad(format!("top level {names:?}, end {}", util::hex(&end))));
                    }
                }
            }
        }
    }
    Ok(())
}
