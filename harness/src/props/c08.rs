//! A refused write leaves the file untouched.
use super::c07::lies;
use crate::engine::*;
use crate::model::{self, diff, flat, of_tag, Id, Items, Ty, Val};
use crate::util::{self, Mem};
use crate::{alloc, fault, gen, hostile, mp4};

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    fixed,
    enumerated: None,
    quick: 1_500_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a random tag written to a corrupted container (see C07); an error must leave content and length as they were, success \
           on a strictly well-formed file with one movie atom that was readable before must make the written values readable, \
           and every write stays within bounded file operations and allocations. Non-trivial: the file is corrupted. Distinct \
           by (file bytes, items).",
    assumptions: &[
        "bounded means at most n*n/2 + 64(n+m) + 100000 file operations and 64(n+m) + 4 MiB of live allocations for n bytes of file and m of metadata",
    ],
};

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// Splits exactly into (name, content).
fn atoms(mut b: &[u8]) -> Option<Vec<(&[u8], &[u8])>> {
    let mut o = vec![];
    while !b.is_empty() {
        let mut l = be(b.get(..4)?);
        let mut h = 8;
        if l == 1 {
            l = be(b.get(8..16)?);
            h = 16;
        }
        if l < h {
            return None;
        }
        o.push((b.get(4..8)?, b.get(h as usize..l as usize)?));
        b = &b[l as usize..];
    }
    Some(o)
}

/// Descriptors that exactly fill `b`, recursively.
fn descriptors(mut b: &[u8]) -> Option<()> {
    while !b.is_empty() {
        let tag = b[0];
        let (mut l, mut h) = (0usize, 1);
        loop {
            let x = *b.get(h)?;
            l = l << 7 | (x & 0x7f) as usize;
            h += 1;
            if x & 0x80 == 0 || h == 5 {
                break;
            }
        }
        let c = b.get(h..h + l)?;
        match tag {
            3 => descriptors(c.get(gen::es_head_len(c)?..)?)?,
            4 => descriptors(c.get(13..)?)?,
            5 => drop(c.get(..2)?),
            _ => {}
        }
        b = &b[h + l..];
    }
    Some(())
}

/// No atom the reader interprets has content reaching beyond its end.
fn self_contained(b: &[u8], t: &[mp4::PNode]) -> Option<()> {
    let moov = t.iter().find(|x| &x.cc == b"moov")?;
    for m in moov.all(b"mvhd") {
        let c = m.content(b);
        c.get(if *c.first()? == 1 { 31 } else { 19 })?;
    }
    for k in moov.all(b"trak").iter().flat_map(|x| x.all(b"mdia")).flat_map(|x| x.all(b"minf")).flat_map(|x| x.all(b"stbl")).flat_map(|x| x.all(b"stsd")) {
        for (cc, c) in atoms(k.content(b).get(8..)?)? {
            if cc == b"mp4a" {
                for (cc, c) in atoms(c.get(28..)?)? {
                    if cc == b"esds" {
                        descriptors(c.get(4..)?)?;
                    }
                }
            }
        }
    }
    super::c05::independent(b).ok().map(drop)
}

pub fn total(b: &[u8], items: &Items, c: &mut Ctx) -> Res {
    let tag = model::to_tag(items);
    let n = b.len() as u64;
    let m: u64 = flat(items).iter().map(|x| x.1.encoded().len() as u64 + 500).sum();
    let f = Mem::new(b);
    fault::arm(f.fd(), fault::Kind::None, -1, 1, (n * n / 2 + 64 * (n + m) + 100_000) as i64);
    alloc::arm();
    let r = tag.write_to(&f.0);
    let (peak, largest) = alloc::disarm();
    let rep = fault::disarm();
    if rep.over_limit {
        return fail("too-many-operations", format!("more than {} operations on a file of {n} bytes", rep.ops));
    }
    if peak > 64 * (n + m) + (4 << 20) {
        return fail("allocation", format!("{peak} bytes allocated (largest request {largest}) writing to a file of {n} bytes"));
    }
    let after = f.get();
    match r {
        Err(e) => {
            c.label("refused");
            let _ = (e.to_string(), format!("{e:?}"));
            if after != b {
                return fail("refused-but-changed", format!("the write failed ({}) and changed the file: {}", util::kind(&e), util::bdiff(b, &after)));
            }
        }
        Ok(()) => {
            c.label("accepted");
            let Ok(t) = mp4::parse(b) else {
                c.label("accepted although malformed");
                return Ok(());
            };
            if t.iter().filter(|x| &x.cc == b"moov").count() != 1 || self_contained(b, &t).is_none() || util::read(b).is_err() {
                return Ok(());
            }
            c.label("accepted and well formed");
            match util::read(&after) {
                Err(e) => return fail("unreadable", format!("the file was readable before the write and is not after it: {}", util::kind(&e))),
                Ok(t) => {
                    if let Some(d) = diff(&flat(items), &of_tag(&t)) {
                        return fail("differs", format!("after a successful write: {d}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::SMALL;
    o.big = s.chance(1, 10);
    let h = hostile::file(s, &o);
    let items = gen::related(s, &h.items, 4, false);
    c.nontrivial = !h.clean;
    c.key(&(&h.bytes, &items));
    c.describe(|| format!("{} bytes, built from {}; items {:?}", h.bytes.len(), h.outline, items));
    total(&h.bytes, &items, c)
}

fn fixed(c: &mut Ctx) -> Res {
    let tag: Items = vec![(Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf8, "a title")])];
    let at = |b: &[u8], f: Fail| Fail { sig: f.sig, msg: format!("{} [{}]", f.msg, util::hex(b)) };
    for b in lies() {
        for items in [&tag, &vec![]] {
            total(&b, items, c).map_err(|f| at(&b, f))?;
            c.evals += 1;
        }
    }
    // a parent that ends before its child does: refused, or still readable afterwards
    let d = mp4::leaf(b"data", b"\0\0\0\x01\0\0\0\0some text".to_vec());
    let il = mp4::cont(b"ilst", vec![mp4::cont(b"\xa9alb", vec![d])]);
    for who in 0..4 {
        for cut in 1..60u64 {
            let mut t = vec![
                mp4::leaf(b"ftyp", b"M4A ".to_vec()),
                mp4::cont(b"moov", vec![mp4::cont(b"udta", vec![mp4::full(b"meta", vec![0; 4], vec![il.clone()])])]),
            ];
            let mut i = 0;
            t[1].walk_mut(&mut |n| {
                if i == who {
                    n.lie = n.len().checked_sub(cut);
                }
                i += 1;
            });
            let b = mp4::encode(&t);
            if util::read(&b).is_err() {
                continue;
            }
            for items in [&tag, &vec![]] {
                let (r, after) = util::write(&model::to_tag(items), &b);
                match r {
                    Err(_) if after != b => return fail("refused-but-changed", format!("the write failed and changed the file [{}]", util::hex(&b))),
                    Ok(()) if util::read(&after).map(|t| of_tag(&t)).ok() != Some(flat(items)) => {
                        return fail("destroyed", format!("a file that can be read cannot after a successful write [{}]", util::hex(&b)));
                    }
                    _ => {}
                }
                c.evals += 1;
            }
        }
    }
    let b = &lies()[0];
    for p in 0..b.len() {
        for v in [0u8, 1, 2, 7, 8, 0x7f, 0x80, 0xff] {
            let mut x = b.clone();
            x[p] = v;
            total(&x, &tag, c).map_err(|f| at(&x, f))?;
            c.evals += 1;
        }
        total(&b[..p], &tag, c).map_err(|f| at(&b[..p], f))?;
    }
    Ok(())
}
