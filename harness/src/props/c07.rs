//! Reading any bytes terminates cleanly.
use crate::engine::*;
use crate::mp4::{cont, encode, full, leaf, Body, Node};
use crate::util::{self, Counting};
use crate::{access, alloc, gen, hostile};
use mp4ameta::Tag;
use std::io::{BufReader, Cursor};

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    fixed,
    enumerated: None,
    quick: 2_000_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a random valid container with one to three structural corruptions (length lies at any atom, versions, counts, missing \
           or duplicated or renamed atoms, stray bytes) and up to two byte-level ones (cuts, insertions, deletions, overwritten \
           headers), plus random bytes and soups of atom headers; the read must return within a bounded number of reader \
           operations and of allocated bytes, and the resulting tag must survive every read accessor, Display and Debug. \
           Non-trivial: the input is corrupted. Distinct by input bytes.",
    assumptions: &[
        "bounded means at most n*n/2 + 64n + 100000 reader operations and 64n + 4 MiB of live allocations for n input bytes",
    ],
};

/// Reads with every guard on.
pub fn total(b: &[u8], c: &mut Ctx) -> Res {
    let n = b.len() as u64;
    let mut r = Counting::new(b, n * n / 2 + 64 * n + 100_000);
    alloc::arm();
    let t = Tag::read_from(&mut r);
    let (peak, largest) = alloc::disarm();
    if r.over() {
        return fail("too-many-operations", format!("more than {} reader operations for {n} bytes", r.limit));
    }
    if peak > 64 * n + (4 << 20) {
        return fail("allocation", format!("{peak} bytes allocated (largest request {largest}) while reading {n} bytes"));
    }
    match t {
        Err(e) => {
            c.label("rejected");
            let _ = (e.to_string(), format!("{e:?}"));
        }
        Ok(t) => {
            c.label("accepted");
            c.label_if(!t.is_empty(), "accepted with items");
            inspect(&t);
        }
    }
    Ok(())
}

pub fn inspect(t: &Tag) {
    let mut n = access::inspect(t);
    n += t.to_string().len() + format!("{t:?}").len() + format!("{t:#?}").len();
    n += (t.clone() == *t) as usize;
    std::hint::black_box(n);
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::SMALL;
    o.big = s.chance(1, 10);
    let h = hostile::file(s, &o);
    c.nontrivial = !h.clean;
    c.key(&h.bytes);
    c.describe(|| format!("{} bytes, built from {}", h.bytes.len(), h.outline));
    total(&h.bytes, c)?;
    if s.chance(1, 16) {
        // the file system reports impossible positions differently from a memory buffer
        c.label("through a file");
        let m = util::Mem::new(&h.bytes);
        match s.below(3) {
            0 => drop(Tag::read_from(&mut BufReader::new(&m.0))),
            1 => drop(Tag::read_from(&mut &m.0)),
            _ => drop(Tag::read_from_path(m.path())),
        }
    }
    Ok(())
}

/// Files in which one atom on the way to every part the reader interprets lies about its length.
pub fn lies() -> Vec<Vec<u8>> {
    let data = |t: u32, b: &[u8]| {
        let mut v = t.to_be_bytes().to_vec();
        v.extend([0; 4]);
        v.extend(b);
        leaf(b"data", v)
    };
    let st = |cc: &[u8; 4]| leaf(cc, b"\0\0\0\0abc".to_vec());
    let mut mvhd = vec![0; 8 + 4];
    mvhd.extend(1000u32.to_be_bytes());
    mvhd.extend(5000u32.to_be_bytes());
    mvhd.extend([0; 80]);
    let es = vec![0, 0, 0, 0, 3, 25, 0, 0, 0, 4, 17, 0x40, 0x15, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2, 5, 2, 0x12, 0x10, 6, 1, 2];
    let table = |wide: bool| Node {
        cc: if wide { *b"co64" } else { *b"stco" },
        ext: false,
        prefix: vec![],
        body: Body::Chunks { wide, version: 0, flags: [0; 3], entries: vec![crate::mp4::ChunkRef::At(0, 0)], count: None },
        lie: None,
        suffix: vec![],
    };
    let stbl = cont(
        b"stbl",
        vec![
            full(b"stsd", vec![0, 0, 0, 0, 0, 0, 0, 1], vec![full(b"mp4a", vec![0; 28], vec![leaf(b"esds", es)])]),
            table(false),
            table(true),
        ],
    );
    let ilst = cont(
        b"ilst",
        vec![
            cont(b"\xa9nam", vec![data(1, b"abc")]),
            leaf(b"free", vec![0; 5]),
            cont(b"----", vec![st(b"mean"), st(b"name"), data(2, &[0, 97])]),
            cont(b"covr", vec![data(13, &[0xff; 9])]),
            cont(b"cpil", vec![data(21, &[1]), leaf(b"zzzz", vec![0; 3])]),
        ],
    );
    let moov = cont(
        b"moov",
        vec![
            leaf(b"mvhd", mvhd),
            cont(b"trak", vec![cont(b"mdia", vec![cont(b"minf", vec![stbl])])]),
            cont(b"udta", vec![full(b"meta", vec![0; 4], vec![leaf(b"hdlr", vec![0; 25]), ilst])]),
        ],
    );
    let media = Node { cc: *b"mdat", ext: false, prefix: vec![], body: Body::Media(0, vec![7; 9]), lie: None, suffix: vec![] };
    let base = vec![leaf(b"ftyp", b"M4A ".to_vec()), leaf(b"free", vec![0; 4]), moov, media];
    let mut count = 0;
    base.iter().for_each(|n| n.walk(&mut |_| count += 1));
    let mut out = vec![encode(&base)];
    let l32 = [0u64, 1, 2, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 1 << 16, 1 << 30, (1 << 31) - 1, 1 << 31, u32::MAX as u64 - 8, u32::MAX as u64];
    let l64 = [
        0u64, 1, 8, 9, 15, 16, 17, 20, 24, 1 << 16, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 63) + 8, (1 << 63) + 16,
        u64::MAX, u64::MAX - 7, u64::MAX - 15, u64::MAX - 16, u64::MAX - 31, i64::MAX as u64 - 8, i64::MAX as u64 - 16,
    ];
    for k in 0..count {
        for (ext, ls) in [(false, &l32[..]), (true, &l64[..])] {
            for l in ls {
                let mut t = base.clone();
                let mut i = 0;
                for n in t.iter_mut() {
                    n.walk_mut(&mut |n| {
                        if i == k {
                            n.ext = ext;
                            n.lie = Some(*l);
                        }
                        i += 1;
                    });
                }
                out.push(encode(&t));
            }
        }
    }
    out
}

/// An audio track of which the k-th descriptor has the given length field.
fn crooked(k: usize, l: &[u8]) -> Vec<u8> {
    let ls: [&[u8]; 4] = [&[25], &[17], &[2], &[1]];
    let l = |i: usize| if i == k { l } else { ls[i] };
    let es = [
        &[0, 0, 0, 0, 3], l(0), &[0, 0, 0, 4], l(1), &[0x40, 0x15, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2, 5], l(2), &[0x12, 0x10, 6], l(3), &[2],
    ];
    let stsd = full(b"stsd", vec![0, 0, 0, 0, 0, 0, 0, 1], vec![full(b"mp4a", vec![0; 28], vec![leaf(b"esds", es.concat())])]);
    let trak = cont(b"trak", vec![cont(b"mdia", vec![cont(b"minf", vec![cont(b"stbl", vec![stsd])])])]);
    encode(&[leaf(b"ftyp", b"M4A ".to_vec()), leaf(b"free", vec![0; 400]), cont(b"moov", vec![trak])])
}

fn fixed(c: &mut Ctx) -> Res {
    for b in lies() {
        total(&b, c).map_err(|f| Fail { sig: f.sig, msg: format!("{} [{}]", f.msg, util::hex(&b)) })?;
        let _ = Tag::read_from(&mut BufReader::new(Cursor::new(&b)));
        c.evals += 1;
    }
    // descriptor lengths in every form, small negative ones included
    for k in 0..4usize {
        for n in 1..=12usize {
            let around = (0..80u64).chain((0..80).map(|i: u64| i.wrapping_neg())).chain((0..24).map(|i| (1u64 << (7 * n.min(9))) - 1 - i));
            for v in around.chain([1 << 31, 1 << 32, 1 << 40, i64::MAX as u64, 1 << 63]) {
                let b = crooked(k, &hostile::descriptor_length(v, n));
                total(&b, c).map_err(|f| Fail { sig: f.sig, msg: format!("{} [{}]", f.msg, util::hex(&b)) })?;
                c.evals += 1;
            }
        }
    }
    // every byte of a small file set to every boundary value
    let b = &lies()[0];
    for p in 0..b.len() {
        for v in [0u8, 1, 2, 4, 7, 8, 0x7f, 0x80, 0xff] {
            let mut x = b.clone();
            x[p] = v;
            total(&x, c).map_err(|f| Fail { sig: f.sig, msg: format!("{} [{}]", f.msg, util::hex(&x)) })?;
            c.evals += 1;
        }
    }
    Ok(())
}
