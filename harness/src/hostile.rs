//! Structure-aware corruption of containers.
use crate::engine::Src;
use crate::gen::{self, File};
use crate::mp4::{encode, Body, Node};

/// Hostile length for an atom whose true length is `t`, with `after` bytes of file behind its start.
fn length(s: &mut Src, t: u64, ext: bool) -> u64 {
    if ext {
        match s.weighted(&[3, 3, 2, 2]) {
            0 => *s.pick(&[
                0, 1, 7, 8, 9, 15, 16, 17, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 40, i64::MAX as u64, 1 << 63,
                (1 << 63) + 16, u64::MAX, u64::MAX - 7, u64::MAX - 8, u64::MAX - 15, u64::MAX - 16, i64::MAX as u64 - 8,
                i64::MAX as u64 - 16, i64::MAX as u64 + 8, i64::MAX as u64 + 24,
            ]),
            1 => (t + s.below(33)).wrapping_sub(16),
            2 => s.below(t * 2 + 2),
            // small negative numbers: jumps backwards if mistaken for signed
            _ => (s.below(t * 4 + 64)).wrapping_neg(),
        }
    } else {
        match s.weighted(&[3, 3, 2, 1]) {
            0 => *s.pick(&[0, 1, 2, 7, 8, 9, 11, 12, 15, 16, 17, 1 << 16, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX as u64, u32::MAX as u64 - 7]),
            1 => (t + s.below(17)).saturating_sub(8),
            2 => s.below(t * 2 + 2),
            _ => s.u32() as u64,
        }
    }
}

fn count(top: &[Node]) -> usize {
    let mut n = 0;
    for t in top {
        t.walk(&mut |_| n += 1);
    }
    n
}

/// Applies `f` to the k-th node in pre-order.
fn at(top: &mut [Node], k: usize, f: &mut dyn FnMut(&mut Node)) {
    let mut i = 0;
    for t in top.iter_mut() {
        t.walk_mut(&mut |n| {
            if i == k {
                f(n);
            }
            i += 1;
        });
    }
}

fn mutate_bytes(s: &mut Src, b: &mut Vec<u8>) {
    match s.below(6) {
        0 if !b.is_empty() => {
            let p = s.idx(b.len());
            b[p] = s.u8();
        }
        1 if !b.is_empty() => {
            let p = s.idx(b.len());
            b[p] ^= 1 << s.below(8);
        }
        2 => {
            let p = s.idx(b.len() + 1);
            b.truncate(p);
        }
        3 => {
            let n = s.idx(20);
            let x = gen::fill(s.below(256), n);
            b.extend(x);
        }
        4 if b.len() >= 4 => {
            let p = s.idx(b.len() - 3);
            let v = *s.pick(&[0u32, 1, 0xff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0, 8]);
            b[p..p + 4].copy_from_slice(&v.to_be_bytes());
        }
        _ if !b.is_empty() => {
            // descriptor and version bytes live at the start
            let p = s.idx(b.len().min(24));
            b[p] = *s.pick(&[0u8, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff]);
        }
        _ => {}
    }
}

/// Positions of the length fields of all descriptors in `b`, of which the one at `b[0]` is at file position `at`.
fn length_fields(b: &[u8], at: usize, o: &mut Vec<(usize, usize, u64)>) {
    let mut p = 0;
    while p < b.len() {
        let (tag, mut l, mut h) = (b[p], 0usize, p + 1);
        while h < b.len() {
            l = l << 7 | (b[h] & 0x7f) as usize;
            h += 1;
            if b[h - 1] & 0x80 == 0 || h == p + 5 {
                break;
            }
        }
        if h > b.len() || h == p + 1 {
            return;
        }
        o.push((at + p + 1, h - p - 1, l as u64));
        let e = (h + l).min(b.len());
        let c = &b[h..e];
        let head = match tag {
            3 => gen::es_head_len(c),
            4 => Some(13),
            _ => None,
        };
        if let Some(k) = head.filter(|k| *k < c.len()) {
            length_fields(&c[k..], at + h + k, o);
        }
        p = h + l;
    }
}

/// Length field of a descriptor with `k` bytes.
pub fn descriptor_length(v: u64, k: usize) -> Vec<u8> {
    (0..k).rev().map(|i| (if i < 10 { v >> (7 * i) } else { 0 }) as u8 & 0x7f | if i > 0 { 0x80 } else { 0 }).collect()
}

/// Replaces the length of one descriptor of an esds atom.
fn descriptor_lie(s: &mut Src, b: &mut Vec<u8>) {
    let mut f = vec![];
    if b.len() > 4 {
        length_fields(&b[4..], 4, &mut f);
    }
    if f.is_empty() {
        return;
    }
    let (p, n, l) = f[s.idx(f.len())];
    let k = match s.weighted(&[2, 2, 2]) {
        0 => n,
        1 => 1 + s.idx(12),
        _ => 10,
    };
    let v = match s.weighted(&[3, 2, 2, 1]) {
        0 => length(s, l, true),
        1 => l,
        2 => s.below(40 + l * 2).wrapping_neg(),
        _ => *s.pick(&[0, 1, 2, 3, 12, 13, 14, 127, 128, 16383, 16384, (1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28]),
    };
    b.splice(p..p + n, descriptor_length(v, k));
}

/// One structural corruption.
fn structural(s: &mut Src, top: &mut Vec<Node>) {
    let n = count(top);
    // nodes the library interprets are more interesting than filler
    let mut k = s.idx(n);
    for _ in 0..3 {
        let mut good = false;
        at(top, k, &mut |x| good = matches!(x.body, Body::Kids(_) | Body::Chunks { .. }) || [*b"data", *b"esds", *b"mvhd", *b"mean", *b"name", *b"ftyp", *b"hdlr"].contains(&x.cc));
        if good {
            break;
        }
        k = s.idx(n);
    }
    let op = s.weighted(&[6, 4, 2, 2, 2, 1, 1, 2]);
    let mut dup = None;
    at(top, k, &mut |x| match op {
        0 => {
            if s.chance(1, 3) {
                x.ext = !x.ext;
            }
            x.lie = Some(length(s, x.len(), x.ext));
        }
        1 => match &mut x.body {
            Body::Leaf(b) if &x.cc == b"esds" && s.chance(2, 3) => descriptor_lie(s, b),
            Body::Leaf(b) => mutate_bytes(s, b),
            Body::Chunks { version, count, entries, .. } => match s.below(4) {
                0 => *version = s.u8(),
                1 => *count = Some(*s.pick(&[0, 1, 2, 0x3fff_ffff, 0x4000_0000, 0x1fff_ffff, 0x2000_0000, u32::MAX, 0x8000_0000])),
                2 => *count = Some((entries.len() as u32 + s.below(3) as u32).wrapping_sub(1)),
                _ => x.lie = Some(8),
            },
            Body::Media(_, b) => mutate_bytes(s, b),
            Body::Kids(_) => mutate_bytes(s, &mut x.prefix),
            Body::Hole(_) => {}
        },
        2 => {
            let m = s.idx(20);
            x.suffix = gen::fill(s.below(256), m);
            if s.bool() {
                x.suffix = vec![0; m];
            }
        }
        3 => {
            if let Body::Kids(v) = &mut x.body {
                if !v.is_empty() {
                    let p = s.idx(v.len());
                    if s.bool() {
                        v.remove(p);
                    } else {
                        let c = v[p].clone();
                        let q = s.idx(v.len() + 1);
                        v.insert(q, c);
                    }
                }
            }
        }
        4 => {
            let c = *s.pick(&[
                *b"moov", *b"udta", *b"meta", *b"ilst", *b"data", *b"trak", *b"mdia", *b"minf", *b"stbl", *b"stsd",
                *b"mp4a", *b"esds", *b"stco", *b"co64", *b"mvhd", *b"mdat", *b"hdlr", *b"free", *b"mean", *b"name", *b"ftyp", *b"----",
            ]);
            x.cc = c;
        }
        5 => x.prefix.clear(),
        6 => dup = Some(x.clone()),
        _ => {
            // a chain of length lies: parent and first child
            x.lie = Some(length(s, x.len(), x.ext));
            if let Body::Kids(v) = &mut x.body {
                if let Some(c) = v.first_mut() {
                    c.lie = Some(length(s, c.len(), c.ext));
                }
            }
        }
    });
    if let Some(d) = dup {
        let p = 1 + s.idx(top.len());
        top.insert(p, d);
    }
}

/// Byte-level corruption.
fn bytes(s: &mut Src, b: &mut Vec<u8>) {
    match s.weighted(&[3, 3, 3, 2, 2, 1]) {
        0 => {
            let p = s.idx(b.len() + 1);
            b.truncate(p);
        }
        1 if !b.is_empty() => {
            for _ in 0..1 + s.idx(4) {
                let p = s.idx(b.len());
                b[p] = s.u8();
            }
        }
        2 if b.len() >= 8 => {
            // hit an atom header: find a position that looks like one
            let mut p = s.idx(b.len() - 7);
            for q in p..(p + 200).min(b.len() - 7) {
                if b[q + 4..q + 8].iter().all(|c| c.is_ascii_lowercase()) {
                    p = q;
                    break;
                }
            }
            let v = *s.pick(&[0u32, 1, 7, 8, 9, 16, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
            b[p..p + 4].copy_from_slice(&v.to_be_bytes());
        }
        3 => {
            let p = s.idx(b.len() + 1);
            let n = s.idx(40);
            let x = gen::fill(s.below(256), n);
            b.splice(p..p, x);
        }
        4 if b.len() > 1 => {
            let p = s.idx(b.len());
            let n = s.idx((b.len() - p).min(64) + 1);
            if s.bool() {
                b.drain(p..p + n);
            } else {
                let x = b[p..p + n].to_vec();
                let q = s.idx(b.len() + 1);
                b.splice(q..q, x);
            }
        }
        _ => {
            let n = s.idx(24);
            b.extend(vec![0; n]);
        }
    }
}

pub struct Hostile {
    pub bytes: Vec<u8>,
    pub outline: String,
    /// No corruption was applied.
    pub clean: bool,
    /// Items of the file before corruption.
    pub items: crate::model::Items,
}

/// A file that may or may not be valid.
pub fn file(s: &mut Src, o: &gen::Opts) -> Hostile {
    let samples: Vec<&Vec<u8>> = crate::util::samples().iter().filter(|x| x.len() < 20_000).collect();
    match s.weighted(&[60, 3, 3, if samples.is_empty() { 0 } else { 2 }]) {
        3 => {
            let mut b = s.pick(&samples).to_vec();
            for _ in 0..1 + s.idx(3) {
                bytes(s, &mut b);
            }
            Hostile { bytes: b, outline: "corrupted sample file".into(), clean: false, items: vec![] }
        }
        0 => {
            let File { mut top, items, .. } = gen::file(s, o);
            let ns = s.weighted(&[3, 6, 2, 1]);
            for _ in 0..ns {
                structural(s, &mut top);
            }
            let outline = crate::mp4::outlines(&top);
            let mut b = encode(&top);
            let nb = if ns == 0 { s.weighted(&[1, 4, 2]) } else { s.weighted(&[4, 1, 1]) };
            for _ in 0..nb {
                bytes(s, &mut b);
            }
            Hostile { bytes: b, outline, clean: ns + nb == 0, items }
        }
        1 => {
            let n = s.idx(300);
            let b = (0..n).map(|_| s.u8()).collect();
            Hostile { bytes: b, outline: "random bytes".into(), clean: false, items: vec![] }
        }
        _ => {
            // file type atom followed by a soup of atom headers
            let mut b = vec![0, 0, 0, 12];
            b.extend(b"ftypM4A ");
            for _ in 0..s.idx(24) {
                let ext = s.chance(1, 4);
                let l = if s.bool() { 8 + s.below(64) } else { length(s, 24, ext) };
                let c = *s.pick(&[
                    *b"moov", *b"udta", *b"meta", *b"ilst", *b"data", *b"trak", *b"mdia", *b"minf", *b"stbl", *b"stsd",
                    *b"mp4a", *b"esds", *b"stco", *b"co64", *b"mvhd", *b"mdat", *b"hdlr", *b"free", *b"mean", *b"name", *b"\xa9nam", *b"----",
                ]);
                if ext {
                    b.extend([0, 0, 0, 1]);
                    b.extend(c);
                    b.extend(l.to_be_bytes());
                } else {
                    b.extend((l as u32).to_be_bytes());
                    b.extend(c);
                }
                let n = s.idx(24);
                if s.bool() {
                    b.extend(vec![0; n]);
                } else {
                    b.extend(gen::fill(s.below(256), n));
                }
            }
            Hostile { bytes: b, outline: "atom header soup".into(), clean: false, items: vec![] }
        }
    }
}
