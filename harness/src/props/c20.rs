//! Unsupported or invalid content is rejected with the right error.
use super::c02::writes;
use crate::engine::*;
use crate::model::{self, Id, Items, Ty, Val};
use crate::mp4::{self, cont, full, leaf, Body, Cc, Node};
use crate::{gen, util};
use mp4ameta::{Error, ErrorKind, Fourcc};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    fixed,
    enumerated: None,
    quick: 1_500_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a random valid container into which exactly one defect is put at one of all the places where it fits: wrong first \
           atom, no movie, item without data, unknown data type, unknown version, invalid utf-8 or utf-16, missing stream \
           description or descriptor, length too small for the header, chunk offset table with unknown version or contradicting \
           count; the error kind and its value must match, and a refused write must leave the file unchanged. All 256 versions \
           of every versioned atom and the lower 65536 type codes are enumerated on a small file. Non-trivial: the defect was \
           applied. Distinct by file bytes.",
    assumptions: &["utf-16 text with an odd number of bytes is left open", "an atom length of 0 is left open"],
};

#[derive(Clone, Debug)]
pub enum Want {
    NoTag,
    NotFound(Cc),
    Type(u32),
    Version(u8),
    Utf8(Vec<u8>),
    Utf16,
    Descriptor(u8),
    Parsing,
    /// What is missing may be looked for behind the atom.
    Short,
}

pub fn matches(e: &Error, w: &Want) -> bool {
    match (&e.kind, w) {
        (ErrorKind::NoTag, Want::NoTag) => true,
        (ErrorKind::AtomNotFound(f), Want::NotFound(c)) => *f == Fourcc(*c),
        (ErrorKind::UnknownDataType(a), Want::Type(b)) => a == b,
        (ErrorKind::UnknownVersion(a), Want::Version(b)) => a == b,
        (ErrorKind::Utf8StringDecoding(x), Want::Utf8(b)) => x.as_bytes() == b.as_slice(),
        (ErrorKind::Utf16StringDecoding(_), Want::Utf16) => true,
        (ErrorKind::DescriptorNotFound(a), Want::Descriptor(b)) => a == b,
        (ErrorKind::Parsing, Want::Parsing | Want::Short) => true,
        (ErrorKind::UnknownVersion(_) | ErrorKind::DescriptorNotFound(_) | ErrorKind::Io(_), Want::Short) => true,
        (ErrorKind::AtomNotFound(f), Want::Short) => *f == Fourcc(*b"esds"),
        _ => false,
    }
}

/// What the operations should do.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Who {
    /// Both operations meet the defect.
    Both,
    /// Only reading does.
    Read,
    /// Only writing does.
    Write,
}

fn check(b: &[u8], tag: &Items, w: &Want, who: Who, what: &str) -> Res {
    let r = util::read(b);
    if who != Who::Write {
        match &r {
            Err(e) if matches(e, w) => drop((e.to_string(), format!("{e:?}"))),
            Err(e) => return fail("wrong-error", format!("{what}: reading fails with {} instead of {w:?}", util::kind(e))),
            Ok(t) => return fail("accepted", format!("{what}: reading succeeds with {:?} instead of failing with {w:?}", model::of_tag(t))),
        }
    } else if let Err(e) = &r {
        return fail("unreadable", format!("{what}: only writing is concerned, but reading fails with {}", util::kind(e)));
    }
    let (r, after) = util::write(&model::to_tag(tag), b);
    match r {
        Err(e) => {
            drop((e.to_string(), format!("{e:?}")));
            if after != b {
                return fail("refused-but-changed", format!("{what}: the write failed with {} and changed the file: {}", util::kind(&e), util::bdiff(b, &after)));
            }
            if who != Who::Read && !matches(&e, w) {
                return fail("wrong-error", format!("{what}: writing fails with {} instead of {w:?}", util::kind(&e)));
            }
            Ok(())
        }
        Ok(()) if who != Who::Read => fail("accepted", format!("{what}: writing succeeds instead of failing with {w:?}")),
        Ok(()) => Ok(()),
    }
}

/// The part of the tree both or only one of the operations walk through.
fn sub(at: &Cc, n: &Node) -> Option<Cc> {
    Some(match (at, &n.cc) {
        (b"top ", b"moov")
        | (b"moov", b"udta")
        | (b"moov", b"trak")
        | (b"udta", b"meta")
        | (b"meta", b"ilst")
        | (b"trak", b"mdia")
        | (b"mdia", b"minf")
        | (b"minf", b"stbl")
        | (b"stbl", b"stsd")
        | (b"stsd", b"mp4a") => n.cc,
        (b"ilst", c) if c.as_slice() != b"free" => *b"item",
        _ => return None,
    })
}

struct Place {
    at: Cc,
    /// Number in pre-order of this walk.
    k: usize,
    cc: Cc,
    reads: bool,
    writes: bool,
    path: Vec<Cc>,
}

/// Every atom the operations walk over.
fn places(top: &[Node]) -> Vec<Place> {
    fn go(n: &Node, at: &Cc, path: &[Cc], reads: bool, writes: bool, k: &mut usize, o: &mut Vec<Place>) {
        o.push(Place { at: *at, k: *k, cc: n.cc, reads, writes, path: path.to_vec() });
        *k += 1;
        if let Some(s) = sub(at, n) {
            let mut path = path.to_vec();
            if &s != b"item" {
                path.push(n.cc);
            }
            let mut described = false;
            for c in n.kids().iter() {
                // behind the stream description nothing is looked at
                let r = reads && !described;
                described |= &s == b"mp4a" && &c.cc == b"esds";
                let w = writes && !matches!(&s, b"ilst" | b"item" | b"stsd" | b"mp4a");
                go(c, &s, &path, r, w, k, o);
            }
        }
    }
    let mut o = vec![];
    let mut k = 0;
    let mut seen = false;
    for n in top {
        go(n, b"top ", &[], !seen, true, &mut k, &mut o);
        seen |= &n.cc == b"moov";
    }
    o
}

fn edit(top: &mut [Node], target: usize, f: &mut dyn FnMut(&mut Node)) {
    fn go(n: &mut Node, at: &Cc, target: usize, k: &mut usize, f: &mut dyn FnMut(&mut Node)) {
        let here = *k == target;
        *k += 1;
        if let Some(s) = sub(at, n) {
            for c in n.kids_mut().into_iter().flatten() {
                go(c, &s, target, k, f);
            }
        }
        if here {
            f(n);
        }
    }
    let mut k = 0;
    for n in top.iter_mut() {
        go(n, b"top ", target, &mut k, f);
    }
}

fn bytes_of(n: &mut Node) -> &mut Vec<u8> {
    match &mut n.body {
        Body::Leaf(b) => b,
        _ => panic!("not a leaf"),
    }
}

fn version(s: &mut Src, from: u8) -> u8 {
    match s.weighted(&[3, 1, 2]) {
        0 => from,
        1 => 255,
        _ => from + s.below(256 - from as u64) as u8,
    }
}

const BAD_UTF8: &[&[u8]] = &[&[0xff], &[0xc3], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98]];

/// Text with something invalid in it.
fn bad_utf8(s: &mut Src) -> Vec<u8> {
    let mut v = gen::text(s, false).into_bytes();
    v.extend_from_slice(s.pick(BAD_UTF8));
    if s.bool() {
        v.extend(b"tail");
    }
    assert!(String::from_utf8(v.clone()).is_err());
    v
}

fn bad_utf16(s: &mut Src) -> Vec<u8> {
    let mut u: Vec<u16> = gen::text(s, false).encode_utf16().collect();
    match s.below(3) {
        0 => u.push(0xd800 + s.below(0x400) as u16),
        1 => u.insert(0, 0xdc00 + s.below(0x400) as u16),
        _ => u.extend([0xdbff, 0x41]),
    }
    assert!(String::from_utf16(&u).is_err());
    u.iter().flat_map(|x| x.to_be_bytes()).collect()
}

/// A valid file with one defect.
pub struct Defect {
    pub top: Vec<Node>,
    pub tag: Items,
    pub want: Want,
    pub who: Who,
    pub what: &'static str,
    /// The atoms around the defect that are parsed by name, from the outside to the inside.
    pub path: Vec<Cc>,
}

pub fn defect(s: &mut Src) -> Option<Defect> {
    let mut o = gen::SMALL;
    o.big = s.chance(1, 12);
    let f = gen::file(s, &o);
    let tag = gen::items(s, 3, false);
    let b0 = f.bytes();
    let mut top = f.top.clone();
    let ps = places(&top);
    let place = std::cell::Cell::new(None);
    let pick = |s: &mut Src, p: &dyn Fn(&Place) -> bool| -> Option<usize> {
        let v: Vec<&Place> = ps.iter().filter(|x| p(x)).collect();
        if v.is_empty() {
            None
        } else {
            let k = v[s.idx(v.len())].k;
            place.set(Some(k));
            Some(k)
        }
    };
    let by = |at: &'static Cc, cc: &'static Cc| move |p: &Place| &p.at == at && &p.cc == cc;
    let mut what = "";
    let mut want = Want::Parsing;
    let mut who = Who::Read;
    let mut done = false;
    // a file lacks some of the places; try a few kinds of defects
    for _ in 0..6 {
        match s.below(19) {
            0 => {
                what = "first atom is not a file type atom";
                (want, who) = (Want::NoTag, Who::Both);
                match s.below(3) {
                    0 if top.len() > 1 => drop(top.remove(0)),
                    1 => top.insert(0, leaf(s.pick(&[*b"free", *b"FTYP", *b"moof", *b"mdat", *b"styp"]), gen::blob(s, false))),
                    _ => top[0].cc = *s.pick(&[*b"ftyq", *b"styp", *b"    ", [0; 4], *b"RIFF", *b"pytf"]),
                }
                done = &top[0].cc != b"ftyp";
                if !done {
                    top = f.top.clone();
                }
            }
            1 => {
                what = "no movie atom";
                (want, who) = (Want::NotFound(*b"moov"), Who::Both);
                let i = top.iter().position(|n| &n.cc == b"moov").unwrap();
                if s.bool() {
                    top.remove(i);
                } else {
                    top[i].cc = *s.pick(&[*b"mooV", *b"moof", *b"free", *b"skip"]);
                }
                done = true;
            }
            2 => {
                what = "item without data";
                want = Want::NotFound(*b"data");
                if let Some(k) = pick(s, &|p| &p.at == b"ilst" && &p.cc != b"free") {
                    edit(&mut top, k, &mut |n| n.kids_mut().unwrap().retain(|x| &x.cc != b"data"));
                    done = true;
                }
            }
            3 | 4 => {
                what = "unknown data type";
                let t = match s.below(4) {
                    0 => *s.pick(&[3u32, 4, 5, 6, 12, 15, 20, 22, 23, 24, 26, 28, 65, 74, 79, 0xff, 0x100, 0x101, 0x10000, 0x10001, 0xff_ffff]),
                    1 => s.below(256) as u32,
                    2 => s.below(1 << 16) as u32,
                    _ => s.below(1 << 24) as u32,
                };
                if Ty::from_code(t).is_some() {
                    continue;
                }
                want = Want::Type(t);
                if let Some(k) = pick(s, &by(b"item", b"data")) {
                    edit(&mut top, k, &mut |n| bytes_of(n)[..4].copy_from_slice(&t.to_be_bytes()));
                    done = true;
                }
            }
            5 => {
                what = "unknown version of data, mean or name";
                let v = version(s, 1);
                want = Want::Version(v);
                if let Some(k) = pick(s, &|p| &p.at == b"item" && matches!(&p.cc, b"data" | b"mean" | b"name")) {
                    edit(&mut top, k, &mut |n| bytes_of(n)[0] = v);
                    done = true;
                }
            }
            6 | 7 => {
                what = "unknown metadata version";
                let v = version(s, 1);
                (want, who) = (Want::Version(v), Who::Both);
                if let Some(k) = pick(s, &by(b"udta", b"meta")) {
                    edit(&mut top, k, &mut |n| n.prefix[0] = v);
                    done = true;
                }
            }
            8 => {
                what = "unknown movie header version";
                let v = version(s, 2);
                want = Want::Version(v);
                if let Some(k) = pick(s, &by(b"moov", b"mvhd")) {
                    edit(&mut top, k, &mut |n| bytes_of(n)[0] = v);
                    done = true;
                }
            }
            9 => {
                what = "unknown sample description version";
                let v = version(s, 1);
                want = Want::Version(v);
                if let Some(k) = pick(s, &by(b"stbl", b"stsd")) {
                    edit(&mut top, k, &mut |n| n.prefix[0] = v);
                    done = true;
                }
            }
            10 => {
                what = "unknown stream description version";
                let v = version(s, 1);
                want = Want::Version(v);
                if let Some(k) = pick(s, &by(b"mp4a", b"esds")) {
                    edit(&mut top, k, &mut |n| bytes_of(n)[0] = v);
                    done = true;
                }
            }
            11 => {
                what = "missing stream description";
                want = Want::NotFound(*b"esds");
                if let Some(k) = pick(s, &by(b"mp4a", b"esds")) {
                    let cc = *s.pick(&[*b"esdS", *b"free", *b"wave", *b"alac"]);
                    edit(&mut top, k, &mut |n| n.cc = cc);
                    done = true;
                }
            }
            12 => {
                what = "missing stream descriptor";
                want = Want::Descriptor(3);
                if let Some(k) = pick(s, &by(b"mp4a", b"esds")) {
                    let t = match s.u8() {
                        3 => 4,
                        t => t,
                    };
                    edit(&mut top, k, &mut |n| bytes_of(n)[4] = t);
                    done = true;
                }
            }
            13 => {
                what = "invalid utf-8 in a value, mean or name";
                let bad = bad_utf8(s);
                want = Want::Utf8(bad.clone());
                // of a freeform item whose name or mean comes twice the first is good; here there is one
                if let Some(k) = pick(s, &|p| &p.at == b"item" && matches!(&p.cc, b"data" | b"mean" | b"name")) {
                    edit(&mut top, k, &mut |n| {
                        let data = &n.cc == b"data";
                        let b = bytes_of(n);
                        if data {
                            b[..4].copy_from_slice(&[0, 0, 0, 1]);
                        }
                        b.truncate(if data { 8 } else { 4 });
                        b.extend(&bad);
                    });
                    done = true;
                }
            }
            14 => {
                what = "invalid utf-16 in a value";
                let bad = bad_utf16(s);
                want = Want::Utf16;
                if let Some(k) = pick(s, &by(b"item", b"data")) {
                    edit(&mut top, k, &mut |n| {
                        let b = bytes_of(n);
                        b[..4].copy_from_slice(&[0, 0, 0, 2]);
                        b.truncate(8);
                        b.extend(&bad);
                    });
                    done = true;
                }
            }
            15 | 16 => {
                what = "length too small for the header";
                let v: Vec<&Place> = ps.iter().filter(|p| p.reads || p.writes).collect();
                let p = v[s.idx(v.len())];
                place.set(Some(p.k));
                who = match (p.reads, p.writes) {
                    (true, true) => Who::Both,
                    (true, false) => Who::Read,
                    _ => Who::Write,
                };
                want = Want::Parsing;
                let l = s.below(16);
                edit(&mut top, p.k, &mut |n| n.lie = Some(if n.ext { l } else { 2 + l % 6 }));
                done = true;
            }
            17 => {
                what = "too short for its fields";
                want = Want::Short;
                let Some(k) = pick(s, &|p| {
                    matches!(
                        (&p.at, &p.cc),
                        (b"item", b"data" | b"mean" | b"name") | (b"udta", b"meta") | (b"moov", b"mvhd") | (b"stbl", b"stsd") | (b"stsd", b"mp4a") | (b"mp4a", b"esds")
                    )
                }) else {
                    continue;
                };
                let descs = s.bool();
                edit(&mut top, k, &mut |n| {
                    if descs && &n.cc == b"esds" {
                        // a decoder config or a decoder specific descriptor
                        let specific = s.bool();
                        let l = s.idx(if specific { 2 } else { 13 });
                        let mut d = gen::fill(s.below(256), l);
                        if specific {
                            d = [gen::fill(s.below(256), 13), gen::desc(s, 5, &d, true)].concat();
                        }
                        let mut e = vec![0; 3];
                        for _ in 0..s.idx(2) {
                            e.extend(gen::other_desc(s));
                        }
                        e.extend(gen::desc(s, 4, &d, true));
                        for _ in 0..s.idx(3) {
                            e.extend(gen::other_desc(s));
                        }
                        let b = bytes_of(n);
                        b.truncate(4);
                        b.extend(gen::desc(s, 3, &e, true));
                        return;
                    }
                    let need = match &n.cc {
                        b"data" | b"stsd" => 8,
                        b"mvhd" => match bytes_of(n)[0] {
                            0 => 20,
                            _ => 32,
                        },
                        b"mp4a" => 28,
                        _ => 4,
                    };
                    if &n.cc == b"meta" {
                        who = Who::Both;
                    }
                    let l = s.idx(need);
                    if matches!(&n.cc, b"meta" | b"stsd" | b"mp4a") {
                        n.prefix.truncate(l);
                        n.kids_mut().unwrap().clear();
                    } else {
                        bytes_of(n).truncate(l);
                    }
                });
                done = true;
            }
            _ => {
                // matters only when media behind the movie moves
                let mp = top.iter().position(|n| &n.cc == b"moov").unwrap();
                let (r, after) = util::write(&model::to_tag(&tag), &b0);
                if r.is_err() || after.len() == b0.len() || !matches!(top.last(), Some(_)) || !top[mp..].iter().any(|n| &n.cc == b"mdat") {
                    continue;
                }
                let Some(k) = pick(s, &|p| &p.at == b"stbl" && matches!(&p.cc, b"stco" | b"co64")) else { continue };
                who = Who::Write;
                if s.bool() {
                    what = "unknown version of a chunk offset table";
                    let v = version(s, 1);
                    want = Want::Version(v);
                    edit(&mut top, k, &mut |n| {
                        if let Body::Chunks { version, .. } = &mut n.body {
                            *version = v;
                        }
                    });
                } else {
                    what = "chunk offset count contradicts the length";
                    want = Want::Parsing;
                    let d = 1 + s.u32() as u64 % 100;
                    let huge = s.chance(1, 4);
                    edit(&mut top, k, &mut |n| {
                        if let Body::Chunks { entries, count, .. } = &mut n.body {
                            let e = entries.len() as u64;
                            *count = Some(if huge { u32::MAX - d as u32 } else if d <= e && d % 2 == 0 { (e - d) as u32 } else { (e + d) as u32 });
                        }
                    });
                }
                done = true;
            }
        }
        if done {
            break;
        }
        who = Who::Read;
    }
    if !done {
        return None;
    }
    let path = place.get().map_or(vec![], |k| ps[k].path.clone());
    Some(Defect { top, tag, want, who, what, path })
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(Defect { top, tag, want, who, what, .. }) = defect(s) else { return Ok(()) };
    let b = mp4::encode(&top);
    c.label(what);
    c.nontrivial = true;
    c.key(&b);
    c.describe(|| format!("{what} ({who:?}, {want:?}): file {} tag {:?}", mp4::outlines(&top), tag));
    check(&b, &tag, &want, who, what)
}

fn fixed(c: &mut Ctx) -> Res {
    let tag: Items = vec![(Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf8, "a title")])];
    let ft = || leaf(b"ftyp", b"M4A ".to_vec());
    let data = |v: u8, t: u32, c: &[u8]| {
        let mut b = t.to_be_bytes().to_vec();
        b[0] = v;
        b.extend([0; 4]);
        b.extend(c);
        leaf(b"data", b)
    };
    let st = |cc: &Cc, v: u8, t: &str| leaf(cc, [&[v, 0, 0, 0], t.as_bytes()].concat());
    let movie = |mv: u8, il: Vec<Node>, trak: Option<Node>, tail: Vec<Node>| {
        let mut k: Vec<Node> = trak.into_iter().collect();
        k.push(cont(b"udta", vec![full(b"meta", vec![mv, 0, 0, 0], vec![cont(b"ilst", il)])]));
        let mut t = vec![ft(), cont(b"moov", k)];
        t.extend(tail);
        mp4::encode(&t)
    };
    for v in 0..=255u8 {
        let item = |a: u8, b: u8, d: u8| cont(b"----", vec![st(b"mean", a, "m"), st(b"name", b, "n"), data(d, 1, b"x")]);
        let track = |sd: u8, es: u8| {
            let esds = leaf(b"esds", vec![es, 0, 0, 0, 3, 3, 0, 0, 0]);
            let stsd = full(b"stsd", vec![sd, 0, 0, 0, 0, 0, 0, 1], vec![full(b"mp4a", vec![0; 28], vec![esds])]);
            cont(b"trak", vec![cont(b"mdia", vec![cont(b"minf", vec![cont(b"stbl", vec![stsd])])])])
        };
        let table = |cc: &Cc, v: u8| {
            let t = leaf(cc, vec![v, 0, 0, 0, 0, 0, 0, 0]);
            cont(b"trak", vec![cont(b"mdia", vec![cont(b"minf", vec![cont(b"stbl", vec![t])])])])
        };
        let mvhd = |v: u8| {
            let mut b = vec![v, 0, 0, 0];
            b.extend([1; 96]);
            leaf(b"mvhd", b)
        };
        let media = || vec![leaf(b"mdat", vec![1])];
        let w = Want::Version(v);
        let cases = [
            ("mean version", movie(0, vec![item(v, 0, 0)], None, vec![]), Who::Read, 1),
            ("name version", movie(0, vec![item(0, v, 0)], None, vec![]), Who::Read, 1),
            ("data version", movie(0, vec![item(0, 0, v)], None, vec![]), Who::Read, 1),
            ("metadata version", movie(v, vec![item(0, 0, 0)], None, vec![]), Who::Both, 1),
            ("sample description version", movie(0, vec![], Some(track(v, 0)), vec![]), Who::Read, 1),
            ("stream description version", movie(0, vec![], Some(track(0, v)), vec![]), Who::Read, 1),
            ("movie header version", movie(0, vec![], Some(mvhd(v)), vec![]), Who::Read, 2),
            ("stco version", movie(0, vec![], Some(table(b"stco", v)), media()), Who::Write, 1),
            ("co64 version", movie(0, vec![], Some(table(b"co64", v)), media()), Who::Write, 1),
        ];
        for (what, b, who, min) in cases {
            c.evals += 1;
            if v >= min {
                check(&b, &tag, &w, who, what)?;
            } else {
                if let Err(e) = util::read(&b) {
                    return fail("unreadable", format!("{what} {v} is rejected: {}", util::kind(&e)));
                }
                writes(&b, std::slice::from_ref(&tag), |_, _| Ok(()))?;
            }
        }
    }
    for t in (0..1u32 << 16).chain((0..256).map(|i| i << 16 | 1)).chain((0..256).map(|i| i << 16 | 0xff00)) {
        c.evals += 1;
        let b = movie(0, vec![cont(b"abcd", vec![data(0, t, b"xx")])], None, vec![]);
        if Ty::from_code(t).is_some() {
            if let Err(e) = util::read(&b) {
                return fail("unreadable", format!("type {t} is rejected: {}", util::kind(&e)));
            }
        } else {
            match util::read(&b) {
                Err(e) if matches(&e, &Want::Type(t)) => {}
                Err(e) => return fail("wrong-error", format!("type {t} is rejected with {}", util::kind(&e))),
                Ok(_) => return fail("accepted", format!("type {t} is accepted")),
            }
        }
    }
    Ok(())
}
