//! Equivalent representations of a file are treated alike.
use super::c01::stored;
use crate::engine::*;
use crate::model::{self, diff, flat, merge, of_tag, Id, Items, Ty, Val};
use crate::mp4::{self, Body, Cc, Node};
use crate::util::{Bad, Faulty, Mem, Scratch};
use crate::{big, gen, util};
use mp4ameta::Tag;
use std::fs::{File, OpenOptions};
use std::io::{BufReader, Cursor};

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    fixed,
    enumerated: None,
    quick: 200_000,
    thorough: 4_000_000,
    level: "exploration",
    rule: "a random valid container and a re-encoding of it that means the same: headers switched between 32 and 64 bit, \
           padding and unknown atoms inserted at every level, siblings reordered where order has no meaning (tracks, items and \
           values keep theirs), movie and media moved, movie header version and descriptor lengths re-encoded. Reading both, and \
           writing the same tag to both and reading, must give equal tags. The same file is read and written through every \
           kind of access. Non-trivial: the bytes differ and the file has items or audio information. Distinct by both files.",
    assumptions: &["one movie atom per file"],
};

fn insert(s: &mut Src, kids: &mut Vec<Node>, at: &Cc, from: usize) {
    let n = s.weighted(&[3, 3, 1]);
    for _ in 0..n {
        let f = gen::filler(s, at, &gen::STD);
        let p = from + s.idx(kids.len() - from + 1);
        kids.insert(p, f);
    }
}

/// Shuffles, keeping the relative order of the atoms `fixed` selects.
fn reorder(s: &mut Src, kids: &mut Vec<Node>, fixed: impl Fn(&Node) -> bool) {
    if !s.bool() {
        return;
    }
    let held: Vec<Node> = kids.iter().filter(|k| fixed(k)).cloned().collect();
    s.shuffle(kids);
    let mut h = held.into_iter();
    for k in kids.iter_mut() {
        if fixed(k) {
            *k = h.next().unwrap();
        }
    }
}

/// One descriptor: tag, content, rest.
fn split(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let (mut l, mut h) = (0usize, 1);
    loop {
        let x = *b.get(h)?;
        l = l << 7 | (x & 0x7f) as usize;
        h += 1;
        if x & 0x80 == 0 || h == 5 {
            break;
        }
    }
    Some((b[0], b.get(h..h + l)?, &b[h + l..]))
}

/// Re-encodes a list of descriptors.
fn descs(s: &mut Src, mut b: &[u8], extra: bool) -> Vec<u8> {
    let mut l = vec![];
    while let Some((tag, c, rest)) = split(b) {
        l.push(desc(s, tag, c));
        b = rest;
        if b.is_empty() {
            break;
        }
    }
    if extra && s.chance(1, 3) {
        let p = s.idx(l.len() + 1);
        l.insert(p, gen::other_desc(s));
    }
    l.concat()
}

fn desc(s: &mut Src, tag: u8, c: &[u8]) -> Vec<u8> {
    let head = match tag {
        3 => gen::es_head_len(c).unwrap_or(3),
        4 => 13,
        _ => c.len(),
    };
    let mut body = c[..head].to_vec();
    if head < c.len() || matches!(tag, 3 | 4) {
        body.extend(descs(s, &c[head..], true));
    }
    gen::desc(s, tag, &body, true)
}

fn mvhd(s: &mut Src, b: &mut Vec<u8>) {
    if s.bool() {
        return;
    }
    let be = |x: &[u8]| x.iter().fold(0u64, |a, y| a << 8 | *y as u64);
    let d = if b[0] == 0 { be(&b[16..20]) } else { be(&b[24..32]) };
    if d >= u32::MAX as u64 {
        return;
    }
    let mut o = vec![1 - b[0], b[1], b[2], b[3]];
    if b[0] == 0 {
        o.extend(gen::fill(s.below(256), 16));
        o.extend(&b[12..16]);
        o.extend(d.to_be_bytes());
        o.extend(&b[20..]);
    } else {
        o.extend(gen::fill(s.below(256), 8));
        o.extend(&b[20..24]);
        o.extend((d as u32).to_be_bytes());
        o.extend(&b[32..]);
    }
    *b = o;
}

fn re(s: &mut Src, n: &mut Node, at: &Cc) {
    if s.chance(1, 5) {
        n.ext = !n.ext;
    }
    let cc = n.cc;
    match (at, &cc) {
        (b"moov", b"mvhd") => {
            if let Body::Leaf(b) = &mut n.body {
                mvhd(s, b);
            }
            return;
        }
        (b"item", b"data") => {
            if let Body::Leaf(b) = &mut n.body {
                if s.chance(1, 4) {
                    b[4..8].copy_from_slice(&gen::fill(s.below(256), 4));
                }
            }
            return;
        }
        (b"mp4a", b"esds") => {
            if let Body::Leaf(b) = &mut n.body {
                if let Some((tag, c, rest)) = split(&b[4..]) {
                    let mut o = b[..4].to_vec();
                    o.extend(desc(s, tag, c));
                    o.extend(rest);
                    *b = o;
                }
            }
            return;
        }
        _ => {}
    }
    let sub: Cc = match (at, &cc) {
        (b"top ", b"moov")
        | (b"moov", b"udta")
        | (b"moov", b"trak")
        | (b"udta", b"meta")
        | (b"meta", b"ilst")
        | (b"trak", b"mdia")
        | (b"mdia", b"minf")
        | (b"minf", b"stbl")
        | (b"stbl", b"stsd")
        | (b"stsd", b"mp4a") => cc,
        (b"ilst", c) if c.as_slice() != b"free" => *b"item",
        _ => return,
    };
    let Some(kids) = n.kids_mut() else { return };
    for k in kids.iter_mut() {
        re(s, k, &sub);
    }
    match &sub {
        b"moov" => {
            insert(s, kids, &sub, 0);
            reorder(s, kids, |k| &k.cc == b"trak");
        }
        b"ilst" => {
            if s.chance(1, 3) {
                let p = s.idx(kids.len() + 1);
                let b = gen::blob(s, false);
                kids.insert(p, mp4::leaf(b"free", b));
            }
        }
        b"item" => {
            if s.chance(1, 4) {
                let f = gen::filler(s, b"item", &gen::SMALL);
                if ![*b"data", *b"mean", *b"name"].contains(&f.cc) {
                    let p = s.idx(kids.len() + 1);
                    kids.insert(p, f);
                }
            }
            reorder(s, kids, |k| &k.cc == b"data");
        }
        b"stsd" => {
            let mut more = 0u32;
            if s.chance(1, 4) {
                let p = s.idx(kids.len() + 1);
                let b = gen::blob(s, false);
                kids.insert(p, mp4::leaf(s.pick(&[*b"tx3g", *b"avc1", *b"text"]), b));
                more = 1;
            }
            reorder(s, kids, |_| false);
            let c = u32::from_be_bytes(n.prefix[4..8].try_into().unwrap()) + more;
            n.prefix[4..8].copy_from_slice(&c.to_be_bytes());
        }
        b"mp4a" => {
            if s.chance(1, 4) {
                let p = s.idx(kids.len() + 1);
                let b = gen::blob(s, false);
                kids.insert(p, mp4::leaf(s.pick(&[*b"btrt", *b"free", *b"sinf"]), b));
            }
            reorder(s, kids, |_| false);
        }
        _ => {
            insert(s, kids, &sub, 0);
            reorder(s, kids, |_| false);
        }
    }
}

/// A file that means the same.
pub fn reencode(s: &mut Src, top: &[Node]) -> Vec<Node> {
    let mut t = top.to_vec();
    for n in t.iter_mut() {
        re(s, n, b"top ");
    }
    insert(s, &mut t, b"top ", 1);
    let mut rest = t.split_off(1);
    reorder(s, &mut rest, |_| false);
    t.extend(rest);
    t
}

fn get(b: &[u8], what: &str) -> Result<Tag, Fail> {
    util::read(b).or_else(|e| fail("unreadable", format!("{what} cannot be read: {}", util::kind(&e))))
}

fn same(a: &Tag, b: &Tag, what: &str) -> Res {
    if a == b {
        return Ok(());
    }
    match diff(&of_tag(a), &of_tag(b)) {
        Some(d) => fail("metadata-differs", format!("{what}: {d}")),
        None => fail("info-differs", format!("{what}: {:?} {:?} and {:?} {:?}", a.audio_info(), a.filetype(), b.audio_info(), b.filetype())),
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::STD);
    let a = f.bytes();
    let items = gen::related(s, &f.items, 4, true);
    let tag = model::to_tag(&items);
    f.label(c);
    let ra = get(&a, "a valid file")?;
    c.nontrivial = false;
    let n = 1 + s.idx(2);
    let mut top = f.top.clone();
    c.describe(|| format!("file {} tag {:?}", mp4::outlines(&f.top), items));
    for _ in 0..n {
        top = reencode(s, &top);
        let b = mp4::encode(&top);
        c.describe(|| format!("re-encoded {}", mp4::outlines(&top)));
        c.nontrivial |= a != b && (!f.items.is_empty() || f.audio.is_some() || f.mvhd.is_some());
        c.key(&(&a, &b));
        let rb = get(&b, "the re-encoded file")?;
        same(&ra, &rb, "reading both encodings")?;
        // written to both
        let (r1, a1) = util::write(&tag, &a);
        let (r2, b1) = util::write(&tag, &b);
        match (r1, r2) {
            (Ok(()), Ok(())) => {}
            (r1, r2) => return fail("write-refused", format!("writing to a valid file failed: {:?} {:?}", r1.err().map(|e| util::kind(&e)), r2.err().map(|e| util::kind(&e)))),
        }
        let (t1, t2) = (get(&a1, "the written file")?, get(&b1, "the written re-encoded file")?);
        same(&t1, &t2, "after writing the same tag to both encodings")?;
        match (stored(&a1), stored(&b1)) {
            (Ok(x), Ok(y)) if x == y && flat(&merge(&x)) == flat(&merge(&items)) => {}
            (x, y) => return fail("stored-differs", format!("after writing the same tag to both encodings an independent decoder finds {x:?} and {y:?}")),
        }
    }
    access(s, c, &a, &ra, &tag)?;
    if let Some(x) = util::sample(s, c) {
        access(s, c, x, &get(x, "a sample file")?, &tag)?;
    }
    if s.chance(1, 16) {
        let top = big::stretch(s, &f.top, false);
        c.label("file beyond 2 GiB");
        c.evals += 1;
        c.describe(|| format!("stretched {}", mp4::outlines(&top)));
        match Tag::read_from(&mut big::Sparse::new(&top).reader()) {
            Ok(t) => same(&ra, &t, "reading with a huge meaningless atom")?,
            Err(e) => return fail("unreadable", format!("a huge valid file cannot be read: {}", util::kind(&e))),
        }
    }
    Ok(())
}

/// The ways to access the same bytes.
fn access(s: &mut Src, c: &mut Ctx, b: &[u8], want: &Tag, tag: &Tag) -> Res {
    let m = Mem::new(b);
    let io = |e: std::io::Error| Fail { sig: "harness-error".into(), msg: e.to_string() };
    let ways = match s.below(4) {
        0 => {
            let cap = 1 + s.idx(40);
            vec![("a path", Tag::read_from_path(m.path())), ("a small buffered reader", Tag::read_from(&mut BufReader::with_capacity(cap, File::open(m.path()).map_err(io)?)))]
        }
        1 => vec![("an open file", Tag::read_from(&mut File::open(m.path()).map_err(io)?)), ("a file handle", Tag::read_from(&mut &m.0))],
        2 => {
            let k = 1 + s.idx(30);
            vec![
                ("an owned buffer", Tag::read_from(&mut Cursor::new(b.to_vec()))),
                ("a reader returning few bytes", Tag::read_from(&mut Faulty::new(Cursor::new(b), Bad::Short(k)))),
            ]
        }
        _ => vec![("a boxed buffered reader", Tag::read_from(&mut BufReader::new(Cursor::new(b)))), ("a path", Tag::read_from_path(std::path::PathBuf::from(m.path())))],
    };
    for (what, r) in ways {
        match r {
            Err(e) => return fail("access-differs", format!("reading by {what} failed: {}", util::kind(&e))),
            Ok(t) => same(want, &t, &format!("reading by {what}")).map_err(|f| Fail { sig: "access-differs".into(), msg: f.msg })?,
        }
    }
    if m.get() != b {
        return fail("read-changed-file", "reading changed the file");
    }
    let (r, handle) = util::write(tag, b);
    let r2 = tag.write_to_path(m.path());
    if r.is_ok() != r2.is_ok() || m.get() != handle {
        return fail("access-differs", format!("writing by path gives another file than writing through a handle: {}", util::bdiff(&handle, &m.get())));
    }
    if s.chance(1, 20) {
        c.label("file in a directory");
        let dir = Scratch::new();
        let p = dir.file(b);
        let r = Tag::read_from_path(&p);
        match r {
            Ok(t) => same(want, &t, "reading a file in a directory")?,
            Err(e) => return fail("access-differs", format!("reading a file in a directory failed: {}", util::kind(&e))),
        }
        let r = tag.write_to_path(&p);
        if r.is_err() || std::fs::read(&p).map_err(io)? != handle {
            return fail("access-differs", "writing to a file in a directory gives another result");
        }
        std::fs::write(&p, b).map_err(io)?;
        let f = OpenOptions::new().read(true).write(true).open(&p).map_err(io)?;
        let r = tag.write_to(&f);
        if r.is_err() || std::fs::read(&p).map_err(io)? != handle {
            return fail("access-differs", "writing through a file handle gives another result");
        }
    }
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    let tag: Items = vec![(Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf8, "a title")])];
    // every single atom of a complete file with a 64-bit header
    let mut n = 0;
    let mut best = None;
    for seed in 1..400u64 {
        let bytes = gen::fill(seed, 6000);
        let mut s = Src::replay(&bytes);
        let f = gen::file(&mut s, &gen::STD);
        if f.has_ilst && f.audio.is_some() && f.chunks > 0 && !f.ext && f.items.len() > 1 && f.media_before && f.media_after {
            best = Some(f);
            break;
        }
    }
    let Some(f) = best else { return fail("harness-error", "no complete file generated") };
    for t in &f.top {
        t.walk(&mut |_| n += 1);
    }
    let a = f.bytes();
    let want = get(&a, "a valid file")?;
    let (_, a1) = util::write(&model::to_tag(&tag), &a);
    let want1 = get(&a1, "the written file")?;
    for k in 0..n {
        let mut top = f.top.clone();
        let mut i = 0;
        for t in top.iter_mut() {
            t.walk_mut(&mut |x| {
                if i == k {
                    x.ext = true;
                }
                i += 1;
            });
        }
        let b = mp4::encode(&top);
        same(&want, &get(&b, "a file with one 64-bit header")?, "one 64-bit header")?;
        let (r, b1) = util::write(&model::to_tag(&tag), &b);
        if r.is_err() {
            return fail("write-refused", "writing to a valid file failed");
        }
        same(&want1, &get(&b1, "the written file with one 64-bit header")?, "after writing with one 64-bit header")?;
        c.evals += 1;
    }
    Ok(())
}
