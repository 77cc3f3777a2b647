//! Written metadata reads back exactly.
use crate::engine::*;
use crate::model::*;
use crate::{big, gen, mp4, util};

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    fixed,
    enumerated: None,
    quick: 500_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a random valid container and a random tag; the tag is written to the file, the written bytes are decoded by an \
           independent parser and by the library. Non-trivial: the tag has at least one value and the write succeeded. \
           Distinct by (container bytes, tag).",
    assumptions: &["identifiers other than the reserved padding name free", "one movie atom per file"],
};

/// The movie-level item list as the independent parser sees it.
pub fn stored(b: &[u8]) -> Result<Items, String> {
    let top = mp4::parse(b)?;
    let moov: Vec<_> = top.iter().filter(|n| &n.cc == b"moov").collect();
    if moov.len() != 1 {
        return Err(format!("{} movie atoms", moov.len()));
    }
    let one = |n: &mp4::PNode, c: &mp4::Cc| -> Result<Option<mp4::PNode>, String> {
        let v = n.all(c);
        if v.len() > 1 {
            return Err(format!("{} atoms {}", v.len(), mp4::show(c)));
        }
        Ok(v.first().map(|x| (*x).clone()))
    };
    let Some(udta) = one(moov[0], b"udta")? else { return Err("no user data".into()) };
    let Some(meta) = one(&udta, b"meta")? else { return Err("no metadata".into()) };
    let Some(ilst) = one(&meta, b"ilst")? else { return Err("no item list".into()) };
    decode_ilst(b, &ilst)
}

pub fn check(before: &[u8], items: &Items) -> Result<Vec<u8>, Fail> {
    let (r, after) = util::write(&to_tag(items), before);
    verify(r, &after, util::read(&after), items)?;
    Ok(after)
}

/// The outcome of a write, the bytes after it and what the library reads from them.
fn verify(r: mp4ameta::Result<()>, after: &[u8], read: mp4ameta::Result<mp4ameta::Tag>, items: &Items) -> Res {
    let want = flat(&merge(items));
    if let Err(e) = r {
        return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
    }
    match stored(after) {
        Err(e) => return fail("stored-malformed", format!("the written file is malformed: {e}")),
        Ok(s) => {
            if let Some(d) = diff(&want, &flat(&merge(&s))) {
                return fail("stored-differs", format!("independent decoding of the written file: {d}"));
            }
        }
    }
    match read {
        Err(e) => fail("unreadable", format!("the written file cannot be read: {}", util::kind(&e))),
        Ok(t) => match diff(&want, &of_tag(&t)) {
            Some(d) => fail("read-differs", format!("reading the written file: {d}")),
            None => Ok(()),
        },
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::STD);
    let items = gen::related(s, &f.items, 8, true);
    let b = f.bytes();
    f.label(c);
    label_items(&items, c);
    c.nontrivial = !items.is_empty();
    c.key(&(&b, &items));
    c.describe(|| format!("file {} tag {:?}", mp4::outlines(&f.top), items));
    let after = check(&b, &items)?;
    if s.chance(1, 64) {
        let top = big::stretch(s, &f.top, true);
        c.label("file beyond 2 GiB");
        c.evals += 1;
        c.describe(|| format!("huge file {} tag {:?}", mp4::outlines(&top), items));
        let sparse = big::Sparse::new(&top);
        let (old, m) = (sparse.mem(), sparse.mem());
        let r = big::write(&to_tag(&items), &m);
        let over = big::overflows(&top, after.len() as i64 - b.len() as i64);
        let new = big::Map::new(&m);
        if big::outcome(&r, over, &big::Map::new(&old), &new)? {
            verify(r, &new, mp4ameta::Tag::read_from_path(m.path()), &items)?;
        } else {
            c.label("length overflow");
        }
    }
    if let Some(b) = util::sample(s, c) {
        check(b, &items)?;
    }
    Ok(())
}

pub fn label_items(items: &Items, c: &mut Ctx) {
    for (i, v) in items {
        c.label_if(matches!(i, Id::Free(..)), "freeform identifier");
        c.label_if(v.len() > 1, "several values");
        for x in v {
            c.label(match x.ty {
                Ty::Utf8 => "utf-8",
                Ty::Utf16 => "utf-16",
                Ty::Reserved => "bytes",
                Ty::Signed => "signed integer",
                Ty::Jpeg => "jpeg",
                Ty::Png => "png",
                Ty::Bmp => "bmp",
            });
            c.label_if(x.encoded().is_empty(), "empty value");
            c.label_if(x.encoded().len() > 8192, "value above the buffer size");
        }
    }
}

fn fixed(c: &mut Ctx) -> Res {
    // utf-16 lengths are in bytes
    let f = mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), mp4::cont(b"moov", vec![])]);
    for t in ["x", "", "ab\u{10000}c", "中文"] {
        check(&f, &vec![(Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf16, t)]), (Id::F(*b"\xa9alb"), vec![Val::text(Ty::Utf8, t)])])?;
    }
    // long values: an image, bytes and a text
    for n in [(32 << 20) + 1usize, (64 << 20) + 3, (128 << 20) + 5] {
        c.evals += 1;
        let items = vec![
            (Id::F(*b"covr"), vec![Val::bytes(Ty::Jpeg, gen::fill(n as u64, n)), Val::bytes(Ty::Png, vec![1])]),
            (Id::F(*b"\xa9lyr"), vec![Val::text(Ty::Utf8, &"abcdefghijklmnopqrstuvwxyz0123456789-".repeat(n / 100))]),
        ];
        check(&f, &items)?;
    }
    Ok(())
}
