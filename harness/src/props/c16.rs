//! Data values and their views.
use crate::engine::*;
use crate::gen;
use crate::model::{Id, Ty, Val, TYS};
use crate::tagmodel::{img_ty, ty_img};
use crate::{model, util};
use mp4ameta::{Data, Img};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    fixed,
    enumerated: None,
    quick: 5_000_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a random value of every type and up to four edits through mutable views; all predicates and accessors are compared with \
           the type, the length with the bytes an independent encoding has and with the bytes the value occupies in a dump. \
           Non-trivial: the value is not empty or was edited. Distinct by (value, edits).",
    assumptions: &[],
};

fn img(i: Img<impl AsRef<[u8]>>) -> Val {
    Val::bytes(img_ty(&i.fmt), i.data.as_ref().to_vec())
}

/// Every view of `d` is the one of the value `v`.
pub fn views(d: &Data, v: &Val) -> Res {
    let t = v.ty;
    let want = [t.is_bytes(), t.is_string(), t.is_image()];
    let got = [d.is_bytes(), d.is_string(), d.is_image()];
    if got != want || got.iter().filter(|x| **x).count() != 1 {
        return fail("class", format!("{v:?}: bytes, string, image = {got:?}"));
    }
    let is = [d.is_utf8(), d.is_reserved(), d.is_be_signed(), d.is_jpeg(), d.is_png(), d.is_bmp(), d.is_utf16()];
    for (x, y) in TYS.iter().zip(is) {
        if (*x == t) != y {
            return fail("type", format!("{v:?}: is {x:?} = {y}"));
        }
    }
    let sv = |on: bool| if on { Some(v.s.clone()) } else { None };
    let bv = |on: bool| if on { Some(v.b.clone()) } else { None };
    let mut e = d.clone();
    let strings = [
        ("string", d.string().map(String::from), t.is_string()),
        ("utf8", d.utf8().map(String::from), t == Ty::Utf8),
        ("utf16", d.utf16().map(String::from), t == Ty::Utf16),
        ("string_mut", e.string_mut().map(|x| x.clone()), t.is_string()),
        ("into_string", d.clone().into_string(), t.is_string()),
    ];
    for (n, g, on) in strings {
        if g != sv(on) {
            return fail("view", format!("{n} of {v:?} is {g:?}"));
        }
    }
    let bytes = [
        ("bytes", d.bytes().map(<[u8]>::to_vec), t.is_bytes()),
        ("reserved", d.reserved().map(<[u8]>::to_vec), t == Ty::Reserved),
        ("be_signed", d.be_signed().map(<[u8]>::to_vec), t == Ty::Signed),
        ("jpeg", d.jpeg().map(<[u8]>::to_vec), t == Ty::Jpeg),
        ("png", d.png().map(<[u8]>::to_vec), t == Ty::Png),
        ("bmp", d.bmp().map(<[u8]>::to_vec), t == Ty::Bmp),
        ("image_data", d.image_data().map(<[u8]>::to_vec), t.is_image()),
        ("bytes_mut", e.bytes_mut().map(|x| x.clone()), t.is_bytes()),
        ("image_data_mut", e.image_data_mut().map(|x| x.clone()), t.is_image()),
        ("into_bytes", d.clone().into_bytes(), t.is_bytes()),
        ("into_image_data", d.clone().into_image_data(), t.is_image()),
    ];
    for (n, g, on) in bytes {
        if g != bv(on) {
            return fail("view", format!("{n} of {v:?} is {g:?}"));
        }
    }
    let w = if t.is_image() { Some(v.clone()) } else { None };
    let images = [
        ("image", d.image().map(img)),
        ("image_mut", e.image_mut().map(|i| Val::bytes(img_ty(&i.fmt), i.data.clone()))),
        ("into_image", d.clone().into_image().map(img)),
    ];
    for (n, g) in images {
        if g != w {
            return fail("view", format!("{n} of {v:?} is {g:?}"));
        }
    }
    if let Some(i) = d.image() {
        let f = [i.fmt.is_bmp(), i.fmt.is_jpeg(), i.fmt.is_png()];
        if f != [t == Ty::Bmp, t == Ty::Jpeg, t == Ty::Png] {
            return fail("format", format!("{v:?}: bmp, jpeg, png = {f:?}"));
        }
    }
    if &e != d || Val::of(d) != *v {
        return fail("changed", format!("looking at {v:?} changed it to {:?}", Val::of(&e)));
    }
    let n = v.encoded().len() as u64;
    if d.len() != n || d.is_empty() != (n == 0) {
        return fail("length", format!("{v:?} takes {n} bytes, len is {} and is_empty {}", d.len(), d.is_empty()));
    }
    Ok(())
}

/// The length of a value's data atom in a dump.
fn stored_len(d: &Data) -> Result<u64, Fail> {
    let mut t = mp4ameta::Tag::default();
    t.set_data(mp4ameta::Fourcc(*b"test"), d.clone());
    let b = util::dump(&t).map_err(|e| Fail { sig: "dump".into(), msg: util::kind(&e) })?;
    let e = || Fail { sig: "dump".into(), msg: "the dump has no data atom where expected".into() };
    let p = crate::mp4::parse(&b).map_err(|m| Fail { sig: "dump".into(), msg: m })?;
    let il = p
        .iter()
        .find(|x| &x.cc == b"moov")
        .and_then(|x| x.find(b"udta"))
        .and_then(|x| x.find(b"meta"))
        .and_then(|x| x.find(b"ilst"))
        .ok_or_else(e)?;
    // ilst head, item head, data head, version and type, locale
    (il.content(&b).len() as u64).checked_sub(8 + 8 + 8).ok_or_else(e)
}

fn edit(s: &mut Src, d: &mut Data, v: &mut Val) -> String {
    let x = gen::val_of(s, v.ty, false);
    let how = s.below(3);
    if v.ty.is_string() {
        let t = d.string_mut().unwrap();
        match how {
            0 => t.push_str(&x.s),
            1 => *t = x.s.clone(),
            _ => t.clear(),
        }
        v.s = match how {
            0 => format!("{}{}", v.s, x.s),
            1 => x.s,
            _ => String::new(),
        };
    } else {
        let o = if v.ty.is_bytes() {
            d.bytes_mut().unwrap()
        } else if s.bool() {
            d.image_data_mut().unwrap()
        } else {
            d.image_mut().unwrap().data
        };
        match how {
            0 => o.extend(&x.b),
            1 => *o = x.b.clone(),
            _ => o.clear(),
        }
        match how {
            0 => v.b.extend(&x.b),
            1 => v.b = x.b,
            _ => v.b.clear(),
        }
    }
    format!("edit to {v:?}")
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let big = s.chance(1, 50);
    let mut v = gen::val(s, big);
    let mut d = v.to_lib();
    let v0 = v.clone();
    c.label(match v.ty {
        Ty::Utf8 => "utf-8",
        Ty::Utf16 => "utf-16",
        t if t.is_image() => "image",
        _ => "bytes",
    });
    views(&d, &v)?;
    if v.ty.is_image() {
        let f = ty_img(v.ty);
        let made = [Data::from(Img::new(f.clone(), v.b.clone())), Data::from(Img::new(f, &v.b[..]))];
        let by = match v.ty {
            Ty::Bmp => Img::bmp(v.b.clone()),
            Ty::Jpeg => Img::jpeg(v.b.clone()),
            _ => Img::png(v.b.clone()),
        };
        if made.iter().any(|m| *m != d) || Data::from(by) != d || Data::from(d.clone().into_image().unwrap()) != d {
            return fail("from-image", format!("{v:?} does not come from its image"));
        }
    }
    let n = s.idx(5);
    let mut hist = vec![];
    for _ in 0..n {
        let h = edit(s, &mut d, &mut v);
        c.describe(|| h.clone());
        views(&d, &v).map_err(|f| Fail { sig: f.sig, msg: format!("after {h}: {}", f.msg) })?;
        hist.push(h);
    }
    // values of equal content but other type are different
    let other = *s.pick(&TYS);
    let w = if other.is_string() { Val::text(other, &v.s) } else { Val::bytes(other, v.b.clone()) };
    if (w.to_lib() == d) != (w == v) {
        return fail("equality", format!("{v:?} == {w:?} is {}", w.to_lib() == d));
    }
    if s.chance(1, 4) {
        let l = stored_len(&d)?;
        if l != d.len() {
            return fail("stored-length", format!("{v:?} has length {} and takes {l} bytes in a file", d.len()));
        }
    }
    c.evals = n as u64 + 1;
    c.nontrivial = !v0.encoded().is_empty() || n > 0;
    c.key(&(&v0, &hist));
    c.describe(|| format!("{v0:?}"));
    Ok(())
}

fn fixed(_: &mut Ctx) -> Res {
    for ty in TYS {
        for t in ["", "x", "é", "中", "\u{10000}", "a\u{10ffff}b"] {
            let v = if ty.is_string() { Val::text(ty, t) } else { Val::bytes(ty, t.as_bytes().to_vec()) };
            let d = v.to_lib();
            views(&d, &v)?;
            if stored_len(&d)? != d.len() {
                return fail("stored-length", format!("{v:?} has length {} and takes {} bytes", d.len(), stored_len(&d)?));
            }
        }
    }
    let _ = model::flat(&vec![(Id::F(*b"test"), vec![])]);
    Ok(())
}
