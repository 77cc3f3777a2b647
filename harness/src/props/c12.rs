//! The named accessors.
use crate::access::{self, FLAG, INT, MULTI, SINGLE};
use super::{c13, c14};
use crate::engine::*;
use crate::gen;
use crate::model::{flat, to_tag, Id, Items, Ty, Val};
use crate::tagmodel::*;
use crate::{mp4, util};
use mp4ameta::{AdvisoryRating, Img, ImgBuf, MediaType, Tag};

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    fixed,
    enumerated: None,
    quick: 2_000_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a tag with arbitrary values (of any type and length) under the atoms of one to three random accessors and under \
           unrelated ones, and up to eight calls of those accessors, mirrored on the reference model with the documented atom \
           and value type; after every call the whole tag is compared, and all getters of the table; at the end once more after \
           a dump and read. Non-trivial: a setter changed the tag. Distinct by (start, calls).",
    assumptions: &["the table of documented atoms covers the 40 accessors of the library at the time of writing"],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Acc {
    Single(usize),
    Multi(usize),
    Flag(usize),
    Int(usize),
    Artwork,
    Media,
    Rating,
    /// standard genre
    Std,
    /// track and disc
    Tuple(usize),
}

pub const COVR: Id = Id::F(*b"covr");
pub const STIK: Id = Id::F(*b"stik");
pub const RTNG: Id = Id::F(*b"rtng");

pub const MEDIA: [(u8, MediaType); 8] = [
    (0, MediaType::Movie),
    (1, MediaType::Normal),
    (2, MediaType::AudioBook),
    (5, MediaType::WhackedBookmark),
    (6, MediaType::MusicVideo),
    (9, MediaType::ShortFilm),
    (10, MediaType::TvShow),
    (11, MediaType::Booklet),
];
/// Any other code reads as explicit.
pub const RATING: [(u8, AdvisoryRating); 3] = [(2, AdvisoryRating::Clean), (0, AdvisoryRating::Inoffensive), (4, AdvisoryRating::Explicit)];

pub fn rating(code: u8) -> AdvisoryRating {
    match code {
        2 => AdvisoryRating::Clean,
        0 => AdvisoryRating::Inoffensive,
        _ => AdvisoryRating::Explicit,
    }
}

impl Acc {
    pub fn any(s: &mut Src) -> Acc {
        match s.weighted(&[SINGLE.len() as u64, MULTI.len() as u64, FLAG.len() as u64, INT.len() as u64, 2, 2, 2, 2, 2]) {
            0 => Acc::Single(s.idx(SINGLE.len())),
            1 => Acc::Multi(s.idx(MULTI.len())),
            2 => Acc::Flag(s.idx(FLAG.len())),
            3 => Acc::Int(s.idx(INT.len())),
            4 => Acc::Artwork,
            5 => Acc::Media,
            6 => Acc::Rating,
            7 => Acc::Std,
            _ => Acc::Tuple(s.idx(2)),
        }
    }
    pub fn id(self) -> Id {
        match self {
            Acc::Single(i) => SINGLE[i].atom.id(),
            Acc::Multi(i) => MULTI[i].atom.id(),
            Acc::Flag(i) => FLAG[i].atom.id(),
            Acc::Int(i) => INT[i].atom.id(),
            Acc::Artwork => COVR,
            Acc::Media => STIK,
            Acc::Rating => RTNG,
            Acc::Std => c14::GNRE,
            Acc::Tuple(i) => c13::IDS[i].clone(),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Acc::Single(i) => SINGLE[i].name,
            Acc::Multi(i) => MULTI[i].name,
            Acc::Flag(i) => FLAG[i].name,
            Acc::Int(i) => INT[i].name,
            Acc::Artwork => "artwork",
            Acc::Media => "media type",
            Acc::Rating => "advisory rating",
            Acc::Std => "standard genre",
            Acc::Tuple(i) => ["track", "disc"][i],
        }
    }
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// The value of an integer accessor on arbitrary data.
pub fn int_of(m: &Model, id: &Id, bytes: usize) -> Option<u64> {
    m.bytes(id).first().and_then(|b| b.get(..bytes).map(be))
}

fn img(i: Img<impl AsRef<[u8]>>) -> Val {
    Val::bytes(img_ty(&i.fmt), i.data.as_ref().to_vec())
}

/// Every getter of the table shows what the model holds under its documented atom.
pub fn getters(t: &Tag, m: &Model) -> Res {
    let bad = |n: &str, got: String, want: String| fail("getter", format!("{n} is {got}, expected {want}"));
    for a in SINGLE {
        let want = m.strings(&a.atom.id()).into_iter().next();
        let got = (a.get)(t).map(String::from);
        if got != want {
            return bad(a.name, format!("{got:?}"), format!("{want:?}"));
        }
    }
    for a in MULTI {
        let want = m.strings(&a.atom.id());
        let got = (a.all)(t);
        if got != want {
            return bad(a.plural, format!("{got:?}"), format!("{want:?}"));
        }
        let got = (a.first)(t).map(String::from);
        if got.as_ref() != want.first() {
            return bad(a.name, format!("{got:?}"), format!("{:?}", want.first()));
        }
    }
    for a in FLAG {
        let want = m.bytes(&a.atom.id()).first().map_or(false, |b| b.first() == Some(&1));
        if (a.get)(t) != want {
            return bad(a.name, format!("{}", !want), format!("{want}"));
        }
    }
    for a in INT {
        let want = int_of(m, &a.atom.id(), a.bytes);
        let got = (a.get)(t);
        if got != want {
            return bad(a.name, format!("{got:?}"), format!("{want:?}"));
        }
    }
    let want = m.of_kind(&COVR, Kind::Images);
    let got: Vec<Val> = t.artworks().map(img).collect();
    if got != want {
        return bad("artworks", format!("{got:?}"), format!("{want:?}"));
    }
    let got = t.artwork().map(img);
    if got.as_ref() != want.first() {
        return bad("artwork", format!("{got:?}"), format!("{:?}", want.first()));
    }
    let first = |id: &Id| m.bytes(id).into_iter().next().and_then(|b| b.first().copied());
    let want = first(&STIK).and_then(|c| MEDIA.iter().find(|x| x.0 == c)).map(|x| x.1);
    if t.media_type() != want {
        return bad("media type", format!("{:?}", t.media_type()), format!("{want:?}"));
    }
    let want = first(&RTNG).map(rating);
    if t.advisory_rating() != want {
        return bad("advisory rating", format!("{:?}", t.advisory_rating()), format!("{want:?}"));
    }
    let want = c14::codes(m);
    let got: Vec<u16> = t.standard_genres().collect();
    if got != want {
        return bad("standard genres", format!("{got:?}"), format!("{want:?}"));
    }
    if t.standard_genre() != want.first().copied() {
        return bad("standard genre", format!("{:?}", t.standard_genre()), format!("{:?}", want.first()));
    }
    c13::getters(t, [c13::pair(m, &c13::TRKN), c13::pair(m, &c13::DISK)], "the call")
}

fn some_text(s: &mut Src) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..gen::count(s) {
        let t = if !v.is_empty() && s.chance(1, 6) { s.pick(&v).clone() } else { gen::text(s, false) };
        v.push(t);
    }
    v
}

fn some_img(s: &mut Src) -> Val {
    let ty = *s.pick(&[Ty::Png, Ty::Jpeg, Ty::Bmp]);
    Val::bytes(ty, gen::blob(s, false))
}
fn to_img(v: &Val) -> ImgBuf {
    Img::new(ty_img(v.ty), v.b.clone())
}

/// Bytes of a number, or of a length that isn't one of a number.
pub fn odd(s: &mut Src, max: usize) -> Vec<u8> {
    let n = if s.chance(1, 16) { if s.chance(1, 8) { gen::limit(s) } else { s.idx(300) } } else { s.idx(max) };
    let mut v: Vec<u8> = (0..n.min(max)).map(|_| s.u8()).collect();
    v.resize(n, s.u8());
    v
}

/// One call; the model follows the documentation. Returns its description.
pub fn call(s: &mut Src, a: Acc, t: &mut Tag, m: &mut Model) -> Result<String, Fail> {
    let id = a.id();
    let n = a.name();
    let utf8 = |v: &[String]| -> Vec<Val> { v.iter().map(|x| Val::text(Ty::Utf8, x)).collect() };
    let taken = |d: &str, got: String, want: String| -> Res {
        if got != want {
            return fail("taken", format!("{d} returned {got}, expected {want}"));
        }
        Ok(())
    };
    Ok(match a {
        Acc::Single(i) => {
            let x = &SINGLE[i];
            match s.below(4) {
                0 | 1 => {
                    let v = gen::text(s, false);
                    (x.set)(t, v.clone());
                    m.set(&id, utf8(&[v.clone()]));
                    format!("set {n} {v:?}")
                }
                2 => {
                    let want = m.strings(&id).into_iter().next();
                    m.take(&id);
                    taken(&format!("take {n}"), format!("{:?}", (x.take)(t)), format!("{want:?}"))?;
                    format!("take {n}")
                }
                _ => {
                    (x.remove)(t);
                    m.take(&id);
                    format!("remove {n}")
                }
            }
        }
        Acc::Multi(i) => {
            let x = &MULTI[i];
            match s.below(8) {
                0 | 1 => {
                    let v = gen::text(s, false);
                    (x.set)(t, v.clone());
                    m.set(&id, utf8(&[v.clone()]));
                    format!("set {n} {v:?}")
                }
                2 => {
                    let v = gen::text(s, false);
                    (x.add)(t, v.clone());
                    m.add(&id, utf8(&[v.clone()]));
                    format!("add {n} {v:?}")
                }
                3 => {
                    let v = some_text(s);
                    (x.set_all)(t, v.clone());
                    m.set(&id, utf8(&v));
                    format!("set {} {v:?}", x.plural)
                }
                4 => {
                    let v = some_text(s);
                    (x.add_all)(t, v.clone());
                    m.add(&id, utf8(&v));
                    format!("add {} {v:?}", x.plural)
                }
                5 => {
                    let want = m.strings(&id);
                    m.take(&id);
                    taken(&format!("take {}", x.plural), format!("{:?}", (x.take_all)(t)), format!("{want:?}"))?;
                    format!("take {}", x.plural)
                }
                6 => {
                    let want = m.strings(&id).into_iter().next();
                    m.take(&id);
                    taken(&format!("take {n}"), format!("{:?}", (x.take)(t)), format!("{want:?}"))?;
                    format!("take {n}")
                }
                _ => {
                    (x.remove)(t);
                    m.take(&id);
                    format!("remove {}", x.plural)
                }
            }
        }
        Acc::Flag(i) => {
            if s.chance(2, 3) {
                (FLAG[i].set)(t);
                m.set(&id, vec![Val::bytes(Ty::Signed, vec![1])]);
                format!("set {n}")
            } else {
                (FLAG[i].remove)(t);
                m.take(&id);
                format!("remove {n}")
            }
        }
        Acc::Int(i) => {
            let x = &INT[i];
            if s.chance(2, 3) {
                let k = 8 * x.bytes as u32;
                let v = match s.below(4) {
                    0 => s.below(16),
                    1 => (1 << k) - 1 - s.below(3),
                    2 => (1 << (k - 1)) - 1 + s.below(3),
                    _ => s.below(1 << k),
                };
                (x.set)(t, v);
                m.set(&id, vec![Val::bytes(Ty::Signed, v.to_be_bytes()[8 - x.bytes..].to_vec())]);
                format!("set {n} {v}")
            } else {
                (x.remove)(t);
                m.take(&id);
                format!("remove {n}")
            }
        }
        Acc::Artwork => match s.below(7) {
            0 => {
                let v = some_img(s);
                t.set_artwork(to_img(&v));
                m.set(&id, vec![v.clone()]);
                format!("set artwork {v:?}")
            }
            1 => {
                let v = some_img(s);
                t.add_artwork(to_img(&v));
                m.add(&id, vec![v.clone()]);
                format!("add artwork {v:?}")
            }
            2 | 3 => {
                let k = gen::count(s);
                let v: Vec<Val> = (0..k).map(|_| some_img(s)).collect();
                if s.bool() {
                    t.set_artworks(v.iter().map(to_img));
                    m.set(&id, v.clone());
                    format!("set artworks {v:?}")
                } else {
                    t.add_artworks(v.iter().map(to_img));
                    m.add(&id, v.clone());
                    format!("add artworks {v:?}")
                }
            }
            4 => {
                let want = m.of_kind(&id, Kind::Images);
                m.take(&id);
                let got: Vec<Val> = t.take_artworks().map(img).collect();
                taken("take artworks", format!("{got:?}"), format!("{want:?}"))?;
                "take artworks".into()
            }
            5 => {
                let want = m.of_kind(&id, Kind::Images).into_iter().next();
                m.take(&id);
                taken("take artwork", format!("{:?}", t.take_artwork().map(img)), format!("{want:?}"))?;
                "take artwork".into()
            }
            _ => {
                t.remove_artworks();
                m.take(&id);
                "remove artworks".into()
            }
        },
        Acc::Media => {
            if s.chance(2, 3) {
                let (c, v) = *s.pick(&MEDIA);
                t.set_media_type(v);
                m.set(&id, vec![Val::bytes(Ty::Reserved, vec![c])]);
                format!("set media type {v:?}")
            } else {
                t.remove_media_type();
                m.take(&id);
                "remove media type".into()
            }
        }
        Acc::Rating => {
            if s.chance(2, 3) {
                let (c, v) = *s.pick(&RATING);
                t.set_advisory_rating(v);
                m.set(&id, vec![Val::bytes(Ty::Reserved, vec![c])]);
                format!("set advisory rating {v:?}")
            } else {
                t.remove_advisory_rating();
                m.take(&id);
                "remove advisory rating".into()
            }
        }
        Acc::Std => {
            let val = |c: &u16| Val::bytes(Ty::Reserved, c.to_be_bytes().to_vec());
            let v: Vec<u16> = (0..gen::count(s)).map(|_| c14::code(s)).collect();
            let one = v.first().copied().unwrap_or(17);
            match s.below(5) {
                0 => {
                    t.set_standard_genre(one);
                    m.set(&id, vec![val(&one)]);
                    format!("set standard genre {one}")
                }
                1 => {
                    t.add_standard_genre(one);
                    m.add(&id, vec![val(&one)]);
                    format!("add standard genre {one}")
                }
                2 => {
                    t.set_standard_genres(v.iter().copied());
                    m.set(&id, v.iter().map(val).collect());
                    format!("set standard genres {v:?}")
                }
                3 => {
                    t.add_standard_genres(v.iter().copied());
                    m.add(&id, v.iter().map(val).collect());
                    format!("add standard genres {v:?}")
                }
                _ => {
                    t.remove_standard_genres();
                    m.take(&id);
                    "remove standard genres".into()
                }
            }
        }
        Acc::Tuple(i) => {
            let (call, x, y) = (s.below(6), c13::num(s), c13::num(s));
            let d = c13::step(t, i, call, x, y)?;
            match Model::of(t).get(&id) {
                [] => drop(m.take(&id)),
                v => m.set(&id, v.to_vec()),
            }
            d
        }
    })
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let k = 1 + s.weighted(&[4, 2, 1]);
    let accs: Vec<Acc> = (0..k).map(|_| Acc::any(s)).collect();
    let mut ids: Vec<Id> = accs.iter().map(|a| a.id()).collect();
    ids.push(gen::id(s));
    if s.bool() {
        let n = gen::near_id(s, &ids[0].clone());
        ids.push(n);
    }
    let (mut t, mut m) = start(s, &ids, 5);
    // values of the fitting type but odd lengths
    for a in &accs {
        if s.chance(1, 4) {
            let ty = *s.pick(&[Ty::Signed, Ty::Reserved, Ty::Utf8, Ty::Utf16, Ty::Png]);
            let v = if ty.is_string() { Val::text(ty, &gen::text(s, false)) } else { Val::bytes(ty, odd(s, 7)) };
            m.add(&a.id(), vec![v.clone()]);
            crate::model::add_to_tag(&mut t, &vec![(a.id(), vec![v])]);
        }
    }
    let m0 = m.clone();
    getters(&t, &m)?;
    let n = 1 + s.idx(8);
    let mut hist = vec![];
    let mut sets = 0;
    for _ in 0..n {
        let a = *s.pick(&accs);
        let was = m.clone();
        let d = call(s, a, &mut t, &mut m)?;
        c.label(a.name());
        c.describe(|| d.clone());
        m.check_eq(&t, &|| d.clone())?;
        sets += (m != was && !d.starts_with("remove") && !d.starts_with("take")) as u32;
        hist.push(d);
    }
    getters(&t, &m)?;
    if s.chance(1, 8) {
        c.label("through a file");
        let f = mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), mp4::cont(b"moov", vec![])]);
        let (r, b) = util::write(&t, &f);
        match r.and_then(|_| util::read(&b)) {
            Ok(r) => getters(&r, &m).map_err(|f| Fail { sig: f.sig, msg: format!("after writing and reading: {}", f.msg) })?,
            Err(e) => return fail("unreadable", format!("the tag cannot be written and read: {}", util::kind(&e))),
        }
    }
    c.evals = n as u64;
    c.nontrivial = sets > 0;
    c.key(&(&m0.0, &hist));
    c.describe(|| format!("start {:?}", m0.0));
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    // a value set through each accessor alone, by the stored form
    let all = |f: &mut dyn FnMut(&mut Tag, &mut Model) -> Res| -> Res {
        let (mut t, mut m) = (Tag::default(), Model::default());
        f(&mut t, &mut m)?;
        m.check_eq(&t, &|| "a setter".into())?;
        getters(&t, &m)?;
        let b = util::dump(&t).map_err(|e| Fail { sig: "dump".into(), msg: util::kind(&e) })?;
        let r = util::read(&b).map_err(|e| Fail { sig: "read".into(), msg: util::kind(&e) })?;
        getters(&r, &m)?;
        if let Some(d) = crate::model::diff(&flat(&m.0), &crate::model::of_tag(&r)) {
            return fail("through-dump", d);
        }
        Ok(())
    };
    for x in SINGLE {
        all(&mut |t, m| {
            (x.set)(t, x.name.to_string());
            m.set(&x.atom.id(), vec![Val::text(Ty::Utf8, x.name)]);
            Ok(())
        })?;
    }
    for x in MULTI {
        all(&mut |t, m| {
            (x.set)(t, "1".into());
            (x.add)(t, "2".into());
            (x.add_all)(t, vec!["3".into(), "4".into()]);
            m.set(&x.atom.id(), ["1", "2", "3", "4"].iter().map(|v| Val::text(Ty::Utf8, v)).collect());
            Ok(())
        })?;
        all(&mut |t, m| {
            (x.add)(t, "1".into());
            (x.set_all)(t, vec!["3".into(), "4".into()]);
            m.set(&x.atom.id(), ["3", "4"].iter().map(|v| Val::text(Ty::Utf8, v)).collect());
            Ok(())
        })?;
        all(&mut |t, _| {
            (x.add)(t, "1".into());
            (x.set_all)(t, vec![]);
            (x.add_all)(t, vec![]);
            Ok(())
        })?;
    }
    for x in FLAG {
        all(&mut |t, m| {
            (x.set)(t);
            m.set(&x.atom.id(), vec![Val::bytes(Ty::Signed, vec![1])]);
            Ok(())
        })?;
    }
    for x in INT {
        for v in [0, 1, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff] {
            all(&mut |t, m| {
                (x.set)(t, v);
                m.set(&x.atom.id(), vec![Val::bytes(Ty::Signed, v.to_be_bytes()[8 - x.bytes..].to_vec())]);
                Ok(())
            })?;
        }
    }
    c.evals += access::count() as u64;
    // getters on data another encoder wrote
    for b in [vec![], vec![0], vec![1], vec![1, 0], vec![0, 1], vec![2], vec![0, 0, 1], vec![1, 2, 3, 4, 5]] {
        for ty in [Ty::Reserved, Ty::Signed] {
            let ids: Vec<Id> = FLAG.iter().map(|x| x.atom.id()).chain(INT.iter().map(|x| x.atom.id())).chain([STIK, RTNG]).collect();
            let items: Items = ids.into_iter().map(|i| (i, vec![Val::bytes(ty, b.clone())])).collect();
            getters(&to_tag(&items), &Model(items.clone(), Default::default()))?;
        }
    }
    Ok(())
}
