//! Equality is equality of content; copies are equal and independent.
use super::c06;
use crate::engine::*;
use crate::model::{self, flat, merge, of_tag, Id, Items, Ty, Val};
use crate::tagmodel::ty_img;
use crate::{gen, util};
use mp4ameta::{AdvisoryRating, AudioInfo, ChannelConfig, Data, DataIdent, Fourcc, Img, ImgBuf, ImgRef, MediaType, SampleRate, Tag};
use std::io::Cursor;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    fixed,
    enumerated: None,
    quick: 300_000,
    thorough: 4_000_000,
    level: "exploration",
    rule: "a tag with items, audio information and file type, built through the API or read from a file, and another: the same \
           built differently (other constructor, other order of calls, undone changes, another file with the same metadata), \
           one that differs in a single respect (a byte or letter, a type, an identifier, order of items or values, one \
           value more or less, file type, one field of the audio information), or an unrelated one. Equality in both \
           directions must be equality of everything the accessors show; copies must be equal and stay as they are when \
           the original or the copy is changed. The same for values, images, audio information and identifiers. \
           Non-trivial: the tags have items. Distinct by both contents.",
    assumptions: &[],
};

/// Everything a tag holds.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct All {
    items: Items,
    ftyp: String,
    info: Info,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Info {
    duration: Option<Duration>,
    chan: Option<usize>,
    rate: Option<usize>,
    max: Option<u32>,
    avg: Option<u32>,
}

impl Info {
    fn lib(&self) -> AudioInfo {
        AudioInfo {
            duration: self.duration,
            channel_config: self.chan.map(|i| c06::CHANNELS[i].0),
            sample_rate: self.rate.map(|i| c06::RATES[i].0),
            max_bitrate: self.max,
            avg_bitrate: self.avg,
        }
    }
    fn some(s: &mut Src) -> Info {
        let num = |s: &mut Src| *s.pick(&[None, Some(0), Some(1), Some(128_000), Some(u32::MAX)]);
        Info {
            duration: match s.below(4) {
                0 => None,
                1 => Some(Duration::new(0, 0)),
                2 => Some(Duration::new(s.below(100), s.below(1_000_000_000) as u32)),
                _ => Some(Duration::from_secs(s.u32() as u64)),
            },
            chan: s.bool().then(|| s.idx(c06::CHANNELS.len())),
            rate: s.bool().then(|| s.idx(c06::RATES.len())),
            max: num(s),
            avg: num(s),
        }
    }
}

fn build(s: &mut Src, a: &All) -> Tag {
    let mut t = Tag::new(a.ftyp.clone(), a.info.lib(), vec![]);
    match s.below(4) {
        0 => model::add_to_tag(&mut t, &a.items),
        1 => {
            for (i, v) in &a.items {
                t.set_all_data(i.to_lib(), v.iter().map(Val::to_lib));
            }
        }
        2 => {
            // in the order of items, values of several items in turns
            for (i, v) in &a.items {
                t.add_data(i.to_lib(), v[0].to_lib());
            }
            for (i, v) in a.items.iter().rev() {
                for v in &v[1..] {
                    t.add_data(i.to_lib(), v.to_lib());
                }
            }
        }
        _ => {
            // with detours
            let gone = Id::Free("gone".into(), "gone".into());
            t.add_data(gone.to_lib(), Data::Utf8("gone".into()));
            for (i, v) in &a.items {
                t.add_data(i.to_lib(), Data::Reserved(vec![1, 2, 3]));
                t.set_all_data(i.to_lib(), v.iter().map(Val::to_lib));
            }
            t.remove_data_of(&gone.to_lib());
        }
    }
    t
}

fn near_text(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let p = s.idx(c.len().max(1));
    match s.below(8) {
        0 => c.push(' '),
        1 => c.push('\0'),
        2 => c.insert(0, *s.pick(&['\u{feff}', ' ', 'a'])),
        3 => drop(c.pop()),
        4 => return if t.to_lowercase() == t { t.to_uppercase() } else { t.to_lowercase() },
        5 if !c.is_empty() => c[p] = if c[p] == 'q' { 'r' } else { 'q' },
        6 => return t.trim().replace('\u{e9}', "e\u{301}"),
        7 if c.len() > 1 => c.reverse(),
        _ => c.push('x'),
    }
    c.into_iter().collect()
}

fn near_bytes(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let p = s.idx(b.len().max(1));
    match s.below(6) {
        0 => b.push(0),
        1 => b.insert(0, 0),
        2 => drop(b.pop()),
        3 if !b.is_empty() => b[p] ^= 1 << s.below(8),
        4 if !b.is_empty() => *b.last_mut().unwrap_or(&mut 0) ^= 1,
        5 if b.len() > 1 => b.rotate_left(1),
        _ => b.push(1),
    }
    b
}

fn near_val(s: &mut Src, v: &Val) -> Val {
    let mut v = v.clone();
    if s.chance(1, 3) {
        // another type
        let to = *s.pick(&model::TYS);
        if to.is_string() == v.ty.is_string() {
            v.ty = to;
            return v;
        }
        return match to.is_string() {
            true => Val::text(to, &String::from_utf8_lossy(&v.b)),
            false => Val::bytes(to, v.s.into_bytes()),
        };
    }
    if v.ty.is_string() {
        v.s = near_text(s, &v.s);
    } else {
        v.b = near_bytes(s, &v.b);
    }
    v
}

/// The same but for one change (which may turn out to be none).
fn near(s: &mut Src, a: &All) -> (All, &'static str) {
    let mut b = a.clone();
    let n = b.items.len();
    if n == 0 && s.bool() {
        b.items = gen::items(s, 2, false);
        return (b, "items added");
    }
    let i = s.idx(n.max(1));
    let what = match s.below(12) {
        0 | 1 if n > 0 => {
            let l = b.items[i].1.len();
            let k = s.idx(l);
            b.items[i].1[k] = near_val(s, &b.items[i].1[k]);
            "another value"
        }
        2 if n > 0 => {
            b.items[i].0 = gen::near_id(s, &b.items[i].0);
            "another identifier"
        }
        3 if n > 1 => {
            b.items.swap(i, (i + 1) % n);
            "items in another order"
        }
        4 if n > 0 => {
            let l = b.items[i].1.len();
            b.items[i].1.swap(0, l - 1);
            "values in another order"
        }
        5 if n > 0 => {
            b.items.remove(i);
            "an item less"
        }
        6 if n > 0 => {
            let v = b.items[i].1[0].clone();
            b.items[i].1.push(v);
            "a value repeated"
        }
        7 if n > 0 => {
            if b.items[i].1.len() > 1 {
                b.items[i].1.pop();
            }
            "a value less"
        }
        8 => {
            b.ftyp = near_text(s, &b.ftyp);
            "another file type"
        }
        _ => {
            let o = Info::some(s);
            match s.below(5) {
                0 => b.info.duration = o.duration,
                1 => b.info.chan = o.chan,
                2 => b.info.rate = o.rate,
                3 => b.info.max = o.max,
                _ => b.info.avg = o.avg,
            }
            "other audio information"
        }
    };
    b.items = merge(&b.items);
    (b, what)
}

/// Equality of two values of a type against that of their contents.
fn eq<T: PartialEq + std::fmt::Debug>(a: &T, b: &T, want: bool, what: &str) -> Res {
    let show = |x: &T| {
        let mut t = format!("{x:?}");
        if let Some((i, _)) = t.char_indices().nth(200) {
            t.truncate(i);
        }
        t
    };
    let got = [a == b, b == a, !(a != b), !(b != a)];
    if got != [want; 4] {
        let w = if want { "equal" } else { "different" };
        return fail("equality", format!("{what}: {} and {} have {w} contents, but ==, == the other way round, not != give {got:?}", show(a), show(b)));
    }
    if !(a == a) || a != a {
        return fail("equality", format!("{what}: {} doesn't equal itself", show(a)));
    }
    Ok(())
}

fn holds(t: &Tag, a: &All, what: &str) -> Res {
    if of_tag(t) != flat(&a.items) || t.filetype() != a.ftyp || *t.audio_info() != a.info.lib() {
        return fail("content", format!("{what}: {t:?} should hold {a:?}"));
    }
    Ok(())
}

fn touch(s: &mut Src, t: &mut Tag, items: &Items) {
    let id = |s: &mut Src| match items.is_empty() {
        true => Id::F(*b"\xa9nam"),
        false => s.pick(items).0.clone(),
    };
    for _ in 0..1 + s.idx(3) {
        let i = id(s).to_lib();
        match s.below(10) {
            0 => t.clear(),
            1 => t.set_title("changed"),
            2 => t.remove_data_of(&i),
            3 => t.add_data(i, Data::Utf8("more".into())),
            4 => t.set_data(i, Data::BeSigned(vec![1, 2])),
            5 => t.retain_data(|_, d| d.is_string()),
            6 => drop(t.take_data_of(&i).count()),
            7 => {
                for d in t.data_mut_of(&i) {
                    *d = Data::Reserved(vec![9; 40]);
                }
            }
            8 => {
                for x in t.strings_mut_of(&i) {
                    x.clear();
                    x.push_str("in place");
                }
                for x in t.bytes_mut_of(&i) {
                    x.iter_mut().for_each(|b| *b ^= 0xff);
                }
                for x in t.images_mut_of(&i) {
                    x.data.push(7);
                }
            }
            _ => t.set_track_number(7),
        }
    }
}

/// Copies of a tag stay as they are whatever happens to the other.
fn copies(s: &mut Src, t: &Tag, a: &All, other: &Tag) -> Res {
    let copy = match s.below(3) {
        0 => t.clone(),
        1 => {
            let mut x = other.clone();
            x.clone_from(t);
            x
        }
        _ => t.clone().clone(),
    };
    holds(&copy, a, "a copy")?;
    eq(t, &copy, true, "a copy")?;
    let all = |t: &Tag| (of_tag(t), t.filetype().to_string(), t.audio_info().clone(), t.to_string(), format!("{t:?}"), util::dump(t).ok());
    if all(t) != all(&copy) {
        return fail("copy", format!("a copy of {a:?} isn't displayed or dumped like the original"));
    }
    let (mut x, mut y) = (t.clone(), copy);
    touch(s, &mut x, &a.items);
    holds(&y, a, "a copy, after the original changed")?;
    let left = all(&x);
    touch(s, &mut y, &a.items);
    if all(&x) != left {
        return fail("copy", format!("changing a copy of {a:?} changed the original"));
    }
    holds(t, a, "the original, after copies changed")
}

fn values(s: &mut Src, v: &Val, w: &Val) -> Res {
    let (a, b) = (v.to_lib(), w.to_lib());
    eq(&a, &b, v == w, "values")?;
    let mut c = match s.bool() {
        true => a.clone(),
        false => {
            let mut c = b.clone();
            c.clone_from(&a);
            c
        }
    };
    eq(&a, &c, true, "a value and its copy")?;
    match (c.string_mut(), v.ty) {
        (Some(t), _) => t.push('x'),
        (None, _) => {
            if let Some(d) = c.bytes_mut() {
                d.push(1);
            } else if let Some(i) = c.image_mut() {
                i.data.push(1);
            }
        }
    }
    if Val::of(&a) != *v {
        return fail("copy", format!("changing a copy of {v:?} changed the original"));
    }
    eq(&a, &c, false, "a value and its changed copy")?;
    if v.ty.is_image() && w.ty.is_image() {
        let (fa, fb) = (ty_img(v.ty), ty_img(w.ty));
        eq(&fa, &fb, v.ty == w.ty, "image formats")?;
        let (a, b) = (ImgBuf::new(fa.clone(), v.b.clone()), ImgBuf::new(fb.clone(), w.b.clone()));
        eq(&a, &b, v == w, "images")?;
        eq(&a, &a.clone(), true, "an image and its copy")?;
        let (a, b) = (ImgRef::new(fa.clone(), &v.b[..]), ImgRef::new(fb.clone(), &w.b[..]));
        eq(&a, &b, v == w, "image references")?;
        let (mut x, mut y) = (v.b.clone(), w.b.clone());
        eq(&Img::new(fa, &mut x), &Img::new(fb, &mut y), v == w, "mutable image references")?;
    }
    Ok(())
}

fn ids(a: &Id, b: &Id) -> Res {
    let (x, y): (DataIdent, DataIdent) = (a.to_lib(), b.to_lib());
    eq(&x, &y, a == b, "identifiers")?;
    eq(&x, &x.clone(), true, "an identifier and its copy")?;
    if let (Id::F(p), Id::F(q)) = (a, b) {
        eq(&Fourcc(*p), &Fourcc(*q), p == q, "four-character codes")?;
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(1, 4) {
        // read from files
        let f = gen::file(s, &gen::SMALL);
        let g = match s.below(3) {
            0 => f.clone(),
            _ => gen::file(s, &gen::SMALL),
        };
        let (fb, mut gb) = (f.bytes(), g.bytes());
        let mut gi = g.items.clone();
        if s.bool() {
            // the items of the first file
            c.label("the same metadata in another file");
            gi = f.items.clone();
            let (r, b) = util::write(&model::to_tag(&gi), &gb);
            r.map_err(|e| Fail { sig: "unreadable".into(), msg: format!("writing failed: {}", util::kind(&e)) })?;
            gb = b;
        }
        let get = |b: &[u8]| Tag::read_from(&mut Cursor::new(b)).map_err(|e| Fail { sig: "unreadable".into(), msg: format!("reading failed: {}", util::kind(&e)) });
        let (a, b) = (get(&fb)?, get(&gb)?);
        let (ia, ib) = (c06::expected(f.mvhd, &f.audio), c06::expected(g.mvhd, &g.audio));
        let fields = |i: &AudioInfo| (i.duration, format!("{:?}", i.channel_config), format!("{:?}", i.sample_rate), i.max_bitrate, i.avg_bitrate);
        let same_info = fields(&ia) == fields(&ib);
        let same = flat(&f.items) == flat(&gi) && f.ftyp == g.ftyp && same_info;
        c.key(&(&fb, &gb));
        c.describe(|| format!("read from files: {:?} {:?} and {:?} {:?}", f.items, f.ftyp, gi, g.ftyp));
        c.nontrivial = !f.items.is_empty();
        c.label("read from files");
        c.label_if(same, "equal tags");
        c.evals += 3;
        eq(&a, &b, same, "tags of two files")?;
        eq(&ia, &ib, same_info, "audio information")?;
        eq(a.audio_info(), b.audio_info(), same_info, "audio information of two files")?;
        let mut x = a.clone();
        touch(s, &mut x, &f.items);
        if of_tag(&a) != flat(&f.items) {
            return fail("copy", "changing a copy of a tag that was read changed the original");
        }
        return Ok(());
    }
    let a = All { items: gen::items(s, 4, false), ftyp: gen::ftyp_text(s), info: Info::some(s) };
    let (b, what) = match s.weighted(&[6, 2, 1]) {
        0 => near(s, &a),
        1 => (a.clone(), "the same"),
        _ => (All { items: gen::items(s, 4, false), ftyp: gen::ftyp_text(s), info: Info::some(s) }, "another"),
    };
    let (x, y) = (build(s, &a), build(s, &b));
    c.key(&(&a, &b));
    c.describe(|| format!("{a:?} and {what}: {b:?}"));
    c.nontrivial = !a.items.is_empty();
    c.label(what);
    c.label_if(a == b, "equal tags");
    c.evals += 2;
    holds(&x, &a, "as built")?;
    holds(&y, &b, "as built")?;
    eq(&x, &y, a == b, what)?;
    eq(&a.info.lib(), &b.info.lib(), a.info == b.info, "audio information")?;
    if a == b && (x.to_string() != y.to_string() || format!("{x:?}") != format!("{y:?}")) {
        return fail("copy", format!("equal tags are displayed differently: {a:?}"));
    }
    copies(s, &x, &a, &y)?;
    let (v, w) = match (a.items.first(), b.items.last()) {
        (Some(v), Some(w)) if s.bool() => (v.1[0].clone(), w.1[0].clone()),
        (Some(v), _) => (v.1[0].clone(), near_val(s, &v.1[0])),
        _ => {
            let v = gen::val(s, false);
            let w = near_val(s, &v);
            (v, w)
        }
    };
    c.evals += 1;
    values(s, &v, &w)?;
    if let Some((i, _)) = a.items.first() {
        ids(i, &gen::near_id(s, i))?;
    }
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    // nothing
    let none = All { items: vec![], ftyp: String::new(), info: Info::default() };
    c.evals += 3;
    holds(&Tag::default(), &none, "the default tag")?;
    eq(&Tag::default(), &Tag::new(String::new(), AudioInfo::default(), vec![]), true, "the default tag and an empty one")?;
    eq(&AudioInfo::default(), &Info::default().lib(), true, "the default audio information and an empty one")?;
    eq(&Fourcc::default(), &Fourcc([0; 4]), true, "the default four-character code and zeros")?;
    // all pairs of enumeration values
    fn pairs<T: PartialEq + std::fmt::Debug + Clone>(c: &mut Ctx, l: &[T]) -> Res {
        for (i, a) in l.iter().enumerate() {
            for (j, b) in l.iter().enumerate() {
                c.evals += 1;
                eq(a, b, i == j, "enumeration values")?;
                eq(a, &b.clone(), i == j, "enumeration values")?;
            }
        }
        Ok(())
    }
    use MediaType::*;
    pairs(c, &[Movie, Normal, AudioBook, WhackedBookmark, MusicVideo, ShortFilm, TvShow, Booklet])?;
    pairs(c, &[AdvisoryRating::Clean, AdvisoryRating::Inoffensive, AdvisoryRating::Explicit])?;
    let l: Vec<ChannelConfig> = c06::CHANNELS.iter().map(|x| x.0).collect();
    pairs(c, &l)?;
    let l: Vec<SampleRate> = c06::RATES.iter().map(|x| x.0).collect();
    pairs(c, &l)?;
    pairs(c, &model::TYS.iter().filter(|t| t.is_image()).map(|t| ty_img(*t)).collect::<Vec<_>>())?;
    // all pairs of types with the same content
    for (n, content) in ["", "a", "\0", "abc"].iter().enumerate() {
        let l: Vec<Data> = model::TYS
            .iter()
            .map(|t| match t.is_string() {
                true => Val::text(*t, content).to_lib(),
                false => Val::bytes(*t, content.as_bytes().to_vec()).to_lib(),
            })
            .collect();
        pairs(c, &l)?;
        let other = Val::text(Ty::Utf8, ["a", "", "", "ab"][n]).to_lib();
        for d in &l {
            eq(d, &other, false, "values")?;
        }
    }
    // large values that differ in one byte anywhere
    for n in [255usize, 256, 4096, 65536] {
        for p in [0, 1, n / 2, n - 2, n - 1] {
            for t in model::TYS {
                let mk = |x: u8| {
                    let mut b = vec![b'a'; n];
                    b[p] = x;
                    match t.is_string() {
                        true => Val::text(t, &String::from_utf8_lossy(&b)).to_lib(),
                        false => Val::bytes(t, b).to_lib(),
                    }
                };
                c.evals += 1;
                eq(&mk(b'b'), &mk(b'c'), false, "large values")?;
                eq(&mk(b'b'), &mk(b'b'), true, "large values")?;
            }
        }
    }
    Ok(())
}
