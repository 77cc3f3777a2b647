//! Numeric codes.
use super::c06::{CHANNELS, RATES};
use super::c12::{rating, MEDIA, RATING};
use crate::engine::*;
use crate::gen;
use crate::model::{add_to_tag, of_tag, Id, Ty, Val};
use crate::tagmodel::start;
use crate::{mp4, util};
use mp4ameta::{AdvisoryRating, ChannelConfig, ErrorKind, MediaType, SampleRate, Tag};
use std::convert::TryFrom;

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    fixed: no_fixed,
    enumerated: Some((256, one_code)),
    quick: 3_000_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "all 256 values of all four kinds of code are enumerated (conversion, error kind and carried code, name, what a tag with \
           that code shows, what setting stores); the random cases set or store codes in arbitrary tags with values of arbitrary \
           length and type, and read them back through a dump or file. Non-trivial: a media type or rating was present. Distinct \
           by (start, codes).",
    assumptions: &["the kind of the error for an unknown sample rate is not specified"],
};

const STIK: Id = Id::F(*b"stik");
const RTNG: Id = Id::F(*b"rtng");

const MEDIA_NAMES: [&str; 8] = ["movie", "normal", "audiobook", "whackedbookmark", "musicvideo", "shortfilm", "tvshow", "booklet"];
const RATING_NAMES: [&str; 3] = ["clean", "inoffensive", "explicit"];
const CHANNEL_NAMES: [&str; 7] = ["mono", "stereo", "30", "40", "50", "51", "71"];

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}

fn tag_with(id: Id, code: u8) -> Tag {
    let mut t = Tag::default();
    add_to_tag(&mut t, &vec![(id, vec![Val::bytes(Ty::Reserved, vec![code])])]);
    t
}

fn one_code(i: u64, _: &mut Ctx) -> Res {
    let c = i as u8;
    // media type
    let want = MEDIA.iter().position(|m| m.0 == c);
    match (MediaType::try_from(c), want) {
        (Ok(m), Some(p)) => {
            if m != MEDIA[p].1 || norm(&m.to_string()) != MEDIA_NAMES[p] {
                return fail("media-type", format!("media type {c} is {m:?} ({m})"));
            }
            let mut t = Tag::default();
            t.set_media_type(m);
            if of_tag(&t) != of_tag(&tag_with(STIK, c)) {
                return fail("media-type-stored", format!("{m:?} is stored as {:?}, not {c}", of_tag(&t)));
            }
        }
        (Err(e), None) => {
            if !matches!(e.kind, ErrorKind::UnknownMediaType(x) if x == c) {
                return fail("media-type-error", format!("media type {c}: {e:?}"));
            }
        }
        (r, _) => return fail("media-type", format!("media type {c}: {r:?}")),
    }
    let got = tag_with(STIK, c).media_type();
    if got != want.map(|p| MEDIA[p].1) {
        return fail("media-type-read", format!("a tag with media type {c} shows {got:?}"));
    }
    // advisory rating
    let r = AdvisoryRating::from(c);
    if r != rating(c) || tag_with(RTNG, c).advisory_rating() != Some(rating(c)) {
        return fail("rating", format!("rating {c} is {r:?}, in a tag {:?}", tag_with(RTNG, c).advisory_rating()));
    }
    for (p, (code, v)) in RATING.iter().enumerate() {
        if norm(&v.to_string()) != RATING_NAMES[p] {
            return fail("rating-name", format!("{v:?} shows as {v}"));
        }
        let mut t = Tag::default();
        t.set_advisory_rating(*v);
        if of_tag(&t) != of_tag(&tag_with(RTNG, *code)) {
            return fail("rating-stored", format!("{v:?} is stored as {:?}, not {code}", of_tag(&t)));
        }
    }
    // channels
    match (ChannelConfig::try_from(c), c) {
        (Ok(x), 1..=7) => {
            let (v, n) = CHANNELS[c as usize - 1];
            if x != v || x.channel_count() != n || norm(&x.to_string()) != CHANNEL_NAMES[c as usize - 1] {
                return fail("channels", format!("channel configuration {c} is {x:?} ({x}, {} channels)", x.channel_count()));
            }
        }
        (Err(e), 0 | 8..=255) => {
            if !matches!(e.kind, ErrorKind::UnknownChannelConfig(x) if x == c) {
                return fail("channels-error", format!("channel configuration {c}: {e:?}"));
            }
        }
        (r, _) => return fail("channels", format!("channel configuration {c}: {r:?}")),
    }
    // sample rates
    match (SampleRate::try_from(c), RATES.get(c as usize)) {
        (Ok(x), Some((v, hz))) => {
            if x != *v || x.hz() != *hz || x.to_string() != format!("{hz}Hz") {
                return fail("rate", format!("sample rate {c} is {x:?} ({x}, {})", x.hz()));
            }
        }
        (Err(_), None) => {}
        (r, _) => return fail("rate", format!("sample rate {c}: {r:?}")),
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let ids = [STIK, RTNG, gen::id(s)];
    let (mut t, mut m) = start(s, &ids[1..], 3);
    let mut codes = vec![];
    for id in [STIK, RTNG] {
        match s.below(3) {
            0 => {
                let n = if s.chance(1, 30) { if s.chance(1, 8) { gen::limit(s) } else { s.idx(300) } } else { s.idx(3) + s.below(2) as usize };
                let k = s.u8();
                let v = Val::bytes(if s.bool() { Ty::Reserved } else { Ty::Signed }, (0..n).map(|i| if i > 3 { k } else if s.bool() { s.below(12) as u8 } else { s.u8() }).collect());
                m.add(&id, vec![v.clone()]);
                add_to_tag(&mut t, &vec![(id, vec![v.clone()])]);
                codes.push(v);
            }
            1 if id == STIK => {
                let (k, v) = *s.pick(&MEDIA);
                t.set_media_type(v);
                m.set(&id, vec![Val::bytes(Ty::Reserved, vec![k])]);
                codes.push(m.get(&id)[0].clone());
            }
            1 => {
                let (k, v) = *s.pick(&RATING);
                t.set_advisory_rating(v);
                m.set(&id, vec![Val::bytes(Ty::Reserved, vec![k])]);
                codes.push(m.get(&id)[0].clone());
            }
            _ => {}
        }
    }
    c.nontrivial = !codes.is_empty();
    c.key(&(&m.0, &codes));
    c.describe(|| format!("{:?}", m.0));
    m.check_eq(&t, &|| "setting codes".into())?;
    let first = |id: &Id| m.bytes(id).into_iter().next().and_then(|b| b.first().copied());
    let check = |t: &Tag, how: &str| -> Res {
        let want = first(&STIK).and_then(|c| MEDIA.iter().find(|x| x.0 == c)).map(|x| x.1);
        if t.media_type() != want {
            return fail("media-type", format!("{how}: {:?}, expected {want:?}", t.media_type()));
        }
        let want = first(&RTNG).map(rating);
        if t.advisory_rating() != want {
            return fail("rating", format!("{how}: {:?}, expected {want:?}", t.advisory_rating()));
        }
        Ok(())
    };
    check(&t, "in the tag")?;
    let b = if s.bool() {
        util::dump(&t).map_err(|e| Fail { sig: "dump".into(), msg: util::kind(&e) })?
    } else {
        let f = mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), mp4::cont(b"moov", vec![])]);
        util::write(&t, &f).1
    };
    match util::read(&b) {
        Ok(r) => check(&r, "after reading back"),
        Err(e) => fail("unreadable", format!("cannot be read back: {}", util::kind(&e))),
    }
}
