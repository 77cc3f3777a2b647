//! The text form of a tag.
use super::c12::{int_of, rating, Acc, COVR, MEDIA, RTNG, STIK};
use super::c13;
use super::c14;
use crate::access::{FLAG, INT, MULTI, SINGLE};
use crate::engine::*;
use crate::gen;
use crate::model::{Id, Ty, Val};
use crate::tagmodel::*;
use crate::{mp4, util};
use mp4ameta::{AudioInfo, ChannelConfig, SampleRate, Tag};
use std::convert::TryFrom;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    fixed,
    enumerated: None,
    quick: 1_500_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "tags with values of any type and length under the atoms of up to six accessors and under freeform identifiers, with \
           arbitrary audio information and file type, made through the API or read from a generated file; the text must consist \
           of exactly the lines the model expects for the present values, in any order of blocks. Non-trivial: at least two \
           blocks. Distinct by (values, information).",
    assumptions: &["the wording of labels, units and the debug form of freeform values are taken as they are at present"],
};

const RATING_TEXT: fn(u8) -> &'static str = |c| match c {
    2 => "Clean",
    0 => "Inoffensive",
    _ => "Explicit",
};
const MEDIA_TEXT: [&str; 8] = ["Movie", "Normal", "Audiobook", "Whacked Bookmark", "Music Video", "Short Film", "TV-Show", "Booklet"];
const CHANNEL_TEXT: [&str; 7] = ["Mono", "Stereo", "3.0", "4.0", "5.0", "5.1", "7.1"];

fn duration(d: Duration) -> String {
    let (s, n) = (d.as_secs(), d.subsec_nanos());
    if s == 0 {
        return match n {
            0..=999 => format!("{n}ns"),
            1_000..=999_999 => format!("{}µs", n / 1000),
            _ => format!("{}ms", n / 1_000_000),
        };
    }
    match s {
        1..=59 => format!("{s}s"),
        60..=3599 => format!("{}:{:02}", s / 60, s % 60),
        _ => format!("{}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60),
    }
}

fn size(n: usize) -> String {
    match n {
        0..=0x3ff => format!("{n}"),
        0x400..=0xf_ffff => format!("{}k", n >> 10),
        _ => format!("{}M", n >> 20),
    }
}

fn list(out: &mut Vec<String>, name: &str, plural: &str, v: &[String]) {
    match v {
        [] => {}
        [x] => out.push(format!("{name}: {x}\n")),
        _ => {
            let mut b = format!("{plural}:\n");
            for x in v {
                b += &format!("    {x}\n");
            }
            out.push(b);
        }
    }
}

/// Debug form of a value: text and bytes in full, images by format.
pub fn value(v: &Val) -> String {
    match v.ty {
        Ty::Reserved => format!("Data::Reserved({:?})", v.b),
        Ty::Utf8 => format!("Data::Utf8({:?})", v.s),
        Ty::Utf16 => format!("Data::Utf16({:?})", v.s),
        Ty::Jpeg => "Data::Jpeg".into(),
        Ty::Png => "Data::Png".into(),
        Ty::Signed => format!("Data::BeSigned({:?})", v.b),
        Ty::Bmp => "Data::Bmp".into(),
    }
}

/// Blocks of lines the values call for, in the order the library uses.
pub fn blocks(m: &Model, info: &AudioInfo, ftyp: &str) -> Vec<String> {
    let mut o = vec![];
    let one = |o: &mut Vec<String>, n: &str| {
        let a = SINGLE.iter().find(|x| x.name == n).unwrap();
        list(o, n, "", &m.strings(&a.atom.id()).into_iter().take(1).collect::<Vec<_>>());
    };
    let all = |o: &mut Vec<String>, n: &str| {
        let a = MULTI.iter().find(|x| x.name == n).unwrap();
        list(o, n, a.plural, &m.strings(&a.atom.id()));
    };
    let int = |o: &mut Vec<String>, n: &str| {
        let a = INT.iter().find(|x| x.name == n).unwrap();
        if let Some(v) = int_of(m, &a.atom.id(), a.bytes) {
            o.push(format!("{n}: {v}\n"));
        }
    };
    let flag = |o: &mut Vec<String>, n: &str| {
        let a = FLAG.iter().find(|x| x.name == n).unwrap();
        if m.bytes(&a.atom.id()).first().map_or(false, |b| b.first() == Some(&1)) {
            o.push(format!("{n}\n"));
        }
    };
    let first = |id: &Id| m.bytes(id).into_iter().next().and_then(|b| b.first().copied());
    for n in ["album artist", "artist", "composer", "lyricist"] {
        all(&mut o, n);
    }
    one(&mut o, "album");
    one(&mut o, "title");
    list(&mut o, "genre", "genres", &c14::names(m));
    one(&mut o, "year");
    for (n, id) in [("track", b"trkn"), ("disc", b"disk")] {
        match c13::pair(m, &Id::F(*id)) {
            (Some(a), Some(b)) => o.push(format!("{n}: {a} of {b}\n")),
            (Some(a), None) => o.push(format!("{n}: {a}\n")),
            (None, Some(b)) => o.push(format!("{n}: ? of {b}\n")),
            _ => {}
        }
    }
    let art: Vec<String> = m
        .of_kind(&COVR, Kind::Images)
        .iter()
        .map(|v| {
            let f = match v.ty {
                Ty::Png => "png",
                Ty::Jpeg => "jpeg",
                _ => "bmp",
            };
            format!("{f} {}", size(v.b.len()))
        })
        .collect();
    list(&mut o, "artwork", "artworks", &art);
    if let Some(c) = first(&RTNG) {
        let _ = rating(c);
        o.push(format!("advisory rating: {}\n", RATING_TEXT(c)));
    }
    if let Some(p) = first(&STIK).and_then(|c| MEDIA.iter().position(|x| x.0 == c)) {
        o.push(format!("media type: {}\n", MEDIA_TEXT[p]));
    }
    for n in ["grouping", "description", "comment", "category", "keyword"] {
        all(&mut o, n);
    }
    for n in ["copyright", "encoder", "tv show name", "tv network name", "tv episode name"] {
        one(&mut o, n);
    }
    for n in ["tv episode", "tv season", "bpm"] {
        int(&mut o, n);
    }
    one(&mut o, "movement");
    one(&mut o, "work");
    int(&mut o, "movement count");
    int(&mut o, "movement index");
    if let Some(d) = info.duration {
        o.push(format!("duration: {}\n", duration(d)));
    }
    if let Some(x) = info.channel_config {
        let p = super::c06::CHANNELS.iter().position(|y| y.0 == x).unwrap();
        o.push(format!("channel config: {}\n", CHANNEL_TEXT[p]));
    }
    if let Some(x) = info.sample_rate {
        let p = super::c06::RATES.iter().find(|y| y.0 == x).unwrap();
        o.push(format!("sample rate: {}Hz\n", p.1));
    }
    if let Some(x) = info.avg_bitrate {
        o.push(format!("average bitrate: {}kbps\n", x / 1024));
    }
    if let Some(x) = info.max_bitrate {
        o.push(format!("maximum bitrate: {}kbps\n", x / 1024));
    }
    for n in ["show movement", "gapless playback", "compilation"] {
        flag(&mut o, n);
    }
    one(&mut o, "isrc");
    one(&mut o, "lyrics");
    for (i, v) in &m.0 {
        if let Id::Free(mean, name) = i {
            let mut b = format!("----:{mean}:{name}:\n");
            for x in v {
                b += &format!("    {}\n", value(x));
            }
            o.push(b);
        }
    }
    o.push(format!("filetype: {ftyp}\n"));
    o
}

/// The text is made of exactly the blocks, in any order.
pub fn made_of(text: &str, blocks: &[String]) -> Result<(), String> {
    if text == blocks.concat() {
        return Ok(());
    }
    let total: usize = blocks.iter().map(String::len).sum();
    // longest first: a block can be part of another
    let mut left: Vec<&String> = blocks.iter().collect();
    left.sort_by_key(|b| std::cmp::Reverse(b.len()));
    let mut rest = vec![text.to_string()];
    for b in left {
        let hit = rest.iter().enumerate().find_map(|(i, r)| {
            let p = r.match_indices(b.as_str()).find(|(p, _)| *p == 0 || r.as_bytes()[*p - 1] == b'\n')?.0;
            Some((i, p))
        });
        let Some((i, p)) = hit else { return Err(format!("does not show {b:?}")) };
        let r = rest.swap_remove(i);
        rest.push(r[..p].to_string());
        rest.push(r[p + b.len()..].to_string());
    }
    if text.len() != total {
        let extra: Vec<&String> = rest.iter().filter(|r| !r.is_empty()).collect();
        return Err(format!("shows {extra:?} that no value accounts for"));
    }
    Ok(())
}

pub fn check(t: &Tag, m: &Model, info: &AudioInfo, ftyp: &str) -> Res {
    use std::fmt::Write;
    let mut text = String::new();
    if write!(text, "{t}").is_err() {
        return fail("failed", "formatting the tag failed");
    }
    let _ = format!("{t:?}{t:#?}");
    made_of(&text, &blocks(m, info, ftyp)).map_err(|e| Fail { sig: "text".into(), msg: format!("{e} [{text:?}]") })
}

fn rate(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => s.below(3) as u32 * 1024,
        1 => (1 << s.below(32)) - s.below(2) as u32,
        2 => s.u32(),
        _ => s.below(400_000) as u32,
    }
}

fn info(s: &mut Src) -> AudioInfo {
    let dur = |s: &mut Src| match s.below(8) {
        0 => Duration::from_nanos(s.below(1000)),
        1 => Duration::from_nanos(s.below(3_000_000)),
        2 => Duration::from_nanos(s.below(3_000_000_000)),
        3 => Duration::from_millis(s.below(5_000_000)),
        4 => Duration::from_secs(s.below(100_000)),
        5 => Duration::from_secs(*s.pick(&[0u64, 1, 59, 60, 61, 3599, 3600, 3601, 86400, 359_999, 360_000])),
        6 => Duration::from_nanos(*s.pick(&[999u64, 1000, 999_999, 1_000_000, 999_999_999, 1_000_000_000])),
        _ => Duration::new(s.u64(), s.below(1_000_000_000) as u32),
    };
    AudioInfo {
        duration: if s.bool() { Some(dur(s)) } else { None },
        channel_config: ChannelConfig::try_from(s.below(9) as u8).ok(),
        sample_rate: SampleRate::try_from(s.below(15) as u8).ok(),
        max_bitrate: if s.bool() { Some(rate(s)) } else { None },
        avg_bitrate: if s.bool() { Some(rate(s)) } else { None },
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(1, 6) {
        let f = gen::file(s, &gen::SMALL);
        let b = f.bytes();
        c.label("read from a file");
        c.describe(|| format!("file {}", mp4::outlines(&f.top)));
        return match util::read(&b) {
            Ok(t) => {
                let m = Model(f.items.clone(), Default::default());
                let i = super::c06::expected(f.mvhd, &f.audio);
                c.nontrivial = blocks(&m, &i, &f.ftyp).len() > 1;
                c.key(&b);
                check(&t, &m, &i, &f.ftyp)
            }
            Err(e) => fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
        };
    }
    let i = info(s);
    let ftyp = gen::ftyp_text(s);
    let mut t = Tag::new(ftyp.clone(), i.clone(), vec![]);
    let mut m = Model::default();
    let n = s.idx(7);
    for _ in 0..n {
        let id = match s.weighted(&[6, 2, 2, 1]) {
            0 => Acc::any(s).id(),
            1 => Id::F(*s.pick(&[*b"trkn", *b"disk", *b"gnre", *b"\xa9gen"])),
            2 => Id::Free(gen::free_part(s), gen::free_part(s)),
            _ => gen::id(s),
        };
        let k = 1 + s.weighted(&[5, 2, 1]);
        for _ in 0..k {
            let v = match s.weighted(&[4, 3, 1]) {
                0 => gen::val(s, false),
                1 => {
                    let n = s.idx(9);
                    let ty = if s.bool() { Ty::Reserved } else { Ty::Signed };
                    Val::bytes(ty, (0..n).map(|_| if s.bool() { s.below(4) as u8 } else { s.u8() }).collect())
                }
                _ => {
                    let ty = *s.pick(&[Ty::Png, Ty::Jpeg, Ty::Bmp]);
                    let n = *s.pick(&[1023usize, 1024, 1025, 2047, 2048, 0, 10_000]) + s.idx(2);
                    Val::bytes(ty, vec![7; n])
                }
            };
            m.add(&id, vec![v.clone()]);
            crate::model::add_to_tag(&mut t, &vec![(id.clone(), vec![v])]);
        }
    }
    let b = blocks(&m, &i, &ftyp);
    c.nontrivial = b.len() > 1;
    for x in &b {
        if let Some(l) = x.split(':').next().filter(|l| l.len() < 24 && !x.starts_with("----")) {
            c.label(Box::leak(l.trim_end().to_string().into_boxed_str()));
        }
    }
    c.key(&(&m.0, format!("{i:?}"), &ftyp));
    c.describe(|| format!("{:?} {i:?} {ftyp:?}", m.0));
    check(&t, &m, &i, &ftyp)
}

fn fixed(_: &mut Ctx) -> Res {
    // each accessor alone, and a size in the megabytes
    let mut ids: Vec<(Id, Val)> = vec![];
    for a in SINGLE {
        ids.push((a.atom.id(), Val::text(Ty::Utf8, "v")));
    }
    for a in MULTI {
        ids.push((a.atom.id(), Val::text(Ty::Utf16, "v")));
    }
    for a in FLAG {
        ids.push((a.atom.id(), Val::bytes(Ty::Signed, vec![1])));
    }
    for a in INT {
        ids.push((a.atom.id(), Val::bytes(Ty::Signed, vec![0, 7, 0, 9])));
    }
    // around each change of the unit, and of the number shown
    let mut sizes = vec![0, 1, 9, 10, 99, 100, 999, 1000, 5 << 20, (5 << 20) - 1];
    for k in [1usize, 2, 3, 10, 512, 1000, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 3072, 9999, 10_240] {
        sizes.extend([k * 1024 - 1, k * 1024, k * 1024 + 1, k * 1000, k * 1023]);
    }
    for n in sizes {
        ids.push((COVR, Val::bytes(Ty::Png, vec![0; n])));
    }
    for c in 0..=255 {
        ids.push((STIK, Val::bytes(Ty::Reserved, vec![c])));
        ids.push((RTNG, Val::bytes(Ty::Reserved, vec![c])));
    }
    for v in [0u8, 1] {
        for w in [0u8, 1] {
            ids.push((Id::F(*b"trkn"), Val::bytes(Ty::Reserved, vec![0, 0, 0, v, 0, w, 0, 0])));
            ids.push((Id::F(*b"disk"), Val::bytes(Ty::Reserved, vec![0, 0, v, 0, w, 0])));
        }
    }
    for (id, v) in ids {
        for k in 1..3 {
            let m = Model(vec![(id.clone(), vec![v.clone(); k])], Default::default());
            check(&crate::model::to_tag(&m.0), &m, &AudioInfo::default(), "")?;
        }
    }
    Ok(())
}
