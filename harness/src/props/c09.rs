//! Dumped metadata is well formed and reads back.
use crate::engine::*;
use crate::model::{self, diff, flat, merge, of_tag, Id, Items, Ty, Val};
use crate::util::{Bad, Faulty, Mem, Scratch};
use crate::{big, fault, gen, mp4, util};
use mp4ameta::{AudioInfo, ChannelConfig, SampleRate, Tag};
use std::convert::TryFrom;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    fixed,
    enumerated: None,
    quick: 200_000,
    thorough: 4_000_000,
    level: "exploration",
    rule: "a random tag (set on an empty tag, constructed with arbitrary file type and audio information, or read from a \
           foreign file) is dumped; the bytes are parsed by a strict independent parser, read back by the library, and \
           compared with the dumps of the same metadata in tags with another file type and audio information, through \
           writers that accept few bytes per call, to a file handle and to a path with previous content. Non-trivial: the \
           tag has a value. Distinct by the dumped bytes.",
    assumptions: &["identifiers other than the reserved padding name free", "identifiers of one tag are distinct"],
};

/// A tag with the given file type and audio information.
fn with(ftyp: String, info: AudioInfo, items: &Items) -> Tag {
    let mut t = Tag::new(ftyp, info, vec![]);
    model::add_to_tag(&mut t, items);
    t
}

fn some_info(s: &mut Src) -> AudioInfo {
    let mut i = AudioInfo::default();
    if s.bool() {
        i.duration = Some(Duration::new(s.u32() as u64, s.below(1_000_000_000) as u32));
    }
    if s.bool() {
        i.max_bitrate = Some(s.u32());
        i.avg_bitrate = Some(s.u32());
    }
    if s.bool() {
        i.channel_config = ChannelConfig::try_from(1 + s.below(7) as u8).ok();
        i.sample_rate = SampleRate::try_from(s.below(13) as u8).ok();
    }
    i
}

/// The structure of a dump.
pub fn shape(b: &[u8], items: &Items) -> Res {
    let bad = |m: String| fail("malformed", format!("{m} [{}]", util::hex(&b[..b.len().min(120)])));
    let top = match mp4::parse(b) {
        Ok(t) => t,
        Err(e) => return bad(format!("the dump is malformed: {e}")),
    };
    let names: Vec<String> = top.iter().map(|n| mp4::show(&n.cc)).collect();
    if names != ["ftyp", "moov"] {
        return bad(format!("top level atoms {names:?}"));
    }
    if top[0].content(b).len() < 8 || top[0].content(b).len() % 4 != 0 {
        return bad("the file type atom lacks brand and version".into());
    }
    let ftyp = top[0].content(b);
    if &ftyp[..4] != b"M4A " || ![b"isom", b"iso2"].iter().all(|b| ftyp[8..].chunks(4).any(|c| c == *b)) {
        return bad("the file type isn't that of MPEG-4 audio".into());
    }
    let mut n = &top[1];
    for c in [b"udta", b"meta"] {
        n = match n.all(c)[..] {
            [x] => x,
            ref v => return bad(format!("{} atoms {}", v.len(), mp4::show(c))),
        };
    }
    if n.prefix != [0; 4] {
        return bad("metadata version or flags".into());
    }
    match n.all(b"hdlr")[..] {
        [h] => {
            let c = h.content(b);
            if !super::c02::itunes(c) {
                return bad(format!("handler {}", util::hex(c)));
            }
        }
        ref v => return bad(format!("{} handler atoms", v.len())),
    }
    let il = match n.all(b"ilst")[..] {
        [x] => x,
        ref v => return bad(format!("{} item lists", v.len())),
    };
    match model::decode_ilst(b, il) {
        Err(e) => bad(format!("the item list is malformed: {e}")),
        // one atom per identifier: no merging needed
        Ok(got) if &got != items => fail("content", format!("dumped {got:?} instead of {items:?}")),
        Ok(_) => Ok(()),
    }
}

fn check(tag: &Tag, items: &Items) -> Result<Vec<u8>, Fail> {
    let b = match util::dump(tag) {
        Ok(b) => b,
        Err(e) => return fail("refused", format!("dumping to memory failed: {}", util::kind(&e))),
    };
    shape(&b, items)?;
    match util::read(&b) {
        Err(e) => return fail("unreadable", format!("the dump cannot be read: {}", util::kind(&e))),
        Ok(t) => {
            if let Some(d) = diff(&flat(items), &of_tag(&t)) {
                return fail("read-differs", format!("reading the dump: {d}"));
            }
            if t.audio_info() != &AudioInfo::default() {
                return fail("audio-info", format!("a dump has audio information {:?}", t.audio_info()));
            }
            let top = mp4::parse(&b).unwrap();
            if t.filetype().as_bytes() != top[0].content(&b) {
                return fail("filetype", format!("file type read as {:?}", t.filetype()));
            }
            match util::dump(&t) {
                Ok(x) if x == b => {}
                Ok(x) => return fail("not-stable", format!("dumping what a dump reads as gives other bytes: {}", util::bdiff(&b, &x))),
                Err(e) => return fail("refused", format!("dumping to memory failed: {}", util::kind(&e))),
            }
        }
    }
    Ok(b)
}

fn same(what: &str, want: &[u8], r: mp4ameta::Result<Vec<u8>>) -> Res {
    match r {
        Err(e) => fail("refused", format!("dumping {what} failed: {}", util::kind(&e))),
        Ok(b) if b != want => fail("bytes-differ", format!("dumping {what} gives other bytes: {}", util::bdiff(want, &b))),
        Ok(_) => Ok(()),
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let (tag, items) = match s.weighted(&[4, 3, 2]) {
        0 => {
            let it = gen::items(s, 8, true);
            (model::to_tag(&it), it)
        }
        1 => {
            c.label("constructed with file type and audio information");
            let it = gen::items(s, 8, true);
            (with(gen::text(s, false), some_info(s), &it), it)
        }
        _ => {
            c.label("read from a foreign file");
            let f = gen::file(s, &gen::STD);
            match util::read(&f.bytes()) {
                Err(e) => return fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
                Ok(t) => (t, f.items),
            }
        }
    };
    super::c01::label_items(&items, c);
    c.nontrivial = !items.is_empty();
    c.describe(|| format!("tag {items:?}"));
    let b = check(&tag, &items)?;
    c.key(&b);
    // other tags with the same metadata
    same("a tag with the same metadata", &b, util::dump(&model::to_tag(&items)))?;
    let other = with(gen::text(s, false), some_info(s), &items);
    same("the same metadata with another file type and audio information", &b, util::dump(&other))?;
    // other writers
    let k = match s.below(4) {
        0 => 1,
        1 => 2 + s.idx(9),
        2 => 100,
        _ => 4096,
    };
    if b.len() < 4000 || k > 10 {
        let mut w = Faulty::new(vec![], Bad::Short(k));
        let r = tag.dump_to(&mut w).map(|()| w.t);
        same("to a writer taking few bytes per call", &b, r)?;
    }
    match s.weighted(&[8, 2, 1]) {
        1 => {
            c.label("dumped to a file handle");
            let m = Mem::new(&[]);
            let r = tag.dump_to(&mut &m.0);
            same("to a file", &b, r.map(|()| m.get()))?;
        }
        2 => {
            c.label("dumped to a path with previous content");
            let dir = Scratch::new();
            let n = s.idx(2 * b.len());
            let p = dir.file(&gen::fill(7, n));
            let r = tag.dump_to_path(&p);
            same("to a path with previous content", &b, r.map(|()| std::fs::read(&p).unwrap_or_default()))?;
        }
        _ => {}
    }
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    let t8 = |t: &str| Val::text(Ty::Utf8, t);
    let lists: Vec<Items> = vec![
        vec![],
        vec![(Id::F(*b"\xa9nam"), vec![t8("")])],
        vec![(Id::Free("".into(), "".into()), vec![Val::text(Ty::Utf16, "\u{10000}")])],
        vec![
            (Id::F(*b"covr"), vec![Val::bytes(Ty::Png, vec![]), Val::bytes(Ty::Jpeg, vec![1]), Val::bytes(Ty::Bmp, vec![2; 70_000])]),
            (Id::F(*b"----"), vec![t8("x")]),
        ],
        (0..300).map(|i| (Id::Free("m".into(), i.to_string()), vec![t8("v"), Val::bytes(Ty::Signed, vec![0; i])])).collect(),
    ];
    for l in lists {
        assert_eq!(merge(&l), l);
        let b = check(&model::to_tag(&l), &l)?;
        // to a path that does not exist yet, and over a longer and a shorter file
        let dir = Scratch::new();
        let p = dir.0.join("new.m4a");
        for old in [None, Some(b.len() + 1000), Some(b.len() - 1), Some(b.len())] {
            if let Some(n) = old {
                std::fs::write(&p, vec![b'x'; n]).expect("scratch file");
            }
            let r = model::to_tag(&l).dump_to_path(&p);
            same("to a path", &b, r.map(|()| std::fs::read(&p).unwrap_or_default()))?;
            c.evals += 1;
        }
    }
    beyond_32_bits(c)
}

/// A dump has the exact lengths as long as its items can have them, and is refused otherwise.
fn beyond_32_bits(c: &mut Ctx) -> Res {
    let empty = util::dump(&Tag::default()).map_err(|e| Fail { sig: "refused".into(), msg: util::kind(&e) })?;
    let movie = mp4::parse(&empty).ok().and_then(|t| t.get(1).map(|n| n.content(&empty).len() as u64 + 8)).unwrap_or(100);
    for z in big::zeros(movie) {
        let m = Mem::new(&[]);
        let lens = z.lens();
        c.evals += 1;
        let t = z.tag();
        fault::arm(m.fd(), fault::Kind::Holes, -1, 1, 100_000);
        let r = t.dump_to(&mut &m.0);
        fault::disarm();
        drop(t);
        big::limits();
        match (r, lens.iter().any(|n| *n > u32::MAX as u64)) {
            (Err(_), true) => {}
            (Err(e), false) => return fail("refused", format!("dumping items of {lens:?} bytes failed: {}", util::kind(&e))),
            (Ok(()), true) => return fail("wrapped-length", format!("dumping items of {lens:?} bytes, too long for a 32-bit length, succeeded")),
            (Ok(()), false) => {
                let n = m.0.metadata().map_or(0, |x| x.len());
                z.walk(&m, &[b"moov", b"udta", b"meta", b"ilst"], 0, n)
                    .map_err(|e| Fail { sig: "malformed".into(), msg: format!("dump of items of {lens:?} bytes: {e}") })?;
            }
        }
    }
    Ok(())
}
