//! Generators of values, identifiers, tags and valid containers.
use crate::engine::Src;
use crate::model::{Id, Items, Ty, Val, TYS};
use crate::mp4::{cont, encode, full, leaf, Body, Cc, ChunkRef, Node};

/// Identifiers with a meaning in iTunes metadata.
pub const KNOWN: &[Cc] = &[
    *b"\xa9nam", *b"\xa9ART", *b"aART", *b"\xa9alb", *b"covr", *b"trkn", *b"disk", *b"gnre", *b"\xa9gen", *b"tmpo",
    *b"cpil", *b"pgap", *b"shwm", *b"stik", *b"rtng", *b"\xa9cmt", *b"\xa9wrt", *b"cprt", *b"\xa9too", *b"\xa9day",
    *b"\xa9grp", *b"catg", *b"keyw", *b"pcst", *b"egid", *b"purl", *b"desc", *b"\xa9lyr", *b"tves", *b"tven", *b"tvnn",
    *b"tvsn", *b"tvsh", *b"purd", *b"\xa9mvn", *b"\xa9mvc", *b"\xa9mvi", *b"\xa9wrk",
];

/// Names of structural atoms; legal (if unusual) as item identifiers.
pub const STRUCTURAL: &[Cc] = &[
    *b"moov", *b"data", *b"mean", *b"name", *b"ilst", *b"meta", *b"hdlr", *b"udta", *b"stco", *b"co64", *b"mdat",
    *b"ftyp", *b"trak", *b"mvhd", *b"----", *b"skip", *b"wide", *b"uuid", *b"keys", *b"xtra", *b"fre\xe9", *b"FREE", [0; 4], [255; 4], *b"\xa9nAm",
];

pub const APPLE: &str = "com.apple.iTunes";

/// Pseudo-random bytes from a small seed (seed 0 gives zeros), so that big values cost few choices.
pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut r = crate::engine::Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend(r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

/// Sizes: mostly small, sometimes around the I/O buffer size.
pub fn size(s: &mut Src, big: bool) -> usize {
    match s.weighted(if big { &[120, 120, 60, 20, 20, 1] } else { &[6, 6, 2] }) {
        0 => s.idx(5),
        1 => s.idx(33),
        2 => s.idx(200),
        3 => 8192 - 200 + s.idx(400),
        5 => match s.weighted(&[2000, 30, 3]) {
            0 => 65536 - 200 + s.idx(400),
            1 => (1 << 20) - 40 + s.idx(80),
            _ => (1 << 24) - 40 + s.idx(80),
        },
        _ => s.idx(20000),
    }
}

const MAGIC: &[&[u8]] = &[b"\xff\xd8\xff\xe0\0\x10JFIF\0", b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR", b"BM", b"GIF89a", b"RIFF\0\0\0\0WEBP", b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe"];

/// Lengths around the limits code may have.
pub fn limit(s: &mut Src) -> usize {
    let n = *s.pick(&[128usize, 255, 256, 512, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 100_000, 1 << 20]);
    n + s.idx(5) - 2
}

/// Numbers of things, mostly small.
pub fn count(s: &mut Src) -> usize {
    match s.weighted(&[40, 40, 30, 30, 8, 1]) {
        4 => 4 + s.idx(6),
        5 => 10 + s.idx(30),
        n => n,
    }
}

pub fn blob(s: &mut Src, big: bool) -> Vec<u8> {
    let n = if !big && s.chance(1, 1000) { limit(s) } else { size(s, big) };
    if n > 1 && s.chance(1, 8) {
        let mut v = fill(s.below(256), n);
        let m = *s.pick(MAGIC);
        let k = m.len().min(n);
        v[..k].copy_from_slice(&m[..k]);
        return v;
    }
    if n <= 8 && s.bool() {
        (0..n).map(|_| s.u8()).collect()
    } else {
        fill(s.below(256), n)
    }
}

const CHARS: &[char] = &[
    'a', 'Z', ' ', '0', ':', '-', '\n', '\0', '\u{1}', '\u{7f}', 'é', 'ß', '\u{e9}', 'e', '\u{301}', '中', '\u{feff}',
    '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '😀', '\u{10ffff}', '\u{10000}', '\u{80}', '\u{7ff}', '\u{800}', '’',
];

pub fn ch(s: &mut Src) -> char {
    match s.weighted(&[5, 4, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(CHARS),
        _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

/// Texts that code may be tempted to treat specially.
const WORDS: &[&str] = &[
    "1", "0", "00", "1/2", "03/12", "true", "false", "2024", "2024-01-31T12:00:00Z", " padded ", "line\nbreak", "line\r\nbreak",
    "tail\0", "\0head", "a\0b", "\u{feff}bom", "tab\there", "trailing ", "a;b", "a/b", "a, b", "a & b", "<x/>", "\"quoted\"", "null",
    "(17)", "17", "Rock/Pop", "Caf\u{e9}", "Cafe\u{301}", "\u{1f468}\u{200d}\u{1f469}", "İ", "ſ", "K", "com.apple.iTunes", "ISRC", "----", "\u{a9}nam",
    "mp4ameta", "audio/mp4", "http://example.com/a?b=c&d=%20", "USRC17607839",
];

fn word(s: &mut Src) -> String {
    if s.bool() {
        let w = *s.pick(mp4ameta::STANDARD_GENRES.as_slice());
        match s.below(4) {
            0 => w.to_lowercase(),
            _ => w.to_string(),
        }
    } else {
        s.pick(WORDS).to_string()
    }
}

pub fn text(s: &mut Src, big: bool) -> String {
    match s.weighted(if big { &[1, 8, 3, 3, 1] } else { &[1, 8, 3, 3] }) {
        0 => String::new(),
        1 => {
            let n = s.idx(9);
            (0..n).map(|_| ch(s)).collect()
        }
        2 => {
            let n = s.idx(40);
            (0..n).map(|_| ch(s)).collect()
        }
        3 if s.chance(1, 500) => {
            // around the sizes that limits tend to have
            let k = limit(s);
            let (c, d) = (ch(s), ch(s));
            (0..k.saturating_sub(1)).map(|_| c).chain([d]).collect()
        }
        3 => word(s),
        _ => {
            let n = s.idx(12000);
            let c = ch(s);
            let d = ch(s);
            (0..n).map(|i| if i % 7 == 3 { d } else { c }).collect()
        }
    }
}

pub fn val(s: &mut Src, big: bool) -> Val {
    let ty = *s.pick(&TYS);
    val_of(s, ty, big)
}

pub fn val_of(s: &mut Src, ty: Ty, big: bool) -> Val {
    if ty.is_string() {
        Val::text(ty, &text(s, big))
    } else {
        Val::bytes(ty, blob(s, big))
    }
}

pub fn cc(s: &mut Src) -> Cc {
    let c = match s.weighted(&[8, 2, 2]) {
        0 => *s.pick(KNOWN),
        1 => *s.pick(STRUCTURAL),
        _ => [s.u8(), s.u8(), s.u8(), s.u8()],
    };
    if &c == b"free" {
        *b"frea"
    } else {
        c
    }
}

pub fn free_part(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&[APPLE, "ISRC", "LYRICIST", "", "a", "A", "a:b", "b", "com.apple.itunes", "iTunNORM", "----", "é"]).to_string(),
        1 => text(s, false),
        _ if s.chance(1, 60) => "x".repeat(65_500 + s.idx(100)),
        _ => "x".repeat(s.idx(300)),
    }
}

pub fn id(s: &mut Src) -> Id {
    match s.weighted(&[6, 2, 2]) {
        0 => Id::F(cc(s)),
        1 => Id::Free(APPLE.into(), free_part(s)),
        _ => Id::Free(free_part(s), free_part(s)),
    }
}

/// Items with distinct identifiers, each with at least one value.
pub fn items(s: &mut Src, max: usize, big: bool) -> Items {
    let n = if s.chance(1, 200) { 8 + s.idx(40) } else { s.idx(max + 1) };
    let n = if n > 40 && s.chance(1, 8) { if s.chance(1, 6) { 1000 + s.idx(100) } else { 250 + s.idx(20) } } else { n };
    let mut raw: Items = vec![];
    for _ in 0..n {
        let i = if !raw.is_empty() && s.chance(1, 8) { near(s, &raw) } else { id(s) };
        let k = match s.weighted(&[120, 40, 20, 20, 1]) {
            4 if s.chance(1, 20) => if s.bool() { 250 + s.idx(20) } else { 30 + s.idx(230) },
            4 => 5 + s.idx(30),
            k => 1 + k,
        };
        let v = (0..k).map(|_| val(s, big)).collect();
        raw.push((i, v));
    }
    let mut m = crate::model::merge(&raw);
    if big && s.chance(1, 24) {
        // items whose length, or the length of all of them, is (almost) a multiple of a power of two
        let len: usize = m.iter().map(item_len).sum();
        let k = aligned(s);
        let d = [1, 8, 16, 36, 89][s.idx(5)] + 1 - s.idx(3);
        if let Some((_, v)) = m.last_mut() {
            v.push(Val::bytes(Ty::Reserved, fill(s.below(256), (k - (len + 16 + d) % k) % k)));
        }
    }
    m
}

/// A tag for a file that holds `base`: unrelated, or what an application makes of it by a few edits.
pub fn related(s: &mut Src, base: &Items, max: usize, big: bool) -> Items {
    if base.is_empty() || s.chance(3, 4) {
        return items(s, max, big);
    }
    let mut m = base.clone();
    for _ in 0..1 + s.idx(3) {
        if m.is_empty() {
            break;
        }
        let i = s.idx(m.len());
        let j = s.idx(m[i].1.len());
        match s.below(12) {
            0..=3 => alter(s, &mut m[i].1[j]),
            4 => {
                // the same bytes in another type
                let v = &mut m[i].1[j];
                if v.ty.is_string() {
                    let ascii = v.s.is_ascii();
                    *v = match v.ty {
                        Ty::Utf8 if s.bool() || !ascii => Val::bytes(Ty::Reserved, v.encoded()),
                        Ty::Utf16 if s.bool() => Val::text(Ty::Utf8, &v.s),
                        Ty::Utf16 => Val::bytes(Ty::Signed, v.encoded()),
                        _ => Val::bytes(Ty::Png, v.encoded()),
                    };
                } else {
                    v.ty = *s.pick(&[Ty::Reserved, Ty::Signed, Ty::Jpeg, Ty::Png, Ty::Bmp]);
                }
            }
            5 => {
                let k = s.idx(m.len());
                m.swap(i, k);
            }
            6 => {
                let k = s.idx(m[i].1.len());
                m[i].1.swap(j, k);
            }
            7 => {
                // a value of one item becomes one of another
                let v = m[i].1.remove(j);
                let k = s.idx(m.len());
                m[k].1.push(v);
            }
            8 => m[i].0 = near_id(s, &m[i].0.clone()),
            9 => {
                let v = &mut m[i].1[j];
                match (v.ty.is_string(), s.bool()) {
                    (true, true) => v.s.push('x'),
                    (true, false) => drop(v.s.pop()),
                    (false, true) => v.b.push(0),
                    (false, false) => drop(v.b.pop()),
                }
            }
            10 => {
                let v = m[i].1[j].clone();
                m[i].1.insert(j, v);
            }
            _ => drop(m[i].1.remove(j)),
        }
        m.retain(|(i, v)| !v.is_empty() && *i != Id::F(*b"free"));
        m = crate::model::merge(&m);
    }
    m
}

/// Changes a value but not its length.
fn alter(s: &mut Src, v: &mut Val) {
    if v.ty.is_string() {
        let mut c: Vec<char> = v.s.chars().collect();
        if c.is_empty() {
            return;
        }
        let p = match s.below(3) {
            0 => 0,
            1 => c.len() - 1,
            _ => s.idx(c.len()),
        };
        c[p] = match c[p] as u32 {
            x @ 0..=0x7e => char::from((x + 1) as u8),
            0x7f => '\0',
            x @ (0xd7ff | 0x10ffff | 0x7ff | 0xffff) => char::from_u32(x - 1).unwrap(),
            x => char::from_u32(x + 1).unwrap(),
        };
        v.s = c.into_iter().collect();
    } else if !v.b.is_empty() {
        let p = match s.below(3) {
            0 => 0,
            1 => v.b.len() - 1,
            _ => s.idx(v.b.len()),
        };
        v.b[p] ^= 1 << s.below(8);
    }
}

/// Length of the atom of an item.
fn item_len((i, v): &(Id, Vec<Val>)) -> usize {
    let head = match i {
        Id::F(_) => 8,
        Id::Free(m, n) => 32 + m.len() + n.len(),
    };
    let len = |v: &Val| match v.ty {
        Ty::Utf8 => v.s.len(),
        Ty::Utf16 => 2 * v.s.encode_utf16().count(),
        _ => v.b.len(),
    };
    head + v.iter().map(|v| 16 + len(v)).sum::<usize>()
}

fn aligned(s: &mut Src) -> usize {
    [512, 4096, 8192, 1 << 14, 1 << 16][s.weighted(&[8, 8, 8, 2, 1])]
}

/// Adds padding so that the length or a position the writer uses is (almost) a multiple of a power of two.
fn align(s: &mut Src, top: &mut Vec<Node>) {
    let b = encode(top);
    let Ok(p) = crate::mp4::parse(&b) else { return };
    let Some(mut n) = p.iter().find(|n| &n.cc == b"moov") else { return };
    for c in [b"udta", b"meta", b"ilst"] {
        match n.find(c) {
            Some(k) => n = k,
            None => break,
        }
    }
    let (q, front) = match s.below(4) {
        0 => (b.len() - n.end(), false),
        1 => (b.len(), false),
        2 => (n.pos, true),
        _ => (n.end(), true),
    };
    let k = aligned(s);
    let r = s.idx(3) + 2 * k - 1;
    let pad = leaf(b"free", fill(s.below(256), (r - (q + 8) % k) % k));
    top.insert(if front { 1 } else { top.len() }, pad);
}

/// An identifier close to one in use.
pub fn near(s: &mut Src, used: &Items) -> Id {
    let (i, _) = s.pick(used);
    near_id(s, &i.clone())
}

pub fn near_id(s: &mut Src, i: &Id) -> Id {
    let j = match i {
        Id::F(c) => match s.below(4) {
            0 => Id::F(*c),
            1 => {
                let mut d = *c;
                let p = s.idx(4);
                d[p] ^= 1 << s.below(8);
                Id::F(d)
            }
            2 => {
                let mut d = *c;
                let p = s.idx(4);
                d[p] = s.u8();
                Id::F(d)
            }
            _ => Id::Free(crate::mp4::show(c), crate::mp4::show(c)),
        },
        Id::Free(m, n) => match s.below(6) {
            0 => i.clone(),
            1 => Id::Free(n.clone(), m.clone()),
            2 => Id::Free(m.clone(), format!("{n}x")),
            3 => Id::Free(format!("{m}:"), n.clone()),
            4 => Id::Free(m.clone(), n.to_lowercase()),
            _ => Id::Free(m.to_uppercase(), n.clone()),
        },
    };
    if j == Id::F(*b"free") {
        Id::F(*b"frei")
    } else {
        j
    }
}

// ---------------------------------------------------------------------------------------------
// containers

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Audio {
    pub max: Option<u32>,
    pub avg: Option<u32>,
    pub freq: Option<u8>,
    pub chan: Option<u8>,
}

#[derive(Clone, Debug)]
pub struct File {
    pub top: Vec<Node>,
    pub ftyp: String,
    /// Items of the movie-level item list, merged.
    pub items: Items,
    pub has_udta: bool,
    pub has_meta: bool,
    pub has_hdlr: bool,
    pub has_ilst: bool,
    /// (duration, time scale)
    pub mvhd: Option<(u64, u32)>,
    /// Of the first track with an MPEG-4 audio sample entry.
    pub audio: Option<Audio>,
    pub chunks: usize,
    pub media_before: bool,
    pub media_after: bool,
    pub ext: bool,
}

impl File {
    pub fn bytes(&self) -> Vec<u8> {
        encode(&self.top)
    }
    pub fn label(&self, c: &mut crate::engine::Ctx) {
        c.label_if(!self.has_udta, "no user data");
        c.label_if(self.has_udta && !self.has_meta, "user data without metadata");
        c.label_if(self.has_meta && !self.has_ilst, "metadata without item list");
        c.label_if(self.has_meta && !self.has_hdlr, "metadata without handler");
        c.label_if(self.has_ilst, "item list present");
        c.label_if(!self.items.is_empty(), "has items");
        c.label_if(self.chunks > 0, "has chunk offsets");
        c.label_if(self.media_before && self.media_after, "media on both sides");
        c.label_if(self.media_before && !self.media_after, "media before movie");
        c.label_if(!self.media_before && self.media_after, "media after movie");
        c.label_if(self.ext, "64-bit headers");
        c.label_if(self.audio.is_some(), "audio track");
        c.label_if(self.mvhd.is_some(), "movie header");
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub big: bool,
    pub ext: bool,
    pub decoys: bool,
    /// Item lists laid out as other software might.
    pub foreign: bool,
    pub max_items: usize,
    pub max_trak: usize,
    pub max_mdat: usize,
    pub big_tables: bool,
}

pub const STD: Opts =
    Opts { big: true, ext: true, decoys: true, foreign: true, max_items: 5, max_trak: 3, max_mdat: 3, big_tables: false };
pub const SMALL: Opts =
    Opts { big: false, ext: true, decoys: true, foreign: true, max_items: 3, max_trak: 2, max_mdat: 2, big_tables: false };

const ANY: &[Cc] = &[*b"free", *b"skip", *b"wide", *b"uuid", *b"name", *b"\0\0\0\0", *b"zzzz", *b"cprt"];

fn decoy_names(at: &Cc) -> &'static [Cc] {
    match at {
        b"top " => const { &[*b"meta", *b"udta", *b"ilst", *b"trak", *b"mvhd", *b"stco", *b"ftyp", *b"moof", *b"hdlr", *b"data"] },
        b"moov" => const { &[*b"meta", *b"ilst", *b"mdia", *b"stbl", *b"ftyp", *b"mdat", *b"moov", *b"stco", *b"iods", *b"hdlr"] },
        b"udta" => const { &[*b"ilst", *b"hdlr", *b"udta", *b"mvhd", *b"data", *b"trak", *b"moov", *b"chpl"] },
        b"meta" => const { &[*b"meta", *b"data", *b"mean", *b"udta", *b"----", *b"mdat", *b"\xa9nam", *b"keys"] },
        b"trak" => const { &[*b"udta", *b"meta", *b"minf", *b"stbl", *b"stco", *b"trak", *b"tkhd", *b"edts", *b"mvhd"] },
        b"mdia" => const { &[*b"mdhd", *b"hdlr", *b"stbl", *b"meta", *b"mdia", *b"udta", *b"stsd"] },
        b"minf" => const { &[*b"smhd", *b"dinf", *b"stsd", *b"stco", *b"minf", *b"hdlr"] },
        b"stbl" => const { &[*b"stts", *b"stsc", *b"stsz", *b"mp4a", *b"esds", *b"stbl", *b"ctts"] },
        b"item" => const { &[*b"free", *b"skip", *b"ilst", *b"covr", *b"----", *b"zzzz", *b"locl"] },
        _ => &[],
    }
}

/// A complete-looking metadata subtree for decoys.
fn fake_meta(s: &mut Src) -> Vec<u8> {
    let it = ilst_node(s, &vec![(Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf8, "decoy")])], false);
    let m = full(b"meta", vec![0; 4], vec![it]);
    encode(&[m])
}

fn fake_table(s: &mut Src) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 0, 0, 0, 0, 1];
    v.extend(s.u32().to_be_bytes());
    v
}

/// Contents such atoms have in ordinary files.
fn usual(s: &mut Src, c: &Cc) -> Vec<u8> {
    let mut v = vec![0; 4];
    let wide = s.chance(1, 4);
    let put = |v: &mut Vec<u8>, n: u64| if wide { v.extend(n.to_be_bytes()) } else { v.extend((n as u32).to_be_bytes()) };
    match c {
        b"hdlr" => {
            v.extend(s.pick(&[*b"\0\0\0\0", *b"mhlr", *b"dhlr"]));
            v.extend(s.pick(&[*b"soun", *b"vide", *b"text", *b"sbtl", *b"hint", *b"meta", *b"mdir", *b"tmcd", *b"subt"]));
            v.extend(s.pick(&[*b"\0\0\0\0", *b"appl"]));
            v.extend([0; 8]);
            v.extend(*s.pick(&[&b"SoundHandler\0"[..], b"VideoHandler\0", b"\0", b"", b"\x0cSoundHandler"]));
        }
        b"tkhd" => {
            v[0] = wide as u8;
            // enabled, in the presentation, in its preview
            v[3] = *s.pick(&[7, 1, 0, 3, 15]);
            put(&mut v, 3_700_000_000);
            put(&mut v, 3_700_000_000);
            v.extend((*s.pick(&[1u32, 2, 3, 0])).to_be_bytes());
            v.extend([0; 4]);
            let d = s.below(1 << 20);
            put(&mut v, d);
            v.extend([0; 8]);
            v.extend([0, 0, 0, *s.pick(&[0, 1, 2]), *s.pick(&[1, 0]), 0, 0, 0]);
            for m in [0x10000u32, 0, 0, 0, 0x10000, 0, 0, 0, 0x4000_0000] {
                v.extend(m.to_be_bytes());
            }
            let size = *s.pick(&[0u32, 640 << 16]);
            v.extend(size.to_be_bytes());
            v.extend(size.to_be_bytes());
        }
        b"mdhd" => {
            v[0] = wide as u8;
            put(&mut v, 3_700_000_000);
            put(&mut v, 3_700_000_000);
            v.extend((*s.pick(&[44100u32, 48000, 1000, 90000, 0])).to_be_bytes());
            let d = s.below(1 << 20);
            put(&mut v, d);
            v.extend([0x55, 0xc4, 0, 0]);
        }
        b"edts" => {
            v[0] = wide as u8;
            v.extend(1u32.to_be_bytes());
            let d = s.below(1 << 20);
            put(&mut v, d);
            let at = *s.pick(&[0u64, 1024, u64::MAX]);
            put(&mut v, at);
            v.extend([0, 1, 0, 0]);
            return encode(&[leaf(b"elst", v)]);
        }
        b"smhd" => {
            v[3] = *s.pick(&[0, 1]);
            v.extend([0; 4]);
        }
        b"dinf" => {
            let own = s.chance(3, 4);
            let u = leaf(b"url ", if own { vec![0, 0, 0, 1] } else { b"\0\0\0\0elsewhere.mp4\0".to_vec() });
            v.extend(1u32.to_be_bytes());
            v.extend(encode(&[u]));
            return encode(&[leaf(b"dref", v)]);
        }
        b"iods" => v.extend([0x10, 0x80, 0x80, 0x80, 7, 0, 0x4f, 0xff, 0xff, 0x29, 0xff, 0xff]),
        _ => {
            let n = s.below(4) as u32;
            if c == b"stsz" {
                v.extend((*s.pick(&[0u32, 1024])).to_be_bytes());
            }
            v.extend(n.to_be_bytes());
            for _ in 0..n {
                v.extend((s.below(2000) as u32).to_be_bytes());
            }
        }
    }
    v
}

pub fn filler(s: &mut Src, at: &Cc, o: &Opts) -> Node {
    let names = decoy_names(at);
    let c = if o.decoys && !names.is_empty() && s.bool() { *s.pick(names) } else { *s.pick(ANY) };
    let body = match &c {
        b"meta" | b"udta" | b"moov" | b"trak" | b"moof" if s.bool() => {
            let m = fake_meta(s);
            if &c == b"meta" {
                m[8..].to_vec()
            } else if &c == b"udta" {
                m
            } else {
                encode(&[leaf(b"udta", m)])
            }
        }
        b"ilst" if s.bool() => fake_meta(s)[20..].to_vec(),
        b"stco" if s.bool() => fake_table(s),
        b"hdlr" | b"tkhd" | b"mdhd" | b"edts" | b"smhd" | b"dinf" | b"iods" | b"stts" | b"stsz" if s.bool() => usual(s, &c),
        _ => {
            let big = o.big && s.chance(1, 6);
            blob(s, big)
        }
    };
    leaf(&c, body)
}

fn fillers(s: &mut Src, at: &Cc, o: &Opts, out: &mut Vec<Node>) {
    let n = match s.weighted(&[200, 120, 40, 40, 1]) {
        4 if s.chance(1, 12) => 250 + s.idx(20),
        4 => 8 + s.idx(24),
        n => n,
    };
    let tiny = n > 3 && s.bool();
    for _ in 0..n {
        let mut f = filler(s, at, o);
        if tiny {
            f = leaf(&f.cc, vec![]);
        }
        out.push(f);
    }
}

/// A country (all, one, a list) and a language (all, one, a list).
fn locale(s: &mut Src) -> [u8; 4] {
    const PARTS: [u16; 10] = [0, 0x5553, 0x4445, 0x15c7, 0x55c4, 1, 255, 256, 0x7fff, 0xffff];
    if s.bool() {
        return [s.u8(), s.u8(), s.u8(), s.u8()];
    }
    let ([a, b], [c, d]) = (s.pick(&PARTS).to_be_bytes(), s.pick(&PARTS).to_be_bytes());
    [a, b, c, d]
}

fn data_node(s: &mut Src, v: &Val, foreign: bool) -> Node {
    let mut b = v.ty.code().to_be_bytes().to_vec();
    if foreign && s.chance(1, 4) {
        b.extend(locale(s));
    } else {
        b.extend([0; 4]);
    }
    b.extend(v.encoded());
    leaf(b"data", b)
}

fn str_node(s: &mut Src, c: &Cc, t: &str, foreign: bool) -> Node {
    let mut b = vec![0];
    if foreign && s.chance(1, 6) {
        b.extend([s.u8(), s.u8(), s.u8()]);
    } else {
        b.extend([0; 3]);
    }
    b.extend(t.as_bytes());
    leaf(c, b)
}

/// One item as a node.
pub fn item_node(s: &mut Src, i: &Id, vals: &[Val], foreign: bool) -> Node {
    let mut kids: Vec<Node> = vals.iter().map(|v| data_node(s, v, foreign)).collect();
    let name = match i {
        Id::F(c) => {
            if foreign && s.chance(1, 8) {
                // stray names have no meaning outside freeform items
                let only = (c == b"----").then(|| *s.pick(&[b"name", b"mean"]));
                for cc in [b"name", b"mean"] {
                    if s.chance(2, 3) && only.map_or(true, |o| o == cc) {
                        let n = str_node(s, cc, "stray", foreign);
                        let p = s.idx(kids.len() + 1);
                        kids.insert(p, n);
                    }
                }
            }
            *c
        }
        Id::Free(m, n) => {
            let mut pos = [0, 1];
            if foreign && s.chance(1, 3) {
                pos = [s.idx(kids.len() + 1), s.idx(kids.len() + 2)];
            }
            let mn = str_node(s, b"mean", m, foreign);
            kids.insert(pos[0].min(kids.len()), mn);
            let nn = str_node(s, b"name", n, foreign);
            kids.insert(pos[1].min(kids.len()), nn);
            *b"----"
        }
    };
    if foreign && s.chance(1, 6) {
        let n = 1 + s.idx(2);
        for _ in 0..n {
            let f = filler(s, b"item", &SMALL);
            if [*b"data", *b"mean", *b"name"].contains(&f.cc) {
                continue;
            }
            let p = s.idx(kids.len() + 1);
            kids.insert(p, f);
        }
    }
    cont(&name, kids)
}

/// Item list node; foreign lists may contain padding.
pub fn ilst_node(s: &mut Src, raw: &Items, foreign: bool) -> Node {
    let mut kids = vec![];
    for (i, v) in raw {
        if foreign && s.chance(1, 8) {
            kids.push(leaf(b"free", blob(s, false)));
        }
        kids.push(item_node(s, i, v, foreign));
    }
    if foreign && s.chance(1, 8) {
        kids.push(leaf(b"free", blob(s, false)));
    }
    cont(b"ilst", kids)
}

/// Items as another encoder may store them: identifiers may repeat.
pub fn raw_items(s: &mut Src, max: usize, big: bool) -> Items {
    let mut it = items(s, max, big);
    if !it.is_empty() && s.chance(1, 4) {
        let (i, _) = s.pick(&it).clone();
        let k = 1 + s.idx(2);
        let v = (0..k).map(|_| val(s, false)).collect();
        let p = s.idx(it.len() + 1);
        it.insert(p, (i, v));
    }
    if it.len() > 40 {
        // repeated identifiers among many, with many in between
        for _ in 0..1 + s.idx(6) {
            let last = it.len() - 1 - s.idx(8);
            let (i, _) = if s.bool() { it[last].clone() } else { s.pick(&it).clone() };
            let p = if s.bool() { it.len() } else { s.idx(it.len() + 1) };
            let v = val(s, false);
            it.insert(p, (i, vec![v]));
        }
    }
    it
}

// --- descriptors

pub fn desc(s: &mut Src, tag: u8, body: &[u8], vary: bool) -> Vec<u8> {
    let n = body.len();
    let min = if n < 1 << 7 { 1 } else if n < 1 << 14 { 2 } else { 3 };
    let k = if vary { min + s.idx(4 - min + 1) } else { min };
    let mut o = vec![tag];
    for i in (0..k).rev() {
        let b = (n >> (7 * i)) as u8 & 0x7f;
        o.push(if i > 0 { b | 0x80 } else { b });
    }
    o.extend(body);
    o
}

pub fn other_desc(s: &mut Src) -> Vec<u8> {
    let tag = *s.pick(&[6u8, 0x0e, 7, 0x13, 0x80, 0]);
    let n = if s.chance(1, 30) { 16384 - 3 + s.idx(6) } else { size(s, false) };
    let b = fill(s.below(256), n);
    desc(s, tag, &b, true)
}

/// Bits of an AudioSpecificConfig (ISO/IEC 14496-3), padded to whole bytes.
pub fn config_bits(profile: u64, freq: u64, explicit: u64, chan: u64, rest: u64) -> Vec<u8> {
    let mut bits: Vec<bool> = vec![];
    let mut put = |v: u64, n: u32| (0..n).rev().for_each(|i| bits.push(v >> i & 1 == 1));
    if profile < 31 {
        put(profile, 5);
    } else {
        put(31, 5);
        put(profile - 32, 6);
    }
    put(freq, 4);
    if freq == 15 {
        put(explicit, 24);
    }
    put(chan, 4);
    let mut i = 0;
    while bits.len() % 8 != 0 {
        bits.push(rest >> i & 1 == 1);
        i += 1;
    }
    bits.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect()
}

/// A decoder specific configuration with its frequency index and channel configuration.
fn config(s: &mut Src) -> (Vec<u8>, u8, u8) {
    let profile = if s.chance(1, 8) { 32 + s.below(64) } else { s.below(31) };
    let freq = s.below(16);
    let explicit = if freq == 15 { s.below(1 << 24) } else { 0 };
    let chan = s.below(16);
    let rest = s.below(256);
    (config_bits(profile, freq, explicit, chan, rest), freq as u8, chan as u8)
}

/// The fixed and optional fields of an elementary stream descriptor.
fn es_head(s: &mut Src) -> Vec<u8> {
    let mut flags = s.below(32) as u8;
    let (id, mut more) = ([s.u8(), s.u8()], vec![]);
    if s.chance(1, 4) {
        flags |= (s.below(8) as u8) << 5;
        if flags & 0x80 != 0 {
            more.extend([s.u8(), s.u8()]);
        }
        if flags & 0x40 != 0 {
            let max = if s.chance(1, 4) { 256 } else { 12 };
            let n = s.below(max);
            more.push(n as u8);
            more.extend(fill(s.below(256), n as usize));
        }
        if flags & 0x20 != 0 {
            more.extend([s.u8(), s.u8()]);
        }
    }
    [&id[..], &[flags], &more].concat()
}

/// Length of what `es_head` generates.
pub fn es_head_len(c: &[u8]) -> Option<usize> {
    let f = *c.get(2)?;
    let mut n = 3;
    if f & 0x80 != 0 {
        n += 2;
    }
    if f & 0x40 != 0 {
        n += 1 + *c.get(n)? as usize;
    }
    if f & 0x20 != 0 {
        n += 2;
    }
    (n <= c.len()).then_some(n)
}

pub fn esds(s: &mut Src, a: &mut Audio) -> Node {
    let mut dc_kids: Vec<Vec<u8>> = vec![];
    if !s.chance(1, 6) {
        let (mut b, freq, chan) = config(s);
        if s.bool() {
            let n = s.idx(40);
            b.extend(fill(s.below(256), n));
        }
        let d = desc(s, 5, &b, true);
        dc_kids.push(d);
        a.freq = Some(freq);
        a.chan = Some(chan);
    }
    while s.chance(1, 5) && dc_kids.len() < 3 {
        let d = other_desc(s);
        let p = s.idx(dc_kids.len() + 1);
        dc_kids.insert(p, d);
    }
    let mut es_kids: Vec<Vec<u8>> = vec![];
    if !s.chance(1, 8) {
        let mut b = vec![s.u8(), s.u8(), s.u8(), s.u8(), s.u8()];
        let max = s.u32();
        let avg = s.u32();
        b.extend(max.to_be_bytes());
        b.extend(avg.to_be_bytes());
        b.extend(dc_kids.concat());
        let d = desc(s, 4, &b, true);
        es_kids.push(d);
        a.max = Some(max);
        a.avg = Some(avg);
    } else {
        a.freq = None;
        a.chan = None;
    }
    while s.chance(1, 3) && es_kids.len() < 3 {
        let d = other_desc(s);
        let p = s.idx(es_kids.len() + 1);
        es_kids.insert(p, d);
    }
    let mut b = es_head(s);
    b.extend(es_kids.concat());
    let mut c = vec![0, 0, 0, 0];
    c.extend(desc(s, 3, &b, true));
    if s.chance(1, 6) {
        let n = s.idx(8);
        c.extend(fill(s.below(256), n));
    }
    leaf(b"esds", c)
}

fn mp4a(s: &mut Src, a: &mut Audio, o: &Opts) -> Node {
    let mut kids = vec![esds(s, a)];
    while s.chance(1, 4) && kids.len() < 3 {
        let f = leaf(s.pick(&[*b"btrt", *b"free", *b"sinf", *b"srat", *b"wave", *b"chan"]), blob(s, o.big));
        let p = s.idx(kids.len() + 1);
        kids.insert(p, f);
    }
    full(b"mp4a", entry(s), kids)
}

/// The fields of a sound sample entry, whose values say nothing about the audio information.
fn entry(s: &mut Src) -> Vec<u8> {
    if s.bool() {
        return fill(s.below(256), 28);
    }
    let mut v = vec![0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
    v.extend((*s.pick(&[2u16, 1, 6, 0])).to_be_bytes());
    v.extend((*s.pick(&[16u16, 8, 24])).to_be_bytes());
    v.extend([0; 4]);
    v.extend((*s.pick(&[44100u32, 48000, 0, 22050]) << 16).to_be_bytes());
    v
}

/// A duration and time scale whose quotient in nanoseconds is almost the next integer.
fn close(s: &mut Src) -> (u64, u32) {
    let ts = ((s.u32() | 0x1000_0001).min(u32::MAX - 8) / 5 * 5 + 1 + 2 * s.below(2) as u32) | 1;
    let m = ts as i128;
    let (mut r0, mut r1, mut t0, mut t1) = (m, 1_000_000_000 % m, 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1, t0, t1) = (r1, r0 - q * r1, t1, t0 - q * t1);
    }
    let k = 1 + s.below(20) as i128;
    ((-k * t0).rem_euclid(m) as u64, ts)
}

fn mvhd(s: &mut Src) -> (Node, (u64, u32)) {
    let ts = match s.weighted(&[3, 2, 2]) {
        0 => *s.pick(&[1000u32, 44100, 48000, 600, 90000]),
        1 => 1 + s.idx(100) as u32,
        _ => (s.u32()).max(1),
    };
    let tail = size(s, false);
    let tail = if s.bool() { 80 } else { tail };
    let near = s.chance(1, 12).then(|| close(s));
    let ts = near.map_or(ts, |n| n.1);
    let mut b;
    let mut d;
    if s.bool() {
        b = vec![1, s.u8(), 0, 0];
        b.extend(fill(s.below(256), 16));
        d = match s.weighted(&[3, 3, 2, 1]) {
            0 => s.below(10_000_000),
            1 => s.u32() as u64,
            2 => s.u64() >> s.below(40),
            _ => u64::MAX - 1 - s.below(1000),
        }
        .min(u64::MAX - 1);
        if let Some((n, _)) = near {
            d = n + ts as u64 * (s.u64() >> (32 + s.below(32)));
        }
        b.extend(ts.to_be_bytes());
        b.extend(d.to_be_bytes());
    } else {
        b = vec![0, s.u8(), 0, 0];
        b.extend(fill(s.below(256), 8));
        d = match s.weighted(&[3, 3, 1]) {
            0 => s.below(10_000_000),
            1 => s.u32() as u64,
            _ => u32::MAX as u64 - 1 - s.below(1000),
        }
        .min(u32::MAX as u64 - 1);
        if let Some((n, _)) = near {
            d = n.min(u32::MAX as u64 - 1);
        }
        b.extend(ts.to_be_bytes());
        b.extend((d as u32).to_be_bytes());
    }
    b.extend(fill(s.below(256), tail));
    (leaf(b"mvhd", b), (d, ts))
}

fn table(s: &mut Src, wide: bool, media: &[(u32, usize)], o: &Opts) -> Node {
    let usable: Vec<&(u32, usize)> = media.iter().filter(|m| m.1 > 0).collect();
    let n = if usable.is_empty() {
        0
    } else if o.big_tables && s.chance(1, 10) {
        match s.chance(1, 64) {
            true => (1 << 16) - 10 + s.idx(20),
            false => s.idx(3000),
        }
    } else {
        s.idx(7)
    };
    let entries = if n <= 16 {
        (0..n)
            .map(|_| {
                let m = s.pick(&usable);
                ChunkRef::At(m.0, s.idx(m.1) as u64)
            })
            .collect()
    } else {
        let mut r = crate::engine::Rng::new(1 + s.below(1 << 16));
        (0..n)
            .map(|_| {
                let m = usable[(r.next() % usable.len() as u64) as usize];
                ChunkRef::At(m.0, r.next() % m.1 as u64)
            })
            .collect()
    };
    let f = if s.chance(1, 6) { [s.u8(), s.u8(), s.u8()] } else { [0; 3] };
    Node {
        cc: if wide { *b"co64" } else { *b"stco" },
        ext: false,
        prefix: vec![],
        body: Body::Chunks { wide, version: 0, flags: f, entries, count: None },
        lie: None,
        suffix: vec![],
    }
}

fn trak(s: &mut Src, media: &[(u32, usize)], o: &Opts, audio: &mut Option<Audio>, silent: bool) -> Node {
    let depth = s.weighted(&[12, 1, 1, 1, 1]);
    let plain = o.decoys && s.bool();
    let add = |s: &mut Src, out: &mut Vec<Node>, names: &[Cc]| {
        for c in names.iter().filter(|_| plain) {
            if !s.chance(1, 6) {
                out.push(leaf(c, usual(s, c)));
            }
        }
    };
    let mut tk = vec![];
    add(s, &mut tk, &[*b"tkhd", *b"edts"]);
    fillers(s, b"trak", o, &mut tk);
    let mut this = None;
    if depth != 1 {
        let mut md = vec![];
        add(s, &mut md, &[*b"mdhd", *b"hdlr"]);
        fillers(s, b"mdia", o, &mut md);
        if depth != 2 {
            let mut mi = vec![];
            add(s, &mut mi, &[*b"smhd", *b"dinf"]);
            fillers(s, b"minf", o, &mut mi);
            if depth != 3 {
                let mut sb = vec![];
                add(s, &mut sb, &[*b"stts", *b"stsz"]);
                fillers(s, b"stbl", o, &mut sb);
                if !s.chance(1, 8) {
                    let mut en = vec![];
                    if !silent && !s.chance(1, 5) {
                        let mut a = Audio::default();
                        en.push(mp4a(s, &mut a, o));
                        this = Some(a);
                    }
                    let crowd = if s.chance(1, 300) { 10 + s.idx(280) } else { 0 };
                    for _ in 0..crowd {
                        let f = leaf(s.pick(&[*b"avc1", *b"text", *b"enca", *b"tx3g"]), vec![]);
                        en.insert(0, f);
                    }
                    while s.chance(1, 5) && en.len() < 3 {
                        let f = leaf(s.pick(&[*b"avc1", *b"text", *b"enca", *b"tx3g"]), blob(s, o.big));
                        let p = s.idx(en.len() + 1);
                        en.insert(p, f);
                    }
                    let mut p = vec![0, 0, 0, 0];
                    p.extend((en.len() as u32).to_be_bytes());
                    sb.push(full(b"stsd", p, en));
                }
                match s.weighted(&[5, 4, 1, 1]) {
                    0 => sb.push(table(s, false, media, o)),
                    1 => sb.push(table(s, true, media, o)),
                    2 => {
                        sb.push(table(s, false, media, o));
                        sb.push(table(s, true, media, o));
                    }
                    _ => {}
                }
                s.shuffle(&mut sb);
                mi.push(cont(b"stbl", sb));
                s.shuffle(&mut mi);
            }
            md.push(cont(b"minf", mi));
            s.shuffle(&mut md);
        }
        tk.push(cont(b"mdia", md));
        s.shuffle(&mut tk);
    }
    if audio.is_none() {
        *audio = this;
    }
    cont(b"trak", tk)
}

pub fn ftyp_text(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1]) {
        0 => s.pick(&["M4A \0\0\u{2}\0isomiso2", "M4A ", "M4B \0\0\0\0mp42isom", "isom\0\0\0\u{1}"]).to_string(),
        1 => text(s, false),
        _ => String::new(),
    }
}

pub fn file(s: &mut Src, o: &Opts) -> File {
    let ftyp = ftyp_text(s);
    let nm = s.idx(o.max_mdat + 1);
    let mut media: Vec<(u32, usize)> = vec![];
    let mut rest: Vec<Node> = vec![];
    for i in 0..nm {
        let n = if s.chance(1, 8) { 0 } else { 1 + size(s, o.big) };
        media.push((i as u32, n));
        let seed = s.below(256) + 256 * (i as u64 + 1);
        rest.push(Node {
            cc: *b"mdat",
            ext: false,
            prefix: vec![],
            body: Body::Media(i as u32, fill(seed, n)),
            lie: None,
            suffix: vec![],
        });
    }
    fillers(s, b"top ", o, &mut rest);

    // movie
    let mut kids = vec![];
    let mut mv = None;
    if !s.chance(1, 8) {
        let (n, m) = mvhd(s);
        kids.push(n);
        mv = Some(m);
    }
    fillers(s, b"moov", o, &mut kids);
    let level = s.weighted(&[8, 1, 2, 2]); // ilst, none, udta only, meta without ilst
    let mut has_hdlr = false;
    let mut raw = vec![];
    if level != 1 {
        let mut ud = vec![];
        fillers(s, b"udta", o, &mut ud);
        if level != 2 {
            let mut me = vec![];
            fillers(s, b"meta", o, &mut me);
            if !s.chance(1, 4) {
                has_hdlr = true;
                let mut h = vec![0; 8];
                h.extend(s.pick(&[*b"mdir", *b"mdta", *b"ID32", [0; 4]]));
                h.extend(b"appl");
                h.extend(fill(s.below(64), 9));
                let h = if s.chance(1, 10) { blob(s, false) } else { h };
                me.push(leaf(b"hdlr", h));
            }
            if level == 0 {
                raw = if o.foreign { raw_items(s, o.max_items, o.big) } else { items(s, o.max_items, o.big) };
                let il = ilst_node(s, &raw, o.foreign);
                me.push(il);
            }
            s.shuffle(&mut me);
            let fl = if s.chance(1, 10) { vec![0, s.u8(), s.u8(), s.u8()] } else { vec![0; 4] };
            ud.push(full(b"meta", fl, me));
            s.shuffle(&mut ud);
        }
        kids.push(cont(b"udta", ud));
    }
    // tracks keep their relative order when shuffled (the first with audio counts): generate after
    let nt = if s.chance(1, 100) { 8 + s.idx(12) } else { s.idx(o.max_trak + 1) };
    let nt = if nt > 16 && s.chance(1, 10) { 250 + s.idx(20) } else { nt };
    let mut audio = None;
    let at = kids.len();
    for _ in 0..nt {
        kids.push(cont(b"trak", vec![]));
    }
    let _ = at;
    s.shuffle(&mut kids);
    let mut chunks = 0;
    // the first track with audio may come late
    let mut silent = if nt > 7 && s.bool() { s.idx(nt) } else { 0 };
    for k in kids.iter_mut() {
        if &k.cc == b"trak" && matches!(&k.body, Body::Kids(v) if v.is_empty()) {
            *k = trak(s, &media, o, &mut audio, silent > 0);
            silent = silent.saturating_sub(1);
            k.walk(&mut |n| {
                if let Body::Chunks { entries, .. } = &n.body {
                    chunks += entries.len();
                }
            });
        }
    }
    rest.push(cont(b"moov", kids));
    s.shuffle(&mut rest);
    let mut top = vec![leaf(b"ftyp", ftyp.as_bytes().to_vec())];
    top.extend(rest);
    let mut ext = false;
    if o.ext && s.chance(1, 3) {
        for n in top.iter_mut() {
            ext |= toggle_ext(s, n);
        }
    }
    if o.big && s.chance(1, 24) {
        align(s, &mut top);
    }
    let mp = top.iter().position(|n| &n.cc == b"moov").unwrap();
    let side = |r: &[Node]| r.iter().any(|n| matches!(n.body, Body::Media(..)));
    let (media_before, media_after) = (side(&top[..mp]), side(&top[mp..]));
    File {
        ftyp,
        items: crate::model::merge(&raw),
        has_udta: level != 1,
        has_meta: level == 0 || level == 3,
        has_hdlr,
        has_ilst: level == 0,
        mvhd: mv,
        audio,
        chunks,
        media_before,
        media_after,
        ext,
        top,
    }
}

pub fn toggle_ext(s: &mut Src, n: &mut Node) -> bool {
    let mut any = false;
    let few = *s.pick(&[8, 8, 8, 8, 2, 1]);
    n.walk_mut(&mut |n| {
        if s.chance(1, few) {
            n.ext = !n.ext;
            any |= n.ext;
        }
    });
    any
}
