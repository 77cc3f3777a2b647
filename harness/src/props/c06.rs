//! Audio information and file type.
use super::{c11, c12, c14};
use crate::engine::*;
use crate::gen::{self, Audio};
use crate::model;
use crate::tagmodel::Model;
use crate::mp4::{self, cont, leaf};
use crate::{big, util};
use mp4ameta::{AudioInfo, ChannelConfig as C, SampleRate as S};
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    fixed,
    enumerated: Some((4096, each_config)),
    quick: 700_000,
    thorough: 14_000_000,
    level: "exploration",
    rule: "a random valid container with any number of tracks and sample entries, both movie header versions, any time scale and \
           duration, any bitrates, indices and descriptor layout; the reported values are compared with the generated ones, and \
           again after each of up to five random operations on the tag that was read and after it, or a random tag, was written. Enumerated: all 16 x 16 frequency and channel indices with all flags of the stream descriptor and with plain and escaped object types. Non-trivial: a movie \
           header or an audio sample entry is present. Distinct by container bytes.",
    assumptions: &[
        "one mp4a entry per sample description",
        "movie duration not the all-ones 'unknown' value, time scale not 0",
    ],
};

/// ISO/IEC 14496-3 samplingFrequencyIndex.
pub const RATES: [(S, u32); 13] = [
    (S::Hz96000, 96000),
    (S::Hz88200, 88200),
    (S::Hz64000, 64000),
    (S::Hz48000, 48000),
    (S::Hz44100, 44100),
    (S::Hz32000, 32000),
    (S::Hz24000, 24000),
    (S::Hz22050, 22050),
    (S::Hz16000, 16000),
    (S::Hz12000, 12000),
    (S::Hz11025, 11025),
    (S::Hz8000, 8000),
    (S::Hz7350, 7350),
];
/// ISO/IEC 14496-3 channelConfiguration from 1, with the number of channels.
pub const CHANNELS: [(C, u8); 7] =
    [(C::Mono, 1), (C::Stereo, 2), (C::Three, 3), (C::Four, 4), (C::Five, 5), (C::FiveOne, 6), (C::SevenOne, 8)];

pub fn duration(d: u64, t: u32) -> Duration {
    let n = d as u128 * 1_000_000_000 / t as u128;
    Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}

pub fn expected(mvhd: Option<(u64, u32)>, a: &Option<Audio>) -> AudioInfo {
    let mut i = AudioInfo { duration: mvhd.map(|(d, t)| duration(d, t)), ..AudioInfo::default() };
    if let Some(a) = a {
        i.max_bitrate = a.max;
        i.avg_bitrate = a.avg;
        i.sample_rate = a.freq.and_then(|f| RATES.get(f as usize)).map(|x| x.0);
        i.channel_config = a.chan.and_then(|c| CHANNELS.get((c as usize).wrapping_sub(1))).map(|x| x.0);
    }
    i
}

pub fn expect(b: &[u8], want: &AudioInfo, ftyp: &str, when: &str) -> Res {
    expect_tag(util::read(b), want, ftyp, when)
}

fn expect_tag(r: mp4ameta::Result<mp4ameta::Tag>, want: &AudioInfo, ftyp: &str, when: &str) -> Res {
    let t = match r {
        Err(e) => return fail("unreadable", format!("{when}: a valid file cannot be read: {}", util::kind(&e))),
        Ok(t) => t,
    };
    if t.audio_info() != want {
        return fail("info-differs", format!("{when}: expected {want:?}, got {:?}", t.audio_info()));
    }
    let got = (t.duration(), t.channel_config(), t.sample_rate(), t.avg_bitrate(), t.max_bitrate());
    let w = (want.duration, want.channel_config, want.sample_rate, want.avg_bitrate, want.max_bitrate);
    if got != w {
        return fail("accessor-differs", format!("{when}: expected {w:?}, got {got:?}"));
    }
    if t.filetype() != ftyp {
        return fail("filetype-differs", format!("{when}: file type {:?} instead of {ftyp:?}", t.filetype()));
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::STD;
    o.max_items = 2;
    o.max_trak = 5;
    let f = gen::file(s, &o);
    let items = gen::items(s, 3, false);
    let b = f.bytes();
    f.label(c);
    let want = expected(f.mvhd, &f.audio);
    c.label_if(want.sample_rate.is_some(), "known sample rate");
    c.label_if(want.channel_config.is_some(), "known channel configuration");
    c.label_if(f.audio.is_some() && want.sample_rate.is_none(), "unknown sample rate");
    c.label_if(f.audio.is_some() && want.channel_config.is_none(), "unknown channel configuration");
    c.label_if(f.mvhd.map_or(false, |m| m.0 > u32::MAX as u64), "duration above 32 bits");
    c.nontrivial = f.audio.is_some() || f.mvhd.is_some();
    c.key(&b);
    c.describe(|| format!("file {} mvhd {:?} audio {:?} ftyp {:?}", mp4::outlines(&f.top), f.mvhd, f.audio, f.ftyp));
    expect(&b, &want, &f.ftyp, "as generated")?;
    let mut tag = model::to_tag(&items);
    if let (true, Ok(mut t)) = (s.chance(1, 2), util::read(&b)) {
        // editing the tag that was read
        let mut m = Model::of(&t);
        let ids: Vec<model::Id> = m.0.iter().take(2).map(|x| x.0.clone()).chain([gen::id(s)]).collect();
        for _ in 0..s.idx(6) {
            let d = match s.below(3) {
                0 => {
                    let o = c11::op(s, &ids, &[]);
                    let _ = c11::apply(&mut t, &mut m, &o, true);
                    format!("{o:?}")
                }
                1 => {
                    let a = c12::Acc::any(s);
                    c12::call(s, a, &mut t, &mut m).unwrap_or_default()
                }
                _ => c14::call(s, &mut t, &mut m).unwrap_or_default(),
            };
            c.describe(|| d.clone());
            expect_tag(Ok(t.clone()), &want, &f.ftyp, &format!("after {d}"))?;
        }
        c.label("edited");
        tag = t;
    }
    let (r, after) = util::write(&tag, &b);
    if let Err(e) = r {
        return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
    }
    expect(&after, &want, &f.ftyp, "after writing a tag")?;
    if s.chance(1, 16) {
        let top = big::stretch(s, &f.top, false);
        c.label("file beyond 2 GiB");
        c.evals += 1;
        c.describe(|| format!("stretched {}", mp4::outlines(&top)));
        expect_tag(mp4ameta::Tag::read_from(&mut big::Sparse::new(&top).reader()), &want, &f.ftyp, "stretched")?;
    }
    Ok(())
}

fn one_track(freq: u8, chan: u8, max: u32, avg: u32, long: bool, profile: u8, flags: u8) -> mp4::Node {
    config_track(&gen::config_bits(profile as u64, freq as u64, 0x5555_55, chan as u64, 0), max, avg, long, flags)
}

/// A decoder configuration cut short never yields a value it doesn't hold.
fn cut(profile: u8, freq: u8, chan: u8, n: usize) -> Res {
    let whole = gen::config_bits(profile as u64, freq as u64, 0xff_ffff, chan as u64, 0);
    let head = if profile >= 31 { 11 } else { 5 } + 4;
    let full = head + if freq == 15 { 24 } else { 0 } + 4;
    let n = n.min(whole.len());
    let b = mp4::encode(&[leaf(b"ftyp", b"M4A ".to_vec()), cont(b"moov", vec![config_track(&whole[..n], 1, 2, false, 0)])]);
    let want = expected(None, &Some(Audio { max: Some(1), avg: Some(2), freq: Some(freq), chan: Some(chan) }));
    let Ok(t) = util::read(&b) else { return Ok(()) };
    let i = t.audio_info();
    let rate = if n * 8 >= head { want.sample_rate } else { None };
    let ch = if n * 8 >= full { want.channel_config } else { None };
    if i.sample_rate.is_some() && i.sample_rate != rate || i.channel_config.is_some() && i.channel_config != ch {
        return fail("made-up", format!("{n} bytes of the decoder configuration {} give {i:?}", util::hex(&whole)));
    }
    Ok(())
}

fn config_track(ds: &[u8], max: u32, avg: u32, long: bool, flags: u8) -> mp4::Node {
    let mut z = Src::replay(&[]);
    let d = |z: &mut Src, t: u8, b: &[u8]| {
        let mut v = gen::desc(z, t, b, false);
        if long {
            // the four byte length form
            v.splice(1..2, [0x80, 0x80, 0x80, b.len() as u8]);
        }
        v
    };
    let mut dc = vec![0x40, 0x15, 0, 0, 0];
    dc.extend(max.to_be_bytes());
    dc.extend(avg.to_be_bytes());
    dc.extend(d(&mut z, 5, ds));
    let mut es = vec![0, 1, flags];
    if flags & 0x80 != 0 {
        es.extend([4, 2]);
    }
    if flags & 0x40 != 0 {
        es.extend([5, 4, 0, 4, 0, 4]);
    }
    if flags & 0x20 != 0 {
        es.extend([4, 0]);
    }
    es.extend(d(&mut z, 4, &dc));
    es.extend(d(&mut z, 6, &[2]));
    let mut c = vec![0; 4];
    c.extend(d(&mut z, 3, &es));
    let mp4a = mp4::full(b"mp4a", vec![0; 28], vec![leaf(b"esds", c)]);
    let stsd = mp4::full(b"stsd", vec![0, 0, 0, 0, 0, 0, 0, 1], vec![mp4a]);
    cont(b"trak", vec![cont(b"mdia", vec![cont(b"minf", vec![cont(b"stbl", vec![stsd])])])])
}

fn each_config(k: u64, c: &mut Ctx) -> Res {
    let (freq, chan) = (k as u8 >> 4, k as u8 & 15);
    let flags = (k >> 8 & 7) as u8 * 32 + (k % 32) as u8;
    let profile = if k >> 11 == 1 { 32 + (k % 64) as u8 } else { (k % 31) as u8 };
    c.nontrivial = true;
    for long in [false, true] {
        for (max, avg) in [(0, 0), (u32::MAX, 1), (128_000, 256_000)] {
            let b = mp4::encode(&[leaf(b"ftyp", b"M4A ".to_vec()), cont(b"moov", vec![one_track(freq, chan, max, avg, long, profile, flags)])]);
            let a = Audio { max: Some(max), avg: Some(avg), freq: Some(freq), chan: Some(chan) };
            expect(&b, &expected(None, &Some(a)), "M4A ", "enumerated")?;
        }
    }
    Ok(())
}

fn fixed(_: &mut Ctx) -> Res {
    let mv = |v: u8, d: u64, t: u32| {
        let mut b = vec![v, 0, 0, 0];
        b.extend(vec![0; if v == 1 { 16 } else { 8 }]);
        b.extend(t.to_be_bytes());
        if v == 1 {
            b.extend(d.to_be_bytes());
        } else {
            b.extend((d as u32).to_be_bytes());
        }
        b.extend([0; 80]);
        leaf(b"mvhd", b)
    };
    for t in [1u32, 2, 3, 600, 1000, 44100, 90000, 1_000_000_000, 0x7fff_ffff, u32::MAX] {
        for d in [0u64, 1, 2, 59, 999, 44099, 44100, 1 << 31, 0xffff_fffe, 18_446_744_073, 18_446_744_074, 1 << 35, 1 << 44, 1 << 63, u64::MAX - 1] {
            for v in [0, 1] {
                if v == 0 && d > 0xffff_fffe {
                    continue;
                }
                let b = mp4::encode(&[leaf(b"ftyp", b"M4A ".to_vec()), cont(b"moov", vec![mv(v, d, t)])]);
                expect(&b, &expected(Some((d, t)), &None), "M4A ", &format!("mvhd version {v} duration {d} time scale {t}"))?;
            }
        }
    }
    for profile in [0, 2, 30, 32, 40, 95] {
        for k in 0..256u32 {
            for n in 0..7 {
                cut(profile, (k >> 4) as u8, k as u8 & 15, n)?;
            }
        }
    }
    // the first track with an audio entry counts
    let b = mp4::encode(&[
        leaf(b"ftyp", b"x".to_vec()),
        cont(b"moov", vec![cont(b"trak", vec![]), one_track(4, 2, 1, 2, false, 2, 0), one_track(3, 1, 3, 4, false, 2, 0)]),
    ]);
    expect(&b, &expected(None, &Some(Audio { max: Some(1), avg: Some(2), freq: Some(4), chan: Some(2) })), "x", "two audio tracks")
}
