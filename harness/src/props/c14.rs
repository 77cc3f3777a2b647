//! Standard and custom genres.
use crate::engine::*;
use crate::gen;
use crate::model::{Id, Ty, Val};
use crate::tagmodel::*;
use crate::util;
use mp4ameta::{Tag, STANDARD_GENRES};

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    fixed,
    enumerated: Some((65536, one_code)),
    quick: 2_500_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a tag with arbitrary standard genre codes (valid, 0, 81, huge, too short, of other types), custom genres and unrelated \
           atoms, and up to eight genre calls mirrored on the reference model. All 65536 codes are enumerated in addition. \
           Non-trivial: a call changed the tag and both kinds of genre occurred. Distinct by (start, calls).",
    assumptions: &["spelling of the 80 names is compared without regard to case, punctuation and the listed aliases"],
};

pub const GNRE: Id = Id::F(*b"gnre");
const GEN: Id = Id::F(*b"\xa9gen");

/// ID3v1 genres in order.
const ID3: [&str; 80] = [
    "Blues", "Classic Rock", "Country", "Dance", "Disco", "Funk", "Grunge", "Hip-Hop", "Jazz", "Metal", "New Age", "Oldies",
    "Other", "Pop", "R&B", "Rap", "Reggae", "Rock", "Techno", "Industrial", "Alternative", "Ska", "Death Metal", "Pranks",
    "Soundtrack", "Euro-Techno", "Ambient", "Trip-Hop", "Vocal", "Jazz+Funk", "Fusion", "Trance", "Classical", "Instrumental",
    "Acid", "House", "Game", "Sound Clip", "Gospel", "Noise", "AlternRock", "Bass", "Soul", "Punk", "Space", "Meditative",
    "Instrumental Pop", "Instrumental Rock", "Ethnic", "Gothic", "Darkwave", "Techno-Industrial", "Electronic", "Pop-Folk",
    "Eurodance", "Dream", "Southern Rock", "Comedy", "Cult", "Gangsta", "Top 40", "Christian Rap", "Pop/Funk", "Jungle",
    "Native American", "Cabaret", "New Wave", "Psychedelic", "Rave", "Showtunes", "Trailer", "Lo-Fi", "Tribal", "Acid Punk",
    "Acid Jazz", "Polka", "Retro", "Musical", "Rock & Roll", "Hard Rock",
];
/// Names the library spells in its own way.
const ALIAS: [(usize, &[&str]); 6] = [
    (14, &["rhythmandblues"]),
    (29, &["jazzandfunk"]),
    (40, &["alternativerock"]),
    (58, &["cult"]),
    (64, &["nativeus"]),
    (78, &["rockn", "rocknroll"]),
];

fn norm(s: &str) -> String {
    s.replace('&', "and").chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_lowercase()
}

fn is_genre(i: usize, name: &str) -> bool {
    let n = norm(name);
    let w = norm(ID3[i]);
    if name.contains(',') {
        return false;
    }
    n == w || n.replace("and", "") == w.replace("and", "") || ALIAS.iter().any(|a| a.0 == i && a.1.contains(&n.as_str()))
}

pub fn codes(m: &Model) -> Vec<u16> {
    m.bytes(&GNRE).iter().filter_map(|b| b.get(..2).map(|x| u16::from_be_bytes([x[0], x[1]]))).collect()
}

/// What the combined getter shows: valid standard names, then custom ones.
pub fn names(m: &Model) -> Vec<String> {
    let mut v: Vec<String> = codes(m)
        .into_iter()
        .filter(|c| (1..=80).contains(c))
        .map(|c| STANDARD_GENRES[c as usize - 1].to_string())
        .collect();
    v.extend(m.strings(&GEN));
    v
}

fn getters(t: &Tag, m: &Model, after: &str) -> Res {
    let want = names(m);
    let got: Vec<String> = t.genres().map(String::from).collect();
    if got != want {
        return fail("genres", format!("after {after}: genres are {got:?}, expected {want:?}"));
    }
    let one = t.genre().map(String::from);
    if one.as_ref() != want.first() {
        return fail("genre", format!("after {after}: genre is {one:?}, the first of {want:?} expected"));
    }
    let want = codes(m);
    let got: Vec<u16> = t.standard_genres().collect();
    if got != want || t.standard_genre() != want.first().copied() {
        return fail("codes", format!("after {after}: codes are {got:?}, first {:?}, expected {want:?}", t.standard_genre()));
    }
    Ok(())
}

pub fn code(s: &mut Src) -> u16 {
    match s.weighted(&[5, 3, 1]) {
        0 => 1 + s.below(80) as u16,
        1 => *s.pick(&[0u16, 1, 80, 81, 79, 255, 256, 257, 0x0100, 0x5000, 0xffff]),
        _ => s.u16(),
    }
}

fn std_val(c: u16) -> Val {
    Val::bytes(Ty::Reserved, c.to_be_bytes().to_vec())
}
fn custom(v: &[String]) -> Vec<Val> {
    v.iter().map(|x| Val::text(Ty::Utf8, x)).collect()
}

pub fn call(s: &mut Src, t: &mut Tag, m: &mut Model) -> Result<String, Fail> {
    let some = |s: &mut Src| -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for _ in 0..gen::count(s) {
            let t = if !v.is_empty() && s.chance(1, 6) { s.pick(&v).clone() } else { gen::text(s, false) };
            v.push(t);
        }
        v
    };
    let some_codes = |s: &mut Src| -> Vec<u16> {
        let n = gen::count(s);
        (0..n).map(|_| code(s)).collect()
    };
    Ok(match s.below(11) {
        0 => {
            let v = gen::text(s, false);
            t.set_genre(v.clone());
            m.set(&GEN, custom(&[v.clone()]));
            m.take(&GNRE);
            format!("set_genre {v:?}")
        }
        1 => {
            let v = some(s);
            t.set_genres(v.clone());
            m.set(&GEN, custom(&v));
            m.take(&GNRE);
            format!("set_genres {v:?}")
        }
        2 => {
            let v = gen::text(s, false);
            t.add_genre(v.clone());
            m.add(&GEN, custom(&[v.clone()]));
            format!("add_genre {v:?}")
        }
        3 => {
            t.remove_genres();
            m.take(&GEN);
            m.take(&GNRE);
            "remove_genres".into()
        }
        4 => {
            let want = names(m);
            let got: Vec<String> = t.take_genres().collect();
            if got != want {
                return fail("taken", format!("take_genres returned {got:?}, expected {want:?}"));
            }
            m.take(&GEN);
            "take_genres".into()
        }
        5 => {
            let want = names(m).into_iter().next();
            let got = t.take_genre();
            if got != want {
                return fail("taken", format!("take_genre returned {got:?}, expected {want:?}"));
            }
            m.take(&GEN);
            "take_genre".into()
        }
        6 => {
            let v = code(s);
            t.set_standard_genre(v);
            m.set(&GNRE, vec![std_val(v)]);
            format!("set_standard_genre {v}")
        }
        7 => {
            let v = some_codes(s);
            t.set_standard_genres(v.clone());
            m.set(&GNRE, v.iter().map(|c| std_val(*c)).collect());
            format!("set_standard_genres {v:?}")
        }
        8 => {
            let v = code(s);
            t.add_standard_genre(v);
            m.add(&GNRE, vec![std_val(v)]);
            format!("add_standard_genre {v}")
        }
        9 => {
            let v = some_codes(s);
            t.add_standard_genres(v.clone());
            m.add(&GNRE, v.iter().map(|c| std_val(*c)).collect());
            format!("add_standard_genres {v:?}")
        }
        _ => {
            t.remove_standard_genres();
            m.take(&GNRE);
            "remove_standard_genres".into()
        }
    })
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut ids = vec![GNRE, GEN];
    ids.push(gen::id(s));
    let (mut t, mut m) = start(s, &ids, 3);
    for _ in 0..s.idx(4) {
        let b = match s.below(4) {
            0 => (0..s.idx(2)).map(|_| s.u8()).collect(),
            1 => [code(s).to_be_bytes().to_vec(), vec![s.u8()], super::c12::odd(s, 4)].concat(),
            _ => code(s).to_be_bytes().to_vec(),
        };
        let v = Val::bytes(if s.chance(3, 4) { Ty::Reserved } else { Ty::Signed }, b);
        m.add(&GNRE, vec![v.clone()]);
        crate::model::add_to_tag(&mut t, &vec![(GNRE, vec![v])]);
    }
    let m0 = m.clone();
    getters(&t, &m, "the start")?;
    let mut both = !m.get(&GNRE).is_empty() && !m.get(&GEN).is_empty();
    let mut hist = vec![];
    let mut changed = false;
    let n = 1 + s.idx(8);
    for _ in 0..n {
        let was = m.clone();
        let d = call(s, &mut t, &mut m)?;
        c.describe(|| d.clone());
        c.label_if(codes(&m).first().map_or(false, |c| !(1..=80).contains(c)), "first code unknown");
        m.check_eq(&t, &|| d.clone())?;
        getters(&t, &m, &d)?;
        changed |= was != m;
        both |= !m.get(&GNRE).is_empty() && !m.get(&GEN).is_empty();
        hist.push(d);
    }
    if s.chance(1, 8) {
        match util::dump(&t).and_then(|b| util::read(&b)) {
            Ok(r) => getters(&r, &m, "dump and read")?,
            Err(e) => return fail("unreadable", format!("the tag cannot be dumped and read: {}", util::kind(&e))),
        }
    }
    c.evals = n as u64;
    c.nontrivial = changed && both;
    c.key(&(&m0.0, &hist));
    c.describe(|| format!("start {:?}", m0.0));
    Ok(())
}

fn one_code(i: u64, _: &mut Ctx) -> Res {
    let code = i as u16;
    let mut t = Tag::default();
    t.set_standard_genre(code);
    if t.standard_genre() != Some(code) {
        return fail("codes", format!("code {code} reads as {:?}", t.standard_genre()));
    }
    let g: Vec<String> = t.genres().map(String::from).collect();
    match (code, g.as_slice()) {
        (1..=80, [n]) if is_genre(code as usize - 1, n) => Ok(()),
        (1..=80, _) => fail("name", format!("code {code} ({}) shows as {g:?}", ID3[code as usize - 1])),
        (_, []) => Ok(()),
        _ => fail("name", format!("the unknown code {code} shows as {g:?}")),
    }
}

fn fixed(_: &mut Ctx) -> Res {
    // an unknown code in front of a known one
    for front in [0u16, 81, 0xffff] {
        let mut t = Tag::default();
        t.add_standard_genre(front);
        t.add_standard_genre(18);
        t.add_custom_genre("custom");
        let m = Model::of(&t);
        getters(&t, &m, "codes")?;
        let want = names(&m).into_iter().next();
        let mut u = t.clone();
        let got = u.take_genre();
        if got != want {
            return fail("taken", format!("take_genre returned {got:?}, expected {want:?}"));
        }
        if u.custom_genre().is_some() || u.standard_genres().count() != 2 {
            return fail("left", "take_genre has to remove the custom genres and nothing else");
        }
    }
    Ok(())
}
