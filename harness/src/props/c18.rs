//! Identifiers.
use crate::engine::*;
use crate::gen;
use crate::model::Id;
use mp4ameta::{ident, Data, DataIdent, Fourcc, FreeformIdent, Ident, Tag};

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    fixed,
    enumerated: None,
    quick: 5_000_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "two random identifiers, the second usually close to the first (one bit, swapped or extended parts, other case, the \
           text of the other kind); all comparisons between all forms are compared with equality of the model identifiers, and \
           lookup, insertion and removal in a tag holding one of them with the other. Non-trivial: the two differ in at most a \
           little, or are equal. Distinct by the pair.",
    assumptions: &[],
};

macro_rules! borrowed {
    ($id:expr, $i:ident => $e:expr) => {
        match $id {
            Id::F(c) => {
                let $i = Fourcc(*c);
                $e
            }
            Id::Free(m, n) => {
                let $i = FreeformIdent::new(m, n);
                $e
            }
        }
    };
}

fn display(i: &Id) -> String {
    match i {
        Id::F(c) => c.iter().map(|b| *b as char).collect(),
        Id::Free(m, n) => format!("----:{m}:{n}"),
    }
}

fn pair(a: &Id, b: &Id) -> Res {
    let want = a == b;
    let (oa, ob) = (a.to_lib(), b.to_lib());
    let bad = |n: &str, got: bool| fail("compare", format!("{n} of {a:?} and {b:?} is {got}"));
    let all = [
        ("owned == owned", oa == ob),
        ("owned match owned", mp4ameta::ident::idents_match(&oa, &ob)),
        ("borrowed == owned", borrowed!(a, i => i == ob)),
        ("not borrowed != owned", !borrowed!(a, i => i != ob)),
        ("borrowed match owned", borrowed!(a, i => ident::idents_match(&i, &ob))),
        ("owned match borrowed", borrowed!(a, i => ident::idents_match(&ob, &i))),
        ("borrowed match borrowed", borrowed!(a, i => borrowed!(b, j => ident::idents_match(&i, &j)))),
        ("converted", borrowed!(a, i => DataIdent::from(i) == ob)),
        ("parts", oa.fourcc() == ob.fourcc() && oa.freeform() == ob.freeform()),
    ];
    for (n, g) in all {
        if g != want {
            return bad(n, g);
        }
    }
    if let (Id::F(x), Id::F(y)) = (a, b) {
        if (Fourcc(*x) == Fourcc(*y)) != want {
            return bad("fourcc == fourcc", !want);
        }
    }
    if let (Id::Free(m, n), Id::Free(o, p)) = (a, b) {
        if (FreeformIdent::new(m, n) == FreeformIdent::new(o, p)) != want {
            return bad("freeform == freeform", !want);
        }
    }
    Ok(())
}

fn forms(a: &Id) -> Res {
    let o = a.to_lib();
    let e = |w: &str, g: String| fail("form", format!("{w} of {a:?} is {g}"));
    match a {
        Id::F(c) => {
            let f = Fourcc(*c);
            if DataIdent::fourcc(*c) != o || DataIdent::from(f) != o || f.fourcc() != Some(f) || f.freeform().is_some() {
                return e("fourcc", format!("{o:?}"));
            }
            if o.fourcc() != Some(f) || o.freeform().is_some() || *f != *c {
                return e("owned fourcc", format!("{o:?}"));
            }
            if f.to_string() != display(a) {
                return e("display", f.to_string());
            }
        }
        Id::Free(m, n) => {
            let f = FreeformIdent::new(m, n);
            if DataIdent::freeform(m.clone(), n.as_str()) != o || DataIdent::from(&f) != o || DataIdent::from(f.clone()) != o {
                return e("freeform", format!("{o:?}"));
            }
            if f.fourcc().is_some() || f.freeform().as_ref() != Some(&f) || o.fourcc().is_some() || o.freeform() != Some(f.clone()) {
                return e("parts", format!("{:?} {:?}", o.fourcc(), o.freeform()));
            }
            if f.mean != m || f.name != n {
                return e("mean and name", format!("{f:?}"));
            }
            if f.to_string() != display(a) {
                return e("display", f.to_string());
            }
        }
    }
    if o.to_string() != display(a) {
        return e("display", o.to_string());
    }
    Ok(())
}

fn lookup(a: &Id, b: &Id) -> Res {
    let want = a == b;
    let mut t = Tag::default();
    borrowed!(a, i => t.add_data(i, Data::Utf8("x".into())));
    let found = [borrowed!(b, i => t.data_of(&i).count()), t.data_of(&b.to_lib()).count(), borrowed!(b, i => t.strings_mut_of(&i).count())];
    if found.iter().any(|n| *n != want as usize) {
        return fail("lookup", format!("looking up {b:?} in a tag with {a:?} finds {found:?} values"));
    }
    let mut u = t.clone();
    borrowed!(b, i => u.add_data(i, Data::Utf8("y".into())));
    if u.data_of(&a.to_lib()).count() != 1 + want as usize || u.data().count() != 2 {
        return fail("insert", format!("adding to {b:?} in a tag with {a:?} leaves {} values of the latter", u.data_of(&a.to_lib()).count()));
    }
    let mut u = t.clone();
    u.set_data(b.to_lib(), Data::Utf8("y".into()));
    if u.data().count() != 2 - want as usize {
        return fail("insert", format!("setting {b:?} in a tag with {a:?} leaves {} values", u.data().count()));
    }
    let mut u = t.clone();
    borrowed!(b, i => u.remove_data_of(&i));
    let mut w = t.clone();
    let n = borrowed!(b, i => w.take_data_of(&i).count());
    let mut x = t.clone();
    x.retain_data_of(&b.to_lib(), |_| false);
    if u.is_empty() != want || w.is_empty() != want || x.is_empty() != want || n != want as usize {
        return fail("remove", format!("removing {b:?} from a tag with {a:?}: empty {}, after take {} ({n})", u.is_empty(), w.is_empty()));
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let a = gen::id(s);
    let near = s.chance(7, 8);
    let b = if near { gen::near_id(s, &a) } else { gen::id(s) };
    // the text of one kind as the other
    let b = match (&a, s.chance(1, 8)) {
        (Id::Free(m, n), true) if !m.is_empty() => {
            let t = format!("{m}:{n}");
            let k = t.char_indices().nth(s.idx(t.chars().count())).map_or(0, |x| x.0);
            Id::Free(t[..k].trim_end_matches(':').into(), t[k..].trim_start_matches(':').into())
        }
        (Id::F(x), true) => Id::Free("".into(), display(&Id::F(*x))),
        _ => b,
    };
    c.nontrivial = near || a == b;
    c.label_if(a == b, "equal");
    c.label_if(a != b && display(&a) == display(&b), "different with the same text");
    c.label_if(matches!((&a, &b), (Id::F(_), Id::Free(..)) | (Id::Free(..), Id::F(_))), "different kinds");
    c.key(&(&a, &b));
    c.describe(|| format!("{a:?} and {b:?}"));
    forms(&a)?;
    forms(&b)?;
    pair(&a, &b)?;
    pair(&b, &a)?;
    lookup(&a, &b)
}

/// The atom each named constant documents.
fn named() -> Res {
    use mp4ameta::ident;
    let table: [(Fourcc, &[u8; 4]); 39] = [
            (ident::FREEFORM, b"----"),
            (ident::ADVISORY_RATING, b"rtng"),
            (ident::ALBUM, b"\xa9alb"),
            (ident::ALBUM_ARTIST, b"aART"),
            (ident::ARTIST, b"\xa9ART"),
            (ident::ARTWORK, b"covr"),
            (ident::BPM, b"tmpo"),
            (ident::COMMENT, b"\xa9cmt"),
            (ident::COMPILATION, b"cpil"),
            (ident::COMPOSER, b"\xa9wrt"),
            (ident::COPYRIGHT, b"cprt"),
            (ident::CUSTOM_GENRE, b"\xa9gen"),
            (ident::DISC_NUMBER, b"disk"),
            (ident::ENCODER, b"\xa9too"),
            (ident::STANDARD_GENRE, b"gnre"),
            (ident::TITLE, b"\xa9nam"),
            (ident::TRACK_NUMBER, b"trkn"),
            (ident::YEAR, b"\xa9day"),
            (ident::GROUPING, b"\xa9grp"),
            (ident::MEDIA_TYPE, b"stik"),
            (ident::CATEGORY, b"catg"),
            (ident::KEYWORD, b"keyw"),
            (ident::PODCAST, b"pcst"),
            (ident::PODCAST_EPISODE_GLOBAL_UNIQUE_ID, b"egid"),
            (ident::PODCAST_URL, b"purl"),
            (ident::DESCRIPTION, b"desc"),
            (ident::LYRICS, b"\xa9lyr"),
            (ident::TV_EPISODE, b"tves"),
            (ident::TV_EPISODE_NAME, b"tven"),
            (ident::TV_NETWORK_NAME, b"tvnn"),
            (ident::TV_SEASON, b"tvsn"),
            (ident::TV_SHOW_NAME, b"tvsh"),
            (ident::PURCHASE_DATE, b"purd"),
            (ident::GAPLESS_PLAYBACK, b"pgap"),
            (ident::MOVEMENT, b"\xa9mvn"),
            (ident::MOVEMENT_COUNT, b"\xa9mvc"),
            (ident::MOVEMENT_INDEX, b"\xa9mvi"),
            (ident::WORK, b"\xa9wrk"),
            (ident::SHOW_MOVEMENT, b"shwm"),
    ];
    for (f, want) in &table {
        if f.0 != **want {
            return fail("constant", format!("the constant of {:?} is {:?}", crate::util::hex(*want), crate::util::hex(&f.0)));
        }
    }
    for (f, name) in [(ident::ISRC, "ISRC"), (ident::LYRICIST, "LYRICIST")] {
        if f.mean != crate::gen::APPLE || f.name != name {
            return fail("constant", format!("the constant of {name} is {f}"));
        }
    }
    if ident::APPLE_ITUNES_MEAN != crate::gen::APPLE {
        return fail("constant", format!("the mean of iTunes atoms is {:?}", ident::APPLE_ITUNES_MEAN));
    }
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    named()?;
    let parts = ["", "a", "A", "a:b", "b", ":", "----", "é", "e\u{301}", "a\0", crate::gen::APPLE];
    let mut ids: Vec<Id> = vec![];
    for m in parts {
        for n in parts {
            ids.push(Id::Free(m.into(), n.into()));
        }
    }
    for k in [*b"----", *b"a:b\0", *b"test", *b"Test", *b"tes\0", [0; 4], [255; 4], *b"\xa9nam", *b"\x29nam", *b"mant"] {
        ids.push(Id::F(k));
    }
    for a in &ids {
        forms(a)?;
        for b in &ids {
            pair(a, b)?;
            lookup(a, b)?;
            c.evals += 1;
        }
    }
    // single bit differences at every position
    for p in 0..32 {
        let mut k = *b"\xa9nam";
        k[p / 8] ^= 1 << (p % 8);
        pair(&Id::F(*b"\xa9nam"), &Id::F(k))?;
        lookup(&Id::F(*b"\xa9nam"), &Id::F(k))?;
    }
    Ok(())
}
