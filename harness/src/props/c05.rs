//! Foreign metadata is decoded exactly.
use crate::engine::*;
use crate::model::{self, decode_ilst, diff, flat, merge, of_tag, Id, Items, Ty, Val};
use crate::mp4::{self, cont, full, leaf, Cc, Node};
use crate::{big, gen, util};

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    fixed,
    enumerated: None,
    quick: 800_000,
    thorough: 16_000_000,
    level: "exploration",
    rule: "a random valid container whose item list is laid out as other software might: repeated identifiers, padding atoms \
           (possibly larger than their neighbours), unknown sub-atoms, any position of mean and name, locale bytes, 64-bit \
           headers, decoy item lists elsewhere; the tag that is read must equal the generated items and what an independent \
           parser finds. Non-trivial: at least one item. Distinct by container bytes.",
    assumptions: &["utf-16 values have an even number of bytes", "identifiers other than free (padding)"],
};

/// Flat items of a strictly parsed file; empty when there is no item list.
pub fn independent(b: &[u8]) -> Result<Items, String> {
    let t = mp4::parse(b)?;
    let il = t
        .iter()
        .find(|n| &n.cc == b"moov")
        .ok_or("no movie")?
        .find(b"udta")
        .and_then(|u| u.find(b"meta"))
        .and_then(|m| m.find(b"ilst").cloned());
    match il {
        Some(il) => decode_ilst(b, &il),
        None => Ok(vec![]),
    }
}

fn expect(b: &[u8], want: &[(Id, Val)]) -> Res {
    expect_tag(util::read(b), want)
}

fn expect_tag(r: mp4ameta::Result<mp4ameta::Tag>, want: &[(Id, Val)]) -> Res {
    match r {
        Err(e) => fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
        Ok(t) => match diff(want, &of_tag(&t)) {
            Some(d) => fail("differs", d),
            None => {
                // lookup by identifier sees the same values
                for (id, _) in want {
                    let vals: Vec<Val> = want.iter().filter(|x| &x.0 == id).map(|x| x.1.clone()).collect();
                    let got: Vec<Val> = t.data_of(&id.to_lib()).map(Val::of).collect();
                    if vals != got {
                        return fail("lookup-differs", format!("data_of({id:?}) gives {got:?} instead of {vals:?}"));
                    }
                }
                if t.is_empty() != want.is_empty() {
                    return fail("is-empty", format!("is_empty is {} with {} values", t.is_empty(), want.len()));
                }
                Ok(())
            }
        },
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::STD;
    o.max_items = 8;
    let f = gen::file(s, &o);
    let b = f.bytes();
    f.label(c);
    super::c01::label_items(&f.items, c);
    c.nontrivial = !f.items.is_empty();
    c.key(&b);
    c.describe(|| format!("file {} items {:?}", mp4::outlines(&f.top), f.items));
    let want = flat(&f.items);
    let ind = independent(&b).map(|i| {
        c.label_if(merge(&i).len() < i.len(), "repeated identifier");
        flat(&merge(&i))
    });
    assert_eq!(ind.as_ref(), Ok(&want), "generator and independent parser disagree");
    expect(&b, &want)?;
    if s.chance(1, 16) {
        let top = big::stretch(s, &f.top, false);
        c.label("file beyond 2 GiB");
        c.evals += 1;
        c.describe(|| format!("stretched {} items {:?}", mp4::outlines(&top), f.items));
        expect_tag(mp4ameta::Tag::read_from(&mut big::Sparse::new(&top).reader()), &want)?;
    }
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    let ft = || leaf(b"ftyp", b"M4A ".to_vec());
    let movie = |il: Vec<Node>| mp4::encode(&[ft(), cont(b"moov", vec![cont(b"udta", vec![full(b"meta", vec![0; 4], vec![cont(b"ilst", il)])])])]);
    let data = |t: &str| {
        let mut v = vec![0, 0, 0, 1, 0x12, 0x34, 0x56, 0x78];
        v.extend(t.as_bytes());
        leaf(b"data", v)
    };
    let st = |cc: &Cc, t: &str| {
        let mut v = vec![0; 4];
        v.extend(t.as_bytes());
        leaf(cc, v)
    };
    let t8 = |t: &str| Val::text(Ty::Utf8, t);
    // freeform parts in every order
    let parts = [st(b"mean", "m"), st(b"name", "n"), data("v"), leaf(b"free", vec![1; 40])];
    let mut p = [0usize, 1, 2, 3];
    for _ in 0..24 {
        let kids = p.iter().map(|i| parts[*i].clone()).collect();
        expect(&movie(vec![cont(b"----", kids)]), &[(Id::Free("m".into(), "n".into()), t8("v"))])?;
        // next permutation
        if let Some(i) = (0..3).rev().find(|i| p[*i] < p[i + 1]) {
            let j = (i + 1..4).rev().find(|j| p[*j] > p[i]).unwrap();
            p.swap(i, j);
            p[i + 1..].reverse();
        }
    }
    // merging at the position of the first
    let a = |t: &str| cont(b"\xa9nam", vec![data(t)]);
    let z = |t: &str| cont(b"zzzz", vec![data(t)]);
    let (ia, iz) = (Id::F(*b"\xa9nam"), Id::F(*b"zzzz"));
    expect(
        &movie(vec![leaf(b"free", vec![0; 100]), a("1"), z("2"), a("3"), leaf(b"free", vec![]), z("4")]),
        &[(ia.clone(), t8("1")), (ia, t8("3")), (iz.clone(), t8("2")), (iz, t8("4"))],
    )?;
    // many identifiers, all of them repeated; lookups take quadratic time
    for n in [64usize, 257, 1025, 2049] {
        c.evals += 1;
        let id = |i: usize| [b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i / 676) as u8, b'A'];
        let il = (0..2 * n).map(|i| cont(&id(i % n), vec![data(&i.to_string())])).collect();
        let want: Vec<(Id, Val)> = (0..n).flat_map(|i| [i, i + n].map(|k| (Id::F(id(i)), t8(&k.to_string())))).collect();
        match util::read(&movie(il)) {
            Err(e) => return fail("unreadable", format!("{n} identifiers twice each: {}", util::kind(&e))),
            Ok(t) => {
                if let Some(d) = diff(&want, &of_tag(&t)) {
                    return fail("differs", format!("{n} identifiers twice each: {d}"));
                }
            }
        }
    }
    // many values under one identifier
    for n in [255usize, 257, 1025, 70_000] {
        c.evals += 1;
        let il = vec![cont(b"manA", (0..n).map(|i| data(&i.to_string())).collect())];
        let want: Vec<(Id, Val)> = (0..n).map(|i| (Id::F(*b"manA"), t8(&i.to_string()))).collect();
        match util::read(&movie(il)) {
            Err(e) => return fail("unreadable", format!("{n} values: {}", util::kind(&e))),
            Ok(t) => {
                if let Some(d) = diff(&want, &of_tag(&t)) {
                    return fail("differs", format!("{n} values: {d}"));
                }
            }
        }
    }
    // every supported type code
    for ty in model::TYS {
        let v = if ty.is_string() { Val::text(ty, "é\u{10000}") } else { Val::bytes(ty, vec![0xd8, 0, 0xff]) };
        let mut d = ty.code().to_be_bytes().to_vec();
        d.extend([0; 4]);
        d.extend(v.encoded());
        expect(&movie(vec![cont(b"abcd", vec![leaf(b"data", d)])]), &[(Id::F(*b"abcd"), v)])?;
    }
    // no item list anywhere in the movie
    for m in [
        cont(b"moov", vec![]),
        cont(b"moov", vec![cont(b"udta", vec![])]),
        cont(b"moov", vec![cont(b"udta", vec![full(b"meta", vec![0; 4], vec![])])]),
        cont(b"moov", vec![cont(b"udta", vec![full(b"meta", vec![0; 4], vec![cont(b"ilst", vec![])])])]),
    ] {
        expect(&mp4::encode(&[ft(), m]), &[])?;
    }
    Ok(())
}
