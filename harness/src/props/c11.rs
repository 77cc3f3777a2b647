//! The tag as an ordered multimap.
use crate::engine::*;
use crate::gen;
use crate::model::{diff, flat, to_tag, Id, Ty, Val};
use crate::tagmodel::*;
use mp4ameta::{Data, Fourcc, FreeformIdent, Img, Tag};

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    fixed,
    enumerated: None,
    quick: 500_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a tag over a pool of one to four close identifiers and a history of up to 24 generic operations, each run on the \
           library and on the reference model, with every view of every identifier compared after each. Non-trivial: at least \
           two operations changed the tag. Distinct by (start, history).",
    assumptions: &[],
};

#[derive(Clone, Debug, Hash)]
pub enum Op {
    Set(Id, Val),
    SetAll(Id, Vec<Val>),
    Add(Id, Val),
    AddAll(Id, Vec<Val>),
    Take(Kind, Id, usize),
    Remove(Kind, Id),
    Retain(Kind, Id, u64),
    RetainAll(Kind, u64),
    Edit(Kind, Id, usize, Val),
    EditAll(Kind, usize, Val),
    Clear,
}

/// Calls with one of the identifier types the API accepts.
macro_rules! with {
    ($id:expr, $form:expr, $i:ident => $e:expr) => {
        match ($id, $form) {
            (Id::F(c), false) => {
                let $i = Fourcc(*c);
                $e
            }
            (Id::Free(m, n), false) => {
                let $i = FreeformIdent::new(m, n);
                $e
            }
            (x, true) => {
                let $i = x.to_lib();
                $e
            }
        }
    };
}

fn keep(salt: u64, x: impl std::hash::Hash) -> bool {
    match salt {
        0 => true,
        1 => false,
        _ => hash_of(&(salt, x)) >> 7 & 1 == 0,
    }
}

pub fn op(s: &mut Src, ids: &[Id], known: &[Val]) -> Op {
    let id = s.pick(ids).clone();
    // often a value that is there already
    let val = |s: &mut Src| if !known.is_empty() && s.chance(1, 4) { s.pick(known).clone() } else { gen::val(s, false) };
    let some = |s: &mut Src| -> Vec<Val> {
        let mut v: Vec<Val> = vec![];
        for _ in 0..gen::count(s) {
            let x = if !v.is_empty() && s.chance(1, 6) { s.pick(&v).clone() } else { val(s) };
            v.push(x);
        }
        v
    };
    let kind = |s: &mut Src| *s.pick(&KINDS);
    let nth = |s: &mut Src| if s.chance(1, 8) { s.idx(300) } else { s.idx(4) };
    match s.weighted(&[6, 4, 8, 5, 3, 4, 4, 4, 5, 4, 1]) {
        0 => Op::Set(id, val(s)),
        1 => Op::SetAll(id, some(s)),
        2 => Op::Add(id, val(s)),
        3 => Op::AddAll(id, some(s)),
        4 => Op::Take(kind(s), id, s.idx(4)),
        5 => Op::Remove(kind(s), id),
        6 => Op::Retain(kind(s), id, s.below(64)),
        7 => Op::RetainAll(kind(s), s.below(64)),
        8 => Op::Edit(kind(s), id, nth(s), val(s)),
        9 => Op::EditAll(kind(s), 2 * nth(s) + s.idx(2), val(s)),
        _ => Op::Clear,
    }
}

/// What an edit through a view makes of a value.
fn edited(k: Kind, old: &Val, by: &Val) -> Val {
    match k {
        Kind::Data => by.clone(),
        Kind::Strings => Val::text(old.ty, &format!("{}{}", old.s, by.s)),
        _ => Val::bytes(old.ty, [&old.b[..], &by.b[..], b"!"].concat()),
    }
}

fn edit_lib(t: &mut Tag, k: Kind, id: Option<&Id>, form: bool, n: usize, by: &Val) {
    match id {
        Some(id) => with!(id, form, i => match k {
            Kind::Data => if let Some(d) = t.data_mut_of(&i).nth(n) { *d = by.to_lib() },
            Kind::Bytes => if let Some(b) = t.bytes_mut_of(&i).nth(n) { b.extend(&by.b); b.push(b'!') },
            Kind::Strings => if let Some(x) = t.strings_mut_of(&i).nth(n) { x.push_str(&by.s) },
            Kind::Images => if let Some(x) = t.images_mut_of(&i).nth(n) { x.data.extend(&by.b); x.data.push(b'!') },
        }),
        None => match k {
            Kind::Data => if let Some((_, d)) = t.data_mut().nth(n) { *d = by.to_lib() },
            Kind::Bytes => if let Some((_, b)) = t.bytes_mut().nth(n) { b.extend(&by.b); b.push(b'!') },
            Kind::Strings => if let Some((_, x)) = t.strings_mut().nth(n) { x.push_str(&by.s) },
            Kind::Images => if let Some((_, x)) = t.images_mut().nth(n) { x.data.extend(&by.b); x.data.push(b'!') },
        },
    }
}

fn img<T: AsRef<[u8]>>(i: Img<T>) -> Val {
    Val::bytes(img_ty(&i.fmt), i.data.as_ref().to_vec())
}

/// Comparable form of a value seen through a view that hides the type.
fn seen(k: Kind, v: &Val) -> Val {
    match k {
        Kind::Bytes => Val::bytes(Ty::Reserved, v.b.clone()),
        Kind::Strings => Val::text(Ty::Utf8, &v.s),
        _ => v.clone(),
    }
}
fn sb(b: &[u8]) -> Val {
    Val::bytes(Ty::Reserved, b.to_vec())
}
fn st(b: &str) -> Val {
    Val::text(Ty::Utf8, b)
}

pub fn apply(t: &mut Tag, m: &mut Model, op: &Op, form: bool) -> Res {
    match op {
        Op::Set(id, v) => {
            with!(id, form, i => t.set_data(i, v.to_lib()));
            m.set(id, vec![v.clone()]);
        }
        Op::SetAll(id, v) => {
            with!(id, form, i => t.set_all_data(i, lib(v)));
            m.set(id, v.clone());
        }
        Op::Add(id, v) => {
            with!(id, form, i => t.add_data(i, v.to_lib()));
            m.add(id, vec![v.clone()]);
        }
        Op::AddAll(id, v) => {
            with!(id, form, i => t.add_all_data(i, lib(v)));
            m.add(id, v.clone());
        }
        Op::Take(k, id, n) => {
            // part of the values may be left in the iterator
            let n = if *n == 3 { usize::MAX } else { *n };
            let got: Vec<Val> = with!(id, form, i => match k {
                Kind::Data => t.take_data_of(&i).take(n).map(|d| Val::of(&d)).collect(),
                Kind::Bytes => t.take_bytes_of(&i).take(n).map(|b| sb(&b)).collect(),
                Kind::Strings => t.take_strings_of(&i).take(n).map(|b| st(&b)).collect(),
                Kind::Images => t.take_images_of(&i).take(n).map(img).collect(),
            });
            let want: Vec<Val> = m.take(id).iter().filter(|v| k.has(v)).map(|v| seen(*k, v)).take(n).collect();
            if got != want {
                return fail("taken", format!("{op:?} returned {got:?}, expected {want:?}"));
            }
        }
        Op::Remove(k, id) => {
            with!(id, form, i => match k {
                Kind::Data => t.remove_data_of(&i),
                Kind::Bytes => t.remove_bytes_of(&i),
                Kind::Strings => t.remove_strings_of(&i),
                Kind::Images => t.remove_images_of(&i),
            });
            m.retain(|i, v| i != id || !k.has(v));
        }
        Op::Retain(k, id, salt) => {
            let salt = *salt;
            with!(id, form, i => match k {
                Kind::Data => t.retain_data_of(&i, |d| keep(salt, Val::of(d))),
                Kind::Bytes => t.retain_bytes_of(&i, |b| keep(salt, sb(b))),
                Kind::Strings => t.retain_strings_of(&i, |b| keep(salt, st(b))),
                Kind::Images => t.retain_images_of(&i, |b| keep(salt, img(b))),
            });
            m.retain(|i, v| i != id || !k.has(v) || keep(salt, seen(*k, v)));
        }
        Op::RetainAll(k, salt) => {
            let salt = *salt;
            match k {
                Kind::Data => t.retain_data(|i, d| keep(salt, (Id::of(i), Val::of(d)))),
                Kind::Bytes => t.retain_bytes(|i, b| keep(salt, (Id::of(i), sb(b)))),
                Kind::Strings => t.retain_strings(|i, b| keep(salt, (Id::of(i), st(b)))),
                Kind::Images => t.retain_images(|i, b| keep(salt, (Id::of(i), img(b)))),
            }
            m.retain(|i, v| !k.has(v) || keep(salt, (i.clone(), seen(*k, v))));
        }
        Op::Edit(k, id, n, by) => {
            edit_lib(t, *k, Some(id), form, *n, by);
            if let Some(l) = m.get_mut(id) {
                if let Some(v) = l.iter_mut().filter(|v| k.has(v)).nth(*n) {
                    *v = edited(*k, v, by);
                }
            }
        }
        Op::EditAll(k, n, by) => {
            edit_lib(t, *k, None, form, *n, by);
            if let Some(v) = m.0.iter_mut().flat_map(|x| x.1.iter_mut()).filter(|v| k.has(v)).nth(*n) {
                *v = edited(*k, v, by);
            }
        }
        Op::Clear => {
            t.clear();
            m.0.clear();
        }
    }
    Ok(())
}

/// Every view of every identifier shows what the model holds.
pub fn views(t: &mut Tag, m: &Model, ids: &[Id], form: bool, after: &dyn Fn() -> String) -> Res {
    for id in ids {
        for k in KINDS {
            let want: Vec<Val> = m.of_kind(id, k).iter().map(|v| seen(k, v)).collect();
            let got: Vec<Val> = with!(id, form, i => match k {
                Kind::Data => t.data_of(&i).map(Val::of).collect(),
                Kind::Bytes => t.bytes_of(&i).map(sb).collect(),
                Kind::Strings => t.strings_of(&i).map(st).collect(),
                Kind::Images => t.images_of(&i).map(img).collect(),
            });
            if got != want {
                return fail("view", format!("after {}: {k:?} of {id:?} is {got:?}, expected {want:?}", after()));
            }
            let got: Vec<Val> = with!(id, form, i => match k {
                Kind::Data => t.data_mut_of(&i).map(|d| Val::of(d)).collect(),
                Kind::Bytes => t.bytes_mut_of(&i).map(|b| sb(b)).collect(),
                Kind::Strings => t.strings_mut_of(&i).map(|b| st(b)).collect(),
                Kind::Images => t.images_mut_of(&i).map(img_mut).collect(),
            });
            if got != want {
                return fail("mutable-view", format!("after {}: mutable {k:?} of {id:?} is {got:?}, expected {want:?}", after()));
            }
        }
    }
    for k in KINDS {
        let want: Vec<(Id, Val)> = flat(&m.0).into_iter().filter(|x| k.has(&x.1)).map(|x| (x.0, seen(k, &x.1))).collect();
        let id = Id::of;
        let a: Vec<(Id, Val)> = match k {
            Kind::Data => t.data().map(|(i, d)| (id(i), Val::of(d))).collect(),
            Kind::Bytes => t.bytes().map(|(i, d)| (id(i), sb(d))).collect(),
            Kind::Strings => t.strings().map(|(i, d)| (id(i), st(d))).collect(),
            Kind::Images => t.images().map(|(i, d)| (id(i), img(d))).collect(),
        };
        let b: Vec<(Id, Val)> = match k {
            Kind::Data => t.data_mut().map(|(i, d)| (id(i), Val::of(d))).collect(),
            Kind::Bytes => t.bytes_mut().map(|(i, d)| (id(i), sb(d))).collect(),
            Kind::Strings => t.strings_mut().map(|(i, d)| (id(i), st(d))).collect(),
            Kind::Images => t.images_mut().map(|(i, d)| (id(i), img_mut(d))).collect(),
        };
        for (g, what) in [(a, "view"), (b, "mutable view")] {
            if let Some(d) = diff(&want, &g) {
                return fail("whole-view", format!("after {}: {what} of all {k:?}: {d}", after()));
            }
        }
    }
    Ok(())
}

fn img_mut(i: Img<&mut Vec<u8>>) -> Val {
    Val::bytes(img_ty(&i.fmt), i.data.clone())
}

fn consume(t: &Tag, m: &Model) -> Res {
    for k in KINDS {
        let want: Vec<(Id, Val)> = flat(&m.0).into_iter().filter(|x| k.has(&x.1)).map(|x| (x.0, seen(k, &x.1))).collect();
        let c = t.clone();
        let got: Vec<(Id, Val)> = match k {
            Kind::Data => c.take_data().map(|(i, d)| (Id::of(&i), Val::of(&d))).collect(),
            Kind::Bytes => c.take_bytes().map(|(i, d)| (Id::of(&i), sb(&d))).collect(),
            Kind::Strings => c.take_strings().map(|(i, d)| (Id::of(&i), st(&d))).collect(),
            Kind::Images => c.take_images().map(|(i, d)| (Id::of(&i), img(d))).collect(),
        };
        if let Some(d) = diff(&want, &got) {
            return fail("consumed", format!("taking all {k:?}: {d}"));
        }
    }
    Ok(())
}

/// A few identifiers that are easily confused.
pub fn pool(s: &mut Src) -> Vec<Id> {
    let mut v = vec![gen::id(s)];
    let n = s.idx(4);
    for _ in 0..n {
        let i = if s.bool() { gen::id(s) } else { gen::near_id(s, &v[0].clone()) };
        if !v.contains(&i) {
            v.push(i);
        }
    }
    v
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let ids = pool(s);
    let (mut t, mut m) = start(s, &ids, 5);
    let m0 = m.clone();
    let n = 1 + s.idx(24);
    let mut hist = vec![];
    let mut changed = 0;
    m.check_eq(&t, &|| "the start".into())?;
    for _ in 0..n {
        let known: Vec<Val> = m.0.iter().flat_map(|x| x.1.iter().take(3).cloned()).take(6).collect();
        let o = op(s, &ids, &known);
        let form = s.bool();
        let was = m.clone();
        c.label(match &o {
            Op::Set(..) => "set",
            Op::SetAll(_, v) if v.is_empty() => "set no values",
            Op::SetAll(..) => "set several",
            Op::Add(..) => "add",
            Op::AddAll(_, v) if v.is_empty() => "add no values",
            Op::AddAll(..) => "add several",
            Op::Take(..) => "take",
            Op::Remove(..) => "remove",
            Op::Retain(..) => "retain of one identifier",
            Op::RetainAll(..) => "retain of the tag",
            Op::Edit(..) => "edit through a view",
            Op::EditAll(..) => "edit through a whole view",
            Op::Clear => "clear",
        });
        hist.push(o);
        let o = hist.last().unwrap();
        let d = || format!("{o:?}");
        c.describe(|| d());
        apply(&mut t, &mut m, o, form)?;
        changed += (m != was) as u32;
        m.check_eq(&t, &d)?;
        views(&mut t, &m, &ids, form, &d)?;
    }
    consume(&t, &m)?;
    c.evals = n as u64;
    c.nontrivial = changed >= 2;
    c.key(&(&m0.0, &hist));
    c.describe(|| format!("start {:?}", m0.0));
    Ok(())
}

fn fixed(_: &mut Ctx) -> Res {
    // lists of no values leave no trace
    let id = Id::F(*b"\xa9nam");
    let full = vec![(id.clone(), vec![Val::text(Ty::Utf8, "x")])];
    for items in [vec![], full] {
        for o in [Op::SetAll(id.clone(), vec![]), Op::AddAll(id.clone(), vec![])] {
            let (mut t, mut m) = (to_tag(&items), Model(items.clone(), Default::default()));
            apply(&mut t, &mut m, &o, false)?;
            m.check_eq(&t, &|| format!("{o:?}"))?;
        }
    }
    let t = Tag::new("x".into(), Default::default(), vec![]);
    if !t.is_empty() || t.data().next().is_some() {
        return fail("is-empty", "a new tag is not empty");
    }
    let mut t = Tag::default();
    t.set_data(Fourcc(*b"test"), Data::Utf8(String::new()));
    if t.is_empty() {
        return fail("is-empty", "a tag with an empty value is empty");
    }
    Ok(())
}
