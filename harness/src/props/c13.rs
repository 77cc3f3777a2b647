//! Track and disc numbers.
use crate::engine::*;
use crate::gen;
use crate::model::{diff, flat, of_tag, to_tag, Id, Ty, Val};
use crate::tagmodel::*;
use crate::util;
use mp4ameta::Tag;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    fixed,
    enumerated: None,
    quick: 2_000_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a tag with arbitrary track, disc and unrelated values (bytes of length 0 to 10, repeated values, other types) and a \
           history of up to ten calls that set or remove a number, a total or both, followed by two optional numbers per kind; \
           stored bytes are compared too. Non-trivial: at least two calls changed the tag. Distinct by (start, calls).",
    assumptions: &[],
};

pub const TRKN: Id = Id::F(*b"trkn");
pub const DISK: Id = Id::F(*b"disk");
pub const IDS: [Id; 2] = [TRKN, DISK];

struct Api {
    id: Id,
    name: &'static str,
    both: fn(&Tag) -> (Option<u16>, Option<u16>),
    number: fn(&Tag) -> Option<u16>,
    total: fn(&Tag) -> Option<u16>,
    set: fn(&mut Tag, u16, u16),
    set_number: fn(&mut Tag, u16),
    set_total: fn(&mut Tag, u16),
    remove: fn(&mut Tag),
    remove_number: fn(&mut Tag),
    remove_total: fn(&mut Tag),
}

const API: [Api; 2] = [
    Api {
        id: TRKN,
        name: "track",
        both: |t| t.track(),
        number: |t| t.track_number(),
        total: |t| t.total_tracks(),
        set: |t, n, m| t.set_track(n, m),
        set_number: |t, n| t.set_track_number(n),
        set_total: |t, n| t.set_total_tracks(n),
        remove: |t| t.remove_track(),
        remove_number: |t| t.remove_track_number(),
        remove_total: |t| t.remove_total_tracks(),
    },
    Api {
        id: DISK,
        name: "disc",
        both: |t| t.disc(),
        number: |t| t.disc_number(),
        total: |t| t.total_discs(),
        set: |t, n, m| t.set_disc(n, m),
        set_number: |t, n| t.set_disc_number(n),
        set_total: |t, n| t.set_total_discs(n),
        remove: |t| t.remove_disc(),
        remove_number: |t| t.remove_disc_number(),
        remove_total: |t| t.remove_total_discs(),
    },
];

type Pair = (Option<u16>, Option<u16>);

fn opt(n: u16) -> Option<u16> {
    Some(n).filter(|n| *n != 0)
}

/// What stored values mean: the first value of bytes counts.
pub fn pair(m: &Model, id: &Id) -> Pair {
    let b = m.bytes(id).into_iter().next().unwrap_or_default();
    let at = |p: usize| b.get(p..p + 2).and_then(|x| opt(u16::from_be_bytes([x[0], x[1]])));
    (at(2), at(4))
}

pub fn getters(t: &Tag, want: [Pair; 2], after: &str) -> Res {
    for (a, w) in API.iter().zip(want) {
        let (g, n, m) = ((a.both)(t), (a.number)(t), (a.total)(t));
        if g != (n, m) {
            return fail("disagree", format!("after {after}: {} is {g:?}, number {n:?}, total {m:?}", a.name));
        }
        if g != w {
            return fail("value", format!("after {after}: {} is {g:?}, expected {w:?}", a.name));
        }
    }
    Ok(())
}

pub fn num(s: &mut Src) -> u16 {
    match s.below(4) {
        0 => s.below(4) as u16,
        1 => *s.pick(&[0u16, 1, 255, 256, 0x8000, 0xffff, 0x0100, 0x00ff]),
        _ => s.u16(),
    }
}

/// Compares the values of an edited atom: bytes outside the numbers and the other values stay.
fn edited(was: &[Val], now: &[Val], what: &str) -> Res {
    let Some(p) = was.iter().position(|v| v.ty.is_bytes()) else { return Ok(()) };
    if now.len() != was.len() || was.iter().zip(now).enumerate().any(|(i, (a, b))| i != p && a != b) {
        return fail("other-values", format!("{what} changed other values: {was:?} became {now:?}"));
    }
    let (a, b) = (&was[p].b, &now[p].b);
    let outside = |v: &[u8], i: usize| if (2..6).contains(&i) { None } else { v.get(i).copied() };
    if !now[p].ty.is_bytes() || b.len() < a.len() || (0..a.len()).any(|i| outside(a, i) != outside(b, i)) {
        return fail("other-bytes", format!("{what} changed other bytes: {:?} became {:?}", was[p], now[p]));
    }
    Ok(())
}

pub fn step(t: &mut Tag, a: usize, call: u64, x: u16, y: u16) -> Result<String, Fail> {
    let api = &API[a];
    let n = api.name;
    let before = Model::of(t);
    let (num, tot) = pair(&before, &api.id);
    let other = pair(&before, &API[1 - a].id);
    let (d, want, gone): (String, Pair, bool) = match call {
        0 => {
            (api.set)(t, x, y);
            (format!("set {n} {x} of {y}"), (opt(x), opt(y)), false)
        }
        1 => {
            (api.set_number)(t, x);
            (format!("set {n} number {x}"), (opt(x), tot), false)
        }
        2 => {
            (api.set_total)(t, x);
            (format!("set {n} total {x}"), (num, opt(x)), false)
        }
        3 => {
            (api.remove)(t);
            (format!("remove {n}"), (None, None), true)
        }
        4 => {
            (api.remove_number)(t);
            (format!("remove {n} number"), (None, tot), tot.is_none())
        }
        _ => {
            (api.remove_total)(t);
            (format!("remove {n} total"), (num, None), num.is_none())
        }
    };
    let mut w = [want, other];
    if a == 1 {
        w.swap(0, 1);
    }
    getters(t, w, &format!("{d} on {:?}", before.get(&api.id)))?;
    let after = Model::of(t);
    let rest = |m: &Model| flat(&m.0).into_iter().filter(|x| x.0 != api.id).collect::<Vec<_>>();
    if let Some(x) = diff(&rest(&before), &rest(&after)) {
        return fail("other-atoms", format!("{d} changed another atom: {x}"));
    }
    if before.1 != after.1 {
        return fail("about", format!("{d} changed {:?} to {:?}", before.1, after.1));
    }
    if gone {
        if !after.get(&api.id).is_empty() || t.is_empty() != after.0.is_empty() {
            return fail("remains", format!("after {d} on {:?} the tag still holds {:?}", before.get(&api.id), after.get(&api.id)));
        }
    } else {
        edited(before.get(&api.id), after.get(&api.id), &d)?;
        if before.bytes(&api.id).is_empty() && call <= 2 {
            // a new value has the documented layout
            let v = after.get(&api.id).iter().find(|v| v.ty.is_bytes());
            let l = [[0, 0], want.0.unwrap_or(0).to_be_bytes(), want.1.unwrap_or(0).to_be_bytes()].concat();
            if v.map(|v| (v.ty, v.b.starts_with(&l))) != Some((Ty::Reserved, true)) {
                return fail("layout", format!("{d} stored {v:?}"));
            }
        }
    }
    Ok(d)
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut m = Model::default();
    for id in [TRKN, DISK] {
        let n = s.weighted(&[3, 5, 1, 1]);
        for _ in 0..n {
            let v = if s.chance(5, 6) {
                let ty = if s.chance(3, 4) { Ty::Reserved } else { Ty::Signed };
                let n = match s.below(3) {
                    0 => 8,
                    1 => 6,
                    _ if s.chance(1, 16) => if s.chance(1, 8) { gen::limit(s) } else { s.idx(300) },
                    _ => s.idx(11),
                };
                let z = s.bool();
                let mut b: Vec<u8> = (0..n.min(16)).map(|i| if i < 2 && z { 0 } else if s.chance(1, 3) { 0 } else { s.u8() }).collect();
                b.resize(n, 7);
                Val::bytes(ty, b)
            } else {
                gen::val(s, false)
            };
            m.add(&id, vec![v]);
        }
    }
    let other = gen::items(s, 2, false);
    for (i, v) in other {
        m.add(&i, v);
    }
    s.shuffle(&mut m.0);
    m.1 = any_about(s);
    let mut t = m.tag();
    getters(&t, [pair(&m, &TRKN), pair(&m, &DISK)], "the start")?;
    let n = 1 + s.idx(10);
    let mut hist = vec![];
    let mut changed = 0;
    for _ in 0..n {
        let was = t.clone();
        let a = s.idx(2);
        let call = s.below(6);
        let (x, y) = (num(s), num(s));
        let d = step(&mut t, a, call, x, y)?;
        changed += (t != was) as u32;
        c.describe(|| d.clone());
        hist.push(d);
    }
    c.label_if(m.bytes(&TRKN).first().map_or(false, |b| b.len() < 6), "short track value");
    c.label_if(m.bytes(&TRKN).len() > 1, "several track values");
    c.label_if(m.get(&TRKN).is_empty(), "no track value");
    if s.chance(1, 8) {
        c.label("through a dump");
        let now = Model::of(&t);
        let w = [pair(&now, &TRKN), pair(&now, &DISK)];
        match util::dump(&t).and_then(|b| util::read(&b)) {
            Ok(r) => getters(&r, w, "dump and read")?,
            Err(e) => return fail("unreadable", format!("the tag cannot be dumped and read: {}", util::kind(&e))),
        }
    }
    c.evals = n as u64;
    c.nontrivial = changed >= 2;
    c.key(&(&m.0, &hist));
    c.describe(|| format!("start {:?}", m.0));
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    // every sequence of up to three calls with small numbers, from several starts
    let starts: Vec<Vec<Val>> = [vec![], vec![vec![]], vec![vec![0; 2]], vec![vec![0; 3]], vec![vec![0, 0, 0, 5]], vec![vec![9, 8, 0, 5, 0]]]
        .into_iter()
        .chain([vec![vec![9, 8, 0, 5, 0, 6, 7, 1, 2]], vec![vec![0, 0, 0, 0, 0, 6]], vec![vec![0, 0, 1, 0, 0, 0, 0, 0], vec![1]], vec![vec![0; 8]]])
        .map(|v| v.into_iter().map(|b| Val::bytes(Ty::Reserved, b)).collect())
        .collect();
    for st in &starts {
        for a in 0..2 {
            for k in 0..6u64 * 6 * 6 {
                let items = if st.is_empty() { vec![] } else { vec![(API[a].id.clone(), st.clone())] };
                let mut t = to_tag(&items);
                for call in [k % 6, k / 6 % 6, k / 36] {
                    step(&mut t, a, call, 3, 0x0405)?;
                    step(&mut t, 1 - a, call, 0, 1)?;
                    c.evals += 2;
                }
            }
        }
    }
    // no trace remains
    let mut t = Tag::default();
    t.set_track(1, 2);
    t.remove_track_number();
    t.remove_total_tracks();
    if !t.is_empty() || !of_tag(&t).is_empty() {
        return fail("remains", "removing number and total leaves something");
    }
    Ok(())
}
