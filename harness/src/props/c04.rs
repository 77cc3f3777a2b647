//! The file depends only on the last tag written.
use crate::engine::*;
use crate::gen;
use crate::model::{self, Items};
use crate::{big, mp4, util};
use mp4ameta::{AudioInfo, Tag};

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    fixed: no_fixed,
    enumerated: None,
    quick: 150_000,
    thorough: 3_000_000,
    level: "exploration",
    rule: "a random valid container and a history of two to five operations: write a fresh tag, write the tag just read back \
           (possibly edited), write a tag read from another file, write the same tag again. At every step the file must equal \
           byte for byte the original with only that tag written, and what is read must be that tag with the original's audio \
           information and file type. Non-trivial: the history changed the file length at least twice. Distinct by (container \
           bytes, tags of the history).",
    assumptions: &["one movie atom per file"],
};

fn info(t: &Tag) -> (AudioInfo, String) {
    (t.audio_info().clone(), t.filetype().to_string())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::STD);
    let mut b = f.bytes();
    f.label(c);
    if let Some(x) = util::sample(s, c) {
        b = x.to_vec();
    }
    let orig = match util::read(&b) {
        Ok(t) => t,
        Err(e) => return fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
    };
    // identity: read, write back, read again
    let (r, same) = util::write(&orig, &b);
    if let Err(e) = r {
        return fail("write-refused", format!("writing the tag that was read failed: {}", util::kind(&e)));
    }
    check_read(&same, &orig, &orig, "after writing back the tag that was read")?;

    let n = 2 + s.idx(4);
    let mut cur = b.clone();
    let mut last: Tag = orig.clone();
    let mut changes = 0;
    let mut hist: Vec<Vec<(model::Id, model::Val)>> = vec![];
    let mut what = vec![];
    for _ in 0..n {
        let tag = match s.weighted(&[5, 2, 2, 2, 1]) {
            0 => {
                what.push("fresh");
                let base = hist.last().map_or(f.items.clone(), |h| model::merge(&h.iter().map(|(i, v)| (i.clone(), vec![v.clone()])).collect()));
                model::to_tag(&gen::related(s, &base, 6, true))
            }
            1 => {
                what.push("same");
                c.label("same tag again");
                last.clone()
            }
            2 => {
                what.push("edited");
                c.label("edited tag");
                let mut t = match util::read(&cur) {
                    Ok(t) => t,
                    Err(e) => return fail("unreadable", format!("the file cannot be read: {}", util::kind(&e))),
                };
                let extra: Items = gen::items(s, 2, false);
                model::add_to_tag(&mut t, &extra);
                t
            }
            3 => {
                what.push("other file");
                c.label("tag of another file");
                let g = gen::file(s, &gen::SMALL);
                match util::read(&g.bytes()) {
                    Ok(t) => t,
                    Err(e) => return fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
                }
            }
            _ => {
                what.push("empty");
                Tag::default()
            }
        };
        let (r, after) = util::write(&tag, &cur);
        if let Err(e) = r {
            return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
        }
        let (r, direct) = util::write(&tag, &b);
        if let Err(e) = r {
            return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
        }
        hist.push(model::of_tag(&tag));
        c.describe(|| format!("step {}: {:?}", what.last().unwrap(), hist.last().unwrap()));
        if after != direct {
            return fail(
                "history-dependent",
                format!("after {what:?} the file differs from writing the last tag to the original: {}", util::bdiff(&after, &direct)),
            );
        }
        let (r, again) = util::write(&tag, &after);
        if r.is_err() || again != after {
            return fail("not-idempotent", format!("writing the same tag again changed the file: {}", util::bdiff(&after, &again)));
        }
        check_read(&after, &tag, &orig, "after a write")?;
        changes += (after.len() != cur.len()) as u32;
        cur = after;
        last = tag;
    }
    // the last step through the structural comparison with the original
    super::c02::preserved(&b, &cur).map_err(|m| Fail { sig: "not-preserved".into(), msg: m })?;
    super::c03::same_media(&b, &cur).map_err(|m| Fail { sig: "wrong-offset".into(), msg: m })?;
    c.evals = n as u64 + 1;
    c.nontrivial = changes >= 2;
    c.key(&(&b, &hist));
    c.describe(|| format!("file {}", mp4::outlines(&f.top)));
    if s.chance(1, 32) && b == f.bytes() {
        // a huge file
        let top = big::stretch(s, &f.top, true);
        c.label("file beyond 2 GiB");
        let t = [model::to_tag(&gen::items(s, 4, true)), model::to_tag(&gen::items(s, 4, true))];
        c.describe(|| format!("stretched {} tags {:?} {:?}", mp4::outlines(&top), model::of_tag(&t[0]), model::of_tag(&t[1])));
        let sparse = big::Sparse::new(&top);
        let (m, direct) = (sparse.mem(), sparse.mem());
        let mut over = vec![];
        for t in &t {
            let len = util::write(t, &b).1.len();
            over.push(big::overflows(&top, len as i64 - b.len() as i64));
        }
        if over.contains(&true) {
            return Ok(());
        }
        for (t, m) in [(&t[0], &m), (&t[1], &m), (&t[1], &direct)] {
            if let Err(e) = big::write(t, m) {
                return fail("write-refused", format!("writing to a valid huge file failed: {}", util::kind(&e)));
            }
        }
        huge_eq(&big::Map::new(&m), &big::Map::new(&direct))?;
    }
    Ok(())
}

fn check_read(b: &[u8], tag: &Tag, orig: &Tag, when: &str) -> Res {
    match util::read(b) {
        Err(e) => fail("unreadable", format!("{when} the file cannot be read: {}", util::kind(&e))),
        Ok(t) => {
            if let Some(d) = model::diff(&model::of_tag(tag), &model::of_tag(&t)) {
                return fail("metadata-differs", format!("{when}: {d}"));
            }
            if info(&t) != info(orig) {
                return fail("info-differs", format!("{when}: {:?} became {:?}", info(orig), info(&t)));
            }
            Ok(())
        }
    }
}

fn huge_eq(a: &[u8], b: &[u8]) -> Res {
    let bad = |m: String| fail("history-dependent", format!("a huge file depends on more than the last tag: {m}"));
    let (x, y) = match (mp4::parse(a), mp4::parse(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => return fail("malformed", format!("a huge file is malformed after a write: {:?} {:?}", x.err(), y.err())),
    };
    if a.len() != b.len() || x.len() != y.len() {
        return bad(format!("{} and {} bytes", a.len(), b.len()));
    }
    fn leaves(n: &mp4::PNode, o: &mut Vec<(usize, usize)>) {
        if n.kids().is_empty() {
            o.push((n.pos, n.end()));
        } else {
            o.push((n.pos, n.kids()[0].pos));
            n.kids().iter().for_each(|k| leaves(k, o));
        }
    }
    let (mut p, mut q) = (vec![], vec![]);
    x.iter().for_each(|n| leaves(n, &mut p));
    y.iter().for_each(|n| leaves(n, &mut q));
    if p != q {
        return bad("the atoms differ".into());
    }
    match p.iter().find(|r| !big::same(&a[r.0..r.1], &b[r.0..r.1])) {
        Some(r) => bad(format!("the bytes from {} to {} differ", r.0, r.1)),
        None => Ok(()),
    }
}
