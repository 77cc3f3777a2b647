//! A truncated file is never misread.
use crate::engine::*;
use crate::model::{diff, of_tag};
use crate::{big, gen, model, mp4, util};
use mp4ameta::Tag;

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    fixed,
    enumerated: None,
    quick: 100_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "a random valid container (as generated, or after the library wrote a random tag to it, or a dump), cut at every \
           position (every position near atom boundaries and a random selection elsewhere for bigger files); reading must fail \
           or give exactly the tag of the complete file. Non-trivial: the complete file has an item or audio information and \
           at least one cut made reading fail. Distinct by file bytes.",
    assumptions: &["one movie atom per file"],
};

fn cut_at(b: &[u8], n: usize, want: &Tag) -> Result<bool, Fail> {
    match util::read(&b[..n]) {
        Err(_) => Ok(true),
        Ok(t) if &t == want => Ok(false),
        Ok(t) => {
            let d = diff(&of_tag(want), &of_tag(&t));
            fail(
                if d.is_some() { "items-misread" } else { "info-misread" },
                format!(
                    "the first {n} of {} bytes read as another tag: {}",
                    b.len(),
                    d.unwrap_or_else(|| format!("{:?} {:?} instead of {:?} {:?}", t.audio_info(), t.filetype(), want.audio_info(), want.filetype()))
                ),
            )
        }
    }
}

fn cuts(b: &[u8], marks: &[usize], s: &mut Src, c: &mut Ctx) -> Res {
    let want = match util::read(b) {
        Ok(t) => t,
        Err(e) => return fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
    };
    let mut at: Vec<usize> = vec![];
    if b.len() <= 1500 {
        c.label("every cut position");
        at.extend(0..b.len());
    } else {
        for m in marks {
            at.extend((m.saturating_sub(3)..m + 20).filter(|x| *x < b.len()));
        }
        for _ in 0..50 {
            at.push(s.idx(b.len()));
        }
        at.sort_unstable();
        at.dedup();
        // of too many cuts, or cuts of a long file, some
        let most = 4000.min((1 << 31) / b.len()).max(100);
        if at.len() > most {
            c.label("some of the cut positions");
            s.shuffle(&mut at);
            at.truncate(most);
        }
    }
    let (mut failed, mut ok) = (false, false);
    for n in &at {
        if cut_at(b, *n, &want)? {
            failed = true;
        } else {
            ok = true;
        }
    }
    c.label_if(ok, "a cut that loses nothing");
    c.evals += at.len() as u64;
    c.nontrivial = failed && (!want.is_empty() || want.audio_info() != &Default::default());
    Ok(())
}

fn marks(n: &mp4::PNode, o: &mut Vec<usize>) {
    o.push(n.pos);
    o.push(n.end());
    for k in n.kids() {
        marks(k, o);
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::SMALL;
    o.big = s.chance(1, 8);
    let f = gen::file(s, &o);
    let b = match s.weighted(&[5, 2, 1]) {
        0 => f.bytes(),
        1 => {
            c.label("written by the library");
            let t = model::to_tag(&gen::items(s, 4, false));
            let (r, b) = util::write(&t, &f.bytes());
            if let Err(e) = r {
                return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
            }
            b
        }
        _ => {
            c.label("dumped by the library");
            match util::dump(&model::to_tag(&gen::items(s, 4, false))) {
                Ok(b) => b,
                Err(e) => return fail("refused", format!("dumping to memory failed: {}", util::kind(&e))),
            }
        }
    };
    let b = util::sample(s, c).map_or(b, |x| x.to_vec());
    f.label(c);
    c.key(&b);
    c.describe(|| format!("{} bytes, file {}", b.len(), mp4::outlines(&f.top)));
    let mut m = vec![];
    for n in mp4::parse(&b).unwrap_or_default() {
        marks(&n, &mut m);
    }
    cuts(&b, &m, s, c)?;
    if s.chance(1, 16) {
        let top = big::stretch(s, &f.top, false);
        c.label("file beyond 2 GiB");
        c.describe(|| format!("stretched {}", mp4::outlines(&top)));
        let sparse = big::Sparse::new(&top);
        let want = match Tag::read_from(&mut sparse.reader()) {
            Ok(t) => t,
            Err(e) => return fail("unreadable", format!("a valid huge file cannot be read: {}", util::kind(&e))),
        };
        // the ends of what is stored and inside the hole
        let mut at: Vec<u64> = sparse.segs.iter().flat_map(|(p, v)| [*p, p + v.len() as u64]).collect();
        for i in 0..at.len() {
            let d = s.below(64);
            at.push(at[i].saturating_sub(d));
            at.push(at[i] + d);
        }
        for bits in [20, 31, 32, 33] {
            at.push((1 << bits) + s.below(64));
            at.push((1u64 << bits) - s.below(64));
        }
        for n in at {
            let n = n.min(sparse.len);
            c.evals += 1;
            match Tag::read_from(&mut sparse.prefix(n)) {
                Err(_) => {}
                Ok(t) if t == want => {}
                Ok(t) => {
                    return fail(
                        "huge-misread",
                        format!("the first {n} of {} bytes read as another tag: {:?} {:?} {:?} instead of {:?} {:?} {:?}", sparse.len, of_tag(&t), t.audio_info(), t.filetype(), of_tag(&want), want.audio_info(), want.filetype()),
                    )
                }
            }
        }
    }
    Ok(())
}

fn fixed(c: &mut Ctx) -> Res {
    // one value of every type, every cut
    let mut z = Src::replay(&[]);
    for ty in model::TYS {
        let v = if ty.is_string() { model::Val::text(ty, "some tëxt \u{10000}") } else { model::Val::bytes(ty, vec![7; 30]) };
        for id in [model::Id::F(*b"abcd"), model::Id::Free("mean".into(), "name".into())] {
            let il = gen::ilst_node(&mut z, &vec![(id, vec![v.clone(), v.clone()])], false);
            let moov = mp4::cont(b"moov", vec![mp4::cont(b"udta", vec![mp4::full(b"meta", vec![0; 4], vec![il])])]);
            let b = mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), moov]);
            cuts(&b, &[], &mut z, c)?;
        }
    }
    Ok(())
}
