//! I/O failures surface as errors, partial I/O is transparent.
use crate::engine::*;
use crate::fault::{self, Kind, Op};
use crate::model::{self, of_tag, Id, Items, Ty, Val};
use crate::util::{Bad, Faulty, Mem, Scratch};
use crate::{gen, mp4, util};
use mp4ameta::{ErrorKind, Tag};
use std::io::{BufReader, Cursor};

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    fixed,
    enumerated: None,
    quick: 22_000,
    thorough: 440_000,
    level: "exploration",
    rule: "a random valid container and tag; reading, writing and dumping are repeated with a fault injected at every (for \
           bigger files a random selection of) I/O operation: failing once, failing from then on for want of space, being \
           interrupted, transferring few bytes, both in turns, and for dumps accepting nothing; the functions that take a path get the same treatment. Every repetition must report an error or \
           produce exactly the fault-free result; interrupted and short transfers must not change it; faults before the first \
           modification must leave the file unchanged. Non-trivial: faults hit at least three operations. Distinct by \
           (container bytes, items).",
    assumptions: &[
        "faults are injected at the system-call boundary of the process (read, write, seek, resize) and in readers and writers passed in",
        "a write that fails once may be retried by the buffered writer on drop, so only read, seek and resize failures and lasting failures of writes are held to leave the file unchanged",
        "the file is otherwise not modified concurrently",
    ],
};

struct W<'a> {
    before: &'a [u8],
    tag: &'a Tag,
    want: &'a [u8],
}

/// The error has to be the one that was injected.
fn io_error(e: &mp4ameta::Error, what: &str) -> Res {
    let ok = match &e.kind {
        ErrorKind::Io(x) => {
            matches!(x.raw_os_error(), Some(libc::EIO | libc::ENOSPC)) || x.to_string() == "injected" || x.kind() == std::io::ErrorKind::WriteZero
        }
        _ => false,
    };
    if !ok {
        return fail("other-error", format!("{what}: the I/O failure is reported as {:?}", e));
    }
    Ok(())
}

/// One write with a fault; Some(true) if it was hit.
fn write_with(w: &W, kind: Kind, at: i64, short: u64) -> Result<(fault::Report, bool), Fail> {
    write_by(w, false, kind, at, short)
}

/// The descriptor the next opened file gets.
fn next_fd(m: &Mem) -> i32 {
    let fd = unsafe { libc::fcntl(m.fd(), libc::F_DUPFD_CLOEXEC, 0) };
    assert!(fd >= 0, "fcntl failed");
    unsafe { libc::close(fd) };
    fd
}

fn write_by(w: &W, path: bool, kind: Kind, at: i64, short: u64) -> Result<(fault::Report, bool), Fail> {
    let m = Mem::new(w.before);
    let p = m.path();
    fault::arm(if path { next_fd(&m) } else { m.fd() }, kind, at, short, i64::MAX);
    let r = if path { w.tag.write_to_path(&p) } else { w.tag.write_to(&m.0) };
    let rep = fault::disarm();
    let after = m.get();
    let what = format!("{kind:?} at operation {at} of {} (size {short})", rep.ops);
    match r {
        Ok(()) => {
            if after != w.want {
                return fail("silent", format!("{what}: the write reported success, but the file is not the complete result: {}", util::bdiff(w.want, &after)));
            }
            Ok((rep, true))
        }
        Err(e) => {
            if matches!(kind, Kind::Interrupt | Kind::Short | Kind::Storm | Kind::None) {
                return fail("not-transparent", format!("{what}: the write failed: {}", util::kind(&e)));
            }
            if !rep.triggered {
                return fail("write-refused", format!("the fault was not reached and the write failed: {}", util::kind(&e)));
            }
            io_error(&e, &what)?;
            if rep.modified == 0 && after != w.before {
                return fail("harness-error", "the file changed without a successful operation");
            }
            // nothing was modified before: a lasting failure, or one that is not in a buffered write
            let early = rep.modified_before == 0 && (kind == Kind::FailForever || rep.hit != Some(Op::Write));
            if early && after != w.before {
                return fail("refused-but-changed", format!("{what} ({:?}): the failure came before any modification, but the file changed", rep.hit));
            }
            Ok((rep, false))
        }
    }
}

/// Factor for the sizes of short transfers, which keeps their number in bounds.
fn coarse(b: &[u8]) -> u64 {
    1 + b.len() as u64 / (1 << 18)
}

fn sweep_write(w: &W, s: &mut Src, c: &mut Ctx, all: i64) -> Result<u64, Fail> {
    let n = write_with(w, Kind::None, -1, 1)?.0.ops;
    let mut hits = 0;
    let every = n <= all;
    c.label_if(every, "every write operation");
    let count = if every { n } else { all };
    for i in 0..count {
        let at = if every { i } else { s.below(n as u64) as i64 };
        for kind in [Kind::Fail, Kind::FailForever, Kind::Interrupt] {
            let m = write_with(w, kind, at, 1)?;
            hits += m.0.triggered as u64;
            c.evals += 1;
            if kind == Kind::Fail && m.0.triggered && m.1 {
                // an operation failed for good (EIO), yet the complete result is there
                c.label("failed operation without consequence");
            }
            c.label_if(m.0.triggered && m.0.modified_before == 0, "fault before the first modification");
            c.label_if(m.0.triggered && m.0.modified_before > 0, "fault after the first modification");
        }
    }
    for short in [1, 3, 7, 1000] {
        let m = write_with(w, Kind::Short, -1, short * coarse(w.want))?;
        hits += m.0.triggered as u64;
        c.evals += 1;
    }
    for phase in 0..3 {
        write_with(w, Kind::Storm, phase, 1 + s.below(20))?;
        c.evals += 1;
    }
    Ok(hits)
}

fn sweep_read(b: &[u8], s: &mut Src, c: &mut Ctx, all: u64) -> Result<u64, Fail> {
    let want = match util::read(b) {
        Ok(t) => t,
        Err(e) => return fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
    };
    let mut f = Faulty::new(Cursor::new(b), Bad::None);
    let _ = Tag::read_from(&mut f);
    let n = f.ops;
    let every = n <= all;
    let count = if every { n } else { all };
    let mut hits = 0;
    let one = |bad: Bad| -> Result<bool, Fail> {
        let mut f = Faulty::new(Cursor::new(b), bad);
        let r = Tag::read_from(&mut f);
        match (r, bad) {
            (Ok(t), _) if t != want => fail("silent", format!("{bad:?} of {n}: reading reported success with another tag: {:?} instead of {:?}", of_tag(&t), of_tag(&want))),
            (Ok(_), Bad::Fail(_)) if f.hit => {
                // legal only if the operation had no influence; the tag is exact
                Ok(f.hit)
            }
            (Err(e), Bad::Interrupt(_) | Bad::Short(_) | Bad::Storm(_)) => fail("not-transparent", format!("{bad:?} of {n}: reading failed: {}", util::kind(&e))),
            (Err(e), _) if !f.hit => fail("unreadable", format!("a valid file cannot be read: {}", util::kind(&e))),
            (Err(e), _) => io_error(&e, &format!("{bad:?} of {n} reading")).map(|_| true),
            _ => Ok(f.hit),
        }
    };
    for i in 0..count {
        let at = if every { i } else { s.below(n) };
        hits += one(Bad::Fail(at))? as u64 + one(Bad::Interrupt(at))? as u64;
    }
    for k in [1, 2, 5, 9] {
        one(Bad::Short(k * coarse(b) as usize))?;
    }
    for k in 0..3 {
        one(Bad::Storm(k))?;
    }
    // through a buffered reader on a file
    let m = Mem::new(b);
    for (kind, at, short) in [(Kind::Short, -1, 1), (Kind::Short, -1, 13), (Kind::Storm, 0, 3), (Kind::Storm, 1, 1), (Kind::Interrupt, s.below(6) as i64, 1), (Kind::Fail, s.below(6) as i64, 1)] {
        m.set(b);
        fault::arm(m.fd(), kind, at, if kind == Kind::Short { short * coarse(b) } else { short }, i64::MAX);
        let r = Tag::read_from(&mut BufReader::new(&m.0));
        let rep = fault::disarm();
        match r {
            Ok(t) if t != want => return fail("silent", format!("{kind:?} at {at}: reading a file reported success with another tag")),
            Err(e) if kind != Kind::Fail || !rep.triggered => return fail("not-transparent", format!("{kind:?} at {at}: reading a file failed: {}", util::kind(&e))),
            Err(e) => io_error(&e, &format!("{kind:?} at {at} reading a file"))?,
            _ => {}
        }
    }
    c.evals += 2 * count + 13;
    Ok(hits)
}

fn sweep_dump(tag: &Tag, s: &mut Src, c: &mut Ctx, all: u64) -> Res {
    let mut f = Faulty::new(vec![], Bad::None);
    if let Err(e) = tag.dump_to(&mut f) {
        return fail("dump-refused", format!("dumping to memory failed: {}", util::kind(&e)));
    }
    let (n, want) = (f.ops, f.t);
    let count = n.min(all);
    for i in 0..count {
        let at = if n <= all { i } else { s.below(n) };
        for bad in [Bad::Fail(at), Bad::Interrupt(at), Bad::Zero(at)] {
            let mut f = Faulty::new(vec![], bad);
            let r = tag.dump_to(&mut f);
            c.evals += 1;
            match (r, bad) {
                (Ok(()), _) if f.t != want => return fail("silent", format!("{bad:?} of {n}: dumping reported success, but the output is not complete")),
                (Ok(()), Bad::Fail(_)) if f.hit => return fail("silent", format!("{bad:?} of {n}: the writer failed and dumping reported success")),
                (Err(e), Bad::Interrupt(_)) => return fail("not-transparent", format!("{bad:?} of {n}: dumping failed: {}", util::kind(&e))),
                (Err(_), _) if !want.starts_with(&f.t) => return fail("garbage", format!("{bad:?} of {n}: the output is no prefix of the complete one")),
                (Err(e), _) => io_error(&e, &format!("{bad:?} of {n} dumping"))?,
                _ => {}
            }
        }
    }
    let k = coarse(&want) as usize;
    for bad in [Bad::Short(k), Bad::Short(3 * k), Bad::Short(100 * k), Bad::Storm(0), Bad::Storm(1), Bad::Storm(2)] {
        let mut f = Faulty::new(vec![], bad);
        let r = tag.dump_to(&mut f);
        c.evals += 1;
        if r.is_err() || f.t != want {
            return fail("not-transparent", format!("dumping to a writer that is interrupted or takes few bytes per call ({bad:?}) gives another result"));
        }
    }
    Ok(())
}

/// The functions that take a path, with faults in the file they open.
fn paths(w: &W, s: &mut Src, c: &mut Ctx, all: i64) -> Res {
    const TRANSPARENT: [(Kind, u64); 3] = [(Kind::Short, 1), (Kind::Short, 11), (Kind::Storm, 2)];
    let places = |s: &mut Src, n: i64| -> Vec<i64> {
        if n <= all { (0..n).collect() } else { (0..all).map(|_| if s.bool() { n - 1 - s.below(n.min(5) as u64) as i64 } else { s.below(n as u64) as i64 }).collect() }
    };
    let faults = |s: &mut Src, n: i64| -> Vec<(Kind, i64, u64)> {
        let mut v: Vec<_> = TRANSPARENT.iter().map(|k| (k.0, 0, if k.0 == Kind::Short { k.1 * coarse(w.want).max(coarse(w.before)) } else { k.1 })).collect();
        for at in places(s, n) {
            v.extend([Kind::Fail, Kind::FailForever, Kind::Interrupt].iter().map(|k| (*k, at, 1)));
        }
        v
    };
    let n = write_by(w, true, Kind::None, -1, 1)?.0.ops;
    if n == 0 {
        return fail("harness-error", "the file opened by path was not watched");
    }
    for (kind, at, short) in faults(s, n) {
        write_by(w, true, kind, at, short)?;
        c.evals += 1;
    }

    let m = Mem::new(w.want);
    let p = m.path();
    let read = |kind, at, short| {
        fault::arm(next_fd(&m), kind, at, short, i64::MAX);
        let r = Tag::read_from_path(&p);
        (r, fault::disarm())
    };
    let (r, rep) = read(Kind::None, -1, 1);
    let Ok(want) = r else { return fail("unreadable", "a written file cannot be read by path") };
    for (kind, at, short) in faults(s, rep.ops) {
        let (r, rep) = read(kind, at, short);
        let what = format!("{kind:?} at operation {at} of reading by path");
        c.evals += 1;
        match r {
            Ok(t) if t != want => return fail("silent", format!("{what}: success with another tag")),
            Err(e) if kind != Kind::Fail || !rep.triggered => return fail("not-transparent", format!("{what}: {}", util::kind(&e))),
            Err(e) => io_error(&e, &what)?,
            _ => {}
        }
    }

    let want = util::dump(w.tag).map_err(|e| Fail { sig: "dump-refused".into(), msg: util::kind(&e) })?;
    let dump = |kind, at, short| {
        m.set(w.before);
        fault::arm(next_fd(&m), kind, at, short, i64::MAX);
        let r = w.tag.dump_to_path(&p);
        (r, fault::disarm(), m.get())
    };
    let (r, rep, b) = dump(Kind::None, -1, 1);
    if r.is_err() || b != want {
        return fail("dump-refused", "dumping to a path gives another result");
    }
    for (kind, at, short) in faults(s, rep.ops) {
        let (r, rep, b) = dump(kind, at, short);
        let what = format!("{kind:?} at operation {at} of dumping by path");
        c.evals += 1;
        match r {
            Ok(()) if b != want => return fail("silent", format!("{what}: success, but the output is not complete")),
            Err(e) if !matches!(kind, Kind::Fail | Kind::FailForever) || !rep.triggered => return fail("not-transparent", format!("{what}: {}", util::kind(&e))),
            Err(e) => io_error(&e, &what)?,
            _ => {}
        }
    }
    c.label("faults in files opened by path");
    Ok(())
}

fn all(b: &[u8], items: &Items, s: &mut Src, c: &mut Ctx, max: u64) -> Res {
    let tag = model::to_tag(items);
    let (r, want) = util::write(&tag, b);
    if let Err(e) = r {
        return fail("write-refused", format!("writing to a valid file failed: {}", util::kind(&e)));
    }
    // fewer faults in large files
    let max = if b.len().max(want.len()) > 1 << 18 { max.min(4) } else { max };
    let hits = sweep_write(&W { before: b, tag: &tag, want: &want }, s, c, max as i64)?;
    let h2 = sweep_read(b, s, c, max * 4)?;
    sweep_dump(&tag, s, c, max * 4)?;
    c.nontrivial = hits + h2 >= 3;
    if s.chance(1, 4) || max > 100 {
        paths(&W { before: b, tag: &tag, want: &want }, s, c, max as i64 / 2)?;
    }
    Ok(())
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut o = gen::SMALL;
    o.big = s.chance(1, 3);
    let f = gen::file(s, &o);
    let items = gen::related(s, &f.items, 4, o.big);
    let b = f.bytes();
    f.label(c);
    c.key(&(&b, &items));
    c.describe(|| format!("file {} tag {:?}", mp4::outlines(&f.top), items));
    all(&b, &items, s, c, 24)
}

fn fixed(c: &mut Ctx) -> Res {
    let mut z = Src::replay(&[]);
    let tag: Items = vec![
        (Id::F(*b"\xa9nam"), vec![Val::text(Ty::Utf8, "a title")]),
        (Id::F(*b"covr"), vec![Val::bytes(Ty::Jpeg, gen::fill(3, 20_000))]),
    ];
    let il = gen::ilst_node(&mut z, &vec![(Id::F(*b"\xa9alb"), vec![Val::text(Ty::Utf8, "album")])], false);
    let moov = |k: Vec<mp4::Node>| mp4::cont(b"moov", k);
    let udta = || mp4::cont(b"udta", vec![mp4::full(b"meta", vec![0; 4], vec![il.clone()])]);
    for (kids, tail) in [(vec![], 0), (vec![udta()], 0), (vec![udta()], 9_000), (vec![], 30_000)] {
        let b = mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), moov(kids), mp4::leaf(b"mdat", gen::fill(9, tail))]);
        for items in [&tag, &vec![]] {
            all(&b, items, &mut z, c, 10_000)?;
        }
    }
    handles(&model::to_tag(&tag), &mp4::encode(&[mp4::leaf(b"ftyp", b"M4A ".to_vec()), moov(vec![udta()])]))
}

/// Paths and handles that cannot be read or written.
fn handles(tag: &Tag, b: &[u8]) -> Res {
    use std::fs::{self, File, OpenOptions};
    let dir = Scratch::new();
    let good = dir.file(b);
    let gone = dir.0.join("missing").join("f.m4a");
    let absent = dir.0.join("absent.m4a");
    let io = |e: std::io::Error| Fail { sig: "harness-error".into(), msg: e.to_string() };
    let read_only = File::open(&good).map_err(io)?;
    let write_only = OpenOptions::new().write(true).open(&good).map_err(io)?;
    let outcomes = [
        ("reading a missing file", Tag::read_from_path(&absent).err()),
        ("reading a directory", Tag::read_from_path(&dir.0).err()),
        ("writing to a missing file", tag.write_to_path(&absent).err()),
        ("writing to a directory", tag.write_to_path(&dir.0).err()),
        ("writing to a file in a missing directory", tag.write_to_path(&gone).err()),
        ("dumping to a file in a missing directory", tag.dump_to_path(&gone).err()),
        ("dumping to a directory", tag.dump_to_path(&dir.0).err()),
        ("writing to a handle that is only readable", tag.write_to(&read_only).err()),
        ("writing to a handle that is only writable", tag.write_to(&write_only).err()),
        ("reading from a handle that is only writable", Tag::read_from(&mut &write_only).err()),
        ("dumping to a handle that is only readable", tag.dump_to(&mut &read_only).err()),
    ];
    for (what, e) in outcomes {
        match e.map(|e| e.kind) {
            Some(ErrorKind::Io(_)) => {}
            Some(k) => return fail("other-error", format!("{what} is reported as {k:?}")),
            None => return fail("silent", format!("{what} reported success")),
        }
    }
    if absent.exists() || gone.exists() {
        return fail("created", "writing to a missing file created it");
    }
    match fs::read(&good) {
        Ok(x) if x == b => Ok(()),
        _ => fail("refused-but-changed", "writing through an unsuitable handle changed the file"),
    }
}
