//! Errors carry what went wrong.
use super::c20::{self, matches, Defect, Who};
use crate::engine::*;
use crate::fault::{self, Kind};
use crate::model::{self, Items};
use crate::mp4::{self, Cc};
use crate::{gen, util};
use mp4ameta::{Error, ErrorKind, Fourcc, Tag};
use std::error::Error as _;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    fixed,
    enumerated: None,
    quick: 1_000_000,
    thorough: 20_000_000,
    level: "exploration",
    rule: "errors made in five ways: a valid file with one defect (the places and defects of C20); a valid file that ends inside of \
           the head of a nested atom or the value of an item; a random operation of reading, \
           writing or dumping failing with a random kind of I/O error that carries a unique payload; conversions of I/O, utf-8 \
           and utf-16 errors; errors built from a random kind and description. The cause reachable through the standard error \
           trait, the stored kind and data, the description's chain of enclosing atoms, and both textual forms are compared \
           with what was put in. Non-trivial: an error was examined. Distinct by file bytes and fault, or by the error built.",
    assumptions: &["the wording of descriptions is free; they have to name the enclosing atoms from the outside to the inside and to appear in the textual forms"],
};

/// The textual forms hold the kind's and the description.
fn texts(e: &Error, what: &str) -> Res {
    let kind = format!("{:?}", e.kind);
    if kind.is_empty() {
        return fail("text", format!("{what}: the textual form of the kind is empty"));
    }
    for (form, t) in [("Display", e.to_string()), ("alternate Display", format!("{e:#}")), ("Debug", format!("{e:?}")), ("alternate Debug", format!("{e:#?}"))] {
        if !t.contains(&e.description) {
            return fail("text", format!("{what}: the {form} form {t:?} lacks the description {:?}", e.description));
        }
        // the kind in some form: at least its name
        let name: String = kind.chars().take_while(|c| c.is_alphanumeric()).collect();
        if !t.contains(&name) {
            return fail("text", format!("{what}: the {form} form {t:?} lacks the kind {name}"));
        }
        let data: Vec<String> = match &e.kind {
            ErrorKind::AtomNotFound(f) => vec![f.to_string()],
            ErrorKind::DescriptorNotFound(x) | ErrorKind::UnknownChannelConfig(x) | ErrorKind::UnknownMediaType(x) | ErrorKind::UnknownVersion(x) => vec![x.to_string()],
            ErrorKind::UnknownDataType(x) => vec![x.to_string()],
            _ => vec![],
        };
        for d in data {
            if !t.contains(&d) {
                return fail("text", format!("{what}: the {form} form {t:?} lacks the value {d}"));
            }
        }
    }
    Ok(())
}

/// The cause of an I/O error is reachable, for others there is either none or the decoding error.
fn source(e: &Error, what: &str) -> Res {
    let s = e.source();
    match &e.kind {
        ErrorKind::Io(x) => match s.and_then(|s| s.downcast_ref::<io::Error>()) {
            Some(y) if std::ptr::eq(x, y) => Ok(()),
            Some(y) if x.kind() == y.kind() && x.raw_os_error() == y.raw_os_error() && x.to_string() == y.to_string() => Ok(()),
            _ => fail("no-cause", format!("{what}: the source of {e:?} is {s:?} instead of the I/O error")),
        },
        ErrorKind::Utf8StringDecoding(x) => match s {
            None => Ok(()),
            Some(s) if s.to_string() == x.to_string() => Ok(()),
            Some(s) => fail("wrong-cause", format!("{what}: the source of {e:?} is {s:?}")),
        },
        ErrorKind::Utf16StringDecoding(x) => match s {
            None => Ok(()),
            Some(s) if s.to_string() == x.to_string() => Ok(()),
            Some(s) => fail("wrong-cause", format!("{what}: the source of {e:?} is {s:?}")),
        },
        _ => match s {
            None => Ok(()),
            Some(s) => fail("wrong-cause", format!("{what}: {e:?} has the source {s:?}")),
        },
    }
}

fn shape(e: &Error, what: &str) -> Res {
    texts(e, what)?;
    source(e, what)
}

/// The description names the enclosing atoms from the outside to the inside.
fn named(e: &Error, path: &[Cc], what: &str) -> Res {
    let mut rest = e.description.as_str();
    for cc in path {
        let name = Fourcc(*cc).to_string();
        match rest.find(&name) {
            Some(i) => rest = &rest[i + name.len()..],
            None => {
                let p: Vec<_> = path.iter().map(|c| Fourcc(*c).to_string()).collect();
                return fail("no-context", format!("{what} inside of {p:?}: the description {:?} does not name these atoms in order", e.description));
            }
        }
    }
    Ok(())
}

#[derive(Debug)]
struct Payload(u64);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "payload {}", self.0)
    }
}
impl std::error::Error for Payload {}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
];

/// A stream whose operation `at` fails.
struct Bad<T> {
    t: T,
    at: u64,
    ops: u64,
    kind: io::ErrorKind,
    id: u64,
}
impl<T> Bad<T> {
    fn step(&mut self) -> io::Result<()> {
        self.ops += 1;
        if self.ops == self.at {
            return Err(io::Error::new(self.kind, Payload(self.id)));
        }
        Ok(())
    }
}
impl<T: Read> Read for Bad<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        self.t.read(b)
    }
}
impl<T: Seek> Seek for Bad<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step()?;
        self.t.seek(p)
    }
}
impl<T: Write> Write for Bad<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.step()?;
        self.t.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step()?;
        self.t.flush()
    }
}

/// The error is the injected one, with everything it carries.
fn injected(e: &Error, kind: io::ErrorKind, id: u64, what: &str) -> Res {
    shape(e, what)?;
    let ErrorKind::Io(x) = &e.kind else {
        return fail("other-error", format!("{what}: the I/O failure is reported as {e:?}"));
    };
    let carried = |x: &io::Error| x.kind() == kind && x.get_ref().and_then(|p| p.downcast_ref::<Payload>()).map(|p| p.0) == Some(id);
    if !carried(x) {
        return fail("other-io-error", format!("{what}: the failure of kind {kind:?} with payload {id} is reported as {e:?}"));
    }
    match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
        Some(y) if carried(y) => Ok(()),
        s => fail("no-cause", format!("{what}: the source is {s:?}")),
    }
}

fn streams(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::SMALL);
    let tag = model::to_tag(&gen::items(s, 3, false));
    let b = f.bytes();
    let kind = *s.pick(KINDS);
    let id = s.u64();
    let dumps = s.bool();
    let run = |at: u64| -> (Option<Error>, u64, Vec<u8>) {
        if dumps {
            let mut w = Bad { t: vec![], at, ops: 0, kind, id };
            (tag.dump_to(&mut w).err(), w.ops, w.t)
        } else {
            let mut r = Bad { t: Cursor::new(&b[..]), at, ops: 0, kind, id };
            (Tag::read_from(&mut r).err(), r.ops, vec![])
        }
    };
    let (e, n, full) = run(0);
    if let Some(e) = e {
        return fail("refused", format!("a valid file or tag is refused: {}", util::kind(&e)));
    }
    let at = 1 + s.below(n);
    c.key(&(&b, dumps, at, id, kind as u64));
    c.describe(|| format!("{} operation {at} of {n} fails with {kind:?}, file {}", if dumps { "dumping" } else { "reading" }, mp4::outlines(&f.top)));
    c.label(if dumps { "failing writer" } else { "failing reader" });
    // an error without consequence is C10's matter
    let (Some(e), _, part) = run(at) else { return Ok(()) };
    c.nontrivial = true;
    injected(&e, kind, id, &format!("operation {at} of {n}"))?;
    if dumps && part.len() < full.len() {
        // the atoms whose content was being written
        let mut path = vec![];
        let mut level = mp4::parse(&full).map_err(|e| Fail { sig: "harness-error".into(), msg: e })?;
        for cc in [b"moov", b"udta", b"meta", b"ilst"] {
            let Some(a) = level.into_iter().find(|a| a.cc == *cc && a.pos + a.head <= part.len() && part.len() < a.end()) else { break };
            path.push(a.cc);
            level = a.kids.unwrap_or_default();
        }
        c.label_if(path.len() > 3, "dump that ends inside of an item");
        named(&e, &path, &format!("dumping, operation {at} of {n} after {} bytes", part.len()))?;
    }
    Ok(())
}

fn files(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::SMALL);
    let tag = model::to_tag(&gen::items(s, 3, false));
    let b = f.bytes();
    let m = util::Mem::new(&b);
    fault::arm(m.fd(), Kind::None, -1, 1, i64::MAX);
    let r = tag.write_to(&m.0);
    let n = fault::disarm().ops;
    if let Err(e) = r {
        return fail("refused", format!("writing to a valid file failed: {}", util::kind(&e)));
    }
    if n == 0 {
        return fail("harness-error", "the file was not watched");
    }
    m.set(&b);
    let at = s.below(n as u64) as i64;
    let kind = if s.bool() { Kind::FailForever } else { Kind::Fail };
    fault::arm(m.fd(), kind, at, 1, i64::MAX);
    let r = tag.write_to(&m.0);
    let rep = fault::disarm();
    c.key(&(&b, at, kind as u64, model::of_tag(&tag)));
    c.label("failing file");
    let Err(e) = r else { return Ok(()) };
    c.nontrivial = true;
    let what = format!("{kind:?} at operation {at} of {n} ({:?})", rep.hit);
    c.describe(|| format!("{what}, file {}", mp4::outlines(&f.top)));
    shape(&e, &what)?;
    match &e.kind {
        ErrorKind::Io(x) if matches!(x.raw_os_error(), Some(libc::EIO | libc::ENOSPC)) => Ok(()),
        _ => fail("other-io-error", format!("{what}: reported as {e:?}")),
    }
}

fn defects(s: &mut Src, c: &mut Ctx) -> Res {
    let Some(Defect { top, tag, want, who, what, path }) = c20::defect(s) else { return Ok(()) };
    let b = mp4::encode(&top);
    c.key(&b);
    c.label("defect in a file");
    c.describe(|| format!("{what} ({who:?}, {want:?}) inside of {:?}: file {}", path.iter().map(|c| Fourcc(*c).to_string()).collect::<Vec<_>>(), mp4::outlines(&top)));
    let mut one = |r: Result<(), Error>, op: &str| -> Res {
        // which error it has to be is C20's matter
        let Err(e) = r else { return Ok(()) };
        c.nontrivial = true;
        c.evals += 1;
        shape(&e, op)?;
        if e.description.is_empty() && !matches!(e.kind, ErrorKind::Io(_)) {
            return fail("no-context", format!("{op} a file with {what}: the error {e:?} has no description"));
        }
        // tables are read on their own
        if !what.contains("chunk offset") && matches(&e, &want) {
            named(&e, &path, &format!("{op} a file with {what}"))?;
        }
        Ok(())
    };
    if who != Who::Write {
        one(util::read(&b).map(drop), "reading")?;
    }
    if who != Who::Read {
        one(util::write(&model::to_tag(&tag as &Items), &b).0, "writing to")?;
    }
    Ok(())
}

/// The places in which a file that ends there ends inside of something that has to be read: heads of the
/// children of the containers that are looked through, and values of items.
fn ends(n: &mp4::PNode, up: &[Cc], out: &mut Vec<(usize, usize, Vec<Cc>, bool)>) {
    const READ: &[&[&[u8; 4]]] = &[&[b"moov", b"udta", b"meta", b"ilst"], &[b"moov", b"trak", b"mdia", b"minf", b"stbl"]];
    let mut path = up.to_vec();
    path.push(n.cc);
    if !READ.iter().any(|r| path.len() <= r.len() && path.iter().zip(*r).all(|(a, b)| a == *b)) {
        return;
    }
    let items = n.cc == *b"ilst";
    for k in n.kids() {
        // at least one byte of the head is there, and one is missing
        out.push((k.pos + 1, k.pos + k.head, path.clone(), !items));
        if items && k.cc != *b"free" {
            if let Some(d) = k.kids().iter().find(|d| d.cc == *b"data") {
                // the locale is of no interest, but the type before it and the value after it are
                let typed = d.pos + d.head + 4;
                out.push((d.pos + 1, typed, path.clone(), false));
                if d.end() > typed + 4 {
                    out.push((typed, d.end(), path.clone(), false));
                }
            }
        }
        ends(k, &path, out);
    }
}

/// A file that ends too early inside of nested atoms.
fn broken(s: &mut Src, c: &mut Ctx) -> Res {
    let f = gen::file(s, &gen::SMALL);
    let tag = model::to_tag(&gen::items(s, 3, false));
    let b = f.bytes();
    let nodes = match mp4::parse(&b) {
        Ok(n) => n,
        Err(e) => return fail("harness-error", e),
    };
    let mut all = vec![];
    for n in &nodes {
        ends(n, &[], &mut all);
    }
    if all.is_empty() {
        return Ok(());
    }
    let (from, to, path, heads) = s.pick(&all).clone();
    if from >= to {
        return Ok(());
    }
    let cut = &b[..s.range(from as u64, to as u64 - 1) as usize];
    c.key(&cut);
    c.label("file that ends too early");
    c.describe(|| format!("the file ends after {} of {} bytes inside of {:?}: {}", cut.len(), b.len(), path.iter().map(|c| Fourcc(*c).to_string()).collect::<Vec<_>>(), mp4::outlines(&f.top)));
    let mut one = |r: Result<(), Error>, op: &str| -> Res {
        // that there has to be an error is C10's and C20's matter
        let Err(e) = r else { return Ok(()) };
        c.nontrivial = true;
        c.evals += 1;
        shape(&e, op)?;
        match e.kind {
            ErrorKind::Io(_) => named(&e, &path, &format!("{op} a file of {} bytes that ends after {}", b.len(), cut.len())),
            _ => Ok(()),
        }
    };
    one(util::read(cut).map(drop), "reading")?;
    if heads {
        one(util::write(&tag, cut).0, "writing to")?;
    }
    Ok(())
}

/// A kind of every variant and what has to be found in it again.
fn random_kind(s: &mut Src) -> (ErrorKind, String) {
    let b = s.u8();
    let d = s.u32();
    let invalid = gen::blob(s, false);
    match s.below(12) {
        0 => {
            let f = Fourcc(d.to_be_bytes());
            (ErrorKind::AtomNotFound(f), format!("{f}"))
        }
        1 => (ErrorKind::DescriptorNotFound(b), b.to_string()),
        2 => {
            let kind = KINDS[b as usize % KINDS.len()];
            let k = match b % 3 {
                0 => io::Error::from(kind),
                1 => io::Error::from_raw_os_error(1 + d as i32 % 30),
                _ => io::Error::new(kind, Payload(d.into())),
            };
            let t = if b % 3 == 2 { d.to_string() } else { String::new() };
            (ErrorKind::Io(k), t)
        }
        3 => (ErrorKind::NoTag, String::new()),
        4 => (ErrorKind::Parsing, String::new()),
        5 => (ErrorKind::UnknownChannelConfig(b), b.to_string()),
        6 => (ErrorKind::UnknownDataType(d), d.to_string()),
        7 => (ErrorKind::UnknownMediaType(b), b.to_string()),
        8 => (ErrorKind::UnknownVersion(b), b.to_string()),
        9 => match String::from_utf8([&invalid[..], &[0xff]].concat()) {
            Err(e) => (ErrorKind::Utf8StringDecoding(e), String::new()),
            Ok(_) => unreachable!(),
        },
        10 => match String::from_utf16(&[b as u16, 0xd800]) {
            Err(e) => (ErrorKind::Utf16StringDecoding(e), String::new()),
            Ok(_) => unreachable!(),
        },
        _ => (ErrorKind::UnwritableData, String::new()),
    }
}

fn built(s: &mut Src, c: &mut Ctx) -> Res {
    let long = s.chance(1, 50);
    let d = if s.chance(1, 5) { String::new() } else { gen::text(s, long) };
    let (kind, value) = random_kind(s);
    let before = format!("{kind:?}");
    c.key(&(&d, &before));
    c.describe(|| format!("error of kind {before} described as {d:?}"));
    c.nontrivial = true;
    c.label("error built");
    let e = Error::new(kind, d.clone());
    if e.description != d || format!("{:?}", e.kind) != before {
        return fail("built", format!("an error made of {before} and {d:?} is {:?} and {:?}", e.kind, e.description));
    }
    if !e.to_string().contains(&value) {
        return fail("text", format!("{:?} lacks the value {value:?}", e.to_string()));
    }
    shape(&e, "an error built")?;
    // boxed like applications do
    let boxed: Box<dyn std::error::Error> = Box::new(e);
    match boxed.downcast_ref::<Error>() {
        Some(x) if x.description == d => Ok(()),
        _ => fail("built", "a boxed error cannot be recovered"),
    }
}

fn converted(s: &mut Src, c: &mut Ctx) -> Res {
    c.label("error converted");
    c.nontrivial = true;
    match s.below(3) {
        0 => {
            let (kind, id) = (*s.pick(KINDS), s.u64());
            c.key(&(kind as u64, id));
            c.describe(|| format!("conversion of an I/O error {kind:?} with payload {id}"));
            injected(&Error::from(io::Error::new(kind, Payload(id))), kind, id, "conversion")?;
            let os = 1 + s.below(100) as i32;
            let e = Error::from(io::Error::from_raw_os_error(os));
            shape(&e, "conversion")?;
            match e.kind {
                ErrorKind::Io(x) if x.raw_os_error() == Some(os) => Ok(()),
                k => fail("converted", format!("the OS error {os} becomes {k:?}")),
            }
        }
        1 => {
            let mut b = gen::blob(s, false);
            b.push(0x80 | s.u8());
            b.extend(gen::blob(s, false));
            c.key(&b);
            c.describe(|| format!("conversion of the utf-8 error of {}", util::hex(&b)));
            let Err(x) = String::from_utf8(b.clone()) else { return Ok(()) };
            let e = Error::from(x.clone());
            shape(&e, "conversion")?;
            match &e.kind {
                ErrorKind::Utf8StringDecoding(y) if *y == x => Ok(()),
                k => fail("converted", format!("the utf-8 error {x:?} becomes {k:?}")),
            }
        }
        _ => {
            let mut u: Vec<u16> = gen::text(s, false).encode_utf16().collect();
            u.push(0xd800 + s.below(0x800) as u16);
            c.key(&u);
            c.describe(|| format!("conversion of the utf-16 error of {u:?}"));
            let Err(x) = String::from_utf16(&u) else { return Ok(()) };
            let t = x.to_string();
            let e = Error::from(x);
            shape(&e, "conversion")?;
            match &e.kind {
                ErrorKind::Utf16StringDecoding(y) if y.to_string() == t => Ok(()),
                k => fail("converted", format!("a utf-16 error becomes {k:?}")),
            }
        }
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    match s.weighted(&[8, 4, 2, 2, 1, 3]) {
        0 => defects(s, c),
        1 => streams(s, c),
        2 => files(s, c),
        3 => built(s, c),
        5 => broken(s, c),
        _ => converted(s, c),
    }
}

fn fixed(c: &mut Ctx) -> Res {
    // every kind of I/O error, and every value of the kinds with one byte
    for (i, kind) in KINDS.iter().enumerate() {
        c.evals += 1;
        injected(&Error::from(io::Error::new(*kind, Payload(i as u64))), *kind, i as u64, "conversion")?;
    }
    for v in 0..=255u8 {
        for k in [ErrorKind::DescriptorNotFound(v), ErrorKind::UnknownChannelConfig(v), ErrorKind::UnknownMediaType(v), ErrorKind::UnknownVersion(v), ErrorKind::UnknownDataType(v.into())] {
            for d in ["", "a description"] {
                c.evals += 1;
                shape(&Error::new(match k {
                    ErrorKind::DescriptorNotFound(v) => ErrorKind::DescriptorNotFound(v),
                    ErrorKind::UnknownChannelConfig(v) => ErrorKind::UnknownChannelConfig(v),
                    ErrorKind::UnknownMediaType(v) => ErrorKind::UnknownMediaType(v),
                    ErrorKind::UnknownDataType(v) => ErrorKind::UnknownDataType(v),
                    _ => ErrorKind::UnknownVersion(v),
                }, d.into()), "an error built")?;
            }
        }
    }
    // files that cannot be opened
    let dir = util::Scratch::new();
    let absent = dir.0.join("absent.m4a");
    for (what, e) in [("reading", Tag::read_from_path(&absent).err()), ("writing", Tag::default().write_to_path(&absent).err())] {
        let Some(e) = e else { return fail("silent", format!("{what} a missing file reported success")) };
        shape(&e, what)?;
        match &e.kind {
            ErrorKind::Io(x) if x.kind() == io::ErrorKind::NotFound => {}
            k => return fail("other-io-error", format!("{what} a missing file is reported as {k:?}")),
        }
    }
    Ok(())
}
