//! The outcome of a call depends on nothing but its arguments.
use super::{c05, c06};
use crate::engine::*;
use crate::fault;
use crate::model::{self, diff, flat, merge, of_tag, Id, Items, Val};
use crate::mp4;
use crate::util::{self, Mem, Scratch};
use crate::gen;
use mp4ameta::{AudioInfo, Tag};
use std::fmt::Write as _;
use std::fs;
use std::io::{self, BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    fixed,
    enumerated: None,
    quick: 50_000,
    thorough: 1_500_000,
    level: "exploration",
    rule: "up to 4 contents (valid containers, others of the same length that differ in one letter of a value, broken \
           ones), up to 3 tags, and up to 5 calls (read, write, dump, display, edit) on them. Every outcome is taken once and \
           compared with an independent parser; then the calls are repeated in another order, after calls that failed or \
           unwound half-way, inside the I/O operations of one another, on threads that take turns at I/O operations as a \
           generated schedule says, and by path on one path whose content is replaced, keeping its length and times. Every outcome must \
           be the same as alone. Non-trivial: two calls with different outcomes. Distinct by contents, tags and calls.",
    assumptions: &["schedules switch threads at I/O operations only"],
};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Call {
    /// content, kind of reader
    Read(usize, u64),
    /// tag, content
    Write(usize, usize),
    Dump(usize),
    Show(usize),
    Edit(usize, u64),
}

struct World {
    contents: Vec<Vec<u8>>,
    tags: Vec<Items>,
}

#[derive(Clone, PartialEq)]
enum Out {
    Tag { items: Vec<(Id, Val)>, ftyp: String, info: AudioInfo, text: String },
    Done(Vec<u8>),
    Text(String),
    Err(String, Vec<u8>),
    Panic(String),
}

impl Out {
    fn show(&self) -> String {
        let mut t = match self {
            Out::Tag { items, ftyp, info, .. } => format!("tag {items:?} {ftyp:?} {info:?}"),
            Out::Done(b) => format!("{} bytes", b.len()),
            Out::Text(t) => format!("{t:?}"),
            Out::Err(e, b) => format!("error {e} and {} bytes", b.len()),
            Out::Panic(p) => format!("panic {p}"),
        };
        if let Some((i, _)) = t.char_indices().nth(300) {
            t.truncate(i);
        }
        t
    }
    fn of(t: &Tag) -> Out {
        Out::Tag { items: of_tag(t), ftyp: t.filetype().to_string(), info: t.audio_info().clone(), text: t.to_string() }
    }
}

/// What is to happen before an I/O operation.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Then {
    Go,
    Fail,
    Unwind,
}

type Hook = Box<dyn FnMut() -> Then>;

struct Hooked<T>(T, Hook);

impl<T> Hooked<T> {
    fn op(&mut self) -> io::Result<()> {
        match (self.1)() {
            Then::Go => Ok(()),
            Then::Fail => Err(io::Error::new(io::ErrorKind::Other, "injected")),
            Then::Unwind => resume_unwind(Box::new("injected")),
        }
    }
}
impl<T: Read> Read for Hooked<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        self.0.read(b)
    }
}
impl<T: Seek> Seek for Hooked<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.op()?;
        self.0.seek(p)
    }
}
impl<T: Write> Write for Hooked<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.op()?;
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op()?;
        self.0.flush()
    }
}
impl std::fmt::Write for Hooked<&mut String> {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.op().map_err(|_| std::fmt::Error)?;
        self.0.push_str(t);
        Ok(())
    }
}

fn exec(w: &World, call: Call, hook: Hook) -> Out {
    match catch_unwind(AssertUnwindSafe(|| exec_(w, call, hook))) {
        Ok(o) => o,
        Err(p) => Out::Panic(match p.downcast_ref::<&str>() {
            Some(t) => t.to_string(),
            None => p.downcast_ref::<String>().cloned().unwrap_or_default(),
        }),
    }
}

fn exec_(w: &World, call: Call, mut hook: Hook) -> Out {
    match call {
        Call::Read(i, how) => {
            let b = &w.contents[i][..];
            let r = match how {
                0 => Tag::read_from(&mut Hooked(Cursor::new(b), hook)),
                1 => Tag::read_from(&mut BufReader::new(Hooked(Cursor::new(b), hook))),
                _ => {
                    let m = Mem::new(b);
                    let mut f = &m.0;
                    fault::hooked(m.fd(), Box::new(move || drop(hook())), || Tag::read_from(&mut f))
                }
            };
            match r {
                Ok(t) => Out::of(&t),
                Err(e) => Out::Err(format!("{} {}", util::kind(&e), e.description), vec![]),
            }
        }
        Call::Write(t, i) => {
            let tag = model::to_tag(&w.tags[t]);
            let m = Mem::new(&w.contents[i]);
            let fd = m.fd();
            let r = fault::hooked(fd, Box::new(move || drop(hook())), || tag.write_to(&m.0));
            let b = m.get();
            match r {
                Ok(()) => Out::Done(b),
                Err(e) => Out::Err(format!("{} {}", util::kind(&e), e.description), b),
            }
        }
        Call::Dump(t) => {
            let mut b = vec![];
            match model::to_tag(&w.tags[t]).dump_to(&mut Hooked(&mut b, hook)) {
                Ok(()) => Out::Done(b),
                Err(e) => Out::Err(format!("{} {}", util::kind(&e), e.description), b),
            }
        }
        Call::Show(t) => {
            let mut x = String::new();
            match write!(Hooked(&mut x, hook), "{}", model::to_tag(&w.tags[t])) {
                Ok(()) => Out::Text(x),
                Err(_) => Out::Err("fmt".into(), x.into_bytes()),
            }
        }
        Call::Edit(t, how) => {
            let mut t = model::to_tag(&w.tags[t]);
            match how {
                0 => t.add_genre("Rock"),
                1 => t.set_genre("a genre of its own"),
                2 => t.set_track(3, 4),
                3 => t.remove_total_discs(),
                4 => t.add_artist("artist"),
                5 => drop(t.take_artworks().count()),
                6 => t.remove_data_of(&mp4ameta::ident::TITLE),
                7 => t.set_lyricist("lyricist"),
                8 => t.retain_data(|_, d| d.is_string()),
                9 => t.clear(),
                10 => t.set_bpm(120),
                _ => t.set_compilation(),
            }
            Out::of(&t)
        }
    }
}

fn alone(w: &World, call: Call) -> Out {
    exec(w, call, Box::new(|| Then::Go))
}

/// The outcome of every call alone, checked against what can be known independently.
fn reference(w: &World, calls: &[Call], infos: &[Option<(AudioInfo, String)>]) -> Result<Vec<Out>, Fail> {
    let mut outs = vec![];
    for call in calls {
        let o = alone(w, *call);
        let wrong = |m: String| Err(Fail { sig: "wrong".into(), msg: format!("{call:?}: {m}") });
        match (call, &o) {
            (_, Out::Panic(p)) => return Err(Fail { sig: "panic".into(), msg: format!("{call:?}: {p}") }),
            (Call::Read(i, _), o) => {
                if let Some((info, ftyp)) = &infos[*i] {
                    let want = flat(&merge(&c05::independent(&w.contents[*i]).map_err(|e| Fail { sig: "harness-error".into(), msg: e })?));
                    match o {
                        Out::Tag { items, ftyp: f, info: a, .. } => {
                            if let Some(d) = diff(&want, items) {
                                return wrong(d);
                            }
                            if a != info || f != ftyp {
                                return wrong(format!("{a:?} {f:?} instead of {info:?} {ftyp:?}"));
                            }
                        }
                        o => return wrong(o.show()),
                    }
                }
            }
            (Call::Write(t, i), o) => {
                if infos[*i].is_some() {
                    match o {
                        Out::Done(b) => match c05::independent(b) {
                            Ok(x) => {
                                if let Some(d) = diff(&flat(&merge(&w.tags[*t])), &flat(&x)) {
                                    return wrong(d);
                                }
                            }
                            Err(e) => return wrong(e),
                        },
                        o => return wrong(o.show()),
                    }
                }
            }
            (Call::Dump(t), o) => match o {
                Out::Done(b) => match c05::independent(b) {
                    Ok(x) => {
                        if let Some(d) = diff(&flat(&merge(&w.tags[*t])), &flat(&x)) {
                            return wrong(d);
                        }
                    }
                    Err(e) => return wrong(e),
                },
                o => return wrong(o.show()),
            },
            _ => {}
        }
        outs.push(o);
    }
    Ok(outs)
}

fn same(want: &Out, got: &Out, call: Call, when: &str) -> Res {
    if want != got {
        let d = match (want, got) {
            (Out::Done(a), Out::Done(b)) => format!(" ({})", util::bdiff(a, b)),
            _ => String::new(),
        };
        return fail("differs", format!("{call:?} {when}: {} instead of {}{d}", got.show(), want.show()));
    }
    Ok(())
}

/// Threads take turns at I/O operations.
struct Sched {
    st: Mutex<St>,
    cv: Condvar,
}
struct St {
    turn: usize,
    done: Vec<bool>,
    plan: Vec<(usize, u32)>,
    pos: usize,
    left: u32,
    switches: u32,
    /// Operations so far.
    ops: u64,
}
impl St {
    fn next(&mut self) {
        let n = self.done.len();
        let (to, len) = self.plan.get(self.pos).copied().unwrap_or((self.turn + 1, 40));
        self.pos += 1;
        self.left = len;
        let from = self.turn;
        for k in 0..n {
            let t = (to + k) % n;
            if !self.done[t] {
                self.turn = t;
                break;
            }
        }
        if self.turn != from {
            self.switches += 1;
        }
    }
}
impl Sched {
    /// Waits for the turn; takes it if the thread whose turn it is doesn't get on, because it
    /// waits for something another thread holds.
    fn turn<'a>(&self, mut st: MutexGuard<'a, St>, id: usize) -> MutexGuard<'a, St> {
        let mut seen = st.ops;
        let mut still = 0;
        while st.turn != id {
            let (s, t) = self.cv.wait_timeout(st, Duration::from_millis(20)).unwrap();
            st = s;
            if t.timed_out() {
                still = if st.ops == seen { still + 1 } else { 0 };
                seen = st.ops;
                if still > 2 {
                    st.turn = id;
                }
            }
        }
        st
    }
    fn wait(&self, id: usize) {
        drop(self.turn(self.st.lock().unwrap(), id));
    }
    fn op(&self, id: usize) {
        let mut st = self.turn(self.st.lock().unwrap(), id);
        st.ops += 1;
        if st.left > 0 {
            st.left -= 1;
            return;
        }
        st.next();
        if st.turn != id {
            self.cv.notify_all();
            drop(self.turn(st, id));
        }
    }
    fn finish(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[id] = true;
        st.ops += 1;
        st.next();
        self.cv.notify_all();
    }
}

/// Runs jobs on threads of their own. Threads that all sleep for seconds, though they only have calls
/// to make that take microseconds, wait for one another.
fn together<T: Send + 'static>(jobs: Vec<Box<dyn FnOnce() -> T + Send>>) -> Result<Vec<T>, Fail> {
    let n = jobs.len();
    let (tx, rx) = channel();
    for (i, j) in jobs.into_iter().enumerate() {
        let tx = tx.clone();
        std::thread::spawn(move || drop(tx.send((i, j()))));
    }
    drop(tx);
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let mut asleep = 0;
    while out.iter().any(Option::is_none) {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok((i, t)) => {
                out[i] = Some(t);
                asleep = 0;
            }
            Err(RecvTimeoutError::Disconnected) => return Err(Fail { sig: "harness-error".into(), msg: "a thread died".into() }),
            Err(RecvTimeoutError::Timeout) => {
                let states: Vec<String> = fs::read_dir("/proc/self/task")
                    .into_iter()
                    .flatten()
                    .flatten()
                    .filter(|e| e.file_name().to_string_lossy() != std::process::id().to_string())
                    .filter_map(|e| fs::read_to_string(e.path().join("stat")).ok())
                    .filter_map(|t| Some(t.rsplit_once(") ")?.1.get(..1)?.to_string()))
                    .collect();
                asleep = if !states.is_empty() && states.iter().all(|s| s == "S") { asleep + 1 } else { 0 };
                if asleep >= 60 {
                    return Err(Fail { sig: "deadlock".into(), msg: "calls wait for one another forever".into() });
                }
            }
        }
    }
    Ok(out.into_iter().flatten().collect())
}

/// Another content of the same length: one letter of one text differs.
fn twin(s: &mut Src, b: &[u8]) -> Option<Vec<u8>> {
    let t = mp4::parse(b).ok()?;
    let il = t.iter().find(|n| &n.cc == b"moov")?.find(b"udta")?.find(b"meta")?.find(b"ilst")?.clone();
    let mut at = vec![];
    for n in il.kids.iter().flatten().flat_map(|i| i.kids.iter().flatten()).filter(|n| &n.cc == b"data") {
        let p = n.pos + n.head;
        if n.end() > p + 8 && b[p..p + 4] == [0, 0, 0, 1] {
            at.extend((p + 8..n.end()).filter(|i| b[*i].is_ascii_alphabetic()));
        }
    }
    if at.is_empty() {
        return None;
    }
    let i = *s.pick(&at);
    let mut b = b.to_vec();
    b[i] = if b[i] == b'q' { b'r' } else { b'q' };
    Some(b)
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let mut w = World { contents: vec![], tags: vec![] };
    let mut infos: Vec<Option<(AudioInfo, String)>> = vec![];
    let mut damaged = vec![];
    let mut base: Vec<Items> = vec![];
    for k in 0..1 + s.idx(4) {
        let i = s.idx(k.max(1));
        match s.weighted(&[4, 4, 1, 1]) {
            1 if k > 0 => {
                if let Some(b) = twin(s, &w.contents[i]).filter(|_| infos[i].is_some()) {
                    c.label("content of the same length");
                    w.contents.push(b);
                    infos.push(infos[i].clone());
                    continue;
                }
            }
            2 if k > 0 => {
                let mut b = w.contents[i].clone();
                let n = s.idx(b.len() + 1);
                b.truncate(n);
                c.label("truncated content");
                if damaged.contains(&i) {
                    damaged.push(w.contents.len());
                }
                w.contents.push(b);
                infos.push(None);
                continue;
            }
            3 if k > 0 => {
                let mut b = w.contents[i].clone();
                for _ in 0..1 + s.idx(4) {
                    let n = s.idx(b.len().max(1));
                    if let Some(x) = b.get_mut(n) {
                        *x = s.u8();
                    }
                }
                c.label("damaged content");
                damaged.push(w.contents.len());
                w.contents.push(b);
                infos.push(None);
                continue;
            }
            _ => {}
        }
        let f = gen::file(s, &gen::SMALL);
        base.push(f.items.clone());
        w.contents.push(f.bytes());
        infos.push(Some((c06::expected(f.mvhd, &f.audio), f.ftyp.clone())));
    }
    for _ in 0..1 + s.idx(3) {
        let b = if base.is_empty() { vec![] } else { s.pick(&base).clone() };
        w.tags.push(gen::related(s, &b, 4, false));
    }
    let mut calls = vec![];
    for _ in 0..2 + s.idx(4) {
        let (i, t) = (s.idx(w.contents.len()), s.idx(w.tags.len()));
        calls.push(match s.weighted(&[5, 4, 2, 1, 1]) {
            0 => Call::Read(i, s.below(3)),
            1 => Call::Write(t, i),
            2 => Call::Dump(t),
            3 => Call::Show(t),
            _ => Call::Edit(t, s.below(12)),
        });
    }
    c.key(&(&w.contents, format!("{:?}", w.tags), format!("{calls:?}")));
    c.describe(|| format!("contents {:?}, tags {:?}, calls {calls:?}", w.contents.iter().map(|b| b.len()).collect::<Vec<_>>(), w.tags));
    let want = reference(&w, &calls, &infos)?;
    c.nontrivial = want.iter().any(|o| *o != want[0]);
    let w = Arc::new(w);

    // again, after calls that were broken off
    let mut order: Vec<usize> = (0..calls.len()).collect();
    s.shuffle(&mut order);
    for &k in &order {
        if s.bool() {
            let j = s.idx(calls.len());
            let mut at = s.below(40);
            let then = *s.pick(&[Then::Fail, Then::Unwind]);
            let hit = Arc::new(Mutex::new(false));
            let h = hit.clone();
            exec(&w, calls[j], Box::new(move || {
                if at == 0 {
                    *h.lock().unwrap() = true;
                    return then;
                }
                at -= 1;
                Then::Go
            }));
            if *hit.lock().unwrap() {
                c.label(if then == Then::Fail { "after a failure" } else { "after unwinding" });
            }
        }
        c.evals += 1;
        same(&want[k], &alone(&w, calls[k]), calls[k], "again")?;
    }

    // after the same call many times
    if s.chance(1, 40) {
        let (j, k) = (s.idx(calls.len()), s.idx(calls.len()));
        let n = 1 + s.below(300);
        let broken = s.bool();
        let at = s.below(40);
        for _ in 0..n {
            let mut left = at;
            exec(&w, calls[j], Box::new(move || {
                let then = if left == 0 && broken { Then::Unwind } else { Then::Go };
                left = left.wrapping_sub(1);
                then
            }));
        }
        c.evals += 1;
        c.label("after the same call many times");
        same(&want[k], &alone(&w, calls[k]), calls[k], &format!("after {n} times {:?}", calls[j]))?;
    }

    // inside one another
    if s.chance(2, 3) {
        // around: calls that are given a reader or writer, which may do anything
        let j = s.idx(calls.len());
        let outer = match calls[j] {
            Call::Write(t, _) => Call::Dump(t),
            Call::Read(i, 2) => Call::Read(i, 0),
            o => o,
        };
        let alone_outer = if outer == calls[j] { want[j].clone() } else { alone(&w, outer) };
        let mut plan: Vec<(u64, usize)> = (0..1 + s.idx(3)).map(|_| (s.below(60), s.idx(calls.len()))).collect();
        plan.sort_unstable();
        let (w2, calls2) = (w.clone(), calls.clone());
        let mut done = together(vec![Box::new(move || {
            let outs = Arc::new(Mutex::new(vec![]));
            let o = outs.clone();
            let mut n = 0;
            let w3 = w2.clone();
            let got = exec(&w2, outer, Box::new(move || {
                for (at, k) in &plan {
                    if *at == n {
                        let r = alone(&w3, calls2[*k]);
                        o.lock().unwrap().push((*k, r));
                    }
                }
                n += 1;
                Then::Go
            }));
            let outs = outs.lock().unwrap().clone();
            (got, outs)
        })])?;
        let (got, outs) = done.remove(0);
        c.evals += 1 + outs.len() as u64;
        c.label_if(!outs.is_empty(), "inside another call");
        same(&alone_outer, &got, outer, &format!("around {:?}", outs.iter().map(|o| calls[o.0]).collect::<Vec<_>>()))?;
        for (k, o) in outs.iter() {
            same(&want[*k], o, calls[*k], &format!("inside {outer:?}"))?;
        }
    }

    // on threads
    if s.chance(1, 3) {
        let n = if s.chance(1, 5) { 4 + s.idx(6) } else { 2 + s.idx(2) };
        let one = s.chance(1, 4).then(|| s.idx(calls.len()));
        let lists: Vec<Vec<usize>> = (0..n).map(|_| (0..1 + s.idx(3)).map(|_| one.unwrap_or_else(|| s.idx(calls.len()))).collect()).collect();
        let plan: Vec<(usize, u32)> = if n > 3 && s.chance(3, 4) {
            // everyone is in the middle of a call
            c.label("many calls at once");
            let first = s.below(20) as u32;
            (1..n).map(|t| (t, first)).collect()
        } else {
            (0..s.idx(4 * n)).map(|_| (s.idx(n), s.below(30) as u32)).collect()
        };
        let sched = Arc::new(Sched {
            st: Mutex::new(St { turn: 0, done: vec![false; n], plan, pos: 0, left: s.below(20) as u32, switches: 0, ops: 0 }),
            cv: Condvar::new(),
        });
        let jobs: Vec<Box<dyn FnOnce() -> Vec<(usize, Out)> + Send>> = lists
            .iter()
            .cloned()
            .enumerate()
            .map(|(id, list)| {
                let (sched, w, calls) = (sched.clone(), w.clone(), calls.clone());
                Box::new(move || {
                    sched.wait(id);
                    let mut outs = vec![];
                    for k in list {
                        let sc = sched.clone();
                        outs.push((k, exec(&w, calls[k], Box::new(move || {
                            sc.op(id);
                            Then::Go
                        }))));
                    }
                    sched.finish(id);
                    outs
                }) as Box<dyn FnOnce() -> Vec<(usize, Out)> + Send>
            })
            .collect();
        let outs = together(jobs)?;
        c.label_if(sched.st.lock().unwrap().switches > n as u32, "threads taking turns");
        for o in outs {
            for (k, o) in o {
                c.evals += 1;
                same(&want[k], &o, calls[k], &format!("on threads that run {:?}", lists.iter().map(|l| l.iter().map(|k| calls[*k]).collect::<Vec<_>>()).collect::<Vec<_>>()))?;
            }
        }
    }

    // on one path
    if s.chance(1, 3) {
        let dir = Scratch::new();
        let p = dir.file(b"");
        let io = |e: io::Error| Fail { sig: "harness-error".into(), msg: e.to_string() };
        let put = |s: &mut Src, b: &[u8]| -> io::Result<()> {
            match s.below(3) {
                0 => fs::write(&p, b)?,
                1 => {
                    fs::remove_file(&p)?;
                    fs::write(&p, b)?;
                }
                _ => {
                    fs::write(dir.0.join("new"), b)?;
                    fs::rename(dir.0.join("new"), &p)?;
                }
            }
            let f = fs::OpenOptions::new().write(true).open(&p)?;
            f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000))
        };
        let mut done = vec![];
        for _ in 0..2 + s.idx(4) {
            let k = s.idx(calls.len());
            // file systems differ in how far beyond the end of a file one can seek
            if matches!(calls[k], Call::Read(i, _) | Call::Write(_, i) if damaged.contains(&i)) {
                continue;
            }
            let (o, open) = match calls[k] {
                Call::Read(i, _) => {
                    put(s, &w.contents[i]).map_err(io)?;
                    // a file may be open elsewhere
                    let open = s.bool().then(|| fs::OpenOptions::new().read(true).write(true).open(&p));
                    let o = match Tag::read_from_path(&p) {
                        Ok(t) => Out::of(&t),
                        Err(e) => Out::Err(format!("{} {}", util::kind(&e), e.description), vec![]),
                    };
                    (o, open)
                }
                Call::Write(t, i) => {
                    put(s, &w.contents[i]).map_err(io)?;
                    let open = s.bool().then(|| fs::OpenOptions::new().read(true).write(true).open(&p));
                    let r = model::to_tag(&w.tags[t]).write_to_path(&p);
                    let b = fs::read(&p).map_err(io)?;
                    let o = match r {
                        Ok(()) => Out::Done(b),
                        Err(e) => Out::Err(format!("{} {}", util::kind(&e), e.description), b),
                    };
                    (o, open)
                }
                Call::Dump(t) => {
                    let r = model::to_tag(&w.tags[t]).dump_to_path(&p);
                    let b = fs::read(&p).map_err(io)?;
                    let o = match r {
                        Ok(()) => Out::Done(b),
                        Err(e) => Out::Err(format!("{} {}", util::kind(&e), e.description), b),
                    };
                    (o, None)
                }
                _ => continue,
            };
            drop(open);
            c.evals += 1;
            c.label_if(!done.is_empty(), "path used again");
            same(&want[k], &o, calls[k], &format!("by path, after {done:?}"))?;
            done.push(calls[k]);
        }
    }
    Ok(())
}

/// Whether a type has an auto trait, without failing to build if it hasn't.
struct SendProbe<T: ?Sized>(std::marker::PhantomData<T>);
struct SyncProbe<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const HAS: bool = false;
}
impl<T: ?Sized> No for SendProbe<T> {}
impl<T: ?Sized> No for SyncProbe<T> {}
impl<T: ?Sized + Send> SendProbe<T> {
    const HAS: bool = true;
}
impl<T: ?Sized + Sync> SyncProbe<T> {
    const HAS: bool = true;
}

fn fixed(c: &mut Ctx) -> Res {
    macro_rules! traits {
        ($($t:ty),* $(,)?) => { [$((stringify!($t), <SendProbe<$t>>::HAS, <SyncProbe<$t>>::HAS)),*] };
    }
    let l = traits![
        Tag,
        mp4ameta::Data,
        mp4ameta::DataIdent,
        mp4ameta::Fourcc,
        mp4ameta::FreeformIdent<'static>,
        AudioInfo,
        mp4ameta::Error,
        mp4ameta::ErrorKind,
        mp4ameta::ImgBuf,
        mp4ameta::ImgRef<'static>,
        mp4ameta::ImgMut<'static>,
        mp4ameta::ImgFmt,
        mp4ameta::MediaType,
        mp4ameta::AdvisoryRating,
        mp4ameta::ChannelConfig,
        mp4ameta::SampleRate,
    ];
    for (t, send, sync) in l {
        c.evals += 1;
        if !send || !sync {
            return fail("thread-bound", format!("{t} cannot be used on several threads (Send {send}, Sync {sync})"));
        }
    }
    if <SendProbe<std::rc::Rc<u8>>>::HAS || <SyncProbe<std::cell::Cell<u8>>>::HAS {
        return fail("harness-error", "the probes see nothing");
    }
    often(c)
}

/// The same call tens of thousands of times.
fn often(c: &mut Ctx) -> Res {
    let items: Items = vec![(model::Id::F(*b"\xa9nam"), vec![model::Val { ty: model::Ty::Utf8, s: "often".into(), b: vec![] }])];
    let tag = model::to_tag(&items);
    let mut b = vec![];
    if let Err(e) = tag.dump_to(&mut b) {
        return fail("wrong", format!("dumping fails: {e:?}"));
    }
    let w = World { contents: vec![b], tags: vec![items] };
    let n = if c.thorough { 1 << 18 } else { (1 << 16) + 1000 };
    for call in [Call::Read(0, 0), Call::Dump(0), Call::Show(0), Call::Edit(0, 1), Call::Write(0, 0)] {
        let want = alone(&w, call);
        for k in 1..n {
            let got = alone(&w, call);
            if want != got {
                return same(&want, &got, call, &format!("after {k} times the same"));
            }
        }
        c.evals += 1;
    }
    Ok(())
}
