//! In-memory files, counting and misbehaving readers and writers.
use mp4ameta::{Error, ErrorKind, Tag};
use std::fs::File;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::os::unix::io::FromRawFd;

/// An anonymous in-memory file with the given content, positioned at the start.
pub struct Mem(pub File);

impl Mem {
    pub fn new(b: &[u8]) -> Mem {
        let fd = unsafe { libc::memfd_create(b"vh\0".as_ptr() as *const _, libc::MFD_CLOEXEC) };
        assert!(fd >= 0, "memfd_create failed");
        let m = Mem(unsafe { File::from_raw_fd(fd) });
        m.set(b);
        m
    }
    pub fn set(&self, b: &[u8]) {
        let mut f = &self.0;
        f.set_len(0).unwrap();
        f.seek(SeekFrom::Start(0)).unwrap();
        f.write_all(b).unwrap();
        f.seek(SeekFrom::Start(0)).unwrap();
    }
    /// Content from the start, leaving the position at the start.
    pub fn get(&self) -> Vec<u8> {
        let mut f = &self.0;
        f.seek(SeekFrom::Start(0)).unwrap();
        let mut v = Vec::new();
        f.read_to_end(&mut v).unwrap();
        f.seek(SeekFrom::Start(0)).unwrap();
        v
    }
    pub fn fd(&self) -> i32 {
        use std::os::unix::io::AsRawFd;
        self.0.as_raw_fd()
    }
    pub fn path(&self) -> String {
        format!("/proc/self/fd/{}", self.fd())
    }
}

/// Writes `tag` to a file with content `b`; returns the outcome and the content afterwards.
pub fn write(tag: &Tag, b: &[u8]) -> (mp4ameta::Result<()>, Vec<u8>) {
    let m = Mem::new(b);
    let r = tag.write_to(&m.0);
    (r, m.get())
}

pub fn read(b: &[u8]) -> mp4ameta::Result<Tag> {
    Tag::read_from(&mut Cursor::new(b))
}

pub fn dump(tag: &Tag) -> mp4ameta::Result<Vec<u8>> {
    let mut v = Vec::new();
    tag.dump_to(&mut v)?;
    Ok(v)
}

pub fn kind(e: &Error) -> String {
    match &e.kind {
        ErrorKind::Io(e) => format!("Io({:?})", e.kind()),
        k => format!("{k:?}"),
    }
}

/// A reader over a slice that counts operations and refuses service above a limit.
pub struct Counting<'a> {
    pub c: Cursor<&'a [u8]>,
    pub ops: u64,
    pub limit: u64,
}

impl<'a> Counting<'a> {
    pub fn new(b: &'a [u8], limit: u64) -> Self {
        Counting { c: Cursor::new(b), ops: 0, limit }
    }
    pub fn over(&self) -> bool {
        self.ops > self.limit
    }
    fn tick(&mut self) -> io::Result<()> {
        self.ops += 1;
        if self.ops > self.limit {
            return Err(io::Error::new(io::ErrorKind::Other, "operation limit"));
        }
        Ok(())
    }
}
impl Read for Counting<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        self.c.read(b)
    }
}
impl Seek for Counting<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        self.c.seek(p)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    None,
    /// Operation `n` fails.
    Fail(u64),
    /// Operation `n`, if it is a read or write, is interrupted.
    Interrupt(u64),
    /// At most `n` bytes per operation.
    Short(usize),
    /// Interrupted and cut short in turns, starting with phase `n`.
    Storm(u64),
    /// From operation `n` on, writes accept nothing (return 0).
    Zero(u64),
}

/// A reader or writer that misbehaves in one way.
pub struct Faulty<T> {
    pub t: T,
    pub bad: Bad,
    pub ops: u64,
    pub hit: bool,
}

impl<T> Faulty<T> {
    pub fn new(t: T, bad: Bad) -> Self {
        Faulty { t, bad, ops: 0, hit: false }
    }
    fn next(&mut self, rw: bool) -> io::Result<Option<usize>> {
        let n = self.ops;
        self.ops += 1;
        match self.bad {
            Bad::Fail(k) if k == n => {
                self.hit = true;
                Err(io::Error::new(io::ErrorKind::Other, "injected"))
            }
            Bad::Interrupt(k) if k == n && rw => {
                self.hit = true;
                Err(io::Error::new(io::ErrorKind::Interrupted, "injected"))
            }
            Bad::Short(k) if rw => {
                self.hit = true;
                Ok(Some(k.max(1)))
            }
            Bad::Storm(k) if rw => {
                self.hit = true;
                match (n + k) % 3 {
                    0 => Err(io::Error::new(io::ErrorKind::Interrupted, "injected")),
                    1 => Ok(Some(1 + k as usize)),
                    _ => Ok(Some(1 + (n as usize * 37 + k as usize) % 600)),
                }
            }
            Bad::Zero(k) if n >= k => {
                self.hit = true;
                Ok(Some(0))
            }
            _ => Ok(None),
        }
    }
}
impl<T: Read> Read for Faulty<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let m = self.next(true)?;
        let n = m.map_or(b.len(), |m| m.min(b.len()));
        self.t.read(&mut b[..n])
    }
}
impl<T: Seek> Seek for Faulty<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.next(false)?;
        self.t.seek(p)
    }
}
impl<T: Write> Write for Faulty<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let m = self.next(true)?;
        let n = m.map_or(b.len(), |m| m.min(b.len()));
        self.t.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.next(false)?;
        self.t.flush()
    }
}

/// A scratch directory removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, b: &[u8]) -> std::path::PathBuf {
        let p = self.0.join("f.m4a");
        std::fs::write(&p, b).expect("scratch file");
        p
    }
}
impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// First difference of two byte strings.
pub fn bdiff(a: &[u8], b: &[u8]) -> String {
    // of huge files only the beginning and the end are looked at
    let n = a.len().min(b.len());
    let near = n.min(1 << 26);
    let i = (0..near).chain((n - near).max(near)..n).find(|i| a[*i] != b[*i]).unwrap_or(n);
    let w = |v: &[u8]| hex(&v[i.min(v.len())..(i + 24).min(v.len())]);
    format!("lengths {} and {}, first difference at {i}: {} / {}", a.len(), b.len(), w(a), w(b))
}

/// The sample files of the repository.
pub fn samples() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        ["sample.m4a", "sample-multi-data.m4a", "sample-64.mp4", "sample-multi-track.3gp"]
            .iter()
            .filter_map(|n| std::fs::read(format!("/repo/files/{n}")).ok())
            .collect()
    })
}

/// One of them, rarely.
pub fn sample(s: &mut crate::engine::Src, c: &mut crate::engine::Ctx) -> Option<&'static [u8]> {
    let v = samples();
    if v.is_empty() || !s.chance(1, 200) {
        return None;
    }
    c.label("sample file");
    c.evals += 1;
    let i = s.idx(v.len());
    c.describe(|| format!("sample file {i}"));
    Some(&v[i])
}
