//! Calls by path act on exactly the named file.
use crate::engine::*;
use crate::model;
use crate::util::{self, Scratch};
use crate::{gen, model::Items};
use mp4ameta::{Error, ErrorKind, Tag};
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    fixed,
    enumerated: None,
    quick: 20_000,
    thorough: 1_000_000,
    level: "exploration",
    rule: "directory trees of up to 6 files (valid containers with differing metadata, broken files, empty files) in up to 3 directories, \
           with hard links, links to files and directories, dangling links; names made of arbitrary bytes, and names \
           that differ from another one only by white space, case, an extension, a suffix or an encoding. Up to 4 calls \
           that read, write or dump by path, absolute or relative to the working directory, plain or through `.`, `..`, double slashes and links, given \
           as any path type. The result is compared with the same call on the bytes of the file the operating system \
           resolves the path to, and the whole tree (names, kinds, contents, permissions, file numbers, link targets) with \
           that before the call. Non-trivial: a call succeeded. Distinct by tree and calls.",
    assumptions: &["the operating system resolves paths", "the tree is on a local Unix file system"],
};

/// Names that code may be tempted to normalise.
const NAMES: &[&[u8]] = &[
    b"song.m4a", b"song", b"song.mp4", b"song.M4A", b"SONG.m4a", b"song.m4a ", b" song.m4a", b"song.m4a.tmp", b"song.m4a~", b"song.m4a.bak",
    b".song.m4a", b"song.", b"song.txt", b".m4a", b"...", b"-", b"--help", b"~", b"$HOME", b"%20", b"a%2fb", b"a\\b", b"C:", b"file:song.m4a", b"*",
    b"?", b"a\nb", b"a\tb", b"\xff\xfe", b"song\xff.m4a", b"song\xef\xbf\xbd.m4a", b"\xc3\xa9.m4a", b"e\xcc\x81.m4a", b"\xe9.m4a", b"tmp", b"song.m4a#1",
    b"song.m4a?x=1", b"con", b"nul.m4a", b"\"song\"", b"'", b"\x01", b"\x7f", b"song.m4a.", b"song.m4b", b"song.m4p", b"moov", b"0",
];

fn name(s: &mut Src, used: &[OsString]) -> OsString {
    let b = match s.weighted(&[6, 4, 2, 1]) {
        0 => s.pick(NAMES).to_vec(),
        1 if !used.is_empty() => {
            let mut b = s.pick(used).as_bytes().to_vec();
            match s.below(10) {
                0 => b.push(b' '),
                1 => b.insert(0, b' '),
                2 => b.extend(s.pick(&[&b".tmp"[..], b"~", b".bak", b".new", b".m4a", b"\n", b".", b"0"]).iter()),
                3 => b = String::from_utf8_lossy(&b).into_owned().into_bytes(),
                4 => b = String::from_utf8_lossy(&b).trim().to_lowercase().into_bytes(),
                5 => b = Path::new(OsStr::from_bytes(&b)).with_extension("m4a").into_os_string().into_vec(),
                6 => b = Path::new(OsStr::from_bytes(&b)).with_extension("").into_os_string().into_vec(),
                7 => b.make_ascii_uppercase(),
                8 => b.insert(0, b'.'),
                _ => drop(b.pop()),
            }
            b
        }
        2 => (0..1 + s.idx(6)).map(|_| s.u8()).collect(),
        _ => vec![b'x'; 200 + s.idx(56)],
    };
    let mut b: Vec<u8> = b.into_iter().filter(|c| *c != 0 && *c != b'/').take(255).collect();
    if b.is_empty() || b == b"." || b == b".." {
        b = b"f".to_vec();
    }
    let mut n = 0;
    while used.iter().any(|u| u.as_bytes() == b) {
        b.truncate(250);
        b.extend(n.to_string().bytes());
        n += 1;
    }
    OsString::from_vec(b)
}

#[derive(Clone, PartialEq, Eq)]
enum Entry {
    Dir { mode: u32 },
    File { ino: u64, links: u64, mode: u32, bytes: Vec<u8> },
    Link { to: PathBuf },
    Other,
}

impl Entry {
    fn show(&self) -> String {
        match self {
            Entry::Dir { mode } => format!("directory {mode:o}"),
            Entry::File { ino, links, mode, bytes } => format!("file {ino} of {} bytes, mode {mode:o}, {links} links", bytes.len()),
            Entry::Link { to } => format!("link to {to:?}"),
            Entry::Other => "something else".into(),
        }
    }
}

type Tree = BTreeMap<PathBuf, Entry>;

fn snapshot(dir: &Path, rel: &Path, out: &mut Tree) -> io::Result<()> {
    for e in fs::read_dir(dir.join(rel))? {
        let e = e?;
        let r = rel.join(e.file_name());
        let p = dir.join(&r);
        let m = fs::symlink_metadata(&p)?;
        let k = m.file_type();
        if k.is_dir() {
            out.insert(r.clone(), Entry::Dir { mode: m.mode() });
            snapshot(dir, &r, out)?;
        } else if k.is_symlink() {
            out.insert(r, Entry::Link { to: fs::read_link(&p)? });
        } else if k.is_file() {
            out.insert(r, Entry::File { ino: m.ino(), links: m.nlink(), mode: m.mode(), bytes: fs::read(&p)? });
        } else {
            out.insert(r, Entry::Other);
        }
    }
    Ok(())
}

#[track_caller]
fn broken(e: io::Error) -> Fail {
    Fail { sig: "harness-error".into(), msg: format!("{e} (line {})", std::panic::Location::caller().line()) }
}

fn tree(dir: &Path) -> Result<Tree, Fail> {
    let mut t = Tree::new();
    snapshot(dir, Path::new(""), &mut t).map_err(|e| broken(e))?;
    Ok(t)
}

/// Sets the working directory until dropped.
struct Cwd(PathBuf);

impl Cwd {
    fn new(to: &Path) -> io::Result<Cwd> {
        let old = std::env::current_dir()?;
        std::env::set_current_dir(to)?;
        Ok(Cwd(old))
    }
}

impl Drop for Cwd {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

fn fds() -> usize {
    fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read,
    Write,
    Dump,
}

/// Calls `op` with the path as one of the types that can be used for paths.
fn call(op: Op, tag: &Tag, p: &Path, form: u64) -> Result<Option<Tag>, Error> {
    fn go(op: Op, tag: &Tag, p: impl AsRef<Path>) -> Result<Option<Tag>, Error> {
        match op {
            Op::Read => Tag::read_from_path(p).map(Some),
            Op::Write => tag.write_to_path(p).map(|()| None),
            Op::Dump => tag.dump_to_path(p).map(|()| None),
        }
    }
    match (form, p.to_str()) {
        (0, Some(t)) => go(op, tag, t),
        (1, Some(t)) => go(op, tag, t.to_string()),
        (2, _) => go(op, tag, p.to_path_buf()),
        (3, _) => go(op, tag, p.as_os_str()),
        (4, _) => go(op, tag, p.as_os_str().to_os_string()),
        (5, _) => go(op, tag, std::borrow::Cow::from(p)),
        (6, _) => go(op, tag, p.to_path_buf().into_boxed_path()),
        _ => go(op, tag, p),
    }
}

/// The file a path names, whether or not it exists.
fn resolve(p: &Path) -> Option<PathBuf> {
    let mut p = p.to_path_buf();
    for _ in 0..8 {
        if p.as_os_str().as_bytes().ends_with(b"/") {
            // names a directory
            return None;
        }
        let dir = match p.parent() {
            Some(d) if d.as_os_str().is_empty() => PathBuf::from("."),
            Some(d) => d.to_path_buf(),
            None => return None,
        };
        let p2 = fs::canonicalize(dir).ok()?.join(p.file_name()?);
        match fs::read_link(&p2) {
            Ok(to) => p = p2.parent()?.join(to),
            Err(_) => return Some(p2),
        }
    }
    None
}

fn same_tag(a: &Tag, b: &Tag) -> Res {
    if a != b {
        return fail("other-file", format!("the tag read isn't that of the file: {:?} instead of {:?}", model::of_tag(a).len(), model::of_tag(b).len()));
    }
    Ok(())
}

fn step(root: &Path, op: Op, tag: &Tag, p: &Path, form: u64, what: &str) -> Result<bool, Fail> {
    let before = tree(root)?;
    let open = fds();
    let target = resolve(p);
    let rel = target.as_ref().and_then(|t| t.strip_prefix(root).ok().map(Path::to_path_buf));
    let old = rel.as_ref().and_then(|r| before.get(r)).cloned();
    let r = call(op, tag, p, form);
    let after = tree(root)?;
    if fds() != open {
        return Err(Fail { sig: "left-open".into(), msg: format!("{what}: {} files are open after the call, {open} were before", fds()) });
    }
    // what the call has to do
    let mut want = before.clone();
    let mut ino_of_new = false;
    let ok = match (op, &old) {
        (Op::Read, Some(Entry::File { bytes, .. })) => match (&r, util::read(bytes)) {
            (Ok(Some(a)), Ok(b)) => same_tag(a, &b).map(|()| true).map_err(|f| Fail { msg: format!("{what}: {}", f.msg), ..f })?,
            (Err(a), Err(b)) if util::kind(a) == util::kind(&b) => false,
            (a, b) => return Err(Fail { sig: "outcome".into(), msg: format!("{what}: {:?}, but reading the content of the file: {:?}", a.as_ref().map(|_| ()).map_err(util::kind), b.map(|_| ()).map_err(|e| util::kind(&e))) }),
        },
        (Op::Write, Some(Entry::File { ino, bytes, .. })) => {
            let (x, new) = util::write(tag, bytes);
            let ino = *ino;
            match (&r, &x) {
                (Ok(_), Ok(())) => {}
                (Err(a), Err(b)) if util::kind(a) == util::kind(b) => {}
                (a, b) => return Err(Fail { sig: "outcome".into(), msg: format!("{what}: {:?}, but writing to the content of the file: {:?}", a.as_ref().map(|_| ()).map_err(util::kind), b.as_ref().map_err(util::kind)) }),
            }
            for e in want.values_mut() {
                if let Entry::File { ino: i, bytes, .. } = e {
                    if *i == ino {
                        *bytes = new.clone();
                    }
                }
            }
            x.is_ok()
        }
        (Op::Dump, Some(Entry::File { ino, .. })) => {
            let new = util::dump(tag).map_err(|e| Fail { sig: "outcome".into(), msg: format!("{what}: dumping to memory failed: {}", util::kind(&e)) })?;
            if let Err(e) = &r {
                return Err(Fail { sig: "outcome".into(), msg: format!("{what}: failed: {}", util::kind(e)) });
            }
            let ino = *ino;
            for e in want.values_mut() {
                if let Entry::File { ino: i, bytes, .. } = e {
                    if *i == ino {
                        *bytes = new.clone();
                    }
                }
            }
            true
        }
        (Op::Dump, None) if rel.is_some() => {
            let new = util::dump(tag).map_err(|e| Fail { sig: "outcome".into(), msg: format!("{what}: dumping to memory failed: {}", util::kind(&e)) })?;
            if let Err(e) = &r {
                return Err(Fail { sig: "outcome".into(), msg: format!("{what}: failed: {}", util::kind(e)) });
            }
            ino_of_new = true;
            let rel = rel.clone().unwrap_or_default();
            let (ino, mode) = match after.get(&rel) {
                Some(Entry::File { ino, mode, .. }) => (*ino, *mode),
                _ => (0, 0),
            };
            want.insert(rel, Entry::File { ino, links: 1, mode, bytes: new });
            true
        }
        // a directory, a missing file, or a file in place of a directory
        _ => match &r {
            Err(Error { kind: ErrorKind::Io(_), .. }) => false,
            r => return Err(Fail { sig: "outcome".into(), msg: format!("{what}: {:?}, but there is no such file", r.as_ref().map(|_| ()).map_err(util::kind)) }),
        },
    };
    let _ = ino_of_new;
    if after != want {
        let mut d = vec![];
        for k in want.keys().chain(after.keys()).collect::<std::collections::BTreeSet<_>>() {
            let (a, b) = (want.get(k), after.get(k));
            if a != b {
                let show = |e: Option<&Entry>| e.map_or("nothing".to_string(), Entry::show);
                let bytes = match (a, b) {
                    (Some(Entry::File { bytes: x, .. }), Some(Entry::File { bytes: y, .. })) if x != y => format!(" ({})", util::bdiff(x, y)),
                    _ => String::new(),
                };
                d.push(format!("{k:?} should be {}, but is {}{bytes}", show(a), show(b)));
            }
        }
        return Err(Fail { sig: "tree".into(), msg: format!("{what}: {}", d.join("; ")) });
    }
    Ok(ok)
}

/// Another path to the same file.
fn detour(s: &mut Src, root: &Path, p: &Path, dirs: &[PathBuf], links: &[(PathBuf, PathBuf)], label: &mut Vec<&'static str>) -> PathBuf {
    let mut rel = p.to_path_buf();
    // through a link to the directory
    let parent = rel.parent().map(Path::to_path_buf).unwrap_or_default();
    if let Some((l, _)) = links.iter().find(|l| l.1 == parent) {
        if s.bool() {
            label.push("through a link to a directory");
            rel = l.join(rel.file_name().unwrap_or_default());
        }
    }
    let mut b = match s.below(4) {
        0 => {
            label.push("relative path");
            rel.into_os_string().into_vec()
        }
        1 => {
            label.push("relative path");
            [b"./", rel.as_os_str().as_bytes()].concat()
        }
        _ => root.join(rel).into_os_string().into_vec(),
    };
    match s.below(8) {
        0 => {
            if let Some(i) = b.iter().position(|c| *c == b'/') {
                b.insert(i, b'/');
                label.push("double slash");
            }
        }
        1 => {
            if let Some(d) = dirs.iter().find(|d| !d.as_os_str().is_empty()) {
                // up again from a directory
                let (abs, rest) = match b.starts_with(b"/") {
                    true => {
                        let n = root.as_os_str().len();
                        (root.to_path_buf(), b[n + 1..].to_vec())
                    }
                    false => (PathBuf::new(), b.clone()),
                };
                let up = abs.join(d).join("..").into_os_string().into_vec();
                b = [&up[..], b"/", &rest].concat();
                label.push("through a parent directory");
            }
        }
        2 if s.chance(1, 3) => {
            b.push(b'/');
            label.push("trailing slash");
        }
        _ => {}
    }
    PathBuf::from(OsString::from_vec(b))
}

fn content(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[8, 2, 1]) {
        0 => gen::file(s, &gen::SMALL).bytes(),
        1 => {
            let mut b = gen::file(s, &gen::SMALL).bytes();
            let n = s.idx(b.len() + 1);
            b.truncate(n);
            b
        }
        _ => vec![],
    }
}

fn run(s: &mut Src, c: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let root = fs::canonicalize(&scratch.0).map_err(|e| broken(e))?;
    let mut names: Vec<OsString> = vec![];
    let mut dirs = vec![PathBuf::new()];
    for _ in 0..s.idx(3) {
        let n = name(s, &names);
        names.push(n.clone());
        let d = if s.bool() { dirs[dirs.len() - 1].join(n) } else { PathBuf::from(n) };
        fs::create_dir(root.join(&d)).map_err(|e| broken(e))?;
        dirs.push(d);
    }
    let mut files: Vec<PathBuf> = vec![];
    for _ in 0..1 + s.idx(4) {
        let n = name(s, &names);
        names.push(n.clone());
        let p = s.pick(&dirs).join(n);
        let b = content(s);
        fs::write(root.join(&p), b).map_err(|e| broken(e))?;
        if s.chance(1, 4) {
            let mode = *s.pick(&[0o600, 0o666, 0o777, 0o640]);
            fs::set_permissions(root.join(&p), fs::Permissions::from_mode(mode)).map_err(|e| broken(e))?;
        }
        files.push(p);
    }
    let mut links = vec![];
    let mut paths = files.clone();
    for _ in 0..s.idx(3) {
        let n = name(s, &names);
        names.push(n.clone());
        let at = s.pick(&dirs).join(&n);
        match s.below(4) {
            0 => {
                c.label("hard link");
                fs::hard_link(root.join(s.pick(&files)), root.join(&at)).map_err(|e| broken(e))?;
                paths.push(at);
            }
            1 => {
                c.label("link to a file");
                let f = s.pick(&files).clone();
                let to = if s.bool() { root.join(&f) } else { up(&at).join(&f) };
                symlink(to, root.join(&at)).map_err(|e| broken(e))?;
                paths.push(at);
            }
            2 => {
                c.label("dangling link");
                let m = name(s, &names);
                names.push(m.clone());
                symlink(m, root.join(&at)).map_err(|e| broken(e))?;
                paths.push(at);
            }
            _ => {
                let d = s.pick(&dirs).clone();
                symlink(Path::new(".").join(up(&at)).join(&d), root.join(&at)).map_err(|e| broken(e))?;
                links.push((at, d));
            }
        }
    }
    let mut steps = vec![];
    for _ in 0..1 + s.idx(4) {
        let op = *s.pick(&[Op::Write, Op::Read, Op::Dump]);
        let (what, p) = match s.weighted(&[16, 3, 1]) {
            0 => ("existing", s.pick(&paths).clone()),
            1 => {
                let n = name(s, &names);
                names.push(n.clone());
                ("missing", s.pick(&dirs).join(n))
            }
            _ => ("directory", s.pick(&dirs).clone()),
        };
        let items: Items = gen::items(s, 3, false);
        let mut l = vec![];
        let p = if what == "directory" { root.join(p) } else { detour(s, &root, &p, &dirs, &links, &mut l) };
        l.into_iter().for_each(|l| c.label(l));
        steps.push((op, what, p, s.below(8), items));
    }
    let start = tree(&root)?;
    let shown: Vec<String> = start.iter().map(|(k, e)| format!("{k:?}: {}", e.show())).collect();
    c.describe(|| format!("tree {shown:?}, calls {:?}", steps.iter().map(|x| (x.0, x.1, &x.2, x.3)).collect::<Vec<_>>()));
    let relative = |p: &PathBuf| p.strip_prefix(&root).map(Path::to_path_buf).unwrap_or(p.clone());
    let content: Vec<_> = start.iter().map(|(k, e)| (k, if let Entry::File { bytes, .. } = e { bytes.len() } else { 0 })).collect();
    c.key(&(content, steps.iter().map(|x| (x.0 as u8, relative(&x.2), format!("{:?}", x.4))).collect::<Vec<_>>()));
    let _cwd = Cwd::new(&root).map_err(|e| broken(e))?;
    for (op, what, p, form, items) in &steps {
        let tag = model::to_tag(items);
        c.evals += 1;
        let utf8 = p.to_str().is_some();
        if step(&root, *op, &tag, p, *form, &format!("{op:?} of {p:?} ({what})"))? {
            c.nontrivial = true;
            c.label(match op {
                Op::Read => "read",
                Op::Write => "written",
                Op::Dump => "dumped",
            });
            c.label_if(!utf8, "path that isn't utf-8");
            c.label_if(*what == "missing", "new file");
        }
    }
    Ok(())
}

/// From the directory of a path to the top.
fn up(p: &Path) -> PathBuf {
    let n = p.components().count().saturating_sub(1);
    std::iter::repeat("..").take(n).collect()
}

fn fixed(c: &mut Ctx) -> Res {
    let scratch = Scratch::new();
    let root = fs::canonicalize(&scratch.0).map_err(|e| broken(e))?;
    let _cwd = Cwd::new(&root).map_err(|e| broken(e))?;
    let tag = model::to_tag(&vec![(model::Id::F(*b"\xa9nam"), vec![model::Val::text(model::Ty::Utf8, "new")])]);
    let old = util::dump(&Tag::default()).map_err(|e| Fail { sig: "outcome".into(), msg: util::kind(&e) })?;
    // paths that name nothing
    for op in [Op::Read, Op::Write, Op::Dump] {
        for p in [&b""[..], b"\0", b"f\0.m4a", b".", b"..", b"/", b"f.m4a/", b"f.m4a/g", b"none/f.m4a"] {
            fs::write("f.m4a", &old).map_err(|e| broken(e))?;
            let p = Path::new(OsStr::from_bytes(p));
            let before = tree(&root)?;
            c.evals += 1;
            match call(op, &tag, p, 7) {
                Err(Error { kind: ErrorKind::Io(_), .. }) => {}
                r => return fail("outcome", format!("{op:?} of {p:?}: {:?}", r.map(|_| ()).map_err(|e| util::kind(&e)))),
            }
            if tree(&root)? != before {
                return fail("tree", format!("{op:?} of {p:?} failed and changed something"));
            }
        }
        // every one-byte name, and every name above with valid content
        fs::remove_file("f.m4a").map_err(|e| broken(e))?;
        for n in (1..=255u8).filter(|b| !b"./".contains(b)).map(|b| vec![b]).chain(NAMES.iter().map(|n| n.to_vec())) {
            let n = OsString::from_vec(n);
            c.evals += 1;
            if op != Op::Dump {
                fs::write(&n, &old).map_err(|e| broken(e))?;
            }
            if !step(&root, op, &tag, Path::new(&n), 7, &format!("{op:?} of {n:?}"))? {
                return fail("outcome", format!("{op:?} of {n:?} failed"));
            }
            fs::remove_file(&n).map_err(|e| broken(e))?;
        }
    }
    Ok(())
}
