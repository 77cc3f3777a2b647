//! A small property-based testing engine.
//!
//! Every case is a pure function of a *choice sequence* (bytes). In random mode the bytes come from
//! a PRNG seeded by (VERIF_SEED, property, case index) and are recorded; in replay mode (shrinking,
//! replay files, libFuzzer) they are given, and missing bytes read as zero. Generators are written
//! so that zero is the simplest choice, hence shrinking works on the bytes.

use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// Upper bound of one case's choice sequence.
pub const CAP: usize = 1 << 17;

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut n = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 32;
    }
    h
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-style hasher: stable across runs and toolchains, unlike DefaultHasher
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64).wrapping_mul(0x0000_0100_0000_01B3);
            }
            self.0 ^= self.0 >> 31;
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.finish()
}

enum Mode<'a> {
    Rng(Rng),
    Replay(&'a [u8], usize),
}

/// Where recorded choices go: a fixed buffer, possibly in shared memory.
pub struct Rec {
    ptr: *mut u8,
    len: *mut u32,
}

impl Rec {
    /// Safety: `ptr` valid for CAP bytes, `len` valid, both for the life of the value.
    pub unsafe fn new(ptr: *mut u8, len: *mut u32) -> Rec {
        *len = 0;
        Rec { ptr, len }
    }
}

/// Source of choices.
pub struct Src<'a> {
    mode: Mode<'a>,
    rec: Option<Rec>,
    used: usize,
}

impl<'a> Src<'a> {
    pub fn random(seed: u64, rec: Rec) -> Src<'static> {
        Src { mode: Mode::Rng(Rng::new(seed)), rec: Some(rec), used: 0 }
    }
    pub fn replay(data: &'a [u8]) -> Src<'a> {
        Src { mode: Mode::Replay(data, 0), rec: None, used: 0 }
    }
    pub fn used(&self) -> usize {
        self.used
    }
    /// True once a replayed sequence is used up (or the cap is reached): only zeros follow.
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Rng(_) => self.used + 8 > CAP,
            Mode::Replay(d, p) => *p >= d.len(),
        }
    }
    fn nbytes(n: u64) -> usize {
        if n <= 1 << 8 {
            1
        } else if n <= 1 << 16 {
            2
        } else if n <= 1 << 32 {
            4
        } else {
            8
        }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let nb = Self::nbytes(n);
        self.used += nb;
        match &mut self.mode {
            Mode::Rng(r) => {
                if self.used > CAP {
                    return 0;
                }
                let v = r.next() % n;
                if let Some(rec) = &mut self.rec {
                    unsafe {
                        let l = *rec.len as usize;
                        for i in 0..nb {
                            *rec.ptr.add(l + i) = (v >> (8 * i)) as u8;
                        }
                        *rec.len = (l + nb) as u32;
                    }
                }
                v
            }
            Mode::Replay(d, p) => {
                let mut v = 0u64;
                for i in 0..nb {
                    let b = d.get(*p + i).copied().unwrap_or(0);
                    v |= (b as u64) << (8 * i);
                }
                *p = (*p + nb).min(d.len());
                v % n
            }
        }
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 32);
        let b = self.below(1 << 32);
        a | b << 32
    }
    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        self.below(1 << 16) as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// Inclusive range.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den; zero choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        &s[self.idx(s.len())]
    }
    /// Index by weight; zero choice is index 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut v = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Fisher-Yates; the zero sequence is the identity.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        let n = v.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies the kind of failure (shrinking keeps it; known findings are matched on it).
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

pub type Res = Result<(), Fail>;

/// Per-case context: classification, description, counters.
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    pub fp: Option<u64>,
    /// Sub-evaluations inside the case (e.g. fault positions, cut positions); 1 by default.
    pub evals: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(want_desc: bool, thorough: bool) -> Ctx {
        Ctx { labels: vec![], nontrivial: false, want_desc, desc: String::new(), fp: None, evals: 1, thorough }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            self.desc.push_str(&f());
        }
    }
    /// Fingerprint of the semantic inputs of this case (for counting distinct cases).
    pub fn key<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(t);
        self.fp = Some(mix(&[self.fp.unwrap_or(0), h]));
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
    /// Concrete cases run before the random ones: minimal inputs of repaired defects and
    /// boundary inputs, independent of the generators.
    pub fixed: fn(&mut Ctx) -> Res,
    /// Exhaustive part: number of enumerated cases and their check (choice = index).
    pub enumerated: Option<(u64, fn(u64, &mut Ctx) -> Res)>,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn no_fixed(_: &mut Ctx) -> Res {
    Ok(())
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        crate::alloc::suspend(|| PANIC.with(|p| *p.borrow_mut() = Some((loc, msg))));
    }));
}

/// Runs `f`, turning a panic of the code under test into a failure. A panic located in the harness
/// itself is a harness error ("harness-error" signature), never a violation.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            crate::alloc::disarm();
            crate::fault::disarm();
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") && !loc.contains("/repo/") && is_harness(&loc)
                || loc.contains("harness/src/")
            {
                fail("harness-error", format!("panic in harness at {loc}: {msg}"))
            } else {
                fail(format!("panic:{}", file_of(&loc)), format!("panic at {loc}: {msg}"))
            }
        }
    }
}

fn is_harness(loc: &str) -> bool {
    // cargo passes paths relative to the package root for the root package only
    let f = loc.split(':').next().unwrap_or("");
    ["src/engine.rs", "src/mp4.rs", "src/gen.rs", "src/hostile.rs", "src/main.rs", "src/lib.rs",
     "src/fault.rs", "src/alloc.rs", "src/util.rs", "src/model.rs", "src/big.rs", "src/tagmodel.rs", "src/access.rs"].contains(&f)
        || f.starts_with("src/props/")
}

fn file_of(loc: &str) -> String {
    loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc).rsplit('/').next().unwrap_or("").to_string()
}

/// Counters of one worker, serialised over a memfd.
#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    pub fn absorb(&mut self, ctx: &Ctx) {
        self.cases += 1;
        self.evals += ctx.evals;
        if ctx.nontrivial {
            self.nontrivial += 1;
            if let Some(f) = ctx.fp {
                self.hashes.push(f);
            }
        }
        for l in &ctx.labels {
            *self.labels.entry(l.to_string()).or_default() += 1;
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.hashes.extend(o.hashes);
        self.samples.extend(o.samples);
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        let s = |o: &mut Vec<u8>, x: &str| {
            o.extend((x.len() as u64).to_le_bytes());
            o.extend(x.as_bytes());
        };
        for v in [self.cases, self.evals, self.nontrivial] {
            o.extend(v.to_le_bytes());
        }
        for m in [&self.labels, &self.known] {
            o.extend((m.len() as u64).to_le_bytes());
            for (k, v) in m {
                s(&mut o, k);
                o.extend(v.to_le_bytes());
            }
        }
        o.extend((self.hashes.len() as u64).to_le_bytes());
        for h in &self.hashes {
            o.extend(h.to_le_bytes());
        }
        o.extend((self.samples.len() as u64).to_le_bytes());
        for x in &self.samples {
            s(&mut o, x);
        }
        o
    }
    pub fn from_bytes(b: &[u8]) -> Option<Stats> {
        let mut p = 0usize;
        let u = |p: &mut usize| -> Option<u64> {
            let v = u64::from_le_bytes(b.get(*p..*p + 8)?.try_into().ok()?);
            *p += 8;
            Some(v)
        };
        let mut st = Stats { cases: u(&mut p)?, evals: u(&mut p)?, nontrivial: u(&mut p)?, ..Default::default() };
        for i in 0..2 {
            let n = u(&mut p)?;
            for _ in 0..n {
                let l = u(&mut p)? as usize;
                let k = String::from_utf8_lossy(b.get(p..p + l)?).into_owned();
                p += l;
                let v = u(&mut p)?;
                if i == 0 { &mut st.labels } else { &mut st.known }.insert(k, v);
            }
        }
        let n = u(&mut p)?;
        for _ in 0..n {
            st.hashes.push(u(&mut p)?);
        }
        let n = u(&mut p)?;
        for _ in 0..n {
            let l = u(&mut p)? as usize;
            st.samples.push(String::from_utf8_lossy(b.get(p..p + l)?).into_owned());
            p += l;
        }
        Some(st)
    }
}
