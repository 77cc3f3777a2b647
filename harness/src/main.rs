//! Runner: `vrun <ID>` runs one property; `vrun --replay FILE` reproduces a failure.
use std::collections::BTreeSet;
use std::io::Write;
use std::os::unix::io::{FromRawFd, IntoRawFd};
use std::path::PathBuf;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Instant;
use vharness::engine::{self, guarded, hash_of, mix, Ctx, Fail, Prop, Rec, Src, Stats, CAP};
use vharness::{props, util};

#[global_allocator]
static ALLOC: vharness::alloc::Acc = vharness::alloc::Acc;

const TEXT: usize = 16384;

/// Lives in memory shared between the parent and one worker.
#[repr(C)]
struct Shared {
    current: u64,
    beat: u64,
    /// 0 running, 1 done, 2 failed
    state: u64,
    rec_len: u32,
    sig_len: u32,
    msg_len: u32,
    desc_len: u32,
    rec: [u8; CAP],
    sig: [u8; TEXT],
    msg: [u8; TEXT],
    desc: [u8; TEXT],
}

fn map<T>() -> *mut T {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    if p == libc::MAP_FAILED {
        trouble("mmap failed");
    }
    p as *mut T
}

fn trouble(m: &str) -> ! {
    println!("CHECK-ERROR: {m}");
    std::process::exit(2)
}

fn put(b: &mut [u8; TEXT], l: &mut u32, s: &str) {
    let mut n = s.len().min(TEXT);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    b[..n].copy_from_slice(&s.as_bytes()[..n]);
    *l = n as u32;
}
fn take(b: &[u8; TEXT], l: u32) -> String {
    String::from_utf8_lossy(&b[..l as usize]).into_owned()
}

struct Cfg {
    seed: u64,
    thorough: bool,
    dir: PathBuf,
    known: BTreeSet<String>,
    workers: u64,
}

#[derive(Clone, Copy)]
enum Case {
    Fixed,
    Enumerated(u64),
    Random(u64),
}

fn which(p: &Prop, i: u64) -> Case {
    let e = p.enumerated.map_or(0, |x| x.0);
    if i == 0 {
        Case::Fixed
    } else if i <= e {
        Case::Enumerated(i - 1)
    } else {
        Case::Random(i - 1 - e)
    }
}

fn case_seed(cfg: &Cfg, p: &Prop, k: u64) -> u64 {
    mix(&[cfg.seed, hash_of(p.id), k])
}

fn limits() {
    // a runaway allocation must end the worker, not the sandbox
    vharness::big::limits();
    unsafe {
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// CPU time one case may use; the cases take milliseconds. SIGPROF ends the process.
fn cpu_limit(sec: i64) {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: sec, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

/// Limits other than the usual ones: of the cases explored, and of a case run on its own.
static CASE_CPU: AtomicI64 = AtomicI64::new(20);
static PROBE_CPU: AtomicI64 = AtomicI64::new(0);

fn run_case(p: &Prop, c: Case, src: Option<&mut Src>, ctx: &mut Ctx) -> engine::Res {
    match c {
        Case::Fixed => guarded(|| (p.fixed)(ctx)),
        Case::Enumerated(k) => {
            let f = p.enumerated.unwrap().1;
            guarded(|| f(k, ctx))
        }
        Case::Random(_) => {
            let s = src.unwrap();
            guarded(|| (p.run)(s, ctx))
        }
    }
}

fn worker(cfg: &Cfg, p: &Prop, w: u64, total: u64, sh: *mut Shared, stop: *mut u64, out: i32) -> ! {
    limits();
    engine::install_panic_hook();
    let sh = unsafe { &mut *sh };
    let mut st = Stats::default();
    let mut i = w;
    let mut failed = false;
    while i < total {
        vharness::big::limits();
        if i > unsafe { std::ptr::read_volatile(stop) } {
            break;
        }
        let c = which(p, i);
        sh.current = i;
        sh.rec_len = 0;
        let cpu = CASE_CPU.load(Ordering::Relaxed);
        cpu_limit(if matches!(c, Case::Fixed) { cpu.max(100) } else { cpu });
        unsafe { std::ptr::write_volatile(&mut sh.beat, sh.beat.wrapping_add(1)) };
        let mut ctx = Ctx::new(st.samples.is_empty() && st.cases < 200, cfg.thorough);
        let rec_ptr = sh.rec.as_mut_ptr();
        let r = match c {
            Case::Random(k) => {
                let rec = unsafe { Rec::new(rec_ptr, &mut sh.rec_len) };
                let mut src = Src::random(case_seed(cfg, p, k), rec);
                run_case(p, c, Some(&mut src), &mut ctx)
            }
            _ => run_case(p, c, None, &mut ctx),
        };
        if ctx.nontrivial && ctx.fp.is_none() {
            ctx.fp = Some(match c {
                Case::Random(_) => hash_of(&sh.rec[..sh.rec_len as usize]),
                _ => mix(&[i, 77]),
            });
        }
        st.absorb(&ctx);
        match r {
            Ok(()) => {
                if ctx.want_desc && ctx.nontrivial && !ctx.desc.is_empty() && matches!(c, Case::Random(_)) {
                    st.samples.push(ctx.desc.chars().take(700).collect());
                }
            }
            Err(f) => {
                if cfg.known.contains(&f.sig) {
                    *st.known.entry(f.sig.clone()).or_default() += 1;
                } else {
                    put(&mut sh.sig, &mut sh.sig_len, &f.sig);
                    put(&mut sh.msg, &mut sh.msg_len, &f.msg);
                    put(&mut sh.desc, &mut sh.desc_len, &ctx.desc);
                    failed = true;
                }
            }
        }
        if failed {
            break;
        }
        i += cfg.workers;
    }
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    if f.write_all(&st.to_bytes()).is_err() {
        unsafe { libc::_exit(9) }
    }
    std::mem::forget(f);
    unsafe {
        std::ptr::write_volatile(&mut sh.state, if failed { 2 } else { 1 });
        libc::_exit(0)
    }
}

fn signal_name(s: i32) -> String {
    match s {
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGFPE => "SIGFPE".into(),
        _ => format!("signal {s}"),
    }
}

fn died(s: i32) -> Fail {
    if s == libc::SIGPROF {
        return Fail { sig: "hang".into(), msg: "the case does not come to an end (CPU time used up)".into() };
    }
    Fail {
        sig: format!("crash:{}", signal_name(s)),
        msg: format!("the process died from {} (see stderr: refused allocation or memory error)", signal_name(s)),
    }
}

struct Failure {
    index: u64,
    choices: Vec<u8>,
    fail: Fail,
}

fn explore(cfg: &Cfg, p: &Prop, n: u64) -> (Stats, Option<Failure>) {
    let total = 1 + p.enumerated.map_or(0, |e| e.0) + n;
    let stop: *mut u64 = map();
    unsafe { *stop = u64::MAX };
    struct W {
        pid: i32,
        sh: *mut Shared,
        out: i32,
        done: bool,
        beat: u64,
        since: Instant,
    }
    let mut ws = vec![];
    for w in 0..cfg.workers {
        let sh: *mut Shared = map();
        let out = util::Mem::new(&[]).0.into_raw_fd();
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            trouble("fork failed");
        }
        if pid == 0 {
            worker(cfg, p, w, total, sh, stop, out);
        }
        ws.push(W { pid, sh, out, done: false, beat: 0, since: Instant::now() });
    }
    let mut stats = Stats::default();
    let mut worst: Option<Failure> = None;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(std::time::Duration::from_millis(5));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut st = 0;
            let r = unsafe { libc::waitpid(w.pid, &mut st, libc::WNOHANG) };
            let sh = unsafe { &*w.sh };
            if r == 0 {
                let b = unsafe { std::ptr::read_volatile(&sh.beat) };
                if b != w.beat {
                    w.beat = b;
                    w.since = Instant::now();
                } else if w.since.elapsed().as_secs() > 240 {
                    println!("no progress for 240 s in case {}: {}", sh.current, util::hex(&sh.rec[..sh.rec_len as usize]));
                    trouble("inconclusive: a case does not come to an end");
                }
                continue;
            }
            w.done = true;
            let fail = if libc::WIFSIGNALED(st) {
                let s = libc::WTERMSIG(st);
                if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGXCPU {
                    trouble("a worker was killed from outside");
                }
                Some(died(s))
            } else if libc::WEXITSTATUS(st) != 0 || sh.state == 0 {
                trouble(&format!("a worker exited with status {}", libc::WEXITSTATUS(st)));
            } else if sh.state == 2 {
                Some(Fail { sig: take(&sh.sig, sh.sig_len), msg: take(&sh.msg, sh.msg_len) })
            } else {
                None
            };
            if let Some(f) = fail {
                if worst.as_ref().map_or(true, |x| sh.current < x.index) {
                    let choices = sh.rec[..sh.rec_len as usize].to_vec();
                    worst = Some(Failure { index: sh.current, choices, fail: f });
                    unsafe { std::ptr::write_volatile(stop, sh.current) };
                }
            }
            let f = util::Mem(unsafe { std::fs::File::from_raw_fd(w.out) });
            if let Some(s) = Stats::from_bytes(&f.get()) {
                stats.merge(s);
            }
        }
    }
    (stats, worst)
}

/// Runs one choice sequence in a child process. None: no failure (or no answer in time).
fn probe(p: &Prop, c: Case, choices: &[u8], thorough: bool, sh: *mut Shared) -> Option<(Fail, String)> {
    unsafe {
        (*sh).state = 0;
        (*sh).sig_len = 0;
        (*sh).msg_len = 0;
        (*sh).desc_len = 0;
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        trouble("fork failed");
    }
    if pid == 0 {
        limits();
        unsafe {
            libc::alarm(200);
        }
        let long = PROBE_CPU.load(Ordering::Relaxed);
        cpu_limit(match c {
            _ if long > 0 => long,
            Case::Random(_) => 8,
            Case::Enumerated(_) => 20,
            Case::Fixed => 100,
        });
        engine::install_panic_hook();
        let sh = unsafe { &mut *sh };
        let mut ctx = Ctx::new(true, thorough);
        let mut src = Src::replay(choices);
        let r = run_case(p, c, Some(&mut src), &mut ctx);
        put(&mut sh.desc, &mut sh.desc_len, &ctx.desc);
        sh.state = 1;
        if let Err(f) = r {
            put(&mut sh.sig, &mut sh.sig_len, &f.sig);
            put(&mut sh.msg, &mut sh.msg_len, &f.msg);
            sh.state = 2;
        }
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let sh = unsafe { &*sh };
    let desc = take(&sh.desc, sh.desc_len);
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGALRM || s == libc::SIGKILL {
            return None;
        }
        return Some((died(s), desc));
    }
    if sh.state == 2 {
        return Some((Fail { sig: take(&sh.sig, sh.sig_len), msg: take(&sh.msg, sh.msg_len) }, desc));
    }
    None
}

fn shrink(p: &Prop, c: Case, start: Vec<u8>, sig: &str, thorough: bool) -> Vec<u8> {
    let sh: *mut Shared = map();
    // crashes print to stderr; keep that out of the log while shrinking
    let save = unsafe { libc::dup(2) };
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(n, 2);
        libc::close(n);
    }
    let t0 = Instant::now();
    let mut left = 4000i32;
    let mut best = start;
    let mut ok = |v: &[u8]| -> Option<bool> {
        left -= 1;
        if left < 0 || t0.elapsed().as_secs() > 90 {
            return None;
        }
        Some(probe(p, c, v, thorough, sh).map_or(false, |f| f.0.sig == sig))
    };
    let trim = |v: &mut Vec<u8>| {
        while v.last() == Some(&0) {
            v.pop();
        }
    };
    'all: loop {
        let before = best.clone();
        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 {
            if cut <= best.len() {
                let v = best[..best.len() - cut].to_vec();
                match ok(&v) {
                    None => break 'all,
                    Some(true) => {
                        best = v;
                        continue;
                    }
                    Some(false) => {}
                }
            }
            cut /= 2;
        }
        // delete and zero chunks
        let mut size = (best.len() / 2).next_power_of_two().clamp(1, 256);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut v = best.clone();
                v.drain(i..e);
                match ok(&v) {
                    None => break 'all,
                    Some(true) => {
                        best = v;
                        continue;
                    }
                    Some(false) => {}
                }
                if best[i..e].iter().any(|b| *b != 0) {
                    let mut v = best.clone();
                    v[i..e].iter_mut().for_each(|b| *b = 0);
                    match ok(&v) {
                        None => break 'all,
                        Some(true) => best = v,
                        Some(false) => {}
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single bytes
        for i in 0..best.len() {
            for f in [|b: u8| b / 2, |b: u8| b.saturating_sub(1)] {
                while i < best.len() && best[i] > 0 {
                    let mut v = best.clone();
                    v[i] = f(v[i]);
                    match ok(&v) {
                        None => break 'all,
                        Some(true) => best = v,
                        Some(false) => break,
                    }
                }
            }
        }
        trim(&mut best);
        if best == before {
            break;
        }
    }
    unsafe {
        libc::dup2(save, 2);
        libc::close(save);
    }
    best
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(cfg: &Cfg, p: &Prop, st: &Stats, wall: f64, violations: u64, extra: &[(String, String)]) {
    let mut h = st.hashes.clone();
    h.sort_unstable();
    h.dedup();
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let samples: Vec<String> = st.samples.iter().take(6).map(|s| json(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json(s)).collect();
    let mut cov = vec![
        format!("\"evaluations\": {}", st.evals),
        format!("\"cases\": {}", st.cases),
        format!("\"nontrivial_cases\": {}", st.nontrivial),
        format!("\"distinct_nontrivial\": {}", h.len()),
        format!("\"rule\": {}", json(p.rule)),
        format!("\"samples\": [{}]", samples.join(", ")),
        format!("\"classes\": {{{}}}", labels.join(", ")),
    ];
    if let Some((n, _)) = p.enumerated {
        cov.push(format!("\"enumerated_cases\": {n}"));
    }
    for (k, v) in extra {
        cov.push(format!("{}: {}", json(k), v));
    }
    let e = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json(p.id),
        json(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        json(p.level),
        cov.join(",\n  "),
        assumptions.join(", "),
        wall,
        violations
    );
    let d = cfg.dir.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if std::fs::write(d.join(format!("{}.json", p.id)), e).is_err() {
        trouble("cannot write the evidence file");
    }
}

fn report(cfg: &Cfg, p: &Prop, c: Case, choices: &[u8], fail: &Fail, desc: &str) {
    let d = cfg.dir.join("out");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}.replay", p.id));
    let (kind, idx) = match c {
        Case::Fixed => ("fixed", 0),
        Case::Enumerated(k) => ("enumerated", k),
        Case::Random(k) => ("random", k),
    };
    let one = |s: &str| s.replace('\n', "\\n");
    let t = format!(
        "property={}\nkind={kind}\nindex={idx}\nthorough={}\nchoices={}\nsignature={}\nmessage={}\ninput={}\n",
        p.id,
        cfg.thorough as u8,
        util::hex(choices),
        one(&fail.sig),
        one(&fail.msg),
        one(desc)
    );
    if std::fs::write(&f, t).is_err() {
        trouble("cannot write the replay file");
    }
    println!("{} [{}]: {}", p.id, fail.sig, fail.msg);
    if !desc.is_empty() {
        println!("input: {}", desc.chars().take(1500).collect::<String>());
    }
    println!("VIOLATION property={} replay={}", p.id, f.display());
}

fn known(dir: &std::path::Path, id: &str) -> (BTreeSet<String>, Vec<String>) {
    // known: property=<id> sig=<signature> <what fails>
    let mut s = BTreeSet::new();
    let mut lines = vec![];
    if let Ok(t) = std::fs::read_to_string(dir.join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={id} sig=")) {
                let (sig, what) = r.split_once(' ').unwrap_or((r, ""));
                s.insert(sig.to_string());
                lines.push(what.to_string());
            }
        }
    }
    (s, lines)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t.trim() == "thorough");
    let find = |id: &str| props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| trouble(&format!("unknown property {id}")));
    let sh: *mut Shared = map();

    if args.first().map(String::as_str) == Some("--replay") {
        let t = std::fs::read_to_string(&args[1]).unwrap_or_else(|e| trouble(&e.to_string()));
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
        let p = find(&get("property"));
        let k: u64 = get("index").parse().unwrap_or(0);
        let c = match get("kind").as_str() {
            "fixed" => Case::Fixed,
            "enumerated" => Case::Enumerated(k),
            _ => Case::Random(k),
        };
        let ch = util::unhex(&get("choices")).unwrap_or_default();
        PROBE_CPU.store(60, Ordering::Relaxed);
        match probe(p, c, &ch, get("thorough") == "1", sh) {
            Some((f, d)) => {
                println!("{} [{}]: {}\ninput: {}", p.id, f.sig, f.msg, d);
                println!("VIOLATION property={} replay={}", p.id, args[1]);
                std::process::exit(1)
            }
            None => println!("{}: holds on this input", p.id),
        }
        return;
    }
    if args.first().map(String::as_str) == Some("--list") {
        props::ALL.iter().for_each(|p| println!("{}", p.id));
        return;
    }
    let id = args.first().cloned().unwrap_or_else(|| trouble("usage: vrun ID | --replay FILE"));
    let p = find(&id);
    let mut n = if thorough { p.thorough } else { p.quick };
    if let Some(x) = args.iter().position(|a| a == "--cases").and_then(|i| args.get(i + 1)) {
        n = x.parse().unwrap_or(n);
    }
    let (known, known_lines) = known(&dir, p.id);
    let cfg = Cfg { seed, thorough, dir, known, workers: 8 };

    if let Some(f) = args.iter().position(|a| a == "--input").and_then(|i| args.get(i + 1)) {
        // a raw choice sequence, as libFuzzer saves it
        let ch = std::fs::read(f).unwrap_or_else(|e| trouble(&e.to_string()));
        finish(&cfg, p, sh, Failure { index: u64::MAX, choices: ch, fail: Fail { sig: String::new(), msg: String::new() } }, true);
    }

    if let Some(d) = args.iter().position(|a| a == "--seeds").and_then(|i| args.get(i + 1)) {
        // choice sequences of random cases, as a seed corpus for libFuzzer
        engine::install_panic_hook();
        for k in 0..n {
            let sh = unsafe { &mut *sh };
            let rec = unsafe { Rec::new(sh.rec.as_mut_ptr(), &mut sh.rec_len) };
            let mut src = Src::random(case_seed(&cfg, p, u64::MAX - k), rec);
            let _ = run_case(p, Case::Random(k), Some(&mut src), &mut Ctx::new(false, false));
            let l = sh.rec_len as usize;
            if l <= 4096 && std::fs::write(format!("{d}/seed-{k}"), &sh.rec[..l]).is_err() {
                trouble("cannot write the seed corpus");
            }
        }
        return;
    }

    let t0 = Instant::now();
    let (mut st, mut failure) = explore(&cfg, p, n);
    if let Some(f) = failure.as_ref().filter(|f| f.fail.sig == "hang") {
        // a hang counts if the case uses up far more time on its own
        if !hangs(p, which(p, f.index), &f.choices, cfg.thorough, sh) {
            println!("note: case {} is slow, but it ends; exploring again with more time", f.index);
            CASE_CPU.store(100, Ordering::Relaxed);
            (st, failure) = explore(&cfg, p, n);
        }
    }
    for (s, c) in &st.known {
        let what = known_lines.iter().next().cloned().unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} [{}] ({} cases)", p.id, what, s, c);
    }
    match failure {
        None => {
            evidence(&cfg, p, &st, t0.elapsed().as_secs_f64(), 0, &[]);
            println!(
                "{}: held on {} cases ({} evaluations, {} non-trivial) in {:.1} s",
                p.id, st.cases, st.evals, st.nontrivial, t0.elapsed().as_secs_f64()
            );
        }
        Some(f) => {
            if f.fail.sig == "harness-error" {
                println!("{}", f.fail.msg);
                trouble("the harness failed");
            }
            evidence(&cfg, p, &st, t0.elapsed().as_secs_f64(), 1, &[]);
            finish(&cfg, p, sh, f, false);
        }
    }
}

/// Whether a case that used up its time does so with more of it, and nothing else running.
fn hangs(p: &Prop, c: Case, choices: &[u8], thorough: bool, sh: *mut Shared) -> bool {
    PROBE_CPU.store(60, Ordering::Relaxed);
    let r = probe(p, c, choices, thorough, sh);
    PROBE_CPU.store(0, Ordering::Relaxed);
    r.is_some_and(|r| r.0.sig == "hang")
}

fn finish(cfg: &Cfg, p: &Prop, sh: *mut Shared, f: Failure, raw: bool) -> ! {
    let c = if raw { Case::Random(0) } else { which(p, f.index) };
    let mut choices = f.choices.clone();
    let mut fail = f.fail.clone();
    if raw {
        match probe(p, c, &choices, cfg.thorough, sh) {
            Some((x, _)) if x.sig != "hang" || hangs(p, c, &choices, cfg.thorough, sh) => fail = x,
            _ => {
                println!("{}: holds on this input", p.id);
                std::process::exit(0)
            }
        }
        if cfg.known.contains(&fail.sig) {
            println!("KNOWN-FINDING: property={} [{}]", p.id, fail.sig);
            std::process::exit(0)
        }
        if fail.sig == "harness-error" {
            println!("{}", fail.msg);
            trouble("the harness failed");
        }
    }
    if let Case::Random(_) = c {
        println!("{} fails on case {}: [{}] {}; shrinking {} choice bytes", p.id, f.index, fail.sig, fail.msg, choices.len());
        let small = shrink(p, c, choices.clone(), &fail.sig.clone(), cfg.thorough);
        // the shorter limit while shrinking may take a slow case for one that hangs
        if fail.sig != "hang" || hangs(p, c, &small, cfg.thorough, sh) {
            choices = small;
        }
    }
    let mut desc = String::new();
    match probe(p, c, &choices, cfg.thorough, sh) {
        Some((x, d)) => {
            fail = x;
            desc = d;
        }
        None => println!("note: the failure did not recur in a fresh process"),
    }
    report(cfg, p, c, &choices, &fail, &desc);
    std::process::exit(1)
}
