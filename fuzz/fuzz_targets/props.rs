//! Coverage-guided search over the choice sequences of the property named by VERIF_PROP.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use vharness::engine::{guarded, install_panic_hook, Ctx, Prop, Src, CAP};

fn prop() -> &'static Prop {
    static P: OnceLock<&'static Prop> = OnceLock::new();
    P.get_or_init(|| {
        install_panic_hook();
        let id = std::env::var("VERIF_PROP").expect("VERIF_PROP");
        vharness::props::ALL.iter().find(|p| p.id == id).expect("unknown property")
    })
}

fuzz_target!(|data: &[u8]| {
    let p = prop();
    if data.len() > CAP {
        return;
    }
    let mut s = Src::replay(data);
    let mut c = Ctx::new(false, false);
    if let Err(f) = guarded(|| (p.run)(&mut s, &mut c)) {
        eprintln!("{} [{}]: {}", p.id, f.sig, f.msg);
        std::process::abort();
    }
});
