//! Coverage-guided search over the same cases, with the same oracles: libFuzzer makes the bytes
//! from which a part's generator takes its choices (feature `fuzz`, see fuzz.sh).

use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// The part to search, in a process that does nothing else.
pub fn part() -> Option<String> {
    std::env::var("VERIF_FUZZ").ok()
}

pub fn seconds() -> u64 {
    std::env::var("VERIF_FUZZ_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(30)
}

#[cfg(feature = "fuzz")]
mod run {
    use std::cell::RefCell;
    use std::os::raw::{c_char, c_int};

    extern "C" {
        fn LLVMFuzzerRunDriver(
            argc: *mut c_int,
            argv: *mut *mut *mut c_char,
            cb: extern "C" fn(*const u8, usize) -> c_int,
        ) -> c_int;
    }

    type Target<'a> = Box<dyn FnMut(&[u8]) + 'a>;
    thread_local! {
        static TARGET: RefCell<Option<Target<'static>>> = const { RefCell::new(None) };
    }

    extern "C" fn one(data: *const u8, n: usize) -> c_int {
        let data = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, n) } };
        TARGET.with(|t| (t.borrow_mut().as_mut().expect("target"))(data));
        0
    }

    pub fn drive(args: Vec<String>, target: Target<'_>) {
        // lives until the driver ends the process
        let target: Target<'static> = unsafe { std::mem::transmute(target) };
        TARGET.with(|t| *t.borrow_mut() = Some(target));
        let mut argv: Vec<*mut c_char> = args
            .into_iter()
            .map(|a| std::ffi::CString::new(a).expect("argument").into_raw())
            .collect();
        let mut argc = argv.len() as c_int;
        argv.push(std::ptr::null_mut());
        let mut p = argv.as_mut_ptr();
        unsafe { LLVMFuzzerRunDriver(&mut argc, &mut p, one) };
    }
}

#[cfg(feature = "fuzz")]
pub fn drive<'a>(root: &Path, seed: u64, target: impl FnMut(&[u8]) + 'a) {
    let corpus = root.join("corpus");
    let _ = std::fs::create_dir_all(&corpus);
    // choices drawn as the other parts of the check draw them
    for k in 0..48u64 {
        let n = [200, 600, 2000, 4000][k as usize % 4];
        let p = crate::gen::Payload::new(n, 1, seed << 16 | k).bytes();
        let _ = std::fs::write(corpus.join(format!("start{}", k)), p);
    }
    let args = vec![
        "fuzz".into(),
        format!("-max_total_time={}", seconds()),
        format!("-seed={}", 1 + seed % 0x7FFF_FFFF),
        "-max_len=4096".into(),
        "-len_control=0".into(),
        "-use_value_profile=1".into(),
        "-rss_limit_mb=0".into(),
        "-malloc_limit_mb=0".into(),
        "-timeout=600".into(),
        "-detect_leaks=0".into(),
        "-print_final_stats=1".into(),
        "-handle_abrt=0".into(),
        "-handle_segv=0".into(),
        "-handle_bus=0".into(),
        "-handle_ill=0".into(),
        "-handle_fpe=0".into(),
        "-reload=0".into(),
        format!("-artifact_prefix={}/", root.display()),
        corpus.display().to_string(),
    ];
    run::drive(args, Box::new(target));
}

#[cfg(not(feature = "fuzz"))]
pub fn drive<'a>(_: &Path, _: u64, _: impl FnMut(&[u8]) + 'a) {
    eprintln!("check error: built without libFuzzer");
    std::process::exit(2);
}

fn binary(root: &Path) -> PathBuf {
    root.join("harness/target/fuzz/target/debug/pkstl-verif")
}

/// What one campaign did.
pub struct Done {
    pub part: String,
    pub stats: Value,
    /// A case that failed there, to be confirmed.
    pub failed: Option<Value>,
}

fn campaign(root: &Path, id: &str, part: &str, seed: u64, secs: u64, k: usize) -> Done {
    let dir = root.join("evidence/fuzz").join(format!("{}-{}-{}", id, part, k));
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::copy(root.join("KNOWN_FINDINGS.txt"), dir.join("KNOWN_FINDINGS.txt"));
    let log = dir.join("log");
    let st = std::fs::File::create(&log).and_then(|f| {
        Command::new(binary(root))
            .arg(id)
            .env("VERIF_CHILD", "1")
            .env("VERIF_FUZZ", part)
            .env("VERIF_FUZZ_SECONDS", secs.to_string())
            .env("VERIF_ROOT", &dir)
            .env("VERIF_TIER", "quick")
            .env("VERIF_SEED", (seed * 1000 + k as u64).to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(f)
            .status()
    });
    let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
    let number = |what: &str| -> u64 {
        text.lines()
            .rev()
            .find_map(|l| l.split(what).nth(1))
            .and_then(|r| r.trim_start_matches([':', ' ']).split(|c: char| !c.is_ascii_digit()).next()?.parse().ok())
            .unwrap_or(0)
    };
    let counts: Value = std::fs::read(dir.join("counts.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
    let stats = json!({
        "part": part, "campaign": k, "seconds": secs, "counts": counts,
        "coverage": number(" cov:"), "features": number(" ft:"), "corpus": number(" corp:"),
        "ended": st.as_ref().map(|s| s.to_string()).unwrap_or_else(|e| e.to_string()),
    });
    let mut failed = None;
    if !st.map_or(false, |s| s.success()) {
        // what it kept, or what was running when it died
        let kept = std::fs::read_dir(dir.join("evidence/replay")).into_iter().flatten().flatten();
        failed = kept
            .filter_map(|e| serde_json::from_slice(&std::fs::read(e.path()).ok()?).ok())
            .chain(crate::driver::traced(&dir, id))
            .next();
    }
    let _ = std::fs::remove_dir_all(&dir);
    Done { part: part.to_string(), stats, failed }
}

/// Campaigns for each of these parts, as many at a time as there are processors.
pub fn campaigns(root: &Path, id: &str, parts: &[String], seed: u64, threads: usize, total: u64) -> Vec<Done> {
    if parts.is_empty() || !binary(root).exists() {
        return vec![];
    }
    let secs = (total / parts.len() as u64).max(10);
    let mut out = vec![];
    for p in parts {
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|k| sc.spawn(move || campaign(root, id, p, seed, secs, k))).collect();
            out.extend(hs.into_iter().map(|h| h.join().expect("campaign")));
        });
    }
    out
}
