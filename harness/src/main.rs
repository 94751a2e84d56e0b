//! Bounded model checking of the trajectory simulator by exhaustive execution
//! of the real code. See DESIGN.md.

mod ctx;
mod model;
mod props;
mod sut;

use ctx::{Ctx, Violation};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;
use std::time::{Duration, Instant};

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn known(path: &str, prop: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known findings file");
    v["open"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == prop)
                .map(|e| (e["key"].as_str().unwrap().to_string(), e["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

fn result_json(c: &Ctx, viol: &Option<Violation>) -> Value {
    json!({
        "cases": c.cases, "total": c.total_cases(), "executions": c.executions, "steps": c.steps,
        "finished": c.finished, "aborted": c.aborted, "rejected": c.rejected, "endless": c.endless,
        "comparisons": c.comparisons, "skipped": c.skipped,
        "states": c.states.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(" "),
        "samples": c.samples, "truncated": c.truncated,
        "known": c.known_hit.iter().collect::<Vec<_>>(),
        "violation": viol.as_ref().map(|v| json!({"idx": v.idx, "key": v.key, "msg": v.msg, "configs": v.configs})),
    })
}

fn worker(args: &[String]) -> i32 {
    let id = args[0].clone();
    let thorough = arg(args, "--tier") == Some("thorough");
    let shard = arg(args, "--shard").unwrap_or("0").parse().unwrap();
    let n = arg(args, "--of").unwrap_or("1").parse().unwrap();
    let only = arg(args, "--only").map(|s| s.parse().unwrap());
    let deadline = arg(args, "--deadline").unwrap_or("100000").parse().unwrap();
    let out = arg(args, "--out").unwrap().to_string();
    let keys = arg(args, "--known").map(|p| known(p, &id)).unwrap_or_default();
    let mut ctx =
        Ctx::new(thorough, shard, n, only, keys.into_iter().map(|k| k.0).collect(), deadline);

    // A case that neither prints nor ends
    let cur = ctx.cur.clone();
    let wout = out.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = cur.lock().unwrap().clone();
        if c.started.map(|s| s.elapsed().as_secs() > 60).unwrap_or(false) {
            let v = json!({"hang": true, "violation": {"idx": c.idx, "key": "hang",
                "msg": "the execution did not end and printed nothing for 60 s", "configs": c.configs}});
            let _ = std::fs::write(&wout, v.to_string());
            std::process::exit(0);
        }
    });

    let f = props::lookup(&id).unwrap_or_else(|| panic!("no property {id}"));
    f(&mut ctx);
    ctx.cur.lock().unwrap().started = None;
    let viol = ctx.viol.clone();
    std::fs::write(&out, result_json(&ctx, &viol).to_string()).expect("result file");
    0
}

fn master(args: &[String]) -> i32 {
    let start = Instant::now();
    let id = args[0].clone();
    let tier = arg(args, "--tier").unwrap_or("quick").to_string();
    let seed: i64 = arg(args, "--seed").unwrap_or("1").parse().unwrap_or(1);
    let jobs: u64 = arg(args, "--jobs").unwrap_or("8").parse().unwrap();
    let verif = arg(args, "--verif").unwrap_or("/verif").to_string();
    let deadline = arg(args, "--deadline").unwrap_or(if tier == "quick" { "400" } else { "3000" });
    let kf = format!("{verif}/known_findings.json");
    let info = props::info(&id);
    let dir = std::env::temp_dir().join(format!("mcm-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for s in 0..jobs {
        let out = dir.join(format!("w{s}"));
        let k = std::process::Command::new(&exe)
            .args(["worker", &id, "--tier", &tier, "--shard", &s.to_string(), "--of", &jobs.to_string()])
            .args(["--deadline", deadline, "--known", &kf, "--out"])
            .arg(&out)
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("worker");
        kids.push((k, out));
    }
    let mut viol: Option<Value> = None;
    let mut sum = std::collections::BTreeMap::<&str, u64>::new();
    let mut states = HashSet::new();
    let mut samples = vec![];
    let mut known_hit = HashSet::new();
    let mut total = 0;
    let mut truncated = false;
    let mut err = false;
    for (mut k, out) in kids {
        let st = k.wait().unwrap();
        let Ok(t) = std::fs::read_to_string(&out) else {
            eprintln!("worker ended without a result ({st})");
            err = true;
            continue;
        };
        let v: Value = serde_json::from_str(&t).unwrap();
        for f in ["cases", "executions", "steps", "finished", "aborted", "rejected", "endless", "comparisons", "skipped"] {
            *sum.entry(f).or_default() += v[f].as_u64().unwrap_or(0);
        }
        total = total.max(v["total"].as_u64().unwrap_or(0));
        truncated |= v["truncated"].as_bool().unwrap_or(false);
        for h in v["states"].as_str().unwrap_or("").split_whitespace() {
            states.insert(u64::from_str_radix(h, 16).unwrap());
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if samples.len() < 3 {
                samples.push(s.clone());
            }
        }
        for s in v["known"].as_array().into_iter().flatten() {
            known_hit.insert(s.as_str().unwrap().to_string());
        }
        let w = &v["violation"];
        if !w.is_null() && viol.as_ref().map(|o| w["idx"].as_u64() < o["idx"].as_u64()).unwrap_or(true) {
            viol = Some(w.clone());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if err && viol.is_none() {
        eprintln!("a worker failed: no answer");
        return 2;
    }
    let exhaustive = !truncated && viol.is_none();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states.len(), "transitions": sum["steps"],
            "traces_validated_against_impl": sum["finished"] + sum["aborted"] + sum["rejected"] + sum["endless"],
            "cases": sum["cases"], "cases_in_bound": total, "executions": sum["executions"],
            "executions_finished": sum["finished"], "executions_aborted": sum["aborted"],
            "executions_rejected": sum["rejected"], "executions_endless": sum["endless"],
            "oracle_comparisons": sum["comparisons"], "cases_left_open": sum["skipped"],
            "exhaustive": exhaustive,
            "bound": info.bound(tier == "thorough"),
            "rule": "states: distinct printed step blocks and final states (64-bit hashes, union over workers); transitions: integration steps executed by the real code; traces: complete executions of the real code compared with the oracle",
            "samples": samples,
        },
        "assumptions": info.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": viol.is_some() as u32,
    });
    std::fs::create_dir_all(format!("{verif}/evidence")).unwrap();
    std::fs::write(format!("{verif}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (k, what) in known(&kf, &id) {
        if known_hit.contains(&k) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    println!(
        "{id} {tier}: {} of {} cases, {} executions, {} steps, {} states, {} comparisons, {} left open, {:.1} s{}",
        sum["cases"], total, sum["executions"], sum["steps"], states.len(), sum["comparisons"], sum["skipped"],
        start.elapsed().as_secs_f64(), if truncated { " (TRUNCATED by the deadline)" } else { "" }
    );
    if let Some(v) = viol {
        std::fs::create_dir_all(format!("{verif}/replays")).unwrap();
        let path = format!("{verif}/replays/{id}.json");
        let rep = json!({
            "property": id, "tier": tier, "case": v["idx"], "what": v["key"], "detail": v["msg"],
            "configs": v["configs"],
            "how": format!("bash {verif}/check.sh replay {path}"),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("  case {}: {}", v["idx"], v["msg"].as_str().unwrap_or("").chars().take(3000).collect::<String>());
        if let Some(c) = v["configs"].as_array().and_then(|c| c.last()) {
            let s = c.as_str().unwrap_or("");
            println!("  last configuration: {}", s.chars().take(2000).collect::<String>());
        }
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if truncated {
        eprintln!("the bound was not explored completely");
        return 2;
    }
    0
}

fn replay(args: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let out = std::env::temp_dir().join(format!("mcr-{}", std::process::id()));
    let exe = std::env::current_exe().unwrap();
    std::process::Command::new(exe)
        .args(["worker", &id, "--tier", v["tier"].as_str().unwrap(), "--only", &v["case"].to_string(), "--out"])
        .arg(&out)
        .stdout(std::process::Stdio::null())
        .status()
        .unwrap();
    let r: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
    let _ = std::fs::remove_file(&out);
    if r["violation"].is_null() {
        println!("case {} of {id} holds on the current tree", v["case"]);
        return 0;
    }
    println!("{}", serde_json::to_string_pretty(&r["violation"]).unwrap());
    println!("VIOLATION property={id} replay={}", args[0]);
    1
}

/// Runs a single configuration file and prints the final state.
fn show(args: &[String]) -> i32 {
    let mut s = sut::Sut::new();
    let o = s.run_text(&std::fs::read(&args[0]).unwrap());
    let mut out = s.stdout.take().unwrap();
    let _ = writeln!(out, "{}\n{:#?}", s.last_output, o);
    if args.iter().any(|a| a == "--model") {
        let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
        match model::simulate(&cfg, 100_000) {
            Ok(t) => {
                for p in &t.phases {
                    let (a, b) = (&p[0], &p[p.len() - 1]);
                    let _ = writeln!(out, "MODEL phase {} steps from {} to {}; last {:#?}", p.len() - 1, a.t, b.t, b);
                }
            }
            Err(e) => {
                let _ = writeln!(out, "MODEL {e}");
            }
        }
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = &args[1.min(args.len())..];
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => master(rest),
        Some("worker") => worker(rest),
        Some("replay") => replay(rest),
        Some("show") => show(rest),
        Some("once") => {
            if let (Some(v), Some(d)) = (rest.get(1), rest.get(2)) {
                elsewhere::pretend(v, d.parse().unwrap());
            }
            let r = props::once(&rest[0]);
            print!("{r}");
            0
        }
        Some("list") => {
            for p in props::ids() {
                println!("{p}");
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}

/// Stand-ins for what the process learns from its surroundings: every variable
/// of the environment has the same given value, the clocks are shifted, and every
/// file which does not exist does.
/// They take the place of those of the C library in this program.
mod elsewhere {
    use std::ffi::{c_char, c_int, c_long, CStr, CString};
    use std::sync::atomic::{AtomicI64, AtomicPtr, Ordering::SeqCst};

    static VALUE: AtomicPtr<c_char> = AtomicPtr::new(std::ptr::null_mut());
    static SHIFT: AtomicI64 = AtomicI64::new(0);

    extern "C" {
        static environ: *const *const c_char;
        fn syscall(n: c_long, ...) -> c_long;
    }

    pub fn pretend(value: &str, shift: i64) {
        VALUE.store(CString::new(value).unwrap().into_raw(), SeqCst);
        SHIFT.store(shift, SeqCst);
    }

    /// # Safety
    /// As getenv(3).
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let name = CStr::from_ptr(name).to_bytes();
        let v = VALUE.load(SeqCst);
        // what the test driver itself and the runtime look at
        let own = [&b"RUST"[..], b"TMPDIR", b"MC", b"LD_", b"MALLOC", b"GLIBC"].iter().any(|p| name.starts_with(p));
        if !v.is_null() && !own {
            return v;
        }
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let b = CStr::from_ptr(*e).to_bytes();
            if b.len() > name.len() && b.starts_with(name) && b[name.len()] == b'=' {
                return (*e).add(name.len() + 1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }

    #[cfg(target_arch = "x86_64")]
    const CALLS: [c_long; 4] = [257, 332, 269, 319];
    #[cfg(target_arch = "aarch64")]
    const CALLS: [c_long; 4] = [56, 291, 48, 279];

    /// Whether a file which is missing is there nevertheless.
    unsafe fn appears(r: c_long, path: *const c_char) -> bool {
        let kept = [&b"/proc"[..], b"/sys", b"/dev", b"/lib", b"/usr", b"/etc"].iter().any(|p| CStr::from_ptr(path).to_bytes().starts_with(p));
        r < 0 && !VALUE.load(SeqCst).is_null() && std::io::Error::last_os_error().raw_os_error() == Some(2) && !kept
    }

    unsafe fn open_(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        let r = syscall(CALLS[0], dir, path, flags, mode);
        // (not what is to be created, nor a folder)
        if appears(r, path) && flags & 0o100 == 0 && flags & 0o200000 == 0 {
            let fd = syscall(CALLS[3], c"elsewhere".as_ptr(), 0 as c_int);
            let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fd as c_int);
            let _ = std::io::Write::write_all(&mut f, CStr::from_ptr(VALUE.load(SeqCst)).to_bytes());
            let _ = std::io::Seek::rewind(&mut f);
            return std::os::fd::IntoRawFd::into_raw_fd(f);
        }
        r as c_int
    }

    /// # Safety
    /// As open(2).
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        open_(-100, path, flags, mode)
    }

    /// # Safety
    /// As openat(2).
    #[no_mangle]
    pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        open_(dir, path, flags, mode)
    }

    /// # Safety
    /// As statx(2).
    #[no_mangle]
    pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
        let r = syscall(CALLS[1], dir, path, flags, mask, buf);
        if appears(r, path) {
            return syscall(CALLS[1], dir, c"/proc/self/exe".as_ptr(), 0 as c_int, mask, buf) as c_int;
        }
        r as c_int
    }

    /// # Safety
    /// As access(2).
    #[no_mangle]
    pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
        faccessat(-100, path, mode, 0)
    }

    /// # Safety
    /// As faccessat(2).
    #[no_mangle]
    pub unsafe extern "C" fn faccessat(dir: c_int, path: *const c_char, mode: c_int, _flags: c_int) -> c_int {
        let r = syscall(CALLS[2], dir, path, mode);
        if appears(r, path) {
            return 0;
        }
        r as c_int
    }

    /// # Safety
    /// As clock_gettime(2).
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut [i64; 2]) -> c_int {
        #[cfg(target_arch = "x86_64")]
        const CALL: c_long = 228;
        #[cfg(target_arch = "aarch64")]
        const CALL: c_long = 113;
        let r = syscall(CALL, clock, t);
        if r == 0 && clock <= 1 {
            (*t)[0] += SHIFT.load(SeqCst);
        }
        r as c_int
    }
}
