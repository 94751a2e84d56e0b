//! The system under test: the real `sim` library, driven through its public
//! entry points (`Simulation::from_file` and `run`), one execution at a time.
//!
//! Standard output is redirected to an in-memory file, so the per-step trace
//! the simulator prints is observed as well as the final state it returns.

use std::cell::RefCell;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    fn getrlimit(r: i32, lim: *mut [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
}

/// How often the present execution tried to print more than it may.
static BEYOND: AtomicU32 = AtomicU32::new(0);
/// Whether this is a process for one execution only.
static CHILD: AtomicU32 = AtomicU32::new(0);
const GIVEN_UP: i32 = 77;

/// A write beyond the limit fails. The simulator panics then, unless it does
/// not care about its output: a process of its own can end there.
extern "C" fn beyond(_: i32) {
    if BEYOND.fetch_add(1, SeqCst) > 50 && CHILD.load(SeqCst) == 1 {
        unsafe { _exit(GIVEN_UP) }
    }
}

/// Limits what may be written to a file; only while the simulator runs.
fn limit_files(size: u64) {
    unsafe {
        let mut l = [0; 2];
        getrlimit(1, &mut l);
        setrlimit(1, &[size.min(l[1]), l[1]]);
    }
}

pub type V3 = [f64; 3];

/// Every field of the state the simulator reports, as plain numbers.
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub t: f64,
    pub tse: f64,
    pub r: V3,
    pub rp: V3,
    pub alt: f64,
    pub altg: f64,
    pub v: V3,
    pub vp: V3,
    pub va: V3,
    pub acc: V3,
    pub thrust: V3,
    pub aero: V3,
    pub vacc: V3,
    pub grav: V3,
    pub m: f64,
    pub mp: f64,
    pub mdot: f64,
    pub temp: f64,
    pub p: f64,
    pub rho: f64,
    pub mach: f64,
    pub q: f64,
    pub alpha: f64,
    pub euler: V3,
    pub throttle: f64,
}

impl Snap {
    /// All fields as (name, value), scalars expanded.
    pub fn fields(&self) -> Vec<(String, f64)> {
        let mut o: Vec<(String, f64)> = vec![
            ("time".into(), self.t),
            ("time_since_event".into(), self.tse),
            ("altitude".into(), self.alt),
            ("altitude_geopotential".into(), self.altg),
            ("mass".into(), self.m),
            ("propellant_mass".into(), self.mp),
            ("massflow".into(), self.mdot),
            ("temperature".into(), self.temp),
            ("pressure".into(), self.p),
            ("density".into(), self.rho),
            ("mach_number".into(), self.mach),
            ("dynamic_pressure".into(), self.q),
            ("alpha".into(), self.alpha),
            ("euler_angles_roll".into(), self.euler[0]),
            ("euler_angles_yaw".into(), self.euler[1]),
            ("euler_angles_pitch".into(), self.euler[2]),
            ("throttle".into(), self.throttle),
        ];
        for (n, v) in self.vectors() {
            for i in 0..3 {
                o.push((format!("{n}{}", i + 1), v[i]));
            }
        }
        o
    }

    pub fn vectors(&self) -> [(&'static str, V3); 9] {
        [
            ("position", self.r),
            ("position_planet", self.rp),
            ("velocity", self.v),
            ("velocity_planet", self.vp),
            ("velocity_atmosphere", self.va),
            ("acceleration", self.acc),
            ("thrust_force_body", self.thrust),
            ("aero_force_body", self.aero),
            ("vehicle_acceleration_body", self.vacc),
        ]
    }

    /// The value a state variable of this name stands for.
    pub fn var(&self, name: &str) -> f64 {
        let vecs: [(&str, &V3); 10] = [
            ("position_planet", &self.rp),
            ("position", &self.r),
            ("velocity_planet", &self.vp),
            ("velocity_atmosphere", &self.va),
            ("velocity", &self.v),
            ("vehicle_acceleration_body", &self.vacc),
            ("gravity_acceleration", &self.grav),
            ("acceleration", &self.acc),
            ("thrust_force_body", &self.thrust),
            ("aero_force_body", &self.aero),
        ];
        for (n, v) in vecs {
            if let Some(rest) = name.strip_prefix(n) {
                match rest {
                    "1" => return v[0],
                    "2" => return v[1],
                    "3" => return v[2],
                    "_norm" => return norm(*v),
                    _ => {}
                }
            }
        }
        match name {
            "time" => self.t,
            "time_since_event" => self.tse,
            "altitude" => self.alt,
            "altitude_geopotential" => self.altg,
            "mass" => self.m,
            "propellant_mass" => self.mp,
            "massflow" => self.mdot,
            "temperature" => self.temp,
            "pressure" => self.p,
            "density" => self.rho,
            "mach_number" => self.mach,
            "dynamic_pressure" => self.q,
            "alpha" => self.alpha,
            "euler_angles_roll" => self.euler[0],
            "euler_angles_yaw" => self.euler[1],
            "euler_angles_pitch" => self.euler[2],
            "throttle" => self.throttle,
            _ => panic!("harness: unknown variable {name}"),
        }
    }

    /// Everything but the time since the event.
    pub fn hash_without_event(&self) -> u64 {
        Snap { tse: 0., ..self.clone() }.hash()
    }

    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for (_, v) in self.fields() {
            v.to_bits().hash(&mut h);
        }
        for g in self.grav {
            g.to_bits().hash(&mut h);
        }
        h.finish()
    }
}

pub fn norm(v: V3) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

/// What one execution did.
#[derive(Clone, Debug)]
pub enum Outcome {
    /// `from_file` returned an error; nothing was simulated.
    Rejected(String),
    /// The run panicked (the simulator's way to abort loudly).
    Aborted(String),
    /// The run printed more than the budget allows: it does not end.
    Endless,
    /// The run finished.
    Done(Box<Snap>),
}

impl Outcome {
    pub fn brief(&self) -> String {
        match self {
            Outcome::Rejected(e) => format!("rejected: {e}"),
            Outcome::Aborted(e) => format!("aborted: {e}"),
            Outcome::Endless => "did not end within the output budget".into(),
            Outcome::Done(s) => format!("finished at time {} ({:?})", s.t, s),
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Sut {
    out: Option<File>,
    dir: PathBuf,
    /// Saved copy of the original stdout.
    pub stdout: Option<File>,
    pub last_output: String,
    /// Bytes the next executions may print.
    pub budget: u64,
    /// Every execution in a process of its own, because the simulator goes on
    /// when its output fails.
    pub forked: bool,
}

/// Bytes an execution may print (about 100 per step).
pub const BUDGET: u64 = 6 << 20;

/// The reported state as plain numbers.
macro_rules! snap {
    ($e:expr) => {{
        let s = $e;
        let v = |x: &[f64]| [x[0], x[1], x[2]];
        Snap {
            t: s.time,
            tse: s.time_since_event,
            r: v(s.position.as_slice()),
            rp: v(s.position_planet.as_slice()),
            alt: s.altitude,
            altg: s.altitude_geopotential,
            v: v(s.velocity.as_slice()),
            vp: v(s.velocity_planet.as_slice()),
            va: v(s.velocity_atmosphere.as_slice()),
            acc: v(s.acceleration.as_slice()),
            thrust: v(s.thrust_force_body.as_slice()),
            aero: v(s.aero_force_body.as_slice()),
            vacc: v(s.vehicle_acceleration_body.as_slice()),
            grav: v(s.gravity_acceleration.as_slice()),
            m: s.mass,
            mp: s.propellant_mass,
            mdot: s.massflow,
            temp: s.temperature,
            p: s.pressure,
            rho: s.density,
            mach: s.mach_number,
            q: s.dynamic_pressure,
            alpha: s.alpha,
            euler: [s.euler_angles[0], s.euler_angles[1], s.euler_angles[2]],
            throttle: s.throttle,
        }
    }};
}

impl Sut {
    /// Takes over fd 1 of this process.
    pub fn new() -> Self {
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let harness = i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
            if harness {
                eprintln!("harness panic: {i}");
            }
            PANIC.with(|p| *p.borrow_mut() = m);
        }));
        let dir = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch dir");
        let (out, stdout) = unsafe {
            let save = dup(1);
            let fd = memfd_create(b"out\0".as_ptr(), 1);
            assert!(fd >= 0, "memfd_create failed");
            assert!(dup2(fd, 1) == 1, "dup2 failed");
            // SIGXFSZ handled: a write beyond the limit fails
            signal(25, beyond as *const () as usize);
            limit_files(BUDGET);
            (File::from_raw_fd(fd), File::from_raw_fd(save))
        };
        let mut s = Self { out: Some(out), dir, stdout: Some(stdout), last_output: String::new(), budget: BUDGET, forked: false };
        s.forked = s.goes_on();
        if s.forked {
            eprintln!("the simulator goes on when its output fails: one process per execution");
        }
        s
    }

    /// Whether an execution which does not end goes on when its output fails.
    fn goes_on(&mut self) -> bool {
        let path = self.path();
        let text = r#"[{"init": {"latitude": 0.0, "longitude": 0.0, "azimuth": 0.0, "altitude": 1e6}, "vehicle": {"structure_mass": 1.0},
            "stepsize": 1e-6, "end_criterion": ["time", 1e6]}]"#;
        std::fs::write(&path, text).expect("scratch file");
        let child = unsafe { fork() };
        if child == 0 {
            CHILD.store(1, SeqCst);
            limit_files(4096);
            unsafe { alarm(5) };
            let _ = std::panic::catch_unwind(|| sim::Simulation::from_file(&path).map(|s| snap!(s.run())).is_ok());
            unsafe { _exit(0) }
        }
        let mut status = 0;
        unsafe { waitpid(child, &mut status, 0) };
        self.reset_output();
        status == GIVEN_UP << 8
    }

    /// Runs in a child process, which sends back what came of it.
    fn in_child(&mut self, f: impl FnOnce() -> Outcome + std::panic::UnwindSafe) -> Outcome {
        let mut fds = [0; 2];
        assert!(unsafe { pipe(fds.as_mut_ptr()) } == 0, "pipe failed");
        let (mut from, to) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
        let child = unsafe { fork() };
        assert!(child >= 0, "fork failed");
        if child == 0 {
            CHILD.store(1, SeqCst);
            limit_files(self.budget);
            let o = caught(f);
            limit_files(u64::MAX);
            let text = match &o {
                Outcome::Done(s) => {
                    // the same program reads it
                    let b: &Snap = s;
                    let b = unsafe { std::slice::from_raw_parts(b as *const Snap as *const u8, std::mem::size_of::<Snap>()) };
                    [&[0u8], b].concat()
                }
                Outcome::Rejected(e) => [&[1u8], e.as_bytes()].concat(),
                Outcome::Aborted(e) => [&[2u8], e.as_bytes()].concat(),
                Outcome::Endless => vec![3],
            };
            let _ = (&to).write_all(&text);
            unsafe { _exit(0) }
        }
        drop(to);
        let mut got = Vec::new();
        from.read_to_end(&mut got).expect("pipe");
        let mut status = 0;
        unsafe { waitpid(child, &mut status, 0) };
        match got.split_first() {
            Some((0, b)) if b.len() == std::mem::size_of::<Snap>() => {
                let mut s = Snap::default();
                unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), &mut s as *mut Snap as *mut u8, b.len()) };
                Outcome::Done(Box::new(s))
            }
            Some((1, e)) => Outcome::Rejected(String::from_utf8_lossy(e).into_owned()),
            Some((2, e)) => Outcome::Aborted(String::from_utf8_lossy(e).into_owned()),
            Some((3, _)) => Outcome::Endless,
            _ if status == GIVEN_UP << 8 => Outcome::Endless,
            _ => Outcome::Aborted(format!("the process ended with status {status:#x}")),
        }
    }

    fn reset_output(&mut self) {
        let f = self.out.as_mut().unwrap();
        f.set_len(0).unwrap();
        f.seek(SeekFrom::Start(0)).unwrap();
    }

    pub fn path(&self) -> PathBuf {
        self.dir.join("c.json")
    }

    /// Loads and runs one configuration.
    pub fn run_text(&mut self, text: &[u8]) -> Outcome {
        let path = self.path();
        std::fs::write(&path, text).expect("scratch file");
        self.execute(move || match sim::Simulation::from_file(&path) {
            Ok(s) => Outcome::Done(Box::new(snap!(s.run()))),
            Err(e) => Outcome::Rejected(e.to_string()),
        })
    }

    /// Loads one configuration, runs it `before` times, and then once more,
    /// which is the result.
    pub fn run_again(&mut self, text: &[u8], before: usize) -> Outcome {
        let path = self.path();
        std::fs::write(&path, text).expect("scratch file");
        self.execute(move || match sim::Simulation::from_file(&path) {
            Ok(s) => {
                for _ in 0..before {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let _ = snap!(s.run());
                    }));
                }
                println!("-- again --");
                Outcome::Done(Box::new(snap!(s.run())))
            }
            Err(e) => Outcome::Rejected(e.to_string()),
        })
    }

    /// Loads and runs one configuration in a new thread, from another path.
    pub fn run_in_thread(&mut self, text: &[u8]) -> Outcome {
        let path = self.dir.join("somewhere else");
        std::fs::create_dir_all(&path).expect("scratch dir");
        let path = path.join("ö.txt");
        std::fs::write(&path, text).expect("scratch file");
        self.execute(move || {
            let t = std::thread::spawn(move || match sim::Simulation::from_file(&path) {
                Ok(s) => Outcome::Done(Box::new(snap!(s.run()))),
                Err(e) => Outcome::Rejected(e.to_string()),
            });
            match t.join() {
                Ok(o) => o,
                Err(_) => Outcome::Aborted(String::new()),
            }
        })
    }

    fn execute(&mut self, f: impl FnOnce() -> Outcome + std::panic::UnwindSafe) -> Outcome {
        self.reset_output();
        let res = if self.forked {
            self.in_child(f)
        } else {
            limit_files(self.budget);
            caught(f)
        };
        let f = self.out.as_mut().unwrap();
        f.seek(SeekFrom::Start(0)).unwrap();
        let mut raw = Vec::new();
        f.read_to_end(&mut raw).unwrap();
        self.last_output = String::from_utf8_lossy(&raw).into_owned();
        limit_files(u64::MAX);
        if matches!(res, Outcome::Endless) {
            // drop what is left in the line buffer
            self.reset_output();
            println!();
            let _ = std::io::stdout().flush();
        }
        res
    }
}

/// The outcome, with the panics of the simulator told apart.
fn caught(f: impl FnOnce() -> Outcome + std::panic::UnwindSafe) -> Outcome {
    BEYOND.store(0, SeqCst);
    let res = std::panic::catch_unwind(f);
    let _ = std::io::stdout().flush();
    match res {
        // it may have kept back the last of its output
        Ok(o) if BEYOND.load(SeqCst) == 0 => o,
        Err(_) if BEYOND.load(SeqCst) == 0 => Outcome::Aborted(PANIC.with(|p| p.borrow().clone())),
        _ => Outcome::Endless,
    }
}

/// Gives fd 1 back.
pub fn restore(s: &mut Sut) {
    use std::os::fd::AsRawFd;
    if let Some(f) = s.stdout.take() {
        unsafe { dup2(f.as_raw_fd(), 1) };
    }
}

impl Drop for Sut {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
