//! What the plot script makes of the output.

use super::attitude::lively;
use super::*;
use crate::sut::Outcome;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};

type Prop = (&'static str, F, Info);

pub fn props() -> Vec<Prop> {
    vec![reg(
        "C27",
        c27,
        "every phase count from 1 to 40; 13 scales of distance and speed x 26 directions from the planet's centre x 26 directions of the velocity; every split of 12 steps into 1 to 3 phases; output from a file and from standard input; flights of tens of thousands of steps",
        "7 further signs and digits per scale; splits into 1 to 5 phases",
    )]
}

/// The script, run without a screen (see `plot/host.py`).
struct Host {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
    path: std::path::PathBuf,
}

impl Host {
    fn new() -> Self {
        let python = "/opt/veriftools/pyvenv/bin/python";
        let python = if std::path::Path::new(python).exists() { python } else { "python3-vt" };
        let mut child = Command::new(python)
            .args(["-B", concat!(env!("CARGO_MANIFEST_DIR"), "/plot/host.py"), "/repo/utils/plot/plot.py"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("python");
        let out = BufReader::new(child.stdout.take().unwrap());
        let path = std::env::temp_dir().join(format!("mc-plot-{}", std::process::id()));
        Host { child, out, path }
    }

    fn plot(&mut self, text: &str, how: &str) -> Value {
        std::fs::write(&self.path, text).expect("scratch file");
        let sent = writeln!(self.child.stdin.as_mut().unwrap(), "{how} {}", self.path.display());
        let mut line = String::new();
        let got = self.out.read_line(&mut line);
        if sent.is_err() || got.is_err() || line.is_empty() {
            eprintln!("the plot script ended its host");
            std::process::exit(2);
        }
        let v: Value = serde_json::from_str(&line).expect("answer of the host");
        if let Some(u) = v["unsupported"].as_str() {
            eprintln!("the plot script uses what the stand-ins for its libraries lack: {u}");
            std::process::exit(2);
        }
        v
    }
}

impl Drop for Host {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.path);
    }
}

/// What the output says: phase, position and velocity of each block. None if
/// there are numbers which are not finite, or less than two blocks.
fn printed(text: &str) -> Option<Vec<(u64, V3, V3)>> {
    let mut o = vec![];
    let (mut phase, mut field) = (0, "");
    let (mut r, mut v) = (vec![], vec![]);
    for line in text.lines() {
        if let Some(n) = line.strip_prefix("Starting Phase ") {
            phase = n.trim().parse().ok()?;
        } else if line.starts_with("Position:") {
            field = "r";
        } else if line.starts_with("Velocity:") {
            field = "v";
        } else if line.starts_with("Altitude:") {
            field = "";
        } else if let Some(x) = line.trim().strip_prefix('│') {
            let x = x.trim_end_matches('│').trim();
            if x.is_empty() {
                continue;
            }
            let x: f64 = x.parse().ok().filter(|x: &f64| x.is_finite())?;
            match field {
                "r" => r.push(x),
                "v" => v.push(x),
                _ => {}
            }
        } else if line.starts_with("Prop mass:") {
            o.push((phase, r[..].try_into().ok()?, v[..].try_into().ok()?));
            r.clear();
            v.clear();
        }
    }
    (o.len() > 1).then_some(o)
}

fn drawn(ctx: &mut Ctx, host: &mut Host, cfg: &Value) {
    let c = &cfg[0];
    let long = c["end_criterion"][1].as_f64().unwrap_or(0.) / c["stepsize"].as_f64().unwrap_or(1.) > 200. && c["end_criterion"][0] == "time_since_event";
    let old = ctx.sut.budget;
    // (long flights are few)
    ctx.sut.budget = if long { 12 << 20 } else { 200_000 };
    let o = ctx.run(cfg);
    ctx.sut.budget = old;
    if matches!(o, Outcome::Rejected(_)) {
        ctx.fail("run", o.brief());
        return;
    }
    if matches!(o, Outcome::Endless) {
        ctx.skipped += 1;
        return;
    }
    let text = ctx.sut.last_output.clone();
    let Some(want) = printed(&text) else {
        ctx.skipped += 1;
        return;
    };
    let n = want.len();
    let km = |x: V3| x.map(|c| c / 1e3);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs() + 1e-12;
    for how in ["file", "stdin"] {
        let p = host.plot(&text, how);
        if let Some(e) = p["error"].as_str() {
            ctx.fail("the script", format!("from {how}: {e}"));
            return;
        }
        let row = |a: &Value, b: V3| (0..3).all(|i| a[i].as_f64().is_some_and(|x| near(x, b[i])));
        let all = |a: &Value| a.as_array().is_some_and(|a| a.len() == n && (0..n).all(|k| row(&a[k], km(want[k].1))));
        ctx.check("line", p["lines"].as_array().is_some_and(|l| l.iter().any(all)), || {
            format!("from {how}: printed {want:?}, drawn {}", brief(&p["lines"]))
        });
        let speed = |a: &Value| {
            a.as_array().is_some_and(|a| a.len() == n && (0..n).all(|k| a[k].as_f64().is_some_and(|x| near(x, crate::sut::norm(km(want[k].2))))))
        };
        ctx.check("colours", p["scalars"].as_array().is_some_and(|l| l.iter().any(speed)), || {
            format!("from {how}: printed {want:?}, colours {}", brief(&p["scalars"]))
        });
        // what is coloured is within the range of the colours
        let most = want.iter().map(|w| crate::sut::norm(km(w.2))).fold(0., f64::max);
        let least = want.iter().map(|w| crate::sut::norm(km(w.2))).fold(f64::INFINITY, f64::min);
        let wide = |a: &Value| a[0].as_f64().is_some_and(|x| x <= least + 1e-9) && a[1].as_f64().is_some_and(|x| x >= most * (1. - 1e-9));
        ctx.check("range of the colours", p["clims"].as_array().is_none_or(|l| l.iter().all(wide)), || {
            format!("from {how}: speeds from {least} to {most} km/s, range {}", brief(&p["clims"]))
        });
        // the Earth is to the same scale, where its size is given in numbers
        let earth = |a: &Value| a.as_f64().is_none_or(|x| (6356. ..=6379.).contains(&x));
        ctx.check("size of the Earth", p["radii"].as_array().is_none_or(|l| l.iter().all(earth)), || {
            format!("from {how}: radii {} in km", brief(&p["radii"]))
        });
        let mut starts: Vec<(u64, V3)> = vec![];
        for (k, r, _) in &want {
            if starts.last().map(|s| s.0) != Some(*k) {
                starts.push((*k, km(*r)));
            }
        }
        let labels = |a: &Value| {
            let (Some(points), Some(names)) = (a[0].as_array(), a[1].as_array()) else { return false };
            points.len() == starts.len()
                && names.len() == starts.len()
                && starts.iter().all(|(k, r)| {
                    (0..names.len()).any(|i| {
                        let digits: String = names[i].as_str().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
                        digits == k.to_string() && row(&points[i], *r)
                    })
                })
        };
        ctx.check("labels", p["labels"].as_array().is_some_and(|l| l.iter().any(labels)), || {
            format!("from {how}: phases start at {starts:?}, labels {}", brief(&p["labels"]))
        });
    }
}

fn brief(v: &Value) -> String {
    v.to_string().chars().take(1500).collect()
}

fn c27(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let mut host = Host::new();
    // numbers of phases
    for n in 1..=40 {
        if ctx.next() {
            let mut c = vec![lively()];
            set(&mut c[0], "end_criterion", json!(["time_since_event", 0.1]));
            set(&mut c[0], "stepsize", json!(0.05));
            c.resize(n, json!({}));
            drawn(ctx, &mut host, &json!(c));
        }
    }
    // long flights
    for (steps, phases) in [(300, 1), (1200, 3), (5000, 2), (11000, 1), (25000, 1), (40, 300), (3, 1200)] {
        if ctx.next() {
            let mut c = vec![lively()];
            set(&mut c[0], "init.altitude", json!(2e5));
            set(&mut c[0], "planet_model", custom(6e6, 6e6, 4e12, [0.; 3], 1e-3));
            set(&mut c[0], "end_criterion", json!(["time_since_event", 0.25 * steps as f64]));
            set(&mut c[0], "stepsize", json!(0.25));
            c.resize(phases, json!({}));
            drawn(ctx, &mut host, &json!(c));
        }
    }
    // widths and signs of the numbers
    let dirs = |f: f64| {
        let mut o = vec![];
        for lat in [-90., -45., -0.3, 0., 20., 90.] {
            for lon in [0., 45., 90., 135., 180., 225., 270., 315.] {
                if f64::abs(lat) < 90. || lon == 0. {
                    o.push((lat * f, lon * f));
                }
            }
        }
        o
    };
    let factors: &[f64] = if th { &[1., 0.99, 0.9, 0.7, 0.37, 0.1, 0.01, 1e-4] } else { &[1.] };
    for e in 0..13 {
        for f in factors {
            for (k, (lat, lon)) in dirs(*f).into_iter().enumerate() {
                for (l, (a, b)) in dirs(1.).into_iter().enumerate() {
                    if !th && (k + l) % 3 > 0 {
                        continue;
                    }
                    if !ctx.next() {
                        continue;
                    }
                    let r = 10f64.powi(e) * (1. + 0.077 * e as f64);
                    // pushed in this direction
                    let push = 10f64.powi((e + 5) % 7);
                    let mut c = json!({"init": init(lat, lon, b, 0.), "planet_model": custom(r, r, 1e-9, [0.; 3], 0.),
                        "vehicle": {"structure_mass": 1000.0, "engines": [engine([0., 0.], 1e3 * push, 1e12, 0.)]},
                        "steering": {"pitch": ["mass", [a / 1000., 0., 0.]]},
                        "stepsize": 1.0, "end_criterion": ["time_since_event", 3.0]});
                    if e % 2 == 0 {
                        set(&mut c, "stepsize", json!(0.7));
                    }
                    drawn(ctx, &mut host, &json!([c, {}]));
                }
            }
        }
    }
    // phases of every length
    let steps = 12;
    let most = if th { 5 } else { 3 };
    for mask in 0u32..1 << (steps - 1) {
        if mask.count_ones() >= most || !ctx.next() {
            continue;
        }
        let mut c = vec![];
        let mut from = 0;
        for k in 1..=steps {
            if k == steps || mask >> (k - 1) & 1 == 1 {
                let mut p = if c.is_empty() { lively() } else { json!({}) };
                set(&mut p, "stepsize", json!(0.5));
                set(&mut p, "end_criterion", json!(["time_since_event", 0.5 * (k - from) as f64]));
                c.push(p);
                from = k;
            }
        }
        drawn(ctx, &mut host, &json!(c));
    }
    // in every regime
    wide::ball(ctx, &wide::AXES, if th { 2 } else { 1 }, &mut |ctx, spec| drawn(ctx, &mut host, &json!(spec.phases())));
}
