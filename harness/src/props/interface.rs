//! What the user writes and reads: variable names, configuration, output,
//! the program.

use crate::model;
use super::attitude::{lively, STEER_VARS};
use super::phases::{c02_grid, end_ok};
use super::*;
use crate::sut::{Outcome, Snap};
use std::collections::HashMap;

pub fn props() -> Vec<(&'static str, F, Info)> {
    vec![
        reg(
            "C18",
            c18,
            "all 56 names as end criterion: 4 flights x 2 to 3 step sizes x every step interval of 14 x 9 targets inside; 39 names x 3 coefficient slots x 3 table axes x 12 instants of 5 flights; airspeed from ahead, behind, above and below",
            "28 step intervals x 19 targets; 40 instants",
        ),
        reg(
            "C19",
            c19,
            "8 documents; every single mutation of every node (27 replacements, removal, unknown, renamed and re-cased keys, array edits), every prefix, every byte removed or replaced by 14 characters, every field given twice; key orders and whitespace variants; tables of up to 150 nodes and documents of many phases with one thing wrong anywhere; misspelt names",
            "all pairs of 11 mutations over all nodes",
        ),
        reg(
            "C21",
            c21,
            "all length-3 sequences over 15 configurations in one process, each against a fresh process; repeated runs of one loaded simulation; another thread, path, directory and environment; all pairs of 12 sizes (phases, engines, table rows, length, steps) one after the other",
            "all length-4 sequences over 15 configurations",
        ),
        reg(
            "C22",
            c22,
            "the real program: 21 configurations (finishing, aborting, rejected, missing) x 4 spellings of the option x 13 spellings of the path; 30 wrong command lines; 4 informational ones; long files; standard input, pipes and named pipes",
            "each of them under 3 environments and 2 working directories",
        ),
        reg(
            "C25",
            c25,
            "6 flights x 4 step sizes x all compositions of 1 to 3 phases out of 5 phase kinds; every printed block against the state of the run which ends there; flights of up to 70,000 steps and 66,000 phases, steps down to 1e-5 s",
            "phase lists of up to 4",
        ),
    ]
}

// ---------------------------------------------------------------- C18

pub fn all_names() -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let vec3 = [
        "position", "position_planet", "velocity", "velocity_planet", "velocity_atmosphere", "acceleration",
        "thrust_force_body", "aero_force_body", "vehicle_acceleration_body", "gravity_acceleration",
    ];
    for v in vec3 {
        for s in ["1", "2", "3", "_norm"] {
            if v == "position_planet" && s == "_norm" {
                continue;
            }
            o.push(format!("{v}{s}"));
        }
    }
    for s in [
        "time", "time_since_event", "altitude", "altitude_geopotential", "mass", "propellant_mass", "massflow",
        "temperature", "pressure", "density", "mach_number", "dynamic_pressure", "alpha", "euler_angles_roll",
        "euler_angles_yaw", "euler_angles_pitch", "throttle",
    ] {
        o.push(s.into());
    }
    o
}

/// Flights on which everything changes.
fn busy() -> Vec<(Value, Vec<f64>)> {
    let mut a = lively();
    set(&mut a, "vehicle.engines", json!([engine([0.3, 0.2], 3.5e4, 300., 0.05), engine([-0.1, 0.5], 2e4, 250., 0.2)]));
    set(&mut a, "vehicle.lift_coeff", json!({"x": ["alpha", [-3.0, 3.0]], "data": [-0.5, 0.5]}));
    set(&mut a, "vehicle.side_force_coeff", json!({"x": ["mach_number", [0.0, 1.0]], "data": [0.1, 0.4]}));
    set(&mut a, "steering", json!({"roll": ["time_since_event", [4.0, 0.3, 0.0]], "yaw": ["time_since_event", [3.0, -0.2, 0.0]],
        "pitch": ["time_since_event", [-5.0, 0.0, 0.01]]}));
    let mut b = a.clone();
    set(&mut b, "max_acceleration", json!(20.0));
    set(&mut b, "init", init(-41., 250., 200., 4000.));
    set(&mut b, "vehicle.propellant_mass", json!(700.0));
    let mut c = a.clone();
    set(&mut c, "init", init(62., 15., 310., 12000.));
    set(&mut c, "planet_model", custom(RE, RP, MU, [1e-3, 0., 0.], 1e-3));
    set(&mut c, "vehicle.structure_mass", json!(400.0));
    // the first one as large as a Saturn V
    let mut d = a.clone();
    let k = 2500.;
    for name in ["structure_mass", "propellant_mass", "reference_area"] {
        let x = d["vehicle"][name].as_f64().unwrap();
        d["vehicle"][name] = json!(x * k);
    }
    set(&mut d, "vehicle.engines", json!([engine([0.3, 0.2], 3.5e4 * k, 300., 0.05 * k), engine([-0.1, 0.5], 2e4 * k, 250., 0.2 * k)]));
    set(&mut d, "init", init(-28., -80., 40., 700.));
    vec![(a, vec![0.5, 1.1, 2.3]), (b, vec![0.4, 1.3]), (c, vec![0.6, 1.7]), (d, vec![0.9])]
}

fn c18(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let (steps, inside) = if th { (28, 19) } else { (14, 9) };
    let names = all_names();
    for (fl, hs) in busy() {
        for h in hs {
            let mut grids: Option<(Vec<Box<Snap>>, Vec<Box<Snap>>)> = None;
            for name in &names {
                for n in 0..steps {
                    if !ctx.next() {
                        continue;
                    }
                    if grids.is_none() {
                        grids = Some(c02_grid(ctx, &[], &fl, h, steps));
                    }
                    let (g, fine) = grids.clone().unwrap();
                    if n + 1 >= g.len() {
                        continue;
                    }
                    let (a, b) = (g[n].var(name), g[n + 1].var(name));
                    if (b - a).abs() < 0.004 {
                        continue;
                    }
                    for k in 1..=inside {
                        let t = a + (b - a) * k as f64 / (inside + 1) as f64;
                        end_ok(ctx, &[], &fl, h, name, t, &g, &fine);
                    }
                }
            }
        }
    }
    // as table arguments: the coefficient is linear in the variable
    let mut known: Vec<String> = STEER_VARS.iter().map(|s| s.to_string()).collect();
    for s in ["density", "alpha", "euler_angles_roll", "euler_angles_yaw", "euler_angles_pitch"] {
        known.push(s.into());
    }
    let instants = if th { 40 } else { 12 };
    let mut fl: Vec<Value> = busy().into_iter().map(|b| b.0).collect();
    let mut d = lively();
    set(&mut d, "init", init(5., -120., 20., 300.));
    set(&mut d, "steering", json!({"yaw": ["time", [-6.0, 0.0, 0.0]], "roll": ["time", [9.0, 0.0, 0.0]]}));
    fl.push(d);
    // airspeed from ahead, above, below, and from behind on either side (not in
    // between, where rounding decides about the side)
    for wind in [[-200.0, 0.0, 0.0], [0.0, 0.0, -200.0], [0.0, 0.0, 200.0], [150.0, 0.0, -1e-3], [150.0, 0.0, 1e-3]] {
        if !ctx.next() {
            continue;
        }
        let mut c = with(probe(init(0., 0., 0., 5e3)), "planet_model", custom(RE, RE, 1e-6, [0.; 3], 0.));
        set(&mut c, "atmosphere", json!({"enabled": true, "wind": wind}));
        set(&mut c, "vehicle", json!({"structure_mass": 1000.0, "reference_area": 1.0}));
        let Some(was) = ctx.done(&json!([c])) else { continue };
        let (x, w) = (was.alpha, 1.5);
        set(&mut c, "vehicle.lift_coeff", json!({"x": ["alpha", [x - 0.5 * w, x + 0.5 * w]], "data": [0.5, 1.5]}));
        let Some(s) = ctx.done(&json!([c])) else { continue };
        let (sa, ca) = s.alpha.sin_cos();
        ctx.eq("angle of attack", s.alpha, x, 0., 1e-9);
        ctx.eqv("lift over alpha", s.aero, [s.q * sa, 0., -s.q * ca], 1e-6, 1e-9);
        // and as the end of a phase in which it is at its value from the start
        set(&mut c, "vehicle.lift_coeff", Value::Null);
        set(&mut c, "stepsize", json!(1e-3));
        set(&mut c, "end_criterion", json!(["alpha", x]));
        let Some(s) = ctx.done(&json!([c])) else { continue };
        ctx.eq("end at an angle of attack", s.t, 1e-3, 1e-9, 0.);
    }
    for f in fl {
        for slot in ["drag_coeff", "lift_coeff", "side_force_coeff"] {
            for name in &known {
                for axis in 0..3 {
                    for k in 1..=instants {
                        if !ctx.next() {
                            continue;
                        }
                        let mut first = f.clone();
                        set(&mut first, "end_criterion", json!(["time_since_event", 0.4 * k as f64]));
                        let flown = match ctx.run(&json!([first])) {
                            Outcome::Done(s) if s.mp > 0. => s,
                            _ => continue,
                        };
                        let x = flown.var(name);
                        // c = 1 + (var - x) / w: one at this place
                        let w = (x.abs() * 0.5).max(0.2);
                        let (lo, hi) = (x - 0.3 * w, x + 0.7 * w);
                        let t = match axis {
                            0 => json!({"x": [name, [lo, hi]], "data": [0.7, 1.7]}),
                            1 => json!({"x": ["time", [0.0]], "y": [name, [lo, hi]], "data": [[0.7, 1.7]]}),
                            _ => json!({"x": ["time", [0.0]], "y": ["altitude", [0.0]], "z": [name, [lo, hi]], "data": [[[0.7, 1.7]]]}),
                        };
                        let mut p = json!({"vehicle": {"drag_coeff": konst(0.), "lift_coeff": konst(0.), "side_force_coeff": konst(0.)}});
                        set(&mut p, &format!("vehicle.{slot}"), t);
                        let Some(s) = ctx.done(&json!([first, blink(p)])) else { continue };
                        let c = 1. + (s.var(name) - x) / w;
                        let area = f["vehicle"]["reference_area"].as_f64().unwrap();
                        let q = s.q * area;
                        let (sa, ca) = s.alpha.sin_cos();
                        let want = match slot {
                            "drag_coeff" => [-q * c * ca, 0., -q * c * sa],
                            "lift_coeff" => [q * c * sa, 0., -q * c * ca],
                            _ => [0., q * c, 0.],
                        };
                        ctx.eqv(&format!("{slot} over {name}"), s.aero, want, 1e-6, 1e-9);
                    }
                }
            }
        }
    }
    // in every regime
    let all: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let named = |ctx: &mut Ctx, spec: &wide::Spec, names: &[&str], ends: bool| {
        if ends {
            super::phases::ends_anywhere(ctx, spec, &all, 2, &[0.41]);
        }
        let phases = spec.phases();
        let mut env = crate::model::Env::default();
        for p in &phases {
            env.merge(p, 0.);
        }
        let Outcome::Done(was) = ctx.run(&json!(phases)) else { return };
        if wide::open(&was, &env) {
            ctx.skipped += 1;
            return;
        }
        for name in names {
            let x = was.var(name);
            if !x.is_finite() {
                continue;
            }
            let k = 20. / (x.abs() + 1.);
            for (i, axis) in ["roll", "yaw", "pitch"].iter().enumerate() {
                let mut c = phases.clone();
                let mut p = blink(json!({"steering": {}}));
                p["steering"][axis] = json!([name, [k, 0.0, 0.0]]);
                c.push(p);
                let Outcome::Done(s) = ctx.run(&json!(c)) else { continue };
                let want = was.euler[i].to_degrees() + k * s.var(name);
                ctx.eq(&format!("{axis} over {name}"), s.euler[i].to_degrees(), want, 1e-9, 1e-6);
            }
        }
    };
    wide::ball(ctx, &wide::AXES, if th { 2 } else { 1 }, &mut |ctx, spec| named(ctx, spec, &STEER_VARS, true));
    // one name after the other
    let mut turn = 0;
    wide::array(ctx, &mut |ctx, spec| {
        let n = STEER_VARS.len();
        turn += 1;
        named(ctx, spec, if th { &STEER_VARS[..] } else { std::slice::from_ref(&STEER_VARS[turn % n]) }, false)
    });
}

// ---------------------------------------------------------------- C19

fn keys_ok(v: &Value, keys: &[&str]) -> bool {
    v.as_object().map(|o| o.keys().all(|k| keys.contains(&k.as_str()))).unwrap_or(false)
}

fn opt(v: &Value, f: impl Fn(&Value) -> bool) -> bool {
    v.is_null() || f(v)
}

fn nums(v: &Value, n: usize) -> bool {
    v.as_array().map(|a| a.len() == n && a.iter().all(Value::is_number)).unwrap_or(false)
}

fn name_ok(v: &Value) -> bool {
    v.as_str().map(|s| all_names().iter().any(|n| n == s)).unwrap_or(false)
}

fn table_ok(t: &Value) -> bool {
    let Some(o) = t.as_object() else { return false };
    if o.get("interpolator").map(|i| i != "linear").unwrap_or(false) {
        return false;
    }
    let mut shape = vec![];
    let mut want = vec!["interpolator", "data"];
    for k in ["x", "y", "z"] {
        let Some(a) = o.get(k) else { break };
        let Some(p) = a.as_array() else { return false };
        if p.len() != 2 || !name_ok(&p[0]) || !p[1].is_array() {
            return false;
        }
        let b = p[1].as_array().unwrap();
        if !b.iter().all(Value::is_number) {
            return false;
        }
        let b: Vec<f64> = b.iter().map(|x| x.as_f64().unwrap()).collect();
        if !b.windows(2).all(|w| w[0] < w[1]) {
            return false;
        }
        shape.push(b.len());
        want.push(k);
    }
    fn fits(d: &Value, shape: &[usize]) -> bool {
        match shape.split_first() {
            None => d.is_number(),
            Some((n, rest)) => d.as_array().map(|a| a.len() == *n && a.iter().all(|e| fits(e, rest))).unwrap_or(false),
        }
    }
    !shape.is_empty() && keys_ok(t, &want) && o.get("data").map(|d| fits(d, &shape)).unwrap_or(false)
}

fn phase_ok(p: &Value) -> bool {
    let axis = |v: &Value| v.as_array().map(|a| a.len() == 2 && name_ok(&a[0]) && nums(&a[1], 3)).unwrap_or(false);
    let all = |v: &Value, keys: &[&str]| keys_ok(v, keys) && keys.iter().all(|k| v[k].is_number());
    keys_ok(p, &["init", "vehicle", "steering", "planet_model", "atmosphere", "max_acceleration", "stepsize", "end_criterion"])
        && opt(&p["init"], |i| all(i, &["latitude", "longitude", "azimuth", "altitude"]))
        && opt(&p["planet_model"], |m| match m.as_str() {
            Some(s) => ["spherical", "fisher_1960", "fisher1960", "smithsonian"].contains(&s),
            None => {
                let c = &m["custom"];
                keys_ok(m, &["custom"])
                    && keys_ok(c, &["equatorial_radius", "polar_radius", "gravitational_parameters", "rotation_rate"])
                    && ["equatorial_radius", "polar_radius", "rotation_rate"].iter().all(|k| c[k].is_number())
                    && nums(&c["gravitational_parameters"], 4)
            }
        })
        && opt(&p["atmosphere"], |a| {
            keys_ok(a, &["enabled", "wind"]) && opt(&a["enabled"], Value::is_boolean) && opt(&a["wind"], |w| nums(w, 3))
        })
        && opt(&p["vehicle"], |v| {
            keys_ok(v, &["structure_mass", "propellant_mass", "reference_area", "drag_coeff", "lift_coeff", "side_force_coeff", "engines"])
                && ["structure_mass", "propellant_mass", "reference_area"].iter().all(|k| opt(&v[k], Value::is_number))
                && ["drag_coeff", "lift_coeff", "side_force_coeff"].iter().all(|k| opt(&v[k], table_ok))
                && opt(&v["engines"], |e| {
                    e.as_array()
                        .map(|l| {
                            l.iter().all(|e| {
                                keys_ok(e, &["incidence", "thrust_vac", "isp_vac", "exit_area"])
                                    && nums(&e["incidence"], 2)
                                    && ["thrust_vac", "isp_vac", "exit_area"].iter().all(|k| e[k].is_number())
                            })
                        })
                        .unwrap_or(false)
                })
        })
        && opt(&p["steering"], |s| {
            keys_ok(s, &["roll", "yaw", "pitch"]) && ["roll", "yaw", "pitch"].iter().all(|k| opt(&s[k], axis))
        })
        && opt(&p["max_acceleration"], Value::is_number)
        && opt(&p["stepsize"], Value::is_number)
        && opt(&p["end_criterion"], |e| {
            e.as_array().map(|a| a.len() == 2 && name_ok(&a[0]) && a[1].is_number()).unwrap_or(false)
        })
}

enum Verdict {
    /// A configuration.
    Yes,
    /// Not a configuration: refused while loading.
    No,
    /// Lacks the initial conditions: nothing is simulated.
    Start,
    /// The manual does not say.
    Open,
}

fn judge(text: &[u8]) -> Verdict {
    let Ok(v) = serde_json::from_slice::<Value>(text) else { return Verdict::No };
    match v.as_array() {
        None => Verdict::No,
        Some(a) if a.is_empty() => Verdict::Open,
        // all fields in order instead of an object: not described
        Some(a) if a.iter().any(|p| nums(&p["init"], 4)) => Verdict::Open,
        Some(a) if !a.iter().all(phase_ok) => Verdict::No,
        Some(a) if a[0]["init"].is_null() => Verdict::Start,
        _ => Verdict::Yes,
    }
}

fn judged(ctx: &mut Ctx, text: &[u8]) {
    ctx.sut.budget = 6000;
    let o = ctx.run_text(text);
    ctx.sut.budget = crate::sut::BUDGET;
    let out = ctx.sut.last_output.clone();
    match judge(text) {
        Verdict::Open => ctx.skipped += 1,
        Verdict::Yes => {
            ctx.check("valid configuration", !matches!(o, Outcome::Rejected(_)), || o.brief());
        }
        Verdict::No => {
            ctx.check("invalid configuration", matches!(o, Outcome::Rejected(_)), || format!("was not refused: {}", o.brief()));
            ctx.check("nothing simulated", out.trim().is_empty(), || out.clone());
            if let Outcome::Rejected(m) = &o {
                ctx.check("error message", !m.trim().is_empty(), || "is empty".into());
            }
        }
        Verdict::Start => {
            ctx.check("no initial conditions", matches!(o, Outcome::Rejected(_) | Outcome::Aborted(_)), || o.brief());
            ctx.check("nothing simulated", !out.contains("Time:"), || out.clone());
        }
    }
}

fn documents() -> Vec<Value> {
    let d = |p: Value| {
        let mut p = blink(p);
        set(&mut p, "init", init(10., 20., 30., 4000.));
        p
    };
    let tab2 = json!({"x": ["alpha", [-1.0, 0.0, 2.0]], "y": ["mach_number", [0.5, 3.0]], "data": [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]});
    let tab3 = json!({"x": ["time", [0.0, 1.0]], "y": ["mass", [5.0, 9.0]], "z": ["alpha", [0.1]], "data": [[[1.0], [2.0]], [[3.0], [4.0]]], "interpolator": "linear"});
    vec![
        json!([d(json!({"vehicle": {"structure_mass": 500.0}}))]),
        json!([d(json!({"planet_model": custom(RE, RP, MU, [1e-3, 0., 0.], 1e-4), "vehicle": {"structure_mass": 500.0}}))]),
        json!([d(json!({"planet_model": "fisher_1960", "atmosphere": {"enabled": true, "wind": [1.0, 2.0, 3.0]}, "vehicle": {"structure_mass": 500.0}})),
            {"atmosphere": {"enabled": false}}]),
        json!([d(json!({"vehicle": {"structure_mass": 500.0, "propellant_mass": 50.0, "reference_area": 2.0,
            "engines": [engine([0.1, 0.2], 1000., 300., 0.1), engine([0.0, 0.0], 2000., 200., 0.)]}})), {"vehicle": {"engines": []}}]),
        json!([d(json!({"vehicle": {"structure_mass": 500.0, "drag_coeff": konst(0.5), "lift_coeff": tab2, "side_force_coeff": tab3}}))]),
        json!([d(json!({"vehicle": {"structure_mass": 500.0, "drag_coeff": {"x": ["time", [0.0, 1.0, 2.0]], "y": ["mass", [5.0, 7.0, 9.0]],
            "z": ["alpha", [0.1, 0.2]], "data": [[[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], [[2.0, 1.0], [3.0, 2.0], [4.0, 3.0]], [[0.0, 1.0], [2.0, 3.0], [1.0, 5.0]]]}}}))]),
        json!([d(json!({"vehicle": {"structure_mass": 500.0}, "max_acceleration": 30.0,
            "steering": {"roll": ["time", [1.0, 0.0, 0.0]], "yaw": ["altitude", [1e-3, 0.0, 0.0]], "pitch": ["time_since_event", [0.5, 0.2, 0.1]]}}))]),
        json!([d(json!({"vehicle": {"structure_mass": 500, "drag_coeff": {"x": ["time", []], "data": []}}, "planet_model": "smithsonian"})),
            {"planet_model": "spherical", "steering": {"yaw": null}, "vehicle": null}, {}]),
        json!([d(json!({"vehicle": {"structure_mass": 500.0}})), {"init": null, "end_criterion": ["altitude", 3999.0], "stepsize": 1},
            {"end_criterion": ["velocity_norm", 470.0], "max_acceleration": -1}]),
    ]
}

fn paths(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    match v {
        Value::Object(o) => o.iter().for_each(|(k, w)| paths(w, format!("{at}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(k, w)| paths(w, format!("{at}/{k}"), out)),
        _ => {}
    }
}

fn replacements() -> Vec<Value> {
    vec![
        Value::Null, json!(true), json!(""), json!("x"), json!("time"), json!("Time"), json!("altitude "), json!("spherical"),
        json!("linear"), json!("custom"), json!("cubic"), json!("1.0"), json!(0), json!(-1.5), json!(1e3), json!([]), json!([1.0]), json!([1.0, 2.0]),
        json!([1.0, 2.0, 3.0]), json!([1.0, 2.0, 3.0, 4.0]), json!(["time", 5.0]), json!(["time", [0.0]]), json!(["time", [1.0, 0.0, 0.0]]),
        json!([2.0, 1.0]), json!({}), json!({"a": 1}), json!([{}]),
    ]
}

/// The same name in other styles.
fn misspelt(k: &str) -> Vec<String> {
    let cap = |w: &str| w[..w.len().min(1)].to_uppercase() + &w[w.len().min(1)..];
    let words: Vec<&str> = k.split('_').collect();
    let pascal: String = words.iter().map(|w| cap(w)).collect();
    let camel = words[0].to_string() + &words[1..].iter().map(|w| cap(w)).collect::<String>();
    let mut o = vec![
        format!("{k}s"),
        format!("{k} "),
        format!(" {k}"),
        k[..k.len() - 1].to_string(),
        k.to_uppercase(),
        k.replace('_', ""),
        k.replace('_', "-"),
        k.replace('_', " "),
        k.replace('_', "."),
        format!("_{k}"),
        format!("{k}_"),
        pascal,
        camel,
        cap(k),
        words[0].to_string(),
        words[words.len() - 1].to_string(),
        words.iter().rev().cloned().collect::<Vec<_>>().join("_"),
        words.iter().map(|w| &w[..1]).collect(),
        k[..k.len().min(3)].to_string(),
        k[..k.len().min(4)].to_string(),
    ];
    if let Some(w) = k.strip_suffix('s') {
        o.push(w.to_string());
    }
    for (a, b) in [("coeff", "coefficient"), ("max", "maximum"), ("vac", "vacuum"), ("size", "_size"), ("propellant", "fuel"), ("propellant", "prop"),
        ("model", ""), ("criterion", "condition"), ("criterion", "criteria"), ("acceleration", "accel"), ("latitude", "lat"), ("longitude", "lon"),
        ("longitude", "long"), ("azimuth", "az"), ("altitude", "alt"), ("stepsize", "dt"), ("stepsize", "step"), ("thrust_vac", "thrust"), ("isp_vac", "isp"),
        ("structure_mass", "dry_mass"), ("structure", "structural"), ("reference_area", "area"), ("pitch", "theta"), ("enabled", "enable"), ("data", "values"),
        ("planet_model", "planet"), ("gravitational_parameters", "gravity"), ("rotation_rate", "omega"), ("equatorial_radius", "radius"), ("init", "initial")] {
        if k.contains(a) {
            o.push(k.replace(a, b));
        }
    }
    o.retain(|n| !n.is_empty() && n != k);
    o.sort();
    o.dedup();
    o
}

/// All mutations of one node; `few`: only those which differ most.
fn mutants(doc: &Value, path: &str, few: bool) -> Vec<Value> {
    let mut out = vec![];
    let put = |w: Value| {
        let mut d = doc.clone();
        *d.pointer_mut(path).unwrap() = w;
        d
    };
    let r = replacements();
    for (k, w) in r.into_iter().enumerate() {
        // an explicit null as interpolator is not described
        if w.is_null() && path.ends_with("interpolator") {
            continue;
        }
        if !few || [0, 3, 4, 12, 15, 18, 24].contains(&k) {
            out.push(put(w));
        }
    }
    let Some(node) = doc.pointer(path) else { return vec![] };
    match node {
        Value::Object(o) => {
            let mut w = o.clone();
            w.insert("unknown".into(), json!(1.0));
            out.push(put(Value::Object(w)));
            for k in o.keys() {
                let mut w = o.clone();
                let old = w.remove(k).unwrap();
                out.push(put(Value::Object(w.clone())));
                if few {
                    continue;
                }
                for n in misspelt(k) {
                    if n != *k && !o.contains_key(&n) {
                        let mut w = w.clone();
                        w.insert(n, old.clone());
                        out.push(put(Value::Object(w)));
                    }
                }
            }
        }
        Value::Array(a) => {
            if let Some(l) = a.last() {
                let mut w = a.clone();
                w.push(l.clone());
                out.push(put(Value::Array(w)));
                out.push(put(Value::Array(a[1..].to_vec())));
                out.push(put(Value::Array(a[..a.len() - 1].to_vec())));
            }
            for k in 1..a.len() {
                let mut w = a.clone();
                w.swap(k - 1, k);
                out.push(put(Value::Array(w)));
            }
        }
        Value::String(s) if !few && !s.is_empty() => {
            for n in misspelt(s) {
                out.push(put(json!(n)));
            }
            if s == "spherical" || s == "fisher_1960" || s == "smithsonian" {
                for n in ["earth", "default", "sphere", "fisher", "fisher_60", "Fisher1960", "wgs84", "oblate", "none", "earth_spherical"] {
                    out.push(put(json!(n)));
                }
            }
        }
        _ => {}
    }
    out
}

/// The same document with other key orders, written differently.
fn writings(doc: &Value) -> Vec<String> {
    fn write(v: &Value, rev: bool, sep: &str, out: &mut String) {
        match v {
            Value::Object(o) => {
                let mut k: Vec<_> = o.iter().collect();
                if rev {
                    k.reverse();
                }
                out.push('{');
                for (i, (n, w)) in k.into_iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(sep);
                    out.push_str(&format!("{n:?}{sep}:{sep}"));
                    write(w, rev, sep, out);
                }
                out.push_str(sep);
                out.push('}');
            }
            Value::Array(a) => {
                out.push('[');
                for (i, w) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(sep);
                    write(w, rev, sep, out);
                }
                out.push_str(sep);
                out.push(']');
            }
            _ => out.push_str(&v.to_string()),
        }
    }
    let mut o = vec![];
    for rev in [false, true] {
        for sep in ["", " ", "\n\t", "\r\n  "] {
            let mut s = String::new();
            write(doc, rev, sep, &mut s);
            o.push(format!("{s}\n"));
            o.push(format!("  \n{s}  "));
        }
    }
    o
}

/// Long documents: a flight of many phases, and much white space in every
/// place where some may be.
fn long_documents() -> Vec<(Value, Vec<String>)> {
    let mut phases = vec![with(blink(json!({"vehicle": {"structure_mass": 500.0}})), "init", init(10., 20., 30., 4000.))];
    for k in 0..700 {
        phases.push(json!({"end_criterion": ["time_since_event", 0.0], "max_acceleration": 30.0 + k as f64, "steering": {"yaw": ["time", [0.1, 0.0, 0.0]]}}));
    }
    phases.push(json!({"vehicle": {"structure_mass": 700.0}}));
    let many = json!(phases);
    let short = documents()[0].clone();
    let text = short.to_string();
    let mut texts = vec![];
    for n in [5_000, 70_000, 1_100_000] {
        let pad = " \n".repeat(n / 2);
        for at in [0, 1, text.len() / 2, text.len() - 1, text.len()] {
            // between two tokens
            let at = (at..=text.len()).find(|&k| k == 0 || k == text.len() || b",:{}[]".contains(&text.as_bytes()[k - 1])).unwrap();
            texts.push(format!("{}{pad}{}", &text[..at], &text[at..]));
        }
    }
    let spread = serde_json::to_string_pretty(&many).unwrap();
    vec![(many, vec![spread]), (short, texts)]
}

/// Tables of many nodes with one thing wrong anywhere in them.
fn long_tables(ctx: &mut Ctx) {
    let doc = |t: &Value| {
        let mut p = with(blink(json!({"vehicle": {"structure_mass": 500.0}})), "init", init(10., 20., 30., 4000.));
        set(&mut p, "vehicle.drag_coeff", t.clone());
        json!([p]).to_string()
    };
    let row = |n: usize| (0..n).map(|k| k as f64 * 1.5 - 7.).collect::<Vec<_>>();
    let grid = |n: &[usize]| -> Value {
        let r = json!(row(n[n.len() - 1]));
        n[..n.len() - 1].iter().rev().fold(r, |r, &k| json!(vec![r; k]))
    };
    let sizes: [&[usize]; 7] = [&[150], &[1, 150], &[40, 3], &[3, 40], &[30, 2, 2], &[2, 30, 2], &[2, 2, 30]];
    for n in sizes {
        let mut t = json!({"data": grid(n)});
        for (k, &m) in n.iter().enumerate() {
            let var = ["altitude", "mach_number", "time"][k];
            t[["x", "y", "z"][k]] = json!([var, row(m)]);
        }
        if ctx.next() {
            judged(ctx, doc(&t).as_bytes());
        }
        for (k, &m) in n.iter().enumerate() {
            let axis = ["x", "y", "z"][k];
            for j in 0..m {
                // out of order, or twice the same
                for d in [3.2, -3.2, 1.5] {
                    if ctx.next() {
                        let mut u = t.clone();
                        let x = u[axis][1][j].as_f64().unwrap();
                        u[axis][1][j] = json!(x + d);
                        judged(ctx, doc(&u).as_bytes());
                    }
                }
                // one value less, one list less, one more
                if ctx.next() {
                    let mut u = t.clone();
                    u[axis][1].as_array_mut().unwrap().remove(j);
                    judged(ctx, doc(&u).as_bytes());
                }
                let mut lists = vec![vec![]];
                for &l in &n[..k] {
                    lists = lists.into_iter().flat_map(|p: Vec<usize>| (0..l).map(move |i| [p.clone(), vec![i]].concat())).collect();
                }
                for at in lists {
                    for more in [false, true] {
                        if !ctx.next() {
                            continue;
                        }
                        let mut u = t.clone();
                        let list = at.iter().fold(&mut u["data"], |v, &i| &mut v[i]).as_array_mut().unwrap();
                        if more {
                            let again = list[j].clone();
                            list.insert(j, again);
                        } else {
                            list.remove(j);
                        }
                        judged(ctx, doc(&u).as_bytes());
                    }
                }
            }
        }
    }
}

fn c19(ctx: &mut Ctx) {
    long_tables(ctx);
    let docs = documents();
    for (doc, texts) in long_documents() {
        for t in texts {
            if !ctx.next() {
                continue;
            }
            judged(ctx, t.as_bytes());
            match (ctx.run(&doc), ctx.run_text(t.as_bytes())) {
                (Outcome::Done(a), Outcome::Done(b)) => {
                    ctx.check("same document", a.hash() == b.hash(), || format!("{a:?} // {b:?}"));
                }
                (a, b) => ctx.fail("same document", format!("{} characters: {} // {}", t.len(), a.brief(), b.brief())),
            }
            // without its end it is none
            let cut = t.trim_end();
            judged(ctx, &cut.as_bytes()[..cut.len() - 1]);
            // and nothing may follow it
            judged(ctx, format!("{t}]").as_bytes());
        }
    }
    for doc in &docs {
        let mut ps = vec![];
        paths(doc, String::new(), &mut ps);
        for p in &ps {
            for m in mutants(doc, p, false) {
                if ctx.next() {
                    judged(ctx, m.to_string().as_bytes());
                }
            }
        }
    }
    // a setting given twice says nothing certain
    for doc in &docs {
        let mut ps = vec![];
        paths(doc, String::new(), &mut ps);
        for p in &ps {
            let Some((parent, key)) = p.rsplit_once('/') else { continue };
            let Some(o) = doc.pointer(parent).and_then(|v| v.as_object()) else { continue };
            let other = match &o[key] {
                Value::Number(x) => json!(x.as_f64().unwrap() * 1.5 + 1.),
                Value::Bool(b) => json!(!b),
                _ => Value::Null,
            };
            for again in [o[key].clone(), other] {
                // before and behind the first
                for mark in ["!", "~"] {
                    if !ctx.next() {
                        continue;
                    }
                    let mut m = doc.clone();
                    m.pointer_mut(parent).unwrap().as_object_mut().unwrap().insert(mark.into(), again.clone());
                    let text = m.to_string().replace(&format!("\"{mark}\""), &format!("\"{key}\""));
                    let o = ctx.run_text(text.as_bytes());
                    ctx.check("given twice", matches!(o, Outcome::Rejected(_)), || format!("{text}: {}", o.brief()));
                }
            }
        }
    }
    // documented spellings with their meaning
    for doc in &docs {
        for w in writings(doc) {
            if !ctx.next() {
                continue;
            }
            let (a, b) = (ctx.run(doc), ctx.run_text(w.as_bytes()));
            match (a, b) {
                (Outcome::Done(a), Outcome::Done(b)) => {
                    ctx.check("same document", a.hash() == b.hash(), || format!("{a:?} // {b:?}"));
                }
                (a, b) => ctx.fail("same document", format!("{} // {}", a.brief(), b.brief())),
            }
        }
        let mut numbers = doc.clone();
        fn shorten(v: &mut Value) {
            match v {
                Value::Object(o) => o.values_mut().for_each(shorten),
                Value::Array(a) => a.iter_mut().for_each(shorten),
                Value::Number(n) => {
                    let x = n.as_f64().unwrap();
                    if x == x.trunc() && x.abs() < 1e9 {
                        *v = json!(x as i64);
                    }
                }
                _ => {}
            }
        }
        shorten(&mut numbers);
        if ctx.next() {
            match (ctx.run(doc), ctx.run(&numbers)) {
                (Outcome::Done(a), Outcome::Done(b)) => {
                    ctx.check("whole numbers", a.hash() == b.hash(), || format!("{a:?} // {b:?}"));
                }
                (a, b) => ctx.fail("whole numbers", format!("{} // {}", a.brief(), b.brief())),
            }
        }
    }
    for doc in &docs {
        let text = doc.to_string();
        for n in 0..text.len() {
            if ctx.next() {
                judged(ctx, &text.as_bytes()[..n]);
            }
            if ctx.next() {
                let mut t = text.as_bytes().to_vec();
                t.remove(n);
                judged(ctx, &t);
            }
            for c in b"\"{}[],:0-.ex \xff" {
                if ctx.next() {
                    let mut t = text.as_bytes().to_vec();
                    t[n] = *c;
                    judged(ctx, &t);
                }
            }
        }
        for tail in ["x", "]", "[]", ",", "\0", "{}", "null", "//", "0"] {
            if ctx.next() {
                judged(ctx, format!("{text}{tail}").as_bytes());
            }
            if ctx.next() {
                judged(ctx, format!("{tail}{text}").as_bytes());
            }
        }
    }
    for text in ["", " ", "null", "{}", "0", "\"x\"", "[null]", "[0]", "[[]]", "[{}]", "[{},{}]", "[]", "\u{feff}[]", "NaN", "[{\"init\": NaN}]"] {
        if ctx.next() {
            judged(ctx, text.as_bytes());
        }
    }
    if ctx.thorough {
        for doc in &docs {
            let mut ps = vec![];
            paths(doc, String::new(), &mut ps);
            for p in &ps {
                for m in mutants(doc, p, true) {
                    for q in ps.iter().filter(|q| *q > p && !q.starts_with(&format!("{p}/"))) {
                        if m.pointer(q).is_none() {
                            continue;
                        }
                        for n in mutants(&m, q, true) {
                            if ctx.next() {
                                judged(ctx, n.to_string().as_bytes());
                            }
                        }
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C21

/// Different runs which leave everything different.
fn variety() -> Vec<Value> {
    let mut o: Vec<Value> = busy().into_iter().map(|b| json!([b.0])).collect();
    o.extend(documents());
    let l = lively();
    o.push(json!([with(l.clone(), "end_criterion", json!(["altitude", 1100.0]))]));
    // gives up: no thrust can stay within the limit
    o.push(json!([with(with(l.clone(), "max_acceleration", json!(1e-3)), "init.altitude", json!(10.0)), {"vehicle": {"propellant_mass": 1.0}}]));
    o.push(json!([l.clone(), {"vehicle": {"engines": [], "drag_coeff": konst(2.0)}, "atmosphere": {"enabled": false}}, {"max_acceleration": 9.0}]));
    o.push(json!([l, {"planet_model": "unknown"}]));
    o
}

fn mark(o: &Outcome, out: &str) -> String {
    match o {
        Outcome::Done(s) => format!("{:x} {out}", s.hash()),
        Outcome::Aborted(_) => format!("aborted {out}"),
        Outcome::Rejected(m) => format!("rejected {m} {out}"),
        Outcome::Endless => "endless".into(),
    }
}

/// What a process prints which runs one configuration only.
pub fn once(path: &str) -> String {
    let mut s = crate::sut::Sut::new();
    let o = s.run_text(&std::fs::read(path).unwrap());
    let r = mark(&o, &s.last_output);
    crate::sut::restore(&mut s);
    r
}

fn c21(ctx: &mut Ctx) {
    let all = variety();
    let n = all.len();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mc21-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut base: HashMap<usize, String> = HashMap::new();
    let len: u32 = if ctx.thorough { 4 } else { 3 };
    let fresh = |k: usize, base: &mut HashMap<usize, String>| -> String {
        base.entry(k)
            .or_insert_with(|| {
                let f = dir.join(format!("{k}.json"));
                std::fs::write(&f, all[k].to_string()).unwrap();
                let o = std::process::Command::new(&exe).arg("once").arg(&f).output().unwrap();
                String::from_utf8(o.stdout).unwrap()
            })
            .clone()
    };
    for code in 0..n.pow(len) {
        if !ctx.next() {
            continue;
        }
        for k in 0..len {
            let c = code / n.pow(k) % n;
            let want = fresh(c, &mut base);
            let o = ctx.run(&all[c]);
            let got = mark(&o, &ctx.sut.last_output);
            ctx.check("independent of what ran before", got == want, || format!("run {} of the sequence differs from a fresh process:\n{got}\n{want}", k + 1));
        }
    }
    for k in 0..n {
        for before in 1..4 {
            if !ctx.next() {
                continue;
            }
            let want = fresh(k, &mut base);
            let o = ctx.sut.run_again(all[k].to_string().as_bytes(), before);
            ctx.executions += 1;
            let out = ctx.sut.last_output.clone();
            let last = out.rsplit("-- again --\n").next().unwrap_or("");
            let got = mark(&o, last);
            ctx.check("repeated run", got == want, || format!("run {} of a loaded simulation differs from a fresh process:\n{got}\n{want}", before + 1));
        }
        if ctx.next() {
            let want = fresh(k, &mut base);
            let o = ctx.sut.run_in_thread(all[k].to_string().as_bytes());
            ctx.executions += 1;
            let got = mark(&o, &ctx.sut.last_output);
            ctx.check("another thread and path", got == want, || format!("{got}\n{want}"));
        }
        for (envs, cwd) in [(vec![("LANG", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent")], "/"), (vec![("RUST_BACKTRACE", "1"), ("COLUMNS", "10")], "/tmp")] {
            if !ctx.next() {
                continue;
            }
            let want = fresh(k, &mut base);
            let f = dir.join(format!("{k}.json"));
            let o = std::process::Command::new(&exe).arg("once").arg(&f).envs(envs).current_dir(cwd).output().unwrap();
            ctx.executions += 1;
            let got = String::from_utf8(o.stdout).unwrap();
            ctx.check("another environment", got == want, || format!("{got}\n{want}"));
        }
        // every variable of the environment set, another time of day, and
        // other files all around
        for value in ["", "0", "1", "true", "0.125", "full", "/tmp", "de_DE.UTF-8"] {
            for shift in ["0", "-1000000000", "40000"] {
                if !ctx.next() {
                    continue;
                }
                let want = fresh(k, &mut base);
                let there = dir.join("there");
                let _ = std::fs::create_dir_all(&there);
                let f = there.join("x");
                std::fs::write(&f, all[k].to_string()).unwrap();
                for n in ["config.json", "example.json", ".env", "post.toml", "post.json", "x.json", "c.json", "1", "0"] {
                    let _ = std::fs::write(there.join(n), all[(k + 1) % all.len()].to_string());
                }
                let o = std::process::Command::new(&exe).arg("once").arg(&f).args([value, shift]).current_dir(&there).output().unwrap();
                ctx.executions += 1;
                let got = String::from_utf8(o.stdout).unwrap();
                ctx.check("surroundings", got == want, || format!("with {value:?} for every variable and the clock shifted by {shift} s:\n{got}\n{want}"));
            }
        }
    }
    // configurations which differ in a count: phases, engines, table rows, length
    let fresh_text = |name: String, text: &str| -> String {
        let f = dir.join(name);
        let known = dir.join(format!("{}.out", f.file_name().unwrap().to_string_lossy()));
        if let Ok(s) = std::fs::read_to_string(&known) {
            return s;
        }
        std::fs::write(&f, text).unwrap();
        let o = std::process::Command::new(&exe).arg("once").arg(&f).output().unwrap();
        let s = String::from_utf8(o.stdout).unwrap();
        std::fs::write(&known, &s).unwrap();
        s
    };
    let counts = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33];
    for family in 0..5 {
        let member = |n: usize| -> String {
            let mut c = lively();
            set(&mut c, "end_criterion", json!(["time_since_event", 1.0]));
            match family {
                0 => {
                    let mut l = vec![c];
                    l.extend((0..n).map(|k| json!({"end_criterion": ["time_since_event", 0.25 + 0.25 * (k % 3) as f64]})));
                    return json!(l).to_string();
                }
                1 => set(&mut c, "vehicle.engines", json!((0..n).map(|k| engine([0.01 * k as f64, 0.], 900. + k as f64, 250., 0.)).collect::<Vec<_>>())),
                2 => set(
                    &mut c,
                    "vehicle.drag_coeff",
                    json!({"x": ["altitude", (0..n).map(|k| 100. * k as f64).collect::<Vec<_>>()], "data": (0..n).map(|k| 0.3 + 0.01 * k as f64).collect::<Vec<_>>()}),
                ),
                3 => return format!("[{}{}]", " ".repeat(n * 997), c),
                _ => set(&mut c, "stepsize", json!(1. / (n + 1) as f64)),
            }
            json!([c]).to_string()
        };
        for a in counts {
            for b in counts {
                if !ctx.next() {
                    continue;
                }
                for n in [a, b] {
                    let text = member(n);
                    let want = fresh_text(format!("f{family}-{n}"), &text);
                    let o = ctx.run_text(text.as_bytes());
                    let got = mark(&o, &ctx.sut.last_output);
                    ctx.check("independent of a run of another size", got == want, || format!("size {n} of kind {family} in the sequence {a}, {b}:\n{got}\n{want}"));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // what one run leaves behind must not show in one which is like it
    let near: Vec<wide::Spec> = {
        let mut v = vec![];
        for b in wide::bases() {
            v.push(b.clone());
            for a in wide::AXES {
                for o in wide::options(a) {
                    let mut s = b.clone();
                    o(&mut s);
                    v.push(s);
                }
            }
        }
        v
    };
    let per = near.len() / 3;
    let text: Vec<Value> = near.iter().map(|s| json!(s.phases())).collect();
    let short: Vec<Value> = near.iter().map(|s| json!([blink(s.phases().remove(0))])).collect();
    for i in 0..near.len() {
        for j in (i / per * per)..(i / per * per + per) {
            if i == j || !ctx.next() {
                continue;
            }
            for set_ in [&text, &short] {
                ctx.sut.budget = 100_000;
                ctx.run(&all[0]);
                let o = ctx.run(&set_[i]);
                let alone = mark(&o, &ctx.sut.last_output);
                ctx.run(&set_[j]);
                let o = ctx.run(&set_[i]);
                let after = mark(&o, &ctx.sut.last_output);
                ctx.sut.budget = crate::sut::BUDGET;
                ctx.check("independent of a similar run before", alone == after, || format!("after {}:\n{after}\n{alone}", set_[j]));
            }
        }
    }
}

// ---------------------------------------------------------------- C22

struct Call {
    code: Option<i32>,
    out: String,
    err: String,
}

fn post(args: &[String], cwd: &std::path::Path, env: usize) -> Call {
    post_with(args, cwd, env, None)
}

/// The program with something to read from its standard input.
fn post_with(args: &[String], cwd: &std::path::Path, env: usize, input: Option<Vec<u8>>) -> Call {
    let bin = std::env::var("MC_POST").expect("MC_POST names the program");
    let mut c = std::process::Command::new(bin);
    c.args(args).current_dir(cwd);
    c.stdin(if input.is_some() { std::process::Stdio::piped() } else { std::process::Stdio::null() });
    match env {
        1 => {
            c.env_clear();
        }
        2 => {
            c.env("RUST_BACKTRACE", "1").env("LANG", "C").env("COLUMNS", "20");
        }
        _ => {}
    }
    // ended by force if it takes too long or prints too much
    use std::io::Read;
    use std::process::Stdio;
    let mut child = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("the program starts");
    if let Some(text) = input {
        let mut to = child.stdin.take().unwrap();
        std::thread::spawn(move || {
            use std::io::Write;
            let _ = to.write_all(&text);
        });
    }
    fn read(f: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = f.take(64 << 20).read_to_end(&mut v);
            v
        })
    }
    let (out, err) = (read(child.stdout.take().unwrap()), read(child.stderr.take().unwrap()));
    let start = std::time::Instant::now();
    let code = loop {
        match child.try_wait().expect("the program ends") {
            Some(s) => break s.code(),
            None if start.elapsed().as_secs() > 60 => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_micros(300)),
        }
    };
    Call {
        code,
        out: String::from_utf8_lossy(&out.join().unwrap()).into_owned(),
        err: String::from_utf8_lossy(&err.join().unwrap()).into_owned(),
    }
}

fn c22(ctx: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("mc22-{}", std::process::id()));
    let deep = dir.join("a b").join("ü");
    std::fs::create_dir_all(&deep).unwrap();
    let mut texts: Vec<Vec<u8>> = variety().iter().map(|v| v.to_string().into_bytes()).collect();
    texts.push(b"[{\"init\": 1}]".to_vec());
    texts.push(b"".to_vec());
    texts.push(b"[{}]".to_vec());
    texts.push(b"[".to_vec());
    texts.push(b"\xff\xfe[]".to_vec());
    texts.push(std::fs::read("/repo/utils/example.json").unwrap_or_else(|_| b"[]".to_vec()));
    let envs = if ctx.thorough { 3 } else { 1 };
    for text in &texts {
        for form in 0..4 {
            for spelling in 0..13 {
                for env in 0..if spelling < 7 { envs } else { 1 } {
                    if !ctx.next() {
                        continue;
                    }
                    let (cwd, path): (_, String) = match spelling {
                        0 => (dir.clone(), dir.join("c.json").display().to_string()),
                        1 => (dir.clone(), "c.json".into()),
                        2 => (dir.clone(), "./a b/../c.json".into()),
                        3 => (dir.clone(), "a b/ü/no extension".into()),
                        4 => (deep.clone(), "../../c.json".into()),
                        5 => (dir.clone(), "link".into()),
                        6 => (dir.clone(), "-c".into()),
                        // names which mean something elsewhere
                        k => (dir.clone(), ["-", "~", "*.json", "$HOME", "file:c.json", " "][k - 7].into()),
                    };
                    let file = if path.starts_with('/') { path.clone().into() } else { cwd.join(&path) };
                    if spelling == 5 {
                        std::fs::write(dir.join("c.json"), text).unwrap();
                        let _ = std::os::unix::fs::symlink("c.json", dir.join("link"));
                    } else {
                        std::fs::write(&file, text).unwrap();
                    }
                    if spelling == 6 && (form == 0 || form == 1) {
                        // taken for an option: not a spelling of the path
                        continue;
                    }
                    let args: Vec<String> = match form {
                        0 => vec!["-c".into(), path],
                        1 => vec!["--config".into(), path],
                        2 => vec![format!("--config={path}")],
                        _ => vec![format!("-c{path}")],
                    };
                    let o = ctx.run_text(text);
                    let lib = ctx.sut.last_output.clone();
                    let c = post(&args, &cwd, env);
                    if spelling > 6 {
                        let _ = std::fs::remove_file(&file);
                    }
                    let why = || format!("post {args:?} ended with {:?}\nstdout: {}\nstderr: {}", c.code, cut(&c.out), cut(&c.err));
                    ctx.check("output of the program", c.out == lib, || format!("{}\nthe simulation prints: {}", why(), cut(&lib)));
                    match o {
                        Outcome::Done(_) => {
                            ctx.check("exit status", c.code == Some(0), why);
                        }
                        Outcome::Rejected(_) => {
                            ctx.check("exit status", c.code.map(|c| c != 0).unwrap_or(false), why);
                            ctx.check("message", !c.err.trim().is_empty(), why);
                            ctx.check("nothing simulated", c.out.is_empty(), why);
                        }
                        Outcome::Aborted(_) => {
                            ctx.check("exit status", c.code != Some(0), why);
                            ctx.check("message", !c.err.trim().is_empty(), why);
                        }
                        Outcome::Endless => {}
                    }
                }
            }
        }
    }
    // long files
    for (doc, mut texts) in long_documents() {
        texts.push(doc.to_string());
        let whole = texts.clone();
        let valid = whole.len();
        texts.extend(whole.iter().map(|t| t.trim_end()[..t.trim_end().len() - 1].to_string()));
        texts.extend(whole.iter().map(|t| format!("{t}]")));
        for (k, t) in texts.into_iter().enumerate() {
            if !ctx.next() {
                continue;
            }
            let o = ctx.run_text(t.as_bytes());
            let lib = ctx.sut.last_output.clone();
            std::fs::write(dir.join("l.json"), &t).unwrap();
            let c = post(&["-c".into(), "l.json".into()], &dir, 0);
            let why = || format!("{} characters{}: post ended with {:?}\nstdout: {}\nstderr: {}", t.len(), if k < valid { "" } else { ", not JSON" }, c.code, cut(&c.out), cut(&c.err));
            ctx.check("exit status", (c.code == Some(0)) == (k < valid), why);
            ctx.check("output of the program", c.out == lib, || format!("{}\nthe simulation prints: {}", why(), cut(&lib)));
            ctx.check("exit status", (c.code == Some(0)) == matches!(o, Outcome::Done(_)), why);
        }
    }
    // files which are no plain files: read once, of no length
    let large = long_documents().remove(0).1.remove(0).into_bytes();
    for text in texts.iter().chain([&large]) {
        for way in 0..3 {
            if !ctx.next() {
                continue;
            }
            let o = ctx.run_text(text);
            let lib = ctx.sut.last_output.clone();
            let c = match way {
                0 => post_with(&["-c".into(), "/dev/stdin".into()], &dir, 0, Some(text.clone())),
                1 => post_with(&["--config=/proc/self/fd/0".into()], &dir, 0, Some(text.clone())),
                _ => {
                    let _ = std::fs::remove_file(dir.join("pipe"));
                    if !std::process::Command::new("mkfifo").arg(dir.join("pipe")).status().is_ok_and(|s| s.success()) {
                        ctx.skipped += 1;
                        continue;
                    }
                    let (to, data) = (dir.join("pipe"), text.clone());
                    let writer = std::thread::spawn(move || {
                        let _ = std::fs::write(to, data);
                    });
                    let c = post(&["-c".into(), "pipe".into()], &dir, 0);
                    // should the program not have opened it
                    use std::os::unix::fs::OpenOptionsExt;
                    let open = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(dir.join("pipe"));
                    while !writer.is_finished() {
                        if let Ok(mut f) = open.as_ref() {
                            use std::io::Read;
                            let _ = f.read(&mut [0; 65536]);
                        }
                        std::thread::sleep(std::time::Duration::from_micros(200));
                    }
                    c
                }
            };
            let why = || format!("by a pipe ({way}): post ended with {:?}\nstdout: {}\nstderr: {}", c.code, cut(&c.out), cut(&c.err));
            ctx.check("output of the program", c.out == lib, || format!("{}\nthe simulation prints: {}", why(), cut(&lib)));
            ctx.check("exit status", (c.code == Some(0)) == matches!(o, Outcome::Done(_)), why);
        }
    }
    // flights in every regime
    wide::ball(ctx, &wide::AXES, if ctx.thorough { 2 } else { 1 }, &mut |ctx, spec| {
        let text = json!(spec.phases()).to_string().into_bytes();
        let o = ctx.run_text(&text);
        let lib = ctx.sut.last_output.clone();
        if matches!(o, Outcome::Endless) {
            ctx.skipped += 1;
            return;
        }
        std::fs::write(dir.join("w.json"), &text).unwrap();
        let c = post(&["-c".into(), "w.json".into()], &dir, 0);
        let why = || format!("post ended with {:?}\nstdout: {}\nstderr: {}", c.code, cut(&c.out), cut(&c.err));
        ctx.check("output of the program", c.out == lib, || format!("{}\nthe simulation prints: {}", why(), cut(&lib)));
        ctx.check("exit status", (c.code == Some(0)) == matches!(o, Outcome::Done(_)), why);
    });
    let good = variety()[0].to_string();
    std::fs::write(dir.join("good.json"), &good).unwrap();
    // what could be taken for the file meant
    std::fs::create_dir_all(dir.join("full")).unwrap();
    for f in ["config.json", "config", "post.json", "index.json", "default.json", "full/config.json", "full/good.json", "full/config", "full/index.json", "full/full.json", "full.json"] {
        std::fs::write(dir.join(f), &good).unwrap();
    }
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let wrong = [
        s(&[]),
        s(&["good.json"]),
        s(&["-c"]),
        s(&["--config"]),
        s(&["-c", "missing.json"]),
        s(&["-c", "missing/good.json"]),
        s(&["-c", "good.json/x"]),
        s(&["-c", "."]),
        s(&["-c", ""]),
        s(&["--config="]),
        s(&["-c", "good.json", "good.json"]),
        s(&["-c", "good.json", "-c", "good.json"]),
        s(&["-c", "good.json", "--unknown"]),
        s(&["-c", "good.json", "-x"]),
        s(&["--configuration", "good.json"]),
        s(&["-C", "good.json"]),
        s(&["config", "good.json"]),
        s(&["-c", "Good.json"]),
        s(&["-c", "good.json "]),
        s(&["-c", " good.json"]),
        s(&["-c", "good"]),
        s(&["-c", "good."]),
        s(&["-c", "full"]),
        s(&["-c", "full/"]),
        s(&["-c", "full/."]),
        s(&["-c", "missing"]),
        s(&["-c", "*.json"]),
        s(&["-c", "file:good.json"]),
        s(&["-c", "good.json", "--", "good.json"]),
        s(&["--"]),
    ];
    for a in &wrong {
        for env in 0..envs {
            if !ctx.next() {
                continue;
            }
            let c = post(a, &dir, env);
            ctx.executions += 1;
            let why = || format!("post {a:?} ended with {:?}\nstdout: {}\nstderr: {}", c.code, cut(&c.out), cut(&c.err));
            ctx.check("wrong command line", c.code.map(|c| c != 0).unwrap_or(false), why);
            ctx.check("nothing simulated", !c.out.contains("Starting Phase") && !c.out.contains("Time:"), why);
            ctx.check("message", !c.err.trim().is_empty(), why);
        }
    }
    for a in [s(&["--help"]), s(&["-h"]), s(&["--version"]), s(&["-V"])] {
        for env in 0..envs {
            if !ctx.next() {
                continue;
            }
            let c = post(&a, &dir, env);
            ctx.executions += 1;
            let why = || format!("post {a:?} ended with {:?}\nstdout: {}\nstderr: {}", c.code, cut(&c.out), cut(&c.err));
            ctx.check("informational option", c.code == Some(0) && !c.out.trim().is_empty(), why);
            ctx.check("nothing simulated", !c.out.contains("Starting Phase"), why);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

// ---------------------------------------------------------------- C25

#[derive(Debug, Clone, PartialEq)]
struct Block {
    time: f64,
    pos: [f64; 3],
    vel: [f64; 3],
    alt: f64,
    prop: f64,
}

/// Reads what was printed: (number of the phase, blocks).
fn parse(out: &str) -> Result<Vec<(u32, Vec<Block>)>, String> {
    let mut phases: Vec<(u32, Vec<Block>)> = vec![];
    let mut cur: Vec<f64> = vec![];
    let mut labels: Vec<&str> = vec![];
    for line in out.lines() {
        if let Some(n) = line.strip_prefix("Starting Phase ") {
            if !cur.is_empty() {
                return Err("incomplete block".into());
            }
            phases.push((n.trim().parse().map_err(|_| format!("heading {line:?}"))?, vec![]));
            continue;
        }
        let mut rest = line;
        for l in ["Time:", "Position:", "Velocity:", "Altitude:", "Prop mass:"] {
            if let Some(r) = line.strip_prefix(l) {
                labels.push(l);
                let k = match l {
                    "Time:" => 0,
                    "Position:" => 1,
                    "Velocity:" => 4,
                    "Altitude:" => 7,
                    _ => 8,
                };
                if cur.len() != k {
                    return Err(format!("{} numbers before {l}", cur.len()));
                }
                rest = r;
            }
        }
        for w in rest.split_whitespace() {
            if let Ok(x) = w.parse::<f64>() {
                cur.push(x);
            }
        }
        if cur.len() == 9 {
            if labels != ["Time:", "Position:", "Velocity:", "Altitude:", "Prop mass:"] {
                return Err(format!("labels {labels:?}"));
            }
            let b = Block { time: cur[0], pos: [cur[1], cur[2], cur[3]], vel: [cur[4], cur[5], cur[6]], alt: cur[7], prop: cur[8] };
            phases.last_mut().ok_or("no heading")?.1.push(b);
            cur.clear();
            labels.clear();
        }
    }
    if !cur.is_empty() {
        return Err("incomplete block at the end".into());
    }
    Ok(phases)
}

fn shows(b: &Block, s: &Snap) -> bool {
    let near = |a: f64, b: f64| (a - b).abs() <= 0.5 + 1e-6 + 1e-9 * b.abs();
    near(b.time, s.t)
        && (0..3).all(|i| near(b.pos[i], s.rp[i]) && near(b.vel[i], s.v[i]))
        && near(b.alt, s.alt)
        && near(b.prop, s.mp)
}

/// Many steps and many phases: force-free flights, whose every step is known.
fn c25_long(ctx: &mut Ctx) {
    let lists: [Vec<u64>; 8] = [
        vec![4000],
        vec![12000],
        vec![1, 1500, 2, 700, 1100],
        (0..150).map(|k| 1 + k % 3).collect(),
        (0..300).map(|k| 1 + k % 2).collect(),
        (0..40).map(|k| 20 + 3 * k).collect(),
        vec![70_000],
        vec![1; 66_000],
    ];
    for pl in [custom(RE, 6.2e6, 1e-6, [0.; 3], 1e-3), custom(RE, RE, 1e-6, [0.; 3], -7e-5), custom(3e6, 3.3e6, 1e-6, [0.; 3], 0.), custom(RE, RE, 1e-6, [0.; 3], 0.3)] {
        // fast enough to tell tiny steps from each other
        let hs: &[f64] = if pl["custom"]["rotation_rate"] == 0.3 { &[1e-5, 2e-4] } else { &[0.37, 1., 13.] };
        for &h in hs {
            for list in &lists {
                // (the longest only once)
                if list.iter().sum::<u64>() > 60_000 && (h != 1. || pl["custom"]["rotation_rate"] != 1e-3) {
                    continue;
                }
                if !ctx.next() {
                    continue;
                }
                let mut phases = vec![];
                for (k, n) in list.iter().enumerate() {
                    // the clock is met within a thousandth: no tiny step before
                    let early = if h < 1e-3 { 1e-3 - h / 2. } else { 0. };
                    let mut p = json!({"end_criterion": ["time_since_event", h * *n as f64 + early]});
                    if k == 0 {
                        set(&mut p, "stepsize", json!(h));
                        set(&mut p, "planet_model", pl.clone());
                        set(&mut p, "init", init(20., 30., 40., 5e4));
                        set(&mut p, "vehicle.structure_mass", json!(40.));
                        set(&mut p, "vehicle.propellant_mass", json!(12345.));
                    }
                    phases.push(p);
                }
                let planet = model::Planet::from_json(&pl);
                let Some(start) = ctx.done(&json!([blink(phases[0].clone())])) else { continue };
                let (r0, v0) = (start.r, start.v);
                ctx.sut.budget = 128 << 20;
                let o = ctx.done(&json!(phases));
                ctx.sut.budget = crate::sut::BUDGET;
                if o.is_none() {
                    continue;
                }
                let got = match parse(&ctx.sut.last_output.clone()) {
                    Ok(g) => g,
                    Err(e) => {
                        ctx.fail("format", e);
                        continue;
                    }
                };
                let heads: Vec<u32> = got.iter().map(|g| g.0).collect();
                ctx.check("headings", heads == (1..=list.len() as u32).collect::<Vec<_>>(), || format!("{heads:?} for {} phases", list.len()));
                let mut done = 0;
                for ((head, blocks), n) in got.iter().zip(list) {
                    let state = |k: u64| {
                        let t = h * (done + k) as f64;
                        let r = [r0[0] + v0[0] * t, r0[1] + v0[1] * t, r0[2] + v0[2] * t];
                        let rp = model::mv(&model::rz(planet.w * t), r);
                        Snap { t, rp, v: v0, alt: planet.altitude(r), mp: 12345., ..Default::default() }
                    };
                    let mut k = 0;
                    for b in blocks {
                        if k < *n && shows(b, &state(k + 1)) {
                            k += 1;
                        } else {
                            let ok = shows(b, &state(k));
                            ctx.check("block", ok, || format!("phase {head}: {b:?} is not step {}: {:?}", k + 1, state(k + 1)));
                        }
                        if ctx.stopped() {
                            return;
                        }
                    }
                    ctx.check("all steps", k == *n, || format!("phase {head}: {k} of {n} steps of {h} s are shown"));
                    done += n;
                }
            }
        }
    }
}

fn c25(ctx: &mut Ctx) {
    c25_long(ctx);
    let mut fl: Vec<Value> = busy().into_iter().map(|b| b.0).collect();
    fl.push(lively());
    let mut fast = lively();
    set(&mut fast, "planet_model", custom(RE, RE, MU, [0.; 3], 2e-3));
    fl.push(fast);
    fl.push(with(lively(), "init", init(-75., 350., 10., 250.)));
    // (changes, duration in steps or a criterion which has to be searched)
    let kinds = [
        json!({"steps": 1}),
        json!({"steps": 3}),
        json!({"steps": 2, "atmosphere": {"enabled": false}}),
        json!({"search": 2.4}),
        json!({"steps": 0, "vehicle": {"propellant_mass": 300.0}}),
    ];
    let n = kinds.len();
    let lens = if ctx.thorough { 4 } else { 3 };
    for f in &fl {
        for h in [0.37, 0.9, 1.7, 3.1] {
            for len in 1..=lens {
                for code in 0..n.pow(len) {
                    if !ctx.next() {
                        continue;
                    }
                    let mut cfg: Vec<Value> = vec![];
                    let mut want: Vec<Vec<Box<Snap>>> = vec![];
                    let mut search = vec![];
                    for k in 0..len {
                        let kind = &kinds[code / n.pow(k) % n];
                        let mut p = with(if k == 0 { f.clone() } else { json!({}) }, "stepsize", json!(h));
                        for key in ["atmosphere", "vehicle"] {
                            if let Some(o) = kind[key].as_object() {
                                for (l, w) in o {
                                    set(&mut p, &format!("{key}.{l}"), w.clone());
                                }
                            }
                        }
                        let mut states = vec![];
                        let at = |ctx: &mut Ctx, cfg: &[Value], end: Value| {
                            let mut c = cfg.to_vec();
                            c.push(with(p.clone(), "end_criterion", end));
                            match ctx.run(&json!(c)) {
                                Outcome::Done(s) => Some(s),
                                _ => None,
                            }
                        };
                        let mut end = Value::Null;
                        if let Some(s) = kind["steps"].as_u64() {
                            for j in 1..=s {
                                states.extend(at(ctx, &cfg, json!(["time_since_event", h * j as f64])));
                            }
                            end = json!(["time_since_event", h * s as f64]);
                            if s == 0 {
                                set(&mut p, "stepsize", json!(1e-6));
                                let mut c = cfg.clone();
                                c.push(with(p.clone(), "end_criterion", end.clone()));
                                if let Outcome::Done(s) = ctx.run(&json!(c)) {
                                    states.push(s);
                                }
                            }
                        } else {
                            // somewhere in the third step
                            for j in 1..=2 {
                                states.extend(at(ctx, &cfg, json!(["time_since_event", h * j as f64])));
                            }
                            if let Some(s) = at(ctx, &cfg, json!(["time_since_event", h * 2.4])) {
                                end = json!(["mass", s.m]);
                                states.push(s);
                            }
                            search.push(k);
                        }
                        if end.is_null() || states.is_empty() {
                            break;
                        }
                        let mut q = p.clone();
                        set(&mut q, "end_criterion", end);
                        cfg.push(q);
                        want.push(states);
                    }
                    if cfg.len() < len as usize {
                        ctx.skipped += 1;
                        continue;
                    }
                    let Some(fin) = ctx.done(&json!(cfg)) else { continue };
                    let out = ctx.sut.last_output.clone();
                    let got = match parse(&out) {
                        Ok(g) => g,
                        Err(e) => {
                            ctx.fail("format", format!("{e}\n{}", cut(&out)));
                            continue;
                        }
                    };
                    let heads: Vec<u32> = got.iter().map(|g| g.0).collect();
                    ctx.check("headings", heads == (1..=len).collect::<Vec<_>>(), || format!("{heads:?} for {len} phases"));
                    for (i, (_, blocks)) in got.iter().enumerate() {
                        if search.contains(&(i as u32)) {
                            // attempts show where the vehicle still is
                            let mut k = 0;
                            for b in blocks {
                                while k < want[i].len() && !shows(b, &want[i][k]) {
                                    k += 1;
                                }
                                if k == want[i].len() {
                                    // a part of the last step
                                    let inside = b.time <= want[i].last().unwrap().t + 0.51;
                                    ctx.check("block", inside, || format!("phase {}: {b:?} is none of {:?}", i + 1, want[i]));
                                    k -= 1;
                                }
                            }
                        } else {
                            ctx.check("blocks", blocks.len() >= want[i].len(), || format!("{} blocks for {} steps in phase {}", blocks.len(), want[i].len(), i + 1));
                            let mut k = 0;
                            for b in blocks {
                                if k < want[i].len() && shows(b, &want[i][k]) {
                                    k += 1;
                                } else {
                                    let ok = k > 0 && shows(b, &want[i][k - 1]);
                                    ctx.check("block", ok, || format!("phase {}: {b:?} is not step {k} of {:?}", i + 1, want[i]));
                                }
                            }
                            ctx.check("all steps", k == want[i].len(), || format!("phase {}: {k} of {} steps are shown", i + 1, want[i].len()));
                        }
                    }
                    let last = got.last().and_then(|g| g.1.last()).cloned();
                    ctx.check("last block", last.as_ref().map(|b| shows(b, &fin)).unwrap_or(false), || format!("{last:?} for {fin:?}"));
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Altitude, wide::Axis::Place, wide::Axis::Scale, wide::Axis::Timing, wide::Axis::History], &mut |ctx, v| {
        let got = match parse(v.out) {
            Ok(g) => g,
            Err(e) => {
                ctx.fail("format", format!("{e}\n{}", cut(v.out)));
                return;
            }
        };
        let heads: Vec<u32> = got.iter().map(|g| g.0).collect();
        ctx.check("headings", heads == (1..=v.cfg.len() as u32).collect::<Vec<_>>(), || format!("{heads:?} for {} phases", v.cfg.len()));
        let last = got.last().and_then(|g| g.1.last());
        ctx.check("last block", last.map(|b| shows(b, v.s)).unwrap_or(false), || format!("{last:?} for {:?}", v.s));
    });
}
