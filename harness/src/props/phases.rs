//! Phases: inheritance, end criteria, clocks, step sizes, splitting.

use super::attitude::lively;
use super::*;
use crate::model;
use crate::sut::{norm, Outcome, Snap};

pub fn props() -> Vec<(&'static str, F, Info)> {
    vec![
        reg(
            "C01",
            c01,
            "all length-3 histories over 33 atomic setting changes from 2 first phases, as instantaneous phases against the one merged phase, all length-2 ones over 61 (with edge values), all length-2 ones over 63 as real phases against their full restatement; null/absent/empty for every optional setting; 5x5x5x4 propellant histories",
            "length-4 instantaneous histories; length-3 real histories",
        ),
        reg(
            "C02",
            c02,
            "5 flights x 2 to 4 step sizes x 22 variables x every step interval of 12 x 9 targets inside, 8 targets around every grid value, 6 targets outside the flown range; 8-phase chains of hard crossings for 6 variables x 5 step sizes, 151-phase chains for 5 variables x 2 step sizes; 225 jumps of the angle of attack; two flights which start after 1234 s",
            "24 step intervals, 19 targets inside",
        ),
        reg(
            "C03",
            c03,
            "all length-4 histories over 12 phase kinds (clock criterion, other criterion, step size), observed after every phase; 5 late instants (up to 1e9 s) x 5x5 small steps after them",
            "length-5 histories",
        ),
        reg(
            "C04",
            c04,
            "all length-3 histories over (6 step sizes or inherited) x 4 durations x 2 dynamics; printed clock and final state against the prescribed step sequence",
            "length-4 histories",
        ),
        reg(
            "C23",
            c23,
            "all 2^9 ways to split a 10-step flight at step boundaries, for 8 flights x 3 step sizes",
            "all 2^13 ways to split a 14-step flight",
        ),
    ]
}

// ---------------------------------------------------------------- C01

/// Overlays a phase update on a phase, the way the manual describes: what is
/// not mentioned stays; tables, engines and steering axes are replaced whole.
fn overlay(base: &mut Value, up: &Value) {
    for (k, v) in up.as_object().unwrap() {
        if v.is_null() {
            continue;
        }
        match k.as_str() {
            "vehicle" | "atmosphere" | "steering" => {
                for (l, w) in v.as_object().unwrap() {
                    if !w.is_null() {
                        set(base, &format!("{k}.{l}"), w.clone());
                    }
                }
            }
            _ => set(base, k, v.clone()),
        }
    }
}

fn sphere(mu: f64, j: V3) -> Value {
    custom(RE, RE, mu, j, W)
}

/// Changes of one setting each. The planets share size and rotation, so that
/// the start of the flight is not affected.
fn atoms() -> Vec<Value> {
    let t = |n: &str, a: f64, b: f64| json!({"x": [n, [0.0, 1.0]], "data": [a, b]});
    vec![
        json!({}),
        json!({"planet_model": sphere(2e14, [0.; 3])}),
        json!({"planet_model": sphere(3.9e14, [1e-3, -2e-4, 1e-4])}),
        json!({"atmosphere": {"enabled": true}}),
        json!({"atmosphere": {"enabled": false}}),
        json!({"atmosphere": {"wind": [30.0, -20.0, 10.0]}}),
        json!({"atmosphere": {"wind": [0.0, 0.0, -45.0]}}),
        json!({"vehicle": {"structure_mass": 620.0}}),
        json!({"vehicle": {"structure_mass": 1410.0}}),
        json!({"vehicle": {"propellant_mass": 905.0}}),
        json!({"vehicle": {"propellant_mass": 333.0}}),
        json!({"vehicle": {"reference_area": 0.25}}),
        json!({"vehicle": {"reference_area": 1.5}}),
        json!({"vehicle": {"drag_coeff": t("mach_number", 0.3, 0.6)}}),
        json!({"vehicle": {"drag_coeff": konst(0.9)}}),
        json!({"vehicle": {"lift_coeff": t("alpha", 0.1, 1.4)}}),
        json!({"vehicle": {"lift_coeff": konst(-0.3)}}),
        json!({"vehicle": {"side_force_coeff": konst(0.2)}}),
        json!({"vehicle": {"side_force_coeff": t("mach_number", 0.1, -0.6)}}),
        json!({"vehicle": {"engines": []}}),
        json!({"vehicle": {"engines": [engine([0.0, 0.1], 2.5e4, 280., 0.04)]}}),
        json!({"vehicle": {"engines": [engine([0.1, 0.0], 1.5e4, 300., 0.), engine([-0.1, 0.0], 2e4, 250., 0.1)]}}),
        json!({"max_acceleration": 12.0}),
        json!({"max_acceleration": 17.0}),
        json!({"max_acceleration": -1}),
        json!({"steering": {"roll": ["time_since_event", [3.0, 0.0, 0.0]]}}),
        json!({"steering": {"roll": ["time_since_event", [-1.0, 0.4, 0.0]]}}),
        json!({"steering": {"yaw": ["time_since_event", [2.0, 0.0, 0.1]]}}),
        json!({"steering": {"yaw": ["time_since_event", [-2.5, 0.0, 0.0]]}}),
        json!({"steering": {"pitch": ["time_since_event", [-4.0, 0.0, 0.0]]}}),
        json!({"steering": {"pitch": ["time_since_event", [1.0, -0.5, 0.0]]}}),
        json!({"stepsize": 0.25}),
        json!({"stepsize": 0.4}),
    ]
}

/// Settings at the edge of their range, neutral ones, and of other shapes.
fn edges() -> Vec<Value> {
    vec![
        json!({"planet_model": sphere(1e-3, [0.; 3])}),
        json!({"planet_model": sphere(4.2e14, [0., 0., 2e-3])}),
        json!({"atmosphere": {"wind": [0.0, 0.0, 0.0]}}),
        json!({"atmosphere": {"enabled": true, "wind": [0.0, 1e-9, 0.0]}}),
        json!({"atmosphere": {"enabled": false, "wind": [5.0, 6.0, 7.0]}}),
        json!({"vehicle": {"structure_mass": 0.0, "propellant_mass": 1000.0}}),
        json!({"vehicle": {"structure_mass": 0.0}}),
        json!({"vehicle": {"propellant_mass": 0.0}}),
        json!({"vehicle": {"structure_mass": 150.0}}),
        json!({"vehicle": {"reference_area": 0.0}}),
        json!({"vehicle": {"reference_area": 1e-7}}),
        json!({"vehicle": {"reference_area": 1.0}}),
        json!({"vehicle": {"drag_coeff": konst(0.)}}),
        json!({"vehicle": {"drag_coeff": {"x": ["time", []], "data": []}}}),
        json!({"vehicle": {"lift_coeff": {"x": ["mach_number", [0.0, 1.0]], "y": ["alpha", [-1.0, 0.0, 1.0]], "data": [[0.1, 0.2, 0.5], [0.3, -0.2, 0.4]]}}}),
        json!({"vehicle": {"lift_coeff": konst(0.), "side_force_coeff": konst(0.)}}),
        json!({"vehicle": {"side_force_coeff": {"x": ["time_since_event", [0.0, 2.0]], "y": ["mass", [900.0, 1400.0]], "z": ["altitude", [0.0, 6000.0]],
            "data": [[[0.1, 0.2], [0.3, 0.1]], [[-0.1, 0.3], [0.2, 0.6]]]}}}),
        json!({"vehicle": {"engines": [engine([0.0, 0.0], 0., 300., 0.)]}}),
        json!({"vehicle": {"engines": [engine([0.02, 0.03], 3.5e4, 300., 0.05)]}}),
        json!({"vehicle": {"engines": [engine([0.0, 0.0], 0.5, 300., 0.)]}}),
        json!({"vehicle": {"engines": (0..20).map(|k| engine([0.01 * k as f64, -0.02 * k as f64], 1e3, 250. + k as f64, 0.001)).collect::<Vec<_>>()}}),
        json!({"max_acceleration": 0.0}),
        json!({"max_acceleration": 1.0}),
        json!({"max_acceleration": 1e9}),
        json!({"steering": {"roll": ["time_since_event", [0.0, 0.0, 0.0]]}}),
        json!({"steering": {"yaw": ["time", [1.0, 0.0, 0.0]]}}),
        json!({"steering": {"pitch": ["time_since_event", [0.0, 0.0, 0.0]], "yaw": ["time_since_event", [0.0, 0.0, 0.0]]}}),
        json!({"stepsize": 2.0}),
        json!({"stepsize": 1.0}),
        json!({"stepsize": 0.0625}),
    ]
}

fn first_phases() -> Vec<Value> {
    let full = json!({
        "init": init(33., 140., 65., 900.),
        "planet_model": sphere(MU, [1e-3, 0., 0.]),
        "atmosphere": {"enabled": true, "wind": [14.0, -9.0, 5.0]},
        "vehicle": {"structure_mass": 700.0, "propellant_mass": 800.0, "reference_area": 0.6,
            "drag_coeff": konst(0.4), "lift_coeff": konst(0.2), "side_force_coeff": konst(0.1),
            "engines": [engine([0.02, 0.03], 3.5e4, 300., 0.05)]},
        "steering": {"roll": ["time_since_event", [1.0, 0.0, 0.0]], "yaw": ["time_since_event", [0.5, 0.1, 0.0]],
            "pitch": ["time_since_event", [-1.5, 0.0, 0.05]]},
        "max_acceleration": 25.0,
        "stepsize": 0.5
    });
    let sparse = json!({"init": init(-20., 60., 200., 5000.), "vehicle": {"structure_mass": 900.0}});
    vec![full, sparse]
}

/// Both final states agree, apart from the duration of instantaneous phases.
fn same(ctx: &mut Ctx, what: &str, a: &Snap, b: &Snap, slack: f64) {
    for ((n, u), (_, v)) in a.vectors().iter().zip(b.vectors().iter()) {
        let abs = if n.starts_with("pos") || n.starts_with("vel") { slack } else { 1e-2 * slack };
        let abs = if n.ends_with("force_body") { 10. * slack } else { abs };
        ctx.eqv(&format!("{what}: {n}"), *u, *v, 1e-13, abs);
    }
    ctx.eqv(&format!("{what}: gravity"), a.grav, b.grav, 1e-11, 0.);
    for ((n, u), (_, v)) in a.fields().iter().zip(b.fields().iter()).take(17) {
        if n != "alpha" {
            ctx.eq(&format!("{what}: {n}"), *u, *v, 1e-3 * slack, 1e-3 * slack);
        }
    }
}

/// All histories of these changes in phases of no duration, against the one
/// phase with the merged settings.
fn instantaneous(ctx: &mut Ctx, atoms: &[Value], len: u32) {
    let n = atoms.len();
    let end = json!(["time_since_event", 2.0]);
    for first in first_phases() {
        for code in 0..n.pow(len) {
            if !ctx.next() {
                continue;
            }
            let picks: Vec<&Value> = (0..len).map(|k| &atoms[code / n.pow(k) % n]).collect();
            let mut phases = vec![blink(first.clone())];
            let mut merged = first.clone();
            let mut h = first["stepsize"].as_f64().unwrap_or(1.0);
            let mut massless = false;
            for (k, p) in picks.iter().enumerate() {
                overlay(&mut merged, p);
                let m = |n: &str| merged["vehicle"][n].as_f64().unwrap_or(0.);
                massless |= m("structure_mass") + m("propellant_mass") == 0.;
                if let Some(x) = p["stepsize"].as_f64() {
                    h = x;
                }
                let mut q = (*p).clone();
                if k as u32 + 1 == len {
                    set(&mut q, "end_criterion", end.clone());
                    set(&mut q, "stepsize", json!(h));
                } else if !p["stepsize"].is_null() {
                    q = blink(q);
                }
                phases.push(q);
            }
            set(&mut merged, "end_criterion", end.clone());
            set(&mut merged, "stepsize", json!(h));
            let (a, b) = (ctx.run(&json!(phases)), ctx.run(&json!([merged])));
            match (a, b) {
                _ if massless => ctx.skipped += 1,
                (Outcome::Done(a), Outcome::Done(b)) => same(ctx, "changed step by step", &a, &b, 2e-4),
                (Outcome::Aborted(_), Outcome::Aborted(_)) => {}
                (a, b) => {
                    // the limit cannot be kept with the settings in between
                    let mut m = first.clone();
                    let mut between = false;
                    for q in &picks[..len as usize - 1] {
                        overlay(&mut m, q);
                        between |= matches!(ctx.run(&json!([blink(m.clone())])), Outcome::Aborted(_));
                    }
                    if !between || !matches!(a, Outcome::Aborted(_)) {
                        ctx.fail("outcome", format!("{} // {}", a.brief(), b.brief()));
                    }
                }
            }
        }
    }
}

fn c01(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let atoms = atoms();
    // Instantaneous phases: the last of them is the merged one
    instantaneous(ctx, &atoms, if th { 4 } else { 3 });
    let mut all = [atoms, edges()].concat();
    instantaneous(ctx, &all, if th { 3 } else { 2 });
    // what continues from the angles at the event
    all.push(json!({"steering": {"pitch": ["propellant_mass", [0.002, 0.0, 0.0]]}}));
    all.push(json!({"steering": {"roll": ["time", [4.0, 0.0, 0.0]], "yaw": ["velocity_planet_norm", [0.05, 0.0, 0.0]]}}));
    let atoms = all;
    let n = atoms.len();
    // Real phases: restating everything in force changes nothing
    let len: u32 = if th { 3 } else { 2 };
    let mut real = first_phases();
    set(&mut real[1], "vehicle.propellant_mass", json!(400.0));
    set(&mut real[1], "vehicle.engines", json!([engine([0., 0.], 2e4, 300., 0.)]));
    for first in real {
        for code in 0..n.pow(len) {
            for mode in 0..2 {
                if !ctx.next() {
                    continue;
                }
                let mut f = first.clone();
                set(&mut f, "end_criterion", json!(["time_since_event", 1.5]));
                let mut force = f.clone();
                let mut sparse = vec![f.clone()];
                let mut full = vec![f];
                for k in 0..len {
                    let a = &atoms[code / n.pow(k) % n];
                    overlay(&mut force, a);
                    sparse.push(a.clone());
                    let mut r = force.clone();
                    // the masses are changed by burning, not part of it
                    let v = r["vehicle"].as_object_mut().unwrap();
                    v.remove("propellant_mass");
                    v.remove("structure_mass");
                    for m in ["structure_mass", "propellant_mass"] {
                        if !a["vehicle"][m].is_null() {
                            set(&mut r, &format!("vehicle.{m}"), a["vehicle"][m].clone());
                        }
                    }
                    if mode == 0 {
                        r.as_object_mut().unwrap().remove("init");
                    }
                    full.push(r);
                }
                match (ctx.run(&json!(sparse)), ctx.run(&json!(full))) {
                    (Outcome::Done(_), Outcome::Done(b)) if b.m == 0. => ctx.skipped += 1,
                    (Outcome::Done(a), Outcome::Done(b)) => same(ctx, "restated", &a, &b, 1e-9),
                    (Outcome::Aborted(_), Outcome::Aborted(_)) => {}
                    (a, b) => ctx.fail("outcome", format!("{} // {}", a.brief(), b.brief())),
                }
            }
        }
    }
    // null, absent and empty mean the same
    let keys = [
        "planet_model", "atmosphere", "atmosphere.enabled", "atmosphere.wind", "vehicle", "vehicle.structure_mass",
        "vehicle.propellant_mass", "vehicle.reference_area", "vehicle.drag_coeff", "vehicle.lift_coeff",
        "vehicle.side_force_coeff", "vehicle.engines", "steering", "steering.roll", "steering.yaw", "steering.pitch",
        "max_acceleration", "stepsize", "end_criterion", "init",
    ];
    for first in first_phases() {
        for k in keys {
            for l in keys {
                for at in 0..2 {
                    if !ctx.next() {
                        continue;
                    }
                    let mut f = first.clone();
                    set(&mut f, "end_criterion", json!(["time_since_event", 1.5]));
                    let mut a = vec![f, json!({}), json!({"vehicle": {"propellant_mass": 300.0}})];
                    let mut b = a.clone();
                    for key in [k, l] {
                        // only where nothing is specified
                        let mut cur = &a[1 + at];
                        let mut free = true;
                        for part in key.split('.') {
                            cur = &cur[part];
                        }
                        if !cur.is_null() {
                            free = false;
                        }
                        if free {
                            set(&mut b[1 + at], key, Value::Null);
                        }
                    }
                    if k == l {
                        // the parent is present, but empty
                        if let Some((p, _)) = k.split_once('.') {
                            if a[1 + at][p].is_null() {
                                set(&mut a[1 + at], p, json!({}));
                            }
                        }
                    }
                    let (Some(x), Some(y)) = (ctx.done(&json!(a)), ctx.done(&json!(b))) else { continue };
                    ctx.check("null means absent", x.hash() == y.hash(), || format!("{x:?} // {y:?}"));
                }
            }
        }
    }
    // Masses
    let opt = [None, Some(300.), Some(850.), Some(1200.), Some(0.)];
    for a in 0..5 {
        for b in 0..5 {
            for c in 0..5 {
                for d in 0..4 {
                    if !ctx.next() {
                        continue;
                    }
                    let rate = 25000. / (300. * model::G0);
                    let mut p = json!([{
                        "init": init(0., 0., 0., 1e5), "planet_model": void(0.),
                        "vehicle": {"structure_mass": 500.0, "propellant_mass": 700.0, "engines": [engine([0., 0.], 25000., 300., 0.)]},
                        "stepsize": 0.5, "end_criterion": ["time_since_event", 4.0]}, {}, {}, {}]);
                    let (mut ms, mut mp) = (500., 700. - 4. * rate);
                    for (k, x, y) in [(1, a, b), (2, c, d), (3, d, c)] {
                        if let Some(m) = opt[x] {
                            if m > 0. {
                                set(&mut p[k], "vehicle.structure_mass", json!(m));
                                ms = m;
                            }
                        }
                        if let Some(m) = opt[y] {
                            set(&mut p[k], "vehicle.propellant_mass", json!(m));
                            mp = m;
                        }
                        mp -= 4. * rate;
                    }
                    let Some(s) = ctx.done(&p) else { continue };
                    ctx.eq("mass", s.m, ms + mp, 1e-12, 0.);
                    ctx.eq("propellant", s.mp, mp, 1e-12, 1e-9);
                }
            }
        }
    }
    // in every regime: stating again what is in force changes nothing, and
    // neither does a setting which is overwritten at once
    wide::all(ctx, if th { 3 } else { 2 }, &mut |ctx, spec| {
        let sparse = spec.phases();
        if sparse.len() < 2 {
            return;
        }
        let mut force = sparse[0].clone();
        let mut full = vec![sparse[0].clone()];
        for p in &sparse[1..] {
            overlay(&mut force, p);
            let mut r = force.clone();
            r.as_object_mut().unwrap().remove("init");
            if r["vehicle"].is_object() {
                let v = r["vehicle"].as_object_mut().unwrap();
                v.remove("propellant_mass");
                v.remove("structure_mass");
            }
            for m in ["structure_mass", "propellant_mass"] {
                if !p["vehicle"][m].is_null() {
                    set(&mut r, &format!("vehicle.{m}"), p["vehicle"][m].clone());
                }
            }
            full.push(r);
        }
        ctx.sut.budget = 400_000;
        let (a, b) = (ctx.run(&json!(sparse)), ctx.run(&json!(full)));
        ctx.sut.budget = crate::sut::BUDGET;
        match (a, b) {
            (Outcome::Done(a), Outcome::Done(b)) => {
                ctx.check("restated", a.hash() == b.hash(), || format!("{a:?} // {b:?}"));
            }
            (Outcome::Aborted(_), Outcome::Aborted(_)) | (Outcome::Endless, Outcome::Endless) => {}
            (a, b) => ctx.fail("outcome", format!("{} // {}", a.brief(), b.brief())),
        }
    });
}

// ---------------------------------------------------------------- C02

/// Flights as (phases before, phase whose end is examined).
fn c02_flights() -> Vec<(Vec<Value>, Value, Vec<f64>)> {
    let up = lively();
    let mut pitch = lively();
    set(&mut pitch, "steering", json!({"pitch": ["time_since_event", [-2.0, 0.1, 0.0]], "roll": ["time_since_event", [5.0, 0.0, 0.0]]}));
    let toss = json!({
        "init": init(10., 0., 0., 1000.), "planet_model": "spherical",
        "vehicle": {"structure_mass": 1000.0, "propellant_mass": 1000.0, "engines": [engine([0., 0.], 4e4, 300., 0.)]},
        "stepsize": 1.0, "end_criterion": ["time_since_event", 20.0]});
    let fall = json!({"vehicle": {"engines": []}});
    let mut climb = toss.clone();
    set(&mut climb, "atmosphere.enabled", json!(true));
    set(&mut climb, "vehicle", json!({"structure_mass": 1000.0, "propellant_mass": 5000.0, "reference_area": 0.5,
        "drag_coeff": konst(0.3), "engines": [engine([0., 0.], 1.2e5, 300., 0.)]}));
    set(&mut climb, "end_criterion", json!(["time_since_event", 30.0]));
    let orbit = coast(init(20., 40., 60., 2e6), custom(RE, RP, MU, [1e-3, 0., 0.], 8e-4), 1., 1.);
    let mut late = coast(init(-15., 200., 100., 1.2e6), custom(RE, RP, MU, [1e-3, 0., 0.], 9e-4), 12., 1234.56);
    set(&mut late, "vehicle.propellant_mass", json!(4000.0));
    set(&mut late, "vehicle.reference_area", json!(0.1));
    vec![
        (vec![], up, vec![0.5, 1.0, 2.0]),
        (vec![], pitch, vec![0.5, 1.5]),
        (vec![toss], fall, vec![1.0, 2.0, 5.0]),
        (vec![climb], json!({}), vec![1.0, 3.0, 10.0, 20.0]),
        (vec![], orbit, vec![10.0, 60.0]),
        // long after the start
        (vec![late.clone()], json!({"vehicle": {"engines": [engine([0.1, 0.2], 3e4, 310., 0.)]}}), vec![3.0, 20.0]),
        (vec![late, json!({"end_criterion": ["time_since_event", 1.0]})], json!({"vehicle": {"engines": []}}), vec![7.0, 45.0]),
    ]
}

const C02_VARS: [&str; 22] = [
    "time", "time_since_event", "altitude", "altitude_geopotential", "mass", "propellant_mass", "velocity_norm",
    "velocity_planet_norm", "velocity_atmosphere3", "velocity_planet1", "position1", "position_planet2", "position_norm",
    "pressure", "temperature", "dynamic_pressure", "mach_number", "density", "acceleration_norm",
    "aero_force_body1", "thrust_force_body_norm", "euler_angles_pitch",
];

fn with_end(before: &[Value], ph: &Value, h: f64, var: &str, target: f64) -> Value {
    let mut p = before.to_vec();
    let mut q = ph.clone();
    set(&mut q, "stepsize", json!(h));
    set(&mut q, "end_criterion", json!([var, target]));
    p.push(q);
    json!(p)
}

/// The states at the step boundaries, with one and with two steps for each.
pub fn c02_grid(ctx: &mut Ctx, before: &[Value], ph: &Value, h: f64, steps: usize) -> (Vec<Box<Snap>>, Vec<Box<Snap>>) {
    let mut g = vec![];
    let mut fine = vec![];
    for k in 0..=steps {
        let cfg = if k == 0 {
            with_end(before, ph, 1e-9, "time_since_event", 0.)
        } else {
            with_end(before, ph, h, "time_since_event", h * k as f64)
        };
        // the flight itself may not get that far
        match ctx.run(&cfg) {
            Outcome::Done(s) if s.mp > 0. || ph["init"].is_object() => g.push(s),
            _ => break,
        }
    }
    for k in 0..g.len() {
        let cfg = with_end(before, ph, h / 2., "time_since_event", h * k as f64);
        match ctx.run(&cfg) {
            Outcome::Done(s) if k > 0 => fine.push(s),
            _ => fine.push(g[k].clone()),
        }
    }
    (g, fine)
}

fn c02(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let (steps, inside) = if th { (24, 19) } else { (12, 9) };
    for (before, ph, hs) in c02_flights() {
        for h in hs {
            // the states at the step boundaries, from the real code
            let mut grid_: Option<Vec<Box<Snap>>> = None;
            // and with two steps for each
            let mut fine: Vec<Box<Snap>> = vec![];
            for var in C02_VARS {
                for n in 0..steps {
                    if !ctx.next() {
                        continue;
                    }
                    if grid_.is_none() {
                        let (g, f) = c02_grid(ctx, &before, &ph, h, steps);
                        fine = f;
                        grid_ = Some(g);
                    }
                    let g = grid_.clone().unwrap();
                    if n + 1 >= g.len() {
                        continue;
                    }
                    let y: Vec<f64> = g.iter().map(|s| s.var(var)).collect();
                    let (a, b) = (y[n], y[n + 1]);
                    let mut targets = vec![];
                    if (b - a).abs() > 0.01 {
                        for k in 1..=inside {
                            targets.push(a + (b - a) * k as f64 / (inside + 1) as f64);
                        }
                    }
                    for d in [0., 4e-4, 3e-3, 0.1] {
                        targets.push(b + d);
                        targets.push(b - d);
                    }
                    if n == 0 {
                        let lo = y.iter().cloned().fold(f64::INFINITY, f64::min);
                        let hi = y.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                        let w = (hi - lo).max(1.);
                        targets.extend([lo - 0.01, lo - 0.1 * w, lo - 3. * w, hi + 0.01, hi + 0.1 * w, hi + 3. * w]);
                        targets.extend([a, a + 4e-4, a - 4e-4, a + 2e-3, a - 2e-3]);
                    }
                    for t in targets {
                        if t.is_finite() {
                            end_ok(ctx, &before, &ph, h, var, t, &g, &fine);
                        }
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    }
    // Chains of phases which all have to search for their end
    let toss = c02_flights()[2].0[0].clone();
    for h in [0.7, 1.5, 3., 6., 12.] {
        for var in ["altitude", "velocity_planet_norm", "propellant_mass", "position_planet1", "pressure", "altitude_geopotential"] {
            for off in 0..4 {
                if !ctx.next() {
                    continue;
                }
                let mut f = toss.clone();
                set(&mut f, "stepsize", json!(h));
                set(&mut f, "atmosphere.enabled", json!(true));
                set(&mut f, "vehicle.propellant_mass", json!(4000.0));
                set(&mut f, "vehicle.engines", json!([engine([0., 0.], 9e4, 300., 0.)]));
                // where is it at these times?
                let mut vals = vec![];
                for k in 1..=8 {
                    let t = 3.3 * k as f64 + 0.17 * off as f64;
                    let mut q = f.clone();
                    set(&mut q, "end_criterion", json!(["time_since_event", t]));
                    set(&mut q, "stepsize", json!(t / 40.));
                    let Some(s) = ctx.done(&json!([q])) else { break };
                    vals.push((t, s.var(var)));
                }
                if vals.len() < 8 {
                    continue;
                }
                let mut chain = vec![];
                for (k, (t, v)) in vals.iter().enumerate() {
                    let mut q = if k == 0 { f.clone() } else { json!({}) };
                    set(&mut q, "end_criterion", json!([var, v]));
                    chain.push(q);
                    let Some(s) = ctx.done(&json!(chain)) else { break };
                    ctx.check("end of a chained phase", (s.var(var) - v).abs() < 1e-3 && (s.t - t).abs() < 0.05, || {
                        format!("{var} is {} at {}, should be {v} at about {t}", s.var(var), s.t)
                    });
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        }
    }
    // What is jumped over (the angle of attack, where it wraps) is no end which
    // could be found, but the search for it has to come to one
    for rate in [-40., -11., 7., 25., 90.] {
        for h in [0.1, 0.5, 1.3] {
            for target in [-1., -0.2, 0., 0.3, 1.1] {
                for az in [20., 110., 250.] {
                    if !ctx.next() {
                        continue;
                    }
                    let c = json!({"init": init(10., 0., az, 1e6), "planet_model": custom(RE, RE, 1., [0.; 3], 0.), "vehicle": {"structure_mass": 1000.0},
                        "atmosphere": {"wind": [200.0, 60.0, 30.0]}, "steering": {"pitch": ["time_since_event", [rate, 0.0, 0.0]]},
                        "stepsize": h, "end_criterion": ["alpha", target]});
                    ctx.sut.budget = 400_000;
                    let o = ctx.run(&json!([c]));
                    ctx.sut.budget = crate::sut::BUDGET;
                    match o {
                        Outcome::Done(s) => {
                            ctx.check("target value", (s.alpha - target).abs() < 1e-3, || format!("alpha is {} at the end, target is {target}", s.alpha));
                        }
                        Outcome::Aborted(_) => ctx.skipped += 1,
                        o => ctx.fail("outcome", format!("the phase could end after a turn at most, but: {}", o.brief())),
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        }
    }
    // many phases, all of whose ends have to be searched
    for var in ["altitude", "velocity_norm", "position1", "propellant_mass", "dynamic_pressure"] {
        for h in [1.7, 5.] {
            if !ctx.next() {
                continue;
            }
            let mut f = toss.clone();
            set(&mut f, "stepsize", json!(h));
            set(&mut f, "atmosphere.enabled", json!(true));
            set(&mut f, "vehicle.propellant_mass", json!(4000.0));
            set(&mut f, "vehicle.engines", json!([engine([0., 0.], 9e4, 300., 0.)]));
            set(&mut f, "end_criterion", json!(["time_since_event", 60.0]));
            let mut chain = vec![f];
            let Some(mut last) = ctx.done(&json!(chain)) else { continue };
            for k in 0..150 {
                // where is it a little later?
                let mut q = chain.clone();
                q.push(json!({"end_criterion": ["time_since_event", 0.13 + 0.01 * (k % 7) as f64], "stepsize": 0.05}));
                let Some(s) = ctx.done(&json!(q)) else { break };
                let (v, t) = (s.var(var), s.t);
                if (v - last.var(var)).abs() < 0.02 {
                    break;
                }
                chain.push(json!({"end_criterion": [var, v], "stepsize": h}));
                let Some(s) = ctx.done(&json!(chain)) else { break };
                ctx.check("end of a chained phase", (s.var(var) - v).abs() < 1e-3 && (s.t - t).abs() < 0.02, || {
                    format!("{var} is {} at {} in phase {}, should be {v} at about {t}", s.var(var), s.t, k + 2)
                });
                last = s;
                if ctx.stopped() {
                    return;
                }
            }
        }
    }
    // in every regime
    let vars: &[&str] = if th { &C02_VARS } else { &["altitude", "propellant_mass", "velocity_norm", "velocity_planet1", "position2", "dynamic_pressure", "time"] };
    let steps = if th { 5 } else { 3 };
    let mut every = |ctx: &mut Ctx, spec: &wide::Spec| ends_anywhere(ctx, spec, vars, steps, &[0.37, 0.93, 1.]);
    wide::ball(ctx, &wide::AXES, if th { 2 } else { 1 }, &mut every);
    // one variable after the other
    let mut turn = 0;
    wide::array(ctx, &mut |ctx, spec| {
        let n = C02_VARS.len();
        turn += 1;
        let two = [C02_VARS[turn % n], C02_VARS[(turn + turn / n) % n]];
        ends_anywhere(ctx, spec, if th { &C02_VARS } else { &two }, 2, &[0.37]);
    });
}

/// Ends the last phase of a flight at values its variables take on the way.
pub fn ends_anywhere(ctx: &mut Ctx, spec: &wide::Spec, vars: &[&str], steps: usize, at: &[f64]) {
    let mut before = spec.phases();
    let mut env = model::Env::default();
    for p in &before {
        env.merge(p, 0.);
    }
    let ph = before.pop().unwrap();
    let h = env.h.max(1e-3);
    let (g, fine) = c02_grid(ctx, &before, &ph, h, steps);
    // steps which leap far say nothing about what is between
    let leap = g.windows(2).any(|w| norm(model::sub(w[1].r, w[0].r)) > 0.2 * norm(w[0].r));
    // nor do steps in which the vehicle turns over
    let spin = g.windows(2).any(|w| (0..3).any(|i| !((w[1].euler[i] - w[0].euler[i]).abs() < 1.)));
    // (coefficients may jump where the angle of attack wraps)
    let spin = spin || g.windows(2).any(|w| norm(w[0].va) > 1. && !((w[1].alpha - w[0].alpha).abs() < 1.));
    // or where the limit of acceleration goes out of reach of the engines
    let spin = spin || g.windows(2).any(|w| !((w[1].throttle - w[0].throttle).abs() < 0.3));
    if g.len() < 3 || leap || spin || g.iter().any(|s| wide::open(s, &env) || s.mp < 0.) {
        ctx.skipped += 1;
        return;
    }
    for var in vars {
        // jumps when the vehicle starts to move
        if *var == "alpha" && g.iter().any(|s| norm(s.va) < 1.) {
            continue;
        }
        let y: Vec<f64> = g.iter().map(|s| s.var(var)).collect();
        for n in 0..g.len() - 1 {
            let (a, b) = (y[n], y[n + 1]);
            // only if the steps are fine enough for this variable
            let rough = (0..g.len()).any(|k| (fine[k].var(var) - y[k]).abs() > 0.01 * (b - a).abs());
            let flat = (b - a).abs() <= 0.01;
            for f in at {
                let t = a + (b - a) * f;
                // within what numbers can tell apart
                if (*f == 1. || !flat && !rough) && t.abs() < 1e9 && !ctx.stopped() {
                    end_ok(ctx, &before, &ph, h, var, t, &g, &fine);
                }
            }
        }
    }
}

/// The phase ends in the first step interval in which the target is crossed.
#[allow(clippy::too_many_arguments)]
pub fn end_ok(ctx: &mut Ctx, before: &[Value], ph: &Value, h: f64, var: &str, target: f64, g: &[Box<Snap>], fine: &[Box<Snap>]) {
    let y: Vec<f64> = g.iter().map(|s| s.var(var) - target).collect();
    // Unclear at the edge of the tolerance, and where it depends on the
    // truncation error of the steps whether the target is reached
    let unclear = |k: usize| {
        let tr = 2. * (fine[k].var(var) - g[k].var(var)).abs();
        (y[k].abs() - 1e-3).abs() < 2e-5 + tr || k > 0 && y[k].abs() < tr && tr > 1e-3
    };
    if (0..y.len()).any(unclear) {
        ctx.skipped += 1;
        return;
    }
    let t0 = g[0].t;
    let hit = |k: usize| y[k].abs() < 1e-3;
    let mut span = None;
    for k in 0..y.len() - 1 {
        if k == 0 && hit(0) {
            // there from the start; it may linger within the tolerance
            span = Some((0., if hit(1) { h } else { h * 2e-3 / y[1].abs().max(2e-3) * 2. }));
            if hit(1) || y[0] * y[1] < 0. {
                span = Some((0., h));
            }
            break;
        }
        if hit(k + 1) {
            // at the boundary, from either side
            span = Some((h * k as f64, h * (k + 1) as f64));
            break;
        }
        if y[k] * y[k + 1] < 0. {
            span = Some((h * k as f64, h * (k + 1) as f64));
            break;
        }
    }
    let cfg = with_end(before, ph, h, var, target);
    let steps = g.len() - 1;
    // with all the tries the search for the end may take
    ctx.sut.budget = (steps as u64 + 250 + before.len() as u64 * 60) * 300;
    let o = ctx.run(&cfg);
    ctx.sut.budget = crate::sut::BUDGET;
    let blocks = ctx.sut.last_output.matches("Prop mass:").count();
    match (o, span) {
        (Outcome::Done(s), Some((a, b))) => {
            let v = s.var(var);
            ctx.check("target value", (v - target).abs() < 1e-3, || {
                format!("{var} is {v} at the end of the phase, target is {target}")
            });
            // substeps are truncated differently from the full steps
            let eps = 1e-4 * h.max(1.) + 2e-3 / ((y[1] - y[0]).abs() / h).max(1e-3);
            ctx.check("time of the end", s.t - t0 >= a - eps && s.t - t0 <= b + eps, || {
                format!("{var} first reaches {target} between {a} and {b} s after the event, the phase ended after {} s", s.t - t0)
            });
        }
        (Outcome::Done(s), None) => {
            ctx.check("not reached yet", s.t - t0 > h * steps as f64 - 1e-6, || {
                format!("{var} does not reach {target} within {steps} steps of {h} s, the phase ended after {} s at {}", s.t - t0, s.var(var))
            });
            ctx.check("target value", (s.var(var) - target).abs() < 1e-3, || {
                format!("{var} is {} at the end of the phase, target is {target}", s.var(var))
            });
        }
        (Outcome::Endless, None) => {}
        // later parts of the flight are not of interest
        (Outcome::Aborted(_), None) if blocks >= steps => {}
        (o, s) => ctx.fail("outcome", format!("{var} {target}, expected end in {s:?}: {}", o.brief())),
    }
}

// ---------------------------------------------------------------- C03

fn c03(ctx: &mut Ctx) {
    let kinds = [
        json!({"end_criterion": ["time_since_event", 1.0]}),
        json!({"end_criterion": ["time_since_event", 2.7], "stepsize": 1.0}),
        json!({"end_criterion": ["time_since_event", 0.3], "stepsize": 0.5}),
        json!({"end_criterion": ["time_since_event", 0.0]}),
        json!({"end_criterion": ["altitude", 1200.0], "stepsize": 0.8}),
        json!({"end_criterion": ["propellant_mass", 730.0]}),
        json!({"end_criterion": ["velocity_planet_norm", 55.0], "stepsize": 2.0}),
        json!({"end_criterion": ["time", 4.25]}),
        json!({"end_criterion": ["time", 11.5], "stepsize": 3.0}),
        json!({"vehicle": {"propellant_mass": 900.0}, "end_criterion": ["propellant_mass", 877.5], "stepsize": 0.4}),
        json!({"atmosphere": {"enabled": false}, "end_criterion": ["time_since_event", 1.9]}),
        json!({"planet_model": "spherical", "steering": {"pitch": ["time_since_event", [-1.0, 0.0, 0.0]]}}),
    ];
    let n = kinds.len();
    let len: u32 = if ctx.thorough { 5 } else { 4 };
    for code in 0..n.pow(len) {
        if !ctx.next() {
            continue;
        }
        let mut cfg = vec![];
        let mut crit = Value::Null;
        let mut last = 0.;
        let mut h = 0.5;
        for k in 0..len {
            let kind = &kinds[code / n.pow(k) % n];
            let mut p = kind.clone();
            if k == 0 {
                let mut f = lively();
                overlay(&mut f, kind);
                p = f;
            }
            if !kind["end_criterion"].is_null() {
                crit = kind["end_criterion"].clone();
            } else if k == 0 {
                crit = lively()["end_criterion"].clone();
            }
            if let Some(x) = kind["stepsize"].as_f64() {
                h = x;
            }
            cfg.push(p);
            let (name, target) = (crit[0].as_str().unwrap(), crit[1].as_f64().unwrap());
            // the criterion may have been passed before: nothing to see then
            let passed = match name {
                "time" => target < last - 1e-3,
                "time_since_event" => false,
                _ => true,
            };
            ctx.sut.budget = 30_000;
            let o = ctx.run(&json!(cfg));
            ctx.sut.budget = crate::sut::BUDGET;
            // the clock never runs backwards
            let cut = ctx.sut.last_output.rfind("Time: ").unwrap_or(0);
            let times: Vec<f64> = ctx.sut.last_output[..cut].lines().filter_map(|l| l.strip_prefix("Time: ")?.parse().ok()).collect();
            ctx.check("printed clock", times.windows(2).all(|w| w[0] <= w[1]), || format!("{times:?}"));
            let Outcome::Done(s) = o else {
                // a slow phase before may have used up the output
                let ok = (passed && !matches!(o, Outcome::Rejected(_))) || (last > 20. && matches!(o, Outcome::Endless));
                ctx.check("run", ok, || o.brief());
                break;
            };
            ctx.check("clock", s.t >= last - 1e-12, || format!("time went from {last} to {}", s.t));
            ctx.eq("time since the event", s.tse, s.t - last, 1e-12, 1e-9);
            match name {
                "time_since_event" => {
                    if target > 0. {
                        ctx.eq("duration", s.tse, target, 0., 1e-3);
                    } else {
                        ctx.check("duration", s.tse <= h, || format!("{}", s.tse));
                    }
                }
                "time" if !passed && target > last + 1e-3 => {
                    ctx.eq("time", s.t, target, 0., 1e-3);
                }
                _ => {}
            }
            last = s.t;
            if ctx.stopped() {
                return;
            }
        }
    }
    // late on: small steps after a long time
    let small = [0.0004, 0.01, 0.037, 0.25, 1.3];
    for late in [1e4, 3.3e5, 1.7e7, 2.1e8, 1e9] {
        for h in small {
            for h3 in small {
                if !ctx.next() {
                    continue;
                }
                let mut first = coast(init(10., 20., 30., 1e5), void(7e-5), late / 4., late);
                set(&mut first, "vehicle", json!({"structure_mass": 50.0, "propellant_mass": 1000.0}));
                let cfg = json!([
                    first,
                    {"stepsize": h, "end_criterion": ["time_since_event", 7.4 * h], "vehicle": {"engines": [engine([0.; 2], 1e3, 100., 0.)]}},
                    {"stepsize": h3, "end_criterion": ["time", late + 7.4 * h + 5.7 * h3]},
                ]);
                let mut last = 0.;
                let mut mass = 1050.;
                let round = late * 1e-14;
                for n in 1..4 {
                    let Some(s) = ctx.done(&json!(cfg.as_array().unwrap()[..n])) else { break };
                    ctx.eq("late time since the event", s.tse, s.t - last, 0., round + 1e-9 * h);
                    let dur = [late, 7.4 * h, 5.7 * h3][n - 1];
                    ctx.eq("late duration", s.tse, dur, 0., 2.1e-3f64.min(dur) + round);
                    if n > 1 {
                        mass -= s.tse * 1e3 / 100. / 9.80665;
                        ctx.eq("mass burnt by a late clock", s.m, mass, 1e-11, 0.);
                        let steps = ctx.sut.last_output.rsplit("Starting Phase").next().unwrap_or("").matches("Prop mass:").count();
                        let full = ([0., 7.4, 5.7][n - 1] as f64).ceil() as usize;
                        // ends are met to a millisecond
                        let least = ((dur - 1.1e-3) / [0., h, h3][n - 1]).floor().max(0.) as usize;
                        ctx.check("late steps", steps >= least && steps <= full + 40, || format!("{steps} instead of {full}"));
                    }
                    last = s.t;
                }
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Timing, wide::Axis::History, wide::Axis::Mass, wide::Axis::Engines, wide::Axis::Altitude], &mut |ctx, v| {
        let s = v.s;
        let last = v.prev.map(|p| p.t).unwrap_or(0.);
        ctx.check("clock", s.t >= last, || format!("time went from {last} to {}", s.t));
        ctx.eq("time since the event", s.tse, s.t - last, 1e-11, 1e-9);
        let target = v.env.crit.1;
        if v.env.crit.0 == "time_since_event" {
            if target >= v.env.h.min(1e-3) && target >= 1e-3 {
                ctx.eq("duration", s.tse, target, 0., 1e-3);
            } else {
                ctx.check("duration", s.tse <= v.env.h * (1. + 1e-9), || format!("{}", s.tse));
            }
        }
        // the clock agrees with what has been burnt
        let (_, mdot) = wide::full(v.env, 0.);
        // (with a mass below zero on the way, nothing is certain)
        let positive = v.m0 + mdot * s.tse.min(s.t - last) > 0.;
        if v.env.maxacc.is_infinite() && mdot != 0. && positive && (v.m0 - s.m) > 1e-6 * v.m0 {
            ctx.eq("duration according to the mass", s.tse, (s.m - v.m0) / mdot, 1e-8, 0.);
        }
        let cut = v.out.rfind("Time: ").unwrap_or(0);
        let times: Vec<f64> = v.out[..cut].lines().filter_map(|l| l.strip_prefix("Time: ")?.parse().ok()).collect();
        ctx.check("printed clock", times.windows(2).all(|w| w[0] <= w[1]), || format!("{times:?}"));
    });
}

// ---------------------------------------------------------------- C04

fn c04(ctx: &mut Ctx) {
    let sizes = [None, Some(1.0), Some(2.0), Some(0.5507), Some(3.0), Some(0.1303), Some(7.0)];
    // printed times are never half way between two seconds
    let durations = [0.97, 2.6, 7.03, 12.1];
    let quad = {
        let mut c = coast(init(15., 5., 50., 3e5), custom(RE, RE, MU, [0.; 3], 1.1e-3), 1., 1.);
        set(&mut c, "vehicle", json!({"structure_mass": 400.0, "propellant_mass": 3000.0, "engines": [engine([0.1, 0.1], 2e4, 300., 0.)]}));
        set(&mut c, "steering", json!({"pitch": ["time_since_event", [-40.0, 0.01, 0.0]]}));
        c
    };
    let air = {
        let mut c = lively();
        set(&mut c, "vehicle.propellant_mass", json!(3000.0));
        c
    };
    let len: u32 = if ctx.thorough { 4 } else { 3 };
    let opts = sizes.len() * durations.len();
    for base in [quad, air] {
        for code in 0..opts.pow(len) {
            if !ctx.next() {
                continue;
            }
            let mut cfg = vec![];
            let mut h = 1.0;
            let mut want = vec![];
            let mut t = 0.;
            for k in 0..len {
                let c = code / opts.pow(k) % opts;
                let (size, dur) = (sizes[c % sizes.len()], durations[c / sizes.len()]);
                let mut p = if k == 0 { base.clone() } else { json!({}) };
                if let Some(s) = size {
                    set(&mut p, "stepsize", json!(s));
                    h = s;
                } else if k == 0 {
                    // the documented default
                    p.as_object_mut().unwrap().remove("stepsize");
                    h = 1.0;
                }
                set(&mut p, "end_criterion", json!(["time_since_event", dur]));
                cfg.push(p);
                // full steps, then one which meets the end
                let mut tse = 0.;
                while tse + h < dur - 1e-3 {
                    tse += h;
                    want.push(t + tse);
                }
                t += dur;
                want.push(t);
            }
            let cfg = json!(cfg);
            let Some(s) = ctx.done(&cfg) else { continue };
            let out = ctx.sut.last_output.clone();
            let mut got = vec!["0"];
            got.extend(out.lines().filter_map(|l| l.strip_prefix("Time: ")));
            // rejected steps are printed as well: nothing moves
            let mut w = vec!["0".to_string()];
            w.extend(want.iter().map(|t| format!("{t:.0}")));
            got.dedup();
            w.dedup();
            ctx.check("printed times", got == w, || format!("got {got:?}, expected {w:?}"));
            let blocks = out.matches("Prop mass:").count();
            ctx.check("number of steps", blocks >= want.len() && blocks <= want.len() + 3 * len as usize, || {
                format!("{blocks} steps for {} expected", want.len())
            });
            match model::simulate(&cfg, 10_000) {
                Ok(tr) => {
                    let m = tr.last();
                    ctx.eqv("position", s.r, m.r, 1e-13, if base["atmosphere"].is_null() { 1e-5 } else { 1e-3 });
                    ctx.eqv("velocity", s.v, m.v, 1e-11, if base["atmosphere"].is_null() { 1e-7 } else { 1e-4 });
                    ctx.eq("time", s.t, t, 0., 1e-3 * len as f64);
                }
                Err(_) => ctx.skipped += 1,
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Timing, wide::Axis::History, wide::Axis::Steering, wide::Axis::Engines], &mut |ctx, v| {
        if v.env.crit.0 != "time_since_event" {
            return;
        }
        let (h, dur) = (v.env.h, v.env.crit.1);
        let part = v.out.rsplit("Starting Phase").next().unwrap_or("");
        let blocks = part.matches("Prop mass:").count();
        let mut want = 1;
        let mut tse = h;
        let mut times = vec![];
        let t0 = v.s.t - v.s.tse;
        while tse < dur - 1e-3 {
            times.push(t0 + tse);
            want += 1;
            tse += h;
        }
        times.push(v.s.t);
        ctx.check("number of steps", blocks >= want && blocks <= want + 3, || format!("{blocks} blocks for {want} steps of {h} s in {dur} s"));
        // every printed instant is one of the prescribed ones
        for t in part.lines().filter_map(|l| l.strip_prefix("Time: ")?.parse::<f64>().ok()) {
            let ok = (t - t0).abs() <= 0.5 + 1e-6 || times.iter().any(|w| (t - w).abs() <= 0.5 + 1e-6);
            ctx.check("printed instant", ok, || format!("{t} is none of {times:?}"));
        }
    });
    // the steps taken, not only counted
    let mut taken = |ctx: &mut Ctx, spec: &wide::Spec| super::dynamics::conform(ctx, &json!(spec.phases()));
    wide::ball(ctx, &[wide::Axis::Timing, wide::Axis::History, wide::Axis::Steering, wide::Axis::Engines, wide::Axis::Planet, wide::Axis::Altitude], if ctx.thorough { 3 } else { 2 }, &mut taken);
}

// ---------------------------------------------------------------- C23

fn c23(ctx: &mut Ctx) {
    let n: u32 = if ctx.thorough { 14 } else { 10 };
    let mut fl = vec![];
    let mut plain = lively();
    set(&mut plain, "vehicle.lift_coeff", json!({"x": ["alpha", [-2.0, 2.0]], "data": [-1.0, 1.0]}));
    fl.push(plain.clone());
    let mut st = plain.clone();
    set(&mut st, "steering", json!({"pitch": ["time_since_event", [-2.0, 0.0, 0.0]], "yaw": ["time_since_event", [0.7, 0.0, 0.0]], "roll": ["time_since_event", [3.0, 0.0, 0.0]]}));
    fl.push(st.clone());
    let mut lim = st.clone();
    set(&mut lim, "max_acceleration", json!(15.0));
    fl.push(lim);
    let mut two = plain.clone();
    set(&mut two, "vehicle.engines", json!([engine([0.1, 0.2], 2e4, 300., 0.1), engine([0.0, -0.3], 1.5e4, 250., 0.)]));
    set(&mut two, "vehicle.side_force_coeff", json!({"x": ["altitude", [0.0, 3e3]], "y": ["mach_number", [0.0, 1.0]], "data": [[0.1, 0.2], [0.3, -0.1]]}));
    fl.push(two);
    fl.push(coast(init(20., 40., 60., 2e6), json!("smithsonian"), 1., 1.));
    fl.push(coast(init(-60., 10., 60., 4e5), custom(RE, 6.2e6, MU, [5e-3, -2e-3, 1e-3], 1.1e-3), 1., 1.));
    let mut time = plain.clone();
    set(&mut time, "vehicle.drag_coeff", json!({"x": ["time", [0.0, 4.0]], "y": ["propellant_mass", [500.0, 900.0]], "data": [[0.2, 0.5], [0.6, 0.3]]}));
    fl.push(time);
    let mut wind = st;
    set(&mut wind, "atmosphere.wind", json!([80.0, -60.0, 20.0]));
    set(&mut wind, "init", init(-70., 200., 300., 9000.));
    fl.push(wind);
    // slow turns
    let mut slow = plain;
    set(&mut slow, "steering", json!({"pitch": ["time_since_event", [-3e-5, 0.0, 0.0]], "yaw": ["time_since_event", [1e-5, 0.0, 0.0]], "roll": ["time_since_event", [2e-7, 0.0, 0.0]]}));
    fl.push(slow);
    for f in fl {
        for h in [0.25, 0.5, 1.25] {
            for mask in 1..1u32 << (n - 1) {
                if !ctx.next() {
                    continue;
                }
                let whole = with(f.clone(), "stepsize", json!(h));
                let whole = with(whole, "end_criterion", json!(["time_since_event", h * n as f64]));
                let Some(a) = ctx.done(&json!([whole])) else { continue };
                let mut cfg: Vec<Value> = vec![];
                let mut run = 1;
                for k in 0..n {
                    if k == n - 1 || mask >> k & 1 == 1 {
                        let mut p = if cfg.is_empty() { with(f.clone(), "stepsize", json!(h)) } else { json!({}) };
                        set(&mut p, "end_criterion", json!(["time_since_event", h * run as f64]));
                        cfg.push(p);
                        run = 1;
                    } else {
                        run += 1;
                    }
                }
                let Some(b) = ctx.done(&json!(cfg)) else { continue };
                for ((m, u), (_, v)) in a.vectors().iter().zip(b.vectors().iter()) {
                    ctx.eqv(&format!("split flight: {m}"), *v, *u, 1e-11, 1e-7 * if m.ends_with("body") { norm(*u).max(1.) } else { 1. });
                }
                ctx.eqv("split flight: angles", b.euler, a.euler, 1e-11, 1e-13);
                for ((m, u), (_, v)) in a.fields().iter().zip(b.fields().iter()).take(17) {
                    if m != "time_since_event" {
                        ctx.eq(&format!("split flight: {m}"), *v, *u, 1e-9, 1e-9);
                    }
                }
            }
        }
    }
    // in every regime, with later phases which state again what is in force
    use wide::Axis as A;
    let axes = [A::Planet, A::Place, A::Altitude, A::Air, A::Mass, A::Engines, A::Area, A::Drag, A::Lift, A::Steering, A::Limit, A::Scale];
    let mut split = |ctx: &mut Ctx, spec: &wide::Spec| {
        let f = spec.phases().remove(0);
        // what restarts with the phase does not continue
        let text = f["vehicle"].to_string();
        let angles_restart = ["roll", "yaw", "pitch"].iter().any(|a| {
            let s = &f["steering"][a];
            !s.is_null() && (s[0] != "time_since_event" || s[1][1] != 0.0 || s[1][2] != 0.0)
        });
        if angles_restart || text.contains("time_since_event") {
            return;
        }
        for (h, n) in [(0.5, 4usize), (4., 3), (0.0625, 6), (150., 2)] {
            let end = |n: usize| json!(["time_since_event", h * n as f64]);
            let whole = with(with(f.clone(), "stepsize", json!(h)), "end_criterion", end(n));
            let Outcome::Done(a) = ctx.run(&json!([whole])) else {
                ctx.skipped += 1;
                continue;
            };
            let env = {
                let mut e = model::Env::default();
                e.merge(&whole, 0.);
                e
            };
            if wide::open(&a, &env) {
                ctx.skipped += 1;
                continue;
            }
            let mut noise: Option<Box<Snap>> = None;
            for mode in 0..8 {
                let mut cfg: Vec<Value> = vec![];
                for k in 0..n {
                    let mut p = if k == 0 { whole.clone() } else { json!({}) };
                    set(&mut p, "end_criterion", end(1));
                    if k > 0 {
                        let keys: &[&str] = match mode {
                            0 => &[],
                            1 => &["planet_model"],
                            2 => &["atmosphere"],
                            3 => &["max_acceleration", "stepsize"],
                            4 => &["vehicle.reference_area", "vehicle.drag_coeff"],
                            5 => &["vehicle.engines", "vehicle.lift_coeff", "vehicle.side_force_coeff"],
                            6 => &["steering"],
                            _ => &["init", "planet_model", "atmosphere", "max_acceleration", "stepsize", "vehicle.reference_area", "vehicle.drag_coeff",
                                "vehicle.lift_coeff", "vehicle.side_force_coeff", "vehicle.engines", "steering"],
                        };
                        for key in keys {
                            let mut v = &whole;
                            for part in key.split('.') {
                                v = &v[part];
                            }
                            if !v.is_null() {
                                set(&mut p, key, v.clone());
                            }
                        }
                    }
                    cfg.push(p);
                }
                let b = match ctx.run(&json!(cfg)) {
                    Outcome::Done(b) => b,
                    o => {
                        ctx.fail("run", format!("flown in one phase it ends, in {n} phases: {}", o.brief()));
                        return;
                    }
                };
                if a.hash_without_event() == b.hash_without_event() {
                    continue;
                }
                // how much a hair's breadth matters
                if noise.is_none() {
                    let alt = whole["init"]["altitude"].as_f64().unwrap();
                    let mut c = with(whole.clone(), "init.altitude", json!(alt + 1e-7 + 1e-14 * alt.abs()));
                    let az = whole["init"]["azimuth"].as_f64().unwrap();
                    set(&mut c, "init.azimuth", json!(az + 1e-10));
                    match ctx.run(&json!([c])) {
                        Outcome::Done(c) => noise = Some(c),
                        _ => {
                            ctx.skipped += 1;
                            break;
                        }
                    }
                }
                let z = noise.clone().unwrap();
                if !(norm(model::sub(z.r, a.r)) < 10.) {
                    ctx.skipped += 1;
                    break;
                }
                for (k, (m, u)) in a.vectors().iter().enumerate() {
                    let d = norm(model::sub(z.vectors()[k].1, *u));
                    ctx.eqv(&format!("split flight: {m}"), b.vectors()[k].1, *u, 1e-9, 1e-7 + 10. * d);
                }
                for (k, (m, u)) in a.fields().iter().enumerate().take(17) {
                    if m != "time_since_event" && m != "alpha" {
                        let d = if u.is_finite() { (z.fields()[k].1 - u).abs() } else { 0. };
                        ctx.eq(&format!("split flight: {m}"), b.fields()[k].1, *u, 1e-9, 1e-9 + 10. * d);
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    };
    wide::ball(ctx, &axes, if ctx.thorough { 3 } else { 2 }, &mut split);
    wide::array(ctx, &mut split);
}
