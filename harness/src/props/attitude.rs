//! Steering and orientation.

use super::vehicle::{attitudes, fixed_attitude};
use super::*;
use crate::model::{self, mm, mv, rx, ry, rz, sub, tr};
use crate::sut::Snap;

pub fn props() -> Vec<(&'static str, F, Info)> {
    vec![
        reg(
            "C16",
            c16,
            "3 axes x 33 steering variables x 26 coefficient sign patterns x 2 durations; all length-4 histories over 7 settings of one axis (x 3 axes); all length-2 histories over 6^3 settings of all axes",
            "length-6 histories of one axis; length-3 histories over 4^3 settings of all axes",
        ),
        reg(
            "C17",
            c17,
            "12^3 Euler angles (all multiples of 30 degrees) x 12 launch frames x 2 thrust directions; 14 attitudes x 7x7 places x 8 azimuths",
            "24^3 Euler angles; 30 attitudes x 13x13 places x 16 azimuths",
        ),
    ]
}

/// Variables the manual offers for steering (known before the attitude).
pub const STEER_VARS: [&str; 33] = [
    "time",
    "time_since_event",
    "position1",
    "position2",
    "position3",
    "position_norm",
    "position_planet1",
    "position_planet2",
    "position_planet3",
    "altitude",
    "altitude_geopotential",
    "velocity1",
    "velocity2",
    "velocity3",
    "velocity_norm",
    "velocity_planet1",
    "velocity_planet2",
    "velocity_planet3",
    "velocity_planet_norm",
    "velocity_atmosphere1",
    "velocity_atmosphere2",
    "velocity_atmosphere3",
    "velocity_atmosphere_norm",
    "gravity_acceleration1",
    "gravity_acceleration2",
    "gravity_acceleration3",
    "gravity_acceleration_norm",
    "mass",
    "propellant_mass",
    "temperature",
    "pressure",
    "mach_number",
    "dynamic_pressure",
];

pub fn lively() -> Value {
    json!({
        "init": init(33., 140., 65., 900.),
        "planet_model": "smithsonian",
        "atmosphere": {"enabled": true, "wind": [14.0, -9.0, 5.0]},
        "vehicle": {"structure_mass": 700.0, "propellant_mass": 800.0, "reference_area": 0.6,
            "drag_coeff": konst(0.4), "engines": [engine([0.0, 0.0], 3.5e4, 300., 0.05)]},
        "stepsize": 0.5,
        "end_criterion": ["time_since_event", 3.0]
    })
}

fn poly(c: [f64; 4], x: f64) -> f64 {
    c[0] + x * (c[1] + x * (c[2] + x * c[3]))
}

fn angles_ok(ctx: &mut Ctx, s: &Snap, set_: &[(String, [f64; 4]); 3]) {
    for (k, n) in ["roll", "yaw", "pitch"].iter().enumerate() {
        let want = poly(set_[k].1, s.var(&set_[k].0));
        ctx.eq(&format!("{n} angle"), s.euler[k].to_degrees(), want, 1e-9, 1e-9);
    }
}

pub fn c16(ctx: &mut Ctx) {
    let th = ctx.thorough;
    // Every variable, every polynomial shape
    for axis in 0..3 {
        for var in STEER_VARS {
            for code in 1..27 {
                for dur in [1.0, 3.0] {
                    if !ctx.next() {
                        continue;
                    }
                    let mut c = lively();
                    set(&mut c, "end_criterion", json!(["time_since_event", dur]));
                    let Some(s0) = ctx.done(&json!([c])) else { continue };
                    let sc = s0.var(var).abs().max(1e-6);
                    let sign = |k: usize| (code / 3usize.pow(k as u32) % 3) as f64 - 1.;
                    let co = [11. * sign(0) / sc, 7. * sign(1) / sc / sc, 5. * sign(2) / sc / sc / sc];
                    let n = ["roll", "yaw", "pitch"][axis];
                    set(&mut c, &format!("steering.{n}"), json!([var, co]));
                    let Some(s) = ctx.done(&json!([c])) else { continue };
                    let mut st = [("time".to_string(), [0.; 4]), ("time".into(), [0.; 4]), ("time".into(), [0.; 4])];
                    st[axis] = (var.to_string(), [0., co[0], co[1], co[2]]);
                    angles_ok(ctx, &s, &st);
                }
            }
        }
    }
    // Histories
    let opts: Vec<Option<Value>> = vec![
        None,
        Some(json!(["time_since_event", [2.0, 0.0, 0.0]])),
        Some(json!(["time_since_event", [-1.0, 0.7, 0.2]])),
        Some(Value::Null),
        Some(json!(["time", [0.5, 0.0, 0.1]])),
        Some(json!(["altitude", [0.003, 0.0, 0.0]])),
        Some(json!(["time_since_event", [0.0, 0.0, 0.0]])),
    ];
    let history = |ctx: &mut Ctx, choice: &[[usize; 3]]| {
        let mut st = [("time".to_string(), [0.; 4]), ("time".into(), [0.; 4]), ("time".into(), [0.; 4])];
        let mut phases: Vec<Value> = vec![];
        let mut last = [0.; 3];
        for (k, ch) in choice.iter().enumerate() {
            let mut p = if k == 0 { lively() } else { json!({}) };
            let len = [1.0, 1.3, 0.5, 2.0][k % 4];
            set(&mut p, "end_criterion", json!(["time_since_event", len]));
            for a in 0..3 {
                if let Some(o) = &opts[ch[a]] {
                    let mut o = o.clone();
                    if !o.is_null() {
                        // the axes differ
                        for i in 0..3 {
                            let x = o[1][i].as_f64().unwrap();
                            o[1][i] = json!(x * (1. - 0.4 * a as f64));
                        }
                        st[a].0 = o[0].as_str().unwrap().into();
                        for i in 0..3 {
                            st[a].1[1 + i] = o[1][i].as_f64().unwrap();
                        }
                    }
                    set(&mut p, &format!("steering.{}", ["roll", "yaw", "pitch"][a]), o);
                } else if ch == &[0, 0, 0] && k % 2 == 1 {
                    set(&mut p, "steering", if k % 4 == 1 { Value::Null } else { json!({}) });
                }
                st[a].1[0] = last[a];
            }
            phases.push(p);
            let Some(s) = ctx.done(&json!(phases)) else { return };
            angles_ok(ctx, &s, &st);
            last = [s.euler[0].to_degrees(), s.euler[1].to_degrees(), s.euler[2].to_degrees()];
            if ctx.stopped() {
                return;
            }
        }
    };
    let len: u32 = if th { 6 } else { 4 };
    for axis in 0..3 {
        for code in 0..7usize.pow(len) {
            if !ctx.next() {
                continue;
            }
            let ch: Vec<[usize; 3]> = (0..len)
                .map(|k| {
                    let mut c = [0; 3];
                    c[axis] = code / 7usize.pow(k) % 7;
                    if k == 0 {
                        c[(axis + 1) % 3] = 2;
                    }
                    if k == 1 {
                        c[(axis + 2) % 3] = 1;
                    }
                    c
                })
                .collect();
            history(ctx, &ch);
        }
    }
    let (n, len) = if th { (4usize, 3u32) } else { (6, 2) };
    for code in 0..n.pow(3 * len) {
        if !ctx.next() {
            continue;
        }
        let ch: Vec<[usize; 3]> = (0..len)
            .map(|k| {
                let c = code / n.pow(3 * k) % n.pow(3);
                [c % n, c / n % n, c / n / n]
            })
            .collect();
        history(ctx, &ch);
    }
    wide::explore(ctx, &[wide::Axis::Steering, wide::Axis::Timing, wide::Axis::History, wide::Axis::Air], &mut |ctx, v| {
        for (k, n) in ["roll", "yaw", "pitch"].iter().enumerate() {
            let (var, c) = &v.env.steer[k];
            let x = v.s.var(var);
            if !x.is_finite() {
                continue;
            }
            let size: f64 = c.iter().enumerate().map(|(i, c)| (c * x.powi(i as i32)).abs()).sum();
            ctx.eq(&format!("{n} angle"), v.s.euler[k].to_degrees(), poly(*c, x), 0., 1e-9 + 1e-11 * size);
        }
    });
}

fn orientation_ok(ctx: &mut Ctx, s: &Snap, launch: V3, e: V3) {
    for k in 0..3 {
        ctx.eq("Euler angle", s.euler[k].to_degrees(), e[k], 1e-9, 1e-9);
    }
    let r = |k: usize| s.euler[k];
    let i2b = mm(&mm(&ry(r(2)), &mm(&rz(r(1)), &rx(r(0)))), &model::i2l(launch));
    let got = sub(s.acc, s.grav);
    let n = crate::sut::norm(s.vacc) + crate::sut::norm(s.grav);
    ctx.eqv("acceleration direction", got, mv(&tr(&i2b), s.vacc), 0., 1e-11 * n);
}

pub fn c17(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let thrusts = [[0.3, -0.5], [2.2, 0.9]];
    let go = |ctx: &mut Ctx, e: V3, la: V3, inc: [f64; 2]| {
        if !ctx.next() {
            return;
        }
        let mut c = with(probe(init(la[0], la[1], la[2], 1e5)), "planet_model", custom(RE, RE, MU, [0.; 3], W));
        fixed_attitude(&mut c, 1000., e);
        set(&mut c, "vehicle.engines", json!([engine(inc, 6e4, 300., 0.)]));
        let Some(s) = ctx.done(&json!([c])) else { return };
        let rad = [la[0].to_radians(), la[1].to_radians(), la[2].to_radians()];
        orientation_ok(ctx, &s, rad, e);
    };
    let n = if th { 24 } else { 12 };
    let launches = [
        [0., 0., 0.],
        [0., 0., 90.],
        [0., 90., 0.],
        [0., 180., 0.],
        [0., 0., 180.],
        [0., -90., 270.],
        [90., 0., 0.],
        [-90., 0., 45.],
        [28.5, 279.4, 90.],
        [-45., 135., -30.],
        [60., -120., 200.],
        [5., 359., 1.],
    ];
    for la in launches {
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    let d = |k: usize| k as f64 * 360. / n as f64 - 180.;
                    for inc in thrusts {
                        go(ctx, [d(a), d(b), d(c)], la, inc);
                    }
                }
            }
        }
    }
    let (np, na) = if th { (13, 16) } else { (7, 8) };
    for e in attitudes(th) {
        for lat in grid(-90., 90., np) {
            for lon in grid(-180., 180., np) {
                for k in 0..na {
                    go(ctx, e, [lat, lon, k as f64 * 360. / na as f64], thrusts[k % 2]);
                }
            }
        }
    }
    // The launch frame stays put while the planet turns and phases pass
    for &la in &launches {
        for e in attitudes(false) {
            for pl in [json!("spherical"), custom(RE, RE, 1e9, [0.; 3], 5e-4)] {
                if !ctx.next() {
                    continue;
                }
                let mut p1 = coast(init(la[0], la[1], la[2], 2e6), custom(RE, RE, 1e9, [0.; 3], -2e-4), 20., 100.);
                fixed_attitude(&mut p1, 1000., e);
                let p2 = json!({"planet_model": pl, "end_criterion": ["time_since_event", 40.0],
                    "steering": {"roll": ["time", [0.0, 0.0, 0.0]], "yaw": ["time", [0.0, 0.0, 0.0]], "pitch": ["time", [0.0, 0.0, 0.0]]},
                    "vehicle": {"engines": [engine([0.7, 0.4], 2e4, 400., 0.)]}});
                let Some(s) = ctx.done(&json!([p1, p2])) else { continue };
                let rad = [la[0].to_radians(), la[1].to_radians(), la[2].to_radians()];
                orientation_ok(ctx, &s, rad, e);
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Place, wide::Axis::Steering, wide::Axis::Engines, wide::Axis::Timing, wide::Axis::History], &mut |ctx, v| {
        let s = v.s;
        let i2b = v.env.i2b(s.euler);
        let n = crate::sut::norm(s.vacc) + crate::sut::norm(s.grav);
        let big: f64 = s.euler.iter().map(|e| e.abs()).sum();
        ctx.eqv("acceleration", sub(s.acc, s.grav), mv(&tr(&i2b), s.vacc), 0., (1e-10 + 1e-14 * big) * n);
    });
}
