//! Environment: gravity, frames, initialization, atmosphere, airspeed.

use super::*;
use crate::model::{self, add, cross, mul, mv, rz, sub, Planet};
use crate::sut::{norm, Outcome, Snap};

pub fn props() -> Vec<(&'static str, F, Info)> {
    vec![
        reg(
            "C07",
            c07,
            "9 planet models (3 built in, 6 custom with isolated and combined harmonics) x 25 latitudes x 8 longitudes x 4 altitudes; all 9x9 model switches at a phase boundary after a coast; 3 extreme planets (small, huge, prolate); each harmonic alone, felt at 0.5 to 1e6 radii",
            "49 latitudes x 16 longitudes x 8 altitudes, switches at 6 places",
        ),
        reg(
            "C08",
            c08,
            "planet shapes x 8 rotation rates x 9 latitudes x 5 longitudes x 3 altitudes x 7 elapsed times up to a year, and a model switch after each",
            "17 latitudes x 9 longitudes x 4 altitudes x 13 times",
        ),
        reg(
            "C09",
            c09,
            "7 planets x 25 latitudes x 31 longitudes x 7 altitudes x wind on/off; launch frame axes on a sphere for 7x7 places x 16 azimuths x 3 axes; late init blocks; the frame stays when the planet changes in 0 to 2 later phases, for all 7x7 pairs x 3 places",
            "73 latitudes x 49 longitudes x 13 altitudes; 13x13 places x 24 azimuths",
        ),
        reg(
            "C10",
            c10,
            "22 layers x 14 points each (both sides of every boundary) and 6 down to 5 km below sea level x 3 planet/latitude pairs; all 4^3 enable/disable/absent/null histories",
            "60 points per layer, histories of length 4",
        ),
        reg(
            "C11",
            c11,
            "27 wind vectors x 3 magnitudes x 5 altitudes x 3 rotation rates x 3 elapsed times x atmosphere on/off; all length-3 histories over 5 wind settings and 3 atmosphere settings",
            "9 altitudes x 5 rates x 5 times; length-4 histories",
        ),
    ]
}

fn planets() -> Vec<Value> {
    vec![
        json!("spherical"),
        json!("fisher_1960"),
        json!("smithsonian"),
        custom(RE, RP, MU, [2e-2, 0., 0.], W),
        custom(RE, RP, MU, [0., 3e-2, 0.], W),
        custom(RE, RP, MU, [0., 0., 1e-2], W),
        custom(RE, RP, MU, [-3e-3, 5e-3, -7e-3], W),
        custom(1.738e6, 1.5e6, 4.9e12, [2e-4, 1e-3, -1e-3], 2.66e-6),
        custom(3.0e6, 3.4e6, 2e13, [1e-2, -2e-2, 3e-2], -1e-4),
        // round, but not homogeneous
        custom(RE, RE, MU, [1e-3, -2e-3, 3e-3], W),
        custom(5e6, 5e6, 1e14, [1e-2, 0., 0.], 0.),
        // small, huge, and far from round
        custom(4e5, 3.1e5, 1e11, [3e-2, 1e-3, -2e-3], 1e-4),
        custom(7e8, 6.9e8, 1.3e20, [1e-6, 0., 1e-7], 3e-6),
        custom(2e6, 5e6, 1e13, [-4e-2, 0., 1e-2], W),
    ]
}

fn gravity_ok(ctx: &mut Ctx, s: &Snap, pl: &Value) {
    let p = Planet::from_json(pl);
    ctx.eqv("gravitational acceleration", s.grav, p.gravity(s.r), 1e-10, 0.);
    let alt = p.altitude(s.r);
    ctx.eq("altitude", s.alt, alt, 1e-10, 1e-12 * norm(s.r));
    ctx.eq("geopotential altitude", s.altg, p.geopotential(alt), 1e-10, 1e-12 * norm(s.r));
}

pub fn c07(ctx: &mut Ctx) {
    let (nl, no, alts): (usize, usize, Vec<f64>) = if ctx.thorough {
        (49, 16, vec![0., 1e3, 5e4, 2e5, 1e6, 7e6, 3.6e7, 3e8])
    } else {
        (25, 8, vec![0., 1e5, 2e6, 3.6e7])
    };
    for pl in planets() {
        for &alt in &alts {
            for lat in grid(-90., 90., nl) {
                for k in 0..no {
                    if !ctx.next() {
                        continue;
                    }
                    let lon = 360. / no as f64 * k as f64;
                    let cfg = json!([with(probe(init(lat, lon, 0., alt)), "planet_model", pl.clone())]);
                    let Some(s) = ctx.done(&cfg) else { continue };
                    gravity_ok(ctx, &s, &pl);
                }
            }
        }
    }
    let places: &[(f64, f64)] = if ctx.thorough {
        &[(0., 0.), (35., 100.), (-60., 250.), (88., 10.), (-20., 190.), (50., 300.)]
    } else {
        &[(35., 100.), (-60., 250.)]
    };
    for a in planets() {
        for b in planets() {
            for &(lat, lon) in places {
                if !ctx.next() {
                    continue;
                }
                let p1 = coast(init(lat, lon, 0., 5e6), a.clone(), 50., 400.);
                let p2 = with(blink(json!({})), "planet_model", b.clone());
                let p3 = json!({"stepsize": 20.0, "end_criterion": ["time_since_event", 100.0]});
                let Some(s) = ctx.done(&json!([p1, p2])) else { continue };
                gravity_ok(ctx, &s, &b);
                let Some(s) = ctx.done(&json!([p1, p2, p3])) else { continue };
                gravity_ok(ctx, &s, &b);
            }
        }
    }
    // far away, where only strong harmonics are felt; and close to nothing
    for n in 2..5usize {
        for far in [0.5, 3., 30., 1e3, 2e4, 1e6f64] {
            for strength in [-0.3, 0.01, 2.] {
                for lat in [-90., -64., -31., 0., 12., 49., 90.] {
                    if !ctx.next() {
                        continue;
                    }
                    let mut j = [0.; 3];
                    j[n - 2] = strength * far.powi(n as i32);
                    let re = 2e6;
                    let pl = custom(re, if strength > 1. { re } else { 0.9 * re }, MU, j, 1e-9);
                    let cfg = json!([with(probe(init(lat, 77., 0., re * (far - 1.))), "planet_model", pl.clone())]);
                    let Some(s) = ctx.done(&cfg) else { continue };
                    gravity_ok(ctx, &s, &pl);
                }
            }
        }
    }
    // everywhere else
    wide::explore(ctx, &[wide::Axis::Planet, wide::Axis::Place, wide::Axis::Altitude, wide::Axis::Timing, wide::Axis::History], &mut |ctx, v| {
        let want = v.env.planet.gravity(v.s.r);
        ctx.eqv("gravitational acceleration", v.s.grav, want, 1e-9, 0.);
        let alt = v.env.planet.altitude(v.s.r);
        ctx.eq("altitude", v.s.alt, alt, 1e-9, 1e-6);
        ctx.eq("geopotential altitude", v.s.altg, v.env.planet.geopotential(alt), 1e-9, 1e-6);
    });
}

/// Planets with a given rotation and hardly any gravity, so that the vehicle
/// moves far from where it started.
fn shapes(w: f64) -> Vec<Value> {
    vec![
        custom(RE, RE, 1e9, [0.; 3], w),
        custom(RE, RP, 1e9, [0.; 3], w),
        custom(7e6, 5e6, 1e9, [0.; 3], w),
        custom(5e6, 6e6, 1e9, [0.; 3], w),
    ]
}

fn frames_ok(ctx: &mut Ctx, s: &Snap, pl: &Value) {
    frames(ctx, s, &Planet::from_json(pl));
}

fn frames(ctx: &mut Ctx, s: &Snap, p: &Planet) {
    ctx.eqv("planet-relative position", s.rp, mv(&rz(p.w * s.t), s.r), 1e-10, 0.);
    let scale = norm(s.v).max(p.w.abs() * norm(s.r));
    ctx.eqv("planet-relative velocity", s.vp, sub(s.v, cross([0., 0., p.w], s.r)), 0., 1e-11 * scale + 1e-12);
    let alt = p.altitude(s.r);
    ctx.eq("altitude", s.alt, alt, 1e-9, 1e-6);
    ctx.eq("geopotential altitude", s.altg, p.geopotential(alt), 1e-9, 1e-6);
}

pub fn c08(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let (nl, no) = if th { (17, 9) } else { (9, 5) };
    let alts: &[f64] = if th { &[0., 1e4, 4e5, 2e7] } else { &[0., 4e5, 2e7] };
    let times: &[f64] = if th {
        &[0., 1., 60., 1000., 5000., 12345.678, 20000., 43200., 86400., 2.5e5, 7e5, 3e6, 3.2e7]
    } else {
        &[0., 100., 5000., 12345.678, 86400., 7e5, 3.2e7]
    };
    let mut pls: Vec<Value> = vec![json!("spherical"), json!("fisher_1960"), json!("smithsonian")];
    for w in [0., W, -2e-4, 1e-3, 2e-7, -4e-9, 6e-3, -7e-3] {
        pls.extend(shapes(w));
    }
    for (k, pl) in pls.iter().enumerate() {
        for &alt in alts {
            for lat in grid(-90., 90., nl) {
                for lon in grid(-180., 180., no) {
                    for &t in times {
                        // free fall: only short times with real gravity
                        if k < 3 && t > 500. && alt < 1e7 || k < 3 && t > 6000. {
                            continue;
                        }
                        if !ctx.next() {
                            continue;
                        }
                        let i = init(lat, lon, 30., alt);
                        let p1 = if t == 0. {
                            with(probe(i), "planet_model", pl.clone())
                        } else {
                            coast(i, pl.clone(), t / 4., t)
                        };
                        let Some(s) = ctx.done(&json!([p1])) else { continue };
                        frames_ok(ctx, &s, pl);
                        // the same place seen from another planet model
                        let other = &pls[(k + 5) % pls.len()];
                        let p2 = with(blink(json!({})), "planet_model", other.clone());
                        let Some(s) = ctx.done(&json!([p1, p2])) else { continue };
                        frames_ok(ctx, &s, other);
                    }
                }
            }
        }
    }
    wide::explore(ctx, &[wide::Axis::Planet, wide::Axis::Place, wide::Axis::Altitude, wide::Axis::Timing, wide::Axis::History], &mut |ctx, v| frames(ctx, v.s, &v.env.planet));
}

pub fn c09(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let (nl, no) = if th { (73, 49) } else { (25, 31) };
    let alts: &[f64] =
        if th { &[-4500., -30., -0.4, 0., 0.02, 1., 2.5, 100., 12345.678, 4e5, 1e6, 3.6e7, 4e8] } else { &[-3000., -0.4, 0., 2.5, 100., 12345.678, 4e5] };
    let pls = [
        json!("spherical"),
        json!("fisher_1960"),
        json!("smithsonian"),
        custom(RE, RP, MU, [0.; 3], 0.),
        custom(7e6, 5e6, MU, [0.; 3], 1e-3),
        custom(5e6, 6e6, MU, [0.; 3], -1e-4),
        custom(1.738e6, 1.738e6, 4.9e12, [0.; 3], 2.66e-6),
    ];
    for pl in &pls {
        let p = Planet::from_json(pl);
        for &alt in alts {
            for lat in grid(-90., 90., nl) {
                for lon in grid(-360., 360., no) {
                    for wind in [false, true] {
                        if !ctx.next() {
                            continue;
                        }
                        let mut c = with(probe(init(lat, lon, 70., alt)), "planet_model", pl.clone());
                        if wind {
                            set(&mut c, "atmosphere.wind", json!([30.0, -20.0, 10.0]));
                        }
                        let Some(s) = ctx.done(&json!([c])) else { continue };
                        let (r, _) = model::init_position(&p, lat.to_radians(), lon.to_radians(), alt);
                        ctx.eqv("initial position", s.r, r, 1e-11, 1e-5);
                        ctx.eq("initial altitude", s.alt, alt, 1e-10, 1e-5);
                        let v = cross([0., 0., p.w], r);
                        ctx.eqv("initial velocity", s.v, v, 1e-10, 1e-6);
                        ctx.eqv("initial velocity over ground", s.vp, [0.; 3], 0., 1e-6 + 1e-10 * norm(v));
                        ctx.eq("initial time", s.t, 0., 0., 1e-8);
                    }
                }
            }
        }
    }
    // Launch frame: where each body axis points at zero Euler angles
    let (np, na) = if th { (13, 24) } else { (7, 16) };
    for pl in &pls {
        let p = Planet::from_json(pl);
        for lat in grid(-90., 90., np) {
            for lon in grid(-180., 180., np) {
                for k in 0..na {
                    let az = -180. + 450. / na as f64 * k as f64;
                    for (axis, inc) in [[0., 0.], [0., 90f64.to_radians()], [90f64.to_radians(), 0.]].iter().enumerate() {
                        if !ctx.next() {
                            continue;
                        }
                        let mut c = with(probe(init(lat, lon, az, 1e5)), "planet_model", pl.clone());
                        set(&mut c, "vehicle.engines", json!([engine(*inc, 5e4, 300., 0.)]));
                        let Some(s) = ctx.done(&json!([c])) else { continue };
                        let (_, gc) = model::init_position(&p, lat.to_radians(), lon.to_radians(), 1e5);
                        let l = model::i2l([gc, lon.to_radians(), az.to_radians()]);
                        let a = sub(s.acc, s.grav);
                        ctx.eqv("launch frame axis", mul(1. / norm(a), a), l[axis], 1e-9, 1e-9);
                    }
                }
            }
        }
    }
    // An init block has no effect after the first phase
    for pl in &pls {
        for other in [Value::Null, init(-10., 200., 10., 5e5), init(0., 0., 0., 0.)] {
            if !ctx.next() {
                continue;
            }
            let p1 = coast(init(20., 30., 40., 3e5), pl.clone(), 5., 10.);
            let mut p2 = json!({"end_criterion": ["time_since_event", 20.0], "vehicle": {"engines": [engine([0.1, 0.2], 5e3, 300., 0.)]}});
            let Some(a) = ctx.done(&json!([p1, p2])) else { continue };
            set(&mut p2, "init", other);
            let Some(b) = ctx.done(&json!([p1, p2])) else { continue };
            ctx.eqv("position with a later init block", b.r, a.r, 1e-12, 0.);
            ctx.eqv("velocity with a later init block", b.v, a.v, 1e-12, 0.);
            ctx.eqv("attitude with a later init block", b.acc, a.acc, 1e-12, 0.);
            ctx.eq("time with a later init block", b.t, a.t, 1e-12, 0.);
        }
    }
    // The launch frame stays as it was when the planet is another one
    let steer = json!({"roll": ["time", [0.5, 0.0, 0.0]], "pitch": ["time", [-0.9, 0.0, 0.0]]});
    for a in &pls {
        for b in &pls {
            for (lat, lon, az) in [(33., 70., 110.), (-71., -20., 15.), (5., 200., 250.)] {
                for after in 0..3 {
                    if !ctx.next() {
                        continue;
                    }
                    let mut p1 = coast(init(lat, lon, az, 3e5), a.clone(), 5., 10.);
                    set(&mut p1, "vehicle.engines", json!([engine([0.1, 0.2], 5e3, 300., 0.)]));
                    set(&mut p1, "vehicle.propellant_mass", json!(500.0));
                    set(&mut p1, "steering", steer.clone());
                    let mut cfg = vec![p1, json!({"planet_model": b, "end_criterion": ["time_since_event", 5.0]})];
                    cfg.extend((0..after).map(|k| with(json!({}), "planet_model", if k == 0 { a.clone() } else { b.clone() })));
                    let Some(s) = ctx.done(&json!(cfg)) else { continue };
                    let (_, gc) = model::init_position(&Planet::from_json(a), f64::to_radians(lat), f64::to_radians(lon), 3e5);
                    let l = model::i2l([gc, f64::to_radians(lon), f64::to_radians(az)]);
                    let e = s.euler;
                    let i2b = model::mm(&model::mm(&model::ry(e[2]), &model::mm(&model::rz(e[1]), &model::rx(e[0]))), &l);
                    ctx.eqv("launch frame of another planet", sub(s.acc, s.grav), mv(&model::tr(&i2b), s.vacc), 1e-10, 1e-10);
                }
            }
        }
    }
    // whatever else is configured
    use wide::Axis as A;
    let radius = if th { 4 } else { 3 };
    let mut start = |ctx: &mut Ctx, spec: &wide::Spec| {
        let mut c = spec.phases().remove(0);
        c = blink(c);
        let i = &c["init"];
        let g = |k: &str| i[k].as_f64().unwrap();
        let p = if c["planet_model"].is_null() { Planet::from_json(&json!("spherical")) } else { Planet::from_json(&c["planet_model"]) };
        let (r, _) = model::init_position(&p, g("latitude").to_radians(), g("longitude").to_radians(), g("altitude"));
        let alt = g("altitude");
        let below = c["atmosphere"]["enabled"] == true && alt <= -5e3;
        let s = match ctx.run(&json!([c])) {
            Outcome::Done(s) if !below => s,
            _ => {
                ctx.skipped += 1;
                return;
            }
        };
        let slack = 2e-9 * (norm(s.acc) + norm(s.v));
        ctx.eqv("initial position", s.r, r, 1e-11, 1e-5 + slack);
        ctx.eq("initial altitude", p.altitude(s.r), alt, 1e-10, 1e-5 + slack);
        let v = cross([0., 0., p.w], r);
        ctx.eqv("initial velocity", s.v, v, 1e-10, 1e-6 + slack);
        ctx.eq("initial time", s.t, 0., 0., 1e-8);
        let (_, gc) = model::init_position(&p, g("latitude").to_radians(), g("longitude").to_radians(), alt);
        let l = model::i2l([gc, g("longitude").to_radians(), g("azimuth").to_radians()]);
        let e = s.euler;
        let i2b = model::mm(&model::mm(&model::ry(e[2]), &model::mm(&model::rz(e[1]), &model::rx(e[0]))), &l);
        ctx.eqv("initial attitude", sub(s.acc, s.grav), mv(&model::tr(&i2b), s.vacc), 0., 1e-11 * (norm(s.vacc) + norm(s.grav)));
        let want = c["vehicle"]["structure_mass"].as_f64().unwrap_or(0.) + c["vehicle"]["propellant_mass"].as_f64().unwrap_or(0.);
        ctx.eq("initial mass", s.m, want, 1e-9, 2e-9 * s.mdot.abs());
    };
    let axes = [A::Planet, A::Place, A::Altitude, A::Air, A::Mass, A::Engines, A::Area, A::Drag, A::Lift, A::Steering, A::Limit, A::Scale];
    wide::ball(ctx, &axes, radius, &mut start);
    wide::array(ctx, &mut start);
}

fn air_ok(ctx: &mut Ctx, s: &Snap, on: bool) {
    if on {
        let a = model::air(s.altg);
        ctx.eq("temperature", s.temp, a.temp, 1e-6, 0.);
        ctx.eq("pressure", s.p, a.p, 1e-5, 0.);
        ctx.eq("density", s.rho, a.rho, 1e-5, 0.);
        ctx.eq("gas law", s.p, s.rho * model::R_AIR * s.temp, 1e-9, 0.);
    } else {
        for (n, v) in [("temperature", s.temp), ("pressure", s.p), ("density", s.rho)] {
            ctx.eq(&format!("{n} without atmosphere"), v, 0., 0., 0.);
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    let n = if ctx.thorough { 57 } else { 11 };
    for (pl, lat) in [(json!("spherical"), 0.), (json!("smithsonian"), 47.), (custom(7e6, 6e6, MU, [0.; 3], W), -75.)] {
        let p = Planet::from_json(&pl);
        let ra = (p.re + p.rp) / 2.;
        for i in 0..22 {
            let h0 = model::LAYERS[i].0 * 0.3048;
            let h1 = model::LAYERS.get(i + 1).map(|l| l.0 * 0.3048).unwrap_or(1.2e6);
            let mut hs: Vec<f64> = (0..n).map(|k| h0 + (h1 - h0) * (k as f64 + 0.5) / n as f64).collect();
            hs.extend([h0 + 1., h0 + 0.01]);
            if i > 0 {
                hs.extend([h0 - 1., h0 - 0.01]);
            } else {
                // the standard begins 5 km below sea level
                hs.extend([-4999., -3500., -2000., -700., -50., -1.]);
            }
            for h in hs {
                if !ctx.next() {
                    continue;
                }
                let alt = ra * h / (ra - h);
                let mut c = with(probe(init(lat, 50., 0., alt)), "planet_model", pl.clone());
                set(&mut c, "atmosphere.enabled", json!(true));
                let Some(s) = ctx.done(&json!([c])) else { continue };
                ctx.eq("geopotential altitude reached", s.altg, h, 1e-9, 1e-4);
                air_ok(ctx, &s, true);
            }
        }
    }
    // Enabling and disabling: the last word counts
    let opts = [json!({"enabled": true}), json!({"enabled": false}), json!({}), json!({"enabled": null})];
    let len = if ctx.thorough { 4 } else { 3 };
    for code in 0..4usize.pow(len) {
        if !ctx.next() {
            continue;
        }
        let mut on = false;
        let mut phases = vec![];
        for k in 0..len {
            let o = &opts[code / 4usize.pow(k) % 4];
            if let Some(b) = o["enabled"].as_bool() {
                on = b;
            }
            let mut p = if k == 0 { probe(init(10., 20., 0., 2e4)) } else { blink(json!({})) };
            set(&mut p, "atmosphere", o.clone());
            phases.push(p);
            let Some(s) = ctx.done(&json!(phases)) else { break };
            air_ok(ctx, &s, on);
            let want = if on { 0.5 * s.rho * norm(s.va).powi(2) } else { 0. };
            ctx.eq("dynamic pressure", s.q, want, 1e-9, 1e-300);
        }
    }
    wide::explore(ctx, &[wide::Axis::Planet, wide::Axis::Altitude, wide::Axis::Air, wide::Axis::Timing, wide::Axis::History], &mut |ctx, v| {
        if v.env.atmo {
            let a = model::air(v.s.altg);
            // far up the exponent multiplies the digits of the table
            let rel = 1e-5 * (1. + v.s.altg.abs() / 7e5);
            ctx.eq("temperature", v.s.temp, a.temp, 1e-6, 0.);
            ctx.eq("pressure", v.s.p, a.p, rel, 1e-300);
            ctx.eq("density", v.s.rho, a.rho, rel, 1e-300);
            ctx.eq("gas law", v.s.p, v.s.rho * model::R_AIR * v.s.temp, 1e-9, 1e-300);
        } else {
            air_ok(ctx, v.s, false);
        }
    });
}

fn wind_ok(ctx: &mut Ctx, s: &Snap, wind: V3, on: bool) {
    let scale = norm(s.v) + norm(s.vp) + norm(wind);
    ctx.eqv("airspeed", s.va, sub(s.vp, wind), 0., 1e-12 * scale);
    let va = norm(s.va);
    if on {
        let sound = (model::KAPPA * model::R_AIR * s.temp).sqrt();
        ctx.eq("mach number", s.mach, va / sound, 1e-9, 0.);
        ctx.eq("dynamic pressure", s.q, 0.5 * s.rho * va * va, 1e-9, 1e-300);
        ctx.check("density with atmosphere", s.rho > 0., || format!("{}", s.rho));
    } else {
        ctx.eq("mach number without atmosphere", s.mach, f64::INFINITY, 0., 0.);
        ctx.eq("dynamic pressure without atmosphere", s.q, 0., 0., 0.);
    }
}

pub fn c11(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let alts: &[f64] =
        if th { &[0., 1., 5e3, 1.5e4, 3e4, 6e4, 9e4, 2e5, 6.5e5] } else { &[0., 5e3, 3e4, 9e4, 2e5] };
    let rates: &[f64] = if th { &[0., W, -3e-4, 1e-3, 3e-5] } else { &[0., W, 1e-3] };
    let times: &[f64] = if th { &[0., 1., 10., 25., 50.] } else { &[0., 10., 50.] };
    for &on in &[true, false] {
        for &w in rates {
            for &t in times {
                for &alt in alts {
                    for code in 0..27 {
                        for mag in [1e-3, 30., 2500.] {
                            if code == 13 && mag != 30. {
                                continue;
                            }
                            if !ctx.next() {
                                continue;
                            }
                            let wind = [
                                mag * (code % 3 - 1) as f64,
                                1.3 * mag * (code / 3 % 3 - 1) as f64,
                                0.7 * mag * (code / 9 - 1) as f64,
                            ];
                            let i = init(-25., 110., 0., alt);
                            let pl = custom(RE, RP, 1e10, [0.; 3], w);
                            let mut c = if t == 0. {
                                with(probe(i), "planet_model", pl)
                            } else {
                                coast(i, pl, t / 2., t)
                            };
                            set(&mut c, "atmosphere", json!({"enabled": on, "wind": wind}));
                            let Some(s) = ctx.done(&json!([c])) else { continue };
                            wind_ok(ctx, &s, wind, on);
                        }
                    }
                }
            }
        }
    }
    // Histories of wind and atmosphere settings
    let winds = [None, Some(Value::Null), Some(json!([50., 0., 0.])), Some(json!([0., -40., 7.])), Some(json!([0., 0., 0.]))];
    let airs = [None, Some(true), Some(false)];
    let len = if th { 4 } else { 3 };
    for code in 0..15usize.pow(len) {
        if !ctx.next() {
            continue;
        }
        let mut phases = vec![];
        let (mut wind, mut on) = ([0.; 3], false);
        for k in 0..len {
            let c = code / 15usize.pow(k) % 15;
            let mut p = if k == 0 {
                coast(init(30., 60., 0., 3e4), json!("smithsonian"), 2., 4.)
            } else {
                json!({"end_criterion": ["time_since_event", 3.0]})
            };
            if let Some(wv) = &winds[c % 5] {
                set(&mut p, "atmosphere.wind", wv.clone());
                if !wv.is_null() {
                    wind = model::v3(wv);
                }
            }
            if let Some(b) = airs[c / 5] {
                set(&mut p, "atmosphere.enabled", json!(b));
                on = b;
            }
            phases.push(p);
        }
        let Some(s) = ctx.done(&json!(phases)) else { continue };
        wind_ok(ctx, &s, wind, on);
        let _ = add;
    }
    wide::explore(ctx, &[wide::Axis::Planet, wide::Axis::Place, wide::Axis::Altitude, wide::Axis::Air, wide::Axis::Timing, wide::Axis::History], &mut |ctx, v| {
        let s = v.s;
        let scale = norm(s.v) + norm(s.vp) + norm(v.env.wind) + v.env.planet.w.abs() * norm(s.r);
        let ground = sub(s.v, cross([0., 0., v.env.planet.w], s.r));
        ctx.eqv("airspeed", s.va, sub(ground, v.env.wind), 0., 1e-12 * scale);
        let va = norm(s.va);
        if v.env.atmo {
            let sound = (model::KAPPA * model::R_AIR * model::air(s.altg).temp).sqrt();
            ctx.eq("mach number", s.mach, va / sound, 1e-6, 0.);
            ctx.eq("dynamic pressure", s.q, 0.5 * s.rho * va * va, 1e-9, 1e-300);
        } else {
            ctx.eq("mach number without atmosphere", s.mach, f64::INFINITY, 0., 0.);
            ctx.eq("dynamic pressure without atmosphere", s.q, 0., 0., 0.);
        }
    });
}
