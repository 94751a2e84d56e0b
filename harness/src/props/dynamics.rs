//! Integration, conservation laws, symmetries, end-to-end conformance.

use super::attitude::lively;
use super::*;
use crate::model::{self, add, cross, dot, mul, mv, rz, sub, Planet};
use crate::sut::{norm, Outcome, Snap};

pub fn props() -> Vec<(&'static str, F, Info)> {
    vec![
        reg(
            "C05",
            c05,
            "7 systems x 6 step sizes x 1..12 steps against the Runge-Kutta formulas; a force turning within a step: 9 step sizes (1e-5 s to 3000 s) x 6 rates x 3 bends x 3 angles x 3 lengths; order of convergence for 7 systems x 3 places x 3 step sizes; 5x5x6 Kepler arcs and 4x4x5 rocket-equation burns against closed forms",
            "1..40 steps; 9x9x12 Kepler arcs; 8x8x10 burns",
        ),
        reg(
            "C06",
            c06,
            "9 gravity models x 7 latitudes x 4 rotation-imparted speeds x 3 altitudes, observed at 6 times up to 3000 s",
            "13 latitudes x 6 speeds, 12 times up to 9000 s",
        ),
        reg(
            "C24",
            c24,
            "6 flights (1 to 3 phases) x 4 planets x 7 latitudes x 23 longitude shifts; the same flights mirrored at the equator for 11 latitudes x 12 azimuths",
            "13 latitudes x 71 shifts; 21 latitudes x 24 azimuths",
        ),
        reg(
            "C26",
            c26,
            "single phases: full product of 4 planets, 3 atmospheres, 4 engine sets, 4 aero sets, 4 steerings, 3 limits, 2 step sizes; all 3-phase histories over 8 first phases and 24 phase updates; the published example; 48 flights of 5000, 20,000 and 70,000 steps",
            "4-phase histories",
        ),
    ]
}

/// Systems whose trajectories are compared with the integration formulas.
fn systems() -> Vec<Value> {
    let i = init(20., 40., 60., 2e5);
    let orbit = |j: V3| coast(i.clone(), custom(RE, RE, MU, j, 1.17e-3), 1., 1.);
    let mut thrust = coast(i.clone(), void(0.), 1., 1.);
    set(&mut thrust, "vehicle", json!({"structure_mass": 500.0, "propellant_mass": 2000.0, "engines": [engine([0.1, 0.2], 2e4, 280., 0.)]}));
    let mut pitch = thrust.clone();
    set(&mut pitch, "steering", json!({"pitch": ["time_since_event", [-0.6, 0.003, 0.0]], "yaw": ["time", [0.3, 0.0, 1e-5]]}));
    let mut fast = pitch.clone();
    set(&mut fast, "steering.roll", json!(["mass", [0.01, 0.0, 0.0]]));
    set(&mut fast, "planet_model", custom(RE, RE, MU, [1e-3, 0., 0.], 5e-4));
    let mut air = coast(init(10., 20., 30., 1.2e4), custom(RE, RE, MU, [0.; 3], 0.), 1., 1.);
    set(&mut air, "atmosphere", json!({"enabled": true, "wind": [-120.0, 90.0, 30.0]}));
    set(&mut air, "vehicle.reference_area", json!(0.4));
    set(&mut air, "vehicle.drag_coeff", konst(0.8));
    let mut side = air.clone();
    set(&mut side, "vehicle.side_force_coeff", json!({"x": ["time", [0.0, 10.0]], "data": [0.0, 0.5]}));
    vec![orbit([0.; 3]), orbit([1e-2, 2e-3, 1e-3]), thrust, pitch, fast, air, side]
}

fn timed(c: &Value, h: f64, t: f64) -> Value {
    let c = with(c.clone(), "stepsize", json!(h));
    json!([with(c, "end_criterion", json!(["time_since_event", t]))])
}

/// Two-body motion by universal variables (Stumpff functions).
fn kepler(mu: f64, r0: V3, v0: V3, t: f64) -> (V3, V3) {
    let rn = norm(r0);
    let sm = mu.sqrt();
    let vr = dot(r0, v0) / rn;
    let al = 2. / rn - dot(v0, v0) / mu;
    let stumpff = |z: f64| {
        // series: accurate for the arcs used here
        let (mut c, mut s) = (0., 0.);
        let (mut tc, mut ts) = (0.5, 1. / 6.);
        for k in 0..30 {
            c += tc;
            s += ts;
            let k = k as f64;
            tc *= -z / ((2. * k + 3.) * (2. * k + 4.));
            ts *= -z / ((2. * k + 4.) * (2. * k + 5.));
        }
        (c, s)
    };
    let mut x = sm * al.abs() * t;
    for _ in 0..60 {
        let z = al * x * x;
        let (c, s) = stumpff(z);
        let f = rn * vr / sm * x * x * c + (1. - al * rn) * x * x * x * s + rn * x - sm * t;
        let d = rn * vr / sm * x * (1. - z * s) + (1. - al * rn) * x * x * c + rn;
        let dx = f / d;
        x -= dx;
        if dx.abs() < 1e-13 * x.abs() {
            break;
        }
    }
    let z = al * x * x;
    let (c, s) = stumpff(z);
    let f = 1. - x * x / rn * c;
    let g = t - x * x * x / sm * s;
    let r = add(mul(f, r0), mul(g, v0));
    let n = norm(r);
    let fd = sm / n / rn * (z * s - 1.) * x;
    let gd = 1. - x * x / n * c;
    (r, add(mul(fd, r0), mul(gd, v0)))
}

pub fn c05(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let nmax = if th { 40 } else { 12 };
    for (k, sys) in systems().iter().enumerate() {
        for h in [0.1, 0.25, 1., 2.5, 7., 20.] {
            for n in 1..=nmax {
                let t = h * n as f64;
                // aerodynamic systems: stay within one atmosphere layer
                if k >= 5 && t > 10. || k == 2 && t > 250. {
                    continue;
                }
                if !ctx.next() {
                    continue;
                }
                let cfg = timed(sys, h, t);
                let Some(s) = ctx.done(&cfg) else { continue };
                match model::simulate(&cfg, 1000) {
                    Ok(tr) => {
                        let m = tr.last();
                        ctx.eq("time", s.t, m.t, 1e-12, 0.);
                        ctx.eqv("position", s.r, m.r, 1e-13, if k >= 5 { 1e-5 * t * t } else { 1e-8 });
                        // the published atmosphere table has six digits
                        ctx.eqv("velocity", s.v, m.v, 1e-10, if k >= 5 { 1e-5 * t } else { 1e-10 });
                        ctx.eq("mass", s.m, m.m, 1e-11, 0.);
                    }
                    Err(e) => panic!("model: {e}"),
                }
            }
        }
    }
    // A strong force which turns within a single step, so that every stage of
    // the step is seen, for the smallest and the largest steps
    for h in [1e-5, 1e-4, 1e-3, 1e-2, 0.3, 3., 30., 300., 3000.] {
        for rate in [15., 60., 90., 120., 200., -45.] {
            for bend in [0., 50., -80.] {
                for channel in ["pitch", "yaw", "roll"] {
                    for extra in [0.5, 1.5, 3.2] {
                        if !ctx.next() {
                            continue;
                        }
                        let mut c = coast(init(20., 40., 60., 2e5), custom(RE, RE, 1e9, [0.; 3], 0.), 1., 1.);
                        let f = 1e6 / (h * h);
                        set(&mut c, "vehicle", json!({"structure_mass": 500.0, "propellant_mass": 2000.0, "engines": [engine([0.1, 0.2], f, 1e9 * f, 0.)]}));
                        set(&mut c, "steering", json!({"pitch": ["time_since_event", [rate / h, 0.0, 0.0]]}));
                        c["steering"][channel] = json!(["time_since_event", [rate / h, bend / (h * h), 0.0]]);
                        // the end is met a thousandth of a second early
                        let cfg = timed(&c, h, 1e-3 + extra * h);
                        let Some(s) = ctx.done(&cfg) else { continue };
                        match model::simulate(&cfg, 1000) {
                            Ok(tr) => {
                                let m = tr.last();
                                // the last step is found by interpolation
                                ctx.eq("time", s.t, m.t, 1e-9, 0.);
                                ctx.eqv("position", s.r, m.r, 1e-12, 1e-6);
                                ctx.eqv("velocity", s.v, m.v, 1e-9, 1e-9);
                            }
                            Err(e) => panic!("model: {e}"),
                        }
                    }
                }
            }
        }
    }
    // Order of convergence, on the real code alone
    for (k, sys) in systems().iter().enumerate() {
        for (lat, lon) in [(20., 40.), (-50., 10.), (5., 250.)] {
            let alt = if k >= 5 { 1.3e4 } else { 3e5 };
            for t in if k >= 5 { [2., 3., 4.] } else { [40., 60., 100.] } {
                if !ctx.next() {
                    continue;
                }
                let sys = with(sys.clone(), "init", init(lat, lon, 60., alt));
                let mut r = vec![];
                for div in [1., 2., 4.] {
                    if let Some(s) = ctx.done(&timed(&sys, t / div, t)) {
                        r.push(s);
                    }
                }
                if r.len() < 3 {
                    continue;
                }
                let d1 = norm(sub(r[0].r, r[1].r)) / norm(r[0].r);
                let d2 = norm(sub(r[1].r, r[2].r)) / norm(r[0].r);
                // only where the error is above the rounding noise
                if d2 > 1e-12 {
                    let ratio = d1 / d2;
                    ctx.check("order of convergence", (10. ..=100.).contains(&ratio), || {
                        format!("halving the step divides the error by {ratio} instead of about 16")
                    });
                }
            }
        }
    }
    // Closed forms
    let (na, nb, nt) = if th { (9, 9, 12) } else { (5, 5, 6) };
    for a in 0..na {
        for b in 0..nb {
            for k in 1..=nt {
                if !ctx.next() {
                    continue;
                }
                let lat = -80. + 160. * a as f64 / (na - 1) as f64;
                let w = 2e-4 + 1.3e-3 * b as f64 / nb as f64;
                let t = 60. * k as f64;
                let c = coast(init(lat, 37., 0., 9e5), custom(RE, RE, MU, [0.; 3], w), 2., t);
                let Some(s) = ctx.done(&json!([c])) else { continue };
                let (r0, _) = model::init_position(&Planet::from_json(&c["planet_model"]), lat.to_radians(), 37f64.to_radians(), 9e5);
                let (r, v) = kepler(MU, r0, cross([0., 0., w], r0), t);
                ctx.eqv("Kepler position", s.r, r, 2e-9, 0.);
                ctx.eqv("Kepler velocity", s.v, v, 2e-9, 0.);
            }
        }
    }
    let (nm, ni, nt) = if th { (8, 8, 10) } else { (4, 4, 5) };
    for a in 0..nm {
        for b in 0..ni {
            for k in 1..=nt {
                if !ctx.next() {
                    continue;
                }
                let (ms, mp) = (400. + 300. * a as f64, 1500.);
                let (isp, f) = (250. + 50. * b as f64, 1.5e4);
                let t = 20. * k as f64;
                let mut c = coast(init(0., 0., 0., 1e5), void(0.), 0.5, t);
                set(&mut c, "vehicle", json!({"structure_mass": ms, "propellant_mass": mp, "engines": [engine([0., 0.], f, isp, 0.)]}));
                let Some(s) = ctx.done(&json!([c])) else { continue };
                let ve = isp * model::G0;
                let m0 = ms + mp;
                let m1 = m0 - f / ve * t;
                let v = ve * (m0 / m1).ln();
                let x = ve * (t - m1 / (f / ve) * (m0 / m1).ln());
                ctx.eqv("rocket equation velocity", s.v, [v, 0., 0.], 1e-8, 0.);
                ctx.eq("rocket equation distance", s.r[0] - RE - 1e5, x, 1e-7, 1e-6);
                ctx.eq("burnt mass", s.m, m1, 1e-12, 0.);
            }
        }
    }
    // a few steps in every regime
    let mut few = |ctx: &mut Ctx, spec: &wide::Spec| conform(ctx, &json!(spec.phases()));
    wide::all(ctx, if th { 3 } else { 2 }, &mut few);
}

pub fn c06(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let models: [(V3, f64, f64); 9] = [
        ([0.; 3], RE, MU),
        ([1.0823e-3, 0., 0.], RP, MU),
        ([1.082639e-3, -2.565e-6, -1.608e-6], RP, MU),
        ([1e-2, 0., 0.], RE, MU),
        ([0., 1e-2, 0.], RE, MU),
        ([0., 0., 1e-2], RE, MU),
        ([-1e-2, 5e-3, -5e-3], RP, MU),
        ([3e-3, -8e-3, 2e-3], RE, 2e14),
        ([0., -3e-3, 4e-3], RP, 8e14),
    ];
    let speeds: &[f64] =
        if th { &[7e-4, 9e-4, 1.1e-3, 1.2e-3, 1.3e-3, 1.5e-3] } else { &[8e-4, 1.1e-3, 1.2e-3, 1.4e-3] };
    let n = if th { 13 } else { 7 };
    let times: Vec<f64> =
        if th { (1..=12).map(|k| 750. * k as f64).collect() } else { (1..=6).map(|k| 500. * k as f64).collect() };
    for (j, rp, mu) in models {
        for &w in speeds {
            for lat in grid(-60., 60., n) {
                for alt in [3e5, 2e6, 1e7] {
                    if !ctx.next() {
                        continue;
                    }
                    let pl = custom(RE, rp, mu, j, w);
                    let p = Planet::from_json(&pl);
                    let c0 = with(probe(init(lat, 77., 0., alt)), "planet_model", pl.clone());
                    let Some(a) = ctx.done(&json!([c0])) else { continue };
                    let e = |s: &Snap| 0.5 * dot(s.v, s.v) - p.potential(s.r);
                    let (e0, h0) = (e(&a), cross(a.r, a.v));
                    let escale = 0.5 * dot(a.v, a.v) + p.potential(a.r);
                    // once it dives deep into the planet the step is too coarse
                    let whole = json!([coast(init(lat, 77., 0., alt), pl.clone(), 5., times[times.len() - 1])]);
                    let tr = model::simulate(&whole, 100_000).expect("model");
                    let dive = tr.phases[0].iter().find(|s| norm(s.r) < 0.5 * RE).map(|s| s.t).unwrap_or(f64::INFINITY);
                    for &t in times.iter().filter(|&&t| t < dive) {
                        let c = coast(init(lat, 77., 0., alt), pl.clone(), 5., t);
                        let cfg = json!([with(c, "atmosphere.wind", json!([100.0, 0.0, 50.0]))]);
                        let Some(s) = ctx.done(&cfg) else { break };
                        ctx.eq("energy", e(&s), e0, 0., 2e-8 * escale);
                        let h = cross(s.r, s.v);
                        ctx.eq("angular momentum about the axis", h[2], h0[2], 2e-9, 0.);
                        if j == [0.; 3] {
                            ctx.eqv("angular momentum", h, h0, 2e-9, 0.);
                        }
                        ctx.eq("mass", s.m, 1000., 0., 0.);
                        if ctx.stopped() {
                            break;
                        }
                    }
                }
            }
        }
    }
    // far away the motion is slow
    for alt in [5e7, 2e8, 1e9, 2e10] {
        for (j, rp, mu) in models {
            for lat in grid(-60., 60., 5) {
                for f in [0.7, 0.9, 1.0, 1.2] {
                    if !ctx.next() {
                        continue;
                    }
                    let r = RE + alt;
                    let w = f * (mu / r.powi(3)).sqrt();
                    let pl = custom(RE, rp, mu, j, w);
                    let p = Planet::from_json(&pl);
                    let e = |s: &Snap| 0.5 * dot(s.v, s.v) - p.potential(s.r);
                    let Some(a) = ctx.done(&json!([with(probe(init(lat, 77., 0., alt)), "planet_model", pl.clone())])) else { continue };
                    let escale = 0.5 * dot(a.v, a.v) + p.potential(a.r);
                    for k in [20., 100., 300.] {
                        let h = 0.002 / w;
                        let c = coast(init(lat, 77., 0., alt), pl.clone(), h, k * h);
                        let Some(s) = ctx.done(&json!([c])) else { break };
                        ctx.eq("energy", e(&s), e(&a), 0., 2e-8 * escale);
                        let (l, l0) = (cross(s.r, s.v), cross(a.r, a.v));
                        ctx.eq("angular momentum about the axis", l[2], l0[2], 2e-9, 0.);
                        if j == [0.; 3] {
                            ctx.eqv("angular momentum", l, l0, 2e-9, 0.);
                        }
                    }
                }
            }
        }
    }
}

fn flights() -> Vec<Vec<Value>> {
    let mut a = lively();
    set(&mut a, "steering", json!({"pitch": ["time_since_event", [-3.0, 0.2, 0.0]], "roll": ["time", [4.0, 0.0, 0.0]], "yaw": ["time", [1.0, 0.1, 0.0]]}));
    let mut b = lively();
    set(&mut b, "vehicle.lift_coeff", json!({"x": ["alpha", [-2.0, 2.0]], "data": [-1.0, 1.0]}));
    set(&mut b, "vehicle.side_force_coeff", konst(0.3));
    set(&mut b, "vehicle.engines", json!([engine([0.1, 0.2], 2e4, 300., 0.1), engine([0.0, -0.3], 1e4, 250., 0.)]));
    set(&mut b, "max_acceleration", json!(16.0));
    let coast_ = json!({"vehicle": {"engines": []}, "stepsize": 5.0, "end_criterion": ["time_since_event", 40.0]});
    let relight = json!({"vehicle": {"structure_mass": 300.0, "propellant_mass": 500.0, "engines": [engine([0.0, 0.1], 9e3, 330., 0.)]},
        "steering": {"pitch": ["time_since_event", [-1.0, 0.0, 0.0]]}, "stepsize": 2.0, "end_criterion": ["time_since_event", 30.0]});
    let free = coast(init(0., 0., 0., 4e5), json!("spherical"), 10., 200.);
    vec![
        vec![a.clone()],
        vec![b.clone()],
        vec![a.clone(), coast_.clone()],
        vec![b.clone(), coast_.clone(), relight.clone()],
        vec![a, relight],
        vec![free],
    ]
}

fn rotate(v: &Value, phi: f64) -> Value {
    let w = model::v3(v);
    let (s, c) = phi.sin_cos();
    json!([c * w[0] - s * w[1], s * w[0] + c * w[1], w[2]])
}

/// Runs both; they have to end the same way.
fn both(ctx: &mut Ctx, a: &Value, b: &Value) -> Option<(Box<Snap>, Box<Snap>)> {
    match (ctx.run(a), ctx.run(b)) {
        (Outcome::Done(x), Outcome::Done(y)) => Some((x, y)),
        (Outcome::Aborted(_), Outcome::Aborted(_)) => None,
        (x, y) => {
            ctx.fail("outcome", format!("{} // {}", x.brief(), y.brief()));
            None
        }
    }
}

pub fn c24(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let pls = [
        json!("spherical"),
        json!("fisher_1960"),
        json!("smithsonian"),
        custom(RE, 6e6, MU, [5e-3, 1e-3, -1e-3], -2e-4),
    ];
    let (nl, ns) = if th { (13, 72) } else { (7, 24) };
    for fl in flights() {
        for pl in &pls {
            for lat in grid(-90., 90., nl) {
                for k in 1..ns {
                    if !ctx.next() {
                        continue;
                    }
                    let shift = 360. / ns as f64 * k as f64;
                    let phi = shift.to_radians();
                    let mut a = fl.clone();
                    set(&mut a[0], "planet_model", pl.clone());
                    set(&mut a[0], "init.latitude", json!(lat));
                    let lon = a[0]["init"]["longitude"].as_f64().unwrap();
                    let mut b = a.clone();
                    set(&mut b[0], "init.longitude", json!(lon + shift));
                    if !a[0]["atmosphere"]["wind"].is_null() {
                        let w = rotate(&a[0]["atmosphere"]["wind"], phi);
                        set(&mut b[0], "atmosphere.wind", w);
                    }
                    let Some((x, y)) = both(ctx, &json!(a), &json!(b)) else { continue };
                    let m = rz(-phi);
                    for ((n, u), (_, v)) in x.vectors().iter().zip(y.vectors().iter()) {
                        let body = n.ends_with("body");
                        let want = if body { *u } else { mv(&m, *u) };
                        ctx.eqv(&format!("{n} after a longitude shift"), *v, want, 1e-8, 1e-6);
                    }
                    for (n, u, v) in [
                        ("altitude", x.alt, y.alt),
                        ("mass", x.m, y.m),
                        ("mach number", x.mach, y.mach),
                        ("throttle", x.throttle, y.throttle),
                        ("dynamic pressure", x.q, y.q),
                        ("time", x.t, y.t),
                    ] {
                        ctx.eq(&format!("{n} after a longitude shift"), v, u, 1e-8, 1e-5);
                    }
                }
            }
        }
    }
    // Mirrored at the equator (no odd harmonics): yaw, roll, lateral thrust
    // and side force change sign
    let (nl, na) = if th { (21, 24) } else { (11, 12) };
    for fl in flights() {
        for pl in [json!("spherical"), json!("fisher_1960"), custom(RE, 6e6, MU, [5e-3, 0., -1e-3], -2e-4)] {
            for lat in grid(-85., 85., nl).into_iter().chain([-90., -89., -87., 87., 89., 90.]) {
                for k in 0..na {
                    if !ctx.next() {
                        continue;
                    }
                    let az = 360. / na as f64 * k as f64;
                    let mut a = fl.clone();
                    set(&mut a[0], "planet_model", pl.clone());
                    set(&mut a[0], "init.latitude", json!(lat));
                    set(&mut a[0], "init.azimuth", json!(az));
                    let mut b = a.clone();
                    set(&mut b[0], "init.latitude", json!(-lat));
                    set(&mut b[0], "init.azimuth", json!(180. - az));
                    for p in &mut b {
                        for ax in ["roll", "yaw"] {
                            if p["steering"].get(ax).is_some() {
                                for i in 0..3 {
                                    let x = p["steering"][ax][1][i].as_f64().unwrap();
                                    p["steering"][ax][1][i] = json!(-x);
                                }
                            }
                        }
                        if p["vehicle"].get("side_force_coeff").is_some() {
                            set(p, "vehicle.side_force_coeff", konst(-0.3));
                        }
                        if let Some(es) = p["vehicle"].get_mut("engines").and_then(|e| e.as_array_mut()) {
                            for e in es {
                                let x = e["incidence"][1].as_f64().unwrap();
                                e["incidence"][1] = json!(-x);
                            }
                        }
                        if p["atmosphere"].get("wind").is_some() {
                            let w = model::v3(&p["atmosphere"]["wind"]);
                            set(p, "atmosphere.wind", json!([w[0], w[1], -w[2]]));
                        }
                    }
                    let Some((x, y)) = both(ctx, &json!(a), &json!(b)) else { continue };
                    for ((n, u), (_, v)) in x.vectors().iter().zip(y.vectors().iter()) {
                        let want = if n.ends_with("body") { [u[0], -u[1], u[2]] } else { [u[0], u[1], -u[2]] };
                        ctx.eqv(&format!("{n} mirrored"), *v, want, 1e-8, 1e-6);
                    }
                    for (n, u, v) in [("altitude", x.alt, y.alt), ("mass", x.m, y.m), ("alpha", (x.alpha - y.alpha + 7.).rem_euclid(std::f64::consts::TAU), 7f64.rem_euclid(std::f64::consts::TAU)), ("throttle", x.throttle, y.throttle)] {
                        ctx.eq(&format!("{n} mirrored"), v, u, 1e-7, 1e-5);
                    }
                }
            }
        }
    }
    // any flight in any regime, turned about the axis
    let mut turned = |ctx: &mut Ctx, spec: &wide::Spec| {
        let a = spec.phases();
        let lon = a[0]["init"]["longitude"].as_f64().unwrap();
        for shift in [47.3, 180., -131.] {
            let phi = f64::to_radians(shift);
            let mut b = a.clone();
            set(&mut b[0], "init.longitude", json!(lon + shift));
            for p in &mut b {
                if p["atmosphere"].get("wind").map(|w| w.is_array()).unwrap_or(false) {
                    let w = rotate(&p["atmosphere"]["wind"], phi);
                    set(p, "atmosphere.wind", w);
                }
            }
            // how much a hair's breadth matters
            let mut c = a.clone();
            let alt = a[0]["init"]["altitude"].as_f64().unwrap();
            set(&mut c[0], "init.altitude", json!(alt + 1e-6 + 1e-14 * alt.abs()));
            set(&mut c[0], "init.azimuth", json!(a[0]["init"]["azimuth"].as_f64().unwrap() + 1e-9));
            ctx.sut.budget = 200_000;
            let (x, y, z) = (ctx.run(&json!(a)), ctx.run(&json!(b)), ctx.run(&json!(c)));
            ctx.sut.budget = crate::sut::BUDGET;
            let (Outcome::Done(x), Outcome::Done(z)) = (&x, &z) else {
                ctx.skipped += 1;
                return;
            };
            if !(x.m > 0.) || !norm(x.r).is_finite() || !(norm(sub(x.r, z.r)) < 10.) || x.rho > 0. && x.alt < 0. {
                ctx.skipped += 1;
                return;
            }
            let Outcome::Done(y) = y else {
                ctx.fail("outcome", format!("turned by {shift} degrees: {}", y.brief()));
                return;
            };
            let m = rz(-phi);
            let (yv, zv) = (y.vectors(), z.vectors());
            for (k, (n, u)) in x.vectors().iter().enumerate() {
                let want = if n.ends_with("body") { *u } else { mv(&m, *u) };
                let noise = norm(sub(zv[k].1, *u));
                let body = if n.ends_with("body") || *n == "acceleration" { 1e-8 * (norm(x.aero) + norm(x.thrust)) / if n.ends_with("force_body") { 1. } else { x.m } } else { 0. };
                ctx.eqv(&format!("{n} after a turn"), yv[k].1, want, 1e-8, 1e-6 + 10. * noise + body);
            }
            for (n, u, v, w) in [
                ("altitude", x.alt, y.alt, z.alt),
                ("mass", x.m, y.m, z.m),
                ("mach number", x.mach, y.mach, z.mach),
                ("dynamic pressure", x.q, y.q, z.q),
                ("throttle", x.throttle, y.throttle, z.throttle),
                ("time", x.t, y.t, z.t),
            ] {
                let noise = if u.is_finite() { (u - w).abs() } else { 0. };
                ctx.eq(&format!("{n} after a turn"), v, u, 1e-8, 1e-5 + 10. * noise);
            }
            if ctx.stopped() {
                return;
            }
        }
    };
    wide::all(ctx, if th { 3 } else { 2 }, &mut turned);
}

/// Compares a whole run with the model.
pub fn conform(ctx: &mut Ctx, cfg: &Value) {
    conform_within(ctx, cfg, 800)
}

fn conform_within(ctx: &mut Ctx, cfg: &Value, limit: usize) {
    // ends are met to 1e-3: shorter phases may end anywhere
    let mut end = Value::Null;
    for c in cfg.as_array().unwrap() {
        if !c["end_criterion"].is_null() {
            end = c["end_criterion"].clone();
        }
        if end[0] == "time_since_event" && end[1].as_f64().is_some_and(|t| t > 0. && t < 2e-3) {
            ctx.skipped += 1;
            return;
        }
    }
    let want = model::simulate(cfg, limit);
    let tried = model::TRIED.get();
    ctx.sut.budget = (limit as u64 * 160).max(128 << 10);
    let got = ctx.run(cfg);
    ctx.sut.budget = crate::sut::BUDGET;
    let blocks = ctx.sut.last_output.matches("Prop mass:").count();
    // Some flights tumble: compare only what is determined
    let off = [(1e-12, 0), (1.1e-12, 0b1010), (1.2e-12, 0b1100)].map(|(e, p)| model::simulate_from(cfg, limit, e, p));
    let timely = cfg.as_array().unwrap().iter().all(|c| match c["end_criterion"][0].as_str() {
        Some(n) => n.starts_with("time"),
        None => true,
    });
    let more = if timely { vec![] } else { vec![3e-13, -4e-13, 1.2e-12, -1.2e-12, 1.3e-12, -1.4e-12, 6e-12, -1.2e-11] };
    let lens = |t: &model::Trace| t.phases.iter().map(|p| p.len()).collect::<Vec<_>>();
    let determined = off.iter().all(|o| match (o, &want) {
        (Ok(o), Ok(m)) => norm(sub(o.last().r, m.last().r)) < 10. && lens(o) == lens(m),
        (Err(o), Err(m)) => o == m,
        _ => false,
    }) && more.iter().all(|e| match (model::simulate_from(cfg, limit, *e, 0b0101), &want) {
        (Ok(o), Ok(m)) => norm(sub(o.last().r, m.last().r)) < 100. && norm(sub(o.last().vacc, m.last().vacc)) < 0.01 && lens(&o) == lens(m),
        (Err(o), Err(m)) => &o == m,
        _ => false,
    });
    if !determined {
        ctx.skipped += 1;
        ctx.check("outcome", !matches!(got, Outcome::Rejected(_)), || got.brief());
        return;
    }
    match (got, want) {
        (Outcome::Done(s), Ok(tr)) => {
            let m = tr.last();
            let off: Vec<_> = off.into_iter().flatten().collect();
            let off: Vec<_> = off.iter().map(|t| t.last().clone()).collect();
            let most = |f: &dyn Fn(&Snap) -> f64| off.iter().map(f).fold(0., f64::max);
            for (k, (n, a)) in s.vectors().iter().enumerate() {
                let b = m.vectors()[k].1;
                ctx.eqv(n, *a, b, 1e-10, 1e-7 + 20. * most(&|o| norm(sub(b, o.vectors()[k].1))));
            }
            ctx.eqv("gravity_acceleration", s.grav, m.grav, 1e-9, 20. * most(&|o| norm(sub(m.grav, o.grav))));
            let mf = m.fields();
            for (k, (n, a)) in s.fields().iter().enumerate().take(17) {
                // alpha is undefined along the body y axis
                if n != "alpha" {
                    let b = mf[k].1;
                    let sens = if b.is_finite() { most(&|o| (b - o.fields()[k].1).abs()) } else { 0. };
                    ctx.eq(n, *a, b, if n == "temperature" { 1e-5 } else { 1e-9 }, 1e-7 + 20. * sens);
                }
            }
            // the printed trace has a block per tried step
            let steps: usize = tr.phases.iter().map(|p| p.len() - 1).sum();
            let steps = steps - tr.tries.iter().sum::<usize>();
            ctx.check("steps", blocks >= steps, || format!("{blocks} blocks printed, {steps} steps expected"));
        }
        (Outcome::Aborted(_), Err(e)) if e != ENDLESS => {}
        // neither has ended by then
        (Outcome::Endless, _) if tried + 80 >= blocks => {}
        (Outcome::Done(_) | Outcome::Aborted(_) | Outcome::Endless, Err(e)) if e == model::UNSPECIFIED => {}
        (o, m) => ctx.fail("outcome", format!("model: {:?}, code: {}", m.map(|t| t.last().t), o.brief())),
    }
}

const ENDLESS: &str = "endless";

pub fn c26(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let pls = [
        json!("spherical"),
        json!("fisher_1960"),
        json!("smithsonian"),
        custom(6e6, 6.2e6, 3e14, [1e-3, -1e-3, 5e-4], 2e-4),
    ];
    let airs = [
        json!({"enabled": false}),
        json!({"enabled": true, "wind": [5.0, -20.0, 11.0]}),
        json!({"enabled": true}),
    ];
    let engs = [
        json!([]),
        json!([engine([0., 0.], 4e4, 300., 0.05)]),
        json!([engine([0.1, -0.1], 3e4, 310., 0.1), engine([-0.2, 0.3], 8e3, 270., 0.)]),
        json!([engine([0.5, 0.4], 1.2e4, 450., 0.)]),
    ];
    let aeros = [
        json!({}),
        json!({"drag_coeff": konst(0.5)}),
        json!({"drag_coeff": {"x": ["alpha", [-0.5, 0.0, 0.5]], "y": ["mach_number", [0.0, 0.8, 1.2, 3.0]],
            "data": [[0.8, 0.9, 1.2, 0.9], [0.3, 0.4, 0.7, 0.5], [0.8, 0.95, 1.3, 0.9]]},
            "lift_coeff": {"x": ["alpha", [-1.0, 1.0]], "data": [-2.0, 2.0]}, "side_force_coeff": konst(0.1)}),
        json!({"lift_coeff": {"x": ["altitude", [0.0, 1e4]], "y": ["velocity_planet_norm", [0.0, 500.0]], "z": ["mass", [500.0, 1500.0]],
            "data": [[[0.1, 0.2], [0.4, 0.3]], [[-0.1, 0.6], [0.2, 0.9]]]}, "drag_coeff": konst(0.2)}),
    ];
    let steers = [
        json!({}),
        json!({"pitch": ["time_since_event", [-2.0, 0.1, 0.0]]}),
        json!({"roll": ["time", [5.0, 0.0, 0.0]], "yaw": ["velocity_planet_norm", [0.02, 0.0, 0.0]], "pitch": ["altitude", [-0.002, 0.0, 0.0]]}),
        json!({"yaw": ["time_since_event", [1.0, 0.0, 0.03]], "pitch": ["propellant_mass", [0.01, 0.0, 0.0]]}),
    ];
    let limits = [json!(-1.0), json!(14.0), json!(30.0)];
    let mk = |p: usize, a: usize, e: usize, c: usize, s: usize, l: usize, h: f64, t: f64| {
        let mut v = json!({
            "init": init(-35. + 25. * p as f64, 80. * a as f64 - 30., 45. + 70. * s as f64, 2500.),
            "planet_model": pls[p], "atmosphere": airs[a], "steering": steers[s], "max_acceleration": limits[l],
            "stepsize": h, "end_criterion": ["time_since_event", t]});
        let mut ve = aeros[c].clone();
        ve["structure_mass"] = json!(600.0);
        ve["propellant_mass"] = json!(900.0);
        ve["reference_area"] = json!(0.8);
        ve["engines"] = engs[e].clone();
        v["vehicle"] = ve;
        v
    };
    for p in 0..4 {
        for a in 0..3 {
            for e in 0..4 {
                for c in 0..4 {
                    for s in 0..4 {
                        for l in 0..3 {
                            for h in [0.5, 2.] {
                                if ctx.next() {
                                    conform(ctx, &json!([mk(p, a, e, c, s, l, h, 6.)]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let firsts: Vec<Value> = (0..8).map(|k| mk(k % 4, k % 3, 1 + k % 3, (k + 1) % 4, (k * 3 + 1) % 4, k % 2, 0.5, 2. + 0.4 * k as f64)).collect();
    let mut updates: Vec<Value> = vec![
        json!({}),
        json!({"end_criterion": ["altitude", 2450.0]}),
        json!({"end_criterion": ["propellant_mass", 800.0]}),
        json!({"end_criterion": ["velocity_planet_norm", 90.0]}),
        json!({"end_criterion": ["time", 6.3], "stepsize": 0.7}),
        json!({"vehicle": {"structure_mass": 350.0}}),
        json!({"vehicle": {"propellant_mass": 500.0}}),
        json!({"vehicle": {"structure_mass": 300.0, "propellant_mass": 444.0, "engines": [engine([0.0, 0.05], 1e4, 345., 0.02)]}}),
        json!({"vehicle": {"reference_area": 0.1}}),
        json!({"stepsize": 0.25}),
        json!({"stepsize": 1.5, "end_criterion": ["time_since_event", 4.0]}),
        json!({"max_acceleration": 9.0}),
        json!({"max_acceleration": -1, "end_criterion": ["mass", 1300.0]}),
    ];
    updates.extend(airs.iter().map(|a| json!({"atmosphere": a})));
    updates.extend(engs[..2].iter().map(|e| json!({"vehicle": {"engines": e}})));
    updates.extend(steers[1..].iter().map(|s| json!({"steering": s, "end_criterion": ["time_since_event", 1.8]})));
    updates.push(json!({"planet_model": pls[3], "vehicle": aeros[2]}));
    updates.push(json!({"planet_model": "smithsonian", "init": null, "atmosphere": null}));
    updates.push(json!({"vehicle": aeros[3], "steering": null, "stepsize": null}));
    assert_eq!(updates.len(), 24);
    let len: u32 = if th { 3 } else { 2 };
    for f in &firsts {
        for code in 0..24usize.pow(len) {
            if !ctx.next() {
                continue;
            }
            let mut c = vec![f.clone()];
            for k in 0..len {
                c.push(updates[code / 24usize.pow(k) % 24].clone());
            }
            conform(ctx, &json!(c));
        }
    }
    // as many steps as ever, in one phase or several
    for n in [5000u32, 20_000, 70_000] {
        for h in [1e-3, 1e-2] {
            for k in 0..8 {
                if !ctx.next() {
                    continue;
                }
                let mut c = mk(3, k % 3, 1 + k % 3, k % 4, (k + 1) % 4, 0, h, n as f64 * h);
                set(&mut c, "planet_model", custom(6.3e6, 6.2e6, 4e14, [1e-3, -1e-3, 5e-4], 1.03e-3));
                set(&mut c, "init.altitude", json!(if h < 0.005 { 4e4 } else { 9e5 }));
                set(&mut c, "vehicle.structure_mass", json!(6e4));
                set(&mut c, "vehicle.propellant_mass", json!(2.5e4));
                let mut all = vec![c];
                if k >= 4 {
                    all[0]["end_criterion"][1] = json!(0.31 * n as f64 * h);
                    all.push(json!({"vehicle": {"propellant_mass": 2e4}, "end_criterion": ["time_since_event", 0.6 * n as f64 * h]}));
                    all.push(json!({"vehicle": {"structure_mass": 4e4}, "end_criterion": ["time_since_event", 0.1 * n as f64 * h]}));
                }
                conform_within(ctx, &json!(all), n as usize + 1000);
            }
        }
    }
    if ctx.next() {
        let ex: Value = serde_json::from_str(include_str!("../../example.json")).unwrap();
        conform(ctx, &ex);
    }
    let mut every = |ctx: &mut Ctx, spec: &wide::Spec| conform(ctx, &json!(spec.phases()));
    wide::all(ctx, if th { 3 } else { 2 }, &mut every);
    // the same with ends which have to be searched
    for var in ["altitude", "velocity_norm", "mass", "position_planet1", "velocity_atmosphere_norm"] {
        let mut searched = |ctx: &mut Ctx, spec: &wide::Spec| {
            let mut p = spec.phases();
            let Ok(tr) = model::simulate(&json!(p), 800) else { return };
            // somewhere in the last but one step of the last phase
            let states = tr.phases.last().unwrap();
            let n = states.len();
            if n < 3 {
                return;
            }
            let (a, b) = (states[n - 3].var(var), states[n - 2].var(var));
            if (b - a).abs() < 0.05 {
                return;
            }
            let k = p.len() - 1;
            set(&mut p[k], "end_criterion", json!([var, a + 0.37 * (b - a)]));
            p.push(json!({"end_criterion": ["time_since_event", 1.0], "stepsize": 0.4}));
            conform(ctx, &json!(p));
        };
        wide::ball(ctx, &wide::AXES, if th { 2 } else { 1 }, &mut searched);
        if th || var == "altitude" {
            wide::array(ctx, &mut searched);
        }
    }
}
